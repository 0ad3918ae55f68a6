#pragma once
#include "plan.hpp"
#include <grid/grid.hpp>
#include <grid/field.hpp>
#include <grid/mpisubdivision.hpp>
#include <diagnostic/hdfdiagnostic.hpp>
namespace wl {
template<class G> struct IsField { enum { v = 0 }; };
template<class T, size_t R, template<size_t> class C, template<typename, size_t> class S> struct IsField<schnek::Field<T, R, C, S>> { enum { v = 1 }; };
template<class G> struct StreamProg : IoProg {
  static constexpr int R = G::Rank; typedef typename G::value_type T; typedef typename G::IndexType Index;
  std::unique_ptr<schnek::DomainSubdivision<G>> sub; IoPlan const *p; int me;
  std::unique_ptr<schnek::HdfOStream> out[2]; std::unique_ptr<schnek::HdfIStream> in[2]; bool act[2] = {true, true}, ract[2] = {true, true};
  struct Store { std::vector<int> i; std::vector<float> f; std::vector<double> d; }; std::vector<std::unique_ptr<Store>> stores;
  static Index ix(const int *x) { Index i; for (int d = 0; d < R; ++d) i[d] = x[d]; return i; }
  void init(const IoPlan &pp) override {
    p = &pp; me = sim_rank(); Index lo = ix(p->global.lo), hi = ix(p->global.hi);
    if (p->serial) { sub.reset(new schnek::SerialSubdivision<G>); for (int d = 0; d < R; ++d) { lo[d] -= p->delta; hi[d] += p->delta; } } else sub.reset(new schnek::MPICartSubdivision<G>);
    sub->init(lo, hi, p->delta);
    for (int k = 0; k < 2; ++k) { out[k].reset(new schnek::HdfOStream); in[k].reset(new schnek::HdfIStream); }
  }
  Box inner() override { return toBox(sub->getInnerDomain(), R); }
  void makeGrid(G &g) {
    if constexpr (IsField<G>::v) { schnek::Array<double, R> a, b; schnek::Array<bool, R> st; for (int d = 0; d < R; ++d) { a[d] = 0; b[d] = 1; st[d] = false; } g.resize(sub->getInnerLo(), sub->getInnerHi(), schnek::Range<double, R>(a, b), st, p->delta); }
    else g.resize(sub->getLo(), sub->getHi());
  }
  static Box boxOf(const G &g) { Box b; b.r = R; for (int d = 0; d < R; ++d) { b.lo[d] = g.getLo()[d]; b.hi[d] = g.getHi()[d]; } return b; }
  void container(schnek::GridContainer<G> &c, const Box &region) {
    makeGrid(c.grid); Box b = inner(); c.global_min = ix(region.lo); c.global_max = ix(region.hi);
    for (int d = 0; d < R; ++d) { c.local_min[d] = std::max(b.lo[d], region.lo[d]); c.local_max[d] = std::min(b.hi[d], region.hi[d]); }
  }
  void op(const IOp &o, IRec &r) override {
    int s = o.stream;
    switch (o.kind) {
      case W_OPEN: out[s]->open(o.name.c_str()); if (!sim_h5_faults_fired() && act[s] != out[s]->good()) sim_fail("stream-state", "after opening %s the stream of process %d is %s", o.name.c_str(), me, act[s] ? "not good" : "good although inactive"); break;
      case W_NAME: out[s]->setBlockName(o.name); break;
      case W_ATTR: {
        auto a = std::make_shared<schnek::HdfAttributes>(); stores.emplace_back(new Store); Store &st = *stores.back();
        size_t ni = 0, nf = 0, nd = 0; for (auto &t : o.attrs) (t.type == 0 ? ni : t.type == 1 ? nf : nd) += t.dims; st.i.reserve(ni + 1); st.f.reserve(nf + 1); st.d.reserve(nd + 1);
        for (auto &t : o.attrs) {
          if (t.type == 0) { size_t k = st.i.size(); for (int j = 0; j < t.dims; ++j) st.i.push_back((int)attrVal(t.seed, j)); if (t.dims == 1 && (t.seed & 1)) a->set(t.name, st.i[k]); else a->set(t.name, (const int*)&st.i[k], t.dims); }
          else if (t.type == 1) { size_t k = st.f.size(); for (int j = 0; j < t.dims; ++j) st.f.push_back((float)attrVal(t.seed, j)); if (t.dims == 1 && (t.seed & 1)) a->set(t.name, st.f[k]); else a->set(t.name, (const float*)&st.f[k], t.dims); }
          else { size_t k = st.d.size(); for (int j = 0; j < t.dims; ++j) st.d.push_back(attrVal(t.seed, j) / 1024.0); if (t.dims == 1 && (t.seed & 1)) a->set(t.name, st.d[k]); else a->set(t.name, (const double*)&st.d[k], t.dims); }
        }
        out[s]->setAttributes(a); break; }
      case W_WRITE: {
        schnek::GridContainer<G> c; container(c, o.region); Box b = boxOf(c.grid), in = inner(); int x[4];
        if (b.first(x)) do { c.grid[ix(x)] = in.has(x) ? (T)cellVal(o.seed, x, R) : (T)(SENTINEL + 1); } while (b.next(x));
        out[s]->writeGrid(c);
        if (b.first(x)) do { if (c.grid[ix(x)] != (in.has(x) ? (T)cellVal(o.seed, x, R) : (T)(SENTINEL + 1))) sim_fail("write-alters", "writing a grid altered cell %s", pt(x, R).c_str()); } while (b.next(x));
        break; }
      case W_CLOSE: out[s]->close(); if (out[s]->good()) sim_fail("stream-state", "stream is good after close"); break;
      case W_ACTIVE: act[s] = o.active[me]; out[s]->setActive(act[s]); break;
      case W_NEW: out[s].reset(); out[s].reset(new schnek::HdfOStream); act[s] = true; break;
      case R_OPEN: in[s]->open(o.name.c_str()); if (ract[s] && !in[s]->good()) sim_job_abort("open for reading failed"); break;
      case R_NAME: in[s]->setBlockName(o.name); break;
      case R_READ: {
        schnek::GridContainer<G> c; container(c, o.region); Box b = boxOf(c.grid); int x[4];
        if (b.first(x)) do { c.grid[ix(x)] = (T)SENTINEL; } while (b.next(x));
        in[s]->readGrid(c);
        r.box = b; r.inner = inner(); if (b.first(x)) do { r.cells.push_back((double)c.grid[ix(x)]); } while (b.next(x));
        break; }
      case R_CLOSE: in[s]->close(); break;
      case R_ACTIVE: ract[s] = o.active[me]; in[s]->setActive(ract[s]); break;
      case R_NEW: in[s].reset(); in[s].reset(new schnek::HdfIStream); ract[s] = true; break;
    }
    r.done = true;
  }
};
template<class G> IoProg *makeStream() { return new StreamProg<G>; }
#define IO_KIND(N, NAME, ...) static IoRegister N(NAME, __VA_ARGS__::Rank, IsField<__VA_ARGS__>::v, makeStream<__VA_ARGS__>)
} // namespace wl
