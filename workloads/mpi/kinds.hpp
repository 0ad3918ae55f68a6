#pragma once
#include "prog.hpp"
#include <grid/grid.hpp>
#include <grid/field.hpp>
#include <grid/mpisubdivision.hpp>
#include <limits>
#include <cmath>
#include <type_traits>
namespace wl {
template<class T> T cellValue(uint64_t h, int small, int cap) {
  if (small) return (T)(h % (uint64_t)cap);
  if constexpr (std::is_integral<T>::value) { T v; memcpy(&v, &h, sizeof v); return v; }
  else if constexpr (sizeof(T) == 4) return (T)((long)(h % 16777216) - 8388608);
  else if constexpr (sizeof(T) == 8) return (T)((long)(h >> 12)) - (T)2251799813685248.0;
  else return (T)(long)h;
}
template<class G> struct MakeGrid { static std::shared_ptr<G> make(const typename G::IndexType &lo, const typename G::IndexType &hi, int, int) { return std::make_shared<G>(lo, hi); } };
template<class T, size_t R, template<size_t> class C, template<typename, size_t> class S> struct MakeGrid<schnek::Field<T, R, C, S>> {
  typedef schnek::Field<T, R, C, S> G;
  static std::shared_ptr<G> make(const typename G::IndexType &lo, const typename G::IndexType &hi, int stagger, int delta) {
    schnek::Array<double, R> a, b; schnek::Array<bool, R> st; for (size_t d = 0; d < R; ++d) { a[d] = 0; b[d] = 1; st[d] = (stagger >> d) & 1; }
    typename G::IndexType il(lo), ih(hi); for (size_t d = 0; d < R; ++d) { il[d] += delta; ih[d] -= delta; }
    return std::make_shared<G>(il, ih, schnek::Range<double, R>(a, b), st, delta);
  }
};
template<class G, bool SERIAL, int CAP> struct Prog : ProgBase {
  static constexpr int R = G::Rank; typedef typename G::value_type T;
  typedef typename std::conditional<SERIAL, schnek::SerialSubdivision<G>, schnek::MPICartSubdivision<G>>::type Sub;
  typedef typename schnek::DomainSubdivision<G> Base; typedef typename G::IndexType Index;
  std::unique_ptr<Sub> sub; std::vector<std::shared_ptr<G>> f; typename Base::BufferType in, out; ProgPlan p;
  void init(const ProgPlan &pp) override {
    p = pp; sub.reset(new Sub); Index lo, hi; for (int d = 0; d < R; ++d) { lo[d] = p.global.lo[d]; hi[d] = p.global.hi[d]; }
    if (SERIAL) for (int d = 0; d < R; ++d) { lo[d] -= p.delta; hi[d] += p.delta; } // the serial variant takes the range including ghosts
    switch (p.overload) {
      case 1: { typename Base::DomainType dom(lo, hi); sub->init(dom, p.delta); break; }
      case 2: { auto g = MakeGrid<G>::make(lo, hi, 0, 0); sub->init(*g, p.delta); break; }
      case 3: { bool zero = true; for (int d = 0; d < R; ++d) if (lo[d]) zero = false; if (zero) { Index s; for (int d = 0; d < R; ++d) s[d] = hi[d] + 1; sub->init(s, p.delta); break; } }
      default: sub->init(lo, hi, p.delta);
    }
    if (!p.viewOnly) for (int i = 0; i < p.nfields; ++i) f.push_back(MakeGrid<G>::make(sub->getLo(), sub->getHi(), p.stagger, p.delta));
  }
  void view(View &v) override {
    v.procnum = sub->procnum(); v.procCount = sub->procCount(); v.uid = sub->getUniqueId(); v.master = sub->master(); v.delta = sub->getDelta();
    v.global = toBox(sub->getGlobalDomain(), R); v.dom = toBox(sub->getDomain(), R); v.inner = toBox(sub->getInnerDomain(), R);
    Box a; a.r = R; for (int d = 0; d < R; ++d) { a.lo[d] = sub->getLo()[d]; a.hi[d] = sub->getHi()[d]; } if (!(a == v.dom)) sim_fail("view", "local limits and local domain differ");
    for (int d = 0; d < R; ++d) { a.lo[d] = sub->getInnerLo()[d]; a.hi[d] = sub->getInnerHi()[d]; } if (!(a == v.inner)) sim_fail("view", "inner limits and inner domain differ");
    for (int d = 0; d < R; ++d) { v.blo[d] = sub->isBoundLo(d); v.bhi[d] = sub->isBoundHi(d); }
    schnek::Array<double, R> el, eh; for (int d = 0; d < R; ++d) { el[d] = p.elo[d]; eh[d] = p.ehi[d]; }
    auto e = sub->getInnerExtent(schnek::Range<double, R>(el, eh)); for (int d = 0; d < R; ++d) { v.elo[d] = e.getLo()[d]; v.ehi[d] = e.getHi()[d]; }
    { bool zero = true; for (int d = 0; d < R; ++d) if (p.elo[d] != 0) zero = false; if (zero) { auto e0 = sub->getInnerExtent(eh); for (int d = 0; d < R; ++d) if (!(std::fabs(e0.getLo()[d] - v.elo[d]) <= 1e-9 * p.ehi[d]) || !(std::fabs(e0.getHi()[d] - v.ehi[d]) <= 1e-9 * p.ehi[d])) sim_fail("physical-extent", "the extent given by its upper corner only is [%.12g,%.12g] instead of [%.12g,%.12g] along axis %d", e0.getLo()[d], e0.getHi()[d], v.elo[d], v.ehi[d], d); }
      schnek::Array<float, R> fl, fh; for (int d = 0; d < R; ++d) { fl[d] = (float)p.elo[d]; fh[d] = (float)p.ehi[d]; } auto ef = sub->getInnerExtent(schnek::Range<float, R>(fl, fh));
      for (int d = 0; d < R; ++d) { double tol = 1e-5 * (std::fabs(p.elo[d]) + std::fabs(p.ehi[d])); if (!(std::fabs(ef.getLo()[d] - v.elo[d]) <= tol) || !(std::fabs(ef.getHi()[d] - v.ehi[d]) <= tol)) sim_fail("physical-extent", "in single precision the extent is [%.9g,%.9g] instead of [%.9g,%.9g] along axis %d", ef.getLo()[d], ef.getHi()[d], v.elo[d], v.ehi[d], d); } }
    if (SERIAL) v.global = v.inner;
    v.done = true;
  }
  void fill(G &g, const Op &o, bool ghosts) {
    Box dom = toBox(sub->getDomain(), R), inner = toBox(sub->getInnerDomain(), R); int x[4]; int me = sub->procnum();
    if (dom.first(x)) do {
      bool isin = inner.has(x); if (!ghosts && !isin) continue;
      uint64_t h = h2(o.seed + o.field, isin ? 1 : 2 + me); for (int d = 0; d < R; ++d) h = h2(h, (uint64_t)(long)x[d]);
      Index i; for (int d = 0; d < R; ++d) i[d] = x[d]; g[i] = cellValue<T>(h, o.small, CAP);
    } while (dom.next(x));
  }
  void op(const Op &o, OpRec &r) override {
    switch (o.kind) {
      case OP_FILL: fill(*f[o.field], o, o.arg); break;
      case OP_EXCH: sub->exchange(*f[o.field], o.dim); break;
      case OP_EXCHALL: sub->exchange(*f[o.field]); break;
      case OP_ACC: sub->accumulate(*f[o.field], o.dim); break;
      case OP_ACCALL: static_cast<Base&>(*sub).accumulate(*f[o.field]); break;
      case OP_DATA: {
        int me = sub->procnum(); size_t n = dataSize(o.seed, me); typedef typename Base::BufferType B; typedef typename B::IndexType BI;
        if (o.small) { B fresh{BI((int)n)}; in = fresh; } else in.resize(BI((int)n));
        for (size_t i = 0; i < n; ++i) { in(i) = dataByte(o.seed, me, i); r.in.push_back(in(i)); }
        sub->exchangeData(o.dim, o.arg, in, out);
        for (size_t i = 0; i < n; ++i) if (in(i) != r.in[i]) sim_fail("send-buffer-changed", "exchanging a buffer changed byte %zu of the buffer that was sent", i);
        for (size_t i = 0; i < n; ++i) in(i) = (unsigned char)(in(i) ^ 0x5a); // what is sent may be reused at once
        int m = out.getDims(0); for (int i = 0; i < m; ++i) r.out.push_back(out(i));
        for (int i = 0; i < m; ++i) out(i) = (unsigned char)(r.out[i] + 1);
        for (size_t i = 0; i < n; ++i) if (in(i) != (unsigned char)(r.in[i] ^ 0x5a)) sim_fail("send-buffer-changed", "writing to the received buffer changed the buffer that was sent");
        break; }
      case OP_REDUCE: {
        int me = sub->procnum(); bool any = (o.arg & 3) >= 2; r.vd = any ? redDblAny(o.seed, me) : redDbl(o.seed, me); r.vi = any || o.arg == 5 ? redIntAny(o.seed, me) : redInt(o.seed, me);
        switch (o.arg) {
          case 0: r.rd = sub->sumReduce(r.vd); break; case 1: r.rd = sub->avgReduce(r.vd); break; case 2: r.rd = sub->minReduce(r.vd); break; case 3: r.rd = sub->maxReduce(r.vd); break;
          case 4: r.ri = sub->sumReduce((int)r.vi); break; case 5: r.ri = sub->avgReduce((int)r.vi); break; case 6: r.ri = sub->minReduce((int)r.vi); break; case 7: r.ri = sub->maxReduce((int)r.vi); break;
        }
        break; }
      case OP_DESTROY: f.clear(); sub.reset(); break;
    }
    if (o.kind <= OP_ACCALL) {
      G &g = *f[o.field]; Box dom = toBox(sub->getDomain(), R); int x[4]; r.cells.reserve(dom.volume());
      if (dom.first(x)) do { Index i; for (int d = 0; d < R; ++d) i[d] = x[d]; r.cells.push_back((long double)g[i]); } while (dom.next(x));
    }
    r.done = true;
  }
};
} // namespace wl
