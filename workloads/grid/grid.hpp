// Histories of grid handles (C15) and iteration over ranges (C17).
#pragma once
#include "common.hpp"
#include <set>
#include <grid/grid.hpp>
#include <grid/field.hpp>
#include <grid/range.hpp>
#include <grid/gridstorage/kokkos-storage.hpp>
#include <grid/iteration/range-iteration.hpp>
#include <grid/iteration/kokkos-iteration.hpp>
#include <new>
namespace wl {
using namespace schnek;
// ---------------------------------------------------------------- what a grid may hold
struct Boom {};
struct Cell { // counts its instances; its constructor can fail
  static long live, failAt; int v; unsigned tag;
  void born() { if (failAt >= 0 && failAt-- == 0) { sim_fault_fired("element:constructor-throws"); throw Boom(); } tag = 0x0ce11u; ++live; }
  Cell() : v(-1) { born(); } explicit Cell(int k) : v(k) { born(); } Cell(const Cell &c) : v(c.v) { c.ok(); born(); }
  ~Cell() { ok(); tag = 0xdeadu; --live; }
  void ok() const { if (tag != 0x0ce11u) sim_fail("element-life-time", "an element that does not exist is used or destroyed"); }
  Cell &operator=(const Cell &c) { ok(); c.ok(); v = c.v; return *this; } Cell &operator+=(const Cell &c) { ok(); c.ok(); v += c.v; return *this; } Cell &operator-=(const Cell &c) { ok(); c.ok(); v -= c.v; return *this; }
  bool operator==(const Cell &c) const { ok(); c.ok(); return v == c.v; }
};
template<class T> struct Mk { static T of(int k) { return T(k) / T(2); } static long show(const T &t) { return (long)(t * 2); } };
template<> struct Mk<int> { static int of(int k) { return k; } static long show(int t) { return t; } };
template<> struct Mk<Cell> { static Cell of(int k) { return Cell(k); } static long show(const Cell &t) { return t.v; } };
// ---------------------------------------------------------------- storage policies
template<typename T, size_t r> using StC = SingleArrayGridStorage<T, r>;
template<typename T, size_t r> using StF = SingleArrayGridStorageFortran<T, r>;
template<typename T, size_t r> using StL = LazyArrayGridStorage<T, r>;
template<typename T, size_t r> using StLF = SingleArrayGridFortranOrderStorageBase<T, r, SingleArrayLazyAllocation>;
template<typename T, size_t r> using StK = KokkosDefaultGridStorage<T, r>;
template<typename T, size_t r> using StKL = KokkosGridStorage<T, r, Kokkos::LayoutLeft>;
template<int R> Array<int, R> arr(const int *x) { Array<int, R> a; for (int d = 0; d < R; ++d) a[d] = x[d]; return a; }
template<class G> typename G::value_type &call(G &g, const int *x, std::integral_constant<int, 1>) { return g(x[0]); }
template<class G> typename G::value_type &call(G &g, const int *x, std::integral_constant<int, 2>) { return g(x[0], x[1]); }
template<class G> typename G::value_type &call(G &g, const int *x, std::integral_constant<int, 3>) { return g(x[0], x[1], x[2]); }
template<class G> typename G::value_type &call(G &g, const int *x, std::integral_constant<int, 4>) { return g(x[0], x[1], x[2], x[3]); }
template<class G> typename G::value_type callc(const G &g, const int *x, std::integral_constant<int, 1>) { return g(x[0]); }
template<class G> typename G::value_type callc(const G &g, const int *x, std::integral_constant<int, 2>) { return g(x[0], x[1]); }
template<class G> typename G::value_type callc(const G &g, const int *x, std::integral_constant<int, 3>) { return g(x[0], x[1], x[2]); }
template<class G> typename G::value_type callc(const G &g, const int *x, std::integral_constant<int, 4>) { return g(x[0], x[1], x[2], x[3]); }

template<class T, int R, template<typename, size_t> class St, bool Single> struct World {
  typedef Grid<T, R, GridNoArgCheck, St> G; typedef Field<T, R, GridNoArgCheck, St> Fd; typedef std::integral_constant<int, R> RC;
  struct Data { int id; Box box; bool sized = false; std::vector<T> v; std::vector<char> known; long version = 0; };
  struct H { int id; G *g = nullptr; Fd *f = nullptr; std::shared_ptr<Data> d; long fv = -1; int ghost = 0; double lo[4], hi[4]; bool st[4]; G &grid() { return f ? (G&)*f : *g; } const G &cgrid() const { return f ? (const G&)*f : (const G&)*g; } };
  std::vector<H> hs; int nextH = 0, nextD = 0, nval = 1; bool pressure = false; size_t maxVol;
  struct Track { Track() { sim_heap_track(1); } ~Track() { sim_heap_track(0); } };
  // runs one library operation; an allocation or an element constructor in it may fail
  template<class F> bool op(F f, bool mayFail = true, int cells = 0) {
    bool armed = mayFail && FP(pressure ? 0.35 : 0.08); bool cell = armed && std::is_same<T, Cell>::value && cells && FP(0.5); bool threw = false;
    { Track t; if (armed && !cell) sim_alloc_fail_at(F_(6)); if (cell) Cell::failAt = F_(cells);
      try { f(); } catch (std::bad_alloc &) { threw = true; } catch (Boom &) { threw = true; }
      if (armed && !cell) { bool fired = sim_alloc_fired(); sim_alloc_fail_at(-1); if (fired && !threw) sim_fail("unreported-failure", "an allocation failed and the operation reports success"); } }
    Cell::failAt = -1; if (threw) sim_probe("operation-failed"); return !threw;
  }
  static int F_(int n) { return F(n); }
  Box plan() {
    Box b; b.r = R; long v = 1; for (int d = 0; d < R; ++d) { int m = R == 1 ? (PP(0.4) ? 300 : 12) : R == 2 ? (PP(0.2) ? 14 : 6) : R == 3 ? 5 : 4; int n = PP(0.04) ? 0 : PR(1, m); b.lo[d] = PP(0.4) ? 0 : PR(-7, 7); b.hi[d] = b.lo[d] + n - 1; v *= n; } (void)v; return b;
  }
  void reshape(Data &d, const Box &b) { d.box = b; d.sized = true; d.v.clear(); size_t n = b.volume(); for (size_t i = 0; i < n; ++i) d.v.push_back(Mk<T>::of(0)); d.known.assign(n, 0); ++d.version; }
  H &any() { return hs[P(hs.size())]; }
  H *sized() { std::vector<int> c; for (size_t i = 0; i < hs.size(); ++i) if (hs[i].d->sized && hs[i].d->box.volume() > 0) c.push_back(i); return c.empty() ? nullptr : &hs[c[P(c.size())]]; }
  std::shared_ptr<Data> fresh() { auto d = std::make_shared<Data>(); d->id = nextD++; d->box.r = R; return d; }
  // ---------------------------------------------------------------- judging
  static Box boxOf(const G &g) { Box b; b.r = R; for (int d = 0; d < R; ++d) { b.lo[d] = g.getLo()[d]; b.hi[d] = g.getHi()[d]; } return b; }
  void shape(H &h, const char *when) {
    const G &g = h.cgrid(); Data &m = *h.d;
    if (!m.sized) { if (g.getSize() != 0) sim_fail("shape", "%s: handle %d of a grid that was never given a size has size %d", when, h.id, (int)g.getSize()); return; }
    Box b = boxOf(g); if (!(b == m.box)) sim_fail("shape", "%s: handle %d of grid %d covers %s instead of %s", when, h.id, m.id, b.str().c_str(), m.box.str().c_str());
    if ((long)g.getSize() != m.box.volume()) sim_fail("shape", "%s: handle %d of grid %d reports size %ld instead of %ld", when, h.id, m.id, (long)g.getSize(), m.box.volume());
    for (int d = 0; d < R; ++d) { if (g.getDims()[d] != m.box.n(d) || g.getDims(d) != m.box.n(d)) sim_fail("shape", "%s: handle %d of grid %d has %d cells along dimension %d instead of %ld", when, h.id, m.id, g.getDims(d), d, m.box.n(d)); if (g.getLo(d) != m.box.lo[d] || g.getHi(d) != m.box.hi[d] || g.getRange().getLo()[d] != m.box.lo[d] || g.getRange().getHi()[d] != m.box.hi[d]) sim_fail("shape", "%s: handle %d of grid %d reports different bounds for dimension %d", when, h.id, m.id, d); }
  }
  void cell(H &h, const int *x, int how, const char *when) {
    Data &m = *h.d; size_t k = m.box.index(x); if (!m.known[k]) return; const T &w = m.v[k]; const G &c = h.cgrid(); bool ok; long got;
    switch (how) { case 0: { T t = c[arr<R>(x)]; ok = t == w; got = Mk<T>::show(t); break; } case 1: { const T &t = c.get(arr<R>(x)); ok = t == w; got = Mk<T>::show(t); break; } case 2: { T t = callc(c, x, RC()); ok = t == w; got = Mk<T>::show(t); break; } default: { T &t = h.grid().get(arr<R>(x)); ok = t == w; got = Mk<T>::show(t); } }
    if (!ok) sim_fail("content", "%s: cell %s of grid %d is %ld through handle %d, the last value written was %ld", when, pt(x, R).c_str(), m.id, got, h.id, Mk<T>::show(w));
  }
  void content(H &h, const char *when) { Data &m = *h.d; if (!m.sized) return; int x[4]; int how = P(4); if (m.box.first(x)) do cell(h, x, how, when); while (m.box.next(x)); }
  void layout(H &h, std::true_type) {
    Data &m = *h.d; G &g = h.grid(); if (!m.sized) { if (g.begin() != g.end()) sim_fail("layout", "an empty grid iterates over something"); return; }
    size_t n = m.box.volume(); if ((size_t)(g.end() - g.begin()) != n || (size_t)(g.cend() - g.cbegin()) != n) sim_fail("layout", "iterating over grid %d visits %ld elements instead of %zu", m.id, (long)(g.end() - g.begin()), n);
    std::vector<char> seen(n, 0); int x[4];
    if (m.box.first(x)) do { T *p = &g.get(arr<R>(x)); long o = 0; for (int d = 0; d < R; ++d) o += (long)g.stride(d) * (x[d] - m.box.lo[d]); if (p != g.getRawData() + o) sim_fail("layout", "cell %s of grid %d is not where the strides say", pt(x, R).c_str(), m.id); if (o < 0 || o >= (long)n || seen[o]) sim_fail("layout", "cell %s of grid %d shares its place or lies outside", pt(x, R).c_str(), m.id); seen[o] = 1; } while (m.box.next(x));
  }
  void layout(H &h, std::false_type) { Data &m = *h.d; if (!m.sized || m.box.volume() == 0) return; G &g = h.grid(); int x[4], y[4]; m.box.first(x); T *z = &g.get(arr<R>(x)); do { long o = 0; for (int d = 0; d < R; ++d) o += (long)g.stride(d) * (x[d] - m.box.lo[d]); if (&g.get(arr<R>(x)) != z + o) sim_fail("layout", "cell %s of grid %d is not where the strides say", pt(x, R).c_str(), m.id); } while (m.box.next(x)); (void)y; }
  void field(H &h) {
    if (!h.f || h.fv != h.d->version || !h.d->sized) return; Fd &f = *h.f; Box in = h.d->box.shrunk(h.ghost); Array<int, R> lo = f.getInnerLo(), hi = f.getInnerHi(); Range<int, R> rg = f.getInnerRange();
    for (int d = 0; d < R; ++d) {
      if (lo[d] != in.lo[d] || hi[d] != in.hi[d] || rg.getLo()[d] != in.lo[d] || rg.getHi()[d] != in.hi[d]) sim_fail("field", "the inner range of field %d is [%d,%d] along dimension %d instead of [%d,%d]", h.d->id, lo[d], hi[d], d, in.lo[d], in.hi[d]);
      if ((bool)f.getStagger(d) != h.st[d] || f.getDomain().getLo()[d] != h.lo[d] || f.getDomain().getHi()[d] != h.hi[d]) sim_fail("field", "field %d has lost its domain or stagger", h.d->id);
      if (in.n(d) <= 0) continue; double dx = (h.hi[d] - h.lo[d]) / in.n(d); int i = PR(h.d->box.lo[d], h.d->box.hi[d]); double want = h.lo[d] + (i - in.lo[d] + (h.st[d] ? 0.5 : 0)) * dx, got = f.indexToPosition(d, i);
      if (std::fabs(got - want) > 1e-9 * (std::fabs(h.lo[d]) + std::fabs(h.hi[d]) + std::fabs(want))) sim_fail("field", "index %d of field %d is at %g instead of %g", i, h.d->id, got, want);
      double fr = PR(1, 9) / 10.0; int j; double off; f.positionToIndex(d, want + fr * dx, j, off); if (j != i || std::fabs(off - fr) > 1e-6 || f.positionToIndex(d, want + fr * dx) != i) sim_fail("field", "a position %g cells beyond index %d of field %d is mapped to %d + %g", fr, i, h.d->id, j, off);
    }
  }
  void verify(const char *when, bool full) { for (auto &h : hs) { shape(h, when); field(h); } for (auto &h : hs) if (full || PP(0.3)) { content(h, when); layout(h, std::integral_constant<bool, Single>()); } if (full || PP(0.2)) sim_heap_check(); }
  // ---------------------------------------------------------------- operations
  void noteFailed(H &h) { // a resize failed: every handle of the grid is empty now, or every handle still has the old contents
    Data &m = *h.d; if (!m.sized && h.grid().getSize() == 0) { for (auto &o : hs) if (o.d == h.d && o.grid().getSize() != 0) sim_fail("failed-resize", "after a failed resize handle %d has size %d", o.id, (int)o.grid().getSize()); Box b = boxOf(h.cgrid()); if (b.volume() == 0) reshape(m, b); else return; }
    Box b = boxOf(h.cgrid()); if (m.sized && b == m.box && h.grid().getSize() == m.box.volume() && m.box.volume() > 0) { sim_probe("failed-resize-kept"); return; }
    if (h.grid().getSize() != 0 || b.volume() != 0) sim_fail("failed-resize", "after a failed resize handle %d covers %s and has size %d", h.id, b.str().c_str(), (int)h.grid().getSize());
    sim_probe("failed-resize-empty"); reshape(m, b);
  }
  void resize(H &h) {
    Box b = plan(); sim_note("resize handle %d of grid %d to %s", h.id, h.d->id, b.str().c_str()); bool huge = PP(0.02); int x[4]; Array<int, R> lo = arr<R>(b.lo), hi = arr<R>(b.hi);
    if (huge && !h.f) { sim_fault_fired("alloc:out-of-memory"); for (int d = 0; d < R; ++d) { lo[d] = 0; hi[d] = d ? 0 : (1 << 30) + PR(1, 1000); } if (op([&] { h.grid().resize(lo, hi); }, false)) sim_fail("unreported-failure", "a resize that needs more memory than there is reports success"); noteFailed(h); return; }
    bool ok; int how = P(4);
    if (h.f) {
      int g = P(3); Range<double, R> dom; Array<bool, R> st; for (int d = 0; d < R; ++d) { h.lo[d] = PR(-8, 8) / 4.0; h.hi[d] = h.lo[d] + PR(1, 16) / 4.0; dom.getLo()[d] = h.lo[d]; dom.getHi()[d] = h.hi[d]; st[d] = h.st[d] = P(2); if (b.n(d) == 0) b.hi[d] = b.lo[d]; } h.ghost = g; Box o = b; 
      if (how == 0) for (int d = 0; d < R; ++d) { o.hi[d] -= o.lo[d]; o.lo[d] = 0; } lo = arr<R>(o.lo); hi = arr<R>(o.hi); Array<int, R> n; for (int d = 0; d < R; ++d) n[d] = o.hi[d] + 1; Range<int, R> rg(lo, hi); Box full = o.shrunk(-g);
      ok = op([&] { if (how == 0) h.f->resize(n, dom, st, g); else if (how == 1) h.f->resize(rg, dom, st, g); else h.f->resize(lo, hi, dom, st, g); }, true, full.volume() + 1); if (!ok) { noteFailed(h); h.fv = -1; return; } reshape(*h.d, full); h.fv = h.d->version; return;
    }
    G &g = h.grid(); Array<int, R> n; for (int d = 0; d < R; ++d) n[d] = b.n(d);
    if (how == 0) { for (int d = 0; d < R; ++d) { b.hi[d] -= b.lo[d]; b.lo[d] = 0; } ok = op([&] { g.resize(n); }, true, b.volume() + 1); }
    else if (how == 1) ok = op([&] { g.resize(Range<int, R>(lo, hi)); }, true, b.volume() + 1);
    else if (how == 2) { H *o = sized(); if (o && PP(0.7)) { b = o->d->box; G &s = o->grid(); ok = op([&] { g.resize(s); }, true, b.volume() + 1); } else { Grid<int, R, GridNoArgCheck, StC> s(lo, hi); ok = op([&] { g.resize(s); }, true, b.volume() + 1); } }
    else ok = op([&] { g.resize(lo, hi); }, true, b.volume() + 1);
    (void)x; if (!ok) { noteFailed(h); return; } reshape(*h.d, b);
  }
  void burst() { // a long phase of small sizes after a large one, lets storage with spare room shrink
    H &h = any(); if (h.f) return; bool few = true; int n = PR(30, 150); Box b; b.r = R; for (int d = 0; d < R; ++d) { b.lo[d] = 0; b.hi[d] = d == 0 && R == 1 ? PR(80, 400) : R == 2 ? PR(10, 20) : R == 3 ? PR(4, 7) : 3; } sim_note("burst of %d resizes through handle %d", n, h.id); bool shr = false;
    for (int i = 0; i <= n; ++i) { if (i) for (int d = 0; d < R; ++d) { b.lo[d] = d == 0 ? P(3) : 0; b.hi[d] = b.lo[d] + (d == 0 ? P(3) : 0); } std::vector<int> c; for (size_t k = 0; k < hs.size(); ++k) if (hs[k].d == h.d && !hs[k].f) c.push_back(k); H &q = hs[c[few && i % 8 ? 0 : P(c.size())]]; Array<int, R> lo = arr<R>(b.lo), hi = arr<R>(b.hi); G &g = q.grid(); bool ok = op([&] { g.resize(lo, hi); }, i % 8 == 0, b.volume() + 1); if (!ok) { noteFailed(q); } else reshape(*q.d, b); if (i % 16 == 0) { write(); verify("burst", false); } } (void)shr;
  }
  void create() {
    H h; h.id = nextH; h.d = fresh(); Box b = plan(); Array<int, R> lo = arr<R>(b.lo), hi = arr<R>(b.hi), n; for (int d = 0; d < R; ++d) n[d] = b.n(d); bool fld = PP(0.3), ok; int how = P(4); sim_note("new handle %d (%s) %s", h.id, fld ? "field" : "grid", b.str().c_str());
    if (fld) {
      int g = P(3); Range<double, R> dom; Array<bool, R> st; for (int d = 0; d < R; ++d) { h.lo[d] = PR(-8, 8) / 4.0; h.hi[d] = h.lo[d] + PR(1, 16) / 4.0; dom.getLo()[d] = h.lo[d]; dom.getHi()[d] = h.hi[d]; st[d] = h.st[d] = P(2); if (b.n(d) == 0) b.hi[d] = b.lo[d]; } if (how == 1) for (int d = 0; d < R; ++d) { b.hi[d] -= b.lo[d]; b.lo[d] = 0; } h.ghost = g; Box full = b.shrunk(-g); lo = arr<R>(b.lo); hi = arr<R>(b.hi); for (int d = 0; d < R; ++d) n[d] = b.n(d); Range<int, R> rg(lo, hi);
      ok = op([&] { h.f = how == 0 ? new Fd() : how == 1 ? new Fd(n, dom, st, g) : how == 2 ? new Fd(lo, hi, dom, st, g) : new Fd(rg, dom, st, g); }, true, full.volume() + 1); if (!ok) return; if (how) { reshape(*h.d, full); h.fv = h.d->version; }
    } else { if (how == 1) for (int d = 0; d < R; ++d) { b.hi[d] -= b.lo[d]; b.lo[d] = 0; } Range<int, R> rg(lo, hi); ok = op([&] { h.g = how == 0 ? new G() : how == 1 ? new G(n) : how == 2 ? new G(lo, hi) : new G(rg); }, true, b.volume() + 1); if (!ok) return; if (how) reshape(*h.d, b); }
    ++nextH; hs.push_back(h);
  }
  void copy() {
    H &s = any(); H h; h.id = nextH; h.d = s.d; bool fld = s.f && PP(0.7); sim_note("handle %d is a copy of handle %d", h.id, s.id); bool ok = op([&] { if (fld) h.f = new Fd(*s.f); else h.g = new G(s.grid()); }); if (!ok) return;
    if (fld) { h.fv = s.fv; h.ghost = s.ghost; for (int d = 0; d < R; ++d) { h.lo[d] = s.lo[d]; h.hi[d] = s.hi[d]; h.st[d] = s.st[d]; } } ++nextH; hs.push_back(h);
  }
  void assign() {
    H &a = any(), &b = any(); if (a.f && !b.f) return; sim_note("handle %d = handle %d", a.id, b.id); bool ok = op([&] { if (a.f) *a.f = *b.f; else *a.g = b.grid(); });
    if (!ok) { if (a.f) a.fv = -1; return; } a.d = b.d; if (a.f) { a.fv = b.fv; a.ghost = b.ghost; for (int d = 0; d < R; ++d) { a.lo[d] = b.lo[d]; a.hi[d] = b.hi[d]; a.st[d] = b.st[d]; } }
  }
  void destroy(size_t k) { H h = hs[k]; hs.erase(hs.begin() + k); sim_note("handle %d ends", h.id); Track t; delete h.g; delete h.f; }
  void write() {
    H *h = sized(); if (!h) return; Data &m = *h->d; int x[4], n = PP(0.3) ? -1 : PR(1, 6); int how = P(3); sim_note("write through handle %d", h->id);
    auto put = [&] { int k = nval++; T v = Mk<T>::of(k); if (how == 0) h->grid()[arr<R>(x)] = v; else if (how == 1) call(h->grid(), x, RC()) = v; else h->grid().get(arr<R>(x)) = v; m.v[m.box.index(x)] = v; m.known[m.box.index(x)] = 1; };
    if (n < 0) { m.box.first(x); do put(); while (m.box.next(x)); } else for (int i = 0; i < n; ++i) { for (int d = 0; d < R; ++d) x[d] = PR(m.box.lo[d], m.box.hi[d]); put(); }
  }
  void fill(std::false_type) { }
  void fill(std::true_type) { H &h = any(); sim_note("fill through handle %d", h.id); T v = Mk<T>::of(nval++); if (h.f && P(2)) { if (&(*h.f = v) != h.f) sim_fail("result", "filling a field does not return the field"); } else if (&(h.grid() = v) != &h.grid()) sim_fail("result", "filling a grid does not return the grid"); if (h.d->sized) for (size_t i = 0; i < h.d->v.size(); ++i) { h.d->v[i] = v; h.d->known[i] = 1; } }
  void same(H &a, std::false_type) { diff(a); }
  void same(H &a, std::true_type) { // the same storage: element by element, both grids have the same shape
    for (auto &b : hs) if (b.d != a.d && b.d->sized && b.d->box == a.d->box) { bool neg = P(2); sim_note("handle %d %s= handle %d", a.id, neg ? "-" : "+", b.id); for (size_t i = 0; i < a.d->v.size(); ++i) if (!a.d->known[i] || !b.d->known[i]) return; G &x = a.grid(), &y = b.grid(); if (neg) x -= y; else x += y; for (size_t i = 0; i < a.d->v.size(); ++i) { if (neg) a.d->v[i] -= b.d->v[i]; else a.d->v[i] += b.d->v[i]; } sim_probe("grid-arithmetic"); return; } diff(a);
  }
  void diff(H &a) { if constexpr (std::is_same<St<T, R>, StC<T, R>>::value) other<StF>(a); else other<StC>(a); }
  template<template<typename, size_t> class St2> void other(H &a) {
    Data &m = *a.d; if (!m.sized) return; for (char k : m.known) if (!k) return; Box b = m.box; for (int d = 0; d < R; ++d) { b.lo[d] -= P(2); b.hi[d] += P(2); } if (b.volume() == 0) for (int d = 0; d < R; ++d) if (b.n(d) <= 0) b.hi[d] = b.lo[d];
    typedef Grid<T, R, GridNoArgCheck, St2> G2; G2 s(arr<R>(b.lo), arr<R>(b.hi)); int x[4], k = 1; b.first(x); std::vector<int> w(b.volume()); do { w[b.index(x)] = k; s.get(arr<R>(x)) = Mk<T>::of(k); k = k % 50 + 1; } while (b.next(x));
    bool neg = P(2); sim_note("handle %d %s= a grid with another storage", a.id, neg ? "-" : "+"); G &g = a.grid(); if (neg) g -= s; else g += s; if (m.box.first(x)) do { T v = Mk<T>::of(w[b.index(x)]); if (neg) m.v[m.box.index(x)] -= v; else m.v[m.box.index(x)] += v; } while (m.box.next(x)); sim_probe("grid-arithmetic-other-storage");
  }
  void run(int tier) {
    pressure = FP(0.5); int n = PR(4, tier ? 60 : 30); create(); bool moved = false;
    for (int i = 0; i < n; ++i) {
      if (hs.empty() || (hs.size() < 8 && PP(0.12))) create();
      if (hs.empty()) continue;
      switch (P(16)) {
        case 0: case 1: case 2: if (hs.size() < 9) copy(); break; case 3: case 4: assign(); break; case 5: case 6: case 7: case 8: resize(any()); break; case 9: if (PP(0.12)) burst(); else destroy(P(hs.size())); break;
        case 10: case 11: case 12: write(); break; case 13: fill(std::integral_constant<bool, Single>()); break; case 14: if (H *h = sized()) same(*h, std::integral_constant<bool, Single>()); break; default: if (H *h = sized()) { if constexpr (Single) other<StK>(*h); else other<StF>(*h); } }
      verify("history", PP(0.2)); std::set<Data*> ds; for (auto &h : hs) ds.insert(h.d.get()); if (ds.size() < hs.size()) moved = true;
    }
    verify("at the end", true); while (!hs.empty()) { destroy(P(hs.size())); if (PP(0.4)) verify("while the handles end", false); }
    if (sim_heap_live()) sim_fail("leak", "%zu bytes are still allocated after the last handle ended", sim_heap_live()); if (Cell::live) sim_fail("leak", "%ld elements still exist after the last handle ended", Cell::live); if (moved) sim_nontrivial();
  }
};
struct GridPlan { int tier = 0, storage = 0, rank = 1, type = 0; };
void worlds1(const GridPlan &); void worlds2(const GridPlan &); void worlds3(const GridPlan &); void worlds4(const GridPlan &);
void loops(const GridPlan &); void highRank(const GridPlan &);
} // namespace wl
