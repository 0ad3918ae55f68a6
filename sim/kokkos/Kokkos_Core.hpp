// Stand-in for the Kokkos library: views are reference-counted arrays on the simulated heap, and parallel
// loops run on simulated threads. Which thread gets which part, the order inside a part, the interleaving of
// the threads, and whether parallel_for returns before its iterations have run are all decided by the seeded
// scheduler. parallel_for copies the policy and the functor, as Kokkos does; fence() waits.
#pragma once
#include "sim.h"
#include <memory>
#include <string>
#include <vector>
#include <array>
#include <cstddef>
#include <cstdint>
#include <type_traits>
#include <utility>
#include <algorithm>
#include <initializer_list>

#define KOKKOS_INLINE_FUNCTION inline
#define KOKKOS_FUNCTION
#define KOKKOS_FORCEINLINE_FUNCTION inline
#define KOKKOS_LAMBDA [=]
#define KOKKOS_CLASS_LAMBDA [=, *this]
#define KOKKOS_VERSION 30401
#define KOKKOS_ENABLE_SERIAL

namespace Kokkos {
struct HostSpace { typedef HostSpace memory_space; };
struct LayoutRight {}; struct LayoutLeft {}; struct LayoutStride {};
struct SimSpace { typedef SimSpace execution_space; typedef HostSpace memory_space; typedef LayoutRight array_layout; typedef std::size_t size_type; void fence(const std::string & = "") const { sim_join(); } static const char *name() { return "Sim"; } static int concurrency() { return 4; } };
typedef SimSpace Serial; typedef SimSpace DefaultExecutionSpace; typedef SimSpace DefaultHostExecutionSpace; typedef SimSpace Threads; typedef SimSpace OpenMP;
template<class T> struct IndexType { typedef T type; };
enum class Iterate { Default, Left, Right };
template<unsigned N, Iterate O = Iterate::Default, Iterate I = Iterate::Default> struct Rank { static constexpr unsigned rank = N; };
struct Dynamic {}; struct Static {}; template<class T> struct Schedule { typedef T type; };
template<unsigned M> struct MemoryTraits {}; enum MemoryTraitsFlags { Unmanaged = 1, RandomAccess = 2, Atomic = 4, Restrict = 8, Aligned = 16 };
struct AUTO_t {}; constexpr AUTO_t AUTO{}; struct ALL_t {}; constexpr ALL_t ALL{};
struct WithoutInit_t {}; constexpr WithoutInit_t WithoutInitializing{};
struct AllocProp { std::string label; bool init = true; };
inline AllocProp view_alloc() { return {}; }
inline AllocProp view_alloc(const std::string &l) { return {l}; }
inline AllocProp view_alloc(const std::string &l, WithoutInit_t) { return {l, false}; }
inline AllocProp view_alloc(WithoutInit_t, const std::string &l) { return {l, false}; }
inline AllocProp view_alloc(WithoutInit_t) { return {"", false}; }

namespace simimpl {
template<class T> struct Ext { typedef T value; static constexpr unsigned rank = 0; };
template<class T> struct Ext<T*> { typedef typename Ext<T>::value value; static constexpr unsigned rank = Ext<T>::rank + 1; };
template<class ...P> struct HasLeft : std::false_type {};
template<class A, class ...P> struct HasLeft<A, P...> : std::conditional<std::is_same<A, LayoutLeft>::value, std::true_type, HasLeft<P...>>::type {};
template<class ...P> struct IndexOf { typedef std::int64_t type; };
template<class T, class ...P> struct IndexOf<IndexType<T>, P...> { typedef T type; };
template<class A, class ...P> struct IndexOf<A, P...> { typedef typename IndexOf<P...>::type type; };
template<class ...P> struct RankOf { static constexpr unsigned rank = 1; };
template<unsigned N, Iterate O, Iterate I, class ...P> struct RankOf<Rank<N, O, I>, P...> { static constexpr unsigned rank = N; };
template<class A, class ...P> struct RankOf<A, P...> { static constexpr unsigned rank = RankOf<P...>::rank; };
} // namespace simimpl

template<class D, class ...Props> class View {
  template<class, class...> friend class View;
public:
  typedef typename std::remove_const<typename simimpl::Ext<D>::value>::type non_const_value_type; typedef typename simimpl::Ext<D>::value value_type; typedef value_type &reference_type; typedef value_type *pointer_type; typedef std::size_t size_type; typedef HostSpace memory_space; typedef SimSpace execution_space;
  static constexpr unsigned Rank = simimpl::Ext<D>::rank; static constexpr unsigned rank = Rank; static constexpr bool left = simimpl::HasLeft<Props...>::value;
  typedef typename std::conditional<left, LayoutLeft, LayoutRight>::type array_layout; typedef View HostMirror;
private:
  struct Block { non_const_value_type *p; explicit Block(non_const_value_type *q) : p(q) {} ~Block() { delete[] p; } };
  std::shared_ptr<Block> block; non_const_value_type *ptr = nullptr; std::size_t ext[8] = {0, 0, 0, 0, 0, 0, 0, 0}, str[8] = {0, 0, 0, 0, 0, 0, 0, 0}; std::string name;
  void make(const std::string &l, bool init, std::initializer_list<long long> e) {
    name = l; unsigned d = 0; for (long long x : e) { if (x < 0) sim_fail("kokkos-usage", "a view with a negative extent was requested"); if (d < 8) ext[d++] = (std::size_t)x; }
    std::size_t n = 1; if (left) for (unsigned i = 0; i < Rank; ++i) { str[i] = n; n *= ext[i]; } else for (unsigned i = Rank; i-- > 0;) { str[i] = n; n *= ext[i]; }
    std::shared_ptr<Block> k(new Block(nullptr)); k->p = new non_const_value_type[n]; if (init) for (std::size_t i = 0; i < n; ++i) k->p[i] = non_const_value_type(); block = k; ptr = k->p;
  }
  template<class ...I> std::size_t at(I ...i) const {
    static_assert(sizeof...(I) == Rank, "wrong number of indices"); long long x[] = {(long long)i...}; std::size_t o = 0;
    for (unsigned d = 0; d < Rank; ++d) { if (x[d] < 0 || (std::size_t)x[d] >= ext[d]) sim_fail("out-of-bounds", "index %lld of dimension %u is outside a view of extent %zu", x[d], d, ext[d]); o += (std::size_t)x[d] * str[d]; } return o;
  }
public:
  View() = default; View(const View &) = default; View &operator=(const View &) = default; View(View &&) = default; View &operator=(View &&) = default;
  template<class D2, class ...P2> View(const View<D2, P2...> &o) : block(o.block), ptr(o.ptr), name(o.name) { for (int i = 0; i < 8; ++i) { ext[i] = o.ext[i]; str[i] = o.str[i]; } }
  template<class ...I> explicit View(const std::string &l, I ...i) { make(l, true, {(long long)i...}); }
  template<class ...I> explicit View(const char *l, I ...i) { make(l, true, {(long long)i...}); }
  template<class ...I> explicit View(const AllocProp &a, I ...i) { make(a.label, a.init, {(long long)i...}); }
  template<class ...I> value_type &operator()(I ...i) const { return ptr[at(i...)]; }
  template<class ...I> value_type &access(I ...i) const { return ptr[at(i...)]; }
  template<class I> value_type &operator[](I i) const { return ptr[at(i)]; }
  std::size_t size() const { std::size_t n = 1; for (unsigned i = 0; i < Rank; ++i) n *= ext[i]; return n; }
  std::size_t span() const { return size(); } bool span_is_contiguous() const { return true; } bool is_allocated() const { return ptr != nullptr; }
  std::size_t extent(unsigned d) const { return d < Rank ? ext[d] : 1; } int extent_int(unsigned d) const { return (int)extent(d); }
  template<class I> std::size_t stride(I d) const { return str[d]; } template<class I> void stride(I *s) const { for (unsigned i = 0; i < Rank; ++i) s[i] = str[i]; s[Rank] = size(); }
  std::size_t stride_0() const { return str[0]; } std::size_t stride_1() const { return str[1]; } std::size_t stride_2() const { return str[2]; } std::size_t stride_3() const { return str[3]; }
  value_type *data() const { return ptr; } std::string label() const { return name; } long use_count() const { return block.use_count(); }
};
template<class D, class ...P> void deep_copy(const View<D, P...> &v, const typename View<D, P...>::value_type &x) { sim_join(); for (std::size_t i = 0; i < v.size(); ++i) v.data()[i] = x; }
template<class D, class ...P, class D2, class ...P2> void deep_copy(const View<D, P...> &v, const View<D2, P2...> &w) { sim_join(); if (v.size() != w.size()) sim_fail("kokkos-usage", "deep_copy of views of different size"); for (std::size_t i = 0; i < v.size(); ++i) v.data()[i] = w.data()[i]; }
template<class D, class ...P, class ...I> void realloc(View<D, P...> &v, I ...i) { std::string l = v.label(); v = View<D, P...>(); v = View<D, P...>(l, i...); }

template<class ...P> struct RangePolicy {
  typedef typename simimpl::IndexOf<P...>::type index_type; typedef index_type member_type; typedef SimSpace execution_space; static constexpr unsigned rank = 1; long long lo[1], hi[1];
  template<class A, class B> RangePolicy(A a, B b) { set((long long)a, (long long)b); }
  template<class A, class B> RangePolicy(const SimSpace &, A a, B b) { set((long long)a, (long long)b); }
  void set(long long a, long long b) { lo[0] = a; hi[0] = b < a ? a : b; }
  index_type begin() const { return (index_type)lo[0]; } index_type end() const { return (index_type)hi[0]; }
};
template<class ...P> struct MDRangePolicy {
  typedef typename simimpl::IndexOf<P...>::type index_type; typedef SimSpace execution_space; static constexpr unsigned rank = simimpl::RankOf<P...>::rank; typedef Kokkos::Rank<rank> iteration_pattern; typedef std::array<std::int64_t, rank> point_type; typedef point_type tile_type; long long lo[rank], hi[rank];
  template<class A, class B> void set(const A &a, const B &b) { for (unsigned i = 0; i < rank; ++i) { lo[i] = (long long)a[i]; hi[i] = (long long)b[i] < lo[i] ? lo[i] : (long long)b[i]; } }
  template<class A, class B> MDRangePolicy(const A (&a)[rank], const B (&b)[rank]) { set(a, b); }
  template<class A, class B, class C> MDRangePolicy(const A (&a)[rank], const B (&b)[rank], const C (&)[rank]) { set(a, b); }
  template<class A, class B> MDRangePolicy(const std::array<A, rank> &a, const std::array<B, rank> &b) { set(a, b); }
  template<class A, class B, class C> MDRangePolicy(const std::array<A, rank> &a, const std::array<B, rank> &b, const std::array<C, rank> &) { set(a, b); }
};

namespace simimpl {
struct Launch { virtual ~Launch() {} int left = 0; virtual void run(int thread) = 0; };
template<class Policy, class F> struct Loop : Launch {
  Policy pol; F f; std::vector<std::vector<long long>> part; // linear positions of every thread
  Loop(const Policy &p, const F &g) : pol(p), f(g) {}
  long long volume() const { long long n = 1; for (unsigned d = 0; d < Policy::rank; ++d) n *= pol.hi[d] - pol.lo[d]; return n; }
  template<std::size_t ...I> void call(const long long *x, std::index_sequence<I...>) const { f((typename Policy::index_type)x[I]...); }
  void run(int t) override { for (long long k : part[t]) { long long x[Policy::rank]; for (unsigned d = Policy::rank; d-- > 0;) { long long n = pol.hi[d] - pol.lo[d]; x[d] = pol.lo[d] + k % n; k /= n; } sim_point("parallel iteration"); call(x, std::make_index_sequence<Policy::rank>{}); } }
};
inline void body(void *a, int t) { Launch *l = (Launch*)a; l->run(t - 1); if (--l->left == 0) delete l; }
template<class Policy, class F> void dispatch(const Policy &p, const F &f) {
  Loop<Policy, F> *l = new Loop<Policy, F>(p, f); long long n = l->volume(); if (n > 100000) sim_fail("kokkos-usage", "a loop over %lld indices was requested", n);
  int nt = 1 + (int)sim_choose(SIM_SCHED, 4), how = (int)sim_choose(SIM_SCHED, 4); l->part.resize(nt);
  for (long long k = 0; k < n; ++k) { int t = how == 0 ? (int)(k * nt / n) : how == 1 ? (int)(k % nt) : (int)sim_choose(SIM_SCHED, nt); l->part[t].push_back(k); }
  if (how == 3) for (auto &v : l->part) for (std::size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[sim_choose(SIM_SCHED, i)]); else if (how == 2) for (auto &v : l->part) std::reverse(v.begin(), v.end());
  l->left = nt; for (int t = 1; t <= nt; ++t) sim_spawn(body, l, t); if (sim_choose(SIM_SCHED, 2)) sim_join(); else sim_probe("asynchronous-loop");
}
} // namespace simimpl
template<class ...P, class F> void parallel_for(const std::string &, const RangePolicy<P...> &p, const F &f) { simimpl::dispatch(p, f); }
template<class ...P, class F> void parallel_for(const RangePolicy<P...> &p, const F &f) { simimpl::dispatch(p, f); }
template<class ...P, class F> void parallel_for(const std::string &, const MDRangePolicy<P...> &p, const F &f) { simimpl::dispatch(p, f); }
template<class ...P, class F> void parallel_for(const MDRangePolicy<P...> &p, const F &f) { simimpl::dispatch(p, f); }
template<class F> void parallel_for(const std::string &, std::size_t n, const F &f) { simimpl::dispatch(RangePolicy<>(0, n), f); }
template<class F> void parallel_for(std::size_t n, const F &f) { simimpl::dispatch(RangePolicy<>(0, n), f); }
inline void fence(const std::string & = "") { sim_join(); }
inline void initialize() {} inline void finalize() {} inline void initialize(int &, char **) {} inline bool is_initialized() { return true; }
struct ScopeGuard { template<class ...A> explicit ScopeGuard(A &&...) {} };
} // namespace Kokkos
