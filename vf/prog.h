// Random data-parallel programs on a pool of fields holding small integers: every intermediate value is exactly
// representable, so the model demands equality whatever the order of evaluation, the threads, the layout or the kernels.
#ifndef VF_PROG_H
#define VF_PROG_H
#include "proj.h"
#include "red.h"
#ifdef QDP_USE_OMP_THREADS
#include <omp.h>
#endif
namespace vf {
typedef LatticeInteger I; typedef LatticeBoolean B;
template <class Q> struct Held { Q q; Ref r; };
template <class... Q> struct Pools { std::tuple<std::array<Held<Q>, 3>...> t; template <class X> Held<X>& get(int k) { return std::get<std::array<Held<X>, 3>>(t)[k]; } };
typedef Pools<R, C, M, V, F, P, S, H, W, I> Pool;
const ld LIM = 1 << 21;
inline bool small_enough(const Ref& r, ld lim = LIM) { for (auto& t : r.s) for (auto& n : t.v) if (!(n.m <= lim)) return false; return true; }
inline void settle(Ref& r) { for (auto& t : r.s) for (auto& n : t.v) n.m = n.a(); }
template <class Q> void renew(Case& c, Held<Q>& h, int64_t b) { fill_int(c, h.q, b); h.r = load(h.q); }
inline int threads_max() { static int n = 0; 
#ifdef QDP_USE_OMP_THREADS
  if (!n) n = omp_get_max_threads();
#else
  n = 1;
#endif
  return n; }
inline int set_threads(Case& c) { int n = 1; if (threads_max() > 1) { n = 1 + (int)c.below(threads_max());
#ifdef QDP_USE_OMP_THREADS
  omp_set_num_threads(n);
#endif
  } return n; }
template <class Q> void same(Case& c, Held<Q>& h, const std::string& what, const char* sig = "value") { compare(c, h.q, h.r, nullptr, what, 0, 1, sig); }
struct Step { std::string name; std::function<void(Case&, Pool&)> f; };
std::vector<Step>& steps();
// operands are distinct from the destination; x is the destination itself, used site by site only
template <class D, class... A, class F> void run_step(Case& c, Pool& p, const std::string& name, F f, bool nosub = false) {
  int i = (int)c.below(3); Held<D>& d = p.get<D>(i); Sub sub = whole(); int mode = 0; if (!nosub && c.chance(2, 3)) { sub = draw_subset(c); mode = 1; }
  auto pick = [&](auto* h) -> auto& { typedef typename std::remove_pointer<decltype(h)>::type T; int k = (int)c.below(3); if constexpr (std::is_same<T, D>::value) if (k == i) k = (k + 1) % 3; return p.get<T>(k); };
  std::tuple<Held<A>&...> a{pick((A*)nullptr)...};
  c.note(name + (mode ? " on " + sub.name : std::string()) + ";");
  Ref keep = d.r, self = d.r; RefDst dst{d.r, mode ? &sub.in : nullptr}; std::apply([&](auto&... x) { f((const RefDst&)dst, self, x.r...); }, a);
  if (!small_enough(d.r)) { renew(c, d, 2); return; }
  settle(d.r);
  if (mode) { auto v = d.q[sub.s]; std::apply([&](auto&... x) { f(v, d.q, x.q...); }, a); } else std::apply([&](auto&... x) { f(d.q, d.q, x.q...); }, a);
  same(c, d, name + (mode ? " on " + sub.name : std::string()));
}
template <class D, class... A, class F> int add_step(const char* name, F f) { std::string n = name; steps().push_back({n, [n, f](Case& c, Pool& p) { run_step<D, A...>(c, p, n, f); }}); return 0; }
#define G1(D, A, ...) add_step<D, A>(#D "<" #A ": " #__VA_ARGS__, [](auto&& r, auto& x, auto& a) { __VA_ARGS__; });
#define G2(D, A, B, ...) add_step<D, A, B>(#D "<" #A "," #B ": " #__VA_ARGS__, [](auto&& r, auto& x, auto& a, auto& b) { __VA_ARGS__; });
#define G3(D, A, B, E, ...) add_step<D, A, B, E>(#D "<" #A "," #B "," #E ": " #__VA_ARGS__, [](auto&& r, auto& x, auto& a, auto& b, auto& e) { __VA_ARGS__; });
}
#endif
