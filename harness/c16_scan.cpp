#include "fncommon.h"
#include <array>
// PART 0: scalar operators; 1: interval / affine operators (trivial); 2: the same over heap-owning values; 3: large reductions
#ifndef PART
#define PART 0
#endif
// interval of positions: [a,b); combining non-adjacent intervals is an error
struct Iv { int a, b; };
static const Iv IV_ID{-1, -1}, IV_BAD{-2, -2};
inline Iv ivc(const Iv& x, const Iv& y) {
  if (x.a == -1) return y;
  if (y.a == -1) return x;
  if (x.a == -2 || y.a == -2 || x.b != y.a) return IV_BAD;
  return Iv{x.a, y.b};
}
struct Af { int a, b; };      // x -> a x + b (mod 10007), composed left to right
inline Af afc(const Af& f, const Af& g) { return Af{(int)((long)f.a * g.a % 10007), (int)(((long)g.a * f.b + g.b) % 10007)}; }
template <class P> struct Heap {    // P behind a heap allocation; moved-from is null
  P* p;
  Heap() : p(nullptr) {}
  Heap(const P& v) : p(new P(v)) {}
  Heap(const Heap& o) : p(o.p ? new P(*o.p) : nullptr) { if (!o.p) __atomic_add_fetch(&ty::bad_reads, 1, __ATOMIC_RELAXED); }
  Heap(Heap&& o) noexcept : p(o.p) { o.p = nullptr; }
  Heap& operator=(const Heap& o) { if (this != &o) { P* t = o.p ? new P(*o.p) : nullptr; delete p; p = t; } return *this; }
  Heap& operator=(Heap&& o) noexcept { if (this != &o) { delete p; p = o.p; o.p = nullptr; } return *this; }
  ~Heap() { delete p; p = nullptr; }
  P get() const { if (!p) { __atomic_add_fetch(&ty::bad_reads, 1, __ATOMIC_RELAXED); return P{-9, -9}; } return *p; }
};
inline Iv comb(const Iv& x, const Iv& y) { return ivc(x, y); }
inline Af comb(const Af& x, const Af& y) { return afc(x, y); }
template <class P> Heap<P> comb(const Heap<P>& x, const Heap<P>& y) { return Heap<P>(comb(x.get(), y.get())); }
inline Iv raw(const Iv& x) { return x; }
inline Af raw(const Af& x) { return x; }
template <class P> P raw(const Heap<P>& x) { return x.get(); }
template <class T> struct Op { T operator()(const T& x, const T& y) const { return comb(x, y); } };

// outputs of pair-valued sequences as two arrays
template <class S> void two(const S& s, V& a, V& b) { a.clear(); b.clear(); for (size_t i = 0; i < s.size(); i++) { auto q = raw(s[i]); a.push_back(q.a); b.push_back(q.b); } }

template <class T, class P> void pairs(int op, const std::vector<P>& v, P id, fn::rng& r, bool each) {
  auto mkk = [&] { parlay::sequence<T> s; for (auto& x : v) s.push_back(T(x)); return s; };
  V ia, ib; for (auto& x : v) { ia.push_back(x.a); ib.push_back(x.b); }
  auto un = [&](const parlay::sequence<T>& s) { V a, b; two(s, a, b); return (ll)(a == ia && b == ib); };
  auto m = parlay::make_monoid(Op<T>{}, T(id));
  int only = each ? -1 : (int)r(6);
  auto want = [&](int q) { return only < 0 || only == q; };
  std::vector<V> in = op == 6 ? std::vector<V>{} : std::vector<V>{ia, ib};
  ll n = (ll)v.size();
  auto s = mkk(); V a, b;
  ty::bad_reads = 0;
  if (want(0)) { fn::call("reduce", {op, n}, in); { auto t = raw(parlay::reduce(s, m)); fn::emit({{un(s), ty::bad_reads}, {t.a, t.b}}); } }
  if (want(1)) { fn::call("scan", {op, n}, in); auto [o, t0] = parlay::scan(s, m); two(o, a, b); auto t = raw(t0); fn::emit({{un(s), ty::bad_reads}, {t.a, t.b}, a, b}); }
  if (want(2)) { fn::call("scan_inclusive", {op, n}, in); auto o = parlay::scan_inclusive(s, m); two(o, a, b); fn::emit({{un(s), ty::bad_reads}, {}, a, b}); }
  if (want(3)) { auto q = mkk(); fn::call("scan_inplace", {op, n}, in); auto t = raw(parlay::scan_inplace(q, m)); two(q, a, b); fn::emit({{1, ty::bad_reads}, {t.a, t.b}, a, b}); }
  if (want(4)) { auto q = mkk(); fn::call("scan_inclusive_inplace", {op, n}, in); auto t = raw(parlay::scan_inclusive_inplace(q, m)); two(q, a, b); fn::emit({{1, ty::bad_reads}, {t.a, t.b}, a, b}); }
  if (want(5)) { fn::call("scan", {op, n}, in); auto [o, t0] = parlay::internal::scan(mkk(), m); two(o, a, b); auto t = raw(t0); fn::emit({{1, ty::bad_reads}, {t.a, t.b}, a, b}); }
}
template <class T, class M> void scalar(int op, const V& v, M m, fn::rng& r, bool each) {
  auto mkk = [&] { parlay::sequence<T> s; for (auto x : v) s.push_back((T)x); return s; };
  auto un = [&](const parlay::sequence<T>& s) { return (ll)(ints(s) == v); };
  int only = each ? -1 : (int)r(5);
  auto want = [&](int q) { return only < 0 || only == q; };
  ll n = (ll)v.size();
  auto s = mkk();
  if (want(0)) { fn::call("reduce", {op, n}, {v}); ll t = (ll)parlay::reduce(s, m); fn::emit({{un(s), 0}, {t}}); }
  if (want(1)) { fn::call("scan", {op, n}, {v}); auto [o, t] = parlay::scan(s, m); fn::emit({{un(s), 0}, {(ll)t}, ints(o)}); }
  if (want(2)) { fn::call("scan_inclusive", {op, n}, {v}); auto o = parlay::scan_inclusive(s, m); fn::emit({{un(s), 0}, {}, ints(o)}); }
  if (want(3)) { auto q = mkk(); fn::call("scan_inplace", {op, n}, {v}); ll t = (ll)parlay::scan_inplace(q, m); fn::emit({{1, 0}, {t}, ints(q)}); }
  if (want(4)) { auto q = mkk(); fn::call("scan_inclusive_inplace", {op, n}, {v}); ll t = (ll)parlay::scan_inclusive_inplace(q, m); fn::emit({{1, 0}, {t}, ints(q)}); }
}
void defaults(const V& v) {      // the overloads without an operator: sums
  parlay::sequence<long> s; for (auto x : v) s.push_back(x);
  ll n = (ll)v.size();
  fn::call("reduce", {0, n}, {v}); { ll t = parlay::reduce(s); fn::emit({{(ll)(ints(s) == v), 0}, {t}}); }
  fn::call("scan", {0, n}, {v}); { auto [o, t] = parlay::scan(s); fn::emit({{(ll)(ints(s) == v), 0}, {(ll)t}, ints(o)}); }
  fn::call("scan_inclusive", {0, n}, {v}); { auto o = parlay::scan_inclusive(s); fn::emit({{(ll)(ints(s) == v), 0}, {}, ints(o)}); }
  { auto q = s; fn::call("scan_inplace", {0, n}, {v}); ll t = parlay::scan_inplace(q); fn::emit({{1, 0}, {t}, ints(q)}); }
  { auto q = s; fn::call("scan_inclusive_inplace", {0, n}, {v}); ll t = parlay::scan_inclusive_inplace(q); fn::emit({{1, 0}, {t}, ints(q)}); }
  if (n) {   // several independent lanes at once (array and pair monoids)
    auto a = parlay::tabulate(n, [&](size_t i) { return std::array<long, 2>{s[i], -s[i]}; });
    fn::call("reduce", {0, n}, {v}); auto t = parlay::reduce(a, parlay::array_monoid<parlay::addm<long>, 2>(parlay::addm<long>{})); fn::emit({{(ll)(t[1] == -t[0]), 0}, {t[0]}});
    auto p = parlay::tabulate(n, [&](size_t i) { return std::make_pair(s[i], s[i]); });
    fn::call("scan", {0, n}, {v});
    auto [o, tt] = parlay::scan(p, parlay::pair_monoid(parlay::addm<long>{}, parlay::maxm<long>{}));
    V k; for (auto& x : o) k.push_back(x.first); fn::emit({{1, 0}, {(ll)tt.first}, k});
    fn::call("reduce", {1, n}, {v}); auto mm = parlay::reduce(parlay::tabulate(n, [&](size_t i) { return std::make_pair(s[i], s[i]); }), parlay::minmaxm<long>{});
    fn::emit({{1, 0}, {(ll)mm.second}});
    fn::call("reduce", {2, n}, {v}); fn::emit({{1, 0}, {(ll)mm.first}});
  }
}
struct mulmod { int operator()(int a, int b) const { return (int)((long)a * b % 10007); } };

void fn_case(long idx, fn::rng& r) {
  long ex = fn::num_seqs(3, 5);
  V v; bool each = true; size_t n;
#if PART == 3
  n = idx % 4 ? fn::near_len(r, {65536, 300000, 16384 * 4, 1048576}, 3000000) : fn::near_len(r, {1024, 2048, 4096, 10000}, 50000);
  fn::call("reduce", {6, (ll)n});
  if (idx % 2) { auto s = parlay::tabulate(n, [](size_t i) { return Iv{(int)i, (int)i + 1}; }); auto t = parlay::reduce(s, parlay::make_monoid(Op<Iv>{}, IV_ID)); fn::emit({{1, 0}, {t.a, t.b}}); }
  else { auto t = parlay::reduce(parlay::delayed_tabulate(n, [](size_t i) { return Iv{(int)i, (int)i + 1}; }), parlay::make_monoid(Op<Iv>{}, IV_ID)); fn::emit({{1, 0}, {t.a, t.b}}); }
  return;
#endif
  int op = (int)r(9);
  if (idx < ex) { fn::nth_seq(idx, 3, 5, v); n = v.size(); op = (int)(idx % 9); }
  else {
    n = (idx % 8) == 7 ? fn::near_len(r, {8192, 10000}, 20000) : fn::near_len(r, {1024, 2048, 3072, 4096, 16, 200}, 5000);
    each = n < 2500;
    v = fn::keys(r, n, op == 0 ? 1000 : op == 4 || op == 5 ? 64 : RG[r(7)], (int)r(fn::SHAPES));
  }
#if PART == 0
  switch (op) {
    case 0: if (r.chance(1, 2)) scalar<int>(0, v, parlay::plus<int>{}, r, each); else scalar<long>(0, v, parlay::addm<long>{}, r, each); if (each) defaults(v); break;
    case 1: for (auto& x : v) if (r.chance(1, 2)) x = -x; if (r.chance(1, 2)) scalar<int>(1, v, parlay::maximum<int>{}, r, each); else scalar<int>(1, v, parlay::maxm<int>{}, r, each); break;
    case 2: for (auto& x : v) if (r.chance(1, 2)) x = -x; if (r.chance(1, 2)) scalar<int>(2, v, parlay::minimum<int>{}, r, each); else scalar<int>(2, v, parlay::minm<int>{}, r, each); break;
    case 3: if (r.chance(1, 2)) scalar<unsigned>(3, v, parlay::bit_xor<unsigned>{}, r, each); else scalar<int>(3, v, parlay::xorm<int>{}, r, each); break;
    case 4: scalar<int>(4, v, parlay::bit_or<int>{}, r, each); break;
    case 5: scalar<int>(5, v, parlay::bit_and<int>{}, r, each); break;
    case 6: for (auto& x : v) x = r.chance(1, 3) ? (x % 2) : (r.chance(1, 3000)); scalar<bool>(6 + 3, v, parlay::logical_or<bool>{}, r, each); break;
    case 7: for (auto& x : v) x = r.chance(1, 2) ? 1 : (x % 2 || !r.chance(1, 3000)); scalar<bool>(6 + 4, v, parlay::logical_and<bool>{}, r, each); break;
    default: for (auto& x : v) x = 1 + x % 10006; scalar<int>(8, v, parlay::monoid(mulmod{}, 1), r, each); break;
  }
#else
  std::vector<Iv> iv; for (size_t i = 0; i < n; i++) iv.push_back(Iv{(int)i, (int)i + 1});
  std::vector<Af> af; for (size_t i = 0; i < n; i++) af.push_back(Af{(int)(1 + r(10006)), (int)(v[i] % 10007)});
#if PART == 1
  if (idx % 2) pairs<Iv>(6, iv, IV_ID, r, each); else pairs<Af>(7, af, Af{1, 0}, r, each);
#else
  if (idx % 2) pairs<Heap<Iv>>(6, iv, IV_ID, r, each); else pairs<Heap<Af>>(7, af, Af{1, 0}, r, each);
#endif
#endif
}
