// The calls whose results must not depend on workers or schedule: op_run(op) on v, n, seed.
#pragma once
#include "fncommon.h"
#include <random>
#include <parlay/delayed.h>
#include <parlay/io.h>
#include <parlay/random.h>
#ifndef PART
#define PART 0
#endif
using parlay::sequence;
using E = ty::E;
static V v; static uint64_t seed; static size_t n;
// waste a little time, differently in each thread and call, to vary the schedule
static void jitter() { static thread_local uint64_t x = (uint64_t)(uintptr_t)&x; x = x * 6364136223846793005ull + 1442695040888963407ull; if ((x >> 60) == 0) for (volatile int i = 0; i < (int)(x >> 52 & 255); i = i + 1) {} }
struct Mat { ll a, b, c, d; };   // 2x2 matrices modulo a prime: not commutative
static const ll P = 10007;
static Mat mul(const Mat& x, const Mat& y) { jitter(); return Mat{(x.a * y.a + x.b * y.c) % P, (x.a * y.b + x.b * y.d) % P, (x.c * y.a + x.d * y.c) % P, (x.c * y.b + x.d * y.d) % P}; }
static Mat mat(ll k) { return Mat{k % P, 1, (k / 3) % P, 2}; }
static auto mon() { return parlay::make_monoid(mul, Mat{1, 0, 0, 1}); }
static void add(V& o, const Mat& m) { o.push_back(m.a * P + m.b); o.push_back(m.c * P + m.d); }
static sequence<E> elems() { return parlay::tabulate(n, [](size_t i) { return E{(int)v[i], (int)i}; }); }
static V outE(const sequence<E>& s) { V o; for (auto& e : s) { o.push_back(e.k); o.push_back(e.i); } return o; }
static bool third(const E& e) { jitter(); return e.k % 3 == 0; }
static auto less() { return [](const E& a, const E& b) { jitter(); return a.k / 4 < b.k / 4; }; }
static V bits(uint64_t x) { return V{(ll)(x >> 48), (ll)(x >> 24 & 0xffffff), (ll)(x & 0xffffff)}; }
static void put(V& o, uint64_t x) { for (auto b : bits(x)) o.push_back(b); }
#if PART == 0
constexpr int NOPS = 9;
static const char* names[] = {"shuffle", "shuffle", "permutation", "permutation", "permutation", "generator", "stream", "legacy", "distribution"};
static V op_run(int op) {
  V o; parlay::random rs(seed);
  switch (op) {
    case 0: { auto s = elems(); for (auto& e : parlay::random_shuffle(s, rs)) o.push_back(e.i); return o; }
    case 1: { auto s = parlay::tabulate(n, [](size_t i) { return ty::H((int)v[i], (int)i); }); for (auto& e : parlay::random_shuffle(s, rs)) o.push_back(ty::idx(e)); return o; }
    case 2: return ints(parlay::random_permutation<int>((int)n, rs));
    case 3: return ints(parlay::random_permutation<size_t>(n, rs));
    case 4: { auto p = parlay::random_permutation<unsigned short>((unsigned short)(n % 65536), rs); return ints(p); }
    case 5: { parlay::random_generator g(seed); auto s = parlay::tabulate(std::min<size_t>(n, 400), [&](size_t i) { auto h = g[i]; size_t a = h(); auto k = h[i]; return std::make_pair(a, k() ^ h()); }); for (auto& p : s) { put(o, p.first); put(o, p.second); } return o; }
    case 6: { parlay::random_generator g(seed), h(7); h.seed(seed); for (int i = 0; i < 20; i++) { auto copy = g; (void)g[i]; (void)g[i + 1](); size_t x = g(), y = h(); put(o, x); put(o, y); put(o, copy()); } return o; }
    case 7: { parlay::random g(seed); for (size_t i = 0; i < 20; i++) { put(o, g.ith_rand(i)); put(o, g[i]); put(o, g.fork(i).rand()); g = g.next(); } return o; }
    default: { parlay::random_generator g(seed); std::uniform_int_distribution<int> d(0, 1000); auto s = parlay::tabulate(std::min<size_t>(n, 500), [&](size_t i) { auto r = g[i]; auto dd = d; return dd(r); }); return ints(s); }
  }
}
#elif PART == 1
constexpr int NOPS = 14;
static V op_run(int op) {
  V o;
  switch (op) {
    case 0: return outE(parlay::stable_sort(elems(), less()));
    case 1: { auto s = elems(); parlay::stable_sort_inplace(s, less()); return outE(s); }
    case 2: return outE(parlay::stable_integer_sort(elems(), [](const E& e) { jitter(); return (unsigned)e.k; }));
    case 3: { auto s = parlay::sort(elems(), [](const E& a, const E& b) { jitter(); return std::make_pair(a.k, a.i) < std::make_pair(b.k, b.i); }); return outE(s); }
    case 4: { auto r = parlay::counting_sort(elems(), 16, [](const E& e) { jitter(); return (size_t)(e.k % 16); }); o = outE(r.first); for (auto x : r.second) o.push_back((ll)x); return o; }
    case 5: { auto s = parlay::tabulate(n, [](size_t i) { return mat(v[i]); }); auto r = parlay::scan(s, mon()); for (auto& m : r.first) add(o, m); add(o, r.second); return o; }
    case 6: { auto s = parlay::tabulate(n, [](size_t i) { return mat(v[i]); }); add(o, parlay::reduce(s, mon())); auto r = parlay::scan_inclusive(s, mon()); for (auto& m : r) add(o, m); return o; }
    case 7: return outE(parlay::filter(elems(), third));
    case 8: { auto s = elems(); auto f = parlay::tabulate(n, [](size_t i) { jitter(); return v[i] % 2 == 0; }); o = outE(parlay::pack(s, f)); for (auto x : parlay::pack_index(f)) o.push_back((ll)x); return o; }
    case 9: { auto r = parlay::group_by_key_ordered(parlay::tabulate(n, [](size_t i) { return std::make_pair((int)v[i] % 50, (int)i); }), [](int a, int b) { jitter(); return a < b; }); for (auto& g : r) { o.push_back(g.first); for (int x : g.second) o.push_back(x); } return o; }
    case 10: { auto r = parlay::group_by_index(parlay::tabulate(n, [](size_t i) { return std::make_pair((unsigned)v[i] % 60, (int)i); }), 60u); for (auto& g : r) { o.push_back((ll)g.size()); for (int x : g) o.push_back(x); } return o; }
    case 11: { auto s = parlay::tabulate(n, [](size_t i) { return std::make_pair((size_t)v[i] % 30, mat(v[i] + (ll)i)); }); for (auto& m : parlay::reduce_by_index(s, 30, mon())) add(o, m); return o; }
    case 12: { auto s = elems(); return ints(parlay::rank(s, less())); }
    default: return outE(parlay::remove_duplicates_ordered(elems(), less()));
  }
}
#elif PART == 2
constexpr int NOPS = 13;
static V op_run(int op) {
  V o; auto s = elems();
  auto at = [&](auto it) { return (ll)(it - s.begin()); };
  switch (op) {
    case 0: { int k = v.empty() ? 0 : (int)v[n / 2]; o.push_back(at(parlay::find_if(s, [k](const E& e) { jitter(); return e.k == k; }))); o.push_back(at(parlay::find_if_not(s, [](const E& e) { jitter(); return e.k >= 0; }))); return o; }
    case 1: { o.push_back(at(parlay::min_element(s, less()))); o.push_back(at(parlay::max_element(s, less()))); auto p = parlay::minmax_element(s, less()); o.push_back(at(p.first)); o.push_back(at(p.second)); return o; }
    case 2: { o.push_back(at(parlay::adjacent_find(s, [](const E& a, const E& b) { jitter(); return a.k == b.k; }))); return o; }
    case 3: { auto t = s; if (n) t[n / 3].k++; auto p = parlay::mismatch(s, t, [](const E& a, const E& b) { jitter(); return a.k == b.k; }); o.push_back(at(p.first)); return o; }
    case 4: return outE(parlay::unique(s, [](const E& a, const E& b) { jitter(); return a.k == b.k; }));
    case 5: { if (n) { o.push_back(parlay::kth_smallest_copy(s, n / 3, less()).k / 4); } return o; }
    case 6: { auto f = parlay::delayed::filter(s, third); auto m = parlay::delayed::map(f, [](const E& e) { jitter(); return E{e.k + 1, e.i}; }); return outE(parlay::delayed::to_sequence(m)); }
    case 7: { auto m = parlay::delayed::map(s, [](const E& e) { return mat(e.k); }); auto p = parlay::delayed::scan(m, mon()); auto q = parlay::delayed::to_sequence(p.first); for (auto& x : q) add(o, x); add(o, p.second); return o; }
    case 8: { auto z = parlay::map(s, [](const E& e) { return sequence<int>((size_t)(e.k % 4), e.i); }); auto f = parlay::delayed::flatten(z); auto q = parlay::delayed::to_sequence(f); auto w = parlay::flatten(z); o = ints(q); for (int x : w) o.push_back(x); return o; }
    case 9: { auto c = parlay::tabulate(n, [](size_t i) { return (char)('a' + v[i] % 3); }); auto t = parlay::tokens(c, [](char x) { jitter(); return x == 'a'; }); for (auto& x : t) { o.push_back((ll)x.size()); for (char y : x) o.push_back(y); } return o; }
    case 10: { auto m = parlay::map(s, [](const E& e) { return e.k % 16; }); auto h = parlay::histogram_by_index(m, 16); o = ints(h); auto d = parlay::remove_duplicate_integers(m, 16); for (auto x : d) o.push_back((ll)x); return o; }
    case 11: { auto a = parlay::sort(s, [](const E& x, const E& y) { return std::make_pair(x.k, x.i) < std::make_pair(y.k, y.i); }); auto b = parlay::map(a, [](const E& e) { return E{e.k, e.i + 100000}; }); return outE(parlay::merge(a, b, [](const E& x, const E& y) { jitter(); return x.k < y.k; })); }
    default: { auto m = parlay::map_maybe(s, [](const E& e) { jitter(); return e.k % 2 ? std::optional<int>(e.i) : std::nullopt; }); o = ints(m); auto r = parlay::rotate(s, n / 3); for (auto& e : r) o.push_back(e.i); return o; }
  }
}
#else   // results whose order is not part of the contract, put in order
constexpr int NOPS = 12;
static V sorted_rows(std::vector<V> r) { std::sort(r.begin(), r.end()); V o; for (auto& x : r) { o.insert(o.end(), x.begin(), x.end()); o.push_back(-1); } return o; }
struct StrHash { size_t operator()(const std::string& s) const { jitter(); size_t h = 7; for (char c : s) h = h * 31 + (size_t)c; return h; } };
static V op_run(int op) {
  V o; std::vector<V> rows;
  auto kv = [](ll m) { return parlay::tabulate(n, [m](size_t i) { return std::make_pair((int)(v[i] % m), (int)i); }); };
  switch (op) {
    case 0: { for (auto& g : parlay::group_by_key(kv(70))) { V r{g.first}; for (int x : g.second) r.push_back(x); std::sort(r.begin() + 1, r.end()); rows.push_back(r); } return sorted_rows(rows); }
    case 1: { for (auto& g : parlay::histogram_by_key(parlay::map(kv(90), [](auto p) { return p.first; }))) rows.push_back(V{g.first, (ll)g.second}); return sorted_rows(rows); }
    case 2: { for (auto& g : parlay::reduce_by_key(kv(3000), parlay::plus<int>())) rows.push_back(V{g.first, g.second}); return sorted_rows(rows); }
    case 3: { for (int x : parlay::remove_duplicates(parlay::map(kv(400), [](auto p) { return p.first; }))) rows.push_back(V{x}); return sorted_rows(rows); }
    case 4: { auto s = parlay::map(kv(40), [](auto p) { return std::string((size_t)(p.first % 20 + 1), (char)('a' + p.first % 26)); }); for (auto& x : parlay::remove_duplicates(s, StrHash{})) { V r; for (char c : x) r.push_back(c); rows.push_back(r); } return sorted_rows(rows); }
    case 5: { auto s = parlay::sort(parlay::map(kv(1000000), [](auto p) { return p.first; }), [](int a, int b) { jitter(); return a < b; }); return ints(s); }
    case 6: { auto s = parlay::map(kv(1000000), [](auto p) { return p.first; }); parlay::sort_inplace(s, [](int a, int b) { return a > b; }); return ints(s); }
    case 7: { auto s = parlay::map(kv(1000000), [](auto p) { return (unsigned)p.first; }); parlay::integer_sort_inplace(s); return ints(s); }
    case 8: { auto s = parlay::tabulate(n, [](size_t i) { return ty::H((int)v[i], (int)i); }); auto t = parlay::stable_sort(s, [](const ty::H& a, const ty::H& b) { jitter(); return ty::key(a) / 4 < ty::key(b) / 4; }); for (auto& x : t) o.push_back(ty::idx(x)); return o; }
    case 9: { for (auto& g : parlay::group_by_key_ordered(parlay::map(kv(30), [](auto p) { return std::make_pair(std::string((size_t)(p.first % 5), 'x') + (char)('a' + p.first % 6), p.second); }))) { o.push_back((ll)g.first.size()); for (int x : g.second) o.push_back(x); } return o; }
    case 10: { auto w = parlay::map(elems(), [](const E& e) { return parlay::sequence<int>((size_t)(e.k % 3), e.i); }); auto f = parlay::flatten(std::move(w)); o = ints(f); auto a = parlay::append(f, f); o.push_back((ll)a.size()); auto r = parlay::reverse(a); for (size_t i = 0; i < r.size(); i += 7) o.push_back(r[i]); return o; }
    default: { auto s = parlay::map(kv(1000), [](auto p) { return (size_t)p.first; }); auto t = parlay::scan_inplace(s, parlay::maxm<size_t>()); o = ints(s); o.push_back((ll)t); std::atomic<ll> c{0}; parlay::for_each(s, [&](size_t x) { c += (ll)x; }); o.push_back(c); return o; }
  }
}
#endif
