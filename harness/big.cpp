// Calls with millions of elements.  The input is given by a formula (the key of
// element i is (a*i + b) mod m), the output is recorded as maximal arithmetic
// runs <<starts, steps, lengths>>, which specs/Big.tla knows in closed form.
#include "fncommon.h"
#include <parlay/delayed.h>
#include <parlay/random.h>
#ifndef GRP
#define GRP 13
#endif
using parlay::sequence;
struct Runs { V s, d, l; };
template <class F> Runs runs(size_t n, F at) {
  Runs R; size_t i = 0;
  while (i < n) {
    ll x = at(i), d = 0; size_t k = 1;
    if (i + 1 < n) { d = at(i + 1) - x; k = 2; ll y = x + d; while (i + k < n && at(i + k) == y + d) { y += d; k++; } }
    R.s.push_back(x); R.d.push_back(d); R.l.push_back((ll)k); i += k;
    if (R.s.size() > 60000) { R.s.push_back(-1); break; }     // hopeless
  }
  return R;
}
static size_t n; static ll a, b, m;
static ll keyat(size_t i) { return (ll)(((uint64_t)a * i + (uint64_t)b) % (uint64_t)m); }
static ll gcd_(ll x, ll y) { return y ? gcd_(y, x % y) : x; }
static void pick(fn::rng& r, size_t lo, size_t hi, ll mlo, ll mhi) {
  n = lo + r(hi - lo); m = mlo + (ll)r((uint64_t)(mhi - mlo));
  do a = 1 + (ll)r((uint64_t)m); while (gcd_(a, m) != 1 || a >= 20000);
  b = (ll)r((uint64_t)m);
}
#define CALL(name, ...) fn::call(name, {(ll)n, a, b, m, ##__VA_ARGS__})
static void out(const Runs& R) { fn::emit({R.s, R.d, R.l}); }
static void out(const Runs& R, const Runs& Q) { fn::emit({R.s, R.d, R.l, Q.s, Q.d, Q.l}); }

struct P8 { uint32_t k, i; };
struct P16 { uint64_t k, i; };
struct P24 { uint64_t k, i, z; };
struct N24 { uint64_t k = 0, i = 0; N24* self; N24() : self(this) {} N24(uint64_t k_, uint64_t i_) : k(k_), i(i_), self(this) {}
  N24(const N24& o) noexcept : k(o.k), i(o.self == &o ? o.i : 1u << 30), self(this) {}
  N24& operator=(const N24& o) noexcept { k = o.k; i = o.self == &o && self == this ? o.i : 1u << 30; return *this; }
  ~N24() { self = nullptr; } };
template <class T> T mkp(size_t i) { if constexpr (std::is_same_v<T, P24>) return T{(uint64_t)keyat(i), i, 7}; else if constexpr (std::is_same_v<T, P8>) return T{(uint32_t)keyat(i), (uint32_t)i}; else return T{(uint64_t)keyat(i), (uint64_t)i}; }
template <class T> sequence<T> data() { return parlay::tabulate(n, [](size_t i) { return mkp<T>(i); }); }
template <class S> void pos_out(const S& s) { out(runs(s.size(), [&](size_t j) { return (ll)s[j].k; }), runs(s.size(), [&](size_t j) { return (ll)s[j].i; })); }
// equal elements brought into input order
template <class S> void settle(S& s) { for (size_t i = 0; i < s.size();) { size_t j = i; while (j < s.size() && s[j].k == s[i].k) j++; std::sort(s.begin() + i, s.begin() + j, [](auto& x, auto& y) { return x.i < y.i; }); i = j; } }
struct Less { template <class T> bool operator()(const T& x, const T& y) const { return x.k < y.k; } };

#if GRP == 13
template <class T> void sorts(fn::rng& r) {
  pick(r, 4300000, 5000000, 3, 1500);
  switch (r(4)) {
    case 0: { auto s = data<T>(); CALL("stable"); parlay::stable_sort_inplace(s, Less{}); pos_out(s); break; }
    case 1: { auto s = data<T>(); CALL("stable"); auto o = parlay::stable_sort(s, Less{}); pos_out(o); break; }
    case 2: { auto s = data<T>(); CALL("stable"); parlay::sort_inplace(s, Less{}); settle(s); pos_out(s); break; }
    default: { auto s = data<T>(); CALL("stable"); auto o = parlay::sort(s, Less{}); settle(o); pos_out(o); }
  }
}
void fn_case(long idx, fn::rng& r) {
  switch (idx % 5) {
    case 0: sorts<P8>(r); break;
    case 1: sorts<P16>(r); break;
    case 2: sorts<N24>(r); break;
    case 3: { n = 4300000 + r(700000); m = (ll)n; do a = 1 + (ll)r((uint64_t)n); while (gcd_(a, m) != 1); b = (ll)r(n);   // distinct keys
      auto s = parlay::tabulate(n, [](size_t i) { return (uint32_t)keyat(i); }); CALL("count"); 
      if (r.chance(1, 2)) parlay::sort_inplace(s); else s = parlay::sort(s); out(runs(n, [&](size_t i) { return (ll)s[i]; })); break; }
    default: { n = 4300000 + r(400000); m = (ll)n; do a = 1 + (ll)r((uint64_t)n); while (gcd_(a, m) != 1); b = (ll)r(n);   // pointers
      auto t = parlay::tabulate(n, [](size_t i) { return (uint32_t)i; }); auto s = parlay::tabulate(n, [&](size_t i) { return (const uint32_t*)&t[(size_t)keyat(i)]; });
      CALL("count"); auto o = parlay::sort(s, [](const uint32_t* x, const uint32_t* y) { return *x < *y; }); out(runs(n, [&](size_t i) { return (ll)*o[i]; })); }
  }
}
#elif GRP == 15
template <class T, class K> void isorts(fn::rng& r, size_t lo, size_t hi) {
  pick(r, lo, hi, 3, 1500);
  int sh = (int)r(sizeof(K) * 8 - 11 + 1);
  auto key = [sh](const T& e) { return (K)((K)e.k << sh); };
  switch (r(4)) {
    case 0: { auto s = data<T>(); CALL("stable"); parlay::integer_sort_inplace(s, key); pos_out(s); break; }
    case 1: { auto s = data<T>(); CALL("stable"); auto o = parlay::integer_sort(s, key); pos_out(o); break; }
    case 2: { auto s = data<T>(); CALL("stable"); auto o = parlay::stable_integer_sort(s, key); pos_out(o); break; }
    default: { auto s = data<T>(); CALL("stable"); parlay::stable_integer_sort_inplace(s, key); pos_out(s); }
  }
}
void fn_case(long idx, fn::rng& r) {
  switch (idx % 6) {
    case 0: isorts<P8, uint32_t>(r, 300000, 3000000); break;
    case 1: isorts<P24, uint16_t>(r, 5600000, 6000000); break;      // enough bytes for more than 8 bits at once
    case 2: isorts<P16, uint64_t>(r, 300000, 3000000); break;
    case 3: isorts<N24, uint16_t>(r, 5600000, 5700000); break;
    case 4: { n = 1000000 + r(3000000); m = (ll)n; do a = 1 + (ll)r((uint64_t)n); while (gcd_(a, m) != 1); b = (ll)r(n);
      auto s = parlay::tabulate(n, [](size_t i) { return (uint32_t)keyat(i); }); CALL("count"); 
      if (r.chance(1, 2)) parlay::integer_sort_inplace(s); else s = parlay::integer_sort(s); out(runs(n, [&](size_t i) { return (ll)s[i]; })); break; }
    default: { pick(r, 300000, 2000000, 3, 1500); auto s = data<P8>(); CALL("stable_offsets");
      auto [o, off] = parlay::counting_sort(s, (size_t)m, [](const P8& e) { return e.k; });
      auto A = runs(n, [&, &o = o](size_t j) { return (ll)o[j].k; }), B = runs(n, [&, &o = o](size_t j) { return (ll)o[j].i; }); fn::emit({A.s, A.d, A.l, B.s, B.d, B.l, ints(off)}); }
  }
}
#elif GRP == 18
void fn_case(long idx, fn::rng& r) {
  using PP = std::pair<uint32_t, uint32_t>;
  if (idx % 2) pick(r, 300000, 1500000, 2000, 12000); else pick(r, 1000000, 2500000, 3, 1500);
  auto ps = [] { return parlay::tabulate(n, [](size_t i) { return PP{(uint32_t)keyat(i), (uint32_t)i}; }); };
  auto groups = [](auto& g) { V l; for (auto& x : g) for (auto v : x) l.push_back((ll)v); V z; for (auto& x : g) z.push_back((ll)x.size());
    out(runs(z.size(), [&](size_t j) { return z[j]; }), runs(l.size(), [&](size_t j) { return l[j]; })); };
  auto keyed = [](auto& o) { std::sort(o.begin(), o.end(), [](auto& x, auto& y) { return x.first < y.first; }); };
  switch ((idx / 2) % 9) {
    case 0: { auto s = ps(); CALL("groups"); auto o = parlay::group_by_index(s, (size_t)m); groups(o); break; }
    case 1: { auto s = parlay::tabulate(n, [](size_t i) { return (uint32_t)keyat(i); }); CALL("sizes"); auto o = parlay::histogram_by_index(s, (uint32_t)m); out(runs(o.size(), [&](size_t j) { return (ll)o[j]; })); break; }
    case 2: { auto s = ps(); CALL("lasts"); auto o = parlay::reduce_by_index(s, (size_t)m, parlay::maximum<uint32_t>{}); V v = ints(o); fn::emit({v}); break; }
    case 3: { auto s = parlay::tabulate(n, [](size_t i) { return (uint32_t)keyat(i); }); CALL("keysizes"); auto o = parlay::histogram_by_key(s); keyed(o);
      out(runs(o.size(), [&](size_t j) { return (ll)o[j].first; }), runs(o.size(), [&](size_t j) { return (ll)o[j].second; })); break; }
    case 4: { auto s = ps(); CALL("groups"); auto o = parlay::group_by_key(s); keyed(o); sequence<sequence<uint32_t>> g; for (size_t j = 0; j < o.size(); j++) { if (o[j].first != j) break; g.push_back(o[j].second); } groups(g); break; }
    case 5: { auto s = parlay::tabulate(n, [](size_t i) { return (uint32_t)keyat(i); }); CALL("keys"); auto o = parlay::remove_duplicates(s); std::sort(o.begin(), o.end()); out(runs(o.size(), [&](size_t j) { return (ll)o[j]; })); break; }
    case 6: { auto s = parlay::tabulate(n, [](size_t i) { return (uint32_t)keyat(i); }); CALL("keys"); auto o = parlay::remove_duplicate_integers(s, (uint32_t)m); out(runs(o.size(), [&](size_t j) { return (ll)o[j]; })); break; }
    case 7: { auto s = ps(); CALL("lasts"); auto o = parlay::reduce_by_key(s, parlay::maximum<uint32_t>{}); keyed(o); V v; for (size_t j = 0; j < o.size(); j++) v.push_back(o[j].first == j ? (ll)o[j].second : -1); fn::emit({v}); break; }
    default: { auto s = ps(); CALL("groups"); auto o = parlay::group_by_key_ordered(s); sequence<sequence<uint32_t>> g; for (size_t j = 0; j < o.size(); j++) { if (o[j].first != j) break; g.push_back(o[j].second); } groups(g); }
  }
}
#else   // scans, filters, merges, delayed pipelines, permutations
namespace delayed = parlay::delayed;
template <class S> void seq_out(const S& s) { out(runs(s.size(), [&](size_t j) { return (ll)s[j]; })); }
#if GRP == 24
template <class S> void perm_out(const S& s) { V v = ints(s); std::sort(v.begin(), v.end()); out(runs(v.size(), [&](size_t j) { return v[j]; })); }
#endif
void fn_case(long idx, fn::rng& r) {
  pick(r, 1000000, 4000000, 3, 1500); b = (ll)r((uint64_t)m);
  ll q = b, M = m; size_t N = n;
  auto io = parlay::iota<uint32_t>(N);
  auto own = [&] { return parlay::tabulate(N, [](size_t i) { return (uint32_t)i; }); };
  auto is = [=](uint32_t i) { return (ll)i % M == q; };
  (void)own; (void)is; (void)idx;
#if GRP == 14
  switch (idx % 3) {
    case 0: { auto x = parlay::filter(io, is), y = parlay::filter(io, [=](uint32_t i) { return !is(i); }); CALL("count"); auto o = parlay::merge(x, y); seq_out(o); break; }
    case 1: { size_t h = r(N + 1); auto x = own(); auto s = parlay::make_slice(x); CALL("count"); auto o = parlay::merge(s.cut(0, h), s.cut(h, N)); seq_out(o); break; }
    default: { size_t k = r(N); auto x = parlay::tabulate(N, [&](size_t i) { return (uint32_t)((i * 7919ull + 13) % N); }); bool p = N % 7919 != 0; CALL("value", p ? (ll)k : 0); auto v = *parlay::kth_smallest(x, p ? k : 0); fn::emit({{p ? (ll)v : 0}}); }
  }
#elif GRP == 16
  switch (idx % 5) {
    case 0: { auto s = parlay::tabulate(N, [](size_t) { return 1; }); CALL("count_total"); auto [o, t] = parlay::scan(s); auto R = runs(o.size(), [&, &o = o](size_t j) { return (ll)o[j]; }); fn::emit({R.s, R.d, R.l, {(ll)t}}); break; }
    case 1: { auto s = parlay::tabulate(N, [](size_t) { return 1; }); CALL("count_total"); ll t = parlay::scan_inplace(s); auto R = runs(s.size(), [&](size_t j) { return (ll)s[j]; }); fn::emit({R.s, R.d, R.l, {t}}); break; }
    case 2: { CALL("count1"); auto o = parlay::scan_inclusive(parlay::delayed_tabulate(N, [](size_t) { return 1; })); seq_out(o); break; }
    case 3: { CALL("value", (ll)N - 1); fn::emit({{(ll)parlay::reduce(io, parlay::maximum<uint32_t>{})}}); break; }
    default: { CALL("value", (ll)N); fn::emit({{(ll)parlay::reduce(parlay::delayed_tabulate(N, [](size_t) { return 1; }))}}); }
  }
#elif GRP == 17
  switch (idx % 7) {
    case 0: { CALL("class"); auto o = parlay::filter(io, is); seq_out(o); break; }
    case 1: { auto s = own(); auto f = parlay::tabulate(N, [&](size_t i) { return is((uint32_t)i); }); CALL("class"); auto o = parlay::pack(s, f); seq_out(o); break; }
    case 2: { auto f = parlay::tabulate(N, [&](size_t i) { return is((uint32_t)i); }); CALL("class"); auto o = parlay::pack_index<uint32_t>(f); seq_out(o); break; }
    case 3: { auto s = own(); CALL("reverse"); auto o = parlay::reverse(s); seq_out(o); break; }
    case 4: { auto s = own(); size_t k = 2 + r(N - 4); CALL("rotate", (ll)k); auto o = parlay::rotate(s, k); seq_out(o); break; }
    case 5: { auto s = parlay::tabulate((size_t)M, [&](size_t k) { return parlay::tabulate(N / (size_t)M + k % 3, [&](size_t i) { return (uint32_t)(i + k); }); }); CALL("flatten", (ll)(N / (size_t)M)); auto o = parlay::flatten(s); seq_out(o); break; }
    default: { auto s = own(); CALL("count2"); s.append(own()); seq_out(s); }
  }
#elif GRP == 19
  switch (idx % 6) {
    case 0: { CALL("class"); auto o = delayed::to_sequence(delayed::filter(io, is)); seq_out(o); break; }
    case 1: { CALL("count"); auto p = delayed::scan(parlay::delayed_tabulate(N, [](size_t) { return 1; })); auto o = delayed::to_sequence(p.first); seq_out(o); break; }
    case 2: { CALL("count1"); auto o = delayed::to_sequence(delayed::scan_inclusive(parlay::delayed_tabulate(N, [](size_t) { return 1; }))); seq_out(o); break; }
    case 3: { auto s = parlay::tabulate((size_t)M, [&](size_t k) { return parlay::tabulate(N / (size_t)M + k % 3, [&](size_t i) { return (uint32_t)(i + k); }); }); CALL("flatten", (ll)(N / (size_t)M)); auto o = delayed::to_sequence(delayed::flatten(s)); seq_out(o); break; }
    case 4: { CALL("count1"); auto z = delayed::zip(io, delayed::scan_inclusive(parlay::delayed_tabulate(N, [](size_t) { return 1; }))); auto o = delayed::to_sequence(delayed::map(z, [](const auto& t) { return std::get<0>(t) + 1 == (uint32_t)std::get<1>(t) ? std::get<1>(t) : -1; })); seq_out(o); break; }
    default: { CALL("value", (ll)N - 1); auto v = delayed::reduce(delayed::filter(io, [=](uint32_t i) { return i == N - 1 || is(i); }), parlay::maximum<uint32_t>{}); fn::emit({{(ll)v}}); }
  }
#elif GRP == 20
  size_t k = r(N), e = N - 1 - r(3); if (r.chance(1, 4)) k = e;
  switch (idx % 6) {
    case 0: { auto s = own(); CALL("value", (ll)k); fn::emit({{(ll)(parlay::find(s, (uint32_t)k) - s.begin())}}); break; }
    case 1: { CALL("value", (ll)k); auto s = own(); fn::emit({{(ll)(parlay::find_if(s, [=](uint32_t i) { return i >= k; }) - s.begin())}}); break; }
    case 2: { CALL("value", 1); auto s = own(); if (k) std::swap(s[k], s[k - 1]); else s[0] = 0; fn::emit({{(ll)(parlay::is_sorted(s, std::less<>{}) == (k == 0))}}); break; }
    case 3: { auto s = own(), t = own(); t[k]++; CALL("value", (ll)k); auto p = parlay::mismatch(s, t); fn::emit({{(ll)(p.first - s.begin())}}); break; }
    case 4: { auto s = own(); s[k] = (uint32_t)N + 5; CALL("value", (ll)k); fn::emit({{(ll)(parlay::max_element(s) - s.begin())}}); break; }
    default: { CALL("class_size"); fn::emit({{(ll)parlay::count_if(io, is)}}); }
  }
#elif GRP == 24
  switch (idx % 3) {
    case 0: { CALL("count"); auto o = parlay::random_permutation<uint32_t>((uint32_t)N); perm_out(o); break; }
    case 1: { CALL("count"); auto o = parlay::random_shuffle(io, parlay::random(r(1000))); perm_out(o); break; }
    default: { auto s = own(); CALL("count"); auto o = parlay::random_shuffle(s); perm_out(o); }
  }
#endif
}
#endif
