#include "fncommon.h"
#include <map>
#include <unordered_map>
// PART 0: trivial elements, all key types; 1: heap-owning / move-only; 2: bare integers and counting sorts
#ifndef PART
#define PART 0
#endif
#ifndef KTS
#define KTS 15      // key types compiled in: bit 0 = 8 bits, ..., bit 3 = 64 bits
#endif
#ifndef BIGMAX
#define BIGMAX 30000
#endif
using U = std::vector<uint64_t>;
struct KE { uint64_t k; int i; };
struct KS { uint16_t k; };   // placeholder of a tiny element
struct KH { struct N { uint64_t k; int i; }; N* n; 
  KH() : n(nullptr) {} KH(uint64_t k, int i) : n(new N{k, i}) {}
  KH(const KH& o) : n(o.n ? new N(*o.n) : nullptr) { if (!o.n) ty::bad_reads++; }
  KH(KH&& o) noexcept : n(o.n) { o.n = nullptr; }
  KH& operator=(const KH& o) { if (this != &o) { N* t = o.n ? new N(*o.n) : nullptr; delete n; n = t; } return *this; }
  KH& operator=(KH&& o) noexcept { if (this != &o) { delete n; n = o.n; o.n = nullptr; } return *this; }
  ~KH() { delete n; n = nullptr; } };
struct KM { KH::N* n; 
  KM() : n(nullptr) {} KM(uint64_t k, int i) : n(new KH::N{k, i}) {}
  KM(KM&& o) noexcept : n(o.n) { o.n = nullptr; }
  KM& operator=(KM&& o) noexcept { if (this != &o) { delete n; n = o.n; o.n = nullptr; } return *this; }
  ~KM() { delete n; n = nullptr; } };
inline uint64_t kk(const KE& e) { return e.k; }
inline int ki(const KE& e) { return e.i; }
inline uint64_t kk(const KH& e) { if (!e.n) { ty::bad_reads++; return 0; } return e.n->k; }
inline int ki(const KH& e) { if (!e.n) { ty::bad_reads++; return -7; } return e.n->i; }
inline uint64_t kk(const KM& e) { if (!e.n) { ty::bad_reads++; return 0; } return e.n->k; }
inline int ki(const KM& e) { if (!e.n) { ty::bad_reads++; return -7; } return e.n->i; }

// order-preserving compression of the keys
struct ranks { U d; explicit ranks(const U& v) : d(v) { std::sort(d.begin(), d.end()); d.erase(std::unique(d.begin(), d.end()), d.end()); }
  ll of(uint64_t x) const { auto it = std::lower_bound(d.begin(), d.end(), x); return it != d.end() && *it == x ? it - d.begin() : -1; }
  V all(const U& v) const { V r; for (auto x : v) r.push_back(of(x)); return r; } };

template <class T> parlay::sequence<T> mku(const U& v) { parlay::sequence<T> s; s.reserve(v.size()); for (size_t i = 0; i < v.size(); i++) s.push_back(T{v[i], (int)i}); return s; }
template <class S> V outs(const S& s, const ranks& R, V& x) { V k; x.clear(); for (size_t j = 0; j < s.size(); j++) { k.push_back(R.of(kk(s[j]))); x.push_back(ki(s[j])); } return k; }
template <class S> ll same(const S& s, const U& v) { if (s.size() != v.size()) return 0; for (size_t i = 0; i < s.size(); i++) if (kk(s[i]) != v[i] || ki(s[i]) != (int)i) return 0; return 1; }

template <class T, class K> void by_key(const U& v, const V& in, const ranks& R) {
  auto key = [](const T& e) -> K { return (K)kk(e); };
  V x, k;
  int bits = (int)sizeof(K) * 8;
  if constexpr (std::is_copy_constructible<T>::value) {
    { auto s = mku<T>(v); fn::call("integer_sort", {bits}, {in}); ty::bad_reads = 0;
      { auto o = parlay::integer_sort(s, key); k = outs(o, R, x); } fn::emit({k, x, {same(s, v), ty::bad_reads}}); }
    { auto s = mku<T>(v); fn::call("stable_integer_sort", {bits}, {in}); ty::bad_reads = 0;
      { auto o = parlay::stable_integer_sort(parlay::make_slice(s), key); k = outs(o, R, x); } fn::emit({k, x, {same(s, v), ty::bad_reads}}); }
  }
  { auto s = mku<T>(v); fn::call("integer_sort_inplace", {bits}, {in}); ty::bad_reads = 0;
    parlay::integer_sort_inplace(s, key); k = outs(s, R, x); fn::emit({k, x, {1, ty::bad_reads}}); }
  { auto s = mku<T>(v); fn::call("stable_integer_sort_inplace", {bits}, {in}); ty::bad_reads = 0;
    parlay::stable_integer_sort_inplace(s, key); k = outs(s, R, x); fn::emit({k, x, {1, ty::bad_reads}}); }
}
template <class K, class S> V occ(const S& s, const U& v) {   // t-th occurrence of a value -> its t-th position in v
  std::unordered_map<uint64_t, std::pair<std::vector<int>, size_t>> m;
  for (size_t i = 0; i < v.size(); i++) m[v[i]].first.push_back((int)i);
  V x; for (size_t j = 0; j < s.size(); j++) { auto it = m.find((uint64_t)s[j]); if (it == m.end() || it->second.second >= it->second.first.size()) x.push_back(-1); else x.push_back(it->second.first[it->second.second++]); }
  return x;
}
template <class K, class S> V rk(const S& s, const ranks& R) { V k; for (size_t j = 0; j < s.size(); j++) k.push_back(R.of((uint64_t)s[j])); return k; }
template <class K> void bare(const U& v, const V& in, const ranks& R) {
  auto mkk = [&] { parlay::sequence<K> s; for (auto x : v) s.push_back((K)x); return s; };
  int bits = (int)sizeof(K) * 8;
  auto s = mkk();
  auto un = [&](const parlay::sequence<K>& q) { if (q.size() != v.size()) return 0; for (size_t i = 0; i < v.size(); i++) if (q[i] != (K)v[i]) return 0; return 1; };
  fn::call("integer_sort", {bits}, {in});
  { auto o = parlay::integer_sort(s); fn::emit({rk<K>(o, R), occ<K>(o, v), {un(s), 0}}); }
  fn::call("integer_sort_inplace", {bits}, {in});
  parlay::integer_sort_inplace(s); fn::emit({rk<K>(s, R), occ<K>(s, v), {1, 0}});
}
template <class T, class K> void counting(const U& v, size_t nb) {
  V in; for (auto x : v) in.push_back((ll)x);
  auto key = [](const T& e) -> K { return (K)kk(e); };
  auto val = [](const auto& s, V& x) { V k; x.clear(); for (size_t j = 0; j < s.size(); j++) { k.push_back((ll)kk(s[j])); x.push_back(ki(s[j])); } return k; };
  V x, k;
  ty::bad_reads = 0;
  if constexpr (std::is_copy_constructible<T>::value) {
    auto s = mku<T>(v);
    fn::call("counting_sort", {(ll)nb}, {in});
    { auto [o, off] = parlay::counting_sort(s, nb, key); k = val(o, x); fn::emit({k, x, {same(s, v), ty::bad_reads}, ints(off)}); }
    fn::call("counting_sort_by_keys", {(ll)nb}, {in});
    { auto ps = parlay::tabulate(v.size(), [&](size_t i) { return std::make_pair((K)v[i], s[i]); });
      auto [o, off] = parlay::counting_sort_by_keys(ps, nb); k = val(o, x);
      ll ok = ps.size() == v.size(); for (size_t i = 0; ok && i < v.size(); i++) if (ps[i].first != (K)v[i] || ki(ps[i].second) != (int)i) ok = 0;
      fn::emit({k, x, {ok, ty::bad_reads}, ints(off)}); }
    if (v.size() == 0 || nb > 1 || true) {
      fn::call("integer_sort_with_counts", {(ll)nb}, {in});
      auto [o, cnt] = parlay::internal::integer_sort_with_counts(parlay::make_slice(s), key, nb);
      k = val(o, x); V c = ints(cnt), off(1, 0); for (auto q : c) off.push_back(off.back() + q);
      fn::emit({k, x, {same(s, v), ty::bad_reads}, off, c});
    }
  }
  auto s = mku<T>(v);
  fn::call("counting_sort_inplace", {(ll)nb}, {in});
  { auto off = parlay::counting_sort_inplace(s, nb, key); k = val(s, x); fn::emit({k, x, {1, ty::bad_reads}, ints(off)}); }
}
template <class K> void counting_bare(const U& v, size_t nb) {
  V in; for (auto x : v) in.push_back((ll)x);
  parlay::sequence<K> s; for (auto x : v) s.push_back((K)x);
  fn::call("counting_sort", {(ll)nb}, {in});
  { auto [o, off] = parlay::counting_sort(s, nb); ll un = 1; for (size_t i = 0; i < v.size(); i++) if (s[i] != (K)v[i]) un = 0; fn::emit({ints(o), occ<K>(o, v), {un, 0}, ints(off)}); }
  fn::call("counting_sort_inplace", {(ll)nb}, {in});
  { auto off = parlay::counting_sort_inplace(s, nb); fn::emit({ints(s), occ<K>(s, v), {1, 0}, ints(off)}); }
}

static uint64_t spread(fn::rng& r, int bits, int mode, uint64_t base) {
  uint64_t m = bits >= 64 ? ~0ull : (1ull << bits) - 1;
  switch (mode) {
    case 0: return r.next() & m;
    case 1: return base & m;
    case 2: return r.chance(1, 2) ? m : 0;
    case 3: return (base ^ (r.next() & 0xff)) & m;                       // only low digit differs
    case 4: return (base ^ ((r.next() & 3) << (bits > 2 ? bits - 2 : 0))) & m; // only top bits differ
    case 5: return (base ^ ((r.next() & 0xff) << (bits > 16 ? bits / 2 : 0))) & m;
    case 6: return (1ull << r(bits)) & m;
    case 7: return r.chance(19, 20) ? (base & m) : (r.next() & m);
    default: return m - r(3 < m ? 3 : 1);
  }
}

void fn_case(long idx, fn::rng& r) {
  long ex = fn::num_seqs(3, 5);
  U v; size_t nb = 1;
  static const std::vector<int> kts = [] { std::vector<int> s; for (int i = 0; i < 4; i++) if (KTS >> i & 1) s.push_back(i); return s; }();
  int kt = kts[idx % kts.size()];
  bool big = false;
  if (idx < ex) { V t; fn::nth_seq(idx, 3, 5, t); uint64_t sh = r(4) == 0 ? r(8 * (1 << kt) - 1) : 0; for (auto x : t) v.push_back((uint64_t)x << (sh > (uint64_t)(8 << kt) - 2 ? 0 : sh)); }
  else {
    long j = idx - ex;
    size_t n = j % 4 == 3 ? fn::near_len(r, {8192, 2000, 10000, BIGMAX / 2}, BIGMAX) : fn::near_len(r, {16, 64, 128, 300, 1000}, 1100);
    big = n > 3000;
    if (big) kt = kts[r(kts.size())];
    int w = 8 << kt;
    int bits = r.chance(1, 3) ? w : 1 + (int)r(w);
    int mode = (int)r(9);
    uint64_t base = r.next();
    for (size_t i = 0; i < n; i++) v.push_back(spread(r, bits, mode, base));
    if (r.chance(1, 5) && n) v[r(n)] = w == 64 ? ~0ull : (1ull << w) - 1;
  }
  ranks R(v); V in = R.all(v);
  auto lim = [&](size_t nbk) { U u; for (auto x : v) u.push_back(x % nbk); return u; };
  static const size_t NB[] = {1, 2, 3, 7, 16, 100, 256, 1000, 5000};
  nb = NB[r(9)];
  if (nb > 256 && big && r.chance(1, 2)) nb = 256;
  auto sel = [&](auto&& f) {
    if constexpr ((KTS & 1) != 0) if (kt == 0) f(uint8_t{});
    if constexpr ((KTS & 2) != 0) if (kt == 1) f(uint16_t{});
    if constexpr ((KTS & 4) != 0) if (kt == 2) f(uint32_t{});
    if constexpr ((KTS & 8) != 0) if (kt == 3) f(uint64_t{});
  };
#if PART == 0
  sel([&](auto k) { by_key<KE, decltype(k)>(v, in, R); });
#elif PART == 1
  sel([&](auto k) { by_key<std::conditional_t<sizeof(k) == 1 || sizeof(k) == 4, KM, KH>, decltype(k)>(v, in, R); });
#elif PART == 2
  sel([&](auto k) { bare<decltype(k)>(v, in, R); if (sizeof(k) == 1 && nb > 256) nb = 256; counting_bare<decltype(k)>(lim(nb), nb); });
#else
  if (idx % 3 == 0) counting<KE, uint64_t>(lim(nb), nb); else if (idx % 3 == 1) counting<KH, uint16_t>(lim(nb), nb); else counting<KM, uint32_t>(lim(nb), nb);
#endif
}
