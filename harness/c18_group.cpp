#include "fncommon.h"
#include <map>
#include <memory>
// PART 0: by key, trivial; 1: by key, owning types; 2: by index and integers; 3: ordered variants
#ifndef PART
#define PART 0
#endif
using parlay::sequence;
inline int cls(int q, int k) { return q == 0 ? k : q == 1 ? k / 4 : k % 5; }
// keys: converted from (k, position); rep(K) gives k and position (-1 if untracked)
struct KE { int k = -1, i = -1; };
template <class K> K mkkey(int k, int i);
template <> int mkkey<int>(int k, int) { return k; }
template <> uint64_t mkkey<uint64_t>(int k, int) { return (uint64_t)k; }
template <> unsigned mkkey<unsigned>(int k, int) { return (unsigned)k; }
template <> unsigned short mkkey<unsigned short>(int k, int) { return (unsigned short)k; }
template <> KE mkkey<KE>(int k, int i) { return KE{k, i}; }
template <> std::string mkkey<std::string>(int k, int) { return "a fairly long key number " + std::to_string(k); }
template <> ty::H mkkey<ty::H>(int k, int i) { return ty::H(k, i); }
inline int kof(int k) { return k; }
inline int kof(uint64_t k) { return (int)k; }
inline int kof(unsigned k) { return (int)k; }
inline int kof(unsigned short k) { return (int)k; }
inline int kof(const KE& e) { return e.k; }
inline int kof(const std::string& s) { if (s.size() < 26) { __atomic_add_fetch(&ty::bad_reads, 1, __ATOMIC_RELAXED); return -7; } return atoi(s.c_str() + 25); }
inline int kof(const ty::H& h) { return ty::key(h); }
template <class K> int pof(const K&) { return -1; }
inline int pof(const KE& e) { return e.i; }
inline int pof(const ty::H& h) { return ty::idx(h); }
struct HashQ { int q, mode; template <class K> size_t operator()(const K& k) const { size_t c = (size_t)cls(q, kof(k)); return mode == 0 ? parlay::hash64(c) : mode == 1 ? 17 : mode == 2 ? c : parlay::hash64(c) << 20; } };
struct EqQ { int q; template <class K> bool operator()(const K& a, const K& b) const { return cls(q, kof(a)) == cls(q, kof(b)); } };
// values: the position, or the sequence holding it (the free monoid)
struct Free { std::vector<int> v; };
struct Big { int i = -1; char pad[1020]; };
template <class W> W mkval(int i);
template <> int mkval<int>(int i) { return i; }
template <> long mkval<long>(int i) { return i; }
template <> Free mkval<Free>(int i) { return Free{{i}}; }
template <> Big mkval<Big>(int i) { Big b; b.i = i; return b; }
template <> ty::H mkval<ty::H>(int i) { return ty::H(7, i); }
template <> std::string mkval<std::string>(int i) { return "value with position " + std::to_string(i); }
inline int vof(int i) { return i; }
inline int vof(long i) { return (int)i; }
inline int vof(const Big& b) { return b.i; }
inline int vof(const ty::H& h) { return ty::idx(h); }
inline int vof(const Free& f) { return f.v.size() == 1 ? f.v[0] : -9; }
inline int vof(const std::string& s) { if (s.size() < 20) { __atomic_add_fetch(&ty::bad_reads, 1, __ATOMIC_RELAXED); return -7; } return atoi(s.c_str() + 20); }
struct Concat { Free operator()(const Free& a, const Free& b) const { Free r = a; r.v.insert(r.v.end(), b.v.begin(), b.v.end()); return r; } };
inline int weight(int i) { return 1 + i % 1000; }

static int q; static V v, wk, ws, wi;
void witness() {
  std::map<int, V> m; for (size_t i = 0; i < v.size(); i++) m[cls(q, (int)v[i])].push_back((ll)i);
  wk.clear(); ws.assign(1, 0); wi.clear();
  for (auto& [k, l] : m) { wk.push_back(k); wi.insert(wi.end(), l.begin(), l.end()); ws.push_back((ll)wi.size()); }
}
#define CALL(name, ...) fn::call(name, {q, __VA_ARGS__}, {v, wk, ws, wi})
static ll ok() { return ty::bad_reads == 0; }
template <class S> std::vector<size_t> by_class(const S& s) { std::vector<size_t> o(s.size()); std::iota(o.begin(), o.end(), 0); std::stable_sort(o.begin(), o.end(), [&](size_t a, size_t b) { return cls(q, kof(s[a].first)) < cls(q, kof(s[b].first)); }); return o; }
template <class S> void groups_out(const S& r, bool sorted, ll flag) {
  V a, b, s{0}, l; std::vector<size_t> o(r.size()); std::iota(o.begin(), o.end(), 0); if (sorted) o = by_class(r);
  for (auto g : o) { a.push_back(kof(r[g].first)); b.push_back(pof(r[g].first)); for (size_t j = 0; j < r[g].second.size(); j++) l.push_back(vof(r[g].second[j])); s.push_back((ll)l.size()); }
  fn::emit({{flag * ok()}, a, b, s, l});
}
template <class K, class W> bool unchanged(const sequence<std::pair<K, W>>& s) { if (s.size() != v.size()) return false; for (size_t i = 0; i < s.size(); i++) if (kof(s[i].first) != v[i] || vof(s[i].second) != (int)i) return false; return true; }
template <class K> bool unchanged(const sequence<K>& s) { if (s.size() != v.size()) return false; for (size_t i = 0; i < s.size(); i++) if (kof(s[i]) != v[i]) return false; return true; }
template <class K, class W> sequence<std::pair<K, W>> pairs() { sequence<std::pair<K, W>> s; for (size_t i = 0; i < v.size(); i++) s.push_back(std::pair<K, W>(mkkey<K>((int)v[i], (int)i), mkval<W>((int)i))); return s; }
template <class K> sequence<K> keyseq() { sequence<K> s; for (size_t i = 0; i < v.size(); i++) s.push_back(mkkey<K>((int)v[i], (int)i)); return s; }
// run f on the input as lvalue, rvalue, slice or delayed range; returns whether the input survived where it must
template <bool full = false, class S, class F> auto forms(S s, fn::rng& r, F f, ll& flag) {
  flag = 1;
  if (r.chance(1, 2)) { auto x = f(std::move(s)); flag = s.size() == 0; return x; }
  switch (full ? r(3) : 0) {
    case 1: if constexpr (full) { auto x = f(parlay::make_slice(s)); flag = unchanged(s); return x; }
    case 2: if constexpr (full) {  auto x = f(parlay::delayed_tabulate(s.size(), [&](size_t i) { return s[i]; })); flag = unchanged(s); return x; }
    default: { auto x = f(s); flag = unchanged(s); return x; }
  }
}
template <class K, class W> void by_key(HashQ h, EqQ e, fn::rng& r, bool each) {
  int only = each ? -1 : (int)r(4); auto want = [&](int z) { return only < 0 || only == z; };
  ll n = (ll)v.size(), flag; ty::bad_reads = 0;
  if (want(0)) { CALL("groups", n); auto o = forms<std::is_same_v<K, KE>>(pairs<K, W>(), r, [&](auto&& s) { return parlay::group_by_key(std::forward<decltype(s)>(s), h, e); }, flag); groups_out(o, true, flag); }
  if (want(1)) {
    CALL("free", n); auto o0 = forms(pairs<K, Free>(), r, [&](auto&& s) { return parlay::reduce_by_key(std::forward<decltype(s)>(s), parlay::make_monoid(Concat{}, Free{}), h, e); }, flag);
    struct P { K first; std::vector<int> second; }; std::vector<P> o; for (auto& x : o0) o.push_back(P{x.first, x.second.v});
    groups_out(o, true, flag);
  }
  auto pairsout = [&](auto& o) { V a, b, s; for (auto g : by_class(o)) { a.push_back(kof(o[g].first)); b.push_back(pof(o[g].first)); s.push_back((ll)o[g].second); } fn::emit({{flag * ok()}, a, b, s}); };
  if (want(2)) {
    CALL("counts", n);
    if (r.chance(1, 2)) { auto o = forms(keyseq<K>(), r, [&](auto&& s) { return parlay::histogram_by_key(std::forward<decltype(s)>(s), h, e); }, flag); pairsout(o); }
    else { auto o = forms(keyseq<K>(), r, [&](auto&& s) { return parlay::histogram_by_key<int>(std::forward<decltype(s)>(s), h, e); }, flag); pairsout(o); }
  }
  if (want(3)) {
    CALL("distinct", n); auto o = forms(keyseq<K>(), r, [&](auto&& s) { return parlay::remove_duplicates(std::forward<decltype(s)>(s), h, e); }, flag);
    std::stable_sort(o.begin(), o.end(), [&](const K& a, const K& b) { return cls(q, kof(a)) < cls(q, kof(b)); });
    V a, b; for (auto& x : o) { a.push_back(kof(x)); b.push_back(pof(x)); } fn::emit({{flag * ok()}, a, b});
  }
}
template <class K> void sums(fn::rng& r) {   // default hash, equality and monoid
  ll n = (ll)v.size(); q = 0; witness();
  sequence<std::pair<K, long>> s; for (size_t i = 0; i < v.size(); i++) s.push_back({mkkey<K>((int)v[i], (int)i), weight((int)i)});
  CALL("sums", n); auto o = parlay::reduce_by_key(s); V a, b, c; for (auto g : by_class(o)) { a.push_back(kof(o[g].first)); b.push_back(-1); c.push_back(o[g].second); } fn::emit({{1}, a, b, c});
  CALL("maxima", n); auto o2 = parlay::reduce_by_key(s, parlay::maximum<long>{}); a.clear(); b.clear(); c.clear(); for (auto g : by_class(o2)) { a.push_back(kof(o2[g].first)); b.push_back(-1); c.push_back(o2[g].second); } fn::emit({{1}, a, b, c});
  CALL("counts", n); auto o3 = parlay::histogram_by_key(keyseq<K>()); a.clear(); b.clear(); c.clear(); for (auto g : by_class(o3)) { a.push_back(kof(o3[g].first)); b.push_back(-1); c.push_back((ll)o3[g].second); } fn::emit({{1}, a, b, c});
  (void)r;
}
template <class I> void by_index(ll nb, fn::rng& r, bool each) {
  int only = each ? -1 : (int)r(6); auto want = [&](int z) { return only < 0 || only == z; };
  ll n = (ll)v.size(); ty::bad_reads = 0; q = 0;
  using K = std::conditional_t<std::is_signed_v<I>, std::conditional_t<sizeof(I) == 4, int, long>, I>;
  auto dense = [&](auto& o, auto zero, auto val) { V a, c; for (size_t i = 0; i < o.size(); i++) if (val(o[i]) != zero) { a.push_back((ll)i); c.push_back((ll)val(o[i])); } fn::emit({{ok(), (ll)o.size()}, a, c}); };
#if PART == 2
  if (want(0) && (sizeof(I) > 1 || n < 256) && (sizeof(I) > 2 || n < 65536)) { sequence<K> s; for (auto x : v) s.push_back((K)x); CALL("icounts", nb, n); auto o = parlay::histogram_by_index(s, (I)nb); dense(o, 0, [](auto x) { return (ll)x; }); }
  if (want(1)) { sequence<std::pair<K, long>> s; for (size_t i = 0; i < v.size(); i++) s.push_back({(K)v[i], weight((int)i)}); CALL("isums", nb, n); auto o = parlay::reduce_by_index(s, (size_t)nb); dense(o, 0, [](long x) { return x; }); }
  if constexpr (std::is_same_v<I, size_t>) if (want(2)) {
    sequence<std::pair<K, Free>> s; for (size_t i = 0; i < v.size(); i++) s.push_back({(K)v[i], Free{{(int)i}}});
    CALL("ifree", nb, n); auto o = parlay::reduce_by_index(s, (size_t)nb, parlay::make_monoid(Concat{}, Free{}));
    V a, b, st{0}, l; for (size_t i = 0; i < o.size(); i++) if (!o[i].v.empty()) { a.push_back((ll)i); b.push_back(-1); for (int x : o[i].v) l.push_back(x); st.push_back((ll)l.size()); } fn::emit({{ok(), (ll)o.size()}, a, b, st, l});
  }
  if (want(5)) { sequence<K> s; for (auto x : v) s.push_back((K)x); CALL("idistinct", nb, n); auto o = parlay::remove_duplicate_integers(s, (I)nb); fn::emit({{ok()}, ints(o)}); }
#else
  auto grp = [&](auto& o) { V a, b, st{0}, l; for (size_t i = 0; i < o.size(); i++) if (!o[i].empty()) { a.push_back((ll)i); b.push_back(-1); for (auto& x : o[i]) l.push_back(vof(x)); st.push_back((ll)l.size()); } fn::emit({{ok(), (ll)o.size()}, a, b, st, l}); };
  if (want(3)) { sequence<std::pair<K, int>> s; for (size_t i = 0; i < v.size(); i++) s.push_back({(K)v[i], (int)i}); CALL("ifree", nb, n); auto o = parlay::group_by_index(s, (I)nb); grp(o); }
  if (want(4)) { if constexpr (std::is_same_v<I, unsigned>) { auto s = pairs<K, ty::H>(); CALL("ifree", nb, n); auto o = parlay::group_by_index(s, (I)nb); grp(o); } }
#endif
}
template <> uint8_t mkkey<uint8_t>(int k, int) { return (uint8_t)k; }
inline int kof(uint8_t k) { return k; }
template <class K, class W> void ordered(fn::rng& r, bool each) {
  int only = each ? -1 : (int)r(4); auto want = [&](int z) { return only < 0 || only == z; };
  ll n = (ll)v.size(); ty::bad_reads = 0;
  if constexpr (std::is_integral_v<K>) {
    q = 0; witness();
    if (want(0)) { auto s = pairs<K, W>(); CALL("groups", n); auto o = parlay::group_by_key_ordered(s); groups_out(o, false, unchanged(s)); }
    if (want(1)) { auto s = pairs<K, W>(); CALL("groups_down", n); auto o = parlay::group_by_key_ordered(s, std::greater<>{}); groups_out(o, false, unchanged(s)); }
    if (want(3)) { auto s = keyseq<K>(); CALL("distinct", n); auto o = parlay::remove_duplicates_ordered(s); V a, b; for (auto& x : o) { a.push_back(kof(x)); b.push_back(pof(x)); } fn::emit({{ok() * unchanged(s)}, a, b}); }
  }
  q = (int)r(3); witness();
  if (want(0)) { auto s = pairs<K, W>(); CALL("groups", n); auto o = parlay::group_by_key_ordered(s, [](const K& a, const K& b) { return cls(q, kof(a)) < cls(q, kof(b)); }); groups_out(o, false, unchanged(s)); }
  if (want(1)) { auto s = pairs<K, W>(); CALL("groups_down", n); auto o = parlay::group_by_key_ordered(parlay::make_slice(s), [](const K& a, const K& b) { return cls(q, kof(a)) > cls(q, kof(b)); }); groups_out(o, false, unchanged(s)); }
  if (want(2)) { auto s = keyseq<K>(); CALL("distinct", n); auto o = parlay::remove_duplicates_ordered(s, [](const K& a, const K& b) { return cls(q, kof(a)) < cls(q, kof(b)); }); V a, b; for (auto& x : o) { a.push_back(kof(x)); b.push_back(pof(x)); } fn::emit({{ok() * unchanged(s)}, a, b}); }
  if (want(3)) { auto s = keyseq<K>(); CALL("distinct_down", n); auto o = parlay::remove_duplicates_ordered(s, [](const K& a, const K& b) { return cls(q, kof(a)) > cls(q, kof(b)); }); V a, b; for (auto& x : o) { a.push_back(kof(x)); b.push_back(pof(x)); } fn::emit({{ok() * unchanged(s)}, a, b}); }
}
void fn_case(long idx, fn::rng& r) {
  long ex = fn::num_seqs(3, 5);
  bool each = true; size_t n; ll range = 3;
  if (idx < ex) { fn::nth_seq(idx, 3, 5, v); n = v.size(); }
  else {
    n = (idx % 5) == 4 ? fn::near_len(r, {8192, 10000}, 25000) : fn::near_len(r, {16, 200, 1024, 3000}, 4000);
    each = n < 1500;
    range = RG[r(7)]; if (r.chance(1, 4)) range = (ll)n / 2 + 1;
    v = fn::keys(r, n, range, (int)r(fn::SHAPES));
    if (r.chance(1, 3) && n) { ll hk[3] = {v[0], (ll)r(range), (ll)r(range)}; for (auto& x : v) if (r.chance(1, 2)) x = hk[r(3)]; }   // several heavy keys
  }
  q = (int)r(3);
#if PART == 0 || PART == 1
  witness();
  int mode = (int)r(4); if ((mode == 1 || mode == 3 || mode == 2) && n > 500 && wk.size() > 200) mode = 0;
  HashQ h{q, mode}; EqQ e{q};
  switch (idx % 4) {
#if PART == 0
    case 0: case 1: by_key<KE, long>(h, e, r, each); break;
    case 2: if (n > 2500) each = false; by_key<int, Big>(h, e, r, each); break;
    default: sums<int>(r); break;
#else
    case 0: case 1: by_key<std::string, ty::H>(h, e, r, each); break;
    default: by_key<ty::H, std::string>(h, e, r, each); break;
#endif
  }
#elif PART == 2 || PART == 4
  static const ll NB[] = {1, 2, 3, 16, 64, 65, 200, 255, 1000, 5000, 20000, 60000};
  ll nb = idx < ex ? 3 + (ll)r(2) : NB[r(12)];
  ll kr = r.chance(1, 3) ? std::max<ll>(1, nb / 2) : nb;
  for (auto& x : v) x %= kr;
  q = 0; witness();
  switch (idx % 6) {
#if PART == 2
    case 0: case 1: by_index<size_t>(nb, r, each); break;
    case 2: case 3: case 4: by_index<int>(nb, r, each); break;
#else
    case 0: case 1: by_index<unsigned>(nb, r, each); break;
    case 2: case 3: case 4: by_index<unsigned short>(nb, r, each); break;
#endif
    default: if (nb > 255) { nb = 200; for (auto& x : v) x %= nb; witness(); } by_index<uint8_t>(nb, r, each); break;
  }
#else
  switch (idx % 3) {
    case 0: ordered<unsigned, int>(r, each); break;
    case 1: ordered<ty::H, std::string>(r, each); break;
    default: ordered<int, ty::H>(r, each); break;
  }
#endif
}
