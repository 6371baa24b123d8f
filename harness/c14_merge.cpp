#define TY_OWN_NE
#include "fncommon.h"
template <class T> struct same { bool operator!=(const same&) const { return false; } };

template <class T> void merges(const V& a, const V& b, int c) {
  V ka = a, kb = b;
  auto by = [&](ll x, ll y) { return ty::rank_of(c, (int)x) < ty::rank_of(c, (int)y); };
  std::stable_sort(ka.begin(), ka.end(), by); std::stable_sort(kb.begin(), kb.end(), by);
  auto sa = mk<T>(ka); auto sb = mk<T>(kb, (int)ka.size());
  cmp_t<T> cmp{c};
  V k, x;
  fn::call("merge", {c}, {ka, kb});
  ty::bad_reads = 0;
  { auto r = parlay::merge(sa, sb, cmp); unpack(r, k, x); }
  fn::emit({k, x, {untouched(sa, ka) && untouched(sb, kb, (int)ka.size()), ty::bad_reads}});
  if (c == 0) {
    fn::call("merge", {c}, {ka, kb});
    ty::bad_reads = 0;
    { auto r = parlay::merge(parlay::make_slice(sa), parlay::make_slice(sb)); unpack(r, k, x); }
    fn::emit({k, x, {untouched(sa, ka) && untouched(sb, kb, (int)ka.size()), ty::bad_reads}});
  }
}
template <class T> void queries(const V& v, int c, fn::rng& r) {
  auto s = mk<T>(v);
  cmp_t<T> cmp{c};
  size_t n = v.size();
  auto rk = [&](const char* nm, auto&& ranks) {
    V rv = ints(ranks), pos(rv.size(), -1);
    for (size_t j = 0; j < rv.size(); j++) if (rv[j] >= 0 && rv[j] < (ll)pos.size()) pos[rv[j]] = (ll)j;
    fn::emit({rv, pos});
  };
  fn::call("rank", {c}, {v});
  if (r.chance(1, 2)) rk("rank", parlay::rank(s, cmp)); else rk("rank", parlay::rank<unsigned short>(parlay::make_slice(s), cmp));
  fn::call("is_sorted", {c}, {v}); fn::emit({{(ll)parlay::is_sorted(s, cmp)}});
  fn::call("is_sorted_until", {c}, {v}); fn::emit({{(ll)(parlay::is_sorted_until(s, cmp) - s.begin())}});
  if (c == 0) {
    fn::call("is_sorted", {c}, {v}); fn::emit({{(ll)parlay::is_sorted(s)}});
    fn::call("is_sorted_until", {c}, {v}); fn::emit({{(ll)(parlay::is_sorted_until(s) - s.begin())}});
  }
  for (int q = 0; q < 3 && n; q++) {
    size_t k = q == 0 ? r(n) : q == 1 ? (r.chance(1, 2) ? 0 : n - 1) : r(n);
    fn::call("kth_smallest", {c, (ll)k}, {v}); fn::emit({{(ll)(parlay::kth_smallest(s, k, cmp) - s.begin())}});
    fn::call("kth_smallest_copy", {c, (ll)k}, {v});
    { auto e = parlay::kth_smallest_copy(s, k, cmp); fn::emit({{ty::key(e), ty::idx(e)}}); }
    if (c == 0) {
      fn::call("kth_smallest", {c, (ll)k}, {v}); fn::emit({{(ll)(parlay::kth_smallest(s, k) - s.begin())}});
      fn::call("kth_smallest_copy", {c, (ll)k}, {v});
      { auto e = parlay::kth_smallest_copy(s, k); fn::emit({{ty::key(e), ty::idx(e)}}); }
    }
  }
}
namespace ty { inline bool operator!=(const E& a, const E& b) { return key(a) != key(b); } inline bool operator!=(const H& a, const H& b) { return key(a) % 3 != key(b) % 3; } }

void fn_case(long idx, fn::rng& r) {
  long ex = fn::num_seqs(3, 6);
  V v, a, b;
  int c = (int)r(4);
  if (idx < ex) {
    fn::nth_seq(idx, 3, 6, v);
    c = (int)(idx % 2);
    size_t cut = r(v.size() + 1);
    a.assign(v.begin(), v.begin() + cut); b.assign(v.begin() + cut, v.end());
  } else {
    long j = idx - ex;
    size_t n = j % 4 == 3 ? fn::near_len(r, {2000, 4000, 1000, 1024, 5000}, 9000) : fn::near_len(r, {10, 16, 100, 300, 1000}, 1100);
    v = fn::keys(r, n, RG[r(8)], (int)r(fn::SHAPES));
    size_t na = r.chance(1, 3) ? r(4) : r(n + 1);
    if (na > n) na = n;
    if (r.chance(1, 3)) na = n - na;
    a.assign(v.begin(), v.begin() + na); b.assign(v.begin() + na, v.end());
    if (r.chance(1, 3)) {   // nearly sorted input for the queries
      std::stable_sort(v.begin(), v.end(), [&](ll x, ll y) { return ty::rank_of(c, (int)x) < ty::rank_of(c, (int)y); });
      if (n && r.chance(2, 3)) v[r(n)] = (ll)r(100);
    }
  }
  if (idx % 2) { merges<ty::E>(a, b, c); queries<ty::E>(v, c, r); }
  else { merges<ty::H>(a, b, c); queries<ty::H>(v, c, r); }
}
