#include "fncommon.h"
#include <parlay/delayed.h>
// PART 0: E, 1: H, 2: views of ints (slices, delayed sequences, vectors)
#ifndef PART
#define PART 0
#endif
inline bool up(int p, int k) { switch (p) { case 0: return k == 0; case 1: return true; case 2: return false; case 3: return k > 0; case 4: return k == 7; default: return k % 3 == 1; } }
inline bool rel(int q, int a, int b) { switch (q) { case 0: return a == b; case 1: return a < b; case 2: return a == b + 1; case 3: return a / 4 == b / 4; default: return b == 5; } }
inline int kf(int x) { return x; }
template <class T> inline int kf(const T& t) { return ty::key(t); }

template <class S, class S2, class MK> void all(S& s, const V& v, S2& t, const V& w, fn::rng& r, MK&& mkv, bool each) {
  ll n = (ll)v.size(), m = (ll)w.size();
  int p = (int)r(6), q = (int)r(5), c = (int)r(4);
  auto U = [&](const auto& x) { return up(p, kf(x)); };
  // different argument types tell the two ranges apart
  auto R = [&](const auto& a, const auto& b) { return rel(q, kf(a), kf(b)); };
  auto L = [&](const auto& a, const auto& b) { return ty::rank_of(c, kf(a)) < ty::rank_of(c, kf(b)); };
  auto at = [&](auto it) { return (ll)(it - std::begin(s)); };
  int only = each ? -1 : (int)r(9);
  auto want = [&](int z) { return only < 0 || only == z; };
  const std::vector<V> I1{v}, I2{v, w};
  if (want(0)) {
    fn::call("find_if", {p, n}, I1); fn::emit({{at(parlay::find_if(s, U))}});
    fn::call("find_if_not", {p, n}, I1); fn::emit({{at(parlay::find_if_not(s, U))}});
    int k = n && r.chance(2, 3) ? (int)v[r(n)] : (int)r(60);
    auto e = mkv(k);
    fn::call("find", {k, n}, I1); fn::emit({{at(parlay::find(s, e))}});
    fn::call("count", {k, n}, I1); fn::emit({{(ll)parlay::count(s, e)}});
  }
  if (want(1)) {
    fn::call("counts", {p, n}, I1);
    fn::emit({{(ll)parlay::count_if(s, U), parlay::all_of(s, U), parlay::any_of(s, U), parlay::none_of(s, U), parlay::is_partitioned(s, U)}});
  }
  if (want(2)) {
    fn::call("find_first_of", {q, n}, I2); fn::emit({{at(parlay::find_first_of(s, t, R))}});
    fn::call("find_first_of", {0, n}, I2); fn::emit({{at(parlay::find_first_of(s, t))}});
  }
  if (want(3)) {
    fn::call("adjacent_find", {q, n}, I1); fn::emit({{at(parlay::adjacent_find(s, R))}});
    fn::call("adjacent_find", {0, n}, I1); fn::emit({{at(parlay::adjacent_find(s))}});
  }
  if (want(4)) {
    fn::call("mismatch", {q, n, m}, I2); { auto o = parlay::mismatch(s, t, R); fn::emit({{at(o.first), (ll)(o.second - std::begin(t))}}); }
    fn::call("mismatch", {0, n, m}, I2); { auto o = parlay::mismatch(s, t); fn::emit({{at(o.first), (ll)(o.second - std::begin(t))}}); }
    fn::call("equal", {q, n, m}, I2); fn::emit({{parlay::equal(s, t, R)}});
    fn::call("equal", {0, n, m}, I2); fn::emit({{parlay::equal(s, t)}});
  }
  if (want(5)) {
    fn::call("search", {q, n, m}, I2); fn::emit({{at(parlay::search(s, t, R))}});
    fn::call("search", {0, n, m}, I2); fn::emit({{at(parlay::search(s, t))}});
  }
  if (want(6)) {
    fn::call("find_end", {q, n, m}, I2); fn::emit({{at(parlay::find_end(s, t, R))}});
    fn::call("find_end", {0, n, m}, I2); fn::emit({{at(parlay::find_end(s, t))}});
  }
  if (want(7)) {
    fn::call("lex", {c, n, m}, I2); fn::emit({{parlay::lexicographical_compare(s, t, L)}});
    fn::call("lex", {0, n, m}, I2); fn::emit({{parlay::lexicographical_compare(s, t)}});
  }
  if (want(8)) {
    fn::call("minmax", {c, n}, I1);
    auto o = parlay::minmax_element(s, L);
    fn::emit({{at(parlay::min_element(s, L)), at(parlay::max_element(s, L)), at(o.first), at(o.second)}});
    fn::call("minmax", {0, n}, I1);
    auto o2 = parlay::minmax_element(s);
    fn::emit({{at(parlay::min_element(s)), at(parlay::max_element(s)), at(o2.first), at(o2.second)}});
  }
}
void fn_case(long idx, fn::rng& r) {
  long ex = fn::num_seqs(3, 6);
  V v, w;
  bool each = idx < ex;
  if (each) {
    V u; fn::nth_seq(idx, 3, 6, u);
    size_t cut = r(u.size() + 1); v.assign(u.begin(), u.begin() + cut); w.assign(u.begin() + cut, u.end());
    if (r.chance(1, 2)) std::swap(v, w);
  } else {
    size_t n = idx % 3 == 0 ? fn::near_len(r, {1000, 3000, 7000, 2000, 5000}, 7300) : fn::near_len(r, {10, 100, 1000, 1500}, 1600);
    int how = (int)r(6);
    if (how == 0) v = fn::keys(r, n, RG[r(8)], (int)r(fn::SHAPES));
    else {   // a uniform sequence with a few exceptions, late ones preferred
      ll base = (ll)r(8); v.assign(n, base);
      for (ll e = (ll)r(4); e > 0 && n; e--) { size_t i = r.chance(1, 2) ? n - 1 - r(n < 20 ? n : 20) : r(n); v[i] = (ll)r(9); if (r.chance(1, 2) && i + 1 < n) v[i + 1] = (ll)r(9); }
    }
    switch (r(6)) {
      case 0: w = fn::keys(r, r(5), 9, 0); break;
      case 1: { size_t a = r(n + 1), l = r(std::min<size_t>(n - a, r(2) ? 6 : 400) + 1); w.assign(v.begin() + a, v.begin() + a + l); break; }   // a piece of v
      case 2: w = v; break;
      case 3: w = v; if (n) { w[n - 1 - r(n < 30 ? n : 30)] = (ll)r(9); } break;
      case 4: w = v; w.resize(r(n + 1)); break;
      default: w = v; for (int e = (int)r(5); e >= 0; e--) w.push_back((ll)r(9)); break;
    }
  }
  auto piece = [&](const V& x) { return x; };
#if PART < 2
  using T = std::conditional_t<PART == 0, ty::E, ty::H>;
  auto s = mk<T>(piece(v)); auto t = mk<T>(w);
  all(s, v, t, w, r, [](int k) { return ty::make<T>(k, 0); }, each);
#else
  auto id = [](int k) { return k; };
  parlay::sequence<int> s, t; for (ll x : v) s.push_back((int)x); for (ll x : w) t.push_back((int)x);
  if (idx % 2) { auto a = parlay::make_slice(s); auto b = parlay::delayed_map(t, [](int x) { return x; }); all(a, v, b, w, r, id, each); }
  else { auto a = parlay::delayed_tabulate(s.size(), [&](size_t i) { return s[i]; }); std::vector<int> b(t.begin(), t.end()); all(a, v, b, w, r, id, each); }
#endif
}
