#include "fncommon.h"
#include <deque>
#include <memory>
// PART 0: tabulate/map/filter/pack families; 1: copying, reordering, zipping; 2: flatten; 3: variants with out-parameters and splits
#ifndef PART
#define PART 0
#endif
using parlay::sequence;
inline bool pred(int p, int k) {
  switch (p) { case 0: return k % 2 == 0; case 1: return true; case 2: return false; case 3: return k % 3 == 1; case 4: return k < 2; default: return k % 97 == 5; }
}
inline int fun(int k) { return (int)((3LL * k + 1) % 100003); }
struct Calls { V c; explicit Calls(size_t n) : c(n, 0) {} void hit(ll i) { if (i >= 0 && i < (ll)c.size()) __atomic_add_fetch(&c[i], 1, __ATOMIC_RELAXED); else __atomic_add_fetch(&ty::bad_reads, 1, __ATOMIC_RELAXED); } };
static V ks, xs, ks2, xs2;
static ll bad() { return ty::bad_reads; }
#define UN(s) (ll)(untouched(s, v) && bad() == 0)

template <class T, class R> void family(R&& in, const V& v, fn::rng& r, bool each) {
  ll n = (ll)v.size(); int p = (int)r(6);
  int only = each ? -1 : (int)r(8);
  auto want = [&](int q) { return only < 0 || only == q; };
  if (want(0)) {
    Calls c(n); size_t gran = r.chance(1, 2) ? 0 : 1 + r(3000);
    fn::call("map", {n}, {v}); auto o = parlay::map(in, [&](const T& t) { c.hit(ty::idx(t)); return fun(ty::key(t)); }, gran); fn::emit({{UN(in)}, ints(o), c.c});
  }
  if (want(1)) {
    Calls c(n); fn::call("filter", {p, n}, {v}); auto o = parlay::filter(in, [&](const T& t) { c.hit(ty::idx(t)); return pred(p, ty::key(t)); });
    unpack(o, ks, xs); fn::emit({{UN(in)}, ks, xs, c.c});
  }
  if (want(2)) {
    fn::call("filter", {p, n}, {v});
    switch (r(3)) {
      case 0: { auto fl = parlay::tabulate(n, [&](size_t i) { return pred(p, (int)v[i]); }); auto o = parlay::pack(in, fl); unpack(o, ks, xs); break; }
      case 1: { auto fl = parlay::tabulate(n, [&](size_t i) { return pred(p, (int)v[i]) ? (int)(2 + i) : 0; }); auto o = parlay::pack(in, fl); unpack(o, ks, xs); break; }
      default: { auto o = parlay::pack(in, parlay::delayed_tabulate(n, [&](size_t i) { return pred(p, (int)v[i]); })); unpack(o, ks, xs); break; }
    }
    fn::emit({{UN(in)}, ks, xs});
  }
  if (want(3)) {
    fn::call("pack_index", {p, n}, {v});
    V o;
    if (r.chance(1, 2)) o = ints(parlay::pack_index(parlay::tabulate(n, [&](size_t i) { return pred(p, (int)v[i]); })));
    else o = ints(parlay::pack_index<int>(parlay::delayed_tabulate(n, [&](size_t i) { return pred(p, (int)v[i]) ? 4 : 0; })));
    fn::emit({{UN(in)}, o});
  }
  if (want(4)) {
    Calls c(n); fn::call("map_maybe", {p, n}, {v});
    auto o = parlay::map_maybe(in, [&](const T& t) -> std::optional<int> { c.hit(ty::idx(t)); if (pred(p, ty::key(t))) return fun(ty::key(t)); return std::nullopt; });
    fn::emit({{UN(in)}, ints(o), c.c});
  }
  if (want(5)) {
    fn::call("remove_if", {p, n}, {v}); auto o = parlay::remove_if(in, [&](const T& t) { return pred(p, ty::key(t)); }); unpack(o, ks, xs); fn::emit({{UN(in)}, ks, xs});
  }
  if (want(6)) {
    Calls c(n); fn::call("for_each", {n}, {v}); parlay::for_each(in, [&](const T& t) { c.hit(ty::idx(t)); }); fn::emit({{UN(in)}, c.c});
  }
  if (want(7)) {
    int q = (int)r(3);
    fn::call("unique", {q, n}, {v});
    auto o = parlay::unique(in, [&](const T& a, const T& b) { int x = ty::key(a), y = ty::key(b); return q == 0 ? x == y : q == 1 ? x / 4 == y / 4 : x % 3 == y % 3; });
    unpack(o, ks, xs); fn::emit({{UN(in)}, ks, xs});
  }
}
template <class T, class R> void reorder(R&& in, const V& v, fn::rng& r, bool each) {
  ll n = (ll)v.size();
  int only = each ? -1 : (int)r(7);
  auto want = [&](int q) { return only < 0 || only == q; };
  if (want(0)) { fn::call("reverse", {n}, {v}); auto o = parlay::reverse(in); unpack(o, ks, xs); fn::emit({{UN(in)}, ks, xs}); }
  if (want(1)) { auto q = mk<T>(v); fn::call("reverse", {n}, {v}); parlay::reverse_inplace(q); unpack(q, ks, xs); fn::emit({{(ll)(bad() == 0)}, ks, xs}); }
  if (want(2)) { ll t = r.chance(1, 4) ? n : (ll)r(n + 1); fn::call("rotate", {t, n}, {v}); auto o = parlay::rotate(in, (size_t)t); unpack(o, ks, xs); fn::emit({{UN(in)}, ks, xs}); }
  if (want(3)) {
    V w = fn::keys(r, r(3) ? r(60) : r(3000), 50, 0); auto b = mk<T>(w, 5000000);
    fn::call("append", {n}, {v, w}); auto o = parlay::append(in, b); unpack(o, ks, xs); fn::emit({{UN(in) * untouched(b, w, 5000000)}, ks, xs});
  }
  if (want(4)) {
    size_t m = n + r(4); sequence<T> out; for (size_t i = 0; i < m; i++) out.push_back(ty::make<T>(-5, -6));
    fn::call("copy", {n, (ll)m}, {v}); parlay::copy(in, out); unpack(out, ks, xs); fn::emit({{UN(in)}, ks, xs});
  }
  if (want(5)) {
    V w = fn::keys(r, r(3) ? r(60) : (size_t)std::max<ll>(0, n + (ll)r(5) - 2), 50, 0); auto b = mk<T>(w);
    fn::call("zip", {n}, {v, w});
    auto o = parlay::zip(in, b);
    V a1, a2; for (size_t i = 0; i < o.size(); i++) { a1.push_back(ty::key(std::get<0>(o[i]))); a2.push_back(ty::key(std::get<1>(o[i]))); }
    fn::emit({{UN(in) * untouched(b, w)}, a1, a2});
    fn::call("zip", {n}, {v, w});
    auto o3 = parlay::zip(in, parlay::iota((int)n + 1), b);
    a1.clear(); a2.clear(); ll pos = 1;
    for (size_t i = 0; i < o3.size(); i++) { a1.push_back(ty::key(std::get<0>(o3[i]))); a2.push_back(ty::key(std::get<2>(o3[i]))); if (std::get<1>(o3[i]) != (int)i) pos = 0; }
    fn::emit({{UN(in) * untouched(b, w) * pos}, a1, a2});
  }
  if constexpr (!std::is_same_v<T, uint64_t>) if (want(6)) {
    ll x = n ? v[r(n)] : 3;
    fn::call("remove", {x, n}, {v}); auto o = parlay::remove(in, ty::make<T>((int)x, 0)); unpack(o, ks, xs); fn::emit({{UN(in)}, ks, xs});
  }
}
void sources(fn::rng& r, size_t n) {
  ll N = (ll)n;
  { Calls c(n); size_t gran = r.chance(1, 2) ? 0 : 1 + r(3000);
    fn::call("tabulate", {N}); V o;
    switch (r(3)) {
      case 0: o = ints(parlay::tabulate(n, [&](size_t i) { c.hit((ll)i); return fun((int)i); }, gran)); break;
      case 1: o = ints(parlay::tabulate<long>(n, [&](size_t i) { c.hit((ll)i); return fun((int)i); }, gran)); break;
      default: o = ints(sequence<int>::from_function(n, [&](size_t i) { c.hit((ll)i); return fun((int)i); }, gran)); break;
    }
    fn::emit({{1}, o, c.c}); }
  fn::call("iota", {N}); { auto s = parlay::iota((unsigned)n); V o; for (size_t i = 0; i < s.size(); i++) o.push_back(s[i]); fn::emit({{(ll)(s.size() == n)}, o}); }
  fn::call("iota", {N}); fn::emit({{1}, ints(parlay::to_sequence(parlay::iota<long>(N)))});
}
template <class T> void input_forms(const V& v, fn::rng& r, bool each) {
  ty::bad_reads = 0;
  auto s = mk<T>(v);
  switch (r(5)) {
#if PART == 0
#define RUN(x) family<T>(x, v, r, each)
#else
#define RUN(x) reorder<T>(x, v, r, each)
#endif
    case 0: { const auto& cs = s; RUN(cs); break; }
    case 1: RUN(parlay::make_slice(s)); break;
    case 2: { std::vector<T> w; for (auto& e : s) w.push_back(e); RUN(w); break; }
    case 3: { auto d = parlay::delayed_tabulate(v.size(), [&](size_t i) { return ty::make<T>((int)v[i], (int)i); }); RUN(d); break; }
    default: RUN(s); break;
  }
}
// ---------------------------------------------------------------- flatten
static void shape(fn::rng& r, long idx, V& sizes, V& keys, bool small) {
  sizes.clear();
  if (small) { fn::nth_seq(idx, 4, 4, sizes); }
  else switch (r(5)) {
    case 0: for (size_t i = r(2500); i; i--) sizes.push_back((ll)r(4)); break;
    case 1: for (size_t i = r(6); i; i--) sizes.push_back((ll)fn::near_len(r, {1000, 2000}, 5000)); break;
    case 2: for (size_t i = r(200); i; i--) sizes.push_back(r.chance(1, 10) ? (ll)r(1500) : 0); break;
    case 3: sizes.assign(r(3000), 0); if (!sizes.empty()) sizes[r(sizes.size())] = (ll)r(3000); break;
    default: for (size_t i = r(40); i; i--) sizes.push_back((ll)r(40)); break;
  }
  ll t = 0; for (auto x : sizes) t += x;
  keys.clear(); for (ll i = 0; i < t; i++) keys.push_back((ll)r(1000));
}
template <class T> sequence<sequence<T>> nest(const V& sizes, const V& keys) {
  sequence<sequence<T>> s; ll at = 0;
  for (auto z : sizes) { sequence<T> q; for (ll j = 0; j < z; j++, at++) q.push_back(ty::make<T>((int)keys[at], (int)at)); s.push_back(std::move(q)); }
  return s;
}
template <class T> ll same(const sequence<sequence<T>>& s, const V& sizes, const V& keys) {
  if (s.size() != sizes.size()) return 0;
  ll at = 0;
  for (size_t i = 0; i < s.size(); i++) { if ((ll)s[i].size() != sizes[i]) return 0; for (auto& e : s[i]) { if (ty::key(e) != keys[at] || ty::idx(e) != at) return 0; at++; } }
  return bad() == 0;
}
template <class T> void flat(const V& sizes, const V& keys, fn::rng& r, bool each) {
  ll m = (ll)sizes.size();
  int only = each ? -1 : (int)r(6);
  auto want = [&](int q) { return only < 0 || only == q; };
  ty::bad_reads = 0;
  if (want(0)) { auto s = nest<T>(sizes, keys); fn::call("flatten", {m}, {sizes, keys}); auto o = parlay::flatten(std::move(s)); unpack(o, ks, xs); fn::emit({{(ll)(s.size() == 0 && bad() == 0)}, ks, xs}); }
  if constexpr (std::is_copy_constructible_v<T>) {
    if (want(1)) { auto s = nest<T>(sizes, keys); fn::call("flatten", {m}, {sizes, keys}); auto o = parlay::flatten(s); unpack(o, ks, xs); fn::emit({{same(s, sizes, keys)}, ks, xs}); }
    if (want(2)) { auto s = nest<T>(sizes, keys); fn::call("flatten", {m}, {sizes, keys}); auto o = parlay::flatten(parlay::make_slice(s)); unpack(o, ks, xs); fn::emit({{same(s, sizes, keys)}, ks, xs}); }
    if (want(3)) { auto s = nest<T>(sizes, keys); fn::call("flatten", {m}, {sizes, keys}); auto o = parlay::flatten(parlay::delayed_map(s, [](const sequence<T>& q) { return q; })); unpack(o, ks, xs); fn::emit({{same(s, sizes, keys)}, ks, xs}); }
    if (want(4)) { auto s = nest<T>(sizes, keys); fn::call("flatten", {m}, {sizes, keys}); auto o = parlay::flatten(parlay::delayed_tabulate(s.size(), [&](size_t i) { return parlay::make_slice(s[i]); })); unpack(o, ks, xs); fn::emit({{same(s, sizes, keys)}, ks, xs}); }
    if (want(5)) { std::vector<std::vector<T>> w; for (auto& q : nest<T>(sizes, keys)) { w.emplace_back(); for (auto& e : q) w.back().push_back(e); } const auto& cw = w;
      fn::call("flatten", {m}, {sizes, keys}); auto o = parlay::flatten(cw); unpack(o, ks, xs); ll ok = w.size() == sizes.size(); for (size_t i = 0; i < w.size(); i++) ok = ok && (ll)w[i].size() == sizes[i]; fn::emit({{(ll)(ok && bad() == 0)}, ks, xs}); }
  }
}
// ------------------------------------------------------- out-parameters, splits
template <class T> struct Raw {      // uninitialised storage for n elements, m of which end up alive
  T* p; size_t n, m = 0;
  explicit Raw(size_t n_) : p((T*)malloc(n_ * sizeof(T) + 64)), n(n_) { memset((void*)p, 0x5b, n * sizeof(T) + 64); }
  ~Raw() { for (size_t i = 0; i < m; i++) p[i].~T(); free(p); }
  ll tail() const { const unsigned char* q = (const unsigned char*)(p + m); for (const unsigned char* e = (const unsigned char*)(p + n) + 64; q < e; q++) if (*q != 0x5b) return 0; return 1; }
};
template <class T> void outs(const V& v, fn::rng& r, bool each) {
  ll n = (ll)v.size(); int p = (int)r(6);
  int only = each ? -1 : (int)r(5);
  auto want = [&](int q) { return only < 0 || only == q; };
  ty::bad_reads = 0;
  auto in = mk<T>(v);
  auto slack = [&] { return r.chance(1, 2) ? (size_t)n : (size_t)std::count_if(v.begin(), v.end(), [&](ll k) { return pred(p, (int)k); }); };
  auto take = [&](Raw<T>& w, size_t m) { w.m = m > w.n ? w.n : m; ks.clear(); xs.clear(); for (size_t i = 0; i < w.m; i++) { ks.push_back(ty::key(w.p[i])); xs.push_back(ty::idx(w.p[i])); } };
  if (want(0)) { Raw<T> w(slack()); fn::call("filter_into", {p, n}, {v}); size_t m = parlay::filter_into_uninitialized(in, parlay::make_slice(w.p, w.p + w.n), [&](const T& t) { return pred(p, ty::key(t)); }); take(w, m); fn::emit({{UN(in) * w.tail(), (ll)m}, ks, xs}); }
  if (want(1)) {
    Raw<T> w(slack()); fn::call("filter_into", {p, n}, {v}); size_t m;
    if (r.chance(1, 2)) { auto fl = parlay::tabulate(n, [&](size_t i) { return pred(p, (int)v[i]); }); m = parlay::pack_into_uninitialized(in, fl, parlay::make_slice(w.p, w.p + w.n)); }
    else { auto fl = parlay::tabulate(n, [&](size_t i) { return pred(p, (int)v[i]) ? (int)i + 3 : 0; }); m = parlay::pack_into_uninitialized(in, fl, parlay::make_slice(w.p, w.p + w.n)); }
    take(w, m); fn::emit({{UN(in) * w.tail(), (ll)m}, ks, xs});
  }
  if (want(2)) {
    fn::call("split_two", {p, n}, {v}); auto fl = parlay::tabulate(n, [&](size_t i) { return pred(p, (int)v[i]); });
    auto [o, m] = parlay::internal::split_two(in, fl); unpack(o, ks, xs); fn::emit({{UN(in), (ll)m}, ks, xs});
  }
  if (want(3)) {
    Raw<T> w(n); fn::call("split_three", {n}, {v}); auto fl = parlay::tabulate(n, [&](size_t i) { return (unsigned char)(v[i] % 3); });
    auto [a, b] = parlay::internal::split_three<parlay::uninitialized_copy_tag>(parlay::make_slice(in), parlay::make_slice(w.p, w.p + n), fl);
    take(w, n); fn::emit({{UN(in) * w.tail(), (ll)a, (ll)b}, ks, xs});
  }
  if (want(4)) {
    sequence<T> out(n); fn::call("split_three", {n}, {v}); auto fl = parlay::tabulate(n, [&](size_t i) { return (unsigned char)(v[i] % 3); });
    auto [a, b] = parlay::internal::split_three<parlay::copy_assign_tag>(parlay::make_slice(in), parlay::make_slice(out), fl, parlay::fl_conservative);
    unpack(out, ks, xs); fn::emit({{UN(in), (ll)a, (ll)b}, ks, xs});
  }
}
void fn_case(long idx, fn::rng& r) {
  long ex = fn::num_seqs(3, 4);
#if PART == 2
  V sizes, keys; bool small = idx < fn::num_seqs(4, 4);
  shape(r, idx, sizes, keys, small);
  bool each = keys.size() + sizes.size() < 1500;
  switch (idx % 3) { case 0: flat<ty::E>(sizes, keys, r, each); break; case 1: flat<ty::H>(sizes, keys, r, each); break; default: flat<ty::M>(sizes, keys, r, each); break; }
  (void)ex; return;
#else
  V v; bool each = true; size_t n;
  if (idx < ex) { fn::nth_seq(idx, 3, 4, v); n = v.size(); }
  else {
    n = (idx % 9) == 8 ? fn::near_len(r, {8192, 10000}, 20000) : fn::near_len(r, {1024, 2048, 3072, 4096, 16, 200}, 5000);
    each = n < 2200;
    v = fn::keys(r, n, RG[r(7)], (int)r(fn::SHAPES));
  }
#if PART == 3
  switch (idx % 3) { case 0: outs<ty::E>(v, r, each); break; case 1: outs<ty::H>(v, r, each); break; default: outs<ty::B>(v, r, each); break; }
#else
#if PART == 0
  if (idx % 5 == 0) sources(r, n);
#endif
  switch (idx % 3) { case 0: input_forms<ty::E>(v, r, each); break; case 1: input_forms<ty::H>(v, r, each); break; default: input_forms<uint64_t>(v, r, each); break; }
#endif
#endif
}
