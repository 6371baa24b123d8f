#include "fncommon.h"
#include <memory>
#include <parlay/delayed.h>
// A pipeline = source, then up to three operations, each of which takes the stage
// before it as an owned value (the stage is moved and destroyed), by reference, or by const
// reference; the last view is then put through a life cycle and consumed.  The
// pipelines of a build are chosen at compile time from PART and SEED.
#ifndef PART
#define PART 0
#endif
#ifndef SEED
#define SEED 1
#endif
#ifndef PROGS
#define PROGS 40
#endif
namespace d = parlay::delayed;
using parlay::sequence;
struct Data { V v, w; sequence<int> a, b; parlay::short_sequence<int> s; ll q; sequence<sequence<int>> table; };
static ll val(int x) { return x; }
static ll val(size_t x) { return (ll)x; }
template <class A, class B> ll val(const std::pair<A, B>& t);
template <class A, class B> ll val(const std::tuple<A, B>& t) { return (val(std::get<0>(t)) * 2 + val(std::get<1>(t)) + 7) % 100003; }
template <class A, class B> ll val(const std::pair<A, B>& t) { return (val(t.first) * 2 + val(t.second) + 7) % 100003; }
static bool pred(int p, ll k) { switch (p) { case 0: return k % 2 == 0; case 1: return true; case 2: return false; case 3: return k % 3 == 1; case 4: return k < 2; default: return k % 97 == 5; } }
static int fun(ll k) { return (int)((3 * k + 1) % 100003); }
struct last_t { template <class A, class B> int operator()(A&& a, B&& b) const { ll y = val(b); return (int)(y == 0 ? val(a) : y); } };   // associative, not commutative
struct add_t { template <class A, class B> int operator()(A&& a, B&& b) const { return (int)((val(a) + val(b)) % 10007); } };
// a predicate with something to lose when it is destroyed too early
struct Box { std::unique_ptr<int> p; explicit Box(int x) : p(new int(x)) {} Box(const Box& o) : p(o.p ? new int(*o.p) : nullptr) {} Box(Box&&) = default; Box& operator=(const Box&) = delete; int get() const { if (!p) { ty::bad_reads++; return 0; } return *p; } };

constexpr int NOPS = 15;
template <int OP, class R> auto op(R&& r, Data& D) {
  Box p((int)D.q);
  if constexpr (OP == 0) return d::map(std::forward<R>(r), [p](const auto& x) { return fun(val(x)) + 0 * p.get(); });
  else if constexpr (OP == 1) return d::filter(std::forward<R>(r), [p](const auto& x) { return pred(p.get(), val(x)); });
  else if constexpr (OP == 2) return d::map_maybe(std::forward<R>(r), [p](const auto& x) -> std::optional<int> { if (pred(p.get(), val(x))) return fun(val(x)); return std::nullopt; });
  else if constexpr (OP == 3) { auto pr = d::scan(std::forward<R>(r), last_t{}, 0); return std::move(pr.first); }
  else if constexpr (OP == 4) return d::scan_inclusive(std::forward<R>(r), add_t{}, 0);
  else if constexpr (OP == 5) return d::zip_with([p](const auto& x, const auto& y) { return (int)((2 * val(x) + y) % 100003) + 0 * p.get(); }, std::forward<R>(r), D.b);
  else if constexpr (OP == 6) return d::enumerate(std::forward<R>(r));
  else if constexpr (OP == 7) return d::flatten(d::map(std::forward<R>(r), [](const auto& x) { int k = (int)val(x); return parlay::tabulate((size_t)(k % 3), [k](size_t j) { return k + (int)j; }); }));
  else if constexpr (OP == 8) return d::flatten(d::map(std::forward<R>(r), [t = &D.table](const auto& x) -> const sequence<int>& { return (*t)[val(x) % 8]; }));
  else if constexpr (OP == 9) return d::zip(std::forward<R>(r), D.b);
  else if constexpr (OP == 10) return d::zip(std::forward<R>(r), d::filter(D.b, [p](int x) { return x % 5 != 0; }));
  else if constexpr (OP == 11) return d::values_view(d::map(std::forward<R>(r), [](const auto& x) { return std::make_pair(1, fun(val(x))); }));
  else if constexpr (OP == 12) return d::flatten(d::filter(d::map(std::forward<R>(r), [t = &D.table](const auto& x) -> const sequence<int>& { return (*t)[val(x) % 8]; }), [](const sequence<int>& s) { return s.size() != 2; }));
  else if constexpr (OP == 13) return d::scan_inclusive(std::forward<R>(r), last_t{}, 0);
  else return d::flatten(d::tabulate(3, [x = d::to_sequence(d::map(std::forward<R>(r), [](const auto& e) { return (int)val(e); }))](size_t) -> const sequence<int>& { return x; }));
}
constexpr int NSRC = 7;
template <int S> auto source(Data& D) {
  if constexpr (S == 0) return parlay::make_slice(D.a);
  else if constexpr (S == 1) return sequence<int>(D.a);
  else if constexpr (S == 2) return d::tabulate(D.a.size(), [a = &D.a, p = Box(3)](size_t i) { return (*a)[i] + 0 * p.get(); });
  else if constexpr (S == 3) return parlay::short_sequence<int>(D.s);
  else if constexpr (S == 4) return d::filter(D.a, [](int) { return true; });
  else if constexpr (S == 5) return d::map(sequence<int>(D.a), [](int x) -> int { return x; });
  else return d::map_maybe(sequence<int>(D.a), [](int x) { return std::optional<int>(x); });
}
template <class T> struct is_seq : std::false_type {};
template <class T, class A, bool E> struct is_seq<sequence<T, A, E>> : std::true_type {};
// mode 0 owned, 1 reference, 2 const reference
template <int MODE, int OP, class R, class K> void stage(R& r, Data& D, K&& k) {
  // an owned random-access container cannot be zipped (does not compile); it is then taken by reference
  constexpr bool zip_owned = is_seq<std::decay_t<R>>::value && (OP == 5 || OP == 6 || OP == 9);
  if constexpr (MODE == 0 && !zip_owned) {
    auto* q = new R(std::move(r));
    auto nx = op<OP>(std::move(*q), D);
    delete q;
    k(nx);
  } else if constexpr (MODE == 2 && parlay::is_block_iterable_range_v<const R&>) {
    const R& c = r;
    auto nx = op<OP>(c, D); k(nx);
  } else { auto nx = op<OP>(r, D); k(nx); }
}
struct Prog { int n, src, m[3], o[3]; };
constexpr uint64_t hashp(uint64_t x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
constexpr Prog prog(int k) {
  // parts enumerate operations and sources evenly, the rest is drawn
  uint64_t h = hashp(hashp(SEED * 1000 + PART) + (uint64_t)k);
  Prog p{};
  int g = PART * PROGS + k;
  p.o[0] = g % NOPS; p.src = (int)((g / NOPS + h) % NSRC); h = hashp(h);
  p.n = 1 + (int)(h % 8 < 3 ? 0 : h % 8 < 7 ? 1 : 2); h = hashp(h);
  p.o[1] = (int)(h % NOPS); h = hashp(h); p.o[2] = (int)(h % NOPS); h = hashp(h);
  for (int i = 0; i < 3; i++) { p.m[i] = h % 5 < 3 ? 0 : (int)(h % 5) - 2; h = hashp(h); }
  return p;
}
template <int PG, int I, class R, class K> void chain(R& r, Data& D, K&& k) {
  constexpr Prog P = prog(PG);
  if constexpr (I == P.n) k(r);
  else stage<P.m[I], P.o[I]>(r, D, [&](auto& nx) { chain<PG, I + 1>(nx, D, k); });
}
template <int PG, class K> void build(Data& D, K&& k) { auto s = source<prog(PG).src>(D); chain<PG, 0>(s, D, k); }

template <class R> V read(R& r, int cons, ll& size) {
  V out; size = (ll)parlay::size(r);
  switch (cons) {
    case 0: { auto s = d::to_sequence(r); for (size_t i = 0; i < s.size(); i++) out.push_back(val(s[i])); break; }
    case 1: for (auto it = r.begin(); it != r.end(); ++it) out.push_back(val(*it)); break;
    case 2: for (auto it = r.begin(), e = r.end(); it != e; it++) { auto c = it; out.push_back(val(*c)); } break;
    case 3: if constexpr (parlay::is_block_iterable_range_v<const R&>) { const R& c = r; auto s = d::to_sequence(c); for (size_t i = 0; i < s.size(); i++) out.push_back(val(s[i])); break; }
      [[fallthrough]];
    case 4: case 5: {
      auto red = [&](auto&& x) { out.push_back(cons == 5 ? d::reduce(x, parlay::binary_op(add_t{}, 0)) : d::reduce(x, last_t{}, 0)); };
      if constexpr (std::is_same_v<parlay::range_value_type_t<R>, int>) red(r);
      else red(d::map(r, [](const auto& x) { return (int)val(x); }));
      break;
    }
    default: {
      sequence<int> seen((size_t)size); size_t at = 0;
      auto f = [&](const auto& x) { size_t i = __atomic_fetch_add(&at, 1, __ATOMIC_RELAXED); if (i < (size_t)size) seen[i] = (int)val(x); };
      if (cons == 6) d::apply(r, f); else d::for_each(r, f);
      out.assign(seen.begin(), seen.end()); std::sort(out.begin(), out.end());
      if (at != (size_t)size) out.push_back((ll)at);
    }
  }
  return out;
}
// life cycles of the final view before it is read
template <class R> V lived(R& r, R& other, int life, int cons, ll& size) {
  switch (life) {
    case 0: return read(r, cons, size);
    case 1: { auto* q = new R(r); R c(*q); delete q; return read(c, cons, size); }
    case 2: { auto* q = new R(std::move(r)); R c(std::move(*q)); delete q; return read(c, cons, size); }
    case 3: if constexpr (std::is_copy_assignable_v<R>) { auto* q = new R(r); other = *q; delete q; return read(other, cons, size); } return read(r, cons, size);
    case 4: if constexpr (std::is_move_assignable_v<R>) { auto* q = new R(std::move(r)); other = std::move(*q); delete q; return read(other, cons, size); } return read(r, cons, size);
    case 5: if constexpr (std::is_copy_assignable_v<R>) { R& alias = r; r = alias; } return read(r, cons, size);
    case 6: if constexpr (std::is_move_assignable_v<R>) { using std::swap; swap(r, other); return read(other, cons, size); } return read(r, cons, size);
    default: { { R c(r); ll x; read(c, 0, x); } return read(r, cons, size); }   // read through a copy first
  }
}
static void fill(Data& D, fn::rng& r, size_t n, ll range) {
  D.v = fn::keys(r, n, range, (int)r(fn::SHAPES));
  if (r.chance(1, 4)) for (auto& x : D.v) if (r.chance(9, 10)) x = 0;
  D.a = parlay::tabulate(n, [&](size_t i) { return (int)D.v[i]; });
  D.s.clear(); for (ll x : D.v) D.s.push_back((int)x);
}
template <int PG> void run(fn::rng& r) {
  constexpr Prog P = prog(PG);
  size_t n = r.chance(1, 8) ? r(4) : r.chance(1, 2) ? r(40) : r.chance(1, 2) ? fn::near_len(r, {2000, 4000, 6000}, 6100) : 1500 + r(1000);
  ll range = RG[r(6)];
  Data D, E;
  fill(D, r, n, range);
  fill(E, r, r(2) ? r(30) : r(4100), range);
  size_t m = r.chance(1, 2) ? n : r.chance(1, 2) ? n + r(2500) : r(n + 1);
  D.w = fn::keys(r, m, 1000, 0); E.w = D.w;
  D.b = parlay::tabulate(m, [&](size_t i) { return (int)D.w[i]; }); E.b = D.b;
  D.q = (ll)r(6); E.q = (ll)r(6);
  int kind = (int)r(3);   // table of inner sequences: mixed, mostly empty, some longer than a block
  V flat, off;
  for (int j = 0; j < 8; j++) {
    size_t l = kind == 0 ? (size_t)(j % 4) : kind == 1 ? (j == 7 ? 3 : 0) : (j == 3 && n < 50 ? 2000 + r(4) : (size_t)(j % 3));
    off.push_back((ll)flat.size());
    sequence<int> s; for (size_t i = 0; i < l; i++) { int x = (int)r(500); s.push_back(x); flat.push_back(x); }
    D.table.push_back(s);
  }
  off.push_back((ll)flat.size());
  E.table = D.table;
  int life = (int)r(8), cons = (int)r(8);
  fn::call("pipe", {P.n, P.src, P.o[0], P.o[1], P.o[2], P.m[0], P.m[1], P.m[2], D.q, life, cons, (ll)n}, {D.v, D.w, flat, off});
  ty::bad_reads = 0;
  V out; ll size = -1;
  build<PG>(D, [&](auto& x) { build<PG>(E, [&](auto& y) { out = lived(x, y, life, cons, size); }); });
  auto same = [](auto& s, const V& v) { return s.size() == v.size() && std::equal(s.begin(), s.end(), v.begin()); };
  ll ok = ty::bad_reads == 0 && same(D.a, D.v) && same(E.a, E.v) && same(D.b, D.w);
  fn::emit({{ok, size}, out});
}
template <int... I> void pick(size_t k, fn::rng& r, std::integer_sequence<int, I...>) { (void)((k == (size_t)I ? (run<I>(r), true) : false) || ...); }
void fn_case(long idx, fn::rng& r) { pick((size_t)(idx % PROGS), r, std::make_integer_sequence<int, PROGS>()); }
