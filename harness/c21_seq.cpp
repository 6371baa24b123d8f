// Histories of operations on three sequences a, b, c of one type; after every
// operation the contents of all three are recorded.
#include "fncommon.h"
#include <list>
#include <string>
#ifndef PART
#define PART 0
#endif
// an allocator that counts and defines construct and destroy
static ll live_bytes, made, dead;
template <class T> struct counting {
  using value_type = T;
  counting() = default;
  template <class U> counting(const counting<U>&) {}
  T* allocate(size_t n) { __atomic_add_fetch(&live_bytes, (ll)(n * sizeof(T)), __ATOMIC_RELAXED); return static_cast<T*>(::operator new(n * sizeof(T))); }
  void deallocate(T* p, size_t n) { __atomic_sub_fetch(&live_bytes, (ll)(n * sizeof(T)), __ATOMIC_RELAXED); ::operator delete(p); }
  template <class U, class... A> void construct(U* p, A&&... a) { ::new ((void*)p) U(std::forward<A>(a)...); }
  template <class U> void destroy(U* p) { p->~U(); }
  friend bool operator==(const counting&, const counting&) { return true; }
  friend bool operator!=(const counting&, const counting&) { return false; }
};
struct W16 { ll a; int k; bool operator==(const W16& o) const { return k == o.k; } bool operator<(const W16& o) const { return k < o.k; } };
struct Huge { int k; int pad[2100]; };   // larger than the chunks in which sequences are copied and compared
inline bool operator==(const Huge& a, const Huge& b) { return a.k == b.k; }
inline bool operator<(const Huge& a, const Huge& b) { return a.k < b.k; }
// over-aligned elements; a misaligned one counts as a bad read
template <size_t A> struct alignas(A) Wide {
  int k = 0; Wide() = default; Wide(int x) : k(x) {}
  int key() const { uintptr_t at = (uintptr_t)this; asm volatile("" : "+r"(at)); if (at % A) __atomic_add_fetch(&ty::bad_reads, 1, __ATOMIC_RELAXED); return k; }
  bool operator==(const Wide& o) const { return key() == o.key(); } bool operator<(const Wide& o) const { return key() < o.key(); }
};
// owns heap memory; a default-constructed one is a value like others
struct D : ty::H { using ty::H::H; };
inline int dkey(const D& t) { return t.n ? t.n->k : t.moved ? (__atomic_add_fetch(&ty::bad_reads, 1, __ATOMIC_RELAXED), -7) : 0; }
inline bool operator==(const D& a, const D& b) { return dkey(a) == dkey(b); }
inline bool operator!=(const D& a, const D& b) { return !(a == b); }
inline bool operator<(const D& a, const D& b) { return dkey(a) < dkey(b); }
template <class T> struct io { static T mk(int k) { return (T)k; } static int key(const T& t) { return (int)t; } static T dflt() { return T(); } static constexpr int CAP = 1 << 30; };
template <> struct io<char> { static char mk(int k) { return (char)(k % 100); } static int key(char c) { return c; } static constexpr int CAP = 100; };
template <> struct io<D> { static D mk(int k) { return D(k, k); } static int key(const D& t) { return dkey(t); } };
template <> struct io<ty::E> { static ty::E mk(int k) { return ty::E{k, k}; } static int key(const ty::E& t) { return t.k; } };
template <> struct io<W16> { static W16 mk(int k) { return W16{k + 1, k}; } static int key(const W16& t) { return t.k; } };
template <> struct io<Huge> { static Huge mk(int k) { Huge h; h.k = k; for (auto& p : h.pad) p = k; return h; } static int key(const Huge& t) { if (t.k != t.pad[2099]) ty::bad_reads++; return t.k; } };
template <size_t A> struct io<Wide<A>> { static Wide<A> mk(int k) { return Wide<A>(k); } static int key(const Wide<A>& t) { return t.key(); } static Wide<A> dflt() { return Wide<A>(); } static constexpr int CAP = 1 << 30; };
template <> struct io<std::string> { static std::string mk(int k) { return std::string((size_t)(k % 40 + 1), 'x') + std::to_string(k); } static int key(const std::string& s) { size_t i = 0; while (i < s.size() && s[i] == 'x') i++; return i < s.size() ? std::stoi(s.substr(i)) : 0; } };
template <> struct io<parlay::sequence<int>> { using S = parlay::sequence<int>; static S mk(int k) { return S((size_t)(k % 7 + 1), k); } static int key(const S& s) { return s.empty() ? 0 : s.back(); } };
#ifdef LEDGER
#include "../rt/ledger.h"
namespace lg = ledger;
template <> struct io<lg::LEDGER> { static lg::LEDGER mk(int k) { return lg::LEDGER(k); } static int key(const lg::LEDGER& t) { t.read(); return t.k; } };
using T = lg::LEDGER; using S = parlay::sequence<T>;
#elif PART == 0
using T = D; using S = parlay::sequence<T>;
#elif PART == 1
using T = int; using S = parlay::short_sequence<T>;
#elif PART == 2
using T = char; using S = parlay::chars;
#elif PART == 3
using T = ty::E; using S = parlay::sequence<T, std::allocator<T>>;
#elif PART == 4
using T = W16; using S = parlay::sequence<T, std::allocator<T>, true>;
#elif PART == 5
using T = D; using S = parlay::sequence<T, counting<T>>;
#elif PART == 6
using T = std::string; using S = parlay::sequence<T>;
#elif PART == 7
using T = parlay::sequence<int>; using S = parlay::sequence<T>;
#elif PART == 8
using T = short; using S = parlay::sequence<T, counting<T>, true>;
#elif PART == 10
using T = Wide<64>; using S = parlay::sequence<T, std::allocator<T>>;
#elif PART == 11
using T = Wide<512>; using S = parlay::sequence<T>;
#else
using T = Huge; using S = parlay::sequence<T>;
#endif
using IO = io<T>;
constexpr bool small_keys = std::is_same_v<T, char>;
constexpr size_t BIGN = sizeof(T) > 5000 ? 4 : PART == 9 ? 4 : PART >= 10 ? 600 : PART == 7 || PART == 6 ? 700 : 5000;

// an input iterator: one pass only
struct Feed {
  using iterator_category = std::input_iterator_tag; using value_type = T; using difference_type = std::ptrdiff_t; using pointer = const T*; using reference = const T&;
  const std::vector<T>* v; size_t* at; bool end;
  const T& operator*() const { return (*v)[*at]; }
  Feed& operator++() { ++*at; return *this; }
  Feed operator++(int) { Feed f = *this; ++*at; return f; }
  bool done() const { return end || *at >= v->size(); }
  friend bool operator==(const Feed& a, const Feed& b) { return a.done() == b.done(); }
  friend bool operator!=(const Feed& a, const Feed& b) { return !(a == b); }
};
// operation: code, x, y, p, q, n, k   x, y in 0..2; p, q positions; n count; k value
constexpr int NOP = 54;
struct Hist {
  S s[3]; V ops, rets; std::vector<V> dumps; int next = 1;
  fn::rng& r; size_t lim;
  Hist(fn::rng& r_, size_t l) : r(r_), lim(l) {}
  int fresh() { next = (next + 1) % (small_keys ? 90 : 1000000); return next; }
  std::vector<T> many(int k, size_t n) { std::vector<T> v; for (size_t i = 0; i < n; i++) v.push_back(IO::mk((int)((k + i) % (small_keys ? 90 : 2000000000)))); return v; }
  bool stable = true;
  void step() {
    int code = (int)r(NOP), x = (int)r(3), y = (int)r(3);
    S &X = s[x], &Y = s[y];
    size_t size = X.size();
    // operations with a precondition that does not hold here
    bool one = size > 0, other = x != y;
    if ((code == 11 || code == 14 || code == 16 || code == 24 || code == 26 || code == 29 || code == 37) && !one) code = 9;
    if ((code == 7 || code == 21 || code == 40 || code == 41 || code == 47 || code == 22 || code == 39 || code == 46) && !other) code = 13;
    size_t n = r.chance(1, 12) ? r(lim + 1) : r(6);
    if (size + n > 3 * lim || size + Y.size() > 4 * lim) code = r.chance(1, 2) ? 31 : 25;
    size_t p = r(size + 1), q = p + r(size - p + 1); size_t i = size ? r(size) : 0;
    if ((code == 24 || code == 26) && p == size) p = size - 1;
    int k = fresh();
    ll ret = 0;
    bool room = size + n + 1 <= X.capacity(); const T* d = X.data();
    if (code == 11 || code == 14 || code == 16 || code == 29 || code == 37) q = i;
    if (code == 44) q = size + r(3) - 1;
    if (code == 27 || code == 28 || code == 29) p = r(2) ? r(2 * size + 3) : n;
    if (code == 42 || code == 49 || code == 25) { if (q < p) std::swap(p, q); }
    for (ll e : {(ll)code, (ll)x, (ll)y, (ll)p, (ll)q, (ll)n, (ll)k}) ops.push_back(e);
    T e = IO::mk(k);
    auto pos = [&](typename S::iterator it) { return (ll)(it - X.begin()); };
    switch (code) {
      case 0: X = S(n); break;
      case 1: X = S(n, e); break;
      case 2: { auto v = many(k, n); X = S(v.begin(), v.end()); break; }
      case 3: { auto v = many(k, n); std::list<T> l(v.begin(), v.end()); X = S(l.begin(), l.end()); break; }
      case 4: { auto v = many(k, n); size_t at = 0; X = S(Feed{&v, &at, false}, Feed{&v, &at, true}); break; }
      case 5: { auto v = many(k, 3); X = S{v[0], v[1], v[2]}; break; }
      case 6: { const S& c = Y; X = c; break; }
      case 7: X = std::move(Y); break;
      case 8: if (r(2)) X.swap(Y); else { using std::swap; swap(X, Y); } break;
      case 9: ret = pos(X.push_back(static_cast<const T&>(e))); break;
      case 10: ret = pos(X.push_back(std::move(e))); break;
      case 11: ret = pos(X.push_back(static_cast<const T&>(X[q]))); break;
      case 12: ret = pos(X.emplace_back(std::move(e))); break;
      case 13: ret = pos(X.insert(X.begin() + p, static_cast<const T&>(e))); break;
      case 14: ret = pos(X.insert(X.begin() + p, static_cast<const T&>(X[q]))); break;
      case 15: ret = pos(X.insert(X.begin() + p, n, e)); break;
      case 16: ret = pos(X.insert(X.begin() + p, n, X[q])); break;
      case 17: { auto v = many(k, n); ret = pos(X.insert(X.begin() + p, v.begin(), v.end())); break; }
      case 18: { auto v = many(k, n); std::list<T> l(v.begin(), v.end()); ret = pos(X.insert(X.begin() + p, l.begin(), l.end())); break; }
      case 19: { auto v = many(k, n); size_t at = 0; ret = pos(X.insert(X.begin() + p, Feed{&v, &at, false}, Feed{&v, &at, true})); break; }
      case 20: { auto v = many(k, 3); ret = pos(X.insert(X.begin() + p, {v[0], v[1], v[2]})); break; }
      case 21: ret = pos(X.insert(X.begin() + p, std::move(Y))); break;
      case 22: { const S& c = Y; ret = pos(X.insert(X.begin() + p, c)); break; }
      case 23: ret = pos(X.emplace(X.begin() + p, std::move(e))); break;
      case 24: ret = pos(X.erase(X.begin() + p)); break;
      case 25: ret = pos(X.erase(X.begin() + p, X.begin() + q)); break;
      case 26: X.pop_back(); break;
      case 27: X.resize(p); break;
      case 28: X.resize(p, e); break;
      case 29: X.resize(p, X[q]); break;
      case 30: { X.reserve(size + n); ret = X.capacity() >= size + n; const T* b = X.data(); size_t c = X.capacity(); while (X.size() < c && X.size() < size + n) X.push_back(e); stable = stable && X.data() == b; X.resize(size); break; }
      case 31: X.clear(); break;
      case 32: X.assign(n, e); break;
      case 33: { auto v = many(k, n); if (r(2)) X.assign(v.begin(), v.end()); else X.assign(v); break; }
      case 34: { auto v = many(k, 3); X.assign({v[0], v[1], v[2]}); break; }
      case 35: { auto v = many(k, 3); X = {v[0], v[1], v[2]}; break; }
      case 36: ret = pos(X.append(n, e)); break;
      case 37: ret = pos(X.append(n, X[q])); break;
      case 38: { auto v = many(k, n); if (r(2)) ret = pos(X.append(v.begin(), v.end())); else { std::list<T> l(v.begin(), v.end()); ret = pos(X.append(l)); } break; }
      case 39: { const S& c = Y; ret = pos(X.append(c)); break; }
      case 40: ret = pos(X.append(std::move(Y))); break;
      case 41: { S t = r(2) ? X.pop_tail(X.begin() + p) : X.pop_tail(size - p); Y = std::move(t); break; }
      case 42: { const S& c = X; auto t = c.subseq(p, q); S u(t.begin(), t.end()); Y = std::move(u); break; }
      case 43: { const S &c = X, &g = Y; ret = (c == g ? 1 : 0) + (c != g ? 2 : 0) + (c < g ? 4 : 0) + (g < c ? 8 : 0); break; }
      case 44: { const S& c = X; try { ret = r(2) ? IO::key(c.at(q)) : IO::key(X.at(q)); } catch (const std::out_of_range&) { ret = -1; } break; }
      case 45: { const S& c = X; auto v = c.to_vector(); ret = (ll)v.size(); if (v.size()) { stable = stable && IO::key(v.front()) == IO::key(c.front()) && IO::key(v.back()) == IO::key(c.back()) && IO::key(v[i]) == IO::key(c[i]); } break; }
      case 46: { S t(X); stable = stable && t.size() == X.size(); Y = std::move(t); break; }
      case 47: { S t(std::move(X)); ret = (ll)X.size(); Y = t; X = std::move(t); break; }
      case 48: { const S& c = X; size_t j = c.size(); for (auto it = c.rbegin(); it != c.rend(); ++it) { --j; stable = stable && std::addressof(*it) == std::addressof(c[j]); } ret = (ll)j; stable = stable && c.empty() == (c.size() == 0) && c.cend() - c.cbegin() == (ll)c.size(); break; }
      case 49: { auto a = X.head(p); auto b = X.cut(p, q); auto c = X.tail(size - q); ret = (ll)(a.size() % 1000 * 1000000 + b.size() % 1000 * 1000 + c.size() % 1000); for (size_t z = 0; z < b.size(); z++) stable = stable && IO::key(b[z]) == IO::key(X[p + z]); break; }
      case 50: { auto t = parlay::to_sequence<T>(Y); X = S(t.begin(), t.end()); break; }
      case 51: X = S::from_function(n, [&](size_t z) { return IO::mk((int)((k + z) % (small_keys ? 90 : 2000000000))); }, r(2) ? 0 : 1 + r(100)); break;
      case 52: { S t = std::move(X); X = std::move(t); break; }
      default: { const S& c = X; S t(c); t.clear(); stable = stable && t.empty(); t.append(c); S u = t; stable = stable && u == c; break; }
    }
    if (room && (code == 9 || code == 10 || code == 12 || code == 13 || code == 15 || code == 23 || code == 24 || code == 36 || code == 26)) stable = stable && X.data() == d;
    for (auto& z : s) stable = stable && z.capacity() >= z.size() && (z.size() == 0 || z.begin() == z.data()) && z.end() - z.begin() == (ll)z.size();
    rets.push_back(ret);
    V dump;
    for (auto& z : s) { dump.push_back((ll)z.size()); for (size_t j = 0; j < z.size(); j++) dump.push_back(IO::key(z[j])); }
    dumps.push_back(dump);
  }
};
void fn_case(long idx, fn::rng& r) {
  // short histories over long sequences, long ones over short sequences
  bool big = idx % 6 == 5;
  size_t lim = big ? 1 + r(BIGN) : 1 + r(sizeof(T) > 5000 ? 5 : 30);
  int len = (int)(big ? 2 + r(6) : 4 + r(40));
  V out; std::vector<V> o;
#ifdef LEDGER
  fn::call("life", {100, len, (ll)sizeof(T)});
  ledger::reset();
#else
  fn::call("history", {PART, len});
#endif
  ty::bad_reads = 0;
  {
    Hist h(r, lim);
    for (int i = 0; i < len; i++) h.step();
    o.push_back({h.stable && ty::bad_reads == 0});
    o.push_back(h.ops); o.push_back(h.rets);
    for (auto& d : h.dumps) o.push_back(d);
  }
  o[0].push_back(ty::bad_reads == 0 && live_bytes == 0);
#ifdef LEDGER
  bool ok; o = ledger::collect(ok); if (!ok) return;
#endif
  fn::emit(o);
}
