// Element types of the functional harnesses.  Every element carries a key and
// its position in the input.
#pragma once
#include <cstdint>
#include <functional>
#include <utility>
#include <string>

namespace ty {
inline int bad_reads;      // reads of moved-from elements (not atomic: only a count of anomalies)

struct E { int k, i; };                                     // trivial
struct B { int k, i; double pad[11]; };                     // large, trivial
struct H {                                                  // owns heap memory, copyable
  struct N { int k, i; };
  N* n;
  bool moved = false;
  H() : n(nullptr) {}
  H(int k, int i) : n(new N{k, i}) {}
  H(const H& o) : n(o.n ? new N(*o.n) : nullptr) { if (o.moved) __atomic_add_fetch(&bad_reads, 1, __ATOMIC_RELAXED); }
  H(H&& o) noexcept : n(o.n), moved(o.moved) { o.n = nullptr; o.moved = true; }
  H& operator=(const H& o) { if (this != &o) { if (o.moved) __atomic_add_fetch(&bad_reads, 1, __ATOMIC_RELAXED); N* t = o.n ? new N(*o.n) : nullptr; delete n; n = t; moved = false; } return *this; }
  H& operator=(H&& o) noexcept { if (this != &o) { delete n; n = o.n; moved = o.moved; o.n = nullptr; o.moved = true; } return *this; }
  ~H() { delete n; n = nullptr; }
};
struct M {                                                  // owns heap memory, move-only
  H::N* n;
  M() : n(nullptr) {}
  M(int k, int i) : n(new H::N{k, i}) {}
  M(const M&) = delete;
  M& operator=(const M&) = delete;
  M(M&& o) noexcept : n(o.n) { o.n = nullptr; }
  M& operator=(M&& o) noexcept { if (this != &o) { delete n; n = o.n; o.n = nullptr; } return *this; }
  ~M() { delete n; n = nullptr; }
};
inline int key(const E& e) { return e.k; }
inline int idx(const E& e) { return e.i; }
inline int key(const B& e) { return e.k; }
inline int idx(const B& e) { return e.i; }
inline int hk(const H::N* n) { if (!n) { __atomic_add_fetch(&bad_reads, 1, __ATOMIC_RELAXED); return -7; } return n->k; }
inline int hi(const H::N* n) { if (!n) { __atomic_add_fetch(&bad_reads, 1, __ATOMIC_RELAXED); return -7; } return n->i; }
inline int key(const H& e) { return hk(e.n); }
inline int idx(const H& e) { return hi(e.n); }
inline int key(const M& e) { return hk(e.n); }
inline int idx(const M& e) { return hi(e.n); }
inline int key(uint64_t x) { return (int)(x >> 32); }
inline int idx(uint64_t x) { return (int)(x & 0xffffffffu); }
template <class T> T make(int k, int i) { return T(k, i); }
template <> inline E make<E>(int k, int i) { return E{k, i}; }
template <> inline B make<B>(int k, int i) { B b; b.k = k; b.i = i; for (auto& p : b.pad) p = k; return b; }
template <> inline uint64_t make<uint64_t>(int k, int i) { return ((uint64_t)(uint32_t)k << 32) | (uint32_t)i; }
inline bool operator<(const H& a, const H& b) { return key(a) < key(b); }
inline bool operator<(const M& a, const M& b) { return key(a) < key(b); }
inline bool operator<(const E& a, const E& b) { return key(a) < key(b); }
inline bool operator==(const H& a, const H& b) { return key(a) == key(b); }
inline bool operator==(const M& a, const M& b) { return key(a) == key(b); }
inline bool operator!=(const M& a, const M& b) { return key(a) != key(b); }
inline bool operator==(const E& a, const E& b) { return key(a) == key(b); }
#ifndef TY_OWN_NE   // a harness may define an unrelated one
inline bool operator!=(const E& a, const E& b) { return key(a) != key(b); }
inline bool operator!=(const H& a, const H& b) { return key(a) != key(b); }
#endif

// the orders used: c = 0 less, 1 greater, 2 by key div 4, 3 by key mod 5
inline int rank_of(int c, int k) { return c == 0 ? k : c == 1 ? -k : c == 2 ? k / 4 : k % 5; }
}  // namespace ty
