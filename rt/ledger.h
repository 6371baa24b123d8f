// Element types whose lifetime events are recorded per object.
//
// Every constructed object gets a ticket.  The ledger keeps, per ticket, the last
// event and the set of pairs of consecutive events (the pair (START, e) names the
// first one).  For a type that is not trivially relocatable the object also knows
// its own address, so that bytes that were never constructed (or were copied) are
// noticed: their events go to ticket 0, which must have none.
#pragma once
#include <atomic>
#include <cstdint>
#include <map>
#include <utility>
#include <vector>
#include <parlay/type_traits.h>

namespace ledger {
enum event : uint8_t { BORN = 0, BORN_EMPTY = 1, READ = 2, TAKEN = 3, SET = 4, SET_EMPTY = 5, DEAD = 6, START = 7 };
struct entry { std::atomic<uint64_t> pairs; std::atomic<uint8_t> last; std::atomic<uint8_t> kind; };
constexpr uint32_t CAP = 1u << 21;
inline entry table[CAP];
inline std::atomic<uint32_t> next{1};
inline std::atomic<uint32_t> overflow{0};
inline void log(uint32_t t, event e) {
  uint8_t p = table[t].last.exchange(e, std::memory_order_relaxed);
  uint64_t bit = 1ull << (p * 8 + e);
  if (!(table[t].pairs.load(std::memory_order_relaxed) & bit)) table[t].pairs.fetch_or(bit, std::memory_order_relaxed);
}
inline void reset() {
  uint32_t n = next.load(); if (n > CAP) n = CAP;
  for (uint32_t i = 0; i < n; i++) { table[i].pairs = 0; table[i].last = START; }
  next = 1; overflow = 0;
}
inline uint32_t born(event e) {
  uint32_t t = next.fetch_add(1, std::memory_order_relaxed);
  if (t >= CAP) { overflow = 1; next.store(CAP); return CAP - 1; }
  table[t].last.store(START, std::memory_order_relaxed);
  table[t].pairs.store(0, std::memory_order_relaxed);
  log(t, e);
  return t;
}
// per class of objects with the same history: {how many, last event, pairs...}
inline std::vector<std::vector<long long>> collect(bool& ok) {
  std::map<std::pair<uint64_t, int>, long long> m;
  uint32_t n = next.load(); ok = overflow.load() == 0 && n < CAP;
  for (uint32_t i = 1; i < n && i < CAP; i++) m[{table[i].pairs.load(), table[i].last.load()}]++;
  if (table[0].pairs.load()) m[{table[0].pairs.load(), table[0].last.load()}]++;
  std::vector<std::vector<long long>> r;
  for (auto& [k, c] : m) { std::vector<long long> v{c, k.second}; for (int b = 0; b < 64; b++) if (k.first >> b & 1) v.push_back(b); r.push_back(v); }
  return r;
}

// tracks: F bits: 1 copyable, 2 movable (else moves are copies), 4 trivially relocatable; P: padding bytes
template <int F, int P> struct life {
  static constexpr bool reloc = F & 4;
  uint64_t tag; int k; uint32_t t; bool empty;
  char pad[P];
  static constexpr uint64_t MAGIC = 0x5ca1ab1e0ddba11ull;
  uint64_t seal() const { return MAGIC ^ ((uint64_t)t << 20) ^ (reloc ? 0 : (uint64_t)(uintptr_t)this); }
  uint32_t id() const { return t && t < CAP && tag == seal() ? t : 0; }
  void begin(event e, int k_) { t = born(e); k = k_; empty = e == BORN_EMPTY; tag = seal(); }
  void read() const { log(id(), READ); }
  life() { begin(BORN, 0); }
  explicit life(int k_) { begin(BORN, k_); }
  life(const life& o) { static_assert(F & 1); o.read(); begin(o.empty ? BORN_EMPTY : BORN, o.k); }
  life(life&& o) noexcept { take(o); }
  life& operator=(const life& o) { static_assert(F & 1); if (this != &o) { o.read(); log(id(), o.empty ? SET_EMPTY : SET); k = o.k; empty = o.empty; } return *this; }
  life& operator=(life&& o) noexcept {
    if (this == &o) return *this;
    bool e = o.empty; if (F & 2) { log(o.id(), TAKEN); o.empty = true; } else o.read();
    log(id(), e ? SET_EMPTY : SET); k = o.k; empty = e; return *this;
  }
  ~life() { uint32_t i = id(); log(i, DEAD); if (!reloc) tag = ~tag; }
  void take(life& o) { bool e = o.empty; if (F & 2) { log(o.id(), TAKEN); o.empty = true; } else o.read(); begin(e ? BORN_EMPTY : BORN, o.k); }
  friend int key(const life& l) { l.read(); return l.k; }
  friend bool operator<(const life& a, const life& b) { return key(a) < key(b); }
  friend bool operator==(const life& a, const life& b) { return key(a) == key(b); }
  friend bool operator!=(const life& a, const life& b) { return key(a) != key(b); }
};
// move-only variants
template <int F, int P> struct lone : life<F | 1, P> {
  using B = life<F | 1, P>;
  lone() = default;
  explicit lone(int k_) : B(k_) {}
  lone(const lone&) = delete;
  lone& operator=(const lone&) = delete;
  lone(lone&&) = default;
  lone& operator=(lone&&) = default;
};
using Fixed = life<3, 4>;        // copyable, address matters
using Loose = life<7, 4>;        // copyable, trivially relocatable
using FixedOnly = lone<2, 4>;    // move-only, address matters
using LooseOnly = lone<6, 4>;    // move-only, trivially relocatable
using BigLoose = life<7, 3000>;  // few per relocation chunk
using HugeLoose = life<7, 9000>; // larger than a relocation chunk
using Copied = life<1, 4>;       // moving copies
}  // namespace ledger
namespace parlay {
template <int P> PARLAY_ASSUME_TRIVIALLY_RELOCATABLE(ledger::life<7, P>);
template <int P> PARLAY_ASSUME_TRIVIALLY_RELOCATABLE(ledger::lone<6, P>);
}
