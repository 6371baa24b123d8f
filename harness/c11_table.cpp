// Phases of concurrent operations on the hash table.
// Events (tid, kind, a, b, c):
//   1 BEG kind nt      a phase of inserts (0), updates (1) or deletes (2) by nt threads begins
//   2 INS k v r        inserted, with result r     4 DEL k       6 UPD k v r
//   8 END              phase over
//  10 FIND k v         find(k) returned the element with value v (-1: the empty element)
//  12 COUNT n          count()
//  14 ENT i k v        the i-th of entries()      16 REF i k v   the same for a table filled sequentially with what should be there
//  18 RANK k i         position of k in the order of the table (through findIndex and get_index), -1: not in it
//  20 OVER
// params: mode (0: keys only, 1: the greater value replaces, 2: values are added up)
#include "../rt/vp.h"
#include <parlay/hash_table.h>
#include <thread>
#include <map>
using vp::Rng;
enum { BEG = 1, INS = 2, DEL = 4, UPD = 6, END = 8, FIND = 10, COUNT = 12, ENT = 14, REF = 16, RANK = 18, OVER = 20 };
struct Par { int mode, flip, spread, off, eoff; unsigned m; };
static Par P; static bool odd;   // odd: something unexpected was seen (only to validate such histories first)
struct H {
  using eType = uint64_t; using kType = uint32_t;
  eType empty() { return ~0ull; }
  kType getKey(eType e) { return (kType)(e >> 32); }
  size_t hash(kType k) { if (k == ~0u) return (size_t)P.eoff; return (size_t)(P.off + (k * 2654435761u >> 7) % (unsigned)P.spread); }
  int cmp(kType a, kType b) { if (P.flip) return a < b ? 1 : a == b ? 0 : -1; return a > b ? 1 : a == b ? 0 : -1; }
  bool replaceQ(eType n, eType o) { return P.mode == 1 ? (uint32_t)n > (uint32_t)o : P.mode == 2; }
  eType update(eType c, eType v) { return P.mode == 2 ? c + (uint32_t)v : v; }
  bool cas(eType* p, eType o, eType n) { return std::atomic_compare_exchange_strong(reinterpret_cast<std::atomic<eType>*>(p), &o, n); }
};
struct HN : parlay::hash_numeric<int> {};
struct Cv { static uint64_t mk(int k, int v, H*) { return (uint64_t)(uint32_t)k << 32 | (uint32_t)v; } static int mk(int k, int, HN*) { return k; }
  static int key(uint64_t e) { return (int)(e >> 32); } static int val(uint64_t e) { return (int)(uint32_t)e; } static int key(int e) { return e; } static int val(int) { return 0; } };
template <class HS> static void go(Rng& r, int size) {
  using T = parlay::hashtable<HS>; using E = typename HS::eType; using K = typename HS::kType;
  HS hs; HS* tag = nullptr;
  T* t = new T((size_t)size, hs, r.chance(50) ? 1.5 : 1.0);
  int nk = r.range(2, 10);
  std::vector<int> keys; for (int i = 0; i < nk; i++) keys.push_back(1 + r.below(P.spread > 50 ? 60 : 12));
  if (r.chance(10)) { for (int i = 0; i < size; i++) keys.push_back(100 + i); }
  std::map<int, int> ref;    // what should be there (used only to fill the reference table)
  auto look = [&](bool full) {
    vp_quiet(1);
    T* q = new T((size_t)0, hs, 1.0);
    for (int k : {keys[(size_t)r.below((int)keys.size())], keys[0], 77}) { E e = t->find((K)k); int v = e == hs.empty() ? -1 : Cv::val(e); vp::log(FIND, k, v); auto it = ref.find(k); if (v != (it == ref.end() ? -1 : it->second)) odd = true; }
    if (full) {
      vp_point(); for (int k : keys) { E e = t->find((K)k); int v = e == hs.empty() ? -1 : Cv::val(e); vp::log(FIND, k, v); auto it = ref.find(k); if (v != (it == ref.end() ? -1 : it->second)) odd = true; }
      vp::log(COUNT, (int)t->count());
      auto es = t->entries(); for (size_t i = 0; i < es.size(); i++) vp::log(ENT, (int)i, Cv::key(es[i]), Cv::val(es[i]));
      T* s = new T((size_t)size, hs, t->get_index().size() == (size_t)(100 + (int)(1.5 * size)) ? 1.5 : 1.0);
      for (auto it = ref.rbegin(); it != ref.rend(); ++it) s->insert(Cv::mk(it->first, it->second, tag));
      auto rs = s->entries(); if (!(rs == es)) odd = true; for (size_t i = 0; i < rs.size(); i++) vp::log(REF, (int)i, Cv::key(rs[i]), Cv::val(rs[i]));
      auto ix = t->get_index(); for (int k : keys) { size_t p = t->findIndex((K)k); vp::log(RANK, k, p == (size_t)-1 ? -1 : (int)ix[p]); }
      delete s;
    }
    delete q;
    vp_quiet(0);
  };
  int phases = r.range(1, 4);
  for (int p = 0; p < phases; p++) {
    int kind = p == 0 ? 0 : r.below(10) < 5 ? 2 : P.mode == 2 ? 1 : 0;
    if (p == 0 && P.mode == 2) kind = 1;
    int nt = p == 0 && r.chance(70) ? 1 : r.range(1, 3);
    vp::log(BEG, kind, nt);
    struct Op { int k, v; }; std::vector<std::vector<Op>> ops((size_t)nt);
    for (auto& o : ops) { int n = r.range(kind == 0 && nt == 1 ? 4 : 1, kind == 0 && nt == 1 ? 12 : 4); if (keys.size() > 20) n = (int)keys.size() / nt; 
      for (int i = 0; i < n; i++) { int k = keys[keys.size() > 20 ? (size_t)i * (size_t)nt % keys.size() : (size_t)r.below((int)keys.size())], v = P.mode ? r.range(1, 4) : 0; o.push_back({k, v});
        if (kind == 2) ref.erase(k); else if (!ref.count(k)) ref[k] = v; else if (P.mode == 1) ref[k] = std::max(ref[k], v); else if (P.mode == 2) ref[k] += v; } }
    auto body = [&](int i) {
      for (auto& o : ops[(size_t)i]) {
        if (kind == 2) { t->deleteVal((K)o.k); vp::log(DEL, o.k); }
        else if (kind == 1) { bool b = t->update(Cv::mk(o.k, o.v, tag)); vp::log(UPD, o.k, o.v, b); }
        else { bool b = t->insert(Cv::mk(o.k, o.v, tag)); vp::log(INS, o.k, o.v, b); }
      } };
    std::vector<std::thread> ts;
    for (int i = 1; i < nt; i++) ts.emplace_back([&, i] { body(i); });
    body(0);
    for (auto& x : ts) x.join();
    vp::log(END);
    look(p == phases - 1 || r.chance(40));
  }
  delete t;
  vp::log(OVER);
}
static bool suspect(const vp_event*, int) { return odd; }
static void scenario(uint64_t, Rng& r) {
  odd = false;
  P.mode = r.chance(60) ? 0 : r.range(1, 2); P.flip = r.below(2); 
  int size = r.chance(85) ? r.below(4) : r.range(4, 70);
  // hash values at the end of the table, so that clusters wrap around
  static const int sp[] = {1, 2, 3, 4, 6, 100};
  P.spread = sp[r.below(6)];
  P.off = r.chance(70) ? r.range(94, 102 + size) : r.below(100);
  P.eoff = P.off + r.range(-4, 8);
  if (r.chance(15)) { P.mode = 0; vp::param(0); go<HN>(r, size); }
  else { vp::param(P.mode); go<H>(r, size); }
}
int main(int argc, char** argv) {
  vp::Cfg c; c.scenario = scenario; c.flags = VP_PLAINYIELD; c.maxsteps = 60000; c.width = 5; c.suspect = suspect;
  return vp::drive(argc, argv, c);
}
