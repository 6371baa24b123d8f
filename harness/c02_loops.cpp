// parallel_for and blocked_for under controlled schedules.
// Events (tid, kind, a, b, c, d):
//   1 BEGIN a=loop b=number of indices (relative to start) c=block size (0: parallel_for) d=enclosing call (loop*1000+i+1, 0: none)
//   2 CALL  a=loop b=index c=block start d=block end      (relative to the range's start)
//   3 RET   a=loop b=index
//   4 FIN   a=loop b=effects seen after the loop
//   5 COUNT a=loop b=times called c=run length            (large loops: run-length coded call counts, then 4)
//   6 BLK   a=loop b=block size c=length of blocks c... (large blocked loops)
#include "../rt/vp.h"
#include <parlay/parallel.h>
#include <atomic>
#include <memory>
using vp::Rng;
enum { BEGIN = 1, CALL, RET, FIN, COUNT, BLK };
static int nloops; static int budget;
static Rng* R; static Rng* RB;

struct Loop { int kind; size_t start, end; long gran; size_t bs; bool cons; };
static int cut(size_t bs) { return bs < 100000 ? (int)bs : 100000; }           // block sizes beyond any range are alike
static int ncalls(int n, size_t bs) { return n == 0 ? 0 : bs >= (size_t)n ? 1 : (n + (int)bs - 1) / (int)bs; }
static const size_t bigstart[] = {0, 1, 7, 1000, (size_t)1 << 31, ((size_t)1 << 32) - 3, (size_t)1 << 40};

static int rel(size_t i, size_t s) { return i >= s && i - s < 1000000 ? (int)(i - s) : i < s && s - i < 1000000 ? -(int)(s - i) : 999999; }

static Loop gen(Rng& r, int maxn) {
  Loop L; L.kind = r.below(2); L.start = bigstart[r.below(7)];
  int n = r.chance(12) ? 0 : r.chance(15) ? 1 : r.range(2, maxn);
  L.end = L.start + (size_t)n;
  if (r.chance(8) && L.start > 5) L.end = L.start - (size_t)r.range(1, 5);   // reversed
  static const long gs[] = {0, 0, 0, 1, 1, 2, 3, 5, 100};
  L.gran = gs[r.below(9)]; L.bs = (size_t)r.range(1, 6); L.cons = r.chance(25);
  if (maxn == 14 && r.chance(4)) { L.start = ~(size_t)0 - (size_t)r.below(2) * (size_t)(n + r.below(3)); L.end = L.start + (size_t)(~(size_t)0 - L.start < (size_t)n ? 0 : n); }  // at the end of size_t
  if (r.chance(2)) { L.start = ~(size_t)0; L.end = (size_t)r.below(3); }
  if (r.chance(6)) L.bs = r.chance(50) ? ~(size_t)0 - (size_t)r.below(10) : (size_t)1 << (60 + r.below(4));
  return L;
}
static void run_small(Loop L, int id, int outer, int depth, std::atomic<int>* eff, int cap, const int* nested, const Loop* nl);

static std::atomic<int> nextloop;
static void run_small(Loop L, int id, int outer, int depth, std::atomic<int>* eff, int cap, const int* nested, const Loop* nl) {
  int n = L.end > L.start ? (int)(L.end - L.start) : 0;
  vp::log(BEGIN, id, n, L.kind ? cut(L.bs) : 0, outer);
  auto body = [&](int i, int s, int e) {
    vp::log(CALL, id, i, s, e);
    if (depth == 0 && i >= 0 && i < cap && nested[i] >= 0) {
      std::atomic<int> eff2[8]; for (auto& x : eff2) x.store(0, std::memory_order_relaxed);
      run_small(nl[nested[i]], nested[i] + 1, id * 1000 + i + 1, 1, eff2, 8, nullptr, nullptr);
    }
    if (i >= 0 && i < cap) eff[i].store(1, std::memory_order_relaxed);
    vp::log(RET, id, i);
  };
  if (L.kind == 0)
    parlay::parallel_for(L.start, L.end, [&](size_t i) { int k = rel(i, L.start); body(k, k, k + 1); }, L.gran, L.cons);
  else
    parlay::blocked_for(L.start, L.end, L.bs, [&](size_t i, size_t s, size_t e) { body(i < 100000 ? (int)i : 99999, rel(s, L.start), rel(e, L.start)); }, L.cons);
  int seen = 0; for (int i = 0; i < cap; i++) seen += eff[i].load(std::memory_order_relaxed);
  vp::log(FIN, id, seen);
}
static void run_big(Loop L, int id) {
  int n = (int)(L.end - L.start);
  std::vector<std::atomic<int>> cnt((size_t)n + 2), blk((size_t)n + 2), len((size_t)n + 2);
  for (int i = 0; i < n + 2; i++) { cnt[i].store(0, std::memory_order_relaxed); blk[i].store(0, std::memory_order_relaxed); len[i].store(0, std::memory_order_relaxed); }
  vp::log(BEGIN, id, n, L.kind ? cut(L.bs) : 0, 0);
  auto add = [](std::atomic<int>& x) { x.fetch_add(1, std::memory_order_relaxed); };
  if (L.kind == 0)
    parlay::parallel_for(L.start, L.end, [&](size_t i) { int k = rel(i, L.start); add(cnt[k < 0 || k > n ? n + 1 : k]); }, L.gran, L.cons);
  else
    parlay::blocked_for(L.start, L.end, L.bs, [&](size_t b, size_t s, size_t e) {
      int k = (int)b; add(blk[k < 0 || k > n ? n + 1 : k]);
      int s2 = rel(s, L.start), e2 = rel(e, L.start);
      if (s2 != k * cut(L.bs)) add(cnt[n + 1]);
      for (int j = s2; j < e2; j++) add(cnt[j < 0 || j > n ? n + 1 : j]);
    }, L.cons);
  auto rle = [&](std::vector<std::atomic<int>>& v, int m, int kind) {
    for (int i = 0, j; i < m; i = j) { int x = v[i].load(std::memory_order_relaxed); for (j = i; j < m && v[j].load(std::memory_order_relaxed) == x; j++) {} vp::log(kind, id, x, j - i); }
  };
  rle(cnt, n + 2, COUNT);
  if (L.kind) rle(blk, n + 2, BLK);
  vp::log(FIN, id, -1);
}
static void scenario(uint64_t, Rng& r) {
  int p = r.chance(15) ? 1 : r.range(2, 4);
  if (r.chance(12)) {
    Loop L = gen(r, 10); static const int ns[] = {127, 128, 129, 255, 257, 400, 513, 1000, 2049};
    int n = ns[r.below(9)] + r.below(3); if (L.start > ~(size_t)0 - 10000) L.start = 0; L.end = L.start + (size_t)n; L.bs = L.bs > 100 ? L.bs : (size_t)r.range(1, 40);
    static const long gs[] = {0, 0, 1, 2, 7, 64, 5000}; L.gran = gs[r.below(7)];
    vp::param(1);
    parlay::execute_with_scheduler((unsigned)p, [&] { run_big(L, 0); });
    return;
  }
  Loop L = gen(r, 14);
  int n = L.end > L.start ? (int)(L.end - L.start) : 0;
  int cap = n + 2; std::vector<int> nested((size_t)cap, -1); std::vector<Loop> nl;
  int nc = L.kind ? ncalls(n, L.bs) : n;
  for (int i = 0; i < nc && nl.size() < 3; i++) if (r.chance(20)) { nested[i] = (int)nl.size(); Loop q = gen(r, 6); nl.push_back(q); }
  std::unique_ptr<std::atomic<int>[]> eff(new std::atomic<int>[cap]); for (int i = 0; i < cap; i++) eff[i].store(0, std::memory_order_relaxed);
  vp::param(1 + (int)nl.size());
  parlay::execute_with_scheduler((unsigned)p, [&] { run_small(L, 0, 0, 0, eff.get(), cap, nested.data(), nl.data()); });
}
int main(int argc, char** argv) {
  vp::Cfg c; c.scenario = scenario; c.flags = VP_WEAK; c.maxsteps = 600000; c.width = 6;
  return vp::drive(argc, argv, c);
}
