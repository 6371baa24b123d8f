// Fork-join trees run by the real scheduler under controlled schedules.
// Events (tid, kind, a, b, c, d):
//   1 FORK  a=fork id  b=forking task  c=first child  d=number of children
//   2 START a=task     b=fork id       c=number of pre-fork writes of the parent seen
//   3 END   a=task
//   4 JOIN  a=fork id  b=forking task  c=number of effects of the subtree seen
//   5 DONE  a=enclosing forks whose second branch has run (root computation returned)
// Some computations run below a chain of about a thousand open forks, which
// is as many as a worker's queue holds.
#include "../rt/vp.h"
#include <parlay/parallel.h>
#include <atomic>
#include <memory>

using vp::Rng;
enum { FORK = 1, START = 2, END = 3, JOIN = 4, DONE = 5 };
enum Kind { K_DO, K_PDO, K_IF_T, K_IF_F, K_DO3, K_IF3_T, K_IF3_F, K_FOR, K_NK };

struct Fork { int kind, first, n, cons, gran; };
struct Task { int nf; int fork[4]; int last; };   // last: largest task id in its subtree
struct Prog { Task t[96]; Fork f[96]; int nt = 0, nf = 0; } *P;

static std::atomic<int> *cell, *pre;

static void build(Rng& r, int task, int depth, int maxt) {
  int k = depth == 0 ? r.range(1, 3) : r.below(3);
  P->t[task].nf = 0;
  for (int i = 0; i < k; i++) {
    if (P->nt + 4 > maxt) break;
    int f = P->nf++;
    Fork& F = P->f[f];
    F.kind = r.below(100) < 55 ? K_DO : r.below(K_NK);
    F.n = (F.kind == K_DO3 || F.kind == K_IF3_T || F.kind == K_IF3_F) ? 3 : F.kind == K_FOR ? r.range(2, 4) : 2;
    F.cons = r.chance(25); F.gran = r.below(3);
    F.first = P->nt; P->nt += F.n;
    P->t[task].fork[P->t[task].nf++] = f;
    for (int c = 0; c < F.n; c++) { P->t[F.first + c].nf = 0; if (depth < 3) build(r, F.first + c, depth + 1, maxt); }
  }
}
static int subtree_seen(int task) {
  int s = 0;
  for (int i = 0; i < P->t[task].nf; i++) { Fork& F = P->f[P->t[task].fork[i]];
    for (int c = 0; c < F.n; c++) s += cell[F.first + c].load(std::memory_order_relaxed) + subtree_seen(F.first + c); }
  return s;
}
static void run(int task, int fork);
static void do_fork(int f, int task) {
  Fork& F = P->f[f];
  pre[f].store(1, std::memory_order_relaxed);
  vp::log(FORK, f, task, F.first, F.n);
  auto a = [&] { run(F.first, f); };
  auto b = [&] { run(F.first + 1, f); };
  auto c = [&] { run(F.first + 2, f); };
  bool cs = F.cons;
  switch (F.kind) {
    case K_DO: parlay::par_do(a, b, cs); break;
    case K_PDO: parlay::parallel_do(a, b, cs); break;
    case K_IF_T: parlay::par_do_if(true, a, b, cs); break;
    case K_IF_F: parlay::par_do_if(false, a, b, cs); break;
    case K_DO3: parlay::par_do3(a, b, c); break;
    case K_IF3_T: parlay::par_do3_if(true, a, b, c); break;
    case K_IF3_F: parlay::par_do3_if(false, a, b, c); break;
    default: parlay::parallel_for(0, (size_t)F.n, [&](size_t i) { run(F.first + (int)i, f); }, F.gran, cs);
  }
  int seen = 0;
  for (int i = 0; i < F.n; i++) seen += cell[F.first + i].load(std::memory_order_relaxed) + subtree_seen(F.first + i);
  vp::log(JOIN, f, task, seen);
}
static void run(int task, int fork) {
  vp::log(START, task, fork, fork >= 0 ? pre[fork].load(std::memory_order_relaxed) : 1);
  for (int i = 0; i < P->t[task].nf; i++) do_fork(P->t[task].fork[i], task);
  cell[task].store(1, std::memory_order_relaxed);
  vp::log(END, task);
}

static void below(int d, std::atomic<int>* n) {
  if (d == 0) { run(0, -1); return; }
  parlay::par_do([&] { below(d - 1, n); }, [&] { n->fetch_add(1, std::memory_order_relaxed); });
}

static void scenario(uint64_t, Rng& r) {
  auto prog = std::make_unique<Prog>(); P = prog.get();
  int p = r.chance(10) ? 1 : r.chance(50) ? 2 : r.range(3, 4);
  static const int mt[] = {4, 6, 9, 14, 24};
  P->nt = 1; build(r, 0, 0, mt[r.below(5)]);
  cell = new std::atomic<int>[P->nt]; pre = new std::atomic<int>[P->nf + 1];
  for (int i = 0; i < P->nt; i++) cell[i].store(0, std::memory_order_relaxed);
  for (int i = 0; i < P->nf; i++) pre[i].store(0, std::memory_order_relaxed);
  int deep = r.below(150) == 0 ? r.range(980, 1010) : 0;
  std::atomic<int> extra{0};
  vp::param(p); vp::param(P->nt); vp::param(P->nf); vp::param(deep);
  parlay::execute_with_scheduler((unsigned)p, [&] { below(deep, &extra); });
  vp::log(DONE, extra.load(std::memory_order_relaxed));
  delete[] cell; delete[] pre;
}

int main(int argc, char** argv) {
  vp::Cfg c; c.scenario = scenario; c.flags = VP_WEAK | VP_SPURIOUS; c.maxsteps = 400000; c.width = 6; 
  return vp::drive(argc, argv, c);
}
