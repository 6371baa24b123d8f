// Concurrent histories of the scheduler's deque.  Thread 0 owns it.
// Events (tid, kind, a): 2 PUSH j/3   4 POP/5 j   6 STEAL quiet/7 j   8 OVER
#include "../rt/vp.h"
#include <array>
#include <iostream>
#include <parlay/internal/work_stealing_deque.h>
#include <thread>
using vp::Rng;
struct J { int v; };
static void scenario(uint64_t, Rng& r) {
  using D = parlay::internal::Deque<J>;
  vp::param(0);
  D* d = new D();
  J* js = new J[16];
  for (int i = 0; i < 16; i++) js[i].v = i + 1;
  int nt = r.range(1, 3), nj = 0;
  auto push = [&] { if (nj < 12) { J* j = &js[nj++]; vp::log(2, j->v); d->push_bottom(j); vp::log(3); } };
  auto pop = [&] { vp::log(4); J* j = d->pop_bottom(); vp::log(5, j ? j->v : 0); };
  auto steal = [=](int quiet) { vp::log(6, quiet); J* j = d->pop_top().first; vp::log(7, j ? j->v : 0); return j != nullptr; };
  auto own = [&](Rng& q, int n, int bias) { for (int i = 0; i < n; i++) if (q.chance(bias)) push(); else pop(); };
  own(r, r.below(4), 70);
  std::vector<std::thread> ts;
  for (int i = 0; i < nt; i++) { int n = r.range(1, 3); ts.emplace_back([=] { for (int k = 0; k < n; k++) steal(0); }); }
  own(r, r.range(2, 7), r.range(30, 70));
  for (auto& t : ts) t.join();
  if (r.chance(40)) { int n = r.below(4); for (int i = 0; i < n; i++) push(); n = r.below(3); for (int i = 0; i < n; i++) steal(1); }
  for (int i = 0; i < 20; i++) pop();
  vp::log(8);
  delete d; delete[] js;
}
int main(int argc, char** argv) {
  vp::Cfg c; c.scenario = scenario; c.flags = VP_WEAK | VP_SYNCLOG; c.maxsteps = 20000; c.width = 3; c.canon = vp::CANON_CALLRET;
  return vp::drive(argc, argv, c);
}
