// The same call once with one worker and then with 2..4 workers under controlled schedules.
// Events (tid, kind, a, b, c): 1 RUN a..c = digest of the result, d = number of values, e = workers
#define FN_NO_MAIN
#include "../rt/vp.h"
#include "c24_ops.h"
void fn_case(long, fn::rng&) {}
using vp::Rng;
static void run(unsigned p, int op) {
  V o; parlay::execute_with_scheduler(p, [&] { o = op_run(op); });
  uint64_t h = 1; for (auto x : o) h = vp::mixh(h, (uint64_t)x);
  vp::log(1, (int)(h & 0xffffff), (int)(h >> 24 & 0xffffff), (int)(h >> 48), (int)o.size(), (int)p);
}
static void scenario(uint64_t, Rng& r) {
  fn::rng q(r.next());
  int op = r.below(NOPS); seed = r.next(); size_t lim = PART == 0 ? 9000 : 4200;
  n = r.chance(20) ? (size_t)r.below(200) : r.chance(50) ? 2040 + (size_t)r.below(2200) : 1000 + (size_t)r.below(3300);
  if (PART == 0) { n = op < 5 && r.chance(30) ? 8100 + (size_t)r.below(300) : (size_t)r.below(500); v = fn::iota(n); }
  else v = fn::keys(q, n, RG[1 + r.below(5)], r.below(fn::SHAPES));
  n = std::min(n, lim);
  vp::param(op); run(1, op);
  run((unsigned)r.range(2, 4), op);
  if (r.chance(30)) run((unsigned)r.range(2, 3), op);
}
int main(int argc, char** argv) {
  vp::Cfg c; c.scenario = scenario; c.flags = VP_WEAK | VP_PLAINYIELD; c.maxsteps = 3000000; c.width = 7;
  return vp::drive(argc, argv, c);
}
