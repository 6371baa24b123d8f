// A sleeping pool must be woken by forked work.  The forking branch waits for the other one,
// so the computation can only go on if a sleeping worker is really woken (by more than a timeout).
// Events: 1 ASLEEP n   2 FORK r   3 RIGHT r   4 LEFTGO r (left branch saw the right one)   5 JOIN r  6 LIVE n (threads left after the scheduler is gone)
#define PARLAY_ELASTIC_STEAL_TIMEOUT 3
#include "../rt/vp.h"
#include <parlay/parallel.h>
#include <atomic>
#include <linux/futex.h>
#include <sys/syscall.h>
using vp::Rng;
enum { ASLEEP = 1, FORK, RIGHT, LEFTGO, JOIN, LIVE };
static void scenario(uint64_t, Rng& r) {
  int p = r.range(2, 4), rounds = r.range(1, 3);
  vp::param(p); vp::param(rounds);
  int mode = r.below(3), cons = r.chance(30);
  parlay::execute_with_scheduler((unsigned)p, [&] {
    for (int k = 0; k < rounds; k++) {
      // let virtual time pass until every other worker is asleep
      for (int i = 0; i < 20000 && vp_asleep() < p - 1; i++) usleep(100);
      vp_sync_all();
      vp::log(ASLEEP, vp_asleep());
      if (mode == 2) {   // some independent work first, then sleep again
        parlay::parallel_for(0, 4, [](size_t) {}, 1);
        for (int i = 0; i < 20000 && vp_asleep() < p - 1; i++) usleep(100);
        vp_sync_all();
      }
      bool dep = vp_asleep() == p - 1;   // only a pool at rest promises that a sleeper comes at once
      std::atomic<int> flag(dep ? 0 : 1);
      vp::log(FORK, k, dep);
      parlay::par_do([&] {
        while (flag.load() == 0) syscall(SYS_futex, (int*)&flag, FUTEX_WAIT, 0, nullptr, nullptr, 0);
        vp::log(LEFTGO, k);
      }, [&] {
        vp::log(RIGHT, k);
        flag.store(1); syscall(SYS_futex, (int*)&flag, FUTEX_WAKE, 1, nullptr, nullptr, 0);
      }, cons);
      vp::log(JOIN, k);
    }
  });
  vp::log(LIVE, vp_live_threads());
}
int main(int argc, char** argv) {
  vp::Cfg c; c.scenario = scenario; c.flags = VP_WEAK | VP_SPURIOUS; c.maxsteps = 400000; c.width = 4; c.want_to = 2;
  return vp::drive(argc, argv, c);
}
