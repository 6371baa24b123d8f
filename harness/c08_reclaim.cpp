// The acquire/retire scheme used directly.
// Objects have numbers; objects have their own (never reused) numbers even when memory is reused.
// Events (tid, kind, a, b):
//   2 ACQ s          acquire of source s begins          3 GOT s o      it returned object o (0: null); o is protected
//   4 RELB           release begins                       5 REL          release over
//   6 SWAPB s o      exchange on source s begins (new o)  7 SWAP s old   it returned the old object
//   8 RETB o         retire of o begins                   9 RET o        retire over
//  10 DTOR o         object o is being destroyed
//  12 USE o v        the thread read v out of its protected object
//  14 DEAD           the scheme's destructor begins      15 GONE          it is over
//  16 OVER
#include "../rt/vp.h"
#include <parlay/internal/concurrency/acquire_retire.h>
#include <thread>
#include <memory>
using vp::Rng;
enum { ACQ = 2, GOT, RELB, REL, SWAPB, SWAP, RETB, RET, DTOR, USE = 12, DEAD = 14, GONE, OVER };
struct Obj { int id; Obj* nx; Obj* child; Obj* child2 = nullptr; friend Obj* intrusive_get_next(Obj* o) { return o->nx; } friend void intrusive_set_next(Obj* o, Obj* n) { o->nx = n; } };
struct Del;
using AR = parlay::internal::intrusive_acquire_retire<Obj, Del>;
struct Ctx;
struct Del { Ctx* c; void operator()(Obj* o); };
struct Ctx { AR* ar; };
static thread_local int cnt = 0;
void Del::operator()(Obj* o) {
  if (o->id > 0) vp::log(DTOR, o->id);
  Obj* ch = o->child; Obj* ch2 = o->child2;
  delete o;
  if (ch2) c->ar->retire(ch2);
  if (ch) { int id = ch->id; if (id) vp::log(RETB, id); c->ar->retire(ch); if (id) vp::log(RET, id); }
}
static void scenario(uint64_t, Rng& r) {
  vp::param(0);
  static std::atomic<Obj*> src[2];
  Ctx ctx;
  AR* ar = new AR(Del{&ctx}); ctx.ar = ar;
  std::atomic<int> next{1};
  auto mk = [&] { int id = next.fetch_add(1); return new Obj{id, nullptr, nullptr}; };
  int ns = r.range(1, 2);
  for (int s = 0; s < ns; s++) { Obj* o = r.chance(80) ? mk() : nullptr; int id = o ? o->id : 0; vp::log(SWAPB, s, id); src[s].store(o); vp::log(SWAP, s, 0); }
  int jc = r.chance(30) ? 1 : 0;   // junk whose destruction retires more junk
  auto junk = [=](int n) { vp_quiet(1); for (int i = 0; i < n; i++) { cnt++; Obj* j = new Obj{0, nullptr, nullptr}; if (jc) { j->child = new Obj{0, nullptr, nullptr}; j->child2 = new Obj{0, nullptr, nullptr}; } ar->retire(j); } vp_quiet(0); };
  auto topup = [=] { int n = 29 - cnt % 30; if (n > 0) junk(n); };   // reclamation is attempted every 30 retirements
  auto retire = [=](Obj* o) { cnt++; int id = o->id; vp::log(RETB, id); ar->retire(o); vp::log(RET, id); };
  int chainp = r.chance(40) ? 40 : 0;
  auto body = [=, &next](Rng q, int n, int warm) {
    auto mk = [&] { int id = next.fetch_add(1); Obj* o = new Obj{id, nullptr, nullptr}; if (q.chance(chainp)) o->child = new Obj{next.fetch_add(1), nullptr, nullptr}; return o; };
    cnt = 0; if (warm) junk(warm);
    for (int i = 0; i < n; i++) {
      int s = q.below(ns), k = q.below(100);
      if (k < 45) {
        vp::log(ACQ, s); Obj* o = ar->acquire(src[s]); vp::log(GOT, s, o ? o->id : 0);
        int uses = q.range(1, 2);
        for (int u = 0; u < uses && o; u++) { if (q.chance(40)) junk(q.range(1, 8)); vp::log(USE, o->id); volatile int v = o->id; (void)v; }
        if (q.chance(20)) { Obj* w = mk(); int s2 = q.below(ns); vp::log(SWAPB, s2, w->id); Obj* old = src[s2].exchange(w); vp::log(SWAP, s2, old ? old->id : 0); if (old) retire(old); 
          if (o) { vp::log(USE, o->id); volatile int v = o->id; (void)v; } }
        if (q.chance(85)) { vp::log(RELB); ar->release(); vp::log(REL); }
      } else if (k < 90) {
        if (q.chance(70)) topup();
        Obj* w = q.chance(85) ? mk() : nullptr; vp::log(SWAPB, s, w ? w->id : 0);
        Obj* old = src[s].exchange(w); vp::log(SWAP, s, old ? old->id : 0); if (old) retire(old);
        if (q.chance(50)) junk(q.range(1, 30));
      } else junk(q.range(20, 40));
    }
    vp::log(RELB); ar->release(); vp::log(REL);
  };
  int waves = r.chance(30) ? 2 : 1;
  for (int w = 0; w < waves; w++) {
    int nt = r.range(1, 3);
    std::vector<std::thread> ts;
    for (int i = 0; i < nt; i++) { uint64_t sd = r.next(); int n = r.range(1, 4), wm = r.chance(60) ? 29 : r.chance(50) ? r.range(24, 40) : r.below(4); ts.emplace_back([=] { body(Rng(sd), n, wm); }); }
    if (r.chance(40)) body(Rng(r.next()), r.range(1, 3), r.range(20, 30));
    for (auto& t : ts) t.join();
  }
  for (int s = 0; s < ns; s++) { vp::log(SWAPB, s, 0); Obj* o = src[s].exchange(nullptr); vp::log(SWAP, s, o ? o->id : 0); if (o) retire(o); }
  vp::log(DEAD);
  delete ar;
  vp::log(GONE);
  vp::log(OVER, next.load());
}
static bool suspect(const vp_event* ev, int n) {
  static int prot[64], dst[4096]; memset(prot, 0, sizeof prot); memset(dst, 0, sizeof dst);
  for (int i = 0; i < n; i++) {
    int t = ev[i].v[0], k = ev[i].v[1], a = ev[i].v[2], b = ev[i].v[3];
    if (k == GOT) { prot[t] = b; if (b && b < 4096 && dst[b]) return true; }
    if (k == RELB || k == ACQ) prot[t] = 0;
    if (k == DTOR && a < 4096) { if (dst[a]) return true; dst[a] = 1; for (int u = 0; u < 64; u++) if (prot[u] == a) return true; }
    if (k == USE && a < 4096 && dst[a]) return true;
  }
  return false;
}
int main(int argc, char** argv) {
  vp::Cfg c; c.scenario = scenario; c.flags = VP_WEAK | VP_SYNCLOG; c.maxsteps = 60000; c.width = 4; c.suspect = suspect;
  return vp::drive(argc, argv, c);
}
