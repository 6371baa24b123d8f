// Controlled-scheduling runtime; see vprt.h.  Built as a shared object without
// instrumentation; all state is plain arrays so that nothing here calls back
// into instrumented code.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "vprt.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <cstdarg>
#include <ctime>
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <linux/futex.h>

#define EXPORT extern "C" __attribute__((visibility("default")))

EXPORT struct vp_shared* vp_sh = nullptr;

namespace {

// ------------------------------------------------------------------ real libc
long (*real_syscall)(long, ...) = nullptr;
int (*real_pthread_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*) = nullptr;
int (*real_pthread_join)(pthread_t, void**) = nullptr;
int (*real_pthread_detach)(pthread_t) = nullptr;
int (*real_mutex_lock)(pthread_mutex_t*) = nullptr;
int (*real_mutex_trylock)(pthread_mutex_t*) = nullptr;
int (*real_mutex_unlock)(pthread_mutex_t*) = nullptr;
int (*real_cond_wait)(pthread_cond_t*, pthread_mutex_t*) = nullptr;
int (*real_cond_timedwait)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*) = nullptr;
int (*real_cond_clockwait)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*) = nullptr;
int (*real_cond_signal)(pthread_cond_t*) = nullptr;
int (*real_cond_broadcast)(pthread_cond_t*) = nullptr;
int (*real_rw_rdlock)(pthread_rwlock_t*) = nullptr;
int (*real_rw_wrlock)(pthread_rwlock_t*) = nullptr;
int (*real_rw_unlock)(pthread_rwlock_t*) = nullptr;
int (*real_once)(pthread_once_t*, void (*)(void)) = nullptr;
int (*real_clock_gettime)(clockid_t, struct timespec*) = nullptr;
int (*real_nanosleep)(const struct timespec*, struct timespec*) = nullptr;
int (*real_clock_nanosleep)(clockid_t, int, const struct timespec*, struct timespec*) = nullptr;
int (*real_sched_yield)(void) = nullptr;
int (*real_get_nprocs)(void) = nullptr;

template <class F> void rs(F& f, const char* n) { f = (F)dlsym(RTLD_NEXT, n); }

void resolve() {
  if (real_syscall) return;
  rs(real_pthread_create, "pthread_create"); rs(real_pthread_join, "pthread_join");
  rs(real_pthread_detach, "pthread_detach");
  rs(real_mutex_lock, "pthread_mutex_lock"); rs(real_mutex_trylock, "pthread_mutex_trylock");
  rs(real_mutex_unlock, "pthread_mutex_unlock"); rs(real_cond_wait, "pthread_cond_wait");
  rs(real_cond_timedwait, "pthread_cond_timedwait"); rs(real_cond_clockwait, "pthread_cond_clockwait");
  rs(real_cond_signal, "pthread_cond_signal");
  rs(real_cond_broadcast, "pthread_cond_broadcast"); rs(real_rw_rdlock, "pthread_rwlock_rdlock");
  rs(real_rw_wrlock, "pthread_rwlock_wrlock"); rs(real_rw_unlock, "pthread_rwlock_unlock");
  rs(real_once, "pthread_once"); rs(real_clock_gettime, "clock_gettime");
  rs(real_nanosleep, "nanosleep"); rs(real_clock_nanosleep, "clock_nanosleep");
  rs(real_sched_yield, "sched_yield"); rs(real_get_nprocs, "get_nprocs");
  rs(real_syscall, "syscall");
}

// ------------------------------------------------------------------ state
int controlled = 0;
int g_nprocs = 0;

struct Rng {
  uint64_t s;
  uint64_t next() { s += 0x9e3779b97f4a7c15ULL; uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  bool chance(uint32_t per1024) { return (next() & 1023) < per1024; }
};
Rng rng_sched, rng_scn;

constexpr int MAXT = 512;
constexpr uint32_t MAXLOC = 8192;

struct View { uint32_t n; uint32_t cap; uint32_t* t; };

enum St { RUN, SLEEPING, B_FUTEX, B_JOIN, B_MUTEX, B_COND, B_GUARD, DONE };
struct Thr {
  volatile int go;
  int st;
  const void* addr;      // futex / mutex / cond / guard address
  int target;            // join target
  int64_t until;         // sleep or timeout deadline (vtime), -1 none
  int woken;             // wake reason
  int64_t stall;         // stalled until this step
  int64_t prio;
  pthread_t pt;
  int detached;
  View cur, acq, rel; int has_rel;
  void* (*fn)(void*); void* arg; void* ret;
  int quiet;
  int hintn;
  const void* last;      // location of the last atomic operation
  const void* watch;     // stalled until somebody else writes this location
};
Thr thr[MAXT];
int nthr = 0;
int cur = 0;
__thread Thr* self = nullptr;

int64_t step, maxsteps, vtime, tick;
int64_t nswitch;
int fair_mode;

// strategy
int strat;                 // 0 random walk, 1 PCT
uint32_t p_switch, p_stall; int64_t stall_len;
uint32_t p_watch; int64_t watch_len; int wake_next;   // pause between an operation on a location and what follows until another thread writes it
int64_t pct_change[8]; int npct; int64_t prio_low;
int weak; uint32_t p_stale; int64_t stale_age;
int spurious; uint32_t plain_mask; uint32_t plain_ctr;
int synclog, seqmode;
int memmode;               // 1: quarantine, 2: LIFO reuse
const int* hint; int nhint, ihint;

// ------------------------------------------------------------------ view arena
char* va_base = nullptr; size_t va_off = 0; constexpr size_t VA_SIZE = size_t(3) << 30;
size_t va_limit = size_t(192) << 20;
uint32_t* va_get(uint32_t n) {
  size_t b = size_t(n) * 4;
  b = (b + 15) & ~size_t(15);
  if (va_off + b > VA_SIZE) _exit(99);
  uint32_t* r = (uint32_t*)(va_base + va_off); va_off += b;
  if (va_off > va_limit) weak = 0;    // stop recording histories; behaves SC from here on
  return r;
}
void v_reserve(View& v, uint32_t n) {
  if (n <= v.cap) return;
  uint32_t c = v.cap ? v.cap : 16; while (c < n) c *= 2;
  uint32_t* t = va_get(c);
  if (v.n) memcpy(t, v.t, v.n * 4);
  v.t = t; v.cap = c;
}
void v_set(View& v, uint32_t i, uint32_t ts) {
  if (i >= v.n) { v_reserve(v, i + 1); memset(v.t + v.n, 0, (i + 1 - v.n) * 4); v.n = i + 1; }
  if (v.t[i] < ts) v.t[i] = ts;
}
uint32_t v_get(const View& v, uint32_t i) { return i < v.n ? v.t[i] : 0; }
void v_join(View& a, const View& b) {
  if (b.n > a.n) { v_reserve(a, b.n); memset(a.t + a.n, 0, (b.n - a.n) * 4); a.n = b.n; }
  for (uint32_t i = 0; i < b.n; i++) if (a.t[i] < b.t[i]) a.t[i] = b.t[i];
}
void v_assign(View& a, const View& b) {
  v_reserve(a, b.n); if (b.n) memcpy(a.t, b.t, b.n * 4); a.n = b.n;
}
View v_copy(const View& b) { View a{0, 0, nullptr}; v_assign(a, b); return a; }
View sc_view, log_view;

// ------------------------------------------------------------------ locations
struct Msg { uint64_t val; uint32_t ts; int64_t step; View view; };
constexpr int NMSG = 8;
struct Loc { uintptr_t addr; uint32_t id; uint32_t gen; uint8_t size; int nmsg; uint32_t ts; Msg m[NMSG]; };
constexpr uint32_t HT = 16384;
uint32_t ht_idx[HT]; uint32_t ht_gen[HT]; uint32_t gen = 1;
Loc* locs; uint32_t nloc = 0;
uint8_t bloom[65536];
inline uint32_t bl(uintptr_t a) { return (a >> 3) & 0xFFFF; }
inline uint32_t hsh(uintptr_t a) { return (uint32_t)((a * 0x9e3779b97f4a7c15ULL) >> 50) & (HT - 1); }

uint64_t mem_read(const void* p, int size) {
  switch (size) {
    case 1: return *(const volatile uint8_t*)p;
    case 2: return *(const volatile uint16_t*)p;
    case 4: return *(const volatile uint32_t*)p;
    default: return *(const volatile uint64_t*)p;
  }
}
void mem_write(void* p, int size, uint64_t v) {
  switch (size) {
    case 1: *(volatile uint8_t*)p = (uint8_t)v; break;
    case 2: *(volatile uint16_t*)p = (uint16_t)v; break;
    case 4: *(volatile uint32_t*)p = (uint32_t)v; break;
    default: *(volatile uint64_t*)p = v; break;
  }
}
Loc* loc_find(uintptr_t a) {
  uint32_t h = hsh(a);
  while (ht_gen[h] == gen) { Loc* l = &locs[ht_idx[h]]; if (l->addr == a) return l; h = (h + 1) & (HT - 1); }
  return nullptr;
}
void loc_reset(Loc* l, uint64_t val) {
  l->ts++; l->nmsg = 1; l->m[0].val = val; l->m[0].ts = l->ts; l->m[0].step = step; l->m[0].view = View{0, 0, nullptr};
}
Loc* loc_get(const void* p, int size) {
  uintptr_t a = (uintptr_t)p;
  uint32_t h = hsh(a);
  while (ht_gen[h] == gen) {
    Loc* l = &locs[ht_idx[h]];
    if (l->addr == a) {
      uint64_t v = mem_read(p, size);
      if (l->size != size) { l->size = (uint8_t)size; loc_reset(l, v); }
      else if (l->m[l->nmsg - 1].val != v) loc_reset(l, v);
      return l;
    }
    h = (h + 1) & (HT - 1);
  }
  if (nloc >= MAXLOC) { weak = 0; return nullptr; }   // too many locations: sequentially consistent from here on
  ht_gen[h] = gen; ht_idx[h] = nloc;
  Loc* l = &locs[nloc];
  l->addr = a; l->id = nloc; l->size = (uint8_t)size; l->ts = 0; l->nmsg = 0; nloc++;
  bloom[bl(a)] = 1;
  loc_reset(l, mem_read(p, size));
  return l;
}
void loc_range_reset(uintptr_t a, size_t n) {
  if (!weak) return;
  if (n <= 64) {
    for (uintptr_t x = a; x < a + n; x++) {
      if (!bloom[bl(x)]) { x = (x | 7); continue; }
      if (Loc* l = loc_find(x)) { uint64_t v = mem_read((void*)l->addr, l->size); loc_reset(l, v); }
    }
  } else {
    for (uint32_t i = 0; i < nloc; i++)
      if (locs[i].addr >= a && locs[i].addr < a + n) loc_reset(&locs[i], mem_read((void*)locs[i].addr, locs[i].size));
  }
}
Msg* loc_push(Loc* l, uint64_t val) {
  if (l->nmsg == NMSG) { memmove(&l->m[0], &l->m[1], sizeof(Msg) * (NMSG - 1)); l->nmsg--; }
  Msg* m = &l->m[l->nmsg++]; m->val = val; m->ts = ++l->ts; m->step = step; m->view = View{0, 0, nullptr};
  return m;
}

// ------------------------------------------------------------------ failure
bool runnable(Thr& t);
[[noreturn]] void die(int status) {
  controlled = 0;
  if (getenv("VP_DEBUG")) {
    fprintf(stderr, "vprt: die status %d step %lld vtime %lld strat %d weak %d spurious %d tick %lld memmode %d fair %d\n", status, (long long)step, (long long)vtime, strat, weak, spurious, (long long)tick, memmode, fair_mode);
    for (int i = 0; i < nthr; i++) fprintf(stderr, "  thr %d st %d addr %p until %lld woken %d runnable %d\n", i, thr[i].st, thr[i].addr, (long long)thr[i].until, thr[i].woken, runnable(thr[i]));
    abort();
  }
  if (vp_sh) { vp_sh->status = status; vp_sh->steps = step; vp_sh->switches = nswitch; }
  _exit(40 + status);
}

// ------------------------------------------------------------------ baton
void futex_wake(volatile int* a) { real_syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
void wait_go(Thr* t) {
  while (!t->go) real_syscall(SYS_futex, &t->go, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  t->go = 0;
}
bool runnable(Thr& t) {
  switch (t.st) {
    case RUN: return true;
    case SLEEPING: return vtime >= t.until;
    case B_FUTEX: case B_COND: return t.woken || (t.until >= 0 && vtime >= t.until);
    case B_JOIN: return thr[t.target].st == DONE;
    case B_MUTEX: case B_GUARD: return t.woken;
    default: return false;
  }
}

int64_t new_prio() { return (int64_t)(rng_sched.next() >> 20); }

// choose a thread to run next; me may be not runnable (blocked or finished)
int pick(int me, bool yielding) {
  int cand[MAXT]; int n = 0; int nall = 0;
  for (;;) {
    n = 0; nall = 0; int anyr[MAXT];
    for (int i = 0; i < nthr; i++) if (runnable(thr[i])) {
      anyr[nall++] = i;
      if (thr[i].stall <= step || fair_mode) cand[n++] = i;
    }
    if (nall == 0) {
      // nothing can run: let virtual time pass
      int64_t best = -1; bool sleeper = false;
      for (int i = 0; i < nthr; i++) {
        if (thr[i].st == SLEEPING) { if (!sleeper || thr[i].until < best) best = thr[i].until; sleeper = true; }
      }
      if (!sleeper) for (int i = 0; i < nthr; i++)
        if ((thr[i].st == B_FUTEX || thr[i].st == B_COND) && thr[i].until >= 0 && (best < 0 || thr[i].until < best)) best = thr[i].until;
      if (best < 0) die(VP_DEADLOCK);
      if (!sleeper && vp_sh) vp_sh->timeouts = vp_sh->timeouts + 1;
      if (best > vtime) vtime = best;
      continue;
    }
    break;
  }
  if (n == 0) { for (int i = 0; i < nthr; i++) if (runnable(thr[i])) cand[n++] = i; }
  if (seqmode) {
    for (int i = 0; i < n; i++) if (cand[i] == me && !yielding) return me;
    for (int i = 0; i < n; i++) if (cand[i] > me) return cand[i];
    return cand[0];
  }
  if (fair_mode) {  // round robin
    for (int i = 0; i < n; i++) if (cand[i] > me) return cand[i];
    return cand[0];
  }
  if (strat == 1) {
    int b = cand[0];
    for (int i = 1; i < n; i++) if (thr[cand[i]].prio > thr[b].prio) b = cand[i];
    return b;
  }
  if (yielding && n > 1) {   // prefer somebody else
    int k = (int)rng_sched.below(n - 1), j = 0;
    for (int i = 0; i < n; i++) { if (cand[i] == me) continue; if (j++ == k) return cand[i]; }
    return cand[n - 1];
  }
  return cand[rng_sched.below(n)];
}

void switch_to(int me, int nx) {
  if (nx == me) return;
  nswitch++;
  cur = nx;
  Thr* t = &thr[nx];
  t->go = 1; futex_wake(&t->go);
  wait_go(&thr[me]);
}

void after_step(Thr* t) {
  step++; vtime += tick;
  if (step > maxsteps) {
    if (!fair_mode) fair_mode = 1;
    if (step > maxsteps * 3 + 200000) die(VP_NOPROGRESS);
  }
}

// an atomic operation on p by the running thread
inline void note(const void* p, bool write) {
  if (!p_watch || !self) return;
  self->last = p;
  if (write) for (int i = 0; i < nthr; i++) if (thr[i].watch == p && &thr[i] != self) {
    thr[i].watch = nullptr; thr[i].stall = 0; if (rng_sched.below(2)) wake_next = i;
  }
}

// voluntary scheduling point
void sp(bool yielding) {
  Thr* t = self;
  if (!t) return;
  after_step(t);
  if (t->quiet) return;
  int me = (int)(t - thr);
  if (seqmode && !yielding) return;
  if (fair_mode) { if (yielding || (step & 15) == 0) switch_to(me, pick(me, true)); return; }
  if (hint && ihint < nhint) {
    int h = hint[ihint++];
    if (h < nthr && h != me && runnable(thr[h])) { switch_to(me, h); return; }
    if (h == me) return;
  }
  if (p_watch) {
    if (wake_next >= 0) { int w = wake_next; wake_next = -1; if (w != me && w < nthr && runnable(thr[w])) { switch_to(me, w); return; } }
    if (t->last) {
      const void* p = t->last; t->last = nullptr;
      if (rng_sched.chance(p_watch)) {
        t->watch = p; t->stall = step + watch_len;
        switch_to(me, pick(me, true));
        t->watch = nullptr; t->stall = 0;
        return;
      }
    }
  }
  if (strat == 1) {
    for (int i = 0; i < npct; i++) if (pct_change[i] == step) t->prio = --prio_low;
    if (yielding) { t->prio = --prio_low; }
    if (yielding || npct) switch_to(me, pick(me, yielding));
    return;
  }
  if (p_stall && rng_sched.chance(p_stall) ) {
    int64_t l = 1 + (int64_t)rng_sched.below((uint64_t)stall_len);
    t->stall = step + l;
    switch_to(me, pick(me, true));
    return;
  }
  if (yielding || rng_sched.chance(p_switch)) switch_to(me, pick(me, yielding));
}

// block current thread in state already set; returns when scheduled again
void block() {
  Thr* t = self; int me = (int)(t - thr);
  after_step(t);
  int nx = pick(me, true);
  if (nx != me) switch_to(me, nx);
}

// ------------------------------------------------------------------ fences / atomics
inline bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
inline bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

uint64_t w_load(const void* p, int size, int mo) {
  note(p, false);
  if (!weak) return mem_read(p, size);
  Loc* l = loc_get(p, size);
  if (!l) return mem_read(p, size);
  Thr* t = self;
  if (mo == __ATOMIC_SEQ_CST) v_join(t->cur, sc_view);
  int k = l->nmsg - 1;
  uint32_t floor = v_get(t->cur, l->id);
  while (k > 0 && l->m[k - 1].ts >= floor && step - l->m[k].step < stale_age && rng_sched.chance(p_stale)) k--;
  Msg& m = l->m[k];
  v_set(t->cur, l->id, m.ts);
  if (is_acq(mo)) v_join(t->cur, m.view); else v_join(t->acq, m.view);
  return m.val;
}
void pub(Msg* m, Loc* l, Thr* t, int mo) {
  v_set(t->cur, l->id, m->ts);
  if (is_rel(mo)) m->view = v_copy(t->cur);
  else { if (t->has_rel) m->view = v_copy(t->rel); v_set(m->view, l->id, m->ts); }
}
void w_store(void* p, int size, uint64_t v, int mo) {
  note(p, true);
  if (!weak) { mem_write(p, size, v); return; }
  Loc* l = loc_get(p, size);
  mem_write(p, size, v);
  if (!l) return;
  Thr* t = self;
  if (mo == __ATOMIC_SEQ_CST) v_join(t->cur, sc_view);
  Msg* m = loc_push(l, size == 8 ? v : (v & ((uint64_t(1) << (size * 8)) - 1)));
  pub(m, l, t, mo);
  if (mo == __ATOMIC_SEQ_CST) v_join(sc_view, t->cur);
}
// RMW: reads the latest message
template <class F> uint64_t w_rmw(void* p, int size, int mo, F f) {
  note(p, true);
  uint64_t old = mem_read(p, size);
  uint64_t nv = f(old);
  uint64_t mask = size == 8 ? ~uint64_t(0) : ((uint64_t(1) << (size * 8)) - 1);
  nv &= mask;
  if (!weak) { mem_write(p, size, nv); return old; }
  Loc* l = loc_get(p, size);
  mem_write(p, size, nv);
  if (!l) return old;
  Thr* t = self;
  if (mo == __ATOMIC_SEQ_CST) v_join(t->cur, sc_view);
  View pv = l->m[l->nmsg - 1].view;
  if (is_acq(mo)) v_join(t->cur, pv); else v_join(t->acq, pv);
  Msg* m = loc_push(l, nv);
  pub(m, l, t, mo);
  v_join(m->view, pv);     // release sequence
  if (mo == __ATOMIC_SEQ_CST) v_join(sc_view, t->cur);
  return old;
}
bool w_cas(void* p, int size, uint64_t* exp, uint64_t des, int mo, int fmo, bool is_weak) {
  uint64_t mask = size == 8 ? ~uint64_t(0) : ((uint64_t(1) << (size * 8)) - 1);
  note(p, false);
  uint64_t old = mem_read(p, size);
  if (old == (*exp & mask)) {
    if (is_weak && !seqmode && !self->quiet && rng_sched.chance(20)) return false;   // spurious failure
    w_rmw(p, size, mo, [&](uint64_t) { return des; });
    return true;
  }
  if (weak) {
    Loc* l = loc_get(p, size);
    if (l) {
      Thr* t = self; if (fmo == __ATOMIC_SEQ_CST) v_join(t->cur, sc_view);
      Msg& m = l->m[l->nmsg - 1]; v_set(t->cur, l->id, m.ts);
      if (is_acq(fmo)) v_join(t->cur, m.view); else v_join(t->acq, m.view);
    }
  }
  *exp = old;
  return false;
}
void w_fence(int mo) {
  if (!weak) return;
  Thr* t = self;
  if (is_acq(mo)) v_join(t->cur, t->acq);
  if (mo == __ATOMIC_SEQ_CST) { v_join(t->cur, sc_view); v_join(sc_view, t->cur); }
  if (is_rel(mo)) { v_assign(t->rel, t->cur); t->has_rel = 1; }
}

// ------------------------------------------------------------------ memory arena
constexpr size_t ARENA = size_t(24) << 30;
char* ar_base = nullptr; size_t ar_off = 0; uint8_t* shadow = nullptr;   // one byte per 16 bytes: 0 ok, 1 freed, 2 redzone
struct Hdr { uint64_t magic; uint64_t size; uint64_t total; Hdr* next; };   // 32 bytes
constexpr uint64_t MAGIC = 0x5650414c4c4f4321ULL, FREED = 0x5650465245454421ULL;
constexpr int NCLS = 4096;
Hdr* fl[NCLS]; long live_bytes = 0, live_blocks = 0;
pthread_mutex_t ar_mx = PTHREAD_MUTEX_INITIALIZER;

void ar_init() {
  if (ar_base) return;
  ar_base = (char*)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  shadow = (uint8_t*)mmap(nullptr, ARENA / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  va_base = (char*)mmap(nullptr, VA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  locs = (Loc*)mmap(nullptr, sizeof(Loc) * MAXLOC, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (ar_base == MAP_FAILED || shadow == MAP_FAILED || va_base == MAP_FAILED) abort();
}
inline bool in_arena(uintptr_t a) { return a - (uintptr_t)ar_base < ARENA; }
inline void chk(uintptr_t a, size_t n) {
  if (in_arena(a)) {
    size_t o = a - (uintptr_t)ar_base;
    if (shadow[o >> 4] | shadow[(o + n - 1) >> 4]) {
      if (getenv("VP_DEBUG")) { fprintf(stderr, "vprt: bad access %p size %zu shadow %d tid %d\n", (void*)a, n, shadow[o >> 4], self ? (int)(self - thr) : -1); abort(); }
      die(VP_UAF);
    }
  }
}
inline void plain(const void* p, size_t n, bool write) {
  uintptr_t a = (uintptr_t)p;
  chk(a, n);
  if (write && weak && (bloom[bl(a)] | bloom[bl(a + n - 1)])) loc_range_reset(a, n);  // before the write: reset on mismatch later
  if (plain_mask && self && ++plain_ctr >= plain_mask) { plain_ctr = (uint32_t)rng_sched.below(plain_mask); sp(false); }
}

void start_sched(uint64_t seed, int flags) {
  Rng& r = rng_sched;
  r.s = seed * 0x9e3779b97f4a7c15ULL + 12345; r.next();
  rng_scn.s = seed ^ 0xabcdef1234567ULL; rng_scn.next();
  uint64_t k = r.below(10);
  strat = k < 7 ? 0 : 1;
  static const uint32_t ps[] = {512, 256, 128, 64, 24, 8};
  p_switch = ps[r.below(6)];
  p_stall = r.below(2) ? 0 : (uint32_t)(2 + r.below(60));
  stall_len = (int64_t)8 << r.below(10);
  static const uint32_t pw[] = {4, 16, 60, 200};
  p_watch = r.below(3) ? 0 : pw[r.below(4)];
  watch_len = (int64_t)32 << r.below(9); wake_next = -1;
  npct = 0; prio_low = 0;
  if (strat == 1) {
    npct = 1 + (int)r.below(5);
    int64_t range = (int64_t)64 << r.below(6);
    for (int i = 0; i < npct; i++) pct_change[i] = 1 + (int64_t)r.below((uint64_t)range);
  }
  weak = (flags & VP_WEAK) ? (int)(r.below(2)) : 0;
  static const uint32_t pst[] = {100, 300, 600, 900};
  p_stale = pst[r.below(4)];
  stale_age = (int64_t)16 << r.below(9);
  spurious = (flags & VP_SPURIOUS) && r.below(3) == 0;
  plain_mask = 0;
  if ((flags & VP_PLAINYIELD) && r.below(2)) { static const uint32_t pm[] = {3, 10, 40, 200, 1000}; plain_mask = pm[r.below(5)]; }
  plain_ctr = 0;
  synclog = (flags & VP_SYNCLOG) ? 1 : 0;
  seqmode = (flags & VP_SEQ) ? 1 : 0;
  if (seqmode) { weak = 0; spurious = 0; plain_mask = 0; strat = 0; p_stall = 0; p_watch = 0; }
  memmode = (flags & VP_NOREUSE) ? 1 : (r.below(3) == 0 ? 1 : 2);
  static const int64_t tk[] = {1, 20, 300, 2500, 50000};
  tick = tk[r.below(5)];
}

struct EndGuard { Thr* t = nullptr; ~EndGuard(); };
EndGuard::~EndGuard() {
  if (!t || !controlled) return;
  Thr* me = t; int id = (int)(me - thr);
  after_step(me);
  me->st = DONE;
  int nx = pick(id, true);
  nswitch++;
  cur = nx;
  self = nullptr;
  Thr* x = &thr[nx]; x->go = 1; futex_wake(&x->go);
}
thread_local EndGuard end_guard;

void* thr_main(void* a) {
  Thr* t = (Thr*)a;
  end_guard.t = t;          // first thread_local with a destructor in this thread: destroyed last
  wait_go(t);
  self = t;
  t->ret = t->fn(t->arg);
  return t->ret;
}

// mutexes and condition variables (by address)
struct Mx { const void* addr; int owner; int readers; View v; uint32_t gen; };
constexpr int NMX = 1024; Mx mxs[NMX]; int nmx = 0;
Mx* mx_get(const void* p) {
  for (int i = 0; i < nmx; i++) if (mxs[i].addr == p) return &mxs[i];
  if (nmx == NMX) _exit(98);
  Mx* m = &mxs[nmx++]; m->addr = p; m->owner = -1; m->readers = 0; m->v = View{0, 0, nullptr}; return m;
}
void mx_lock(const void* p) {
  sp(false);
  Mx* m = mx_get(p); int me = (int)(self - thr);
  while (m->owner >= 0 || m->readers > 0) {
    if (m->owner == me) die(VP_DEADLOCK);
    self->st = B_MUTEX; self->addr = p; self->woken = 0; self->until = -1; block(); self->st = RUN;
  }
  m->owner = me;
  if (weak) v_join(self->cur, m->v);
}
void mx_unlock(const void* p) {
  Mx* m = mx_get(p);
  if (weak) v_join(m->v, self->cur);
  if (m->readers > 0) m->readers--; else m->owner = -1;
  for (int i = 0; i < nthr; i++) if (thr[i].st == B_MUTEX && thr[i].addr == p) thr[i].woken = 1;
  sp(false);
}

}  // namespace

// ==================================================================== API
EXPORT void vp_init(void) {
  resolve(); ar_init();
  if (!vp_sh) {
    vp_sh = (vp_shared*)mmap(nullptr, sizeof(vp_shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void*)vp_sh, 0, 4096);
  }
}
EXPORT void vp_exec_begin(uint64_t seed, int flags, int64_t ms) {
  resolve();
  step = 0; maxsteps = ms; vtime = 1000000000LL; nswitch = 0; fair_mode = 0;
  start_sched(seed, flags);
  va_off = 0; gen++; nloc = 0; memset(bloom, 0, sizeof bloom);
  sc_view = View{0, 0, nullptr}; log_view = View{0, 0, nullptr};
  nmx = 0; hint = nullptr; nhint = ihint = 0;
  memset((void*)thr, 0, sizeof(Thr) * (size_t)(nthr > 0 ? nthr : 1));
  nthr = 1; cur = 0; self = &thr[0]; thr[0].st = RUN; thr[0].prio = new_prio(); thr[0].pt = pthread_self();
  if (vp_sh) { vp_sh->nev = 0; vp_sh->status = VP_OK; vp_sh->steps = 0; vp_sh->timeouts = 0; }
  controlled = 1;
}
EXPORT void vp_exec_end(void) {
  // detached threads may still be running: let them finish
  for (int i = 1; i < nthr; i++)
    while (thr[i].st != DONE) { self->st = B_JOIN; self->target = i; block(); self->st = RUN; }
  controlled = 0;
  if (vp_sh) { vp_sh->steps = step; vp_sh->switches = nswitch; }
  self = nullptr;
}
EXPORT int vp_controlled(void) { return controlled; }
EXPORT int vp_tid(void) { return self ? (int)(self - thr) : -1; }
EXPORT void vp_point(void) { if (controlled && self) sp(false); }
EXPORT uint64_t vp_rand(void) { return rng_scn.next(); }
EXPORT void vp_quiet(int on) { if (self) self->quiet += on ? 1 : -1; }
EXPORT void vp_hint(const int* t, int n) { hint = t; nhint = n; ihint = 0; }
EXPORT int64_t vp_vtime(void) { return vtime; }
EXPORT int vp_set_nprocs(int n) { int o = g_nprocs; g_nprocs = n; return o; }
EXPORT void vp_log(int kind, int a, int b, int c, int d, int e, int f) {
  if (!vp_sh) return;
  if (controlled && self) sp(false);
  if (controlled && self && synclog && weak) { v_join(log_view, self->cur); v_join(self->cur, log_view); }
  int i = vp_sh->nev;
  if (i >= 16384) return;
  vp_event* x = &vp_sh->ev[i];
  x->v[0] = self ? (int)(self - thr) : 0; x->v[1] = kind; x->v[2] = a; x->v[3] = b; x->v[4] = c; x->v[5] = d; x->v[6] = e; x->v[7] = f;
  vp_sh->nev = i + 1;
  if (controlled && self) sp(false);
}

EXPORT void* vp_alloc(size_t n, size_t align) {
  if (!real_syscall) resolve();
  if (!ar_base) ar_init();
  bool ctl = controlled && self;
  if (!ctl) real_mutex_lock(&ar_mx);
  if (align < 16) align = 16;
  size_t sz = (n + 15) & ~size_t(15); if (sz == 0) sz = 16;
  Hdr* h = nullptr; char* p = nullptr;
  size_t cls = sz / 16;
  if (align == 16 && cls < NCLS && fl[cls] && !(ctl && memmode == 1)) {
    h = fl[cls]; fl[cls] = h->next; p = (char*)(h + 1);
  } else {
    size_t off = ar_off + 32 + 16;
    off = (off + align - 1) & ~(align - 1);
    if (off + sz + 32 > ARENA) { fprintf(stderr, "vprt: arena exhausted\n"); _exit(97); }
    p = ar_base + off; h = (Hdr*)p - 1; h->total = sz;
    memset(shadow + ((off - 32) >> 4), 2, 2);
    ar_off = off + sz;
  }
  h->magic = MAGIC; h->size = n; h->next = nullptr;
  if (sz < (size_t(1) << 20)) memset(shadow + ((p - ar_base) >> 4), 0, sz >> 4);   // (large ones are always fresh)
  if (sz <= 4096) memset(p, 0xCB, sz);
  live_bytes += (long)n; live_blocks++;
  if (!ctl) real_mutex_unlock(&ar_mx);
  else loc_range_reset((uintptr_t)p, sz);
  return p;
}
EXPORT void vp_free(void* q) {
  if (!q) return;
  bool ctl = controlled && self;
  Hdr* h = (Hdr*)q - 1;
  if (!in_arena((uintptr_t)q) || h->magic != MAGIC) {
    if (getenv("VP_DEBUG")) { fprintf(stderr, "vprt: bad free %p\n", q); abort(); }
    if (ctl) die(VP_BADFREE);
    fprintf(stderr, "vprt: bad free\n"); abort();
  }
  if (!ctl) real_mutex_lock(&ar_mx);
  h->magic = FREED; live_bytes -= (long)h->size; live_blocks--;
  size_t sz = h->total; size_t o = (size_t)((char*)q - ar_base);
  if (sz < (size_t(1) << 24)) memset(shadow + (o >> 4), 1, sz >> 4);
  else { memset(shadow + (o >> 4), 1, 4096); memset(shadow + ((o + sz) >> 4) - 4096, 1, 4096); }
  if (sz <= 4096) memset(q, 0xEF, sz);
  size_t cls = sz / 16;
  if (!(ctl && memmode == 1) && cls < NCLS) { h->next = fl[cls]; fl[cls] = h; }
  else if (sz >= (1u << 16)) {
    uintptr_t a = ((uintptr_t)q + 4095) & ~uintptr_t(4095), b = ((uintptr_t)q + sz) & ~uintptr_t(4095);
    if (b > a) madvise((void*)a, b - a, MADV_DONTNEED);
  }
  if (!ctl) real_mutex_unlock(&ar_mx);
}
EXPORT long vp_live_bytes(void) { return live_bytes; }
EXPORT long vp_live_blocks(void) { return live_blocks; }

// ==================================================================== TSan ABI
EXPORT void __tsan_init() {}
EXPORT void __tsan_func_entry(void*) {}
EXPORT void __tsan_func_exit() {}
#define RW(N) \
  EXPORT void __tsan_read##N(void* p) { if (controlled) plain(p, N, false); } \
  EXPORT void __tsan_write##N(void* p) { if (controlled) plain(p, N, true); } \
  EXPORT void __tsan_unaligned_read##N(void* p) { if (controlled) plain(p, N, false); } \
  EXPORT void __tsan_unaligned_write##N(void* p) { if (controlled) plain(p, N, true); } \
  EXPORT void __tsan_volatile_read##N(void* p) { if (controlled) plain(p, N, false); } \
  EXPORT void __tsan_volatile_write##N(void* p) { if (controlled) plain(p, N, true); } \
  EXPORT void __tsan_unaligned_volatile_read##N(void* p) { if (controlled) plain(p, N, false); } \
  EXPORT void __tsan_unaligned_volatile_write##N(void* p) { if (controlled) plain(p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_read_range(void* p, unsigned long n) { if (controlled && n) plain(p, n, false); }
EXPORT void __tsan_write_range(void* p, unsigned long n) { if (controlled && n) plain(p, n, true); }
EXPORT void __tsan_vptr_update(void** p, void*) { if (controlled) plain(p, 8, true); }
EXPORT void __tsan_vptr_read(void** p) { if (controlled) plain(p, 8, false); }

#define CTL (controlled && self)
#define AT(BITS, T, SZ) \
  EXPORT T __tsan_atomic##BITS##_load(const volatile T* p, int mo) { \
    if (!CTL) return __atomic_load_n(p, __ATOMIC_SEQ_CST); \
    sp(false); chk((uintptr_t)p, SZ); return (T)w_load((const void*)p, SZ, mo); } \
  EXPORT void __tsan_atomic##BITS##_store(volatile T* p, T v, int mo) { \
    if (!CTL) { __atomic_store_n(p, v, __ATOMIC_SEQ_CST); return; } \
    sp(false); chk((uintptr_t)p, SZ); w_store((void*)p, SZ, (uint64_t)v, mo); } \
  EXPORT T __tsan_atomic##BITS##_exchange(volatile T* p, T v, int mo) { \
    if (!CTL) return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); \
    sp(false); chk((uintptr_t)p, SZ); return (T)w_rmw((void*)p, SZ, mo, [&](uint64_t) { return (uint64_t)v; }); } \
  EXPORT T __tsan_atomic##BITS##_fetch_add(volatile T* p, T v, int mo) { \
    if (!CTL) return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); \
    sp(false); chk((uintptr_t)p, SZ); return (T)w_rmw((void*)p, SZ, mo, [&](uint64_t o) { return o + (uint64_t)v; }); } \
  EXPORT T __tsan_atomic##BITS##_fetch_sub(volatile T* p, T v, int mo) { \
    if (!CTL) return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); \
    sp(false); chk((uintptr_t)p, SZ); return (T)w_rmw((void*)p, SZ, mo, [&](uint64_t o) { return o - (uint64_t)v; }); } \
  EXPORT T __tsan_atomic##BITS##_fetch_and(volatile T* p, T v, int mo) { \
    if (!CTL) return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); \
    sp(false); chk((uintptr_t)p, SZ); return (T)w_rmw((void*)p, SZ, mo, [&](uint64_t o) { return o & (uint64_t)v; }); } \
  EXPORT T __tsan_atomic##BITS##_fetch_or(volatile T* p, T v, int mo) { \
    if (!CTL) return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); \
    sp(false); chk((uintptr_t)p, SZ); return (T)w_rmw((void*)p, SZ, mo, [&](uint64_t o) { return o | (uint64_t)v; }); } \
  EXPORT T __tsan_atomic##BITS##_fetch_xor(volatile T* p, T v, int mo) { \
    if (!CTL) return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); \
    sp(false); chk((uintptr_t)p, SZ); return (T)w_rmw((void*)p, SZ, mo, [&](uint64_t o) { return o ^ (uint64_t)v; }); } \
  EXPORT T __tsan_atomic##BITS##_fetch_nand(volatile T* p, T v, int mo) { \
    if (!CTL) return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); \
    sp(false); chk((uintptr_t)p, SZ); return (T)w_rmw((void*)p, SZ, mo, [&](uint64_t o) { return ~(o & (uint64_t)v); }); } \
  static int cas##BITS(volatile T* p, T* e, T d, int mo, int fmo, bool wk) { \
    if (!CTL) return __atomic_compare_exchange_n(p, e, d, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    sp(false); chk((uintptr_t)p, SZ); uint64_t ex = (uint64_t)*e; bool r = w_cas((void*)p, SZ, &ex, (uint64_t)d, mo, fmo, wk); \
    if (!r) *e = (T)ex; return r; } \
  EXPORT int __tsan_atomic##BITS##_compare_exchange_strong(volatile T* p, T* e, T d, int mo, int fmo) { return cas##BITS(p, e, d, mo, fmo, false); } \
  EXPORT int __tsan_atomic##BITS##_compare_exchange_weak(volatile T* p, T* e, T d, int mo, int fmo) { return cas##BITS(p, e, d, mo, fmo, true); } \
  EXPORT T __tsan_atomic##BITS##_compare_exchange_val(volatile T* p, T e, T d, int mo, int fmo) { cas##BITS(p, &e, d, mo, fmo, false); return e; }
AT(8, uint8_t, 1) AT(16, uint16_t, 2) AT(32, uint32_t, 4) AT(64, uint64_t, 8)
EXPORT void __tsan_atomic_thread_fence(int mo) { if (CTL) { sp(false); w_fence(mo); } else __atomic_thread_fence(__ATOMIC_SEQ_CST); }
EXPORT void __tsan_atomic_signal_fence(int) {}

// ==================================================================== pthread
EXPORT int pthread_create(pthread_t* pt, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
  resolve();
  if (!CTL) return real_pthread_create(pt, at, fn, arg);
  if (nthr >= MAXT) { fprintf(stderr, "vprt: too many threads\n"); _exit(96); }
  int id = nthr;
  Thr* t = &thr[id]; memset((void*)t, 0, sizeof *t);
  t->st = RUN; t->fn = fn; t->arg = arg; t->prio = new_prio();
  if (weak) v_assign(t->cur, self->cur);
  int r = real_pthread_create(&t->pt, at, thr_main, t);
  if (r) return r;
  *pt = t->pt;
  nthr++;
  sp(false);
  return 0;
}
EXPORT int pthread_join(pthread_t pt, void** ret) {
  resolve();
  if (!CTL) return real_pthread_join(pt, ret);
  int id = -1;
  for (int i = nthr - 1; i >= 0; i--) if (pthread_equal(thr[i].pt, pt) && i != (int)(self - thr)) { id = i; break; }
  if (id >= 0) {
    sp(false);
    if (thr[id].st != DONE) { self->st = B_JOIN; self->target = id; block(); self->st = RUN; }
    if (weak) v_join(self->cur, thr[id].cur);
    thr[id].pt = 0;
  }
  return real_pthread_join(pt, ret);
}
EXPORT int pthread_mutex_lock(pthread_mutex_t* m) { if (CTL) { mx_lock(m); return 0; } resolve(); return real_mutex_lock(m); }
EXPORT int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!CTL) { resolve(); return real_mutex_trylock(m); }
  sp(false); Mx* x = mx_get(m);
  if (x->owner >= 0 || x->readers > 0) return EBUSY;
  x->owner = (int)(self - thr); if (weak) v_join(self->cur, x->v); return 0;
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t* m) { if (CTL) { mx_unlock(m); return 0; } resolve(); return real_mutex_unlock(m); }
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (CTL) { mx_lock(m); return 0; } resolve(); return real_rw_wrlock(m); }
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  if (!CTL) { resolve(); return real_rw_rdlock(m); }
  sp(false); Mx* x = mx_get(m);
  while (x->owner >= 0) { self->st = B_MUTEX; self->addr = m; self->woken = 0; block(); self->st = RUN; }
  x->readers++; if (weak) v_join(self->cur, x->v); return 0;
}
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t* m) { if (CTL) { mx_unlock(m); return 0; } resolve(); return real_rw_unlock(m); }

static int cwait(pthread_cond_t* c, pthread_mutex_t* m, int64_t until) {
  Mx* x = mx_get(m);
  if (weak) v_join(x->v, self->cur);
  x->owner = -1;
  for (int i = 0; i < nthr; i++) if (thr[i].st == B_MUTEX && thr[i].addr == m) thr[i].woken = 1;
  self->st = B_COND; self->addr = c; self->woken = 0; self->until = until;
  if (spurious && rng_sched.chance(100)) self->woken = 1;
  block(); self->st = RUN;
  int r = self->woken ? 0 : ETIMEDOUT;
  mx_lock(m);
  return r;
}
EXPORT int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (CTL) return cwait(c, m, -1); resolve(); return real_cond_wait(c, m); }
EXPORT int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  if (CTL) return cwait(c, m, ts->tv_sec * 1000000000LL + ts->tv_nsec); resolve(); return real_cond_timedwait(c, m, ts); }
EXPORT int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) {
  if (CTL) return cwait(c, m, ts->tv_sec * 1000000000LL + ts->tv_nsec); resolve(); return real_cond_clockwait(c, m, k, ts); }
EXPORT int pthread_cond_signal(pthread_cond_t* c) {
  if (!CTL) { resolve(); return real_cond_signal(c); }
  sp(false); int cand[MAXT], n = 0;
  for (int i = 0; i < nthr; i++) if (thr[i].st == B_COND && thr[i].addr == c && !thr[i].woken) cand[n++] = i;
  if (n) thr[cand[rng_sched.below(n)]].woken = 1;
  sp(false); return 0;
}
EXPORT int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!CTL) { resolve(); return real_cond_broadcast(c); }
  sp(false);
  for (int i = 0; i < nthr; i++) if (thr[i].st == B_COND && thr[i].addr == c) thr[i].woken = 1;
  sp(false); return 0;
}
EXPORT int pthread_once(pthread_once_t* o, void (*f)(void)) {
  resolve();
  if (!CTL) return real_once(o, f);
  sp(false);
  static const void* busy[64]; static int nb = 0;
  for (;;) {
    if (*(volatile int*)o == 2) return 0;
    bool b = false; for (int i = 0; i < nb; i++) if (busy[i] == o) b = true;
    if (!b) break;
    self->st = B_GUARD; self->addr = o; self->woken = 0; block(); self->st = RUN;
  }
  busy[nb++] = o; f(); *(volatile int*)o = 2;
  for (int i = 0; i < nb; i++) if (busy[i] == o) { busy[i] = busy[--nb]; break; }
  for (int i = 0; i < nthr; i++) if (thr[i].st == B_GUARD && thr[i].addr == o) thr[i].woken = 1;
  return 0;
}

// function-local statics: byte 0 done, byte 1 in progress
EXPORT int __cxa_guard_acquire(uint64_t* g) {
  volatile uint8_t* b = (volatile uint8_t*)g;
  if (!CTL) {
    for (;;) {
      if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) return 0;
      uint8_t z = 0;
      if (__atomic_compare_exchange_n(b + 1, &z, 1, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) {
        if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) { b[1] = 0; return 0; }
        return 1;
      }
      sched_yield();
    }
  }
  sp(false);
  while (b[0] == 0 && b[1] == 1) { self->st = B_GUARD; self->addr = g; self->woken = 0; block(); self->st = RUN; }
  if (b[0]) { if (weak) { for (int i = 0; i < nthr; i++) v_join(self->cur, thr[i].cur); } return 0; }
  b[1] = 1;
  return 1;
}
static void guard_end(uint64_t* g, int done) {
  volatile uint8_t* b = (volatile uint8_t*)g;
  __atomic_store_n(b, (uint8_t)done, __ATOMIC_RELEASE); __atomic_store_n(b + 1, (uint8_t)0, __ATOMIC_RELEASE);
  if (CTL) {
    if (weak && done) for (int i = 0; i < nthr; i++) v_join(thr[i].cur, self->cur);   // the initialisation synchronises
    for (int i = 0; i < nthr; i++) if (thr[i].st == B_GUARD && thr[i].addr == g) thr[i].woken = 1;
  }
}
EXPORT void __cxa_guard_release(uint64_t* g) { guard_end(g, 1); }
EXPORT void __cxa_guard_abort(uint64_t* g) { guard_end(g, 0); }

// ==================================================================== time, yield, futex
EXPORT int sched_yield(void) { if (CTL) { sp(true); return 0; } resolve(); return real_sched_yield(); }
static void vsleep(int64_t ns) {
  if (ns < 0) ns = 0;
  self->st = SLEEPING; self->until = vtime + ns;
  block();
  self->st = RUN;
}
EXPORT int nanosleep(const struct timespec* a, struct timespec* b) {
  if (CTL) { vsleep(a->tv_sec * 1000000000LL + a->tv_nsec); return 0; } resolve(); return real_nanosleep(a, b); }
EXPORT int clock_nanosleep(clockid_t c, int fl_, const struct timespec* a, struct timespec* b) {
  if (CTL) { int64_t x = a->tv_sec * 1000000000LL + a->tv_nsec; vsleep(fl_ & TIMER_ABSTIME ? x - vtime : x); return 0; }
  resolve(); return real_clock_nanosleep(c, fl_, a, b); }
EXPORT int usleep(useconds_t u) { struct timespec t{(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return nanosleep(&t, nullptr); }
EXPORT int clock_gettime(clockid_t c, struct timespec* t) {
  if (CTL) { vtime += tick; t->tv_sec = vtime / 1000000000LL; t->tv_nsec = vtime % 1000000000LL; return 0; }
  resolve(); return real_clock_gettime(c, t);
}
EXPORT int get_nprocs(void) {
  resolve();
  if (g_nprocs > 0) return g_nprocs;
  if (const char* e = getenv("VP_NPROCS")) return atoi(e);
  return real_get_nprocs();
}
EXPORT int vp_live_threads(void) { int n = 0; for (int i = 0; i < nthr; i++) if (thr[i].st != DONE) n++; return n; }
EXPORT int vp_addr(const void* p) { return in_arena((uintptr_t)p) ? (int)(((uintptr_t)p - (uintptr_t)ar_base) >> 4) : -1; }
EXPORT void vp_sync_all(void) { if (weak && self) for (int i = 0; i < nthr; i++) v_join(self->cur, thr[i].cur); }
EXPORT int vp_asleep(void) { int n = 0; for (int i = 0; i < nthr; i++) if (thr[i].st == B_FUTEX && !thr[i].woken) n++; return n; }

EXPORT long syscall(long n, ...) {
  va_list ap; va_start(ap, n);
  long a[6]; for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
  va_end(ap);
  resolve();
  if (!(n == SYS_futex && CTL)) return real_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
  int op = (int)a[1] & 127;
  const void* ad = (const void*)a[0];
  if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
    sp(false);
    if (*(volatile int*)ad != (int)a[2]) { errno = EAGAIN; return -1; }
    if (spurious && rng_sched.chance(200)) { errno = EINTR; sp(true); return -1; }
    self->st = B_FUTEX; self->addr = ad; self->woken = 0; self->until = -1;
    if (a[3]) { const struct timespec* ts = (const struct timespec*)a[3];
      int64_t x = ts->tv_sec * 1000000000LL + ts->tv_nsec; self->until = op == FUTEX_WAIT ? vtime + x : x; }
    block();
    self->st = RUN;
    if (!self->woken) { errno = ETIMEDOUT; return -1; }
    return 0;
  }
  if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
    sp(false);
    int k = (int)a[2]; long w = 0;
    int cand[MAXT], nc = 0;
    for (int i = 0; i < nthr; i++) if (thr[i].st == B_FUTEX && thr[i].addr == ad && !thr[i].woken) cand[nc++] = i;
    while (k > 0 && nc > 0) { int j = (int)rng_sched.below(nc); thr[cand[j]].woken = 1; cand[j] = cand[--nc]; k--; w++; }
    sp(false);
    return w;
  }
  return real_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
}
