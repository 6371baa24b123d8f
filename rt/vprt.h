// Controlled-scheduling runtime: interface used by the harnesses.
//
// A harness is compiled with -fsanitize=thread (compile step only) so that every
// atomic operation and every plain memory access of the code under test calls a
// __tsan_* function; this runtime implements those functions.  Only one thread
// runs at a time; the runtime decides which one at every atomic operation, and
// (in weak mode) which of the coherent values an atomic load returns.
#pragma once
#include <cstdint>
#include <cstddef>

extern "C" {

enum vp_status { VP_OK = 0, VP_CRASH = 1, VP_DEADLOCK = 2, VP_NOPROGRESS = 3, VP_UAF = 4,
                 VP_BADFREE = 5, VP_HANG = 6, VP_STUCK_TIMEOUT = 7 };

enum vp_flags { VP_WEAK = 1,        // allow weak-memory executions (chosen per execution)
                VP_SPURIOUS = 2,    // spurious futex wake-ups
                VP_SYNCLOG = 4,     // log events synchronise all threads (real time = happens-before)
                VP_PLAINYIELD = 8,  // also preempt at plain accesses (chosen per execution)
                VP_NOREUSE = 16,    // never reuse freed memory (else chosen per execution)
                VP_SEQ = 32,        // no preemption at all (first candidate; for debugging)
};

#define VP_EVW 8
struct vp_event { int32_t v[VP_EVW]; };   // tid, kind, a, b, c, d, e, f
struct vp_shared {
  volatile int32_t nev;
  volatile int32_t status;
  volatile int64_t steps;
  volatile int64_t switches;
  volatile int32_t exec_idx;
  volatile int32_t np;
  volatile int32_t timeouts;           // futex timeouts that fired because nothing else could run
  volatile int32_t params[64];
  struct vp_event ev[16384];
};

extern struct vp_shared* vp_sh;

void vp_init(void);                                   // once per process, before fork
void vp_exec_begin(uint64_t seed, int flags, int64_t maxsteps);
void vp_exec_end(void);
int  vp_controlled(void);
int  vp_tid(void);
void vp_point(void);                                  // explicit scheduling point
uint64_t vp_rand(void);                               // deterministic randomness for the scenario
void vp_log(int kind, int a, int b, int c, int d, int e, int f);
void vp_quiet(int on);                                // suspend/resume preemption in this thread
void vp_hint(const int* tids, int n);                 // schedule hints (thread order at atomic steps)
void* vp_alloc(size_t n, size_t align);
void vp_free(void* p);
int64_t vp_vtime(void);
long vp_live_bytes(void);
long vp_live_blocks(void);
int  vp_live_threads(void);                           // controlled threads that have not ended
void vp_sync_all(void);                                // the caller sees everything every thread has done so far
int  vp_asleep(void);                                 // threads blocked in a futex wait and not yet woken
int  vp_addr(const void* p);                          // address of an arena block in units of 16 bytes
int  vp_set_nprocs(int n);                            // what get_nprocs() reports (0: the real value)
}
