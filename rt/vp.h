// Driver for harnesses that run under the controlled-scheduling runtime.
// A harness defines a scenario and calls vp::drive(argc, argv, cfg) from main:
//   ./h SEED FIRST COUNT OUT.ndjson SECONDS MAXLINES
// runs executions FIRST..FIRST+COUNT-1 (each one a function of SEED and its index),
// and writes each distinct recorded history once, as one JSON line
//   {"x":index,"b":batch start,"st":status,"to":timeouts,"p":[params],"e":[[tid,kind,a,b,..],..]}
#pragma once
#include "vprt.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <string>
#include <vector>
#include <algorithm>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sched.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>

#ifndef VP_NO_NEW
void* operator new(size_t n) { return vp_alloc(n, 16); }
void* operator new[](size_t n) { return vp_alloc(n, 16); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return vp_alloc(n, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return vp_alloc(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return vp_alloc(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return vp_alloc(n, (size_t)a); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return vp_alloc(n, (size_t)a); }
void operator delete(void* p) noexcept { vp_free(p); }
void operator delete[](void* p) noexcept { vp_free(p); }
void operator delete(void* p, size_t) noexcept { vp_free(p); }
void operator delete[](void* p, size_t) noexcept { vp_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { vp_free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { vp_free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { vp_free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { vp_free(p); }
#endif

namespace vp {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t x) : s(x) { next(); }
  uint64_t next() { s += 0x9e3779b97f4a7c15ULL; uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
  int below(int n) { return n > 0 ? (int)(next() % (uint64_t)n) : 0; }
  int range(int a, int b) { return a + below(b - a + 1); }
  bool chance(int pct) { return below(100) < pct; }
};

inline void param(int v) { vp_sh->params[vp_sh->np] = v; vp_sh->np = vp_sh->np + 1; }
inline void log(int kind, int a = 0, int b = 0, int c = 0, int d = 0, int e = 0, int f = 0) { vp_log(kind, a, b, c, d, e, f); }

enum Canon { CANON_NONE = 0, CANON_CALLRET = 1 };   // CALLRET: even kinds are calls, odd kinds returns

struct Cfg {
  void (*scenario)(uint64_t idx, Rng& r);
  int flags = VP_WEAK;
  int64_t maxsteps = 200000;
  int batch = 50;
  int canon = CANON_NONE;
  int width = 6;             // ints per event written (tid, kind, a, b, ...)
  // a cheap monitor that marks histories worth validating first (no verdict: TLC decides)
  bool (*suspect)(const vp_event* ev, int n) = nullptr;
  int want_to = 0;           // 1: report futex timeouts in the line; 2: such an execution ended abnormally
};

struct Shared {
  volatile int64_t execs, distinct, events, steps, switches, abnormal;
  volatile uint64_t next;
  volatile int64_t lines, sus;
};

inline uint64_t mixh(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; h ^= h >> 32; return h; }

struct Driver {
  Cfg cfg; uint64_t seed; Shared* sh; uint64_t* hs; static constexpr uint64_t HS = 1u << 21;
  int fd; int64_t maxlines;

  bool fresh(uint64_t h) {
    if (!h) h = 1;
    for (uint64_t i = h & (HS - 1), k = 0; k < HS; i = (i + 1) & (HS - 1), k++) {
      if (hs[i] == h) return false;
      if (hs[i] == 0) { hs[i] = h; return true; }
    }
    return true;
  }
  void emit(uint64_t idx, uint64_t b) {
    static vp_event ev[16384];
    if (cfg.want_to == 2 && vp_sh->timeouts > 0 && vp_sh->status == 0) vp_sh->status = VP_STUCK_TIMEOUT;
    int n = vp_sh->nev; int st = vp_sh->status;
    memcpy(ev, vp_sh->ev, sizeof(vp_event) * (size_t)n);
    if (cfg.canon == CANON_CALLRET) {
      int i = 0;
      while (i < n) { int j = i; while (j < n && (ev[j].v[1] & 1) == (ev[i].v[1] & 1)) j++;
        std::sort(ev + i, ev + j, [](const vp_event& x, const vp_event& y) { return x.v[0] < y.v[0]; }); i = j; }
    }
    int to = cfg.want_to ? (vp_sh->timeouts > 0 ? 1 : 0) : 0;
    uint64_t h = mixh((uint64_t)st * 31 + 7 + to, (uint64_t)n);
    for (int i = 0; i < vp_sh->np; i++) h = mixh(h, (uint64_t)(uint32_t)vp_sh->params[i]);
    for (int i = 0; i < n; i++) for (int k = 0; k < cfg.width; k++) h = mixh(h, (uint64_t)(uint32_t)ev[i].v[k]);
    sh->execs++; sh->events += n; sh->steps += vp_sh->steps; sh->switches += vp_sh->switches;
    if (!fresh(h)) return;
    sh->distinct++;
    bool sus = cfg.suspect && st == 0 && cfg.suspect(ev, n);
    if (sh->lines >= maxlines && st == 0 && !(sus && sh->sus < 300)) return;
    if (sus) sh->sus++;
    sh->lines++;
    // no operator new here: it would move the addresses of later executions
    static char* o = (char*)mmap(nullptr, size_t(8) << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    char* q = o;
    q += sprintf(q, "{\"x\":%llu,\"b\":%llu,\"st\":%d,\"to\":%d%s,\"p\":[", (unsigned long long)idx, (unsigned long long)b, st, to, sus ? ",\"sus\":1" : "");
    for (int i = 0; i < vp_sh->np; i++) q += sprintf(q, "%s%d", i ? "," : "", vp_sh->params[i]);
    q += sprintf(q, "],\"e\":[");
    for (int i = 0; i < n; i++) { *q++ = i ? ',' : '['; if (i) *q++ = '[';
      for (int k = 0; k < cfg.width; k++) q += sprintf(q, "%s%d", k ? "," : "", ev[i].v[k]);
      *q++ = ']'; }
    q += sprintf(q, "]}\n");
    if (write(fd, o, (size_t)(q - o)) != (ssize_t)(q - o)) _exit(95);
  }
  void run_one(uint64_t idx) {
    Rng r(seed * 0x9e3779b97f4a7c15ULL + idx * 0xd1342543de82ef95ULL + 99);
    vp_sh->np = 0; vp_sh->nev = 0; vp_sh->status = 0;
    vp_sh->exec_idx = (int32_t)idx;
    vp_exec_begin(r.next(), cfg.flags, cfg.maxsteps);
    cfg.scenario(idx, r);
    vp_exec_end();
  }
};

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }

inline int drive(int argc, char** argv, Cfg cfg) {
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("VP_REEXEC")) {
    setenv("VP_REEXEC", "1", 1); setenv("PARLAY_NUM_THREADS", getenv("VP_THREADS") ? getenv("VP_THREADS") : "1", 1);
    personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE);
    execv("/proc/self/exe", argv);
  }
  if (argc < 4) { fprintf(stderr, "usage: SEED FIRST COUNT [OUT SECONDS MAXLINES CORE]\n"); return 2; }
  vp_init();
  Driver d; d.cfg = cfg; d.seed = strtoull(argv[1], nullptr, 10);
  uint64_t first = strtoull(argv[2], nullptr, 10), count = strtoull(argv[3], nullptr, 10);
  const char* out = argc > 4 ? argv[4] : "/dev/stdout";
  double secs = argc > 5 ? atof(argv[5]) : 1e9; d.maxlines = argc > 6 ? atoll(argv[6]) : 1000000000;
  if (argc > 7) { cpu_set_t cs; CPU_ZERO(&cs); CPU_SET(atoi(argv[7]), &cs); sched_setaffinity(0, sizeof cs, &cs); }
  d.sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  d.hs = (uint64_t*)mmap(nullptr, Driver::HS * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  d.fd = strcmp(out, "/dev/stdout") ? open(out, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644) : 1;
  if (d.fd < 0) { perror(out); return 2; }
  double t0 = now();
  uint64_t pos = first, end = first + count;
  int abn = 0;
  bool debug = getenv("VP_DEBUG") != nullptr;
  while (pos < end && now() - t0 < secs && abn < 12) {
    uint64_t b = pos, e = std::min(end, (pos / (uint64_t)cfg.batch + 1) * (uint64_t)cfg.batch);
    d.sh->next = pos;
    pid_t pid = fork();
    if (pid == 0) {
      if (!debug) { int n = open("/dev/null", O_WRONLY); dup2(n, 2); if (d.fd != 1) dup2(n, 1); struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl); }
      for (uint64_t i = b; i < e; i++) { d.sh->next = i; d.run_one(i); d.emit(i, b); }
      d.sh->next = e;
      _exit(0);
    }
    int st = 0; uint64_t last = pos; double cpu0 = 0; bool hang = false;
    clockid_t ck; bool hck = clock_getcpuclockid(pid, &ck) == 0;
    for (;;) {
      pid_t w = waitpid(pid, &st, WNOHANG);
      if (w == pid) break;
      usleep(2000);
      timespec ts{0, 0}; double cpu = 0; if (hck && clock_gettime(ck, &ts) == 0) cpu = (double)ts.tv_sec + 1e-9 * (double)ts.tv_nsec;
      if (d.sh->next != last) { last = d.sh->next; cpu0 = cpu; }
      else if (cpu - cpu0 > 15 && !debug) { kill(pid, SIGKILL); waitpid(pid, &st, 0); hang = true; break; }
    }
    pos = d.sh->next;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
    // abnormal end of execution pos
    int code = hang ? VP_HANG : (WIFEXITED(st) && WEXITSTATUS(st) > 40 && WEXITSTATUS(st) < 50) ? WEXITSTATUS(st) - 40 : VP_CRASH;
    if (WIFEXITED(st) && WEXITSTATUS(st) >= 90) { fprintf(stderr, "harness: child exit %d\n", WEXITSTATUS(st)); return 3; }
    vp_sh->status = code;
    if (vp_sh->nev < 0 || vp_sh->nev > 16384) vp_sh->nev = 0;
    d.emit(pos, b);
    d.sh->abnormal++; abn++;
    pos++;
  }
  fprintf(stderr, "{\"execs\":%lld,\"distinct\":%lld,\"lines\":%lld,\"events\":%lld,\"steps\":%lld,\"switches\":%lld,\"abnormal\":%lld,\"secs\":%.2f}\n",
          (long long)d.sh->execs, (long long)d.sh->distinct, (long long)d.sh->lines, (long long)d.sh->events, (long long)d.sh->steps,
          (long long)d.sh->switches, (long long)d.sh->abnormal, now() - t0);
  return 0;
}

}  // namespace vp
