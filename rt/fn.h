// Driver of the functional harnesses (C13 and following).
//
// A harness defines   void fn_case(long idx, fn::rng& r)   which calls the code
// under test and emits one record per call:
//   fn::call("sort", {p0, p1}, {in...});  // announced before the call (crash attribution)
//   fn::emit({out0, out1, ...});           // recorded after it
// Cases run in forked children, one per block of cases; the worker count of the
// scheduler is a function of the block.  A child that dies or hangs yields a
// record with "st" # 0 for the call it was in.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <string>
#include <vector>
#include <initializer_list>
#include <memory>
#include <utility>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#if defined(PARLAY_OPENMP)
#include <omp.h>
#elif defined(PARLAY_TBB)
#include <tbb/global_control.h>
#endif

#ifndef FN_BLOCK
#define FN_BLOCK 48
#endif

namespace fn {
using ll = long long;
using V = std::vector<ll>;

struct rng {
  uint64_t s;
  explicit rng(uint64_t x) : s(x) {}
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  uint64_t operator()(uint64_t n) { return n ? next() % n : 0; }
  bool chance(int num, int den) { return (int)(next() % den) < num; }
};

struct Shared {
  volatile long cur;     // case being run
  volatile long done;    // cases of the block finished
  volatile long beat;
  volatile int incall;
  char head[256];        // "f":..,"p":[..] of the call in progress
};
inline Shared* sh;
inline int out_fd = -1;
inline long cur_case;
inline int workers;
inline std::string buf;
inline long records;

inline void put(std::string& s, ll v) { char t[24]; int n = snprintf(t, sizeof t, "%lld", v); s.append(t, n); }
template <class It> inline void put_arr(std::string& s, It b, It e) {
  s += '[';
  for (It i = b; i != e; ++i) { if (i != b) s += ','; put(s, (ll)*i); }
  s += ']';
}
inline void flush_out() {
  size_t o = 0;
  while (o < buf.size()) { ssize_t k = write(out_fd, buf.data() + o, buf.size() - o); if (k <= 0) _exit(97); o += (size_t)k; }
  buf.clear();
}

inline std::string inputs;
// announce a call; `in` are the inputs as arrays
inline void call(const char* name, std::initializer_list<ll> p = {}, const std::vector<V>& in = {}) {
  std::string h = "\"f\":\""; h += name; h += "\",\"p\":"; put_arr(h, p.begin(), p.end());
  memset((char*)sh->head, 0, sizeof sh->head);
  memcpy((char*)sh->head, h.data(), h.size() < sizeof(sh->head) - 1 ? h.size() : sizeof(sh->head) - 1);
  sh->incall = 1; sh->beat++;
  inputs.clear();
  for (size_t i = 0; i < in.size(); i++) { if (i) inputs += ','; put_arr(inputs, in[i].begin(), in[i].end()); }
}
inline void emit(const std::vector<V>& o = {}) {
  buf += "{\"c\":"; put(buf, cur_case); buf += ",\"w\":"; put(buf, workers); buf += ",\"st\":0,";
  buf += (const char*)sh->head;
  buf += ",\"i\":["; buf += inputs; buf += "],\"o\":[";
  for (size_t i = 0; i < o.size(); i++) { if (i) buf += ','; put_arr(buf, o[i].begin(), o[i].end()); }
  buf += "]}\n";
  sh->incall = 0; records++;
  if (buf.size() > (1u << 20)) flush_out();
}

// ---------------------------------------------------------------- inputs
// a key sequence of length n with the given number of distinct keys and shape
inline V keys(rng& r, size_t n, ll range, int shape) {
  V v(n);
  if (range < 1) range = 1;
  for (size_t i = 0; i < n; i++) v[i] = (ll)r(range);
  switch (shape) {
    case 1: std::sort(v.begin(), v.end()); break;
    case 2: std::sort(v.begin(), v.end(), std::greater<ll>()); break;
    case 3: std::sort(v.begin(), v.begin() + n / 2); std::sort(v.begin() + n / 2, v.end(), std::greater<ll>()); break;   // organ pipe
    case 4: { ll h = (ll)r(range); for (auto& x : v) if (r.chance(9, 10)) x = h; break; }                            // one heavy key
    case 5: std::sort(v.begin(), v.end()); for (int k = 0; k < 5 && n; k++) v[r(n)] = (ll)r(range); break;               // nearly sorted
    case 6: { ll h = (ll)r(range); for (auto& x : v) x = h; for (int k = 0; k < 3 && n; k++) v[r(n)] = (ll)r(range); break; }  // all equal but few
    case 7: for (size_t i = 0; i < n; i++) v[i] = (ll)((i * 7919u) % (uint64_t)range); break;                          // periodic
    default: break;
  }
  return v;
}
constexpr int SHAPES = 8;
// a length near one of the given thresholds, or uniform below it
inline size_t near_len(rng& r, std::initializer_list<size_t> th, size_t cap) {
  size_t t = *(th.begin() + r(th.size()));
  size_t n;
  switch (r(4)) {
    case 0: n = t + r(4) - (t >= 2 ? 2 : t); break;
    case 1: n = r(t + 1); break;
    case 2: n = t + r(t / 2 + 2); break;
    default: n = 2 * t + r(3) - (t >= 1 ? 1 : 0); break;
  }
  return n > cap ? cap : n;
}
// idx-th sequence over {0..k-1} in length-then-lexicographic order
inline bool nth_seq(long idx, int k, int maxlen, V& v) {
  long cnt = 1;
  for (int len = 0; len <= maxlen; len++, cnt *= k) {
    if (idx < cnt) { v.assign(len, 0); for (int i = len - 1; i >= 0; i--) { v[i] = idx % k; idx /= k; } return true; }
    idx -= cnt;
  }
  return false;
}
inline long num_seqs(int k, int maxlen) { long s = 0, c = 1; for (int l = 0; l <= maxlen; l++, c *= k) s += c; return s; }
inline V iota(size_t n) { V v(n); for (size_t i = 0; i < n; i++) v[i] = (ll)i; return v; }
}  // namespace fn

void fn_case(long idx, fn::rng& r);

namespace fn {
inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// worker count of the other scheduler back ends (for OpenMP: of the calling thread)
inline void backend_workers() {
#if defined(PARLAY_OPENMP)
  omp_set_num_threads(workers);
#elif defined(PARLAY_TBB)
  static auto* gc = new tbb::global_control(tbb::global_control::max_allowed_parallelism, (size_t)workers); (void)gc;
#endif
}
inline void child(uint64_t seed, long from, long to, long stride, long skip) {
  backend_workers();
  for (long i = from; i < to; i += stride) {
    if (i < skip) continue;
    sh->cur = i; sh->beat++;
    cur_case = i;
    rng r(seed * 0x9e3779b97f4a7c15ull ^ (uint64_t)i * 0xd1342543de82ef95ull);
    fn_case(i, r);
    flush_out();
  }
  sh->cur = -1;
  flush_out();
  _exit(0);
}
}  // namespace fn

// seed first count out secs stripe nstripes
#ifndef FN_NO_MAIN
int main(int argc, char** argv) {
  using namespace fn;
  if (argc < 8) return 9;
  uint64_t seed = strtoull(argv[1], 0, 10);
  long first = atol(argv[2]), count = atol(argv[3]);
  double secs = atof(argv[5]);
  long stripe = atol(argv[6]), ns = atol(argv[7]);
  double limit = 30;
  out_fd = open(argv[4], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  if (out_fd < 0) return 8;
  sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  double t0 = now();
  long cases = 0, crashes = 0, ignored = 0;
  bool stop = false;
  static const int W[] = {4, 1, 2, 8, 3, 5};
  long blk = first / FN_BLOCK, lastblk = (first + count - 1) / FN_BLOCK;
  for (long b = blk; b <= lastblk; b++) {
    if (b % ns != stripe) continue;
    if (now() - t0 > secs) break;
    long from = b * FN_BLOCK < first ? first : b * FN_BLOCK;
    long to = (b + 1) * FN_BLOCK < first + count ? (b + 1) * FN_BLOCK : first + count;
    long skip = from;
    long only = -1;                 // case repeated alone after a kill or time-out
    while (skip < to) {
      sh->cur = -2; sh->incall = 0; sh->head[0] = 0;
      fflush(stdout);
      pid_t pid = fork();
      if (pid < 0) return 7;
      if (pid == 0) {
        char t[16]; int w = W[(b / ns + b) % 6]; workers = w; snprintf(t, sizeof t, "%d", w); setenv("PARLAY_NUM_THREADS", t, 1);
        child(seed, from, only >= 0 ? only + 1 : to, 1, only >= 0 ? only : skip);
      }
      int stt = 0; long beat = -1; double tb = now(); bool timed = false;
      useconds_t nap = 200;
      while (waitpid(pid, &stt, WNOHANG) == 0) {
        usleep(nap); if (nap < 5000) nap += 100;
        if (sh->beat != beat) { beat = sh->beat; tb = now(); }
        if (now() - tb > (only >= 0 ? 2 * limit : limit)) { timed = true; kill(pid, SIGKILL); waitpid(pid, &stt, 0); break; }
      }
      if (!timed && WIFEXITED(stt) && WEXITSTATUS(stt) == 0) {
        if (only >= 0) { ignored++; skip = only + 1; only = -1; continue; }
        break;
      }
      long at = sh->cur;
      if (at < 0) { if (++ignored > 5) return 6; continue; }
      int code = timed ? 6 : 1;
      if ((timed || (WIFSIGNALED(stt) && WTERMSIG(stt) == SIGKILL)) && only < 0) { only = at; continue; }   // must repeat
      if (!timed && WIFSIGNALED(stt) && WTERMSIG(stt) == SIGKILL) { ignored++; skip = at + 1; only = -1; continue; }  // killed from outside
      if (WIFEXITED(stt) && WEXITSTATUS(stt) == 97) return 5;
      std::string s = "{\"c\":"; put(s, at); s += ",\"w\":0,\"st\":"; put(s, code); s += ",";
      if (sh->head[0]) s += (const char*)sh->head; else s += "\"f\":\"none\",\"p\":[]";
      s += ",\"i\":[],\"o\":[["; put(s, WIFSIGNALED(stt) ? WTERMSIG(stt) : -WEXITSTATUS(stt)); s += "]]}\n";
      if (write(out_fd, s.data(), s.size()) < 0) return 5;
      crashes++;
      skip = at + 1; only = -1;
      stop = crashes > 20 || timed || now() - t0 > secs;   // enough to report
      if (stop) break;
    }
    cases += to - from;
    if (stop) break;
  }
  fprintf(stderr, "\n{\"cases\":%ld,\"crashes\":%ld,\"ignored\":%ld,\"secs\":%.2f}\n", cases, crashes, ignored, now() - t0);
  return 0;
}
#endif
