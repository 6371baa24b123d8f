// The general allocator: p_malloc/p_free, parlay::allocator<T>, and pool allocators of other sizes.
// One execution per process.
// Events (tid, kind, a, b, c, d):
//   2 ALLOC a n8 n16 ok   n bytes at address a (units of 8) returned; n8 = ceil(n/8), n16 = floor(n/16); ok: aligned as asked, inside memory obtained from the system
//   4 FREE a ok n8        given back; ok: contents were intact
//   6 STAT u r ok         (used, reserved) relative to the start, in units of 16 (nothing else running); ok: multiples of 16 and reserved not negative
//   8 AGAIN t1 t2         total memory after allocating and freeing once, and after doing it again several times (nothing else running)
//  10 CLEARED d1 d2       free pools were released: the reported total sank by d1, the memory held by d2 (units of 16, d2 rounded up)
//  12 OVER
#include "../rt/vp.h"
#include <parlay/alloc.h>
#include <thread>
#include <memory>
#include <functional>
using vp::Rng;
enum { ALLOC = 2, FREE = 4, STAT = 6, AGAIN = 8, CLEARED = 10, OVER = 12 };
static int addr8(const void* p) { int a = vp_addr(p); return a < 0 ? -1 : a * 2 + (int)(((uintptr_t)p >> 3) & 1); }
struct Blk { unsigned char* p; size_t n; int kind; unsigned char tag; };
static std::atomic<Blk*> slots[4];
template <size_t S, size_t A> struct alignas(A) El { unsigned char b[S]; };
using Pool = parlay::internal::pool_allocator;
static Pool* pool = nullptr;
static int huge = 0;
static const size_t aligns[] = {16, 16, 16, 1, 2, 4, 8, 32, 64, 128, 256, 1024, 4096, 65536};
static void* take(int kind, size_t& n, size_t& al, Rng& q) {
  switch (kind) {
    case 0: al = 16; return parlay::p_malloc(n);
    case 1: al = aligns[q.below(14)]; return parlay::p_malloc(n, al);
    case 2: al = 1; return parlay::allocator<char>().allocate(n);
    case 3: { n = (n + 23) / 24 * 24; al = 8; return parlay::allocator<El<24, 8>>().allocate(n / 24); }
    case 4: { n = (n + 127) / 128 * 128; al = 128; return parlay::allocator<El<128, 128>>().allocate(n / 128); }
    case 5: { n = (n + 255) / 256 * 256; al = 256; return parlay::allocator<El<256, 256>>().allocate(n / 256); }
    case 6: { n = (n + 2047) / 2048 * 2048; al = 2048; return parlay::allocator<El<2048, 2048>>().allocate(n / 2048); }
    case 7: { n = (n + 63) / 64 * 64; al = 64; return parlay::allocator<El<64, 64>>().allocate(n / 64); }
    default: al = 1; n += n == 0; return pool->allocate(n);
  }
}
static void give(const Blk& b) {
  switch (b.kind) {
    case 0: case 1: parlay::p_free(b.p); break;
    case 2: parlay::allocator<char>().deallocate((char*)b.p, b.n); break;
    case 3: parlay::allocator<El<24, 8>>().deallocate((El<24, 8>*)b.p, b.n / 24); break;
    case 4: parlay::allocator<El<128, 128>>().deallocate((El<128, 128>*)b.p, b.n / 128); break;
    case 5: parlay::allocator<El<256, 256>>().deallocate((El<256, 256>*)b.p, b.n / 256); break;
    case 6: parlay::allocator<El<2048, 2048>>().deallocate((El<2048, 2048>*)b.p, b.n / 2048); break;
    case 7: parlay::allocator<El<64, 64>>().deallocate((El<64, 64>*)b.p, b.n / 64); break;
    default: pool->deallocate(b.p, b.n);
  }
}
static size_t size(Rng& q, bool custom, bool hg) {
  int c = q.below(100);
  if (hg && huge > 0 && c < 12) { huge--; return ((size_t)q.range(1, 2) << 29) + (size_t)q.range(-70, 200); }
  if (c < 35) return (size_t)q.range(1, 80);
  if (c < 40) return 0;
  if (c < 75) return ((size_t)1 << q.range(4, custom ? 12 : 14)) + (size_t)q.range(-66, 66) % 66;
  if (c < 92) return ((size_t)1 << q.range(16, 19)) + (size_t)q.range(-130, 130);
  return (size_t)q.range(1, 2000000);
}
static void stamp(const Blk& b, bool* ok) {
  auto at = [&](size_t i) { if (!ok) b.p[i] = (unsigned char)(b.tag + i); else if (b.p[i] != (unsigned char)(b.tag + i)) *ok = false; };
  size_t e = b.n < 24 ? b.n : 24;
  for (size_t i = 0; i < e; i++) { at(i); at(b.n - 1 - i); }
  for (size_t i = 64; i < b.n; i *= 2) at(i);
}
static std::pair<size_t, size_t> stats() { return pool ? pool->stats() : parlay::internal::memory_usage(); }
static void scenario(uint64_t, Rng& r) {
  vp::param(0);
  for (auto& s : slots) s.store(nullptr);
  bool custom = r.chance(30); bool big = false, hg = r.chance(25); huge = 3;
  pool = nullptr; int nlarge = 0;
  if (custom) {
    std::vector<size_t> sz; 
    static const size_t cand[] = {16, 32, 80, 512, 4096, 131072, 262144, 300000 / 16 * 16, 524288};
    for (size_t s : cand) if (r.chance(55)) sz.push_back(s);
    if (sz.empty() || r.chance(10)) { sz.clear(); sz.push_back(262144); if (r.chance(50)) sz.push_back(524288); }
    for (size_t s : sz) nlarge += s >= 262144;
    big = sz[0] >= 262144;
    pool = new Pool(sz);
  } else parlay::internal::get_default_allocator();
  if (r.chance(50)) for (int i = 0; i < 3; i++) { Rng q(r.next()); size_t n = size(q, custom, false), al; int k = custom ? 8 : q.below(8); void* p = take(k, n, al, q); give(Blk{(unsigned char*)p, n, k, 0}); }
  auto base = stats();
  auto fresh = [=](Rng& q, int tag) {
    size_t n = size(q, custom, hg), al = 1; int k = custom ? 8 : q.below(8);

    unsigned char* p = (unsigned char*)take(k, n, al, q);
    vp::log(ALLOC, addr8(p), (int)((n + 7) / 8), (int)(n / 16), vp_addr(p) >= 0 && (n == 0 || vp_addr(p + n - 1) >= 0) && (uintptr_t)p % al == 0);
    Blk b{p, n, k, (unsigned char)tag}; stamp(b, nullptr);
    return b;
  };
  auto put = [=](const Blk& b) { bool ok = true; stamp(b, &ok); vp::log(FREE, addr8(b.p), ok, (int)((b.n + 7) / 8)); give(b); };
  auto body = [=](Rng q, int n, int tag) {
    Blk mine[16]; int k = 0, bias = q.range(40, 75);
    for (int i = 0; i < n; i++) {
      int c = q.below(100);
      if (c < bias && k < 12) mine[k++] = fresh(q, tag + i * 7);
      else if (c < 90 && k) { int j = q.below(k); put(mine[j]); mine[j] = mine[--k]; }
      else { Blk* b = k ? new Blk(mine[--k]) : nullptr; Blk* o = slots[q.below(4)].exchange(b); if (o) { mine[k++] = *o; delete o; } }
    }
    if (q.chance(50)) while (k) put(mine[--k]);
    else while (k) { Blk* b = new Blk(mine[--k]); Blk* o = slots[q.below(4)].exchange(b); if (o) { put(*o); delete o; } }
  };
  auto stat = [&] { vp_sync_all(); auto s = stats(); long u = (long)(s.first - base.first), rs = (long)(s.second - base.second);
    vp::log(STAT, (int)(u / 16), (int)((long)s.second / 16), u % 16 == 0 && rs % 16 == 0 && (long)s.second >= 0 && (long)s.first >= 0); };
  int waves = r.range(1, 2);
  for (int w = 0; w < waves; w++) {
    int nt = r.range(1, 3);
    std::vector<std::thread> ts;
    for (int i = 0; i < nt; i++) { uint64_t s = r.next(); int n = r.range(3, 12); ts.emplace_back([=] { body(Rng(s), n, 30 * (w * 4 + i) + 1); }); }
    if (r.chance(40)) body(Rng(r.next()), r.range(3, 9), 200);
    for (auto& t : ts) t.join();
    stat();
    if (w == waves - 1 || r.chance(30)) for (auto& s : slots) { Blk* o = s.exchange(nullptr); if (o) { put(*o); delete o; } }
    if (r.chance(60)) stat();
    if (r.chance(40)) {
      vp_sync_all(); vp_quiet(1);
      auto b0 = stats(); long l0 = vp_live_bytes();
      if (pool) pool->clear(); else parlay::internal::memory_clear();
      auto b1 = stats(); long l1 = vp_live_bytes();
      long d1 = (long)(b0.first + b0.second) - (long)(b1.first + b1.second), d2 = l0 - l1;
      vp_quiet(0);
      vp::log(CLEARED, (int)(d1 / 16), (int)((d2 + 15) / 16), big ? (int)((long)b1.second / 16) : 0);
      stat();
    }
  }
  { // the same again needs no more memory
    Rng q(r.next()); size_t ns[4], al; int ks[4], m = q.range(1, 4); huge = hg ? 1 : 0;
    for (int i = 0; i < m; i++) { ns[i] = size(q, custom, hg); ks[i] = custom ? 8 : q.below(8); }
    auto cyc = [&] { Blk b[4]; for (int i = 0; i < m; i++) { size_t n = ns[i]; b[i].p = (unsigned char*)take(ks[i], n, al, q); b[i].n = n; b[i].kind = ks[i]; } for (int i = 0; i < m; i++) give(b[i]); };
    for (int i = 0; i < m; i++) if (ks[i] == 1) ks[i] = 0;
    vp_quiet(1); cyc(); auto s = stats(); long t1 = (long)((s.first + s.second) / 16); int c = q.range(1, 4); for (int i = 0; i < c; i++) cyc(); s = stats(); vp_quiet(0);
    vp::log(AGAIN, (int)t1, (int)((s.first + s.second) / 16));
    stat();
  }
  if (pool) { delete pool; pool = nullptr; }
  vp::log(OVER);
}
int main(int argc, char** argv) {
  vp::Cfg c; c.scenario = scenario; c.flags = VP_WEAK | VP_SYNCLOG; c.maxsteps = 60000; c.width = 6; c.batch = 1;
  return vp::drive(argc, argv, c);
}
