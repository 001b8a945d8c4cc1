// Deterministic simulation runtime (see rt.h).  Compiled WITHOUT instrumentation.
#include "rt.h"
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <exception>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <clocale>
#include <locale.h>
#include <cstdarg>

extern "C" { extern char __data_start, _end; }
extern "C" int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
extern "C" int __real_pthread_join(pthread_t, void **);
extern "C" int __real_pthread_mutex_lock(pthread_mutex_t *);
extern "C" int __real_pthread_mutex_trylock(pthread_mutex_t *);
extern "C" int __real_pthread_mutex_unlock(pthread_mutex_t *);
extern "C" int __real_pthread_once(pthread_once_t *, void (*)());
extern "C" int __real_sched_yield();

namespace sim {
Page *page;
namespace {
constexpr uintptr_t ARENA = 0x200000000000ull;
constexpr size_t ARENA_SZ = 512ull << 20;
constexpr uintptr_t STACKS = 0x210000000000ull;
constexpr size_t STACK_SZ = 16ull << 20;
constexpr uintptr_t RSH = 0x220000000000ull;  // race cells of the arena, 64 B per 8 B granule
constexpr uintptr_t GSH = 0x230000000000ull;  // race cells of the globals
constexpr uintptr_t ASH = 0x240000000000ull;  // addressability, 1 B per granule
constexpr uintptr_t BLK = 0x250000000000ull;  // block id per 16 B unit (u32)
constexpr uintptr_t BTAB = 0x260000000000ull; // block table

struct Cell {
  uint32_t wclk, wpc;
  uint8_t wtid, wmask, watomic, owner;
  uint8_t ratomic, pad[3];
  uint32_t rclk[MAXT];
  uint8_t rmask[MAXT];
  uint32_t rpc;
  uint32_t pad2;
};
static_assert(sizeof(Cell) == 64, "cell size");

struct Block { uintptr_t addr; uint32_t size; uint32_t rsize; uint8_t st; uint8_t kind; uint8_t lib; uint8_t tid; int32_t op; uint32_t next; uint32_t seq; };

struct Thr {
  int id; pthread_t th; std::atomic<int> go; int state; // 0 unused 1 ready 2 blocked 3 done
  uintptr_t lo, hi; void (*fn)(void *); void *arg; void *(*pfn)(void *); void *pret; bool started;
  uint32_t vc[MAXT];
  uint64_t ev, st, raw;
  int quiet, lib, op; bool inrt;
  uint64_t allocs, bytes; bool fired;
  const Switch *sw[256]; int nsw, isw; const Switch *swt[256]; int nswt, iswt;
  uintptr_t waitobj;
  long spin; // atomic operations since this thread last wrote anything but its own stack
  struct { void (*f)(void *); void *o; } dt[64]; int ndt; // destructors of thread_local objects, newest last
};
Thr T[MAXT]; int NT = 0;
__thread Thr *self = nullptr;
Sched S;
uint64_t trace_h; uint64_t total_raw, total_st, total_ev;
int cur = -1;
uint64_t rngs;
bool on = false;
uintptr_t gbase, gend;

uint64_t rnd() { rngs += 0x9E3779B97F4A7C15ull; uint64_t z = rngs; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
inline void mix(uint64_t v) { trace_h ^= v; trace_h *= 0x100000001b3ull; trace_h ^= trace_h >> 29; }

void fwait(std::atomic<int> &a) { while (a.load(std::memory_order_acquire) == 0) syscall(SYS_futex, &a, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0); a.store(0, std::memory_order_relaxed); }
void fwake(std::atomic<int> &a) { a.store(1, std::memory_order_release); syscall(SYS_futex, &a, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }

void finish_counts() {
  page->trace = trace_h; page->steps = total_st; page->raw = total_raw; page->evs = total_ev;
}
} // namespace

void violation(const char *kind, const std::string &msg) {
  if (!page->kind[0]) {
    snprintf(page->kind, sizeof page->kind, "%s", kind);
    snprintf(page->msg, sizeof page->msg, "%s", msg.c_str());
    page->curop = self ? self->op : -1; page->curtid = self ? self->id : -1;
  }
  finish_counts();
  page->done = 2;
  _exit(99);
}
static void violationf(const char *kind, const char *f, ...) {
  char b[1500]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
  if (!page->kind[0]) {
    snprintf(page->kind, sizeof page->kind, "%s", kind); snprintf(page->msg, sizeof page->msg, "%s", b);
    page->curop = self ? self->op : -1; page->curtid = self ? self->id : -1;
  }
  finish_counts(); page->done = 2; _exit(99);
}

namespace {
int pick_next(int from) {
  for (int k = 1; k <= MAXT; k++) { int i = (from + k) % MAXT; if (T[i].state == 1) return i; }
  return -1;
}
void switch_to(int to) {
  Thr *me = self;
  if (to == me->id) return;
  page->switches++;
  mix(0xABCD0000u + me->id * 16 + to);
  cur = to;
  fwake(T[to].go);
  fwait(me->go);
}
// block current thread until woken; returns when scheduled again
void block_on(uintptr_t obj) {
  self->state = 2; self->waitobj = obj;
  int n = pick_next(self->id);
  if (n < 0) {
    char b[600]; int o = 0;
    for (int i = 0; i < MAXT; i++) if (T[i].state == 2) o += snprintf(b + o, sizeof b - o, "T%d(op %d) waits for %#lx; ", i, T[i].op, (unsigned long)T[i].waitobj);
    violationf("deadlock", "all threads blocked: %s", b);
  }
  switch_to(n);
}
void wake_all(uintptr_t obj) { for (auto &t : T) if (t.state == 2 && t.waitobj == obj) { t.state = 1; t.waitobj = 0; } }

inline void hang_check(Thr *t) {
  if (__builtin_expect(S.crash && total_raw >= S.crash, 0)) { page->faults[14]++; finish_counts(); page->done = 1; _exit(0); }
  if (__builtin_expect(total_raw > S.cap, 0)) violationf("hang", "step cap %lu exceeded in op %d of T%d", (unsigned long)S.cap, t->op, t->id);
}
inline void point(Thr *t, bool shared) {
  t->st++; total_st++;
  if (shared) { t->ev++; total_ev++; }
  while (t->isw < t->nsw && t->ev >= t->sw[t->isw]->at && shared) {
    const Switch *s = t->sw[t->isw++]; int to = s->to;
    if (to < 0 || to >= MAXT || T[to].state != 1 || to == t->id) to = pick_next(t->id);
    if (to >= 0 && to != t->id) { if (t->lib) page->preempt_in_op++; switch_to(to); }
  }
  while (t->iswt < t->nswt && t->st >= t->swt[t->iswt]->at) {
    const Switch *s = t->swt[t->iswt++]; int to = s->to;
    if (to < 0 || to >= MAXT || T[to].state != 1 || to == t->id) to = pick_next(t->id);
    if (to >= 0 && to != t->id) { if (t->lib) page->preempt_in_op++; switch_to(to); }
  }
}

// a thread that only polls atomics gets nowhere until another one runs: let the next one run, whatever the schedule
void __attribute__((noinline)) spinning(Thr *t) {
  t->spin = 0; total_raw += 20000; hang_check(t);
  int n = pick_next(t->id); if (n >= 0 && n != t->id) switch_to(n);
}

// ---------- sync objects
struct Sync { uintptr_t a; uint32_t vc[MAXT]; int owner; int rec; int readers; int state; };
constexpr int NSYNC = 1 << 18;
Sync *syncs;
Sync &sync_of(uintptr_t a) {
  size_t h = (a * 0x9E3779B97F4A7C15ull) >> 46; int probes_ = 0;
  for (;;) {
    Sync &s = syncs[h & (NSYNC - 1)];
    if (s.a == a) return s;
    if (!s.a) { s.a = a; s.owner = -1; return s; }
    h++;
    if (++probes_ > NSYNC) violationf("harness", "sync table full");
  }
}
void acquire(Sync &s) { for (int i = 0; i < MAXT; i++) if (s.vc[i] > self->vc[i]) self->vc[i] = s.vc[i]; }
void release(Sync &s) { for (int i = 0; i < MAXT; i++) if (self->vc[i] > s.vc[i]) s.vc[i] = self->vc[i]; self->vc[self->id]++; }

inline Cell *cell_of(uintptr_t g) { // g: granule aligned address
  if (g - ARENA < ARENA_SZ) return (Cell *)RSH + ((g - ARENA) >> 3);
  return (Cell *)GSH + ((g - gbase) >> 3);
}
Block *btab() { return (Block *)BTAB; }
uint32_t nblk = 1; uintptr_t bump = ARENA + 64; uint64_t nlive, livebytes, seqno;
struct FL { uint32_t head, tail, n; };
FL fl[4096];
uint32_t *blkmap() { return (uint32_t *)BLK; }

const char *desc(uintptr_t a, char *b, size_t n) {
  if (a - ARENA < ARENA_SZ) {
    uint32_t id = blkmap()[(a - ARENA) >> 4];
    if (id) { Block &k = btab()[id]; snprintf(b, n, "heap block of %u bytes (allocated by T%d in op %d, %s) +%ld", k.size, k.tid, k.op, k.st == 1 ? "live" : "released", (long)(a - k.addr)); }
    else snprintf(b, n, "heap address %#lx outside any block", (unsigned long)a);
  } else snprintf(b, n, "global %#lx", (unsigned long)a);
  return b;
}
void __attribute__((noinline)) race(Thr *t, uintptr_t a, int size, bool w, int ot, bool ow, uint32_t opc, uintptr_t pc) {
  char b[200];
  violationf("race", "data race: %s of %d byte(s) by T%d (op %d, pc=%#lx) conflicts with %s by T%d (pc=%#x) on %s", w ? "write" : "read", size, t->id, t->op, (unsigned long)pc, ow ? "write" : "read", ot, opc, desc(a, b, sizeof b));
}
void __attribute__((noinline)) badaccess(Thr *t, uintptr_t a, size_t size, bool w, uint8_t sh, uintptr_t pc) {
  char b[200];
  const char *k = sh == 0xFD ? "use-after-release" : "heap-out-of-bounds";
  violationf(k, "%s of %zu byte(s) by T%d (op %d, pc=%#lx) on %s", w ? "write" : "read", size, t->id, t->op, (unsigned long)pc, desc(a, b, sizeof b));
}

template <bool W, bool A> inline void check_cell(Thr *t, uintptr_t g, uint8_t mask, uintptr_t a, int size, uintptr_t pc) {
  Cell *c = cell_of(g);
  int me = t->id;
  if (c->wclk && c->wtid != me && (c->wmask & mask) && c->wclk > t->vc[c->wtid] && !(A && c->watomic))
    race(t, a, size, W, c->wtid, true, c->wpc, pc);
  if (W) {
    for (int i = 0; i < MAXT; i++)
      if (i != me && c->rclk[i] && (c->rmask[i] & mask) && c->rclk[i] > t->vc[i] && !(A && (c->ratomic >> i & 1)))
        race(t, a, size, W, i, false, c->rpc, pc);
    uint8_t m = (c->wclk && c->wtid == me && c->wclk == t->vc[me]) ? c->wmask | mask : mask;
    if (c->wclk && c->wtid == me && !A && c->watomic) m = mask;
    c->wclk = t->vc[me]; c->wtid = me; c->wmask = m; c->watomic = A; c->wpc = (uint32_t)pc;
  } else {
    uint8_t m = (c->rclk[me] == t->vc[me]) ? c->rmask[me] | mask : mask;
    bool at = A && !((c->rclk[me] == t->vc[me]) && !(c->ratomic >> me & 1));
    c->rclk[me] = t->vc[me]; c->rmask[me] = m;
    if (at) c->ratomic |= 1 << me; else c->ratomic &= ~(1 << me);
    c->rpc = (uint32_t)pc;
  }
}

template <bool W, bool A> inline void access(uintptr_t a, size_t n, uintptr_t pc) {
  Thr *t = self;
  if (__builtin_expect(!t, 0)) return;
  if (t->quiet) return;
  total_raw++;
  hang_check(t);
  if (a - t->lo < STACK_SZ) { if (A) point(t, false); return; }
  bool heap = a - ARENA < ARENA_SZ;
  if (!heap && !(a >= gbase && a < gend)) { if (a < 4096) violationf("null-access", "%s through a null pointer (address %#lx) by T%d in op %d, pc=%#lx", W ? "write" : "read", (unsigned long)a, t->id, t->op, (unsigned long)pc); return; }
  bool shared = !heap || A || cell_of(a & ~7ull)->owner != t->id;
  if (heap) {
    // addressability before the switch point (own view)...
  }
  point(t, shared);
  if (A) { if (__builtin_expect(++t->spin > 2000, 0)) spinning(t); } else if (W) t->spin = 0;
  if (shared) mix((uint64_t)t->id << 56 ^ (uint64_t)W << 48 ^ a);
  uintptr_t e = a + n;
  for (uintptr_t g = a & ~7ull; g < e; g += 8) {
    int lo = g < a ? a - g : 0, hi = e - g < 8 ? e - g : 8;
    if (heap) {
      uint8_t sh = ((uint8_t *)ASH)[(g - ARENA) >> 3];
      if (__builtin_expect(sh != 8 && !(sh < 8 && hi <= sh), 0)) badaccess(t, a, n, W, sh, pc);
    } else if (g >= gend) break;
    if (S.race) check_cell<W, A>(t, g, (uint8_t)(((1u << (hi - lo)) - 1) << lo), a, (int)n, pc);
  }
}

// ---------- allocator
void set_ash(uintptr_t a, size_t n, uint8_t v) { // n rounded to granules
  memset((uint8_t *)ASH + ((a - ARENA) >> 3), v, (n + 7) >> 3);
}
} // namespace
bool (*fault_gate)() = nullptr;
namespace {
bool want_fault(Thr *t, size_t n) {
  if (!t || !t->lib || t->quiet) return false;
  bool f = false; int k = 0;
  for (auto &x : S.af) {
    if (x.op != -1 && x.op != t->op) continue;
    bool h = false;
    switch (x.kind) {
      case 0: h = t->allocs == x.nth; break;
      case 1: h = t->allocs >= x.nth; break;
      case 2: h = t->allocs >= x.nth && x.arg && (t->allocs - x.nth) % x.arg == 0; break;
      case 3: h = n >= x.arg && t->allocs >= x.nth; break;
      case 4: h = t->allocs >= x.nth && t->allocs < x.nth + x.arg; break;
      case 5: h = t->bytes + n > x.arg; break;
    }
    if (h) { f = true; k = x.kind; }
  }
  if (f && fault_gate && !fault_gate()) f = false;
  if (f) { page->faults[k]++; t->fired = true; }
  return f;
}
inline size_t cls(size_t rs) { size_t c = rs >> 4; return c < 4096 ? c : 0; }
void *sim_alloc(size_t n, int kind) {
  Thr *t = self;
  bool lib = t && t->lib && !t->quiet;
  if (lib) { total_raw += 4; hang_check(t); t->allocs++; if (want_fault(t, n)) return nullptr; t->bytes += n; }
  if (n > (64u << 20)) { // refuse absurd requests like a real allocator with little memory would
    if (lib) { page->faults[15]++; t->fired = true; } return nullptr; }
  size_t rs = ((n + 15) & ~15ull) + 16; // trailing redzone
  if (n == 0) rs = 32;
  uint32_t id = 0; size_t c = cls(rs);
  if (S.reuse && c && fl[c].n) {
    FL &f = fl[c];
    if (S.reuse == 1) { id = f.tail; }
    else if (S.reuse == 2) { if (f.n > 4) id = f.head; }
    else { uint64_t r = rnd(); if ((r & 3)) { uint64_t k = (r >> 8) % f.n; id = f.head; while (k--) id = btab()[id].next; } }
    if (id) { // unlink
      uint32_t p = 0, q = f.head; while (q != id) { p = q; q = btab()[q].next; }
      if (p) btab()[p].next = btab()[q].next; else f.head = btab()[q].next;
      if (f.tail == id) f.tail = p;
      f.n--;
    }
  }
  if (!id) {
    if (bump + rs > ARENA + ARENA_SZ) { if (t) violationf("runaway-memory", "simulated heap of %zu MB exhausted in op %d", ARENA_SZ >> 20, t->op); return nullptr; }
    id = nblk++; Block &b = btab()[id]; b.addr = bump; b.rsize = rs; bump += rs;
    for (size_t o = 0; o < rs; o += 16) blkmap()[(b.addr - ARENA + o) >> 4] = id;
  }
  Block &b = btab()[id];
  b.size = n; b.st = 1; b.kind = kind; b.lib = lib; b.tid = t ? t->id : 0; b.op = t ? t->op : -1; b.next = 0; b.seq = ++seqno;
  size_t full = n & ~7ull;
  if (full) set_ash(b.addr, full, 8);
  if (n & 7) ((uint8_t *)ASH)[(b.addr + full - ARENA) >> 3] = n & 7;
  size_t used = (n + 7) & ~7ull;
  if (rs > used) set_ash(b.addr + used, rs - used, 0xFA);
  Cell *c0 = (Cell *)RSH + ((b.addr - ARENA) >> 3);
  memset(c0, 0, sizeof(Cell) * (used >> 3));
  for (size_t i = 0; i < used >> 3; i++) c0[i].owner = t ? t->id : 0;
  memset((void *)b.addr, S.fill, rs);
  nlive++; livebytes += n; if (nlive > page->maxlive) page->maxlive = nlive;
  return (void *)b.addr;
}
void sim_free(void *p, int kind, size_t sz, uintptr_t pc) {
  uintptr_t a = (uintptr_t)p; Thr *t = self;
  uint32_t id = blkmap()[(a - ARENA) >> 4];
  char d[200];
  if (!id || btab()[id].addr != a) violationf("bad-release", "release of %s which is not the start of a block (op %d)", desc(a, d, sizeof d), t ? t->op : -1);
  Block &b = btab()[id];
  if (b.st != 1) violationf("double-release", "second release of %s (op %d)", desc(a, d, sizeof d), t ? t->op : -1);
  if (b.kind != kind) violationf("bad-release", "%s released with the wrong form of delete (op %d)", desc(a, d, sizeof d), t ? t->op : -1);
  if (sz != (size_t)-1 && sz != b.size) violationf("bad-release", "%s released as an object of %zu bytes (op %d)", desc(a, d, sizeof d), sz, t ? t->op : -1);
  if (t && !t->quiet && S.race) { // a release conflicts with every unordered access
    total_raw += 4; point(t, ((Cell *)RSH + ((a - ARENA) >> 3))->owner != t->id);
    if (b.st != 1) violationf("double-release", "second release of %s (op %d)", desc(a, d, sizeof d), t->op);
    size_t used = (b.size + 7) & ~7ull;
    for (size_t o = 0; o < used; o += 8) check_cell<true, false>(t, a + o, 0xFF, a + o, 8, pc);
  }
  b.st = 2; nlive--; livebytes -= b.size;
  size_t used = (b.size + 7) & ~7ull; if (used) set_ash(a, used, 0xFD);
  memset(p, 0xDD, b.size);
  b.next = 0; size_t c = cls(b.rsize);
  if (c) { FL &f = fl[c]; if (f.tail) btab()[f.tail].next = id; else f.head = id; f.tail = id; f.n++; }
}
} // namespace

// ---------- public
Page *new_page(size_t cap) {
  Page *p = (Page *)mmap(nullptr, sizeof(Page) + cap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
  p->cap = cap; return p;
}
void reset_page(Page *p) { size_t c = p->cap; memset((void *)p, 0, sizeof(Page)); p->cap = c; p->curop = -1; }

static void on_sig(int sig, siginfo_t *si, void *) {
  uintptr_t a = (uintptr_t)si->si_addr; Thr *t = self;
  if (sig == SIGABRT) violationf("abort", "SIGABRT in op %d of T%d", t ? t->op : -1, t ? t->id : -1);
  if (t && a + 65536 >= t->lo - 4096 && a < t->lo) violationf("stack-overflow", "stack exhausted in op %d of T%d", t->op, t->id);
  violationf(sig == SIGFPE ? "sigfpe" : sig == SIGILL ? "sigill" : "segv", "signal %d at address %#lx in op %d of T%d", sig, (unsigned long)a, t ? t->op : -1, t ? t->id : -1);
}
static void on_terminate() {
  Thr *t = self;
  const char *what = "no exception"; 
  std::type_info *ti = abi::__cxa_current_exception_type();
  if (ti) what = ti->name();
  violationf("terminate", "std::terminate called in op %d of T%d (%s)%s", t ? t->op : -1, t ? t->id : -1, what, t && t->fired ? " after an injected allocation failure" : "");
}
static void *fixed(uintptr_t a, size_t n) {
  void *p = mmap((void *)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void *)a) { fprintf(stderr, "simulator: cannot map %#lx\n", (unsigned long)a); _exit(3); }
  return p;
}
static void *tmain(void *v) {
  Thr *t = (Thr *)v;
  stack_t ss{}; ss.ss_size = 65536; ss.ss_sp = (void *)(t->hi + 65536); sigaltstack(&ss, nullptr);
  fwait(t->go);
  self = t;
  if (t->pfn) t->pret = t->pfn(t->arg); else t->fn(t->arg);
  while (t->ndt > 0) { auto d = t->dt[--t->ndt]; d.f(d.o); } // thread_local objects die while the thread is still scheduled
  // end of thread
  t->state = 3;
  { Sync &s = sync_of(0x1000 + t->id); release(s); }
  wake_all(0x1000 + t->id); wake_all(0x2000);
  int n = pick_next(t->id);
  if (n < 0) {
    bool blocked = false; for (auto &x : T) if (x.state == 2) blocked = true;
    if (blocked) violationf("deadlock", "T%d ended and every other thread is blocked", t->id);
    self = nullptr; return nullptr;
  }
  self = nullptr; cur = n; mix(0xEEEE00 + n);
  fwake(T[n].go);
  return nullptr;
}
static int make_thread(void (*fn)(void *), void *(*pfn)(void *), void *arg) {
  int id = NT++;
  if (id >= MAXT) violation("too-many-threads", "more threads than the simulator supports");
  Thr &t = T[id]; t.id = id; t.fn = fn; t.pfn = pfn; t.arg = arg; t.go = 0; t.state = 1; t.op = -1;
  t.lo = STACKS + id * (STACK_SZ + (1 << 20)) + (64 << 10); t.hi = t.lo + STACK_SZ - (128 << 10);
  for (auto &s : S.sw) if (s.tid == id) { if (s.mode == 0 && t.nsw < 256) t.sw[t.nsw++] = &s; if (s.mode == 1 && t.nswt < 256) t.swt[t.nswt++] = &s; }
  auto srt = [](const Switch **a, int n) { for (int i = 1; i < n; i++) for (int j = i; j > 0 && a[j - 1]->at > a[j]->at; j--) std::swap(a[j - 1], a[j]); };
  srt(t.sw, t.nsw); srt(t.swt, t.nswt);
  memset(t.vc, 0, sizeof t.vc);
  if (self) { memcpy(t.vc, self->vc, sizeof t.vc); self->vc[self->id]++; }
  t.vc[id]++;
  pthread_attr_t at; pthread_attr_init(&at);
  pthread_attr_setstack(&at, (void *)t.lo, STACK_SZ - (128 << 10));
  int e = __real_pthread_create(&t.th, &at, tmain, &t);
  if (e) { fprintf(stderr, "simulator: pthread_create: %s\n", strerror(e)); _exit(3); }
  return id;
}
void start(const Sched &s, void (*prog)(void *), void *arg) {
  S = s; rngs = s.seed; trace_h = 1469598103934665603ull;
  gbase = (uintptr_t)&__data_start & ~7ull; gend = (uintptr_t)&_end;
  fixed(ARENA, ARENA_SZ); fixed(RSH, ARENA_SZ * 8); fixed(GSH, ((gend - gbase) / 8 + 8) * sizeof(Cell)); fixed(ASH, ARENA_SZ / 8);
  fixed(BLK, ARENA_SZ / 4); fixed(BTAB, sizeof(Block) * (ARENA_SZ / 32));
  fixed(STACKS, MAXT * (STACK_SZ + (1 << 20)));
  for (int i = 0; i < MAXT; i++) mprotect((void *)(STACKS + i * (STACK_SZ + (1 << 20))), 64 << 10, PROT_NONE);
  memset((void *)ASH, 0xFF, 1); // the rest: 0 == unaddressable as well
  syncs = (Sync *)fixed(0x270000000000ull, sizeof(Sync) * NSYNC);
  bump += (s.skew & ~15);
  struct sigaction sa{}; sa.sa_sigaction = on_sig; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  for (int g : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(g, &sa, nullptr);
  std::set_terminate(on_terminate);
  on = true;
  make_thread(prog, nullptr, arg);
  cur = 0; fwake(T[0].go);
  __real_pthread_join(T[0].th, nullptr);
  on = false;
  finish_counts();
  page->done = 1;
}
int spawn(void (*fn)(void *), void *arg) { return make_thread(fn, nullptr, arg); }
void join_all() {
  Thr *t = self; bool first = true;
  for (;;) {
    bool any = false;
    for (int i = 1; i < NT; i++) if (T[i].state != 3) any = true;
    if (!any) break;
    if (first) { first = false; int f = S.first; if (f > 0 && f < NT && T[f].state == 1) { t->state = 2; t->waitobj = 0x2000; switch_to(f); continue; } }
    block_on(0x2000);
  }
  for (int i = 1; i < NT; i++) acquire(sync_of(0x1000 + i));
}
int tid() { return self ? self->id : -1; }
bool active() { return self != nullptr; }
void yield_point() { if (self && !self->quiet) { total_raw++; hang_check(self); point(self, true); } }
void out(const void *p, size_t n) { if (page->used + n > page->cap) violation("output-overflow", "run produced too much output"); memcpy(page->buf + page->used, p, n); page->used += n; }
void out_str(const std::string &s) { uint32_t n = s.size(); out(&n, 4); out(s.data(), n); }
Quiet::Quiet() { if (self) self->quiet++; }
Quiet::~Quiet() { if (self) self->quiet--; }
Lib::Lib(int u) { Thr *t = self; saved = 0; if (t) { if (!t->lib) { t->op = u; t->allocs = t->bytes = 0; t->fired = false; } t->lib++; saved = t->quiet; t->quiet = 0; } }
Lib::~Lib() { if (self) { self->lib--; self->quiet = saved; } }
bool fault_fired() { return self && self->fired; }
uint64_t lib_allocs() { return self ? self->allocs : 0; }
void count_fault(int k) { page->faults[k]++; if (self) self->fired = true; }
void probe(int i) { page->probes[i & 15]++; }
OpStat opstat() { return OpStat{self->ev, self->st, self->allocs, self->bytes, total_raw}; }
uint64_t live_blocks() { return nlive; }
uint64_t live_bytes() { return livebytes; }
void set_race(bool b) { S.race = b; }
Mark mark() { Mark m{0, 0}; for (uint32_t i = 1; i < nblk; i++) if (btab()[i].st == 1 && btab()[i].lib) { m.blocks++; m.bytes += btab()[i].size; } return m; }
std::string growth(const std::function<void()> &rep) {
  Mark m[17]; int n = 1;
  auto to = [&](int k) { while (n < k) { rep(); Quiet q; m[++n] = mark(); } };
  to(4);
  if (m[4].blocks > m[3].blocks && m[3].blocks > m[2].blocks) return "repeating the same history keeps " + std::to_string(m[4].blocks - m[3].blocks) + " more blocks (" + std::to_string(m[4].bytes - m[3].bytes) + " bytes) each time";
  if (m[4].bytes <= m[2].bytes) return "";
  to(8); if (m[8].bytes <= m[4].bytes) return "";
  to(16); if (m[16].bytes <= m[8].bytes) return "";
  return "repeating the same history keeps ever more memory: " + std::to_string(m[2].bytes) + " bytes after 2 runs, " + std::to_string(m[4].bytes) + " after 4, " + std::to_string(m[8].bytes) + " after 8, " + std::to_string(m[16].bytes) + " after 16";
}
std::string leaks() {
  // conservative reachability from globals, the TLS of live threads and harness-owned blocks
  Quiet q;
  const uint32_t n0 = nblk;
  uint32_t *work = (uint32_t *)malloc(n0 * 4); char *seen = (char *)calloc(n0, 1); size_t nw = 0;
  auto scan = [&](uintptr_t lo, uintptr_t hi) {
    for (uintptr_t p = (lo + 7) & ~7ull; p + 8 <= hi; p += 8) {
      uintptr_t v = *(uintptr_t *)p;
      if (v - ARENA < ARENA_SZ) { uint32_t id = blkmap()[(v - ARENA) >> 4]; if (id && id < n0 && btab()[id].st == 1 && !seen[id]) { seen[id] = 1; work[nw++] = id; } }
    }
  };
  scan(gbase, gend);
  for (auto &t : T) if (t.state == 1 || t.state == 2) scan(t.hi - 8192, t.hi); // TLS area at the top of the stack
  for (uint32_t i = 1; i < n0; i++) if (btab()[i].st == 1 && !btab()[i].lib && !seen[i]) { seen[i] = 1; work[nw++] = i; }
  while (nw) { uint32_t id = work[--nw]; Block &b = btab()[id]; scan(b.addr, b.addr + b.size); }
  static char r[800]; int o = 0, k = 0; r[0] = 0;
  for (uint32_t i = 1; i < n0; i++) { Block &b = btab()[i]; if (b.st == 1 && b.lib && !seen[i]) { if (k++ < 5) o += snprintf(r + o, sizeof r - o, "block of %u bytes from op %d (T%d); ", b.size, b.op, b.tid); } }
  if (k > 5) snprintf(r + o, sizeof r - o, "and %d more", k - 5);
  free(work); free(seen);
  return r;
}
} // namespace sim

using namespace sim;
// ---------- C++ allocation functions
static inline void *do_new(size_t n, int kind, bool nothrow) {
  void *p;
  if (!self) { p = malloc(n ? n : 1); }
  else p = sim_alloc(n, kind);
  if (!p && !nothrow) throw std::bad_alloc();
  return p;
}
static inline void do_del(void *p, int kind, size_t sz, uintptr_t pc) {
  if (!p) return;
  if ((uintptr_t)p - ARENA < ARENA_SZ) sim_free(p, kind, sz, pc); else free(p);
}
#define PC ((uintptr_t)__builtin_return_address(0))
void *operator new(size_t n) { return do_new(n, 1, false); }
void *operator new[](size_t n) { return do_new(n, 2, false); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return do_new(n, 1, true); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return do_new(n, 2, true); }
void operator delete(void *p) noexcept { do_del(p, 1, -1, PC); }
void operator delete[](void *p) noexcept { do_del(p, 2, -1, PC); }
void operator delete(void *p, size_t n) noexcept { do_del(p, 1, n, PC); }
void operator delete[](void *p, size_t n) noexcept { do_del(p, 2, n, PC); }
void operator delete(void *p, const std::nothrow_t &) noexcept { do_del(p, 1, -1, PC); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { do_del(p, 2, -1, PC); }
// 16-byte alignment is provided; larger alignments are served by over-aligned arena blocks only up to 16
void *operator new(size_t n, std::align_val_t) { return do_new(n, 1, false); }
void operator delete(void *p, std::align_val_t) noexcept { do_del(p, 1, -1, PC); }
void operator delete(void *p, size_t n, std::align_val_t) noexcept { do_del(p, 1, n, PC); }

// ---------- instrumentation entry points
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) \
  void __tsan_read##n(void *a) { access<false, false>((uintptr_t)a, n, PC); } \
  void __tsan_write##n(void *a) { access<true, false>((uintptr_t)a, n, PC); } \
  void __tsan_unaligned_read##n(void *a) { access<false, false>((uintptr_t)a, n, PC); } \
  void __tsan_unaligned_write##n(void *a) { access<true, false>((uintptr_t)a, n, PC); } \
  void __tsan_volatile_read##n(void *a) { access<false, false>((uintptr_t)a, n, PC); } \
  void __tsan_volatile_write##n(void *a) { access<true, false>((uintptr_t)a, n, PC); } \
  void __tsan_read_write##n(void *a) { access<true, false>((uintptr_t)a, n, PC); } \
  void __tsan_unaligned_read_write##n(void *a) { access<true, false>((uintptr_t)a, n, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n) { if (n) access<false, false>((uintptr_t)a, n, PC); }
void __tsan_write_range(void *a, size_t n) { if (n) access<true, false>((uintptr_t)a, n, PC); }
void __tsan_vptr_read(void **a) { access<false, false>((uintptr_t)a, 8, PC); }
void __tsan_vptr_update(void **a, void *v) { if (*a == v) access<false, false>((uintptr_t)a, 8, PC); else access<true, false>((uintptr_t)a, 8, PC); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { if (n) { access<false, false>((uintptr_t)s, n, PC); access<true, false>((uintptr_t)d, n, PC); } return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { if (n) { access<false, false>((uintptr_t)s, n, PC); access<true, false>((uintptr_t)d, n, PC); } return memmove(d, s, n); }
void *__tsan_memset(void *d, int v, size_t n) { if (n) access<true, false>((uintptr_t)d, n, PC); return memset(d, v, n); }

static inline bool simon() { return self && !self->quiet; }
static inline void pre_atomic(uintptr_t a, int size, bool w, uintptr_t pc) {
  if (w) access<true, true>(a, size, pc); else access<false, true>(a, size, pc);
}
static inline bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
#define HB(a, mo) do { if (simon()) { Sync &s_ = sync_of((uintptr_t)(a)); if (acq(mo)) acquire(s_); if (rel(mo)) release(s_); } } while (0)
#define ATOM(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T *a, int mo) { pre_atomic((uintptr_t)a, bits / 8, false, PC); T v = __atomic_load_n(a, __ATOMIC_SEQ_CST); if (simon() && acq(mo)) acquire(sync_of((uintptr_t)a)); return v; } \
  void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) { pre_atomic((uintptr_t)a, bits / 8, true, PC); if (simon() && rel(mo)) release(sync_of((uintptr_t)a)); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo) { pre_atomic((uintptr_t)a, bits / 8, true, PC); HB(a, mo); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int mo) { pre_atomic((uintptr_t)a, bits / 8, true, PC); HB(a, mo); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int mo) { pre_atomic((uintptr_t)a, bits / 8, true, PC); HB(a, mo); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int mo) { pre_atomic((uintptr_t)a, bits / 8, true, PC); HB(a, mo); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int mo) { pre_atomic((uintptr_t)a, bits / 8, true, PC); HB(a, mo); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int mo) { pre_atomic((uintptr_t)a, bits / 8, true, PC); HB(a, mo); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int mo) { pre_atomic((uintptr_t)a, bits / 8, true, PC); HB(a, mo); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) { pre_atomic((uintptr_t)a, bits / 8, true, PC); (void)fmo; int r = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); if (r) HB(a, mo); else if (simon() && acq(fmo)) acquire(sync_of((uintptr_t)a)); return r; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) { pre_atomic((uintptr_t)a, bits / 8, true, PC); int r = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); if (r) HB(a, mo); else if (simon() && acq(fmo)) acquire(sync_of((uintptr_t)a)); return r; } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) { pre_atomic((uintptr_t)a, bits / 8, true, PC); int r = __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); if (r) HB(a, mo); else if (simon() && acq(fmo)) acquire(sync_of((uintptr_t)a)); return c; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { if (simon()) { point(self, true); Sync &s = sync_of(0x3000); acquire(s); release(s); } __atomic_thread_fence(__ATOMIC_SEQ_CST); (void)mo; }
void __tsan_atomic_signal_fence(int) {}

// ---------- function-local statics
// Guard states live in the sync table: state 0 none, 1 in progress, 2 done
int sim_guard_acquire(uint64_t *g) __asm__("__cxa_guard_acquire");
void sim_guard_release(uint64_t *g) __asm__("__cxa_guard_release");
void sim_guard_abort(uint64_t *g) __asm__("__cxa_guard_abort");
int sim_guard_acquire(uint64_t *g) {
  char *b = (char *)g;
  if (!self) { if (*b) return 0; return 1; }
  if (*(volatile char *)b) { acquire(sync_of((uintptr_t)g)); return 0; }
  if (!self->quiet) { total_raw++; point(self, true); }
  for (;;) {
    Sync &s = sync_of((uintptr_t)g);
    if (*(volatile char *)b) { acquire(s); return 0; }
    if (s.state == 0) { s.state = 1; s.owner = self->id; return 1; }
    if (s.owner == self->id) violationf("recursive-init", "recursive initialisation of a function-local static (op %d)", self->op);
    if (self->quiet) violationf("harness", "static initialisation contention inside harness code");
    page->probes[15]++;
    block_on((uintptr_t)g);
  }
}
void sim_guard_release(uint64_t *g) {
  char *b = (char *)g;
  if (self) { Sync &s = sync_of((uintptr_t)g); release(s); s.state = 2; }
  *(volatile char *)b = 1;
  if (self) { wake_all((uintptr_t)g); if (!self->quiet) point(self, true); }
}
void sim_guard_abort(uint64_t *g) {
  if (self) { Sync &s = sync_of((uintptr_t)g); s.state = 0; s.owner = -1; release(s); wake_all((uintptr_t)g); }
}

// ---------- virtual locks
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
  if (!simon()) return __real_pthread_mutex_lock(m);
  total_raw++; point(self, true); hang_check(self);
  for (;;) {
    Sync &s = sync_of((uintptr_t)m);
    if (s.owner < 0) { s.owner = self->id; s.rec = 1; acquire(s); return 0; }
    if (s.owner == self->id) {
      if (m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP) { s.rec++; return 0; }
      violationf("deadlock", "T%d locks a mutex it already holds (op %d)", self->id, self->op);
    }
    block_on((uintptr_t)m);
  }
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
  if (!simon()) return __real_pthread_mutex_trylock(m);
  total_raw++; point(self, true); hang_check(self);
  Sync &s = sync_of((uintptr_t)m);
  if (s.owner < 0) { s.owner = self->id; s.rec = 1; acquire(s); return 0; }
  if (s.owner == self->id && m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP) { s.rec++; return 0; }
  return EBUSY;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!simon()) return __real_pthread_mutex_unlock(m);
  Sync &s = sync_of((uintptr_t)m);
  if (s.owner != self->id) return __real_pthread_mutex_unlock(m);
  if (--s.rec > 0) return 0;
  s.owner = -1; release(s); wake_all((uintptr_t)m);
  total_raw++; point(self, true);
  return 0;
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m) {
  if (!simon()) return 0;
  total_raw++; point(self, true); hang_check(self);
  for (;;) { Sync &s = sync_of((uintptr_t)m); if (s.owner < 0) { s.readers++; acquire(s); return 0; } block_on((uintptr_t)m); }
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m) {
  if (!simon()) return 0;
  total_raw++; point(self, true); hang_check(self);
  for (;;) { Sync &s = sync_of((uintptr_t)m); if (s.owner < 0 && !s.readers) { s.owner = self->id; acquire(s); return 0; } block_on((uintptr_t)m); }
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *m) {
  if (!simon()) return 0;
  Sync &s = sync_of((uintptr_t)m); if (s.owner == self->id) s.owner = -1; else if (s.readers) s.readers--;
  release(s); wake_all((uintptr_t)m); total_raw++; point(self, true); return 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  if (!simon()) return 0;
  Sync &s = sync_of((uintptr_t)m); s.owner = -1; s.rec = 0; release(s); wake_all((uintptr_t)m);
  block_on((uintptr_t)c);
  for (;;) { Sync &q = sync_of((uintptr_t)m); if (q.owner < 0) { q.owner = self->id; q.rec = 1; acquire(q); return 0; } block_on((uintptr_t)m); }
}
int __wrap_clock_gettime(clockid_t, struct timespec *);
static int timed_wait(pthread_mutex_t *m, const struct timespec *until) {
  Sync &s = sync_of((uintptr_t)m); s.owner = -1; s.rec = 0; release(s); wake_all((uintptr_t)m);
  total_raw += 50; hang_check(self); point(self, true);
  int n = pick_next(self->id); if (n >= 0 && n != self->id) switch_to(n); else total_raw += 1000;
  for (;;) { Sync &q = sync_of((uintptr_t)m); if (q.owner < 0) { q.owner = self->id; q.rec = 1; acquire(q); break; } block_on((uintptr_t)m); }
  struct timespec now; __wrap_clock_gettime(CLOCK_REALTIME, &now);
  return now.tv_sec > until->tv_sec || (now.tv_sec == until->tv_sec && now.tv_nsec >= until->tv_nsec) ? ETIMEDOUT : 0;
}
int __wrap_pthread_cond_timedwait(pthread_cond_t *, pthread_mutex_t *m, const struct timespec *t) { return simon() ? timed_wait(m, t) : 0; }
int __wrap_pthread_cond_clockwait(pthread_cond_t *, pthread_mutex_t *m, clockid_t, const struct timespec *t) { return simon() ? timed_wait(m, t) : 0; }
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t *m) {
  if (!simon()) return 0;
  total_raw++; point(self, true); Sync &s = sync_of((uintptr_t)m); if (s.owner >= 0) return EBUSY;
  s.readers++; acquire(s); return 0;
}
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t *m) {
  if (!simon()) return 0;
  total_raw++; point(self, true); Sync &s = sync_of((uintptr_t)m); if (s.owner >= 0 || s.readers) return EBUSY;
  s.owner = self->id; acquire(s); return 0;
}
int __wrap_pthread_cond_signal(pthread_cond_t *c) { if (simon()) { for (auto &t : T) if (t.state == 2 && t.waitobj == (uintptr_t)c) { t.state = 1; break; } point(self, true); } return 0; }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { if (simon()) { wake_all((uintptr_t)c); point(self, true); } return 0; }
int __wrap_pthread_once(pthread_once_t *o, void (*f)()) {
  if (!simon()) return __real_pthread_once(o, f);
  total_raw++; point(self, true);
  for (;;) {
    Sync &s = sync_of((uintptr_t)o);
    if (s.state == 2 || *(volatile int *)o == 2) { acquire(s); return 0; }
    if (s.state == 0) {
      s.state = 1; s.owner = self->id;
      struct G { pthread_once_t *o; bool ok; ~G() { Sync &s = sync_of((uintptr_t)o); s.state = ok ? 2 : 0; if (ok) *(volatile int *)o = 2; release(s); wake_all((uintptr_t)o); } } g{o, false};
      f(); g.ok = true; return 0;
    }
    if (s.owner == self->id) violationf("deadlock", "recursive call_once");
    block_on((uintptr_t)o);
  }
}
int __real___cxa_thread_atexit(void (*)(void *), void *, void *);
int __wrap___cxa_thread_atexit(void (*f)(void *), void *o, void *dso) {
  Thr *t = self; if (!t || t->ndt >= 64) return __real___cxa_thread_atexit(f, o, dso);
  t->dt[t->ndt].f = f; t->dt[t->ndt++].o = o; return 0;
}
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg) {
  if (!simon()) return __real_pthread_create(t, a, f, arg);
  int id = make_thread(nullptr, f, arg); *t = (pthread_t)(0x51300 + id); T[id].op = self->op; T[id].lib = self->lib;
  total_raw++; point(self, true); return 0;
}
int __wrap_pthread_join(pthread_t t, void **r) {
  if (!simon() || (t >> 8) != 0x513) return __real_pthread_join(t, r);
  int id = t & 0xff; while (T[id].state != 3) block_on(0x1000 + id);
  acquire(sync_of(0x1000 + id)); if (r) *r = T[id].pret; return 0;
}
int __wrap_sched_yield() {
  if (!simon()) return __real_sched_yield();
  total_raw += 50; hang_check(self); point(self, true);
  int n = pick_next(self->id); if (n >= 0 && n != self->id) switch_to(n); return 0;
}
int __wrap_nanosleep(const struct timespec *, struct timespec *) { return __wrap_sched_yield(), 0; }
int __wrap_clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *) { return __wrap_sched_yield(), 0; }
int __wrap_usleep(unsigned) { return __wrap_sched_yield(), 0; }
int __real_clock_gettime(clockid_t, struct timespec *);
int __wrap_clock_gettime(clockid_t c, struct timespec *ts) {
  if (!simon()) return __real_clock_gettime(c, ts);
  ts->tv_sec = 1000000 + total_raw / 1000000; ts->tv_nsec = total_raw % 1000000 * 1000; return 0; // simulated clock: 1 us per step
}

// ---------- simulated C numeric locale (LC_NUMERIC): '.' normally, changed by the environment thread
char sim_decimal = '.';
unsigned long sim_locale_reads = 0;
int __real_vsnprintf(char *, size_t, const char *, va_list);
static void patch(char *s, const char *fmt) {
  if (sim_decimal == '.') return;
  bool fl = false;
  for (const char *p = fmt; *p; p++) if (*p == '%') { for (p++; *p && !strchr("diouxXcsSpneEfFgGaAm%", *p); p++) {} if (!*p) break; if (strchr("eEfFgGaA", *p)) fl = true; }
  if (fl) for (; *s; s++) if (*s == '.') *s = sim_decimal;
}
int __wrap_vsnprintf(char *s, size_t n, const char *f, va_list ap) {
  if (self && !self->quiet) { total_raw++; point(self, true); }
  int r = __real_vsnprintf(s, n, f, ap);
  if (self && !self->quiet && s && n && uselocale((locale_t)0) == LC_GLOBAL_LOCALE) { sim_locale_reads++; patch(s, f); }
  return r;
}
int __wrap_snprintf(char *s, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = __wrap_vsnprintf(s, n, f, ap); va_end(ap); return r; }
int __wrap_sprintf(char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = __wrap_vsnprintf(s, 1 << 20, f, ap); va_end(ap); return r; }
double __real_strtod(const char *, char **); float __real_strtof(const char *, char **); long double __real_strtold(const char *, char **);
}
template <class R> static R locale_strto(const char *s, char **e, R (*real)(const char *, char **)) {
  if (!self || self->quiet) return real(s, e);
  total_raw++; point(self, true); sim_locale_reads++;
  if (sim_decimal == '.' || uselocale((locale_t)0) != LC_GLOBAL_LOCALE) return real(s, e);
  char b[512]; size_t n = strlen(s); if (n >= sizeof b) n = sizeof b - 1; memcpy(b, s, n); b[n] = 0;
  for (size_t i = 0; i < n; i++) { if (b[i] == '.') b[i] = '\1'; else if (b[i] == sim_decimal) b[i] = '.'; }
  char *q; R v = real(b, &q); if (e) *e = (char *)s + (q - b); return v;
}
extern "C" {
double __wrap_strtod(const char *s, char **e) { return locale_strto<double>(s, e, __real_strtod); }
float __wrap_strtof(const char *s, char **e) { return locale_strto<float>(s, e, __real_strtof); }
long double __wrap_strtold(const char *s, char **e) { return locale_strto<long double>(s, e, __real_strtold); }
double __wrap_atof(const char *s) { return __wrap_strtod(s, nullptr); }
}
// ---------- simulated C character classes (LC_CTYPE): ASCII normally, ISO 8859-1 while a Latin-1 locale is set
bool sim_latin1 = false;
template <class R> static R ctype(int c, R real, int kind) { // 0 alpha 1 alnum 2 space 3 punct 4 print 5 upper 6 lower
  if (!self || self->quiet || c == EOF) return real;
  if (sim_latin1) sim_locale_reads++;
  int u = c < 0 ? c + 256 : c; if (!sim_latin1 || u < 0xA0 || u > 0xFF) return real;
  bool upper = u >= 0xC0 && u <= 0xDE && u != 0xD7, lower = (u >= 0xDF && u != 0xF7) || u == 0xB5, alpha = upper || lower || u == 0xAA || u == 0xBA;
  switch (kind) { case 0: case 1: return alpha; case 2: return u == 0xA0; case 3: return !alpha && u != 0xA0; case 4: return true; case 5: return upper; default: return lower; }
}
extern "C" {
#define CT(n, k) int __real_##n(int); int __wrap_##n(int c) { return ctype(c, __real_##n(c), k); }
CT(isalpha, 0) CT(isalnum, 1) CT(isspace, 2) CT(ispunct, 3) CT(isprint, 4) CT(isupper, 5) CT(islower, 6)
int __real_toupper(int), __real_tolower(int);
int __wrap_toupper(int c) { return self && !self->quiet && sim_latin1 && c >= 0xE0 && c <= 0xFE && c != 0xF7 ? c - 32 : __real_toupper(c); }
int __wrap_tolower(int c) { return self && !self->quiet && sim_latin1 && c >= 0xC0 && c <= 0xDE && c != 0xD7 ? c + 32 : __real_tolower(c); }
}
// changes of the ambient locale by the library itself
extern "C" {
char *__real_setlocale(int, const char *);
char *__wrap_setlocale(int c, const char *l) { if (l && self && !self->quiet && self->lib) violationf("ambient-locale-changed", "setlocale(%d, \"%s\") called by the library in op %d of T%d", c, l, self->op, self->id); return __real_setlocale(c, l); }
}
extern "C" void *__real__ZNSt6locale6globalERKS_(void *ret, const void *loc);
extern "C" void *__wrap__ZNSt6locale6globalERKS_(void *ret, const void *loc) { // std::locale std::locale::global(const std::locale&)
  if (self && !self->quiet && self->lib) violationf("ambient-locale-changed", "std::locale::global called by the library in op %d of T%d", self->op, self->id);
  return __real__ZNSt6locale6globalERKS_(ret, loc);
}

// ---------- simulated file
#include <sys/stat.h>
namespace sim { SimFile *file; SimFile *thread_file[MAXT]; }
static SimFile *curfile() { return self && sim::thread_file[self->id] ? sim::thread_file[self->id] : sim::file; }
static bool simfile() { return self && curfile(); }
static char fake_file[256];
constexpr int FAKE_FD = 0x51f;
extern "C" {
FILE *__real_fopen64(const char *, const char *); int __real_fclose(FILE *); int __real_fileno(FILE *); ssize_t __real_read(int, void *, size_t); off64_t __real_lseek64(int, off64_t, int); int __real_fstat64(int, struct stat64 *); int __real_fflush(FILE *); int __real_setvbuf(FILE *, char *, int, size_t);
static void file_fault(int k) { curfile()->fired = true; page->faults[curfile()->fault_base + k]++; }
FILE *__wrap_fopen64(const char *n, const char *m) {
  if (!simfile()) return __real_fopen64(n, m);
  total_raw++; auto &f = *curfile(); f.opens++;
  if (f.open_errno) { file_fault(0); errno = f.open_errno; return nullptr; }
  f.pos = 0; return (FILE *)fake_file;
}
FILE *__real_fopen(const char *, const char *);
FILE *__wrap_fopen(const char *n, const char *m) { return simfile() ? __wrap_fopen64(n, m) : __real_fopen(n, m); }
int __wrap_fclose(FILE *f) { if (f != (FILE *)fake_file) return __real_fclose(f); curfile()->closes++; return 0; }
int __wrap_fileno(FILE *f) { return f == (FILE *)fake_file ? FAKE_FD : __real_fileno(f); }
int __wrap_fflush(FILE *f) { return f == (FILE *)fake_file ? 0 : __real_fflush(f); }
int __wrap_setvbuf(FILE *f, char *b, int m, size_t n) { return f == (FILE *)fake_file ? 0 : __real_setvbuf(f, b, m, n); }
ssize_t __wrap_read(int fd, void *b, size_t n) {
  if (fd != FAKE_FD) return __real_read(fd, b, n);
  auto &f = *curfile(); f.reads++; total_raw++;
  if (f.eio_at && f.reads == f.eio_at) { file_fault(1); errno = f.eio; return -1; }
  if (f.eintr_n > 0 && f.reads >= f.eintr_at) { f.eintr_n--; file_fault(2); errno = EINTR; return -1; }
  if (f.change_at && f.reads >= f.change_at && f.change_at > 0) { f.data = f.later; f.change_at = -1; file_fault(3); }
  long end = f.data.size(); if (f.stop_at >= 0 && f.stop_at < end) { end = f.stop_at; file_fault(4); }
  long left = end - f.pos; if (left < 0) left = 0;
  long k = (long)n; if (f.chunk < k) k = f.chunk; if (k < left) file_fault(5); if (left < k) k = left;
  memcpy(b, f.data.data() + f.pos, k); f.pos += k; f.delivered.append((char *)b, k); return k;
}
off64_t __wrap_lseek64(int fd, off64_t o, int w) {
  if (fd != FAKE_FD) return __real_lseek64(fd, o, w);
  auto &f = *curfile(); total_raw++;
  if ((w == SEEK_END && (f.seek_fail & 1)) || (w == SEEK_SET && (f.seek_fail & 2)) || (w == SEEK_CUR && (f.seek_fail & 4))) { file_fault(6); errno = ESPIPE; return -1; }
  if (w == SEEK_END && f.size_lie >= 0) { file_fault(7); f.pos = f.size_lie + o; return f.pos; }
  long base = w == SEEK_SET ? 0 : w == SEEK_CUR ? f.pos : (long)f.data.size();
  f.pos = base + o; if (w != SEEK_CUR || o) f.delivered.clear(); return f.pos;
}
int __wrap_fstat64(int fd, struct stat64 *st) {
  if (fd != FAKE_FD) return __real_fstat64(fd, st);
  memset(st, 0, sizeof *st); st->st_mode = S_IFREG | 0644; st->st_size = curfile()->size_lie >= 0 ? curfile()->size_lie : (long)curfile()->data.size(); return 0;
}
}
