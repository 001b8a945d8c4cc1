// Deterministic simulation runtime: public interface.
//
// Library code under test is compiled with -fsanitize=thread and linked against OUR implementation of the
// __tsan_* entry points (rt.cpp), so every memory access, atomic operation and lock of that code calls into the
// simulator.  Threads are real pthreads but exactly one runs at a time; the only place where the running thread
// changes is switch_to(), and which switches happen is data (Sched::sw).  operator new/delete are replaced by an
// arena at a fixed address whose reuse policy, fill pattern and failures are data too.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <functional>
#include <vector>

namespace sim {

constexpr int MAXT = 8;

struct Switch { int tid; int mode; uint64_t at; int to; };          // mode 0: at-th shared event, 1: at-th step
// Allocation fault: applies to library allocations of op `op` (op uid; -1: any op)
// kind 0: the nth only; 1: nth and all later ones of that op; 2: every arg-th from the nth; 3: all allocs of size >= arg;
// kind 4: burst of arg allocations from the nth; 5: cumulative budget of arg bytes
struct AllocFault { int op; int kind; uint64_t nth; uint64_t arg; };

struct Sched {
  std::vector<Switch> sw;
  std::vector<AllocFault> af;
  int reuse = 0;          // 0 never, 1 LIFO, 2 FIFO, 3 seeded choice
  int fill = 0xA5;        // fill pattern of fresh memory
  int skew = 0;           // extra bytes of address skew at the start of the arena
  uint64_t seed = 1;      // for reuse==3
  int first = 1;          // first thread to run after spawn
  uint64_t cap = 400000000;// step cap (instrumented accesses incl. stack) => hang
  uint64_t crash = 0;     // the process dies at this step (0: never)
  bool race = true;
};

struct OpStat { uint64_t ev, st, allocs, bytes, total; };

// Result page, in shared memory between the run (child) and its parent.
struct Page {
  int done;
  char kind[40];            // "" or violation kind
  char msg[3000];
  uint64_t trace;           // hash of the interleaving trace
  uint64_t steps, raw, evs, switches, preempt_in_op;
  uint64_t faults[16];      // fired faults by kind
  uint64_t maxlive;
  uint64_t probes[16];
  int curop, curtid;
  size_t used;              // bytes used in buf
  size_t cap;
  char buf[1];
};
extern Page *page;
Page *new_page(size_t cap = 6u << 20);
void reset_page(Page *);

// ---- called in the run (child) process
void start(const Sched &, void (*prog)(void *), void *arg); // runs prog as simulated thread 0; returns when it ends
int spawn(void (*fn)(void *), void *arg);
void join_all();
[[noreturn]] void violation(const char *kind, const std::string &msg);
int tid();
bool active();
void yield_point();
void out(const void *p, size_t n);
void out_str(const std::string &s);  // length-prefixed record
OpStat opstat();

struct Quiet { Quiet(); ~Quiet(); };               // harness code: no accounting, no switches, no faults
struct Lib { Lib(int opuid); ~Lib(); int saved; };            // library scope: accounting, faults, leak tracking; suspends Quiet
extern bool (*fault_gate)();  // when set: asked before an allocation fault fires (a world may spare third-party code)
bool fault_fired();          // did an allocation fault fire in the current/last Lib scope of this thread
uint64_t lib_allocs();       // allocations in the current/last Lib scope of this thread
void count_fault(int kind);
void probe(int i);

// One simulated file: while `file` is set, every open of a library call gets it, whatever its name.
struct SimFile {
  std::string data, later; long change_at = 0;   // content; content from the change_at-th read on (0: never)
  int open_errno = 0; long chunk = 1 << 20;      // bytes per read at most
  long eio_at = 0; int eio = 0;                  // the eio_at-th read fails with this errno
  long eintr_at = 0, eintr_n = 0;                // eintr_n interrupted reads from the eintr_at-th
  int seek_fail = 0;                             // bit 0: SEEK_END fails, 1: SEEK_SET fails, 2: SEEK_CUR fails
  long size_lie = -1;                            // position reported by SEEK_END
  long stop_at = -1;                             // end of file from this offset on
  // state
  long pos = 0, reads = 0, opens = 0, closes = 0; std::string delivered; bool fired = false; int fault_base = 6;
};
extern SimFile *file;
extern SimFile *thread_file[MAXT]; // the file one thread sees instead of `file`

// heap accounting
uint64_t live_blocks(); uint64_t live_bytes();
// violation "leak" if a library block allocated so far is live and unreachable from globals/live stacks
std::string leaks();
struct Mark { uint64_t blocks, bytes; };
Mark mark();
// Does what is kept grow each time the same history is repeated?  `rep` runs it once more; it has already run once.
// Blocks: more after each of three repetitions.  Bytes: more after 4 runs than after 2, after 8 than after 4, after 16 than after 8.
std::string growth(const std::function<void()> &rep);
void set_race(bool);
}
