// Search frame: plans as data, fork-per-run execution, oracles, gating, minimisation, replay files, evidence counters.
#pragma once
#include "rt.h"
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t x) : s(x) {}
  uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int range(int a, int b) { return a + (int)below(b - a + 1); }
  bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  template <class C> auto &pick(C &c) { return c[below(c.size())]; }
};

struct Op {
  int id = 0;             // also the slot the result is stored in
  std::string k;          // kind
  std::vector<int> a;     // operand slots
  std::vector<long> n;    // integer parameters
  double d = 0;           // numeric parameter
  std::string s;          // text parameter (any bytes)
};
struct Plan {
  std::string domain;
  uint64_t seed = 0;
  std::map<std::string, long> cfg;
  std::vector<Op> setup;
  std::vector<std::vector<Op>> th;
  std::vector<Op> tail;   // executed after all threads ended
  sim::Sched sched;
  long c(const char *k, long dflt = 0) const { auto i = cfg.find(k); return i == cfg.end() ? dflt : i->second; }
};
std::string plan_text(const Plan &);
Plan parse_plan(const std::string &);
std::string esc(const std::string &);

struct Rec { int id; char type; std::string text; };      // type: 'o' outcome, 'r' retry outcome, 's' statistics, 'x' other
struct RunResult {
  std::string kind, msg;          // violation raised inside the run
  std::vector<Rec> recs;
  sim::Page head;                 // counters
  const Rec *find(int id, char type = 'o') const { for (auto &r : recs) if (r.id == id && r.type == type) return &r; return nullptr; }
};
struct Verdict { std::string kind, msg; bool bad() const { return !kind.empty(); } };

// what a check supplies
struct Check {
  virtual ~Check() {}
  virtual const char *property() = 0;
  virtual void gen(Rng &, Plan &) = 0;                                      // workload, configuration
  virtual int variants(Rng &, const Plan &) { return 20; }
  virtual void vary(Rng &, Plan &, const RunResult &base) = 0;              // schedule and fault sequence for the workload
  virtual void program(const Plan &) = 0;                                   // runs inside the simulation as T0
  virtual void alone(const Plan &, int opid) = 0;                           // reference: op opid alone in a fresh process
  virtual bool restart(const Plan &, const RunResult &, Plan &) { return false; } // second life: plan of the process started after the first one ended
  virtual Verdict judge(const Plan &, const RunResult &, std::function<const RunResult &(int)> ref) = 0;
  virtual Verdict in_run(const Plan &, const RunResult &r, std::function<const RunResult &(int)>) { return Verdict{r.kind, r.msg}; } // a violation raised inside the run
  virtual bool nontrivial(const Plan &, const RunResult &r) { uint64_t f = 0; for (auto x : r.head.faults) f += x; return r.head.preempt_in_op || f; }
  virtual std::vector<const char *> fault_names() { return {"alloc-single", "alloc-persistent", "alloc-periodic", "alloc-large", "alloc-burst", "alloc-budget"}; }
  virtual std::vector<const char *> probe_names() { return {}; }
  virtual const char *rule() = 0;
  virtual bool shrink_op(Op &, int) { return false; }                       // optional argument shrinking, k-th attempt
};
Check *make_check(const std::string &property);   // provided by the check's translation unit

// default in-simulation helpers
void emit(int id, char type, const std::string &text);
