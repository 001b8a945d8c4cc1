// C04 outside run-time expressions: the histories of another check (its operations, threads and faults, plus failing
// allocations), judged by nothing but what happens to memory. Whatever else such a run shows is that check's business.
#pragma once
#include "plangen.h"
namespace {
struct MemCheck : Check {
  vector<Check *> in; vector<const char *> names; long part;
  MemCheck(long part, vector<Check *> c, vector<const char *> more) : in(c), names(Check::fault_names()), part(part) { for (auto n : more) names.push_back(n); }
  Check *of(const Plan &p) { return in[p.c("inner") % in.size()]; }
  const char *property() override { return "C04"; }
  void gen(Rng &r, Plan &p) override { long k = r.below(in.size()); p.cfg["part"] = part; p.cfg["inner"] = k; in[k]->gen(r, p); p.sched.reuse = r.below(4); }
  int variants(Rng &, const Plan &) override { return 25; }
  void vary(Rng &r, Plan &p, const RunResult &base) override { if (r.chance(0.8)) of(p)->vary(r, p, base); if (r.chance(0.6)) add_alloc_faults(r, p, BaseStats(base), 2); }
  void program(const Plan &p) override {
    of(p)->program(p); if (p.th.size() != 1) return;
    string g = sim::growth([&] { of(p)->program(p); });  // the same history again
    if (!g.empty()) sim::violation("growth", g);
  }
  void alone(const Plan &p, int id) override { of(p)->alone(p, id); }
  Verdict judge(const Plan &, const RunResult &, std::function<const RunResult &(int)>) override { return Verdict{}; }
  Verdict in_run(const Plan &, const RunResult &r, std::function<const RunResult &(int)>) override {
    for (auto k : {"leak", "growth", "bad-release", "double-release", "use-after-release", "heap-out-of-bounds"}) if (r.kind == k) return Verdict{r.kind, r.msg};
    return Verdict{};
  }
  vector<const char *> fault_names() override { return names; }
  bool shrink_op(Op &o, int k) override { return in[0]->shrink_op(o, k); }
  const char *rule() override { return "runs with an injected fault or a pre-emption inside an operation, distinct by the global sequence of shared accesses and switches and the recorded outcomes"; }
};
}
