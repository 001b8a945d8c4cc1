// Shared pieces of plan generation: schedules and allocation faults aimed at what a base run did.
#pragma once
#include "frame.h"
#include <array>
#include <cstring>
namespace {
using std::string; using std::vector; using std::map;
// per-op counters of the base run
struct BaseStats { map<int, std::array<uint64_t, 5>> m; // ev0, ev1, st0, st1, allocs
  explicit BaseStats(const RunResult &r) { for (auto &x : r.recs) if (x.type == 's') { std::array<uint64_t, 5> a{}; sscanf(x.text.c_str(), "%lu %lu %lu %lu %lu", &a[0], &a[1], &a[2], &a[3], &a[4]); m[x.id] = a; } } };

void add_switches(Rng &r, Plan &p, const BaseStats &b, int maxn) {
  int nt = p.th.size(); if (nt < 2) return;
  p.sched.first = r.range(1, nt);
  int n = r.range(1, maxn);
  for (int i = 0; i < n; i++) {
    int t = r.range(1, nt); if (p.th[t - 1].empty()) continue;
    const Op &o = p.th[t - 1][r.below(p.th[t - 1].size())];
    auto it = b.m.find(o.id); if (it == b.m.end()) continue;
    auto &a = it->second; int to = r.range(0, nt - 1); if (to >= t) to++;
    sim::Switch s; s.tid = t; s.to = to;
    if (r.chance(0.8) && a[1] > a[0]) { s.mode = 0; s.at = a[0] + 1 + r.below(a[1] - a[0]); }
    else { s.mode = 1; s.at = a[2] + 1 + r.below(a[3] - a[2] + 1); }
    p.sched.sw.push_back(s);
  }
}
void add_alloc_faults(Rng &r, Plan &p, const BaseStats &b, int maxn) {
  vector<int> ids; for (auto &x : b.m) if (x.second[4] && x.first >= (p.domain == "C03" ? 1000 : 0)) ids.push_back(x.first);
  if (ids.empty()) return;
  int n = r.range(1, maxn);
  for (int i = 0; i < n; i++) {
    int id = ids[r.below(ids.size())]; uint64_t al = b.m.at(id)[4];
    sim::AllocFault f; f.op = id; f.nth = 1 + r.below(al); f.arg = 0;
    switch (r.below(10)) {
      case 0: case 1: case 2: case 3: case 4: f.kind = 0; break;
      case 5: case 6: f.kind = 1; break;
      case 7: f.kind = 2; f.arg = r.range(2, 5); break;
      case 8: f.kind = 3; f.nth = 1; f.arg = 16 << r.below(5); break;
      default: f.kind = r.chance(0.5) ? 4 : 5; f.arg = f.kind == 4 ? r.range(2, 6) : r.below(2000); break;
    }
    p.sched.af.push_back(f);
  }
}

string type_only(const string &s) { // exceptions compared by type
  if (s.compare(0, 3, "ex:") == 0) { auto k = s.find(':', 3); return s.substr(0, k); }
  return s;
}

}
