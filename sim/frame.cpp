#include "frame.h"
#include <atomic>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <sys/resource.h>

using namespace std;
static double now() { return chrono::duration<double>(chrono::steady_clock::now().time_since_epoch()).count(); }

// ------------------------------------------------------------------ plan text
string esc(const string &s) {
  string o; char b[8];
  for (unsigned char c : s) { if (c > 32 && c < 127 && c != '\\' && c != '|') o += c; else { snprintf(b, sizeof b, "\\%02x", c); o += b; } }
  return o;
}
static string unesc(const string &s) {
  string o;
  for (size_t i = 0; i < s.size(); i++) if (s[i] == '\\' && i + 2 < s.size()) { o += (char)strtol(s.substr(i + 1, 2).c_str(), 0, 16); i += 2; } else o += s[i];
  return o;
}
static void put_op(ostringstream &os, const char *tag, const Op &o) {
  os << tag << " " << o.id << " " << o.k << " a";
  for (int x : o.a) os << " " << x;
  os << " n"; for (long x : o.n) os << " " << x;
  char b[64]; snprintf(b, sizeof b, "%a", o.d); os << " d " << b << " s |" << esc(o.s) << "|\n";
}
string plan_text(const Plan &p) {
  ostringstream os;
  os << "domain " << p.domain << "\nseed " << p.seed << "\n";
  for (auto &c : p.cfg) os << "cfg " << c.first << " " << c.second << "\n";
  for (auto &o : p.setup) put_op(os, "setup", o);
  for (size_t t = 0; t < p.th.size(); t++) { os << "thread\n"; for (auto &o : p.th[t]) put_op(os, "op", o); }
  for (auto &o : p.tail) put_op(os, "tail", o);
  const auto &s = p.sched;
  os << "heap reuse " << s.reuse << " fill " << s.fill << " skew " << s.skew << " seed " << s.seed << " first " << s.first << " cap " << s.cap << " crash " << s.crash << "\n";
  for (auto &x : s.sw) os << "switch " << x.tid << " " << x.mode << " " << x.at << " " << x.to << "\n";
  for (auto &x : s.af) os << "allocfault " << x.op << " " << x.kind << " " << x.nth << " " << x.arg << "\n";
  return os.str();
}
Plan parse_plan(const string &txt) {
  Plan p; istringstream is(txt); string line;
  while (getline(is, line)) {
    istringstream l(line); string t; l >> t;
    if (t == "domain") l >> p.domain; else if (t == "seed") l >> p.seed;
    else if (t == "cfg") { string k; long v; l >> k >> v; p.cfg[k] = v; }
    else if (t == "thread") p.th.emplace_back();
    else if (t == "setup" || t == "op" || t == "tail") {
      Op o; string w; l >> o.id >> o.k >> w; // "a"
      while (l >> w && w != "n") o.a.push_back(atoi(w.c_str()));
      while (l >> w && w != "d") o.n.push_back(atol(w.c_str()));
      l >> w; o.d = strtod(w.c_str(), 0); l >> w; l >> w;
      if (w.size() >= 2) o.s = unesc(w.substr(1, w.size() - 2));
      if (t == "setup") p.setup.push_back(o); else if (t == "tail") p.tail.push_back(o); else p.th.back().push_back(o);
    } else if (t == "heap") { string w; l >> w >> p.sched.reuse >> w >> p.sched.fill >> w >> p.sched.skew >> w >> p.sched.seed >> w >> p.sched.first >> w >> p.sched.cap >> w >> p.sched.crash; }
    else if (t == "switch") { sim::Switch s; l >> s.tid >> s.mode >> s.at >> s.to; p.sched.sw.push_back(s); }
    else if (t == "allocfault") { sim::AllocFault s; l >> s.op >> s.kind >> s.nth >> s.arg; p.sched.af.push_back(s); }
  }
  return p;
}

void emit(int id, char type, const string &text) { sim::Quiet q; string s; s.reserve(text.size() + 8); s.append((const char *)&id, 4); s += type; s += text; sim::out_str(s); }

// ------------------------------------------------------------------ running
static Check *chk;
static uint64_t nforks = 0;
static bool timed_out_hard = false;
struct ProgArg { const Plan *p; int alone; };
static void prog(void *v) { auto *a = (ProgArg *)v; if (a->alone >= 0) chk->alone(*a->p, a->alone); else chk->program(*a->p); }
static RunResult run_once(const Plan &p, int alone = -1) {
  static sim::Page *pg = sim::new_page();
  sim::reset_page(pg);
  sim::page = pg;
  nforks++;
  fflush(stdout);
  pid_t c = fork();
  if (c < 0) { perror("fork"); exit(3); }
  if (c == 0) {
    alarm(200);                                     // wall clock: a last resort, the check then gives up
    struct itimerval cpu{{0, 0}, {25, 0}}; setitimer(ITIMER_VIRTUAL, &cpu, nullptr); // a loop that never reaches instrumented code
    Plan q = p; // run with own copy
    if (alone >= 0) { q.sched = sim::Sched(); q.sched.cap = p.sched.cap; q.sched.reuse = 0; }
    ProgArg a{&q, alone};
    sim::start(q.sched, prog, &a);
    _exit(0);
  }
  int st = 0; while (waitpid(c, &st, 0) < 0 && errno == EINTR) {}
  RunResult r; r.head = *pg;
  if (pg->kind[0]) { r.kind = pg->kind; r.msg = pg->msg; }
  else if (pg->done != 1) {
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGVTALRM) { r.kind = "hang"; r.msg = "25 s of processor time used in op " + to_string(pg->curop) + " without reaching the step limit"; return r; }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { r.kind = "wall-timeout"; timed_out_hard = true; }
    else r.kind = "abnormal-exit";
    r.msg = "run ended with status " + to_string(st);
  }
  size_t o = 0;
  while (o + 4 <= pg->used) { uint32_t n; memcpy(&n, pg->buf + o, 4); o += 4; if (o + n > pg->used || n < 5) break; Rec rc; memcpy(&rc.id, pg->buf + o, 4); rc.type = pg->buf[o + 4]; rc.text.assign(pg->buf + o + 5, n - 5); r.recs.push_back(rc); o += n; }
  return r;
}
static RunResult run_plan(const Plan &p, int alone = -1) {
  RunResult r = run_once(p, alone); Plan p2;
  if (alone < 0 && r.kind.empty() && chk->restart(p, r, p2)) {
    RunResult q = run_once(p2); 
    r.recs.insert(r.recs.end(), q.recs.begin(), q.recs.end());
    r.kind = q.kind; r.msg = q.msg.empty() ? "" : "after restart: " + q.msg;
    auto &a = r.head; auto &b = q.head;
    a.trace = a.trace * 1000003 ^ b.trace; a.steps += b.steps; a.raw += b.raw; a.evs += b.evs; a.switches += b.switches; a.preempt_in_op += b.preempt_in_op;
    for (int i = 0; i < 16; i++) { a.faults[i] += b.faults[i]; a.probes[i] += b.probes[i]; }
  }
  return r;
}
static uint64_t nrefs = 0;
struct Evaluator {
  const Plan *p; map<int, RunResult> refs;
  const RunResult &ref(int id) { auto i = refs.find(id); if (i == refs.end()) { i = refs.emplace(id, run_plan(*p, id)).first; nrefs++; } return i->second; }
};
static Verdict judge(const Plan &p, const RunResult &r, Evaluator &e) {
  e.p = &p;
  auto ref = [&](int id) -> const RunResult & { return e.ref(id); };
  if (!r.kind.empty()) return chk->in_run(p, r, ref);
  return chk->judge(p, r, ref);
}
static Verdict evaluate(const Plan &p, RunResult *out = nullptr) { Evaluator e; RunResult r = run_plan(p); Verdict v = judge(p, r, e); if (out) *out = r; return v; }

// ------------------------------------------------------------------ minimisation
static int min_evals;
static Plan minimise(Plan p, const string &kind, double budget) {
  double t0 = now(); min_evals = 0;
  auto bad = [&](const Plan &q) { min_evals++; return evaluate(q).kind == kind; };
  auto left = [&] { return now() - t0 < budget && min_evals < 3000; };
  bool progress = true;
  while (progress && left()) {
    progress = false;
    // whole threads
    for (size_t t = 0; t < p.th.size() && left();) { if (p.th[t].empty()) { t++; continue; } Plan q = p; q.th[t].clear(); if (bad(q)) { p = q; progress = true; } t++; }
    auto shrink_vec = [&](auto get) {
      size_t n = get(p).size();
      for (size_t chunk = max<size_t>(1, n / 2); chunk >= 1 && left(); chunk /= 2) {
        for (size_t i = 0; i < get(p).size() && left();) {
          Plan q = p; auto &v = get(q); size_t e = min(v.size(), i + chunk); v.erase(v.begin() + i, v.begin() + e);
          if (bad(q)) { p = q; progress = true; } else i += chunk;
        }
        if (chunk == 1) break;
      }
    };
    shrink_vec([](Plan &q) -> auto & { return q.sched.sw; });
    shrink_vec([](Plan &q) -> auto & { return q.sched.af; });
    shrink_vec([](Plan &q) -> auto & { return q.tail; });
    for (size_t t = 0; t < p.th.size(); t++) shrink_vec([t](Plan &q) -> auto & { return q.th[t]; });
    shrink_vec([](Plan &q) -> auto & { return q.setup; });
    for (auto f : {0, 1, 2}) {
      Plan q = p; if (f == 0) { if (!q.sched.reuse) continue; q.sched.reuse = 0; } if (f == 1) { if (!q.sched.skew) continue; q.sched.skew = 0; } if (f == 2) { if (q.sched.fill == 0xA5) continue; q.sched.fill = 0xA5; }
      if (left() && bad(q)) { p = q; progress = true; }
    }
    auto shrink_ops = [&](auto get) {
      for (size_t i = 0; i < get(p).size() && left(); i++)
        for (int k = 0; k < 12 && left(); k++) { Plan q = p; if (!chk->shrink_op(get(q)[i], k)) break; if (bad(q)) { p = q; progress = true; } }
    };
    shrink_ops([](Plan &q) -> auto & { return q.setup; });
    for (size_t t = 0; t < p.th.size(); t++) shrink_ops([t](Plan &q) -> auto & { return q.th[t]; });
    shrink_ops([](Plan &q) -> auto & { return q.tail; });
  }
  return p;
}

// ------------------------------------------------------------------ search
struct Shared {
  atomic<uint64_t> next; atomic<int> stop; atomic<uint64_t> runs, refs, workloads, nontriv, steps, raw, evs, switches, preempt, faults[16], probes[16], distinct, checked; atomic<int> found; atomic<int> err;
  static constexpr size_t SEEN = 1 << 23; // across all workers
  atomic<uint64_t> seen[SEEN];
  bool first_time(uint64_t h) {
    if (!h) h = 1;
    for (size_t i = 0; i < 64; i++) { auto &c = seen[(h + i) % SEEN]; uint64_t e = 0; if (c == h) return false; if (c == 0 && c.compare_exchange_strong(e, h)) return true; if (e == h) return false; }
    return false; // table crowded: undercount
  }
};
static Shared *sh;
static uint64_t mixseed(uint64_t a, uint64_t b) { Rng r(a * 0x9E3779B97F4A7C15ull + b); r.next(); return r.next(); }

static void account(const Plan &p, const RunResult &r) {
  sh->runs++; sh->steps += r.head.steps; sh->raw += r.head.raw; sh->evs += r.head.evs; sh->switches += r.head.switches; sh->preempt += r.head.preempt_in_op;
  for (int i = 0; i < 16; i++) { sh->faults[i] += r.head.faults[i]; sh->probes[i] += r.head.probes[i]; }
  sh->checked += r.recs.size();
  if (chk->nontrivial(p, r)) { sh->nontriv++; 
    uint64_t h = r.head.trace ^ (r.head.steps * 1000003) ^ (r.head.raw * 0x9E3779B97F4A7C15ull); // trace, length, and what was observed
    for (auto &x : r.recs) if (x.type != 's') { h = (h ^ (uint64_t)x.id) * 0x100000001B3ull; for (unsigned char c : x.text) h = (h ^ c) * 0x100000001B3ull; }
    if (sh->first_time(h ^ (h >> 31))) sh->distinct++; }
}
static int report(const Plan &p0, const Verdict &v0, const string &dir, double minbudget) {
  // gate: the same plan must fail the same way, with the same interleaving, again
  RunResult r1, r2; Verdict v1 = evaluate(p0, &r1), v2 = evaluate(p0, &r2);
  if (v1.kind != v0.kind || v2.kind != v0.kind || r1.head.trace != r2.head.trace) {
    fprintf(stderr, "NOT REPRODUCIBLE: %s / %s / %s (traces %lx %lx)\n%s\n%s\n", v0.kind.c_str(), v1.kind.c_str(), v2.kind.c_str(), (unsigned long)r1.head.trace, (unsigned long)r2.head.trace, v0.msg.c_str(), plan_text(p0).c_str());
    return 2;
  }
  Plan m = minimise(p0, v0.kind, minbudget);
  RunResult r3; Verdict v3 = evaluate(m, &r3);
  if (v3.kind != v0.kind) { m = p0; v3 = evaluate(m, &r3); }
  string path = dir + "/" + chk->property() + "-" + to_string(p0.seed) + ".plan";
  ofstream f(path);
  f << "# property " << chk->property() << "\n# violation " << v3.kind << "\n# " << esc(v3.msg) << "\n# trace " << hex << r3.head.trace << dec << "\n# minimisation evaluations " << min_evals << "\n" << plan_text(m);
  f.close();
  ofstream g(dir + "/" + chk->property() + ".found"); g << path << "\n" << v3.kind << "\n" << v3.msg << "\n"; g.close();
  return 1;
}

int main(int argc, char **argv) {
  string prop, replay, out, dir = "."; uint64_t seed = 1; double budget = 20; int workers = 1; uint64_t maxit = ~0ull; bool det = false, dump = false; double minb = 40;
  for (int i = 1; i < argc; i++) {
    string a = argv[i]; auto nx = [&] { return string(argv[++i]); };
    if (a == "--property") prop = nx(); else if (a == "--seed") seed = stoull(nx()); else if (a == "--time") budget = stod(nx());
    else if (a == "--workers") workers = stoi(nx()); else if (a == "--replay") replay = nx(); else if (a == "--out") out = nx(); else if (a == "--dir") dir = nx();
    else if (a == "--max") maxit = stoull(nx()); else if (a == "--determinism") det = true; else if (a == "--dump") dump = true; else if (a == "--minbudget") minb = stod(nx());
  }
  setvbuf(stdout, 0, _IOLBF, 0);
  struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
  chk = make_check(prop);
  if (!chk) { fprintf(stderr, "unknown property %s\n", prop.c_str()); return 3; }
  if (!replay.empty()) {
    ifstream f(replay); stringstream ss; ss << f.rdbuf(); string txt = ss.str();
    Plan p = parse_plan(txt); RunResult r; Verdict v = evaluate(p, &r);
    string want; auto k = txt.find("# trace "); if (k != string::npos) want = txt.substr(k + 8, txt.find('\n', k) - k - 8);
    char got[32]; snprintf(got, sizeof got, "%lx", (unsigned long)r.head.trace);
    if (dump) for (auto &x : r.recs) printf("%d %c %s\n", x.id, x.type, esc(x.text).c_str());
    printf("replay %s: %s\n%s\ntrace %s%s\n", replay.c_str(), v.bad() ? v.kind.c_str() : "no violation", v.msg.c_str(), got, want.empty() || want == got ? "" : " (differs from the recorded trace)");
    return v.bad() ? 1 : 0;
  }
  sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  double t0 = now();
  vector<pid_t> pids;
  string sample;
  for (int w = 0; w < workers; w++) {
    pid_t c = fork();
    if (c == 0) {
      int rc = 0;
      while (!sh->stop && now() - t0 < budget) {
        uint64_t it = sh->next++; if (it >= maxit) break;

        Plan p; p.seed = mixseed(seed, it); p.domain = chk->property();
        Rng rng(p.seed); chk->gen(rng, p);
        if (dump) printf("%s----\n", plan_text(p).c_str());
        sh->workloads++;
        Evaluator e; e.p = &p; uint64_t f0 = nrefs;
        int nv = chk->variants(rng, p);
        RunResult base = run_plan(p); account(p, base);
        Verdict v = judge(p, base, e); Plan q = p;
        if (det) { RunResult b2 = run_plan(p); if (b2.head.trace != base.head.trace || b2.head.steps != base.head.steps) { fprintf(stderr, "nondeterministic base run\n%s", plan_text(p).c_str()); sh->err++; } }
        for (int k = 0; !v.bad() && k < nv && !sh->stop && now() - t0 < budget; k++) {
          q = p; chk->vary(rng, q, base);
          RunResult r = run_plan(q); account(q, r);
          v = judge(q, r, e);
          if (det && !v.bad()) {
            RunResult r2 = run_plan(q);
            bool same = r2.head.trace == r.head.trace && r2.head.steps == r.head.steps && r2.recs.size() == r.recs.size();
            if (same) for (size_t i = 0; i < r.recs.size(); i++) if (r.recs[i].text != r2.recs[i].text) same = false;
            if (!same) { fprintf(stderr, "nondeterministic run\n%s", plan_text(q).c_str()); sh->err++; }
          }
          e.p = &p;
        }
        sh->refs += nrefs - f0;
        if (w == 0 && sample.empty()) { sample = plan_text(q); ofstream s(dir + "/" + chk->property() + ".sample"); s << sample; }
        if (timed_out_hard) { fprintf(stderr, "a run exceeded the wall-clock guard\n%s", plan_text(q).c_str()); _exit(2); }
        if (v.bad()) {
          int exp = 0;
          if (sh->stop.compare_exchange_strong(exp, 1)) { rc = report(q, v, dir, minb); if (rc == 1) sh->found = 1; else sh->err++; }
          break;
        }
      }
      _exit(rc);
    }
    pids.push_back(c);
  }
  int worst = 0;
  for (pid_t c : pids) { int st; waitpid(c, &st, 0); int e = WIFEXITED(st) ? WEXITSTATUS(st) : 3; if (e > worst) worst = e; if (WIFSIGNALED(st)) fprintf(stderr, "worker died with signal %d\n", WTERMSIG(st)); }
  double wall = now() - t0;
  ostringstream os;
  os << "{\"property\":\"" << prop << "\",\"runs\":" << sh->runs << ",\"reference_runs\":" << sh->refs << ",\"workloads\":" << sh->workloads << ",\"nontrivial\":" << sh->nontriv << ",\"distinct\":" << sh->distinct
     << ",\"steps\":" << sh->steps << ",\"accesses\":" << sh->raw << ",\"shared_events\":" << sh->evs << ",\"switches\":" << sh->switches << ",\"preemptions_in_ops\":" << sh->preempt << ",\"outcomes_compared\":" << sh->checked << ",\"wall\":" << wall << ",\"found\":" << sh->found << ",\"err\":" << sh->err << ",\"faults\":{";
  auto fn = chk->fault_names(); bool first = true;
  for (size_t i = 0; i < fn.size() && i < 16; i++) if (fn[i]) { os << (first ? "" : ",") << "\"" << fn[i] << "\":" << sh->faults[i]; first = false; }
  os << "},\"probes\":{"; first = true; auto pn = chk->probe_names();
  for (size_t i = 0; i < pn.size() && i < 16; i++) if (pn[i]) { os << (first ? "" : ",") << "\"" << pn[i] << "\":" << sh->probes[i]; first = false; }
  os << "},\"rule\":\"" << chk->rule() << "\"}";
  if (!out.empty()) { ofstream f(out); f << os.str() << "\n"; } else printf("%s\n", os.str().c_str());
  if (sh->found) return 1;
  if (sh->err || worst > 1) return 2;
  return 0;
}
