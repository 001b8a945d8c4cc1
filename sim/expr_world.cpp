// Expression world checks: C01, C03, C04, C06, C07, C11, C14.
#include "value_text.h"
#include "expr_ops.h"
#include "gentext.h"
#include "plangen.h"

using namespace xw;
using std::string; using std::vector; using std::map; using std::to_string;

namespace {
enum { UID_FREE = -10, UID_RETRY = 1000000 };

// ------------------------------------------------------------ plan generation helpers
struct Gen {
  Rng &r; Plan &p; TextGen tg; int nextid = 0;
  vector<int> exprs, vars, dicts, arrays, eqs, errs;   // slots known to hold such things (best knowledge)
  Gen(Rng &r_, Plan &p_) : r(r_), p(p_), tg{r_} { if (r.chance(0.1)) tg.common = 0.15; }
  int pickslot(vector<int> &v) { return v.empty() ? -1 : v[r.below(v.size())]; }
  Op mk(const char *k) { Op o; o.id = nextid++; o.k = k; return o; }
  void setup(int n) {
    static const char *vn[] = {"x", "y", "z", "averyveryverylongvariablename"};
    for (int i = 0; i < 4; i++) { Op o = mk("var"); o.s = vn[i]; vars.push_back(o.id); exprs.push_back(o.id); p.setup.push_back(o); }
    { Op o = mk("parse"); o.s = "{x:1.25, y:0.5, z:3, averyveryverylongvariablename:2, k:1.5, alpha:0.25, anotherquitelongvariablename:4}"; dicts.push_back(o.id); p.setup.push_back(o); }
    for (int i = 0; i < n; i++) {
      Op o;
      switch (r.below(8)) {
        case 0: { o = mk("parse"); o.s = r.chance(0.12) ? tg.list(r.range(6, 24), 0) : tg.list(r.range(1, 4), 1); arrays.push_back(o.id); exprs.push_back(o.id); break; }
        case 1: { o = mk("parse"); o.s = tg.dict(r.range(1, 4), 1); dicts.push_back(o.id); exprs.push_back(o.id); break; }
        case 2: { o = mk("parse"); o.s = tg.var() + "=" + tg.expr(1); eqs.push_back(o.id); break; }
        case 3: { o = mk("const"); o.d = r.below(3) ? r.unit() * 4 : (double)r.below(4); exprs.push_back(o.id); break; }
        default: { o = mk("parse"); o.s = tg.any(); exprs.push_back(o.id); break; }
      }
      p.setup.push_back(o);
    }
  }
  void cold() { // nothing but variables and numbers exist before the threads start: every first use is concurrent
    static const char *vn[] = {"x", "y", "z", "averyveryverylongvariablename"};
    for (int i = 0; i < 4; i++) { Op o = mk("var"); o.s = vn[i]; vars.push_back(o.id); exprs.push_back(o.id); p.setup.push_back(o); }
    for (int i = 0; i < 2; i++) { Op o = mk("const"); o.d = r.below(3) ? r.unit() * 4 : (double)r.below(4); exprs.push_back(o.id); p.setup.push_back(o); }
    Op o = mk("dict"); for (int i = 0; i < 3; i++) { o.a.push_back(vars[i]); o.a.push_back(exprs[4 + r.below(2)]); } dicts.push_back(o.id); exprs.push_back(o.id); p.setup.push_back(o);
  }
  // one client operation; ids of results are appended to the client's own view
  Op op(int id, vector<int> &ex) {
    Op o; o.id = id;
    auto e = [&] { return ex[r.below(ex.size())]; };
    auto has = [&](vector<int> &v) { return !v.empty(); };
    switch (r.below(30)) {
      case 0: case 1: case 2: o.k = "parse"; o.s = tg.any(); break;
      case 3: o.k = "parsec"; o.s = tg.expr(2); break;
      case 4: case 5: case 6: o.k = "bin"; o.n = {(long)r.below(r.chance(0.8) ? 5 : 9)}; o.a = {e(), e()}; break;
      case 7: o.k = "un"; o.n = {(long)r.below(7)}; o.a = {e()}; break;
      case 8: case 9: case 10: o.k = "simp"; o.a = {e()}; break;
      case 11: case 12: o.k = "deriv"; o.a = {e(), r.chance(0.9) ? pickslot(vars) : e()}; break;
      case 13: o.k = "sub"; o.a = {e(), has(eqs) && r.chance(0.5) ? pickslot(eqs) : r.chance(0.85) ? pickslot(dicts) : e()}; break;
      case 14: o.k = "eval"; o.a = {e(), dicts[0]}; break;
      case 15: case 16: o.k = "repr"; o.a = {e()}; break;
      case 17: o.k = "latex"; o.a = {e()}; break;
      case 18: o.k = "paren"; o.a = {e()}; break;
      case 19: o.k = "hash"; o.a = {e()}; break;
      case 20: o.k = "eq"; o.a = {e(), e()}; break;
      case 21: o.k = "copy"; o.a = {e()}; break;
      case 22: o.k = r.chance(0.4) ? "asd" : r.chance(0.5) ? "asv" : "asa"; o.a = {e()}; break;
      case 23: if (has(arrays)) { o.k = "aget"; o.n = {(long)r.below(5)}; o.a = {pickslot(arrays)}; } else { o.k = "asa"; o.a = {e()}; } break;
      case 24: o.k = r.chance(0.5) ? "dget" : "dfind"; o.a = {pickslot(dicts), r.chance(0.7) ? pickslot(vars) : e()}; break;
      case 25: o.k = r.chance(0.5) ? "arr" : "arrn"; for (int i = r.chance(0.1) ? r.range(5, 20) : r.range(0, 4); i-- > 0;) o.a.push_back(e()); break;
      case 26: { o.k = "dict"; int n = r.range(1, 4); for (int i = 0; i < n; i++) { o.a.push_back(r.chance(0.8) ? vars[(i + o.id) % vars.size()] : e()); o.a.push_back(e()); } break; }
      case 27: o.k = "ct"; o.n = {(long)r.below(8)}; o.a = {e(), e()}; break;
      case 28: o.k = "parse"; { string s = tg.expr(2); damage(r, s, tg.expr(1)); o.s = s; } break;
      default: o.k = "drop"; o.a = {e()}; break;
    }
    static const char *producers = " parse parsec bin un simp deriv sub copy aget dget dfind arr arrn dict ct ";
    if (strstr(producers, (" " + o.k + " ").c_str())) ex.push_back(id);
    return o;
  }
  void threads(int nt, int nops) {
    for (int t = 0; t < nt; t++) {
      p.th.emplace_back();
      vector<int> ex = exprs; ex.insert(ex.end(), vars.begin(), vars.begin() + 2);
      for (int j = 0; j < nops; j++) p.th[t].push_back(op(1000 * (t + 1) + j, ex));
    }
    for (int t = 0; t < nt; t++) for (auto &o : p.th[t]) if (r.chance(0.12)) { // the same call again, by this or another thread
      auto &src = p.th[r.below(nt)]; const Op &q = src[r.below(src.size())]; bool ok = q.id != o.id && q.k != "drop"; for (int x : q.a) ok &= x < 1000;
      if (ok) { int id = o.id; o = q; o.id = id; }
    }
  }
  void heap() {
    p.sched.reuse = r.below(4); p.sched.skew = r.below(64) * 16; p.sched.seed = r.next() & 0xffffff;
    static const int fills[] = {0xA5, 0x00, 0xFF, 0x01, 0x7F}; p.sched.fill = fills[r.below(5)];
  }
};

// ------------------------------------------------------------ executing plans
struct ThreadArg { const Plan *p; int t; Ctx ctx; };
struct ExprCheck : Check {
  string prop;
  explicit ExprCheck(const string &p) : prop(p) {}
  const char *property() override { return prop.c_str(); }

  static void stats(int id, sim::OpStat a, uint64_t allocs) { sim::OpStat b = sim::opstat(); char t[120]; snprintf(t, sizeof t, "%lu %lu %lu %lu %lu", a.ev, b.ev, a.st, b.st, allocs); emit(id, 's', t); }

  // snapshot of everything a client can see
  static map<int, string> snap(Ctx &c) { map<int, string> m; for (auto &x : *shared_slots) m[x.first] = ser(x.second); for (auto &x : c.loc) m[x.first] = ser(x.second); return m; }

  const Plan *plan_now = nullptr;
  void step(Ctx &c, const Op &o) {
    sim::OpStat s0 = sim::opstat();
    bool af = prop == "C03" || prop == "C06";
    if (!af) { string out = exec(c, o, o.id); stats(o.id, s0, c.allocs); emit(o.id, 'o', out); return; }
    map<int, string> before; if (prop == "C03") before = snap(c);
    Ctx keep; string kept;
    string out; long unw = plan_now->c("unw");
    if (unw && (o.id * 7 + o.id / 1000) % unw == 0) { // made by a destructor while another exception is on its way
      struct Cleanup { std::function<void()> f; ~Cleanup() { f(); } };
      try { Cleanup d{[&] { out = exec(c, o, o.id, true, &kept); }}; throw 1; } catch (int) {}
    } else out = exec(c, o, o.id, true, &kept);
    stats(o.id, s0, c.allocs);
    bool fired = c.fired;
    emit(o.id, 'o', out);
    if (fired) {
      emit(o.id, 'f', "1");
      if (prop == "C03") {
        map<int, string> after = snap(c);
        for (auto &x : before) if (x.first != o.id && o.k != "drop") { auto i = after.find(x.first); if (i == after.end() || i->second != x.second) sim::violation("operand-changed", "expression in slot " + to_string(x.first) + " changed by op " + to_string(o.id) + " (" + o.k + ") in which an allocation failed: " + x.second + " -> " + (i == after.end() ? "gone" : i->second)); }
        string again = exec(c, o, UID_RETRY + o.id, true);
        emit(o.id, 'r', again);
        map<int, string> after2 = snap(c);
        for (auto &x : before) if (x.first != o.id && o.k != "drop") { auto i = after2.find(x.first); if (i == after2.end() || i->second != x.second) sim::violation("operand-changed", "expression in slot " + to_string(x.first) + " changed by the retry of op " + to_string(o.id)); }
      }
    }
  }
  static void drop_all(map<int, Expr> &m, int uid) { for (auto &x : m) { Expr v; v.swap(x.second); guarded(uid, [&] { Expr w; w.swap(v); }); } m.clear(); }

  void run_thread(const Plan &p, int t, Ctx &c) {
    for (auto &o : p.th[t - 1]) step(c, o);
    c.errs.clear();
    if (!p.c("keep")) drop_all(c.loc, UID_FREE - t);
  }
  static ExprCheck *me;
  static void tmain(void *v) { auto *a = (ThreadArg *)v; sim::Quiet q; me->run_thread(*a->p, a->t, a->ctx); }

  void do_setup(const Plan &p) {
    shared_slots = new map<int, Expr>(); shared_errs = new map<int, std::exception_ptr>();
    Ctx c; c.in_setup = true;
    for (auto &o : p.setup) { sim::OpStat s0 = sim::opstat(); string out = exec(c, o, o.id); stats(o.id, s0, c.allocs); emit(o.id, 'o', out); }
  }
  void program(const Plan &p) override {
    me = this; plan_now = &p; sim::Quiet q;
    if (prop == "C14") return program14(p);
    if (prop == "C07") return program07(p);
    if (prop == "C11") return program11(p);
    do_setup(p);
    vector<ThreadArg> ta(p.th.size());
    if (p.th.size() == 1 && prop != "C01" && !p.c("own")) { ta[0].p = &p; ta[0].t = 1; run_thread(p, 1, ta[0].ctx); }
    else {
      for (size_t i = 0; i < p.th.size(); i++) {
        ta[i].p = &p; ta[i].t = i + 1;
        if (p.c("own")) for (auto &x : *shared_slots) if (x.second) { Expr *dst = &ta[i].ctx.loc[x.first]; const Expr *src = &x.second; guarded(UID_FREE, [&] { *dst = *src; }); }
        sim::spawn(tmain, &ta[i]);
      }
      if (p.c("own")) drop_all(*shared_slots, UID_FREE);
      sim::join_all();
    }
    if (prop == "C04") tail04(p, ta);
    else {
      for (auto &t : ta) { t.ctx.errs.clear(); drop_all(t.ctx.loc, UID_FREE); }
      drop_all(*shared_slots, UID_FREE); shared_errs->clear();
      string l = sim::leaks(); if (!l.empty()) sim::violation("leak", "unreachable memory after everything was released: " + l);
    }
  }
  // reference: dependency closure of one op, serially, in a fresh process without faults
  void alone(const Plan &p, int id) override {
    me = this; sim::Quiet q;
    if (prop == "C07") return alone07(p, id);
    if (prop == "C11") return alone11(p, id);
    map<int, const Op *> all; map<int, int> th;
    for (auto &o : p.setup) all[o.id] = &o;
    for (size_t t = 0; t < p.th.size(); t++) for (auto &o : p.th[t]) { all[o.id] = &o; th[o.id] = t + 1; }
    std::set<int> need; vector<int> todo{id};
    while (!todo.empty()) { int x = todo.back(); todo.pop_back(); if (!need.insert(x).second) continue; auto i = all.find(x); if (i == all.end()) continue; for (int s : i->second->a) if (all.count(s)) todo.push_back(s); }
    // drops of a needed slot by the same client change what later ops see
    shared_slots = new map<int, Expr>(); shared_errs = new map<int, std::exception_ptr>();
    Ctx c; c.in_setup = true;
    for (auto &o : p.setup) if (need.count(o.id)) { string out = exec(c, o, o.id); if (o.id == id) emit(id, 'o', out); }
    c.in_setup = false;
    if (p.c("own")) c.loc.swap(*shared_slots);
    int t = th.count(id) ? th[id] : 0;
    if (t) for (auto &o : p.th[t - 1]) {
      bool dropper = o.k == "drop" && !o.a.empty() && need.count(o.a[0]);
      if (need.count(o.id) || dropper) { string out = exec(c, o, o.id); if (o.id == id) { emit(id, 'o', out); break; } }
      if (o.id == id) break;
    }
  }

  // ---- C04: the same history repeated must not grow
  void tail04(const Plan &p, vector<ThreadArg> &ta) {
    for (auto &t : ta) { t.ctx.errs.clear(); drop_all(t.ctx.loc, UID_FREE); t.ctx.loc.clear(); }
    drop_all(*shared_slots, UID_FREE); shared_errs->clear();
    string l = sim::leaks(); if (!l.empty()) sim::violation("leak", "unreachable memory after everything was released: " + l);
    auto again = [&] {
      Ctx c; c.in_setup = true;
      for (auto &o : p.setup) exec(c, o, UID_RETRY + o.id);
      c.in_setup = false;
      for (auto &th : p.th) { Ctx d; for (auto &o : th) exec(d, o, UID_RETRY + o.id); d.errs.clear(); drop_all(d.loc, UID_FREE); }
      drop_all(*shared_slots, UID_FREE); shared_errs->clear();
    };
    string g = sim::growth(again);
    l = sim::leaks(); if (!l.empty()) sim::violation("leak", "unreachable memory after everything was released: " + l);
    if (!g.empty()) sim::violation("growth", g);
    emit(-1, 'x', to_string(sim::mark().blocks));
  }

  // ---- C07: damaged records
  struct LoadArg { const Plan *p; int t; };
  static void load(const Op &o, bool alone_) {
    sim::OpStat s0 = sim::opstat(); uint64_t al = 0;
    if (o.n.size() > 1 && o.n[1]) sim::count_fault(o.n[1] - 1);
    string out; Expr e;
    if (o.n.size() > 2 && !alone_) for (long i = 0; i < o.n[2]; i++) { guarded(o.id, [&] { Expr t(o.s); }); al += last_allocs; } // the same record again and again
    bool viac = !o.n.empty() && o.n[0] == 1 && o.s.find('\0') == string::npos;
    string ex = guarded(o.id, [&] { if (viac) e = Expr(o.s.c_str()); else e = Expr(o.s); });
    al += last_allocs;
    if (!ex.empty()) out = ex;
    else if (!e) out = "bad:null expression";
    else if (too_big(e, 3000)) { out = "big"; sim::probe(1); }
    else {
      sim::probe(0);
      string sv = ser(e); out = "E:" + sv;
      string r1, r2; uint64_t h1 = 0, h2 = 1; bool same = false; Expr f, g, d;
      auto sub = [&](const char *what, auto fn) { string x = guarded(o.id, fn); al += last_allocs; { std::string y = x; out += string("|") + what + ":" + y; } return x.empty(); };
      sub("repr", [&] { r1 = sym::repr(e); });
      sub("latex", [&] { r2 = sym::repr<Latex>(e); });
      sub("hash", [&] { h1 = std::hash<Expr>()(e); Expr c(e); h2 = std::hash<Expr>()(c); });
      if (h1 != h2) out = "bad:hash of a copy differs";
      sub("eq", [&] { Expr c(e); same = (c == e); });
      if (!same && !has_nan(sv)) out = "bad:copy not equal to itself";
      if (sub("simp", [&] { f = sym::simplify(e); })) out += ser(f);
      if (sub("deriv", [&] { auto x = VarRT::create("x"); d = sym::derivative(e, *x); }) && !too_big(d, 3000)) out += ser(d);
      sub("text", [&] { if (r1.empty()) stator_throw() << "empty text"; });
      if (ser(e) != sv) out = "bad:expression changed while being used";
      out += "|" + r1 + "|" + r2;
      guarded(o.id, [&] { Expr a, b, c, v; a.swap(e); b.swap(f); c.swap(g); v.swap(d); });
    }
    { sim::OpStat b = sim::opstat(); char t[120]; snprintf(t, sizeof t, "%lu %lu %lu %lu %lu", s0.ev, b.ev, s0.st, b.st, al); emit(o.id, 's', t); }
    emit(o.id, 'o', out);
  }
  static void load_thread(void *v) { auto *a = (LoadArg *)v; sim::Quiet q; for (auto &o : a->p->th[a->t - 1]) load(o, false); }
  void program07(const Plan &p) {
    vector<LoadArg> la(p.th.size());
    for (size_t i = 0; i < p.th.size(); i++) { la[i] = LoadArg{&p, (int)i + 1}; }
    if (la.size() == 1) load_thread(&la[0]);
    else { for (auto &l : la) sim::spawn(load_thread, &l); sim::join_all(); }
    string l = sim::leaks(); if (!l.empty()) sim::violation("leak", "unreachable memory after everything was released: " + l);
  }
  void alone07(const Plan &p, int id) { for (auto &t : p.th) for (auto &o : t) if (o.id == id) load(o, true); }

  // ---- C11
  void program11(const Plan &p) { do_setup(p); ThreadArg ta; ta.p = &p; ta.t = 1; Ctx &c = ta.ctx; for (auto &o : p.th[0]) step11(c, o); c.errs.clear(); drop_all(c.loc, UID_FREE); drop_all(*shared_slots, UID_FREE); }
  static void garbage(uint64_t n) { // other activity of the process, dropped again
    for (uint64_t i = 0; i < n; i++) guarded(UID_FREE, [&] { Expr a("sin(x+2)*y^3-ln(z)"); Expr b = sym::simplify(a); string s = sym::repr(b); Expr c("[1,x,2]"); });
    for (uint64_t i = 0; i < n; i++) { // and calls that fail
      static const char *const bad[] = {"((((x", "[[1,[2,", "{x:1,", "sin(cos(exp(", "2*(3+)", "x)", "{2:1}", "1e", "-(-(-("};
      guarded(UID_FREE, [&] { Expr a(bad[i % 9]); }); guarded(UID_FREE, [&] { Expr a("x+1"); double d = a.as<double>(); (void)d; }); guarded(UID_FREE, [&] { Expr a("[1,2]*(y+[3])"); Expr b = sym::simplify(a); }); guarded(UID_FREE, [&] { auto x = VarRT::create("x"); Expr a("{x:y}[x]"); Expr d = sym::derivative(a, *x); });
    }
  }
  static bool has_nan(const string &s) { return s.find("nan") != string::npos; }
  void step11(Ctx &c, const Op &o) {
    if (o.k == "twins") { emit(o.id, 'o', twins(c, o)); return; }
    if (o.k == "pairs") { emit(o.id, 'o', pairs(c, o)); return; }
    if (o.k == "dtwins") { emit(o.id, 'o', dtwins(c, o)); return; }
    if (o.k == "clones") { emit(o.id, 'o', clones(c, o)); return; }
    sim::OpStat s0 = sim::opstat(); string out = exec(c, o, o.id); stats(o.id, s0, c.allocs); emit(o.id, 'o', out);
  }
  static string compare_twins(const Expr &a, const Expr &b, bool text) {
    string bad; uint64_t ha = 0, hb = 0; bool e1 = false, e2 = false, f1 = false, f2 = false; Expr sa, sb, da, db; string ra, rb;
    string ex = guarded(UID_FREE, [&] {
      ha = std::hash<Expr>()(a); hb = std::hash<Expr>()(b); e1 = (a == b); e2 = (b == a);
      auto d = DictRT::create(); (*d)[a] = Expr(1.0); f1 = d->find(b) != d->end(); (*d)[b] = Expr(2.0); f2 = d->size() == 1;
      sa = sym::simplify(a); sb = sym::simplify(b);
      ra = sym::repr(a); rb = sym::repr(b);
    });
    if (!ex.empty()) bad = ex;
    else if (!e1 || !e2) bad = "bad:equal structures compare different";
    else if (ha != hb) bad = "bad:equal structures hash differently";
    else if (!f1 || !f2) bad = "bad:equal structures are not interchangeable as dictionary keys";
    else if (ser(sa) != ser(sb)) bad = "bad:equal structures simplify to different results";
    else if (text && ra != rb) bad = "bad:equal structures print differently: " + ra + " / " + rb;
    if (bad.empty()) {
      string e1x = guarded(UID_FREE, [&] { auto x = VarRT::create("x"); da = sym::derivative(a, *x); });
      string e2x = guarded(UID_FREE, [&] { auto x = VarRT::create("x"); db = sym::derivative(b, *x); });
      if (type_only(e1x) != type_only(e2x) || (da && !too_big(da, 2000) && ser(da) != ser(db))) bad = "bad:equal structures have different derivatives";
    }
    guarded(UID_FREE, [&] { Expr x, y, z, w; x.swap(sa); y.swap(sb); z.swap(da); w.swap(db); });
    for (int k = 0; k < 5 && bad.empty() && !too_big(a, 60); k++) { // an operand met twice, or two equal ones
      Expr p, q, t; string x = guarded(UID_FREE, [&] { p = sym::simplify(bin(k, a, a)); }), y = guarded(UID_FREE, [&] { q = sym::simplify(bin(k, a, b)); t = sym::simplify(bin(k, b, a)); });
      if (type_only(x) != type_only(y) || (x.empty() && y.empty() && !has_nan(ser(p)) && (ser(p) != ser(q) || ser(p) != ser(t)))) bad = "bad:one expression used twice and two equal ones give different results: " + x + ser(p) + " / " + y + ser(q);
      guarded(UID_FREE, [&] { Expr u, v, w; u.swap(p); v.swap(q); w.swap(t); });
    }
    return bad;
  }
  static Expr joined(long k, const Expr &l, const Expr &r) {
    if (k < 5) return bin(k, l, r);
    if (k == 5) { auto p = ArrayRT::create(); p->push_back(l); p->push_back(r); return Expr(p); }
    return Expr(sd::Equality::apply(l, r));
  }
  // expressions made of shared parts must behave as the same ones made of parts of their own
  static string clones(Ctx &c, const Op &o) {
    const Expr *e = find(c, o.a[0]), *f = find(c, o.a[1]); if (!e || !f) return "skip";
    vector<Expr> held, v, w; string r;
    string x = guarded(o.id, [&] {
      v = {joined(o.n[0], *e, *f), joined(o.n[0], *f, *e), joined(o.n[1], *e, *e), *e, *f};
      v.push_back(joined(o.n[2], v[0], v[1])); v.push_back(joined(o.n[2], v[1], v[0])); v.push_back(joined(o.n[2], v[2], v[0]));
      for (auto &y : v) { Clone k; if (!too_big(y, 150)) { k.held = &held; k.times = o.n[3]; } w.push_back(k.go(y)); }
    });
    if (!x.empty()) r = x;
    for (auto &y : v) if (r.empty() && (has_nan(ser(y)) || too_big(y, 150))) r = "skip";
    for (size_t i = 0; i < v.size() && r.empty(); i++) {
      if (ser(v[i]) != ser(w[i])) { r = "bad:the copy differs"; break; }
      for (size_t j = 0; j <= i && r.empty(); j++) {
        bool q[6] = {}; x = guarded(UID_FREE, [&] { q[0] = v[i] == v[j]; q[1] = w[i] == w[j]; q[2] = v[i] == w[j]; q[3] = w[i] == v[j]; q[4] = v[j] == v[i]; q[5] = w[j] == v[i]; });
        if (!x.empty()) r = x; else for (int k = 1; k < 6; k++) if (q[k] != q[0]) { r = "bad:whether two expressions are equal depends on the parts they share: " + ser(v[i]) + " / " + ser(v[j]); break; }
      }
      Expr a, b; size_t h1 = 0, h2 = 0; bool dict = ser(v[i]).find('{') != string::npos; string t1, t2; if (!r.empty()) break;
      string y = guarded(UID_FREE, [&] { h1 = std::hash<Expr>()(v[i]); t1 = sym::repr(v[i]); a = sym::simplify(v[i]); }), z = guarded(UID_FREE, [&] { h2 = std::hash<Expr>()(w[i]); t2 = sym::repr(w[i]); b = sym::simplify(w[i]); });
      if (h1 != h2) r = "bad:the hash depends on shared parts: " + ser(v[i]);
      else if (!dict && t1 != t2) r = "bad:the text depends on shared parts: " + t1 + " / " + t2;
      else if (type_only(y) != type_only(z) || (a && !has_nan(ser(a)) && ser(a) != ser(b))) r = "bad:the simplified form depends on shared parts: " + y + ser(a) + " / " + z + ser(b);
      for (int k = 0; k < 2 && r.empty(); k++) {
        Expr p, q;
        y = guarded(UID_FREE, [&] { if (k) p = sym::sub(v[i], Expr("{x:y, y:x, z:2}")); else { auto t = VarRT::create("x"); p = sym::derivative(v[i], *t); } });
        z = guarded(UID_FREE, [&] { if (k) q = sym::sub(w[i], Expr("{x:y, y:x, z:2}")); else { auto t = VarRT::create("x"); q = sym::derivative(w[i], *t); } });
        if (type_only(y) != type_only(z) || (p && !too_big(p, 2000) && !has_nan(ser(p)) && ser(p) != ser(q))) r = string("bad:") + (k ? "substitution" : "the derivative") + " depends on shared parts: " + ser(v[i]);
        guarded(UID_FREE, [&] { Expr u, t; u.swap(p); t.swap(q); });
      }
      guarded(UID_FREE, [&] { Expr u, t; u.swap(a); t.swap(b); });
    }
    guarded(UID_FREE, [&] { vector<Expr> a, b, d; a.swap(v); b.swap(w); d.swap(held); });
    return r.empty() ? "ok" : r;
  }
  static string twins(Ctx &c, const Op &o) { // the same text loaded twice, apart in time and memory
    Expr a, b; (void)c;
    string x1 = guarded(o.id, [&] { a = Expr(o.s); });
    garbage(o.n.empty() ? 0 : o.n[0]);
    string x2 = guarded(o.id, [&] { b = Expr(o.s); });
    string r;
    if (type_only(x1) != type_only(x2)) r = "bad:same text, different outcome: " + x1 + " / " + x2;
    else if (!x1.empty()) r = x1;
    else if (ser(a) != ser(b)) r = "bad:same text, different structures";
    else if (has_nan(ser(a)) || too_big(a, 400)) r = "E:" + ser(a);
    else { r = compare_twins(a, b, true); if (r.empty()) r = "E:" + ser(a); }
    guarded(UID_FREE, [&] { Expr v, w; v.swap(a); w.swap(b); });
    return r;
  }
  static string pairs(Ctx &c, const Op &o) { // whatever compares equal hashes equally and is one dictionary key
    vector<Expr> v; string r;
    for (int s : o.a) { const Expr *e = find(c, s); if (e) v.push_back(*e); }
    string x = guarded(o.id, [&] {
      Expr z(0.0), m(-0.0), one(1.0), t("x"); v.push_back(z); v.push_back(m); v.push_back(sym::simplify(Expr("-1*0"))); v.push_back(one); v.push_back(sym::simplify(Expr("1-0")));
      for (auto *q : {&z, &m}) { auto l = ArrayRT::create(); l->push_back(*q); l->push_back(t); v.push_back(Expr(l)); auto d = DictRT::create(); (*d)[t] = *q; v.push_back(Expr(d)); v.push_back(Expr(t + *q)); v.push_back(Expr(sym::pow(*q, t))); }
      for (size_t i = v.size() - 13; i-- > 0;) if (!too_big(v[i], 200)) v.push_back(sym::simplify(v[i]));
    });
    if (!x.empty()) r = x;
    for (size_t i = 0; i < v.size() && r.empty(); i++) for (size_t j = 0; j <= i && r.empty(); j++) {
      bool e1 = false, e2 = false, f = false; size_t h1 = 0, h2 = 0, n = 0;
      x = guarded(UID_FREE, [&] { e1 = v[i] == v[j]; e2 = v[j] == v[i]; if (!e1) return; h1 = std::hash<Expr>()(v[i]); h2 = std::hash<Expr>()(v[j]); auto d = DictRT::create(); (*d)[v[i]] = Expr(1.0); f = d->find(v[j]) != d->end(); (*d)[v[j]] = Expr(2.0); n = d->size(); });
      if (!x.empty()) r = x;
      else if (e1 != e2) r = "bad:a == b but not b == a: " + ser(v[i]) + " / " + ser(v[j]);
      else if (i == j && !e1 && !has_nan(ser(v[i]))) r = "bad:not equal to itself: " + ser(v[i]);
      else if (e1 && h1 != h2) r = "bad:equal expressions hash differently: " + ser(v[i]) + " / " + ser(v[j]);
      else if (e1 && !has_nan(ser(v[i])) && (!f || n != 1)) r = "bad:equal expressions are not the same dictionary key: " + ser(v[i]) + " / " + ser(v[j]);
    }
    guarded(UID_FREE, [&] { vector<Expr> w; w.swap(v); });
    return r.empty() ? "ok" : r;
  }
  static string dtwins(Ctx &c, const Op &o) { // a dictionary built in two insertion orders, possibly with overwrites
    Expr a, b; vector<const Expr *> v;
    for (int s : o.a) { const Expr *e = find(c, s); if (!e) return "skip"; v.push_back(e); }
    vector<Expr> extra; size_t more = o.n.size() > 1 ? o.n[1] : 0; extra.reserve(2 * more); // many further entries
    string made = guarded(UID_FREE, [&] { for (size_t i = 0; i < more; i++) { char b[24]; snprintf(b, sizeof b, "q%zu", i * 7 + o.id % 5); extra.push_back(o.n[2] ? Expr(0.25 * i + o.id % 5) : VarRT::create(string(b))); extra.push_back(Expr(1.5 * i - 3)); } });
    if (!made.empty()) { guarded(UID_FREE, [&] { vector<Expr> z; z.swap(extra); }); return made; }
    for (auto &e : extra) v.push_back(&e);
    struct Free { vector<Expr> &x; ~Free() { guarded(UID_FREE, [&] { vector<Expr> z; z.swap(x); }); } } fr{extra};
    size_t n = v.size() / 2; if (n == 0) return "skip";
    // distinct keys only, else the insertion order legitimately decides
    std::set<string> ks; for (size_t i = 0; i < n; i++) if (!ks.insert(ser(*v[2 * i])).second) return "skip";
    for (auto *e : v) if (has_nan(ser(*e))) return "skip";
    uint64_t perm = o.n.empty() ? 1 : o.n[0];
    string x = guarded(o.id, [&] {
      auto p = DictRT::create(); for (size_t i = 0; i < n; i++) (*p)[*v[2 * i]] = *v[2 * i + 1]; a = Expr(p);
      auto q = DictRT::create();
      if (perm & 1) for (size_t i = 0; i < n; i++) (*q)[*v[2 * i]] = Expr(0.5);
      for (size_t i = n; i-- > 0;) { size_t j = (i + perm) % n; (*q)[*v[2 * j]] = *v[2 * j + 1]; } b = Expr(q);
    });
    string r = x;
    if (r.empty()) { if (ser(a) != ser(b)) r = "bad:dictionaries with the same entries differ: " + ser(a) + " / " + ser(b); else { r = compare_twins(a, b, false); if (r.empty()) r = "E:" + ser(a); } }
    for (size_t i = 0; i < v.size() && r[0] == 'E'; i++) if (!too_big(*v[i], 60)) { // substituting by either must do the same
      Expr f, g; string y = guarded(UID_FREE, [&] { f = sym::sub(*v[i], a); }), z = guarded(UID_FREE, [&] { g = sym::sub(*v[i], b); });
      if (type_only(y) != type_only(z) || (y.empty() && z.empty() && ser(f) != ser(g))) r = "bad:substituting by dictionaries with the same entries differs: " + y + ser(f) + " / " + z + ser(g);
      guarded(UID_FREE, [&] { Expr h, k; h.swap(f); k.swap(g); });
    }
    guarded(UID_FREE, [&] { Expr y, z; y.swap(a); z.swap(b); });
    return r;
  }
  void alone11(const Plan &p, int id) {
    map<int, const Op *> all; for (auto &o : p.setup) all[o.id] = &o; for (auto &o : p.th[0]) all[o.id] = &o;
    std::set<int> need; vector<int> todo{id};
    while (!todo.empty()) { int x = todo.back(); todo.pop_back(); if (!need.insert(x).second) continue; auto i = all.find(x); if (i == all.end()) continue; for (int s : i->second->a) if (all.count(s)) todo.push_back(s); }
    shared_slots = new map<int, Expr>(); shared_errs = new map<int, std::exception_ptr>();
    Ctx c; c.in_setup = true;
    for (auto &o : p.setup) if (need.count(o.id)) { string out = exec(c, o, o.id); if (o.id == id) emit(id, 'o', out); }
    c.in_setup = false;
    for (auto &o : p.th[0]) {
      bool dropper = o.k == "drop" && !o.a.empty() && need.count(o.a[0]);
      if (need.count(o.id) || dropper) { if (o.id == id) { step11(c, o); break; } if (o.k != "twins" && o.k != "dtwins" && o.k != "pairs" && o.k != "clones") exec(c, o, o.id); }
      if (o.id == id) break;
    }
  }
  void program14(const Plan &);

  // ------------------------------------------------------------ generation
  void gen(Rng &r, Plan &p) override {
    Gen g(r, p);
    if (prop == "C01") { if (r.below(4)) g.setup(r.range(3, 6)); else g.cold(); g.threads(r.range(2, 3), r.range(2, 5)); if (r.chance(0.5)) add_failing(g); p.cfg["own"] = r.below(3) == 0; p.sched.reuse = r.below(3) ? 0 : 1; }
    else if (prop == "C03") { g.setup(r.range(2, 5)); g.threads(1, r.range(3, 8)); g.heap(); if (r.chance(0.1)) p.cfg["unw"] = r.range(1, 3); }
    else if (prop == "C04") { g.setup(r.range(2, 4)); g.threads(r.range(1, 3), r.range(3, 6)); p.cfg["own"] = r.below(2); g.heap(); add_failing(g); }
    else if (prop == "C06") { g.setup(2); p.cfg["keep"] = 0; gen06(g); }
    else if (prop == "C07") gen07(g);
    else if (prop == "C11") gen11(g);
    else if (prop == "C14") gen14(g);
  }
  void add_failing(Gen &g) { // make sure failure paths are taken
    for (auto &t : p_th(g)) for (auto &o : t) if (g.r.chance(0.15)) { Op f; f.id = o.id; fail_op(g, f); o = f; }
  }
  static vector<vector<Op>> &p_th(Gen &g) { return g.p.th; }
  static void fail_op(Gen &g, Op &o) {
    Rng &r = g.r;
    switch (r.below(11)) {
      case 9: case 10: o.k = "parse"; o.s = g.tg.bad(); break;
      case 0: o.k = "parse"; o.s = g.tg.expr(1) + "+"; break;
      case 1: o.k = "parse"; o.s = "(" + g.tg.expr(2); break;
 case 2: if (r.chance(0.15)) { o.k = "parse"; o.s = g.tg.expr(1); for (int n = r.range(100, 3000); (int)o.s.size() < n;) o.s += "+" + g.tg.expr(1); o.s += " )"; break; }
        o.k = "parse"; o.s = "1.5.2+" + g.tg.expr(1); break;
      case 3: o.k = "parse"; o.s = g.tg.expr(1) + " # " + g.tg.expr(1); break;
      case 4: o.k = "asv"; o.a = {g.p.setup.back().id}; break;
      case 5: o.k = "asd"; o.a = {g.dicts[0]}; break;
      case 6: o.k = "throwmsg"; o.s = r.chance(0.5) ? "short" : "a rather long message that cannot be kept inside the string object itself "; if (r.chance(0.3)) { string w = o.s; int n = r.chance(0.7) ? r.range(200, 1500) : r.range(1500, 9000); for (int i = 0; (int)o.s.size() < n; i++) o.s += w + to_string(i); } o.d = r.unit() * 10; o.n = {(long)r.below(1000)}; if (r.chance(0.5)) o.a = {g.exprs[r.below(g.exprs.size())]}; break;
      case 7: o.k = "parse"; o.s = "[1,2]+[1,2,3]"; break;
      default: o.k = "deriv"; o.a = {g.exprs[0], g.dicts[0]}; break;
    }
  }
  void gen06(Gen &g) {
    Rng &r = g.r; Plan &p = g.p; vector<int> errs; if (r.chance(0.3)) p.cfg["unw"] = r.range(1, 3);
    for (int i = r.range(1, 3); i-- > 0;) { Op o; o.id = g.nextid++; fail_op(g, o); p.setup.push_back(o); errs.push_back(o.id); }
    int nt = r.range(1, 3);
    for (int t = 0; t < nt; t++) {
      p.th.emplace_back(); vector<int> mine = errs;
      for (int j = 0; j < r.range(2, 5); j++) {
        Op o; o.id = 1000 * (t + 1) + j;
        switch (r.below(6)) {
          case 0: fail_op(g, o); mine.push_back(o.id); break;
          case 1: o.k = "excopy"; o.a = {mine[r.below(mine.size())]}; break;
          case 2: case 3: o.k = "what"; o.a = {mine[r.below(mine.size())]}; break;
          default: o.k = "whathold"; o.a = {r.chance(0.7) ? errs[r.below(errs.size())] : mine[r.below(mine.size())]}; if (r.chance(0.5)) { int k = mine[r.below(mine.size())]; if (k != o.a[0]) o.a.push_back(k); if (r.chance(0.6)) { static const long reads[] = {2, 5, 17, 70, 300}; o.n = {reads[r.below(5)]}; } } break;
        }
        p.th[t].push_back(o);
      }
    }
  }
  void gen07(Gen &g) {
    Rng &r = g.r; Plan &p = g.p; g.tg.absval = true;
    vector<string> store; for (int i = r.range(3, 6); i-- > 0;) store.push_back(g.tg.any());
    if (r.chance(0.5)) { // deeply nested records
      string a, z, x = g.tg.expr(r.below(2)); static const char *const op[] = {"[", "(", "-", "sin(", "|", "{x:", "[x,", "2*(", "x-(", "ln ", "(1+", "exp("}, *const cl[] = {"]", ")", "", ")", "|", "}", "]", ")", ")", "", ")", ")"};
      int one = r.below(12), two = r.chance(0.6) ? one : (int)r.below(12);
      for (int i = r.range(3, r.chance(0.5) ? 12 : 70); i-- > 0;) { int k = r.chance(0.5) ? one : two; a += op[k]; z = cl[k] + z; }
      store.push_back(a + x + z);
    }
    if (r.chance(0.25)) { // very long tokens
      int n = r.range(20, r.chance(0.5) ? 200 : 3500); string w;
      switch (r.below(4)) { case 0: while ((int)w.size() < n) w += '0' + r.below(10); break; case 1: w = "0."; while ((int)w.size() < n) w += '0' + r.below(10); break; case 2: while ((int)w.size() < n) w += 'a' + r.below(26); break; default: w = "1e" + string(n, '0') + "3"; }
      store.push_back(r.chance(0.5) ? w : g.tg.var() + "*" + w + "+" + g.tg.number());
    }
    int nt = r.chance(0.6) ? 1 : 2;
    for (int t = 0; t < nt; t++) {
      p.th.emplace_back();
      for (int j = 0, n = r.range(3, 8); j < n; j++) { Op o; o.id = 1000 * (t + 1) + j; o.k = "load"; o.s = store[r.below(store.size())]; o.n = {(long)r.below(2), 0}; p.th[t].push_back(o); }
    }
    g.heap();
  }
  void gen11(Gen &g) {
    Rng &r = g.r; Plan &p = g.p;
    g.setup(r.range(3, 6)); g.threads(1, r.range(10, 25));
    for (auto &o : p.th[0]) {
      if (r.chance(0.2)) { Op t; t.id = o.id; t.k = "twins"; t.s = r.chance(0.85) ? g.tg.any() : g.tg.bad(); t.n = {(long)(r.chance(0.05) ? r.below(60) : r.below(3))}; o = t; }
      else if (r.chance(0.05)) { Op t; t.id = o.id; t.k = "pairs"; for (int i = r.range(0, 4); i-- > 0;) t.a.push_back(g.exprs[r.below(g.exprs.size())]); o = t; }
      else if (r.chance(0.05)) { Op t; t.id = o.id; t.k = "clones"; for (int i = 0; i < 2; i++) t.a.push_back(r.chance(0.3) ? g.vars[r.below(g.vars.size())] : g.exprs[r.below(g.exprs.size())]); t.n = {(long)r.below(7), (long)r.below(7), (long)r.below(7), (long)r.below(4)}; o = t; }
      else if (r.chance(0.12)) { Op t; t.id = o.id; t.k = "dtwins"; int n = r.range(2, 6); bool vk = r.below(2), vv = r.below(2); for (int i = 0; i < n; i++) { t.a.push_back(vk ? g.vars[(i + o.id) % g.vars.size()] : g.exprs[r.below(g.exprs.size())]); t.a.push_back(vv ? g.vars[r.below(g.vars.size())] : g.exprs[r.below(g.exprs.size())]); } t.n = {(long)r.below(8)}; if (r.chance(0.25)) { t.n.push_back(r.range(3, 24)); t.n.push_back(r.below(2)); } o = t; }
    }
  }
  void gen14(Gen &g);
  int variants(Rng &, const Plan &p) override {
    if (prop == "C03") return 60; if (prop == "C07") return 30; if (prop == "C01") return 40; if (prop == "C11") return 6; if (prop == "C14") return 12;
    return 30;
  }
  void vary(Rng &r, Plan &p, const RunResult &base) override {
    BaseStats b(base);
    if (prop == "C01") { add_switches(r, p, b, 6); }
    else if (prop == "C03") add_alloc_faults(r, p, b, 2);
    else if (prop == "C04") { add_switches(r, p, b, 5); if (r.chance(0.8)) add_alloc_faults(r, p, b, 3); Gen g(r, p); g.heap(); }
    else if (prop == "C06") { add_switches(r, p, b, 5); if (r.chance(0.6)) { add_alloc_faults(r, p, b, 2); for (auto &f : p.sched.af) if (f.op < 1000 && r.chance(0.7)) { auto &t = p.th[r.below(p.th.size())]; if (!t.empty()) { f.op = t[r.below(t.size())].id; f.nth = 1 + r.below(3); } } } }
    else if (prop == "C07") {
      vector<string> pool; for (auto &t : p.th) for (auto &o : t) pool.push_back(o.s);
      for (auto &t : p.th) for (auto &o : t) if (r.chance(0.6)) { o.n[1] = 1 + damage(r, o.s, pool[r.below(pool.size())]); if (r.chance(0.3)) damage(r, o.s, pool[r.below(pool.size())]); }
      if (r.chance(0.05)) { auto &t = p.th[r.below(p.th.size())]; if (t.size() > 1) { size_t k = r.below(t.size() - 1); for (size_t i = 0; i + 1 < t.size(); i++) if (t[i].s.size() > t[k].s.size() && r.chance(0.5)) k = i; auto &o = t[k]; if (o.n.size() < 3) { o.n.push_back(r.range(20, 400)); if (r.chance(0.5)) { string cut = o.s; for (size_t b; (b = cut.find_last_of(")]}|")) != string::npos && r.chance(0.9);) cut.erase(b, 1); if (cut != o.s) { o.s = cut; o.n[1] = 8; } } } } }
      if (r.chance(0.3)) for (auto &t : p.th) for (size_t i = t.size(); i > 1; i--) { size_t j = r.below(i); std::swap(t[i - 1], t[j]); }
      add_switches(r, p, b, 4); Gen g(r, p); g.heap();
    }
    else if (prop == "C11") { Gen g(r, p); g.heap(); }
    else if (prop == "C14") vary14(r, p, base);
  }
  void vary14(Rng &, Plan &, const RunResult &);
  bool restart(const Plan &, const RunResult &, Plan &) override;

  Verdict judge(const Plan &p, const RunResult &r, std::function<const RunResult &(int)> ref) override {
    if (prop == "C14") return judge14(p, r, ref);
    map<int, const Op *> all; for (auto &o : p.setup) all[o.id] = &o; for (auto &t : p.th) for (auto &o : t) all[o.id] = &o;
    std::set<int> fired; for (auto &x : r.recs) if (x.type == 'f') fired.insert(x.id);
    // slots tainted by a failed operation: later operations of the same client see a missing operand
    std::set<int> tainted; bool anyaf = !p.sched.af.empty();
    for (auto &x : r.recs) {
      if (x.type != 'o' && x.type != 'r') continue;
      auto it = all.find(x.id); if (it == all.end()) continue;
      const Op &o = *it->second;
      if (x.text.compare(0, 4, "bad:") == 0) return Verdict{"wrong-result", "op " + to_string(x.id) + " (" + o.k + "): " + x.text};
      if (x.text.compare(0, 10, "ex:unknown") == 0) return Verdict{"foreign-exception", "op " + to_string(x.id) + " (" + o.k + ") threw something that is not a std::exception"};
      if (anyaf && prop != "C03") for (int s : o.a) if (tainted.count(s)) { tainted.insert(x.id); break; }
      if (anyaf && x.text == "oom" && x.type == 'o') { tainted.insert(x.id); continue; }
      if (tainted.count(x.id) && prop != "C03") continue;
      if (prop == "C07" && o.n[1] != 0) continue; // damaged: any clean outcome will do
      const RunResult &f = ref(x.id);
      if (!f.kind.empty()) return Verdict{"reference-" + f.kind, "op " + to_string(x.id) + " (" + o.k + ") executed alone: " + f.msg};
      const Rec *q = f.find(x.id); if (!q) return Verdict{"harness", "no reference outcome for op " + to_string(x.id)};
      string a = x.text, b = q->text;
      if (anyaf) { a = type_only(a); b = type_only(b); }
      if (prop == "C06" && (o.k == "what" || o.k == "whathold" || o.k == "excopy") && anyaf) {
        // the text of an error raised while memory was short may be shorter, but is then the same for every reader
        bool src_clean = true; for (int s : o.a) if (fired.count(s)) src_clean = false; for (auto &fa : p.sched.af) for (int s : o.a) if (fa.op == s) src_clean = false;
        if (!src_clean) continue; a = x.text; b = q->text;
      }
      if (prop == "C06" && (o.k == "what" || o.k == "whathold" || o.k == "excopy") && !o.a.empty() && a.compare(0, 2, "S:") == 0) {
        auto i = all.find(o.a[0]); size_t at;
        if (i != all.end() && i->second->k == "throwmsg" && ((at = a.find(i->second->s)) == string::npos || a.find(" " + to_string(i->second->n.at(0)), at + i->second->s.size()) == string::npos)) return Verdict{"message-incomplete", "op " + to_string(x.id) + " (" + o.k + "): the message does not hold what was put into it: <" + x.text + ">"};
      }
      if (a != b) return Verdict{x.type == 'r' ? "retry-differs" : "outcome-differs", "op " + to_string(x.id) + " (" + o.k + " " + esc(o.s) + "): got <" + x.text + "> but alone it gives <" + q->text + ">"};
    }
    return Verdict{};
  }
  Verdict judge14(const Plan &, const RunResult &, std::function<const RunResult &(int)>);

  bool nontrivial(const Plan &p, const RunResult &r) override {
    if (prop == "C07") { for (auto &t : p.th) for (auto &o : t) if (o.n[1]) return true; return false; }
    if (prop == "C11") return p.sched.reuse != 0 || p.sched.skew != 0;
    return Check::nontrivial(p, r);
  }
  vector<const char *> fault_names() override {
    vector<const char *> v = Check::fault_names();
    if (prop == "C07") { v.clear(); for (auto n : damage_names) v.push_back(n); v.resize(16, nullptr); v[15] = "refused-huge-allocation"; return v; }
    v.resize(16, nullptr); v[14] = "crash"; v[15] = "refused-huge-allocation";
    return v;
  }
  vector<const char *> probe_names() override {
    vector<const char *> v(16, nullptr); v[15] = "waits-on-static-initialisation";
    if (prop == "C07") { v[0] = "loads-giving-an-expression"; v[1] = "loads-too-big-to-use"; }
    if (prop == "C14") { v[0] = "complete-records-recovered"; v[1] = "torn-records-rejected"; v[2] = "torn-records-loaded"; v[3] = "parts-with-comparable-values"; }
    return v;
  }
  const char *rule() override {
    if (prop == "C07") return "runs with at least one damaged record, distinct by trace, length and recorded outcomes";
    if (prop == "C11") return "runs with an address-reuse policy or layout skew, distinct by access trace and recorded outcomes";
    if (prop == "C03") return "runs in which at least one injected allocation failure fired, distinct by access trace (which includes the point of failure) and recorded outcomes";
    if (prop == "C14") return "runs with a crash, distinct by trace, crash point and recorded outcomes";
    return "runs with a pre-emption inside an operation or a fired fault, distinct by the global sequence of shared accesses and switches and the recorded outcomes";
  }
  bool shrink_op(Op &o, int k) override {
    if (o.k == "parse" || o.k == "parsec" || o.k == "load" || o.k == "save" || o.k == "twins") {
      size_t n = o.s.size(); if (n < 2) return false;
      if (k == 0) o.s = o.s.substr(0, n / 2); else if (k == 1) o.s = o.s.substr(n / 2); else if (k == 2) o.s = o.s.substr(0, n - 1); else if (k == 3) o.s = o.s.substr(1);
      else if (k < 12) { size_t w = std::max<size_t>(1, n / 8), i = (k - 4) * n / 8; if (i + w > n) return false; o.s.erase(i, w); }
      else return false;
      return true;
    }
    return false;
  }
};
ExprCheck *ExprCheck::me;

#include "expr_c14.h"
} // namespace

Check *make_check(const string &p) {
  for (auto x : {"C01", "C03", "C04", "C06", "C07", "C11", "C14"}) if (p == x) return new ExprCheck(p);
  return nullptr;
}
