// C14: save expressions as text to a simulated disk, crash, restart in a fresh process, recover.  (included by expr_world.cpp)

struct Shape : Ser { };
string shape_of(const string &s) { // structure with the numbers masked
  string o; for (size_t i = 0; i < s.size();) { if ((s[i] == '-' || (s[i] == '0')) && s.compare(i + (s[i] == '-'), 2, "0x") == 0) { o += '#'; while (i < s.size() && s[i] != ')' && s[i] != ',' && s[i] != ';') i++; } else o += s[i++]; }
  return o;
}

// ---- the writer
void put_disk(int id, const string &bytes) { emit(id, 'd', bytes); }
struct SaveArg { const Plan *p; int t; Ctx ctx; };
// a record that is not a normal form (an underflowing product leaves one) is simplified further when it is loaded: its value is then the value of that limit
string settled(int id, const Expr &e) {
  string out;
  string x = guarded(id, [&] { Expr s = e; string last; for (int i = 0; i < 6; i++) { string now = ser(s); if (now == last) break; last = now; s = sym::simplify(s); } out = value_text(s); });
  return x.empty() ? out : "";
}
void save_thread(void *v) {
  auto *a = (SaveArg *)v; sim::Quiet q; Ctx &c = a->ctx; const Plan &p = *a->p;
  for (auto &o : p.th[a->t - 1]) {
    if (o.k != "save") { string out = exec(c, o, o.id); emit(o.id, 'o', out); continue; }
    const Expr *e = find(c, o.a[0]); if (!e || too_big(*e, 300)) { emit(o.id, 'o', "skip"); continue; }
    Expr s; string text;
    string x = guarded(o.id, [&] { s = sym::simplify(*e); text = sym::repr(s); });
    if (!x.empty()) { emit(o.id, 'o', x); continue; }
    string sv = ser(s);
    if (sv.find("nan") != string::npos || sv.find("inf") != string::npos || sv.find("u6(") != string::npos || sv.find("u7(") != string::npos) { emit(o.id, 'o', "skip"); guarded(UID_FREE, [&] { Expr d; d.swap(s); }); continue; }
    emit(o.id, 'v', value_text(s)); emit(o.id, 'S', sv); emit(o.id, 't', text);
    { string again; string y = guarded(o.id, [&] { Expr s2 = sym::simplify(s); again = sym::repr(s2); }); if (y.empty() && again == text) emit(o.id, 'i', "1"); else emit(o.id, 'u', settled(o.id, s)); } // a normal form: writing it again must give the same text
    guarded(UID_FREE, [&] { Expr d; d.swap(s); });
    // append to this client's log: header, then the text in chunks; the process may die between any two chunks
    char h[64]; snprintf(h, sizeof h, "%zu\n", text.size());
    uint64_t w0 = sim::opstat().total;
    put_disk(o.id, h);
    size_t chunk = 1 + o.n[0];
    for (size_t i = 0; i < text.size(); i += chunk) { { sim::Lib l(o.id); for (int k = 0; k < 20; k++) sim::yield_point(); } put_disk(o.id, text.substr(i, chunk)); }
    { sim::Lib l(o.id); sim::yield_point(); }
    put_disk(o.id, "\n");
    { char b[80]; snprintf(b, sizeof b, "%lu %lu", w0, sim::opstat().total); emit(o.id, 'w', b); }
    emit(o.id, 'o', "saved");
  }
  c.errs.clear(); ExprCheck::drop_all(c.loc, UID_FREE);
}
// ---- the recovering process
void recover_thread(void *v) {
  auto *a = (SaveArg *)v; sim::Quiet q; const Plan &p = *a->p;
  for (auto &o : p.th[a->t - 1]) {
    Expr e, s; string text; bool complete = o.n[0];
    string x = guarded(o.id, [&] { e = Expr(o.s); });
    if (!x.empty()) { emit(o.id, 'R', complete ? "rejected:" + x : "torn:rejected"); if (!complete) sim::probe(1); continue; }
    x = guarded(o.id, [&] { text = sym::repr(e); });
    if (!complete) sim::probe(2);
    if (complete) { sim::probe(0); emit(o.id, 'V', value_text(e)); emit(o.id, 'W', ser(e)); emit(o.id, 'U', settled(o.id, e)); emit(o.id, 'T', text); }
    emit(o.id, 'R', complete ? "loaded" : "torn:loaded");
    guarded(UID_FREE, [&] { Expr d; d.swap(e); });
  }
}
void ExprCheck::program14(const Plan &p) {
  shared_slots = new map<int, Expr>(); shared_errs = new map<int, std::exception_ptr>();
  vector<SaveArg> sa(p.th.size());
  for (size_t i = 0; i < sa.size(); i++) { sa[i].p = &p; sa[i].t = i + 1; }
  auto fn = p.c("phase") == 2 ? recover_thread : save_thread;
  for (auto &s : sa) sim::spawn(fn, &s);
  sim::join_all();
}
bool ExprCheck::restart(const Plan &p, const RunResult &r, Plan &p2) {
  if (prop != "C14" || p.c("phase") == 2) return false;
  p2 = p; p2.cfg["phase"] = 2; p2.sched.sw.clear(); p2.sched.af.clear(); p2.sched.crash = 0;
  if (p.sched.sw.size()) for (auto s : p.sched.sw) { s.at = s.at / 2 + 1; p2.sched.sw.push_back(s); } // interleave the recovering clients as well
  for (auto &t : p2.th) t.clear();
  std::map<int, string> bytes; vector<int> order;
  for (auto &x : r.recs) if (x.type == 'd') { if (!bytes.count(x.id)) order.push_back(x.id); bytes[x.id] += x.text; }
  for (int id : order) {
    const string &b = bytes[id]; auto nl = b.find('\n'); if (nl == string::npos) continue;
    size_t len = strtoul(b.c_str(), 0, 10); string text = b.substr(nl + 1, len); bool complete = b.size() >= nl + 1 + len && b.size() > nl + 1 + len && b[nl + 1 + len] == '\n';
    Op o; o.id = id; o.k = "recover"; o.s = text; o.n = {complete}; p2.th[id / 1000 - 1].push_back(o);
  }
  return true;
}
Verdict ExprCheck::judge14(const Plan &p, const RunResult &r, std::function<const RunResult &(int)>) {
  map<int, map<char, string>> m;
  for (auto &x : r.recs) if (x.type != 'd') m[x.id][x.type] = x.text;
  for (auto &x : m) {
    auto &f = x.second;
    if (!f.count('R')) continue;
    const string &st = f['R'];
    if (st.compare(0, 4, "torn") == 0) continue;
    if (st.compare(0, 8, "rejected") == 0) return Verdict{"record-lost", "record " + to_string(x.first) + " stored completely as <" + f['t'] + "> is rejected after restart: " + st};
    string why; bool cmp = false;
    string why2; bool cmp2 = false;
    if (!values_agree(f['v'], f['V'], why, cmp) && !(!f.count('i') && f['u'].size() && f['U'].size() && values_agree(f['u'], f['U'], why2, cmp2))) return Verdict{"value-changed", "record " + to_string(x.first) + " saved as <" + f['t'] + ">: " + why + " (structure " + f['S'] + " -> " + f['W'] + ")"};
    if (shape_of(f['S']) == shape_of(f['W']) && f['S'] != f['W']) return Verdict{"number-changed", "record " + to_string(x.first) + " saved as <" + f['t'] + ">: a number is not recovered to the last bit (" + f['S'] + " -> " + f['W'] + ")"};
    if (f.count('i') && f['t'] != f['T']) {
      bool dict = f['t'].find('{') != string::npos && f['t'].find(':') != string::npos;
      if (!dict || shape_of(f['S']) != shape_of(f['W'])) return Verdict{"text-changed", "record " + to_string(x.first) + " saved as <" + f['t'] + "> is saved again as <" + f['T'] + ">"};
    }
  }
  return Verdict{};
}
void ExprCheck::gen14(Gen &g) {
  Rng &r = g.r; Plan &p = g.p; int nt = r.range(1, 3);
  auto num = [&]() -> double {
    switch (r.below(10)) { case 9: switch (r.below(5)) { case 0: return std::ldexp(r.unit() + 0.5, -r.range(1015, 1074)); case 1: return std::ldexp(r.unit() - 1.5, 1022); case 2: return std::pow(10.0, r.range(-22, 22)) * r.range(1, 9); case 3: return std::nextafter((double)r.range(-3, 3), r.unit() * 10 - 5); default: return std::ldexp(1.0, r.range(-70, 70)) * (r.below(2) ? 1 : -1); } case 8: return (double)((long long)(r.next() >> r.range(1, 62)) * (r.below(2) ? 1 : -1)); case 0: return r.range(-9, 9); case 1: return (r.unit() - 0.5) * 10; case 2: return std::ldexp(r.unit() - 0.5, r.range(-60, 60)); case 3: { uint64_t b = r.next(); double d; memcpy(&d, &b, 8); return std::isfinite(d) ? d : 1.5; } case 4: return -0.5; case 5: return 1.0 / r.range(3, 99); default: return r.unit() * 3; }
  };
  for (int t = 0; t < nt; t++) {
    p.th.emplace_back(); auto &ops = p.th.back(); int j = 0, base = 1000 * (t + 1); vector<int> ex, nums;
    auto add = [&](Op o) { o.id = base + j++; ops.push_back(o); return o.id; };
    string longname; for (size_t i = 0, n = r.chance(0.5) ? 31 + r.below(6) : r.range(4, 150); i < n; i++) longname += 'a' + r.below(26);
    for (string n : {string("x"), string("y"), r.chance(0.5) ? string("averyveryverylongvariablename") : longname}) { Op o; o.k = "var"; o.s = n; ex.push_back(add(o)); }
    for (int i = 0; i < 4; i++) { Op o; o.k = "const"; o.d = num(); int id = add(o); ex.push_back(id); nums.push_back(id); }
    { Op o; o.k = "parse"; o.s = g.tg.expr(r.range(1, 3)); ex.push_back(add(o)); }
    for (int i = r.range(3, 10); i-- > 0;) {
      Op o; auto e = [&] { return ex[r.below(ex.size())]; };
      switch (r.below(12)) {
        case 0: o.k = "un"; o.n = {(long)r.below(4)}; o.a = {e()}; break;
        case 1: o.k = "un"; o.n = {6}; o.a = {e()}; break;
        case 2: o.k = "simp"; o.a = {e()}; break;
        case 3: o.k = "deriv"; o.a = {e(), base}; break;
        case 4: case 5: o.k = "bin"; o.n = {4}; o.a = {e(), e()}; break;
        default: o.k = "bin"; o.n = {(long)r.below(4)}; o.a = {e(), e()}; break;
      }
      int id = add(o); ex.push_back(id);
      int what = id;
      if (r.chance(0.3)) { Op c; auto e2 = [&] { return ex[r.below(ex.size())]; };
        switch (r.below(5)) {
          case 0: c.k = "arr"; for (int k = r.range(0, 3); k-- > 0;) c.a.push_back(e2()); break;
          case 1: c.k = "dict"; for (int k = 0, n = r.range(0, 3); k < n; k++) { c.a.push_back(base + k); c.a.push_back(e2()); } break;
          case 2: c.k = "bin"; c.n = {5}; c.a = {base, e2()}; break;
          case 3: c.k = "bin"; c.n = {7}; c.a = {e2(), base + 1}; break;
          default: c.k = "bin"; c.n = {8}; c.a = {nums[r.below(nums.size())], nums[r.below(nums.size())]}; break;
        }
        what = add(c); }
      else if (r.chance(0.06)) { // a long list, or a dictionary with many entries
        bool d = r.below(2); vector<int> keys; Op c; c.k = d ? "dict" : "arr"; int n = r.range(4, 40);
        for (int k = 0; k < n; k++) { if (d) { Op v; v.k = "var"; v.s = string("k") + (char)(97 + k % 26) + (char)(97 + k / 26) + (k % 5 ? "" : string(r.below(40), (char)(97 + r.below(26)))); c.a.push_back(add(v)); } Op w; w.k = "const"; w.d = num(); c.a.push_back(r.chance(0.6) ? add(w) : nums[r.below(nums.size())]); }
        what = add(c); }
      Op s; s.k = "save"; s.a = {what}; s.n = {(long)r.below(12)}; add(s);
    }
  }
}
void ExprCheck::vary14(Rng &r, Plan &p, const RunResult &base) {
  vector<std::pair<uint64_t, uint64_t>> w; for (auto &x : base.recs) if (x.type == 'w') { unsigned long a = 0, b = 0; sscanf(x.text.c_str(), "%lu %lu", &a, &b); w.emplace_back(a, b); }
  if (!w.empty() && r.chance(0.6)) { auto &x = w[r.below(w.size())]; p.sched.crash = 1 + x.first + r.below(x.second - x.first + 2); }
  else if (r.chance(0.7)) p.sched.crash = 1 + r.below(base.head.raw + 1);
  int nt = p.th.size();
  if (nt > 1) for (int i = r.range(0, 4); i-- > 0;) { sim::Switch s; s.tid = r.range(1, nt); s.mode = 0; s.at = 1 + r.below(base.head.evs / nt + 1); s.to = r.range(1, nt); p.sched.sw.push_back(s); }
}
