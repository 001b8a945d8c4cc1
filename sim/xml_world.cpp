// XML world (C12): a document is loaded from a simulated file whose opens, seeks and reads fail in seeded ways, then navigated,
// converted and edited, with allocations failing, next to a reference tree made from the bytes that were actually delivered.
#include <limits>
#include <sstream>
#include <stator/xml.hpp>
#include "guard.h"
#include "plangen.h"
#include "memcheck.h"
#include "gentext.h"
#include <memory>
using xw::guarded; using xw::last_fired; using xw::last_allocs; using std::to_string;
namespace rx = rapidxml;

namespace {
typedef rx::xml_node<> N; typedef rx::xml_attribute<> A;
constexpr int FLAGS = rx::parse_non_destructive | rx::parse_validate_closing_tags | rx::parse_trim_whitespace;
string nm(const rx::xml_base<> *n) { return string(n->name(), n->name_size()); }
string val(const rx::xml_base<> *n) { return string(n->value(), n->value_size()); }
string path(const N *n) { // /name[index of it among the siblings of that name]/...
  if (!n || !n->parent()) return "";
  int i = 0, all = 0; for (N *c = n->parent()->first_node(); c; c = c->next_sibling()) if (nm(c) == nm(n)) { if (c == n) i = all; all++; }
  return path(n->parent()) + "/" + nm(n) + (all > 1 ? "[" + to_string(i) + "]" : "");
}
string printed(const N &n) { string s; rx::print(std::back_inserter(s), n, 0); return s; }
bool plain_number(const string &s) { if (s.empty() || s.size() > 15) return false; size_t i = s[0] == '-'; int d = 0, dots = 0; for (; i < s.size(); i++) if (s[i] == '.') dots++; else if (isdigit((unsigned char)s[i])) d++; else return false; return d && dots <= 1 && s.back() != '.' && s[s[0] == '-'] != '.'; }
bool surely_not_number(const string &s) { // or a number followed by something else
  if (s.empty() || strchr("ghkqsvwz<!", s[0])) return true; size_t i = s[0] == '-'; if (!isdigit((unsigned char)s[i]) || s[i] == '0') return false; while (isdigit((unsigned char)s[i]) || s[i] == '.') i++; return s[i] && strchr("ghkqsvwxyz<!", s[i]); }

struct Handle { stator::xml::Node node{nullptr, nullptr}; N *m = nullptr, *parent = nullptr; bool set = false; };
struct World {
  sim::SimFile f; string kept; rx::xml_document<> *ref = nullptr; stator::xml::Document *doc = nullptr; vector<Handle> h; bool loaded = false;
};
__thread World *w; __thread bool op_fired;
bool threads = false; // C15: several threads
bool is_ex(const string &s) { return s.compare(0, 13, "ex:Exception:") == 0; }

string load(const Op &o, bool blank) {
  string ex = guarded(o.id, [&] { if (blank) w->doc = new stator::xml::Document(); else w->doc = new stator::xml::Document(o.s.empty() ? string("input.xml") : o.s); });
  op_fired = last_fired; auto &f = w->f; w->ref = new rx::xml_document<>();
  if (!ex.empty()) w->doc = nullptr;
  if (f.opens != f.closes + (f.open_errno ? f.opens : 0)) return "bad:the file was left open (" + ex + ")";
  if (ex == "oom" && !last_fired && f.size_lie < 0) return "bad:out of memory without an allocation having failed";
  if (blank) { w->loaded = w->doc; return ex; }
  if (f.open_errno) return is_ex(ex) || ex == "oom" ? "not opened" : "bad:opening failed but the result is <" + ex + ">";
  w->kept = f.delivered; string refex; long at = -1;
  try { w->ref->parse<FLAGS>(&w->kept[0]); } catch (rx::parse_error &e) { refex = e.what(); at = e.where<char>() - w->kept.data(); }
  bool io = f.fired && (f.eio || f.seek_fail || f.size_lie >= 0);
  if (ex.empty()) {
    if (!refex.empty()) return "bad:loaded although the bytes read do not parse: " + refex;
    w->loaded = true; return "loaded";
  }
  if (ex == "oom") return "oom";
  if (io && ex.compare(0, 3, "ex:") == 0 && ex != "ex:unknown:") return is_ex(ex) ? "rejected" : "io error";
  if (refex.empty()) return "bad:the bytes read parse, but loading fails with <" + ex + ">";
  if (!is_ex(ex)) return "bad:a parse error is reported as <" + ex + ">";
  long line = 1, start = 0; for (long i = 0; i < at; i++) if (w->kept[i] == '\n') { line++; start = i + 1; }
  if (last_fired) return "rejected";
  string where = "line " + to_string(line) + ", char " + to_string(at - start);
  if (ex.find(where + ":") == string::npos || ex.find(refex) == string::npos) return "bad:the parse error \"" + refex + "\" is at " + where + " but the message is <" + ex + ">";
  return "rejected " + where;
}

// every operation on the document; returns its outcome or "bad:..."
string step(const Op &o) {
  if (!w->loaded) return "no document";
  long num = o.n[3]; int k = o.n[0]; size_t at = o.n[1] % w->h.size(); string aim = o.s;
  if (num >= 300) { // aimed at something that is there
    for (size_t i = 0; i < w->h.size() && !(w->h[at].set && w->h[at].m); i++) at = (at + 1) % w->h.size();
    if (N *t = w->h[at].set ? w->h[at].m : nullptr) {
      vector<string> names;
      if (k == 1 || k == 2 || k == 3 || k == 12) for (N *c = t->first_node(); c; c = c->next_sibling()) if (c->type() == rx::node_element) names.push_back(nm(c));
      if ((k >= 13 && k <= 18) || k == 30 || k == 31) for (A *a = t->first_attribute(); a; a = a->next_attribute()) {
        string x(a->name(), a->name_size()); if ((k == 16 || k == 17) && !isdigit(val(t->first_attribute(x.c_str())).c_str()[0]) && val(t->first_attribute(x.c_str()))[0] != '-') continue;
        names.push_back(x);
      }
      if (!names.empty()) aim = names[num / 7 % names.size()];
    }
  }
  auto &D = *w->doc; Handle &h = w->h[at], &dst = w->h[o.n[2] % w->h.size()];
  const string s = aim, v = o.k == "x" ? "" : o.k; double dv = o.d; const char *cs = s.c_str();
  if (k != 0 && k != 25 && k != 26 && !h.set) return "empty";
  std::map<string, int> words{{"one", 1}, {"two", 2}, {v, 3}};
  string before = printed(*w->ref), got, ex, want; Handle nh; bool bval = false; N *m = h.m; bool made = false; double gd = 0; int gi = 0; bool isset = false;
  auto attr = [&](const char *n) { return m->first_attribute(n); };
  // what should happen
  string err; bool must = false, may = false; // must: an error naming err
  bool on_node = k != 0 && k != 25 && k != 26 && k != 7 && k != 28;
  if (on_node && !m) { must = true; err = path(h.parent); }
  switch (k) {
    case 0: { N *c = w->ref->first_node(cs); if (!c) { must = true; err = s; } else nh.m = c, nh.parent = w->ref; made = true; break; }
    case 1: if (m) { N *c = m->first_node(cs); if (!c) { must = true; err = path(m) + "/" + s; } else nh.m = c, nh.parent = m; } made = true; break;
    case 2: if (m) { nh.m = m->first_node(cs); nh.parent = m; if (!nh.m) { may = true; err = path(m); } } made = true; break;
    case 3: if (m) { nh.m = m->first_node(cs); nh.parent = m; } made = true; break;
    case 4: if (m) { nh.m = m->first_node(); nh.parent = m; } made = true; break;
    case 5: if (m) { if (!m->parent()) return "document"; nh.m = m->next_sibling(m->name(), m->name_size()); nh.parent = h.parent; } made = true; break;
    case 6: if (m) { if (!m->parent()) return "document"; nh.m = m->previous_sibling(m->name(), m->name_size()); nh.parent = h.parent; } made = true; break;
    case 7: if (!h.parent) { must = true; err = path(m); } else nh.m = h.parent, nh.parent = h.parent->parent(); made = true; break;
    case 8: case 27: if (m) want = val(m); break;
    case 9: if (m) want = nm(m); break;
    case 10: if (m) want = path(m); break;
    case 11: case 29: if (m) want = printed(*m); break;
    case 12: if (m) want = m->first_node(cs) ? "1" : "0"; break;
    case 13: case 30: if (m) want = attr(cs) ? "1" : "0"; break;
    case 14: case 16: case 17: case 18: if (m && !attr(cs)) { must = true; err = path(m) + "/@" + s; } else if (m) {
      string a = val(attr(cs)); if (k == 14) want = a + "|" + s + "|" + path(m) + "/@" + s;
      if (k == 16) { if (plain_number(a)) want = xw::hexd(strtod(a.c_str(), 0)); else if (surely_not_number(a)) { must = true; err = path(m) + "/@" + s; } else want = "?", may = true; }
      if (k == 17) { if (plain_number(a) && a.find('.') == string::npos && a.size() < 10) want = to_string(atoi(a.c_str())); else if (surely_not_number(a) || a.find('.') != string::npos) { must = true; err = path(m) + "/@" + s; } else want = "?", may = true; }
      if (k == 18) { auto it = words.find(a); if (it == words.end()) { must = true; err = path(m) + "/@" + s; } else want = to_string(it->second); } }
      break;
    case 15: case 31: if (m) { want = attr(cs) ? "1" + val(attr(cs)) : "0"; if (!attr(cs)) may = true, err = path(m); } break;
    case 22: if (m) { bool f = false; for (auto &x : words) if (x.second == num % 5) f = true; if (!f) { must = true; err = path(m); } } break;
    case 28: want = m ? "1" : "0"; break;
  }
  const string err0 = err;
  ex = guarded(o.id, [&] {
    stator::xml::Node n = h.node;
    switch (k) {
      case 0: nh.node = D.getNode(s); break;
      case 1: nh.node = n.getNode(cs); break;
      case 2: nh.node = n.getNode(s); break;
      case 3: nh.node = n.findNode(cs); break;
      case 4: nh.node = n.firstNode(); break;
      case 5: ++n; nh.node = n; break;
      case 6: --n; nh.node = n; break;
      case 7: nh.node = n.getParent(); break;
      case 8: got = n.getValue(); break;
      case 27: { string t = n; got = t; break; }
      case 9: got = n.getName(); break;
      case 10: got = n.getPath(); break;
      case 11: got = n.print(); break;
      case 29: { std::ostringstream os; n.print(os); if (!os) throw std::bad_alloc(); got = os.str(); break; }
      case 12: bval = n.hasNode(cs); break;
      case 13: bval = n.hasAttribute(cs); break;
      case 30: bval = n.hasAttribute(s); break;
      case 14: { auto a = n.getAttribute(cs); got = a.getValue() + "|" + a.getName() + "|"; got += a.getPath(); break; }
      case 15: { auto a = n.getAttribute(s); if (a.valid()) { got = "1"; got += a.getValue(); } else { got = "0"; if (num % 4 == 0) got += a.getValue(); if (num % 4 == 1) got += a.getPath(); if (num % 4 == 2) got += a.getName(); } break; }
      case 31: { auto a = n.getAttribute(s); if (a.valid()) { got = "1"; got += string(a); } else { got = "0"; a.as<double>(); } break; }
      case 16: gd = n.getAttribute(cs).template as<double>(); isset = true; break;
      case 17: gi = n.getAttribute(cs).template as<int>(); isset = true; break;
      case 18: gi = n.getAttribute(cs).match(words); isset = true; break;
      case 19: nh.node = n.add_node(s); break;
      case 20: n.add_attribute(s, v); break;
      case 21: n.add_attribute(s, dv); break;
      case 22: n.add_attribute(s, (int)(num % 5), words); break;
      case 23: n = v; break;
      case 24: n += v; break;
      case 25: { std::ostringstream os; os << D; if (!os) throw std::bad_alloc(); got = os.str(); break; }
      case 26: nh.node = D.add_node(s); break;
      case 28: got = n.valid() ? "1" : "0"; break;
    }
  });
  op_fired = last_fired;
  if (k == 12 || k == 13 || k == 30) got = bval ? "1" : "0";
  if (k == 16 && isset) got = xw::hexd(gd);
  if ((k == 17 || k == 18) && isset) got = to_string(gi);
  if (want == "?") want = got;
  if (k == 25) want = before;
  if (k == 10 && ex.empty()) { if (got.size() < want.size() || got.compare(got.size() - want.size(), want.size(), want) || got.find(want) > 5) return "bad:getPath() gives <" + got + "> for <" + want + ">"; want = got; }
  if (k == 14 && ex.empty() && !must) { size_t p = std::min(want.size(), val(attr(cs)).size() + s.size() + 2), q = std::min(got.size(), p); string pw = want.substr(p), pg = got.substr(q); size_t d = pg.size() - pw.size(); if (pg.size() >= pw.size() && d <= 5 && pg.compare(d, pw.size(), pw) == 0) want = want.substr(0, p) + pg; } // the document itself may be named in front
  if (ex.empty() && must) return "bad:an item that is missing or unusable was not reported (op " + to_string(k) + ", expected an error at <" + err0 + ">, got <" + got + ">)";
  if (!ex.empty()) {
    if (ex == "oom") { if (!last_fired) return "bad:out of memory without an allocation having failed"; }
    else if (!is_ex(ex)) return "bad:reported as <" + ex + ">";
    else if (!must && !may && !last_fired) return "bad:unexpected error <" + ex + ">";
    else if (ex.find(err0) == string::npos && !last_fired) return "bad:the error should name <" + err0 + "> but is <" + ex + ">";
    string now = guarded(-9, [&] { sim::Quiet q; got = [&] { std::ostringstream os; w->doc->print(os); return os.str(); }(); });
    if (!now.empty() || got != before) return "bad:the document changed in an operation that failed";
    return ex == "oom" ? "oom" : threads ? ex : "ex";
  }
  if (k >= 8 && k <= 18 && got != want) return "bad:op " + to_string(k) + " gives <" + got + "> instead of <" + want + ">";
  if ((k == 25 || (k >= 27 && k <= 31)) && got != want && !(may && got == "0")) return "bad:op " + to_string(k) + " gives <" + got + "> instead of <" + want + ">";
  if (made) { if (nh.node.valid() != (nh.m != nullptr)) return string("bad:") + (nh.m ? "an item that exists was not found" : "an item that does not exist was found") + " (op " + to_string(k) + ")"; }
  auto R = w->ref; auto cpy = [&](const string &t) { return R->allocate_string(t.c_str()); };
  switch (k) { // the same edit on the reference tree
    case 19: { N *c = R->allocate_node(rx::node_element, cpy(s)); m->append_node(c); nh.m = c; nh.parent = m; made = true; break; }
    case 26: { N *c = R->allocate_node(rx::node_element, cpy(s)); R->append_node(c); nh.m = c; nh.parent = R; made = true; break; }
    case 20: m->append_attribute(R->allocate_attribute(cpy(s), cpy(v))); break;
    case 21: { A *a = nullptr; (void)a; char b[64]; snprintf(b, sizeof b, "%.17g", dv); string t = [&] { double r = 0; string x; try { // any text that reads back as the same number
        x = boost::lexical_cast<string>(dv); r = boost::lexical_cast<double>(x); } catch (...) {} (void)r; return x; }(); m->append_attribute(R->allocate_attribute(cpy(s), cpy(t))); break; }
    case 22: { string t; for (auto &x : words) if (x.second == num % 5) { t = x.first; break; } m->append_attribute(R->allocate_attribute(cpy(s), cpy(t))); break; }
    case 23: case 24: { string t = k == 24 ? val(m) + v : v; m->value(cpy(t)); for (N *c = m->first_node(); c; c = c->next_sibling()) if (c->type() == rx::node_data) { c->value(m->value(), m->value_size()); break; } break; }
  }
  if (made && (k == 19 || k == 26) && !nh.node.valid()) return "bad:an added node is not valid";
  if (k >= 19 && k <= 26 && k != 25) {
    std::ostringstream os; w->doc->print(os); string now = os.str(), exp = printed(*w->ref);
    if (now != exp) return "bad:after the edit (op " + to_string(k) + ") the document is <" + now + "> instead of <" + exp + ">";
    got = now;
  }
  if (made) { nh.set = true; dst = nh; if (nh.m && nh.m->type() == rx::node_element) { string n2; { sim::Lib l(-8); n2 = dst.node.getName(); } if (n2 != nm(nh.m)) return "bad:op " + to_string(k) + " found <" + n2 + "> instead of <" + nm(nh.m) + ">"; } }
  return "ok " + got;
}

struct XmlCheck : Check {
  bool mt; explicit XmlCheck(bool m) : mt(m) {}
  const char *property() override { return mt ? "C15" : "C12"; }
  // ---- C15: threads that read one document, next to threads that load and edit documents of their own
  static void fill_file(const Plan &p, sim::SimFile &f, int k) { f.data = p.setup[k].s; f.chunk = p.c(("chunk" + to_string(k)).c_str(), 1 << 20); }
  static void run_ops(const Plan &p, int t, World *shared, int upto = -1) {
    World *mine = new World; op_fired = false; w = mine; w->h.resize(5); sim::OpStat s0 = sim::opstat(); bool own = p.c(("own" + to_string(t)).c_str());
    if (!own) { w->ref = shared->ref; w->doc = shared->doc; w->loaded = shared->loaded; }
    for (auto &o : p.th[t - 1]) {
      s0 = sim::opstat(); string r; bool load_op = o.k == "load";
      if (load_op) { fill_file(p, w->f, t); sim::thread_file[sim::tid()] = &w->f; r = load(o, false); sim::thread_file[sim::tid()] = nullptr; }
      else r = step(o);
      bool fired = op_fired; stats(o.id, s0);
      if (upto < 0 || o.id == upto) { emit(o.id, 'o', r); if (fired) emit(o.id, 'f', "1"); }
      if (o.id == upto || r.compare(0, 4, "bad:") == 0 || (load_op && !w->loaded)) break;
    }
    if (own) { sim::Lib l(-6); delete w->doc; w->doc = nullptr; }
    w->h.clear();
  }
  struct Arg { const Plan *p; int t; World *shared; };
  static void tmain(void *v) { auto *a = (Arg *)v; sim::Quiet q; run_ops(*a->p, a->t, a->shared); }
  static World *open_shared(const Plan &p) {
    World *s = new World; w = s; fill_file(p, s->f, 0); sim::file = &s->f; Op o; o.id = 1; string r = load(o, false); sim::file = nullptr; emit(1, 'o', r); return s;
  }
  void program15(const Plan &p) {
    World *shared = open_shared(p); vector<Arg> a(p.th.size());
    for (size_t i = 0; i < a.size(); i++) { a[i] = Arg{&p, (int)i + 1, shared}; sim::spawn(tmain, &a[i]); }
    sim::join_all();
    w = shared; { sim::Lib l(-6); delete w->doc; w->doc = nullptr; }
    string l = sim::leaks(); if (!l.empty()) sim::violation("leak", l);
  }
  void gen15(Rng &r, Plan &p) {
    int nt = r.range(2, 3); vector<string> root(nt + 1); vector<vector<Op>> walk(nt + 1);
    for (int i = 0; i <= nt; i++) {
      Op d; d.id = -1 - i; d.k = "data"; d.s = document(r); if (r.chance(0.12)) { walk[i].clear(); d.s = tall(r, walk[i]); } if (i && r.chance(0.3)) { string o = p.setup[0].s; damage(r, d.s, o); } p.setup.push_back(d); root[i] = root_of(d.s);
      p.cfg["chunk" + to_string(i)] = r.chance(0.6) ? 1 << 20 : r.range(1, 200);
    }
    int id = 10;
    for (int t = 1; t <= nt; t++) {
      p.th.emplace_back(); bool own = r.chance(0.25); p.cfg["own" + to_string(t)] = own; string rt = root[own ? t : 0];
      if (own) { Op l; l.id = id++; l.k = "load"; p.th.back().push_back(l); }
      Op o; o.id = id++; o.k = "x"; o.s = rt.empty() ? name(r) : rt; o.n = {0, 0, 0, 0}; p.th.back().push_back(o);
      { auto &wk = walk[own ? t : 0]; for (size_t i = 1; i < wk.size(); i++) { Op q = wk[i]; if (i > 24 && q.n[0] == 5) continue; q.id = id++; p.th.back().push_back(q); } }
      for (int i = 0, n = r.range(2, 7); i < n; i++) { Op q = random_op(r, rt, !own); q.id = id++; p.th.back().push_back(q); }
    }
    p.sched.reuse = r.below(4) ? 0 : 1; p.sched.seed = r.next() >> 8;
  }
  static void stats(int id, sim::OpStat a) { sim::OpStat b = sim::opstat(); char t[120]; snprintf(t, sizeof t, "%lu %lu %lu %lu %lu", a.ev, b.ev, a.st, b.st, last_allocs); emit(id, 's', t); }
  void program(const Plan &p) override {
    sim::Quiet q; threads = mt; if (mt) return program15(p);
    w = new World; w->h.resize(5); auto &f = w->f;
    f.data = p.setup[0].s; f.later = p.setup.size() > 1 ? p.setup[1].s : ""; f.open_errno = p.c("open"); f.chunk = p.c("chunk", 1 << 20); f.eio_at = p.c("eioat"); f.eio = f.eio_at ? p.c("eio", EIO) : 0;
    f.eintr_at = p.c("eintrat"); f.eintr_n = p.c("eintr"); f.seek_fail = p.c("seek"); f.size_lie = p.c("lie", -1); f.stop_at = p.c("stop", -1); f.change_at = p.c("change");
    sim::file = &f;
    for (auto &o : p.th[0]) {
      sim::OpStat s0 = sim::opstat(); string r;
      if (o.id == 1) { r = load(o, p.c("blank")); sim::file = nullptr; stats(o.id, s0); emit(o.id, 'o', r); if (!w->loaded) break; continue; }
      r = step(o); stats(o.id, s0); emit(o.id, 'o', r);
      if (r.compare(0, 4, "bad:") == 0) break;
    }
    { sim::Lib l(-6); delete w->doc; w->doc = nullptr; }
    sim::file = nullptr; delete w->ref; delete w; w = nullptr; string l = sim::leaks(); if (!l.empty()) sim::violation("leak", l);
  }
  void alone(const Plan &p, int id) override {
    if (!mt) return; sim::Quiet q; threads = true; World *s = open_shared(p);
    for (size_t t = 1; t <= p.th.size(); t++) for (auto &o : p.th[t - 1]) if (o.id == id) return run_ops(p, t, s, id);
  }
  // ---- workload
  static string name(Rng &r) { static const char *n[] = {"a", "b", "item", "ab", "node", "x1"}; return n[r.below(6)]; }
  static string aname(Rng &r) { static const char *n[] = {"id", "v", "name", "i"}; return n[r.below(4)]; }
  static string value(Rng &r) { static const char *n[] = {"one", "two", "17", "-3", "2.5", "-0.125", "1e3", "hello world", "zebra", "", "9999999999999", "1.5x", " 7", "123456.789012345", "17x", "-3 ", "12e"}; return r.chance(0.2) ? to_string(r.range(-100000, 100000)) : n[r.below(17)]; }
  static void elem(Rng &r, string &s, int depth, int ind) {
    auto nl = [&](int i) { if (r.chance(0.6)) { s += "\n"; s.append(i, ' '); } };
    string n = name(r); s += "<" + n; for (int i = r.below(4); i-- > 0;) { string v = value(r); s += (r.chance(0.2) ? "\n  " : " ") + aname(r) + "=" + (r.chance(0.8) ? "\"" + v + "\"" : "'" + v + "'"); }
    if (r.chance(0.2)) { s += "/>"; return; }
    s += ">"; int kids = depth > 0 ? r.below(5) : 0; if (!kids || r.chance(0.25)) { if (r.chance(0.3)) s += "  "; s += value(r); if (r.chance(0.3)) s += " \n"; }
    for (int i = 0; i < kids; i++) { nl(ind + 1); if (r.chance(0.08)) s += "<!-- note -->"; else if (r.chance(0.05)) s += "<![CDATA[raw <b>]]>"; else if (r.chance(0.05)) s += value(r); else elem(r, s, depth - 1, ind + 1); }
    if (kids) nl(ind); s += "</" + n + ">";
  }
  static string document(Rng &r) {
    string s; if (r.chance(0.4)) s += "<?xml version=\"1.0\"?>\n"; if (r.chance(0.05)) s += "\xef\xbb\xbf"; if (r.chance(0.1)) s += "\n"; if (r.chance(0.1)) s += "<!-- top -->\n";
    elem(r, s, r.range(0, 3), 0); if (r.chance(0.7)) s += "\n"; if (r.chance(0.15)) { elem(r, s, 1, 0); s += "\n"; }
    if (s.size() > 3800) { s.clear(); elem(r, s, 1, 0); } return s;
  }
  // a document that is unusually deep, or in which one element has unusually many siblings of its own name, and the steps that lead into it
  static string tall(Rng &r, vector<Op> &walk) {
    string s; auto step_to = [&](int code, const string &n) { Op o; o.id = 0; o.k = "x"; o.s = n; o.n = {code, 0, 0, 0}; walk.push_back(o); };
    int depth = r.chance(0.5) ? r.range(5, 22) : r.range(1, 4), at = r.range(1, depth), sib = r.chance(0.6) ? r.range(9, 26) : r.range(0, 3); if (r.chance(0.05)) sib = r.range(95, 120); vector<string> close;
    for (int i = 0; i < depth; i++) {
      string n = name(r); if (r.chance(0.1)) n = "anelementwithaparticularlylongname" + to_string(r.below(100));
      step_to(i ? 1 : 0, n);
      if (i == at) { for (int k = r.range(0, sib); k-- > 0; sib--) { s += "<" + n + (r.chance(0.3) ? " id=\"" + to_string(sib) + "\"" : "") + "/>"; step_to(5, n); } }
      s += "<" + n + (r.chance(0.4) ? " v=\"" + value(r) + "\"" : "") + ">"; close.push_back("</" + n + ">"); if (i == at) for (; sib > 0; sib--) close.back() += "<" + n + "/>";
      if (r.chance(0.3)) s += "\n";
    }
    s += value(r); while (close.size()) s += close.back(), close.pop_back();
    static const int ends[] = {10, 10, 1, 14, 16, 18, 11, 9, 7, 2};
    for (int i = r.range(2, 4); i-- > 0;) { int c = ends[r.below(10)]; Op o; o.id = 0; o.k = "x"; o.s = c == 1 ? "missing" : aname(r); o.n = {c, 0, c == 10 ? 0l : 1l, (long)r.below(300)}; walk.push_back(o); }
    return s;
  }
  static string root_of(const string &text) { string root; rx::xml_document<> *t = new rx::xml_document<>(); string c = text; try { t->parse<FLAGS>(&c[0]); for (N *x = t->first_node(); x; x = x->next_sibling()) if (x->type() == rx::node_element) { root = nm(x); break; } } catch (...) {} delete t; return root; }
  static Op random_op(Rng &r, const string &root, bool readonly) {
    static const int codes[] = {0, 1, 1, 2, 3, 3, 4, 4, 5, 5, 5, 6, 6, 7, 8, 8, 9, 10, 10, 11, 12, 13, 14, 14, 15, 16, 16, 17, 17, 18, 19, 19, 20, 21, 22, 23, 23, 24, 24, 25, 26, 27, 28, 29, 30, 31};
    Op o; int c; do c = codes[r.below(sizeof codes / sizeof *codes)]; while (readonly && ((c >= 19 && c <= 24) || c == 26)); o.n = {c, (long)r.below(5), (long)r.below(5), (long)r.below(1000)};
    if (r.chance(0.6)) o.n[1] = r.below(2); bool a = c >= 13 && c <= 18 || c == 20 || c == 21 || c == 22 || c == 30 || c == 31; o.s = a ? aname(r) : c == 0 && r.chance(0.6) && !root.empty() ? root : name(r); if (r.chance(0.1)) o.s = "missing";
    o.k = r.chance(0.2) ? "x" : "w" + to_string(r.below(1000)); if (r.chance(0.3)) o.k = r.chance(0.5) ? "42" : "-7.5"; o.d = r.chance(0.3) ? 0.1 * r.range(-100, 100) : 1e3 * (r.unit() - 0.5);
    return o;
  }
  void gen(Rng &r, Plan &p) override {
    if (mt) return gen15(r, p);
    Op d; d.id = -1; d.k = "data"; d.s = document(r); vector<Op> walk; if (r.chance(0.1)) d.s = tall(r, walk); p.setup.push_back(d); Op d2 = d; d2.id = -2; d2.s = document(r); p.setup.push_back(d2);
    if (walk.empty() ? r.chance(0.35) : r.chance(0.05)) damage(r, p.setup[0].s, p.setup[1].s); if (r.chance(0.05)) p.setup[0].s.clear(); if (r.chance(0.05)) p.cfg["blank"] = 1;
    p.cfg["chunk"] = r.chance(0.5) ? 1 << 20 : r.chance(0.5) ? r.range(1, 16) : r.range(17, 600);
    p.th.emplace_back(); Op l; l.id = 1; l.k = "load"; p.th[0].push_back(l);
    string root = root_of(p.setup[0].s);
    Op o; o.id = 2; o.k = "x"; o.s = root.empty() ? name(r) : root; o.n = {0, 0, 0, 0}; if (p.c("blank")) o.n[0] = 26; p.th[0].push_back(o);
    int nid = 3; for (size_t i = 1; i < walk.size(); i++) { walk[i].id = nid++; p.th[0].push_back(walk[i]); }
    for (int i = 0, n = r.range(3, walk.empty() ? 24 : 6); i < n; i++) { Op o = random_op(r, root, false); o.id = nid++; p.th[0].push_back(o); }
    p.sched.reuse = r.below(4); p.sched.fill = r.chance(0.5) ? 0xA5 : r.below(256); p.sched.seed = r.next() >> 8;
  }
  int variants(Rng &, const Plan &) override { return 30; }
  void vary(Rng &r, Plan &p, const RunResult &base) override {
    BaseStats b(base);
    if (mt) { if (r.chance(0.15)) add_alloc_faults(r, p, b, 1); p.sched.sw.clear(); add_switches(r, p, b, 6); return; }
    string &d = p.setup[0].s; long n = d.size();
    if (r.chance(0.6)) for (int i = r.range(1, 2); i-- > 0;) switch (r.below(11)) {
      case 0: p.cfg["open"] = r.chance(0.5) ? ENOENT : r.chance(0.5) ? EACCES : EMFILE; break;
      case 1: case 2: p.cfg["chunk"] = r.range(1, 40); p.cfg["eioat"] = 1 + r.below(n / p.cfg["chunk"] + 2); p.cfg["eio"] = r.chance(0.8) ? EIO : EISDIR; break;
      case 3: p.cfg["eintrat"] = r.range(1, 4); p.cfg["eintr"] = r.range(1, 5); break;
      case 4: p.cfg["seek"] = r.range(1, 7); break;
      case 5: { static const long lies[] = {0, 1, 1000000, 1l << 40, 0x7fffffffffffffffl, 100}; p.cfg["lie"] = lies[r.below(6)]; break; }
      case 6: case 7: p.cfg["stop"] = r.below(n + 1); break;
      case 8: p.cfg["chunk"] = r.range(1, 60); p.cfg["change"] = 1 + r.below(n / p.cfg["chunk"] + 1); break; // shrinks, grows or is overwritten while being read
      default: { int k = damage(r, d, p.setup[1].s); (void)k; break; }
    }
    if (r.chance(0.6)) add_alloc_faults(r, p, b, 2);
  }
  Verdict judge(const Plan &p, const RunResult &r, std::function<const RunResult &(int)> ref) override {
    for (auto &x : r.recs) if (x.type == 'o' && x.text.compare(0, 4, "bad:") == 0) return Verdict{"wrong-result", "op " + to_string(x.id) + ": " + x.text.substr(4)};
    if (mt) for (auto &th : p.th) for (auto &o : th) {
      if (r.find(o.id, 'f')) break; // what follows a failure in its own thread is judged by the reference tree alone
      auto *x = r.find(o.id); if (!x) break;
      auto *y = ref(o.id).find(o.id); if (!y || y->text != x->text) return Verdict{"wrong-result", "op " + to_string(o.id) + " (code " + (o.n.empty() ? "load" : to_string(o.n[0])) + ") gave <" + x->text + "> but alone it gives <" + (y ? y->text : "nothing") + ">"};
    }
    return Verdict{};
  }
  vector<const char *> fault_names() override { auto v = Check::fault_names(); for (auto n : {"open-fails", "read-error", "interrupted-read", "file-changes-while-read", "truncated", "short-read", "seek-fails", "wrong-size"}) v.push_back(n); return v; }
  const char *rule() override { return mt ? "runs with a pre-emption inside a library call, distinct by the global sequence of shared accesses and switches and the recorded outcomes" : "runs with an I/O or allocation fault, distinct by trace and outcomes of every operation"; }
  bool shrink_op(Op &o, int k) override {
    if (o.k == "data") { size_t n = o.s.size(); if (k >= 8 || !n) return false; size_t len = std::max<size_t>(1, n >> (1 + k / 2)); if (k & 1) o.s.erase(0, len); else o.s.resize(n - len); return true; }
    return false;
  }
};
} // namespace
Check *make_check(const std::string &p) { if (p == "C12") return new XmlCheck(false); if (p == "C15") return new XmlCheck(true); if (p == "C04") return new MemCheck(3, {new XmlCheck(false), new XmlCheck(true)}, {"open-fails", "read-error", "interrupted-read", "file-changes-while-read", "truncated", "short-read", "seek-fails", "wrong-size"}); return nullptr; }
