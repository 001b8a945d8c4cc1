// Expression world: operations on runtime expressions, executed inside the simulation on behalf of simulated clients.
#pragma once
#include <stator/symbolic/symbolic.hpp>
#include <stator/symbolic/runtime.hpp>
#include <stator/symbolic/parser.hpp>
#include "guard.h"
#include <cmath>
#include <map>
#include <sstream>
#include <set>
#include <cstring>

namespace xw {
using sym::Expr;
using sym::VarRT; using sym::ArrayRT; using sym::DictRT;
namespace sd = sym::detail;

// ---- structure of an expression as text, independent of the library's own printing
struct Ser : sd::VisitorHelper<Ser, std::string> {
  bool shape = false;
  std::string go(const Expr &e) { return e ? e->visit(*this) : std::string("null"); }
  std::string apply(const double &v) { return hexd(v); }
  std::string apply(const VarRT &v) { return "$" + v._name; }
  template <class Op> std::string apply(const sym::UnaryOp<Expr, Op> &o) { return "u" + std::to_string(Op::type_index) + "(" + go(o._arg) + ")"; }
  template <class Op> std::string apply(const sym::BinaryOp<Expr, Op, Expr> &o) { return "b" + std::to_string(Op::type_index) + "(" + go(o._l) + "," + go(o._r) + ")"; }
  std::string apply(const ArrayRT &a) {
    std::string s = "[" + std::to_string(a.size()) + ":";
    for (const auto &x : a) s += go(x) + ";";
    return s + "]";
  }
  std::string apply(const DictRT &d) {
    std::map<std::string, std::string> m;
    for (const auto &p : d) m[go(p.first)] = go(p.second);
    std::string s = "{" + std::to_string(d.size()) + ":";
    for (auto &p : m) s += p.first + "=" + p.second + ";";
    return s + "}";
  }
};
// the same expression built again of new nodes only, none of them shared
struct Clone : sd::VisitorHelper<Clone, Expr> {
  std::vector<Expr> *held = nullptr; long times = 0;  // handles kept on every node of the original
  Expr go(const Expr &e) { if (held) for (long i = times; i-- > 0;) held->push_back(e); return e ? e->visit(*this) : Expr(); }
  Expr apply(const double &v) { return Expr(v); }
  Expr apply(const VarRT &v) { return Expr(VarRT::create(v._name)); }
  template <class Op> Expr apply(const sym::UnaryOp<Expr, Op> &o) { return Expr(sym::UnaryOp<Expr, Op>::create(go(o._arg))); }
  template <class Op> Expr apply(const sym::BinaryOp<Expr, Op, Expr> &o) { Expr l = go(o._l), r = go(o._r); return Expr(sym::BinaryOp<Expr, Op, Expr>::create(l, r)); }
  Expr apply(const ArrayRT &a) { auto p = ArrayRT::create(); for (const auto &x : a) p->push_back(go(x)); return Expr(p); }
  Expr apply(const DictRT &d) { auto p = DictRT::create(); for (const auto &x : d) (*p)[go(x.first)] = go(x.second); return Expr(p); }
};
struct Count : sd::VisitorHelper<Count, long> {
  long budget = 3000;
  long go(const Expr &e) { if (--budget < 0 || !e) return 0; return e->visit(*this); }
  long apply(const double &) { return 1; }
  long apply(const VarRT &) { return 1; }
  template <class Op> long apply(const sym::UnaryOp<Expr, Op> &o) { return 1 + go(o._arg); }
  template <class Op> long apply(const sym::BinaryOp<Expr, Op, Expr> &o) { return 1 + go(o._l) + go(o._r); }
  long apply(const ArrayRT &a) { long n = 1; for (const auto &x : a) n += go(x); return n; }
  long apply(const DictRT &d) { long n = 1; for (const auto &p : d) n += go(p.first) + go(p.second); return n; }
};
inline std::string ser(const Expr &e) { Ser s; return s.go(e); }
inline bool too_big(const Expr &e, long lim) { Count c; c.budget = lim; c.go(e); return c.budget < 0; }

static constexpr char x_name[] = "x";
static constexpr char long_name[] = "averyveryverylongvariablename";
typedef stator::ReprConfig<stator::Latex_output> Latex;
typedef stator::ReprConfig<stator::Force_parenthesis> Paren;

struct Ctx {
  int t = 0;
  std::map<int, Expr> loc;                     // slots of this client
  std::map<int, std::exception_ptr> errs;
  bool in_setup = false;
  bool fired = false; uint64_t allocs = 0;       // of the last operation
};
inline std::map<int, Expr> *shared_slots;
inline std::map<int, std::exception_ptr> *shared_errs;

inline const Expr *find(Ctx &c, int slot) {
  auto i = c.loc.find(slot); if (i != c.loc.end()) return i->second ? &i->second : nullptr;
  if (slot < 1000) { auto j = shared_slots->find(slot); if (j != shared_slots->end() && j->second) return &j->second; }
  return nullptr;
}
inline std::exception_ptr find_err(Ctx &c, int slot) {
  auto i = c.errs.find(slot); if (i != c.errs.end()) return i->second;
  auto j = shared_errs->find(slot); if (j != shared_errs->end()) return j->second;
  return nullptr;
}

inline Expr bin(int k, const Expr &l, const Expr &r) {
  switch (k) {
    case 0: return Expr(sd::Add::apply(l, r));
    case 1: return Expr(sd::Subtract::apply(l, r));
    case 2: return Expr(sd::Multiply::apply(l, r));
    case 3: return Expr(sd::Divide::apply(l, r));
    case 4: return Expr(sd::Power::apply(l, r));
    case 5: return Expr(sd::Equality::apply(l, r));
    case 6: return Expr(sd::ArrayAccess::apply(l, r));
    case 7: return Expr(sd::Units::apply(l, r));
    default: return Expr(sd::Uncertainty::apply(l, r));
  }
}
inline Expr un(int k, const Expr &a) {
  switch (k) {
    case 0: return Expr(sym::sin(a));
    case 1: return Expr(sym::cos(a));
    case 2: return Expr(sym::exp(a));
    case 3: return Expr(sym::log(a));
    case 4: return Expr(sym::abs(a));
    case 5: return Expr(sym::arbsign(a));
    default: return Expr(-a);
  }
}

// Result of an operation before it is turned into text
struct Res { char k = '-'; Expr e; std::string s; double d = 0; uint64_t u = 0; };

// executes the operation itself; everything here runs as library/client code under the simulator
inline void run_op(const Op &o, const std::vector<const Expr *> &a, Res &r) {
  const std::string &k = o.k;
  auto A = [&](size_t i) -> const Expr & { return *a[i]; };
  long n0 = o.n.empty() ? 0 : o.n[0];
  auto E = [&](const Expr &e) { r.e = e; r.k = 'E'; };
  auto S = [&](std::string s) { r.s.swap(s); r.k = 'S'; };
  if (k == "parse") E(Expr(o.s));
  else if (k == "parsec") E(Expr(o.s.c_str()));
  else if (k == "const") E(Expr(o.d));
  else if (k == "var") E(VarRT::create(o.s));
  else if (k == "bin") E(bin(n0, A(0), A(1)));
  else if (k == "un") E(un(n0, A(0)));
  else if (k == "simp") E(sym::simplify(A(0)));
  else if (k == "deriv") E(sym::derivative(A(0), A(1)));
  else if (k == "sub") E(sym::sub(A(0), A(1)));
  else if (k == "eval") { Expr s = sym::simplify(sym::sub(A(0), A(1))); r.d = s.as<double>(); r.k = 'D'; }
  else if (k == "repr") S(sym::repr(A(0)));
  else if (k == "latex") S(sym::repr<Latex>(A(0)));
  else if (k == "paren") S(sym::repr<Paren>(A(0)));
  else if (k == "hash") { r.u = std::hash<Expr>()(A(0)); r.k = 'U'; }
  else if (k == "eq") { r.u = (A(0) == A(1)); r.k = 'U'; }
  else if (k == "copy") { Expr c(A(0)); Expr d; d = c; E(d); }
  else if (k == "asd") { r.d = A(0).as<double>(); r.k = 'D'; }
  else if (k == "asv") { const VarRT &v = A(0).as<VarRT>(); S(v.getName()); }
  else if (k == "asa") { const ArrayRT &v = A(0).as<ArrayRT>(); r.u = v.size(); r.k = 'U'; }
  else if (k == "aget") { const ArrayRT &v = A(0).as<ArrayRT>(); if (v.size()) { const ArrayRT &w = v; E(w[(size_t)n0 % w.size()]); } else { r.k = 'U'; r.u = 0; } }
  else if (k == "dget") { const DictRT &d = A(0).as<DictRT>(); E(d.at(A(1))); }
  else if (k == "dfind") { const DictRT &d = A(0).as<DictRT>(); auto it = d.find(A(1)); if (it != d.end()) E(it->second); else { r.k = 'U'; r.u = d.size(); } }
  else if (k == "arr") { auto p = ArrayRT::create(); for (size_t i = 0; i < a.size(); i++) p->push_back(A(i)); E(Expr(p)); }
  else if (k == "arrn") { auto p = ArrayRT::create((size_t)a.size()); auto it = p->begin(); for (size_t i = 0; i < a.size(); i++, ++it) *it = A(i); E(Expr(p)); }
  else if (k == "dict") { auto p = DictRT::create(); for (size_t i = 0; i + 1 < a.size(); i += 2) (*p)[A(i)] = A(i + 1); E(Expr(p)); }
  else if (k == "ct") {
    sym::Var<x_name> x; sym::Var<long_name> v;
    switch (n0) {
      case 0: E(Expr(sym::sin(x) * x + sym::C<3, 2>())); break;
      case 1: E(sym::derivative(A(0), x)); break;
      case 2: E(sym::sub(A(0), x = sym::C<2>())); break;
      case 3: E(sym::sub(A(0), x = A(1))); break;
      case 4: E(Expr(sym::pow(v, sym::C<2>()) - sym::exp(x) / v)); break;
      case 5: E(Expr(sym::derivative(sym::log(x) * x, x))); break;
      case 6: E(Expr(x == v)); break;
      default: E(sym::derivative(A(0), v)); break;
    }
  } else if (k == "throwmsg") { stator_throw() << o.s << o.d << " " << n0 << (a.size() ? A(0) : Expr(1.0)); }
  else if (k == "drop") { r.k = 'N'; }
  else { r.k = '?'; }
}

inline std::string res_text(const Res &r) {
  switch (r.k) {
    case 'E': return "E:" + ser(r.e);
    case 'S': return "S:" + r.s;
    case 'D': return "D:" + hexd(r.d);
    case 'U': return "U:" + std::to_string(r.u);
    case 'N': return "N";
  }
  return std::string("bad-op:") + r.k;
}

// runs one operation for a client; returns its outcome text; stores its result in slot o.id
inline std::string exec(Ctx &c, const Op &o, int uid, bool store = true, std::string *kept = nullptr) {
  if (o.k == "what" || o.k == "excopy" || o.k == "whathold") {
    std::exception_ptr p = find_err(c, o.a.empty() ? -1 : o.a[0]);
    if (!p) return "skip";
    std::string txt;
    bool same = true;
    std::string ex = guarded(uid, [&] {
      try { std::rethrow_exception(p); }
      catch (const stator::Exception &e) {
        if (o.k == "excopy") {
          stator::Exception e2(e); const char *w = e2.what(); sim::Quiet q; txt = w;
        } else {
          const char *w = e.what(); size_t n = 0; while (w[n]) { sim::yield_point(); n++; if (n > 64) break; }
          { sim::Quiet q; txt = w; }
          for (long i = o.n.empty() ? 0 : o.n[0]; i-- > 0;) { const char *v = e.what(); (void)v; } // reading it often must not wear the text out
          { sim::Quiet q; if (txt != w) same = false; }
          if (o.a.size() > 1) if (std::exception_ptr p2 = find_err(c, o.a[1])) { // another error is read meanwhile
            try { std::rethrow_exception(p2); } catch (const std::exception &e2) { for (long i = 1 + (o.n.empty() ? 0 : o.n[0]); i-- > 0;) { const char *v = e2.what(); (void)v; } }
            { sim::Quiet q; if (txt != w) same = false; }
          }
          const char *w2 = e.what();
          for (int i = 0; i < 3; i++) sim::yield_point();
          { sim::Quiet q; if (txt != w2 || txt != w) same = false; }
        }
      } catch (const std::exception &e) { const char *w = e.what(); sim::Quiet q; txt = w; }
    });
    c.fired = last_fired; c.allocs = last_allocs;
    p = nullptr;
    if (!same) return "bad:message changed between reads: " + txt;
    return ex.empty() ? "S:" + txt : ex;
  }
  std::vector<const Expr *> a;
  for (int s : o.a) { const Expr *e = find(c, s); if (!e) return "skip"; a.push_back(e); }
  if (o.k == "drop") {
    if (o.a.size() != 1) return "skip";
    auto i = c.loc.find(o.a[0]);
    if (i != c.loc.end()) { Expr victim; victim.swap(i->second); c.loc.erase(i); std::string x = guarded(uid, [&] { Expr v; v.swap(victim); }); return x.empty() ? "N" : x; }
    return "N";
  }
  Res r; std::exception_ptr keep;
  std::string out = guarded(uid, [&] { run_op(o, a, r); }, &keep);
  c.fired = last_fired; c.allocs = last_allocs;
  if (out.empty()) {
    if (r.k == 'E' && too_big(r.e, 500)) { out = "big"; { sim::Lib lib(uid); Expr v; v.swap(r.e); } }
    else out = res_text(r);
  }
  if (kept) *kept = r.k == 'E' ? ser(r.e) : "";
  if (store) {
    auto &m = c.in_setup ? *shared_slots : c.loc;
    if (r.k == 'E' && r.e) m[o.id].swap(r.e); else m.erase(o.id);
    if (keep) (c.in_setup ? *shared_errs : c.errs)[o.id] = keep;
  }
  { sim::Lib lib(uid); Res dead; dead.e.swap(r.e); dead.s.swap(r.s); }
  return out;
}
} // namespace xw
