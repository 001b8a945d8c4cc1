// Independent evaluator of run-time expressions, with error bounds: the value of an expression as comparable text.
#pragma once
#include "expr_ops.h"
#include "frame.h"
#include <sstream>
namespace xw {
using std::map; using std::string; using std::vector; using std::to_string; namespace sd = sym::detail; using sym::ArrayRT; using sym::DictRT; using sym::VarRT; using sym::Expr;
// independent evaluator with a running bound on the rounding error, so that re-association is not mistaken for damage
struct VE { long double v = 0, e = 0; bool ok = true; };
struct Eval : sd::VisitorHelper<Eval, VE> {
  map<string, double> env;
  static constexpr long double EPS = 4e-16L;
  VE mkv(long double v, long double e) { VE r; r.v = v; r.e = e + EPS * fabsl(v) + 1e-300L; r.ok = std::isfinite((double)v) && std::isfinite((double)e); return r; }
  VE bad() { VE r; r.ok = false; return r; }
  VE go(const Expr &e) { return e->visit(*this); }
  VE apply(const double &v) { return mkv(v, 0); }
  VE apply(const VarRT &v) { double h = 0.37; for (unsigned char c : v._name) h = std::fmod(h * 1.7 + c * 0.013, 1.9) + 0.3; return mkv(h + env["+"], 0); }
  template <class Op> VE apply(const sym::UnaryOp<Expr, Op> &o) {
    VE a = go(o._arg); if (!a.ok) return a;
    switch (Op::type_index) {
      case 2: return mkv(sinl(a.v), a.e);
      case 3: return mkv(cosl(a.v), a.e);
      case 4: if (a.v <= 0 || a.e > a.v / 10) return bad(); return mkv(logl(a.v), a.e / a.v * 1.2L);
      case 5: if (a.e > 0.1L) return bad(); return mkv(expl(a.v), expl(a.v) * a.e * 1.2L);
      case 6: return mkv(fabsl(a.v), a.e);
      case 17: return mkv(-a.v, a.e);
    }
    return bad();
  }
  template <class Op> VE apply(const sym::BinaryOp<Expr, Op, Expr> &o) {
    VE a = go(o._l), b = go(o._r); if (!a.ok) return a; if (!b.ok) return b;
    switch (Op::type_index) {
      case 8: return mkv(a.v + b.v, a.e + b.e);
      case 9: return mkv(a.v - b.v, a.e + b.e);
      case 10: return mkv(a.v * b.v, fabsl(a.v) * b.e + fabsl(b.v) * a.e + a.e * b.e);
      case 11: if (fabsl(b.v) < 10 * b.e || b.v == 0) return bad(); return mkv(a.v / b.v, (a.e + fabsl(a.v / b.v) * b.e) / fabsl(b.v) * 1.2L);
      case 12: {
        if (fabsl(a.v) < 10 * a.e) return bad();
        if (a.v < 0 && b.v != floorl(b.v)) return bad();
        if (a.v < 0 && b.e > EPS * fabsl(b.v) * 1.01L + 1e-299L) return bad();
        long double p = powl(a.v, b.v); if (fabsl(b.v) > 300) return bad();
        long double le = fabsl(b.v) * a.e / fabsl(a.v) * 1.2L + (a.v > 0 ? b.e * fabsl(logl(a.v)) : 0); if (le > 0.1L) return bad();
        return mkv(p, fabsl(p) * le * 1.3L);
      }
    }
    return bad();
  }
  VE apply(const ArrayRT &) { return bad(); }
  VE apply(const DictRT &) { return bad(); }
};
// components of a value: every numeric sub-expression below composite nodes, with its place
struct Parts : sd::VisitorHelper<Parts, int> {
  vector<std::pair<string, Expr>> out; string at;
  void go(const Expr &e, const string &where) { string s = at; at += where; cur = e; e->visit(*this); at = s; }
  Expr cur;
  template <class T> int leaf(const T &) { out.emplace_back(at, cur); return 0; }
  int apply(const double &v) { return leaf(v); }
  int apply(const VarRT &v) { return leaf(v); }
  template <class Op> int apply(const sym::UnaryOp<Expr, Op> &o) { return leaf(o); }
  template <class Op> int apply(const sym::BinaryOp<Expr, Op, Expr> &o) {
    if (Op::type_index >= 13) { go(o._l, "/b" + to_string(Op::type_index) + "l"); go(o._r, "/b" + to_string(Op::type_index) + "r"); return 0; }
    return leaf(o);
  }
  int apply(const ArrayRT &a) { int i = 0; at += "/n" + to_string(a.size()); for (const auto &x : a) go(x, "/" + to_string(i++)); if (!i) out.emplace_back(at + "/empty", Expr()); return 0; }
  int apply(const DictRT &d) { std::map<string, Expr> m; for (const auto &p : d) m[ser(p.first)] = p.second; at += "/d" + to_string(d.size()); for (auto &p : m) go(p.second, "/" + p.first); if (m.empty()) out.emplace_back(at + "/empty", Expr()); return 0; }
};
string value_text(const Expr &e) { // "place value error;" for each part at three points
  Parts p; p.go(e, ""); string s;
  for (auto &x : p.out) {
    s += "@" + esc(x.first);
    for (double t : {0.0, 0.61, -0.45}) {
      Eval ev; ev.env["+"] = t; VE v; v.ok = false; if (x.second) v = ev.go(x.second);
      if (v.ok) sim::probe(3);
      char b[120]; if (!v.ok) snprintf(b, sizeof b, " ? ?"); else snprintf(b, sizeof b, " %.20Lg %.6Lg", v.v, v.e); s += b;
    }
    s += "\n";
  }
  return s;
}
bool values_agree(const string &a, const string &b, string &why, bool &compared) {
  std::istringstream A(a), B(b); string la, lb;
  for (;;) {
    bool ga = (bool)std::getline(A, la), gb = (bool)std::getline(B, lb);
    if (ga != gb) { why = "different number of parts"; return false; }
    if (!ga) return true;
    std::istringstream x(la), y(lb); string pa, pb; x >> pa; y >> pb;
    if (pa != pb) { why = "part " + pa + " became " + pb; return false; }
    for (int k = 0; k < 3; k++) {
      string v1, e1, v2, e2; x >> v1 >> e1; y >> v2 >> e2;
      if (v1 == "?" || v2 == "?") continue;
      long double d = fabsl(strtold(v1.c_str(), 0) - strtold(v2.c_str(), 0)), tol = 8 * (strtold(e1.c_str(), 0) + strtold(e2.c_str(), 0)) + 1e-290L;
      compared = true;
      if (d > tol) { why = "part " + pa + ": value " + v1 + " became " + v2; return false; }
    }
  }
}
} // namespace xw
