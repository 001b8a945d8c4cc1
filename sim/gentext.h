// Workload generators shared by the expression-world checks (plan generation only: never runs inside a simulation).
#pragma once
#include "frame.h"
#include <cstdio>

struct TextGen {
  Rng &r;
  bool arrays = true, units = true, uncert = true, dicts = true, eqs = true, absval = false, mixed = true;
  std::vector<std::string> vars{"x", "y", "z", "k", "alpha", "averyveryverylongvariablename", "anotherquitelongvariablename"};
  double common = 0.8; // how often one of the three short names is chosen
  std::string number() {
    char b[64];
    switch (r.below(12)) {
      case 10: snprintf(b, sizeof b, "%lld", (long long)(r.next() >> r.range(1, 62))); return b;
      case 11: snprintf(b, sizeof b, "%.17ge%d", 1 + r.unit() * 8, (int)r.below(40) - 20); return b;
      case 0: return "0"; case 1: return "1"; case 2: return "2";
      case 3: snprintf(b, sizeof b, "%d", (int)r.below(100)); return b;
      case 4: snprintf(b, sizeof b, "%.3f", r.unit() * 10); return b;
      case 5: snprintf(b, sizeof b, "%.17g", r.unit() * 3); return b;
      case 6: snprintf(b, sizeof b, "%.9ge%d", 1 + r.unit() * 8, (int)r.below(7) - 3); return b;
      case 7: return "0.5"; case 8: return "1e3";
      default: snprintf(b, sizeof b, "%.6g", r.unit() * 5 + 0.1); return b;
    }
  }
  std::string var() { return vars[r.below(r.chance(common) ? 3 : vars.size())]; }
  std::string expr(int depth) {
    if (depth <= 0) return r.chance(0.5) ? var() : number();
    switch (r.below(16)) {
      case 0: case 1: return expr(depth - 1) + "+" + expr(depth - 1);
      case 2: case 3: return expr(depth - 1) + "-" + (r.chance(0.4) ? "(" + expr(depth - 1) + ")" : expr(depth - 1));
      case 4: case 5: return "(" + expr(depth - 1) + ")*" + expr(depth - 2);
      case 6: return expr(depth - 2) + "/(" + expr(depth - 1) + ")";
      case 7: return "(" + expr(depth - 1) + ")^" + (r.chance(0.5) ? std::to_string(r.range(2, 4)) : "(" + expr(depth - 2) + ")");
      case 8: return "sin(" + expr(depth - 1) + ")";
      case 9: return "cos " + var();
      case 10: return "exp(" + expr(depth - 1) + ")";
      case 11: return "ln(" + expr(depth - 1) + ")";
      case 12: return "-" + expr(depth - 1);
      case 13: return "(" + expr(depth - 1) + ")";
      case 14: return var() + " * " + number();
      default: return var();
    }
  }
  std::string list(int n, int depth) { std::string s = "["; for (int i = 0; i < n; i++) s += (i ? "," : "") + expr(depth); return s + "]"; }
  std::string dict(int n, int depth) {
    std::string s = "{"; size_t o = r.below(vars.size());
    for (int i = 0; i < n; i++) s += (i ? "," : "") + vars[(o + i) % vars.size()] + ":" + expr(depth);
    return s + "}";
  }
  std::string compound() { int w = r.below(5); return w < 2 ? list(r.range(0, 3), 0) : w == 2 ? dict(r.range(0, 2), 0) : w == 3 ? "(" + number() + "±" + number() + ")" : "(" + expr(1) + ")"; }
  std::string bad() { // text that must be refused
    switch (r.below(12)) {
      case 0: return expr(1) + ")"; case 1: return expr(1) + "]"; case 2: return "[" + expr(0) + "," + expr(1); case 3: return "{" + var() + ":" + expr(1) + ",";
      case 4: return "{" + var() + " " + expr(0) + "}"; case 5: return "{" + number() + "+:" + var() + "}"; case 6: return "{" + var() + ":" + expr(1) + "*}"; case 7: return "sin(" + expr(2);
      case 8: return "[" + expr(1) + "," + expr(1) + "*]"; case 9: return any() + ")"; case 10: return any() + "]"; default: return any() + "+";
    }
  }
  std::string any() {
    switch (r.below(11)) {
      case 7: if (mixed) { static const char *const ops[] = {"+", "-", "*", "/", "^", "="}; return compound() + ops[r.below(6)] + compound(); } break;
      case 8: if (mixed && r.chance(0.3)) return "(" + compound() + "){" + compound() + "}"; break;
      case 0: if (arrays) return r.chance(0.07) ? list(r.range(5, 20), 0) : list(r.range(0, 4), 1); break;
      case 1: if (dicts) return r.chance(0.07) ? dict(r.range(5, 7), 0) : dict(r.range(0, 4), 1); break;
      case 2: if (units) return expr(1) + "{" + (r.chance(0.5) ? "m" : "m/s") + "}"; break;
      case 3: if (uncert) return number() + "±" + number(); break;
      case 4: if (eqs) return var() + "=" + expr(1); break;
      case 5: if (arrays) return list(r.range(1, 3), 1) + (r.chance(0.5) ? "*" : "+") + expr(0); break;
      case 6: if (arrays) return var() + "[" + std::to_string(r.below(4)) + "]"; break;
    }
    return expr(r.range(1, 4));
  }
};

// damage model for stored text; returns a fault kind (index into damage_names)
static const char *const damage_names[] = {"truncate", "torn-zero", "bit-flip", "byte-overwrite", "splice", "duplicate-span", "reorder-span", "delete-span", "garbage-insert", "torn-tail"};
inline int damage(Rng &r, std::string &s, const std::string &other) {
  size_t n = s.size(); int k = r.below(10);
  if (n == 0) { s = "\x01"; return 8; }
  size_t a = r.below(n), b = a + 1 + r.below(n - a);
  switch (k) {
    case 0: s.resize(a); break;
    case 1: for (size_t i = a; i < b; i++) s[i] = 0; break;
    case 2: for (int i = r.range(1, 3); i-- > 0;) s[r.below(n)] ^= 1 << r.below(8); break;
    case 3: for (int i = r.range(1, 3); i-- > 0;) s[r.below(n)] = (char)r.below(256); break;
    case 4: { size_t c = other.empty() ? 0 : r.below(other.size()); s = s.substr(0, a) + other.substr(c); break; }
    case 5: { std::string d = s.substr(a, b - a); for (int i = r.range(1, 4); i-- > 0;) s.insert(a, d); break; }
    case 6: { size_t c = r.below(n - (b - a) + 1); std::string d = s.substr(a, b - a); s.erase(a, b - a); s.insert(c, d); break; }
    case 7: s.erase(a, b - a); break;
    case 9: { static const char g[] = "\xc2\xc3\xc2\xc3\xce\xe2\xf0\xff\x80""eE.+-*^([{|=:, s"; if (r.chance(0.8)) s.resize(a + 1); if (r.chance(0.3)) s += "1"; s += g[r.below(sizeof g - 1)]; break; } // cut inside a symbol
    case 8: { static const char g[] = "()[]{},:=+-*/^.eE ±\xc2\xb1 sincosexpln|\xc2\xc3\xff\x80\n\t0123456789"; for (int i = r.range(1, 5); i-- > 0;) s.insert(r.below(s.size() + 1), 1, g[r.below(sizeof g - 1)]); break; }
  }
  if (s.size() > 4096) s.resize(4096);
  return k;
}
