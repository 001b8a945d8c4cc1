// Output world (C10: printing to failing streams) and locale world (C08: the ambient locale changes between any two steps).
#include "expr_ops.h"
#include "plangen.h"
#include "memcheck.h"
#include "gentext.h"
#include <stator/symbolic/interval.hpp>
#include <stator/symbolic/polynomial.hpp>
#include <stator/orphan/stack_vector.hpp>
#include <stator/xml.hpp>
#include <Eigen/Dense>
#include <clocale>
#include <complex>
#include <locale>
using namespace xw;
using std::to_string;
extern "C" char sim_decimal; extern bool sim_latin1;

namespace {
constexpr char ys[] = "y", ms[] = "m";
typedef sym::Var<x_name> X; typedef sym::Var<ys> Y; typedef Eigen::Matrix<double, 3, 1, Eigen::DontAlign> Vec;
template <class T, size_t N> using SV = stator::orphan::StackVector<T, N>;

// ------------------------------------------------------------------ what is printed
struct Things {
  vector<Expr> e; sym::Polynomial<3, double, X> p; sym::Polynomial<2, float, Y> pf; sym::Polynomial<2, Vec, X> pv; SV<double, 6> sv; SV<std::pair<double, int>, 4> sp; SV<std::tuple<double, int, Expr>, 3> st; SV<Expr, 3> se;
  std::complex<double> c; Eigen::Matrix3d m; Eigen::MatrixXd mx; sym::Array<double> a; sym::interval<double> iv; double d[8]; float f[4];
};
Things *th;
double num(Rng &r) { switch (r.below(20)) { case 9: return std::ldexp(r.unit() - 0.5, 1020 - (int)r.below(700)); case 10: return std::ldexp(r.unit() + 0.5, -1070 + (int)r.below(700)); case 0: return 0; case 1: return (double)r.range(-9, 9); case 2: return 123456.789; case 3: return -1234567.25; case 4: return 1e-7 * r.unit(); case 5: return 1e20 * (r.unit() - 0.5); default: return 20 * (r.unit() - 0.5); } }
void make_things(uint64_t seed, const vector<string> &texts) {
  Rng r(seed); th = new Things; Things &t = *th;
  for (auto &s : texts) { Expr e; string ex = guarded(-5, [&] { e = Expr(s); }); if (ex.empty()) t.e.push_back(e); else t.e.push_back(Expr(2.5)); }
  for (int i = 0; i < 4; i++) t.p[i] = num(r); for (int i = 0; i < 3; i++) t.pf[i] = (float)(r.unit() * 4 - 2); for (int i = 0; i < 3; i++) t.pv[i] = Vec{num(r), r.unit(), num(r)};
  for (int i = r.below(7); i-- > 0;) t.sv.push_back(num(r)); for (int i = r.below(5); i-- > 0;) t.sp.push_back({num(r), r.range(0, 100000)});
  for (int i = r.below(4); i-- > 0;) t.st.push_back(std::make_tuple(num(r), r.range(0, 99999), t.e[0])); for (int i = r.below(4); i-- > 0;) t.se.push_back(t.e[r.below(t.e.size())]);
  t.c = {num(r), num(r)}; for (int i = 0; i < 9; i++) t.m(i / 3, i % 3) = num(r);
  t.mx.resize(1 + r.below(3), 1 + r.below(3)); for (int i = 0; i < t.mx.size(); i++) t.mx.data()[i] = num(r);
  size_t n = 1 + r.below(4); t.a.resize({n}); for (size_t i = 0; i < n; i++) t.a[i] = num(r);
  double lo = num(r); t.iv = sym::interval<double>(lo, lo + r.unit()); for (auto &x : t.d) x = num(r); for (auto &x : t.f) x = (float)(r.unit() * 9);
}
constexpr int KINDS = 17;
bool symbolic_text(int k) { return k <= 5 || k == 13; } // printed as one string made by the library: no part of it is formatted by the stream
void print(std::ostream &os, int k, int i) {
  const Things &t = *th; X x; Y y;
  switch (k) {
    case 0: case 1: os << t.e[i % t.e.size()]; break;
    case 2: os << t.p; break;
    case 3: os << t.pf; break;
    case 4: os << (sym::sin(x) * t.d[i % 8] + y * sym::C<3, 2>()); break;
    case 5: os << t.p << t.pf; break;
    case 6: os << t.sv; break;
    case 7: os << t.sp; break;
    case 8: os << t.st; break;
    case 9: os << t.se; break;
    case 10: sym::operator<<(os, t.c); break;
    case 11: os << sym::C<2, 7>() << " " << sym::C<1, 2>() << " " << sym::pi(); break;
    case 12: os << sym::e() << sym::C<3, 4>() << sym::C<1, 4>() << sym::C<12>(); break;
    case 13: os << x << y; break;
    case 14: os << t.p << " and " << t.e[0] << " and " << t.sv; break;
    case 15: os << t.e[0] << t.e[i % t.e.size()]; break;
    default: os << sym::pow(x, sym::C<2>()) << sym::exp(t.d[i % 8] * x); break;
  }
}

// ------------------------------------------------------------------ C10: the stream
struct StreamFail { long at; };
struct FailBuf : std::streambuf {
  string got; long fail_at = -1, recover = 0; int mode = 0; bool failed = false; long accepted = 0; char area[64]; int areasize = 0;
  // mode 0: reports failure, 1: throws, 2: reports failure once and works again afterwards, 3: accepts part of a write
  bool room() { return fail_at < 0 || (mode == 2 && failed) || (long)got.size() < fail_at; }
  void hit() { failed = true; sim::Quiet q; sim::count_fault(6 + mode); if (mode == 1) throw StreamFail{(long)got.size()}; }
  int_type overflow(int_type c) override {
    sim::Quiet q;
    if (traits_type::eq_int_type(c, traits_type::eof())) return traits_type::not_eof(c);
    if (!room()) { hit(); return traits_type::eof(); }
    got += (char)c; return c;
  }
  std::streamsize xsputn(const char *s, std::streamsize n) override {
    sim::Quiet q;
    for (std::streamsize i = 0; i < n; i++) { if (!room()) { hit(); return i; } got += s[i]; }
    return n;
  }
  int sync() override { return 0; }
};
struct NoConv : std::ctype<char> {};
// n: kind index  failmode failat  mask flags precision width fill prior
string print_op(const Op &o, bool faults, string *problem) {
  long *n = const_cast<long *>(o.n.data()); string out; FailBuf *b = new FailBuf; string ex; std::ios_base::iostate st = std::ios_base::goodbit; bool threw_fail = false, threw_ios = false; bool fmtbad = false; std::streamsize w = 0;
  if (faults) { b->mode = n[2]; b->fail_at = n[3]; }
  {
    std::ostream os(b);
    static const std::ios_base::iostate masks[] = {std::ios_base::goodbit, std::ios_base::badbit, std::ios_base::failbit, std::ios_base::badbit | std::ios_base::failbit};
    std::ios_base::fmtflags fl = std::ios_base::dec | std::ios_base::skipws;
    if (n[5] & 1) fl |= std::ios_base::showpos; if (n[5] & 2) fl = (fl & ~std::ios_base::basefield) | std::ios_base::hex | std::ios_base::showbase; if (n[5] & 4) fl |= std::ios_base::scientific; if (n[5] & 8) fl |= std::ios_base::left; if (n[5] & 16) fl |= std::ios_base::uppercase; if (n[5] & 32) fl |= std::ios_base::unitbuf;
    os.flags(fl); os.precision(n[6]); os.width(n[7]); char fillc = n[7] ? '*' : ' '; os.fill(fillc);
    std::ios_base::iostate prior = n[8] == 1 && faults ? std::ios_base::failbit : n[8] == 2 && faults ? std::ios_base::badbit : n[8] == 3 && faults ? std::ios_base::eofbit : std::ios_base::goodbit;
    os.clear(prior);
    auto mask = prior ? std::ios_base::goodbit : masks[n[4] & 3]; os.exceptions(mask);
    std::locale l0 = os.getloc(); auto tie0 = os.tie(); auto rb0 = os.rdbuf();
    ex = guarded(faults ? o.id : -7, [&] { try { print(os, n[0], n[1]); } catch (const StreamFail &) { threw_fail = true; } catch (const std::ios_base::failure &) { threw_ios = true; } });
    st = os.rdstate(); w = os.width();
    fmtbad = os.flags() != fl || os.precision() != n[6] || os.fill() != fillc || !(os.getloc() == l0) || os.exceptions() != mask || os.tie() != tie0 || os.rdbuf() != rb0;
    out = b->got; bool failed = b->failed;
    if (problem) {
      string &p = *problem;
      if (fmtbad) p = "printing changed the formatting state of the stream";
      else if (w != 0 && w != n[7]) p = "printing left the stream with width " + to_string(w);
      else if (ex == "oom") {}
      else if (!ex.empty()) p = "an exception the stream did not cause came out: " + ex;
      else if (prior) { if (threw_fail || threw_ios) p = "an exception came out of a stream whose exceptions are off"; if (!out.empty()) p = "bytes were written to a stream that had already failed: <" + out + ">"; if ((st & prior) != prior) p = "printing cleared the error state of the stream"; }
      else if (failed && !(st & (std::ios_base::badbit | std::ios_base::failbit))) p = "the stream failed but its state does not say so";
      else if (failed && (mask & std::ios_base::badbit) && !threw_fail && !threw_ios) p = "the stream failed with exceptions on, but none came out";
      else if (failed && b->mode == 1 && (mask & std::ios_base::badbit) && !threw_fail) p = "the exception thrown by the stream buffer was replaced";
      else if (failed && mask == std::ios_base::goodbit && (threw_fail || threw_ios)) p = "exceptions are off, but one came out";
      else if (!failed && (threw_fail || threw_ios)) p = "an exception came out although the stream had not failed";
      else if (!failed && !last_fired && (st != std::ios_base::goodbit)) p = "the stream did not fail but its state is " + to_string((int)st);
    }
    os.exceptions(std::ios_base::goodbit);
  }
  bool nofail = !b->failed; delete b;
  return (nofail && ex.empty() && !(n[8] && faults) && st == std::ios_base::goodbit ? "full:" : "part:") + out;
}
// ------------------------------------------------------------------ C08
struct Comma : std::numpunct<char> { char do_decimal_point() const override { return ','; } char do_thousands_sep() const override { return '.'; } string do_grouping() const override { return "\3"; } };
struct Odd : std::numpunct<char> { char do_decimal_point() const override { return '5'; } char do_thousands_sep() const override { return '-'; } string do_grouping() const override { return "\1\2"; } string do_truename() const override { return "oui"; } string do_falsename() const override { return "non"; } };
struct Latin : std::ctype<char> { // letters, digits, blanks beyond ASCII; '_' is a letter and ';' a blank
  mask t[table_size]; Latin() : std::ctype<char>(t) { for (size_t i = 0; i < table_size; i++) t[i] = classic_table()[i]; for (int i = 0xC0; i < 256; i++) t[i] = alpha | (i < 0xE0 ? upper : lower) | print; t[0xA0] = space | blank; t[0xB1] = t[0xB2] = punct | digit; t[(int)'_'] |= alpha; t[(int)';'] |= space; t[(int)'e'] &= ~alpha; }
  char do_toupper(char c) const override { return c == 'i' ? '\xDD' : std::ctype<char>::do_toupper(c); } char do_tolower(char c) const override { return c == 'I' ? '\xFD' : std::ctype<char>::do_tolower(c); }
};
struct Backwards : std::collate<char> { int do_compare(const char *a, const char *b, const char *c, const char *d) const override { return -std::collate<char>::do_compare(a, b, c, d); } };
std::locale *locs[3]; int cur_loc;
void make_locales() { locs[0] = new std::locale(std::locale::classic()); locs[1] = new std::locale(std::locale(std::locale::classic(), new Comma), new Latin); locs[2] = new std::locale(std::locale(std::locale(std::locale::classic(), new Odd), new Latin), new Backwards); cur_loc = 0; }
void set_ambient(int k) { sim::Quiet q; std::locale::global(*locs[k]); cur_loc = k; sim_decimal = k == 0 ? '.' : k == 1 ? ',' : '5'; sim_latin1 = k != 0; sim::count_fault(10 + k); }
string check_ambient() { sim::Quiet q; if (!(std::locale() == *locs[cur_loc])) return "bad:the global locale is no longer the one the application set"; const char *c = setlocale(LC_ALL, nullptr); if (strcmp(c, "C")) return string("bad:the C locale is now ") + c; return ""; }
template <class T> string stream(const T &t, bool classic) { std::ostringstream os; if (classic) os.imbue(std::locale::classic()); os << t; return os.str(); }
void text_op(const Op &o, string &out) {
  const Things &t = *th; const string &k = o.k; long i = o.n[0];
  auto put = [&](const string &s) { sim::Quiet q; out += "<" + s + "> "; };
  if (k == "parse") { Expr e(o.s); { sim::Quiet q; out = ser(e); } put(sym::repr(e)); }
  else if (k == "parseprint") { Expr e(o.s); string s = sym::repr(e); Expr f(s); bool same = e == f; string l = sym::repr<Latex>(f); put(s); put(l); put(same ? "same" : "differs"); }
  else if (k == "expr") { const Expr &e = t.e[i % t.e.size()]; string a = sym::repr(e), b = sym::repr<Latex>(e), c = stream(e, false); put(a); put(b); put(c); }
  else if (k == "derive") { const Expr &e = t.e[i % t.e.size()]; X x; Expr d = sym::simplify(sym::derivative(e, x)); string a = sym::repr(d); put(a); Expr v = sym::simplify(sym::sub(d, x = Expr(0.75))); string b = sym::repr(v); put(b); }
  else if (k == "poly") { string a = sym::repr(t.p), b = sym::repr<Latex>(t.pf), c = stream(t.p, false); put(a); put(b); put(c); }
  else if (k == "matrix") { string a = sym::repr(t.m), b = sym::repr<Latex>(t.m), c = sym::repr(t.mx); put(a); put(b); put(c); }
  else if (k == "array") { string a = sym::repr(t.a), b = sym::repr<Latex>(t.a), c = sym::repr(t.iv); put(a); put(b); put(c); }
  else if (k == "num") { string a = stator::repr(t.d[i % 8]), b = stator::repr<Latex>(t.d[(i + 1) % 8]), c = stator::repr(t.f[i % 4]), d = stator::repr<stator::ReprConfig<stator::Rounding_digits<5>>>(t.d[i % 8]); put(a); put(b); put(c); put(d); }
  else if (k == "int") {
    int v = (i % 3 == 0 ? -1 : 1) * (int)(1234567 + i); unsigned short u = 54321; string a = stator::repr(v), b = stator::repr<Latex>((long)v * 1000), c = stator::repr((unsigned long)v), d = stator::repr(u), e = stator::repr((short)-9999), f = stator::repr((long long)v * v); put(a); put(b); put(c); put(d); put(e); put(f);
    string g = sym::repr(sym::C<1234567, 1000>()), h = sym::repr<Latex>(sym::C<-7654321>()), l = sym::repr<stator::ReprConfig<stator::Debug_output>>(sym::C<1000, 1001>()), m = stream(sym::C<1000000>(), true); put(g); put(h); put(l); put(m);
    sym::Polynomial<2, int, X> p; p[0] = v; p[1] = 1000; p[2] = -123456; string q = sym::repr(p), r = sym::repr<Latex>(p); put(q); put(r);
    sym::Array<int> z; z.resize({4}); z[0] = v; z[1] = 99999; z[2] = 0; z[3] = -1000; string w = sym::repr(z); put(w); SV<int, 3> sv; sv.push_back(v); sv.push_back(1000); string n = stream(sv, true); put(n); SV<std::pair<long, int>, 2> sp; sp.push_back({v * 1000L, 2000}); string y = stream(sp, true); put(y);
  }
  else if (k == "ct") { X x; Y y; string a = sym::repr(sym::sin(x) * t.d[i % 8] + y * sym::C<3, 2>()), b = sym::repr<Latex>(sym::derivative(sym::exp(x * t.d[1]), x)); put(a); put(b); }
  else if (k == "vec") { string a = stream(t.sv, true), b = stream(t.st, true), c = stream(t.sp, true); put(a); put(b); put(c); }
  else if (k == "err") { try { stator_throw() << "number " << t.d[i % 8] << " count " << 1234567 << " " << t.f[0] << " flag " << t.e[i % t.e.size()]; } catch (const stator::Exception &e) { string s = e.what(); put(s); } }
  else if (k == "annotate") { try { stator_throw() << "first " << t.d[i % 8]; } catch (stator::Exception &e) { string a = e.what(); e << " then " << t.d[(i + 1) % 8] << " and " << 7654321; string b = e.what(); put(b); put(b.compare(0, a.size(), a) == 0 ? "kept" : "lost the first part: " + a); } }
  else if (k == "copyerr") { try { try { stator_throw() << "first " << t.d[i % 8]; } catch (const stator::Exception &e) { stator::Exception c(e); c << " copied " << t.d[(i + 2) % 8] << " " << 1000000; throw c; } } catch (const stator::Exception &e) { string b = e.what(); put(b); } }
  else if (k == "baderr") { Expr e = t.e[i % t.e.size()]; try { double v = e.as<double>(); string s = stator::repr(v); put(s); } catch (const std::exception &x) { string s = x.what(); put(s); } try { Expr bad(o.s); string s = sym::repr(bad); put(s); } catch (const std::exception &x) { string s = x.what(); put(s); } }
  else if (k == "xml") {
    namespace x = stator::xml; x::Document doc; x::Node a = doc.add_node("a");
    a.add_attribute("n", t.d[i % 8]); a.add_attribute("i", 1234567L * (i + 1)); a.add_attribute("f", t.f[i % 4]); a.add_attribute("u", (unsigned)(i + 7) * 1000u); a.add_attribute("b", true);
    a.add_attribute("t", string("1.5")); a.add_attribute("h", string("2,5")); a.add_attribute("g", string("1.234")); a.add_attribute("inf", std::numeric_limits<double>::infinity());
    x::Node r = doc.getNode("a"); for (const char *n : {"n", "i", "f", "u", "b", "t", "h", "g", "inf"}) { string v = r.getAttribute(n).getValue(); put(v); }
    for (const char *n : {"t", "h", "g", "n", "i", "inf"}) {
      try { double v = r.getAttribute(n).as<double>(); sim::Quiet q; char b[40]; snprintf(b, sizeof b, "%.17g", v); out += string(b) + " "; } catch (const std::exception &e) { string s = e.what(); put(s); }
      try { long v = r.getAttribute(n).as<long>(); sim::Quiet q; out += to_string(v) + " "; } catch (const std::exception &e) { sim::Quiet q; out += "no "; }
    }
    float v = r.getAttribute("f").as<float>(); bool b = r.getAttribute("b").as<bool>(); sim::Quiet q; out += v == t.f[i % 4] && b ? "same" : "differs";
  }
  else out = "bad:unknown op";
}

struct IoCheck : Check {
  string prop; explicit IoCheck(const string &p) : prop(p) {}
  const char *property() override { return prop.c_str(); }
  static void stats(int id, sim::OpStat a) { sim::OpStat b = sim::opstat(); char t[120]; snprintf(t, sizeof t, "%lu %lu %lu %lu %lu", a.ev, b.ev, a.st, b.st, last_allocs); emit(id, 's', t); }
  static IoCheck *me; struct Arg { const Plan *p; int t; };
  void step(const Op &o) {
    sim::OpStat s0 = sim::opstat();
    if (o.k == "locale") { sim::Lib lib(o.id); sim::yield_point(); set_ambient(o.n[0] % 3); sim::yield_point(); { sim::Quiet q; stats(o.id, s0); } return; }
    if (prop == "C10") {
      string problem, out = print_op(o, true, &problem); uint64_t al = last_allocs; bool fired = last_fired; stats(o.id, s0); (void)al;
      emit(o.id, 'p', problem.empty() ? "" : "bad:" + problem);
      emit(o.id, 'o', out + (fired ? "" : "")); string again = print_op(o, false, nullptr); emit(o.id, 'h', again); // the object is intact: a healthy stream gets everything
      return;
    }
    string out, ex = guarded(o.id, [&] { text_op(o, out); }); stats(o.id, s0);
    string amb = check_ambient(); emit(o.id, 'o', !amb.empty() ? amb : ex.empty() ? out : ex);
  }
  static void tmain(void *v) { auto *a = (Arg *)v; sim::Quiet q; for (auto &o : a->p->th[a->t - 1]) me->step(o); }
  void begin(const Plan &p) { me = this; make_locales(); vector<string> texts; for (auto &o : p.setup) texts.push_back(o.s); if (texts.empty()) texts.push_back("x+1"); make_things(p.c("iseed"), texts); }
  void program(const Plan &p) override {
    sim::Quiet q; begin(p); vector<Arg> a(p.th.size());
    if (p.th.size() == 1) { a[0] = {&p, 1}; for (auto &o : p.th[0]) step(o); }
    else { for (size_t i = 0; i < p.th.size(); i++) { a[i] = {&p, (int)i + 1}; sim::spawn(tmain, &a[i]); } sim::join_all(); }
    { sim::Lib l(-6); delete th; th = nullptr; }
    string l = sim::leaks(); if (!l.empty()) sim::violation("leak", l);
  }
  void alone(const Plan &p, int id) override {
    sim::Quiet q; begin(p);
    for (auto &t : p.th) for (auto &o : t) if (o.id == id) { if (prop == "C10") { string s = print_op(o, false, nullptr); emit(id, 'h', s); } else step(o); }
  }
  void gen(Rng &r, Plan &p) override {
    p.cfg["iseed"] = r.below(1 << 20); TextGen g{r};
    for (int i = r.range(1, 3); i-- > 0;) { Op o; o.id = i + 1; o.k = "text"; o.s = r.chance(0.3) ? g.any() : g.expr(r.range(1, 3)); if (r.chance(0.06)) { o.s = g.expr(1); int want = r.chance(0.5) ? r.range(200, 700) : r.range(700, 2500); while ((int)o.s.size() < want) o.s += "+" + g.number() + "*" + g.var() + "^" + to_string(r.range(2, 9)); } if (r.chance(0.05)) o.s = g.list(r.range(8, 40), 0); p.setup.push_back(o); }
    int nt = prop == "C10" ? (r.chance(0.7) ? 1 : 2) : r.range(2, 3);
    for (int t = 0; t < nt; t++) {
      p.th.emplace_back();
      for (int j = 0, n = r.range(1, prop == "C10" ? 5 : 4); j < n; j++) {
        Op o; o.id = 1000 * (t + 1) + j;
        if (prop == "C10") {
          o.k = "print"; long w = r.chance(0.2) ? r.range(1, 40) : 0;
          o.n = {(long)r.below(KINDS), (long)r.below(8), 0, -1, (long)r.below(4), (long)(r.chance(0.5) ? 0 : r.below(64)), (long)(r.chance(0.5) ? 6 : r.range(0, 20)), w, 0};
        } else if (t == 0) { o.k = "locale"; o.n = {(long)r.range(0, 2)}; }
        else {
          static const char *ks[] = {"parse", "parse", "parse", "parseprint", "expr", "expr", "derive", "poly", "matrix", "array", "num", "num", "int", "ct", "vec", "err", "annotate", "copyerr", "baderr", "xml", "xml"};
          o.k = ks[r.below(sizeof ks / sizeof *ks)]; o.n = {(long)r.below(8)};
          o.s = r.chance(0.5) ? g.expr(r.range(0, 3)) : r.chance(0.2) ? g.number() + "\xc2\xb1" + g.number() : r.chance(0.5) ? g.number() + "*" + g.number() + "+" + g.var() : g.any(); if (r.chance(0.15)) { int k = damage(r, o.s, "1.5+2.25e-3*x"); (void)k; }
        }
        p.th[t].push_back(o);
      }
    }
    p.sched.fill = r.chance(0.5) ? 0xA5 : 0xFF;
  }
  int variants(Rng &, const Plan &) override { return prop == "C10" ? 50 : 25; }
  void vary(Rng &r, Plan &p, const RunResult &base) override {
    BaseStats b(base);
    if (prop == "C10") {
      for (auto &t : p.th) for (auto &o : t) {
        if (r.chance(0.15)) continue;
        const Rec *q = base.find(o.id, 'h'); long len = q ? (long)q->text.size() - 5 : 20;
        o.n[2] = r.below(4); o.n[3] = r.chance(0.1) ? 0 : r.below(len + 2); if (r.chance(0.1)) { o.n[3] = -1; o.n[8] = r.range(1, 3); }
      }
      add_switches(r, p, b, 4); if (r.chance(0.15)) add_alloc_faults(r, p, b, 2);
      return;
    }
    // the environment's locale changes are placed inside the other threads' operations
    add_switches(r, p, b, 3); p.sched.first = r.range(1, (int)p.th.size());
    if (p.th.size() > 1) for (int i = r.range(1, 6); i-- > 0;) {
      int t = r.range(2, (int)p.th.size()); if (p.th[t - 1].empty()) continue;
      const Op &o = p.th[t - 1][r.below(p.th[t - 1].size())]; auto it = b.m.find(o.id); if (it == b.m.end()) continue; auto &a = it->second;
      sim::Switch s; s.tid = t; s.to = 1; if (r.chance(0.5) && a[1] > a[0]) { s.mode = 0; s.at = a[0] + 1 + r.below(a[1] - a[0]); } else { s.mode = 1; s.at = a[2] + 1 + r.below(a[3] - a[2] + 1); }
      p.sched.sw.push_back(s);
      if (!p.th[0].empty()) { const Op &l = p.th[0][r.below(p.th[0].size())]; auto jt = b.m.find(l.id); if (jt != b.m.end()) { sim::Switch s2; s2.tid = 1; s2.to = t; s2.mode = 1; s2.at = jt->second[3]; p.sched.sw.push_back(s2); } }
    }
  }
  Verdict judge(const Plan &p, const RunResult &r, std::function<const RunResult &(int)> ref) override {
    for (auto &x : r.recs) {
      if (x.type == 's') continue;
      if (x.text.compare(0, 4, "bad:") == 0) return Verdict{"wrong-result", "op " + to_string(x.id) + ": " + x.text.substr(4)};
      if (x.type == 'p') continue;
      const RunResult &f = ref(x.id); if (!f.kind.empty()) return Verdict{f.kind, f.msg};
      const Rec *q = f.find(x.id, prop == "C10" ? 'h' : x.type); if (!q) return Verdict{"harness", "no reference for op " + to_string(x.id)};
      if (prop == "C10" && x.type == 'o') {
        string full = q->text.substr(5), got = x.text.substr(5);
        if (x.text.compare(0, 5, "full:") == 0 ? got != full : full.compare(0, got.size(), got) != 0) return Verdict{"not-a-prefix", "op " + to_string(x.id) + ": the stream received <" + got + "> of <" + full + ">"};
      } else if (q->text != x.text) return Verdict{"outcome-differs", "op " + to_string(x.id) + ": got <" + x.text + "> but alone it gives <" + q->text + ">"};
    }
    return Verdict{};
  }
  bool nontrivial(const Plan &, const RunResult &r) override { if (prop == "C10") { uint64_t f = 0; for (auto x : r.head.faults) f += x; return f; } return (r.head.faults[11] || r.head.faults[12]) && r.head.preempt_in_op; }
  vector<const char *> fault_names() override {
    if (prop == "C10") { auto v = Check::fault_names(); for (auto n : {"write-fails", "write-throws", "write-fails-once", "short-write"}) v.push_back(n); return v; }
    vector<const char *> v(13, nullptr); v[10] = "locale-back-to-classic"; v[11] = "locale-comma"; v[12] = "locale-odd"; return v;
  }
  const char *rule() override { return prop == "C10" ? "runs in which the stream failed or an allocation failed, distinct by trace and what the streams received" : "runs in which the locale changed and a call was pre-empted, distinct by the global sequence of shared accesses and switches and the recorded outcomes"; }
};
IoCheck *IoCheck::me;
} // namespace
Check *make_check(const std::string &p) { if (p == "C08" || p == "C10") return new IoCheck(p); if (p == "C04") return new MemCheck(4, {new IoCheck("C10"), new IoCheck("C10"), new IoCheck("C08")}, {"write-fails", "write-throws", "write-fails-once", "short-write", "locale-back-to-classic", "locale-comma", "locale-odd"}); return nullptr; }
