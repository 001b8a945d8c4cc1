// Numeric world: C02 (re-entrancy of the numeric and compile-time layer), C09 (root searches over a misbehaving objective).
#include <stator/symbolic/symbolic.hpp>
#include <stator/symbolic/ad.hpp>
#include <stator/symbolic/taylor.hpp>
#include <stator/symbolic/interval.hpp>
#include <stator/symbolic/uncertainty.hpp>
#include <stator/symbolic/units.hpp>
#include <stator/symbolic/precision.hpp>
#include <stator/symbolic/numeric.hpp>
#include <stator/symbolic/array.hpp>
#include <stator/orphan/stack_vector.hpp>
#include <stator/string.hpp>
#include <stator/constants.hpp>
#include <stator/geometry/sphere.hpp>
#include <stator/geometry/box.hpp>
#include <stator/geometry/point.hpp>
#include <stator/geometry/plane.hpp>
#include "guard.h"
#include "plangen.h"
#include "memcheck.h"
#include <limits>
#include <sstream>

using namespace xw;
using std::to_string;

namespace {
constexpr char xs[] = "x", ys[] = "y", ms[] = "m", kgs[] = "kg";
typedef sym::Var<xs> X; typedef sym::Var<ys> Y;
typedef Eigen::Matrix<double, 3, 1, Eigen::DontAlign> Vec;

// ------------------------------------------------------------------ shared read-only inputs
struct In {
  double v[8]; float fv[4];
  sym::Polynomial<1, double, X> p1; sym::Polynomial<2, double, X> p2; sym::Polynomial<3, double, X> p3; sym::Polynomial<4, double, X> p4; sym::Polynomial<5, double, X> p5; sym::Polynomial<6, double, X> p6;
  sym::Polynomial<2, Vec, X> pv; sym::Polynomial<3, float, X> pf;
  stator::orphan::StackVector<double, 6> sv; stator::orphan::StackVector<std::pair<double, double>, 4> sp; stator::orphan::StackVector<std::tuple<double, int>, 3> st;
  sym::interval<double> iv; Eigen::Matrix3d mat; Vec vec; std::string text, find, repl; sym::Array<double> arr;
};
double special(Rng &r) {
  switch (r.below(12)) { case 0: return 0; case 1: return 1; case 2: return -1; case 3: return 1e-9 * (r.unit() - 0.5); case 4: return 1e9 * (r.unit() - 0.5); case 5: return (double)r.range(-5, 5); default: return 8 * (r.unit() - 0.5); }
}
template <class P> void fill_poly(Rng &r, P &p, size_t n, bool roots) {
  if (!roots) { for (size_t i = 0; i <= n; i++) p[i] = special(r); return; }
  std::vector<double> used, c{1.0}; // product of real factors
  for (size_t k = 0; k < n; k++) { double root; bool near;
    do { root = r.chance(0.3) ? (double)r.range(-3, 3) : 8 * (r.unit() - 0.5); near = false; for (double u : used) if (std::abs(u - root) < 0.1) near = true; } while (near); // multiple roots are outside what the bounding algorithms accept
    used.push_back(root); std::vector<double> d(c.size() + 1, 0.0); for (size_t i = 0; i < c.size(); i++) { d[i + 1] += c[i]; d[i] -= root * c[i]; } c = d; }
  double s = r.chance(0.5) ? 1 : 1 + 3 * r.unit();
  for (size_t i = 0; i <= n; i++) p[i] = s * c[i];
}
void fill_in(In &in, uint64_t seed) {
  Rng r(seed);
  for (auto &x : in.v) x = 0.25 + 3 * r.unit();
  for (auto &x : in.fv) x = 0.25f + 2 * (float)r.unit();
  fill_poly(r, in.p1, 1, r.chance(0.5)); fill_poly(r, in.p2, 2, r.chance(0.5)); fill_poly(r, in.p3, 3, r.chance(0.5)); fill_poly(r, in.p4, 4, r.chance(0.7)); fill_poly(r, in.p5, 5, r.chance(0.7)); fill_poly(r, in.p6, 6, r.chance(0.7));
  if (r.chance(0.15)) { auto huge = [&](auto &p, int n) { for (int i = 0; i < n; i++) if (r.chance(0.5)) p[i] = special(r) * std::pow(10.0, r.range(60, 300)); if (p[n] == 0) p[n] = 1; }; huge(in.p2, 2); huge(in.p3, 3); } // squares of these overflow
  for (int i = 0; i <= 2; i++) in.pv[i] = Vec{special(r), r.unit(), (double)r.range(0, 3)};
  for (int i = 0; i <= 3; i++) in.pf[i] = (float)(r.unit() - 0.5);
  for (int i = r.below(6); i-- > 0;) in.sv.push_back(special(r));
  for (int i = r.below(4); i-- > 0;) in.sp.push_back({special(r), special(r)});
  for (int i = r.below(3); i-- > 0;) in.st.push_back(std::make_tuple(special(r), r.range(0, 99)));
  double lo = 4 * (r.unit() - 0.5); in.iv = sym::interval<double>(lo, lo + 2 * r.unit());
  for (int i = 0; i < 9; i++) in.mat(i / 3, i % 3) = special(r);
  in.vec = Vec{r.unit(), special(r), r.unit()};
  in.text = "the a quick b brown a fox  "; in.find = r.chance(0.5) ? "a" : "brown"; in.repl = r.chance(0.5) ? "" : "something longer than it was";
  size_t na = 1 + r.below(4); in.arr.resize({na}); for (size_t i = 0; i < na; i++) in.arr[i] = special(r);
}
In *ins;

struct Txt {
  std::string s;
  void d(double x) { s += hexd(x) + " "; }
  void u(uint64_t x) { s += to_string(x) + " "; }
  void t(const std::string &x) { s += "<" + x + "> "; }
  template <class P> void poly(const P &p, size_t n) { for (size_t i = 0; i <= n; i++) d(p[i]); }
  template <class V> void roots(const V &v) { u(v.size()); for (auto x : v) d(x); }
  template <class V> void ranges(const V &v) { u(v.size()); for (auto &x : v) { d(x.first); d(x.second); } }
};
template <class T> std::string stream(const T &t) { std::ostringstream os; os << t; return os.str(); }

template <size_t N, class P> void roots_op(const P &f, int mode, Txt &o) {
  using namespace sym;
  if constexpr (N <= 3) { auto r = solve_real_roots(f); sim::Quiet q; o.roots(r); }
  else if (mode == 0) { auto r = solve_real_roots<PolyRootBounder::STURM>(f); sim::Quiet q; o.roots(r); }
  else if (mode == 1) { auto r = solve_real_roots<PolyRootBounder::VCA>(f); sim::Quiet q; o.roots(r); }
  else { auto r = solve_real_roots<PolyRootBounder::VAS>(f); sim::Quiet q; o.roots(r); }
}
template <size_t N, class P> void bounds_op(const P &f, const In &in, Txt &o) {
  using namespace sym;
  auto a = VCA_real_root_bounds(f); auto b = VAS_real_root_bounds(f); double u = LMQ_upper_bound(f), l = LMQ_lower_bound(f);
  size_t d = descartes_rule_of_signs(f), bu = budan_01_test(f), ag = alesina_galuzzi_test(f, 0.0, in.v[0]);
  auto ch = sturm_chain(f); size_t c = ch.roots(-in.v[1], in.v[2]); auto g = ch.get(1);
  sim::Quiet q; o.ranges(a); o.ranges(b); o.d(u); o.d(l); o.u(d); o.u(bu); o.u(ag); o.u(c); o.poly(g, N);
}
template <size_t N, class P> void arith_op(const P &f, const In &in, Txt &o) {
  using namespace sym;
  auto a = expand(f + in.p2); auto b = expand(f * in.p1); auto c = expand(f - in.p3); auto e = -f; auto h = expand(f * in.v[0]); auto k = expand(f / in.v[1]); auto df = derivative(f, X());
  auto sh = shift_function(f, in.v[2]); auto rf = reflect_poly(f); auto sc = scale_poly(f, in.v[3]); double v = sub(f, X() = in.v[4]); auto ev = eval_derivatives<2>(f, in.v[5]);
  auto de = deflate_polynomial(f, in.v[6]); auto g = gcd(f, in.p1); double pr = precision(f, in.v[7]); bool eq = (f == f);
  auto cc = change_order<N + 1>(f);
  sim::Quiet q; o.poly(b, N + 1); o.poly(e, N); o.poly(h, N); o.poly(k, N); o.poly(df, N - 1); o.poly(sh, N); o.poly(rf, N); o.poly(sc, N); o.d(v); for (double x : ev) o.d(x); o.poly(de, N - 1);
  o.poly(std::get<0>(g), N - 1); o.d(pr); o.u(eq); o.poly(cc, N + 1); o.poly(a, std::max<size_t>(N, 2)); o.poly(c, std::max<size_t>(N, 3));
}
template <class F> void by_order(const In &in, int n, F f) {
  switch (n) { case 1: f(in.p1, std::integral_constant<size_t, 1>()); break; case 2: f(in.p2, std::integral_constant<size_t, 2>()); break; case 3: f(in.p3, std::integral_constant<size_t, 3>()); break;
    case 4: f(in.p4, std::integral_constant<size_t, 4>()); break; case 5: f(in.p5, std::integral_constant<size_t, 5>()); break; default: f(in.p6, std::integral_constant<size_t, 6>()); }
}

void run_num(const Op &op, Txt &o) {
  using namespace sym;
  const In &in = ins[op.a[0]]; int n = op.n[0], m = op.n[1]; const std::string &k = op.k; X x; Y y;
  if (k == "roots") by_order(in, n, [&](auto &f, auto N) { roots_op<N.value>(f, m, o); });
  else if (k == "bounds") by_order(in, n < 2 ? 2 : n, [&](auto &f, auto N) { if constexpr (N.value >= 2) bounds_op<N.value>(f, in, o); });
  else if (k == "arith") by_order(in, n < 2 ? 2 : n, [&](auto &f, auto N) { if constexpr (N.value >= 2) arith_op<N.value>(f, in, o); });
  else if (k == "repr") by_order(in, n, [&](auto &f, auto) { std::string a = repr(f); std::string b = stream(f); auto c = repr<stator::ReprConfig<stator::Latex_output>>(f); sim::Quiet q; o.t(a); o.t(b); o.t(c); });
  else if (k == "ad") {
    Eigen::Matrix<double, 5, 1> r;
    switch (n % 6) {
      case 0: r = ad<4>(sin(x) * x + exp(x) / pow(x, C<2>()), x = in.v[0]); break;
      case 1: r = ad<4>(log(x * x) - cos(x), x = in.v[1]); break;
      case 2: r = ad<4>(pow(x, x), x = in.v[2]); break;
      case 3: r = ad<4>(exp(sin(x)) * cos(x * x), x = in.v[3]); break;
      case 4: r = ad<4>(pow(x, C<3>()) - C<1, 2>() * x + 2.5, x = in.v[4]); break;
      default: r = ad<4>(in.v[5] / (x + 1.0), x = in.v[6]); break;
    }
    sim::Quiet q; for (int i = 0; i < 5; i++) o.d(r[i]);
  } else if (k == "taylor") {
    double a, b; std::string s;
    switch (n % 3) { case 0: { auto t = taylor_series<3>(sin(x), in.v[0], x); s = repr(t); a = sub(t, x = in.v[1]); break; } case 1: { auto t = taylor_series<2>(exp(x) * x, in.v[0], x); s = repr(t); a = sub(t, x = in.v[1]); break; } default: { auto t = taylor_series<3>(x * x * x, in.v[2], x); s = repr(t); a = sub(t, x = in.v[3]); } }
    b = 0; sim::Quiet q; o.t(s); o.d(a); o.d(b);
  } else if (k == "interval") {
    auto a = in.iv * in.iv - 2.0 * in.iv + 1.0; auto f = x * x - 2.0 * x + 1.0; auto r = sub(f, x = in.iv); std::string s = repr(r); auto w = in.iv / sym::interval<double>(in.v[0], in.v[0] + 1);
    sim::Quiet q; o.d(a.lower()); o.d(a.upper()); o.d(r.lower()); o.d(r.upper()); o.t(s); o.d(w.lower()); o.d(w.upper());
  } else if (k == "search") {
    double c = in.v[0]; double r = 1; bool ok; float rf = 1;
    auto f3 = [&](double z) { return std::array<double, 3>{{z * z * z - c, 3 * z * z, 6 * z}}; };
    auto f2 = [&](double z) { return std::array<double, 2>{{std::exp(z) - c, std::exp(z)}}; };
    auto f1 = [&](double z) { return z * z - c; }; auto ff = [&](float z) { return std::array<float, 2>{{z * z - in.fv[0], 2 * z}}; };
    switch (n % 4) { case 0: ok = stator::numeric::newton_raphson(f2, r, -10.0, 10.0); break; case 1: ok = stator::numeric::halleys_method(f3, r, 0.0, 1e5); break; case 2: r = 0; ok = stator::numeric::bisection(f1, r, 0.0, 10.0); break; default: ok = stator::numeric::newton_raphson(ff, rf, 0.0f, 100.0f); r = rf; }
    sim::Quiet q; o.u(ok); o.d(r);
  } else if (k == "sv") { std::string a = stream(in.sv), b = stream(in.sp), c = stream(in.st); stator::orphan::StackVector<double, 8> e(in.sv); e.push_back(1.5); e.extend(stator::orphan::StackVector<double, 1>{2.5}); double last = e.pop_back(); std::string d = stream(e); sim::Quiet q; o.t(a); o.t(b); o.t(c); o.t(d); o.d(last); }
  else if (k == "matrix") { std::string a = repr(in.mat), b = repr(in.vec), c = repr<stator::ReprConfig<stator::Latex_output>>(in.vec); auto g = derivative(in.pv, x); sim::Quiet q; o.t(a); o.t(b); o.t(c); for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) o.d(g[i][j]); }
  else if (k == "ct") {
    double v; std::string s, t;
    switch (n % 6) {
      case 4: { auto f = integrate(C<2>(), x) + integrate(y + C<3>(), x); s = repr(f); v = sub(sub(f, x = in.v[0]), y = in.v[1]); break; }
      case 0: { auto f = sin(x) * x + y * C<3, 2>(); s = repr(f); v = sub(sub(f, x = in.v[0]), y = in.v[1]); break; }
      case 1: { auto f = derivative(exp(x * x) / x, x); s = repr(f); v = sub(f, x = in.v[2]); break; }
      case 2: { auto f = derivative(log(x) * pow(x, C<2>()), x); s = repr<stator::ReprConfig<stator::Latex_output>>(f); v = sub(f, x = in.v[3]); break; }
      case 3: { auto f = expand((in.p1 + x) * in.p2); s = repr(f); v = sub(f, x = in.v[4]); break; }
      default: { auto f = try_simplify(x * 2.0 + 3.0 - cos(x)); s = repr(f); v = sub(f, x = in.v[5]); break; }
    }
    sim::Quiet q; o.t(s); o.d(v);
  } else if (k == "units") { Var<ms> mm; Var<kgs> kg; auto e = sym::units(in.v[0], mm * kg); std::string a = repr(e), b = repr(e * sym::units(in.v[1], mm)); sim::Quiet q; o.t(a); o.t(b); }
  else if (k == "num") { std::string a = stator::repr(in.v[0]), b = stator::repr(in.fv[0]), c = stator::string_format("%d-%s-%.17g", 42, in.text.c_str(), in.v[1]), d = stator::search_replace(in.text, in.find, in.repl).first, e = stator::strip(in.text); size_t h = 7; sim::Quiet q; o.t(a); o.t(b); o.t(c); o.t(d); o.t(e); o.u(h); }
  else if (k == "array") { auto a = in.arr + in.arr; auto b = a - in.arr; std::string s = repr(in.arr); sim::Quiet q; o.t(s); for (auto &z : sym::detail::unwrap(b)) o.d(z); }
  else if (k == "float") { double e = 0; auto f = expand(in.pf + in.pf); auto g = expand(in.pf * in.pf); std::string s = repr(in.pf); float v = sub(in.pf, x = in.fv[1]); sim::Quiet q; o.t(s); o.d(v); o.poly(g, 6); o.d(e); }
  else if (k == "bairstow") { auto f = LinBairstowSolve(in.p4, 1e-10); sim::Quiet q; o.poly(f, 2); }
  else if (k == "geom") {
    using namespace stator::geometry; using stator::Vector; typedef Vector<double, 3> V3; V3 c{in.v[1], in.v[2], in.v[3]}, lo{-in.v[4], -in.v[5], 0.0};
    double r[10]; int i = 0; Ball<double, 2> b2(in.v[0]); Ball<double, 3> b3(in.v[0], c); Ball<double, 4> b4(in.v[6]); Ball<double, 5> b5(in.v[7]); AABox<double, 3> box(c, lo); Point<double, 3> pt(c);
    r[i++] = volume(b2); r[i++] = area(b2); r[i++] = volume(b3); r[i++] = area(b3); r[i++] = volume(b4); r[i++] = area(b5); r[i++] = volume(box); r[i++] = area(box); r[i++] = volume(pt); r[i++] = b3.center()[1];
    sim::Quiet q; for (double z : r) o.d(z);
  }
  else if (k == "grid") { // two-dimensional arrays
    sym::Array<double, sym::RowMajorAddressing<-1u, 2>> g({2, 2}); for (size_t i = 0; i < 2; i++) for (size_t j = 0; j < 2; j++) g[i][j] = in.v[2 * i + j]; auto h = g + g; auto e = g / in.v[4]; std::string s = repr(g), t; bool eq = (h == g);
    auto &H = sym::detail::unwrap(h); auto &E = sym::detail::unwrap(e); const auto &cg = g; double z = cg[1][0]; sim::Quiet q; o.t(s); o.u(eq); o.d(z); for (auto &x2 : H) o.d(x2); for (auto &x2 : E) o.d(x2); (void)t;
  }
  else if (k == "edge") { // inputs at the borders of the numeric algorithms
    const double big = 1e200, inf = std::numeric_limits<double>::infinity(); double a = in.v[0], b = in.v[1], c = in.v[2];
    static const int rows = 24; int w = (n * 37 + m * 11 + (int)(a * 1000)) % rows; double t[rows][4] = {
      {0, a, b, 1}, {a, b, c, 0}, {a, 0, 0, 1}, {-a, 0, 0, c}, {a, b, big, 1}, {a, big, b, 1}, {a, -big, b, 1}, {big, a, b, 1}, {-big, a, b, 1}, {a, 1e160, 0, 1}, {a, -1e160, 0, 1}, {a, b, 1e100, 1},
      {a, 1e80, 0, 1}, {a, -1e80, 0, 1}, {a, 1e80, b, 1}, {-1, 3, -3, 1}, {1, 3, 3, 1}, {2, -3, 0, 1}, {-4, 8, -5, 1}, {a, -b, 0, 1}, {0, 0, 0, 1}, {0, 0, b, 1}, {a, 0, 0, 0}, {-6, 11, -6, 1}};
    sym::Polynomial<3, double, X> f{t[w][0], t[w][1], t[w][2], t[w][3]}; auto r = solve_real_roots(f);
    sym::Polynomial<2, double, X> q2{m == 0 ? 0.0 : a, n % 2 ? -2 * b : 2 * std::sqrt(a), n % 3 ? 1.0 : 0.0}; auto r2 = solve_real_roots(q2);
    double e1 = sub(in.p3, x = inf), e2 = sub(in.p4, x = -inf), e3 = sub(f, x = -inf), pr = precision(in.p3, inf); auto ei = eval_derivatives<1>(in.p2, 0.0);
    sym::Polynomial<0, double, X> zero{0.0}, two{2.0}; auto g0 = gcd(in.p2, zero), g2 = gcd(in.p2, two); auto ch = sturm_chain(in.p1); size_t sc = ch.roots(-10.0, 10.0);
    auto cz = sturm_chain(zero); auto gz = cz.get(0); auto up = change_order<6>(in.p2);
    auto d1 = derivative(sym::abs(x * x - x), x); double s1 = sub(d1, x = b); auto d2 = derivative(sym::arbsign(x), x); auto nn = ad<3>(y, x = a);
    std::string s = repr(d1), u = repr(d2), tx = stator::search_replace("", in.find, in.repl).first + stator::strip(" \t ") + stator::search_replace("aaa", "a", in.repl).first;
    auto un = sym::units(in.v[3], Var<ms>()) * 2.0; auto ud = sym::units(in.v[3], Var<ms>()) / sym::units(in.v[4], Var<kgs>()); std::string us = repr(un), uv = repr(ud), uc = repr(sym::uncertainty(a, b));
    sim::Quiet q; o.u(w); o.roots(r); o.roots(r2); o.d(e1); o.d(e2); o.d(e3); o.d(pr); o.d(ei[0]); o.d(ei[1]); o.poly(std::get<0>(g0), 2); o.poly(std::get<0>(g2), 2); o.u(sc); o.d(gz[0]); o.poly(up, 6); o.d(s1); for (int i = 0; i < 4; i++) o.d(nn[i]); o.t(s); o.t(u); o.t(tx); o.t(us); o.t(uv); o.t(uc);
  }
  else if (k == "multiple") { // repeated and close roots, bounded by Sturm chains
    sym::Polynomial<4, double, X> f; double a = std::floor(in.v[0] * 4) / 4, b = m ? a : a + std::ldexp(1.0, -(10 + 8 * n)), c = m == 2 ? a : -in.v[1], d = in.v[2], z[4] = {a, b, c, d}; double co[5] = {1}; for (int i = 0; i < 4; i++) { for (int j = i + 1; j > 0; j--) co[j] = co[j - 1] - z[i] * co[j]; co[0] *= -z[i]; } for (int i = 0; i < 5; i++) f[i] = co[i];
    auto r = solve_real_roots<PolyRootBounder::STURM>(f); sim::Quiet q; o.roots(r);
  }
  else o.s = "bad:unknown op";
}

// ------------------------------------------------------------------ C09
struct Bad { long id; };                                       // what the objective may throw: any object at all ...
struct BadStd : std::runtime_error { long id; BadStd(long i) : std::runtime_error("the objective gave up"), id(i) {} };
struct BadLib : stator::Exception { long id; BadLib(long i) : stator::Exception(1, "objective", "objective"), id(i) {} }; // ... or one of the library's own errors
struct Env { // the misbehaving outside world: the objective function
  int func; double c; long plan_n; const long *plan; double lo, hi, x0; uint64_t evals = 0, limit; uint64_t seed; int persist = -1; uint64_t persist_at = 0; double scale = 1;
  std::vector<std::pair<double, double>> log; bool isfloat = false; uint64_t free_evals = 4000; bool stopped = false;
  int method = 0, op = 0; bool nest = true; std::string inner; // a search made by the objective itself
};
struct Stop { };
void base_fn(const Env &e, double x, double *o) {
  switch (e.func) {
    case 0: o[0] = x * x * x - e.c; o[1] = 3 * x * x; o[2] = 6 * x; break;
    case 1: o[0] = std::exp(x) - e.c; o[1] = o[2] = std::exp(x); break;
    case 2: o[0] = (x - e.c) * (x - e.c); o[1] = 2 * (x - e.c); o[2] = 2; break;
    case 3: o[0] = std::atan(x - e.c); o[1] = 1 / (1 + (x - e.c) * (x - e.c)); o[2] = -2 * (x - e.c) * o[1] * o[1]; break;
    case 4: o[0] = x < e.c ? -1 : 1; o[1] = 0; o[2] = 0; break;
    case 5: o[0] = 1 / (x - e.c); o[1] = -1 / ((x - e.c) * (x - e.c)); o[2] = 2 / ((x - e.c) * (x - e.c) * (x - e.c)); break;
    case 6: o[0] = std::sqrt(x - e.c); o[1] = 0.5 / std::sqrt(x - e.c); o[2] = -0.25 / ((x - e.c) * std::sqrt(x - e.c)); break;
    case 7: o[0] = e.c; o[1] = 1e-3; o[2] = 0; break;
    default: o[0] = std::sin(x * 3) + 0.1 * e.c; o[1] = 3 * std::cos(x * 3); o[2] = -9 * std::sin(x * 3); break;
  }
}
bool mem_mode = false; // alloc faults have the first six counters there
void count_obj(int f) { sim::count_fault(!mem_mode ? f : f == 3 ? 7 : 6); }
std::string inner_search(const Env &outer, double *o);
void objective(Env &e, double x, double *o) {
  sim::Quiet q;
  uint64_t k = ++e.evals;
  if (!(x >= std::min(e.lo, e.hi) && x <= std::max(e.lo, e.hi)) && !(k == 1 && x == e.x0))
    sim::violation("outside-bounds", "evaluation " + to_string(k) + " of the objective at " + hexd(x) + ", outside the bounds [" + hexd(e.lo) + ", " + hexd(e.hi) + "]");
  if (k > e.limit) sim::violation("does-not-stop", "more than " + to_string(e.limit) + " evaluations of the objective, the last at " + hexd(x) + " in [" + hexd(e.lo) + ", " + hexd(e.hi) + "]");
  if (e.persist >= 0 && k > e.persist_at + 20000) sim::violation("does-not-stop", "the objective has returned only NaN or infinity for 20000 evaluations and is still evaluated, at " + hexd(x));
  if (e.persist < 0 && k > e.free_evals) { e.stopped = true; throw Stop(); }
  base_fn(e, x, o);
  Rng r(e.seed * 1000003 + k); double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
  if (e.persist >= 0) {
    count_obj(8 + (e.persist == 8 ? 0 : 1));
    if (e.persist == 8) { o[0] = nan; if (r.chance(0.5)) o[1] = o[2] = nan; }
    else { o[0] = r.chance(0.2) ? nan : r.chance(0.5) ? inf : -inf; if (r.chance(0.5)) o[1] = r.chance(0.5) ? inf : nan; }
  } else for (long i = 0; i + 1 < e.plan_n; i += 2) if (e.plan[i] == (long)k) {
    int f = e.plan[i + 1]; if (f == 12) { if (e.nest) { count_obj(12); e.inner += inner_search(e, o) + ' '; } continue; }
    count_obj(f < 8 ? f : f == 10 ? 10 : f == 11 ? 11 : 8 + (f != 8));
    switch (f) {
      case 0: o[0] = nan; break; case 1: o[0] = inf; break; case 2: o[0] = -inf; break;
      case 3: switch (r.below(3)) { case 0: throw Bad{(long)k}; case 1: throw BadStd((long)k); default: throw BadLib((long)k); }
      case 4: o[0] = (r.unit() - 0.5) * std::pow(10.0, r.range(-300, 300)); break;
      case 5: o[1] = o[2] = 0; break; case 6: o[1] = nan; break; case 7: o[0] = nan; o[1] = nan; o[2] = nan; break;
      case 10: o[2] = r.chance(0.5) ? inf : nan; break; case 11: o[0] = -o[0]; o[1] = -o[1]; break;
      default: e.persist = f; e.persist_at = k; o[0] = f == 8 ? nan : r.chance(0.5) ? inf : -inf; break;
    }
  }
  e.log.push_back({x, o[0]});
}
template <class R> bool search(Env &e, int method, R &x, size_t iters, int digits, bool dflt) {
  auto f3 = [&](R z) { double o[3]; objective(e, z, o); return std::array<R, 3>{{(R)o[0], (R)o[1], (R)o[2]}}; };
  auto f2 = [&](R z) { double o[3]; objective(e, z, o); return std::array<R, 2>{{(R)o[0], (R)o[1]}}; };
  auto f1 = [&](R z) { double o[3]; objective(e, z, o); return (R)o[0]; };
  R lo = e.lo, hi = e.hi;
  switch (method) {
    case 0: return dflt ? stator::numeric::newton_raphson(f2, x, lo, hi, iters) : stator::numeric::newton_raphson(f2, x, lo, hi, iters, digits);
    case 1: return dflt ? stator::numeric::halleys_method(f3, x, lo, hi, iters) : stator::numeric::halleys_method(f3, x, lo, hi, iters, digits);
    case 3: return dflt ? stator::numeric::newton_raphson(f3, x, lo, hi, iters) : stator::numeric::newton_raphson(f3, x, lo, hi, iters, digits);
    default: return dflt ? stator::numeric::bisection(f1, x, lo, hi, iters) : stator::numeric::bisection(f1, x, lo, hi, iters, digits);
  }
}
// the objective's own search, of the same or another kind, on a healthy function
std::string inner_search(const Env &outer, double *) {
  Env e; e.func = outer.isfloat ? 0 : (outer.func + 1) % 4; e.c = 2; e.lo = -3; e.hi = 8; e.x0 = 1.5; e.plan = nullptr; e.plan_n = 0; e.seed = 1; e.limit = ~0ull; e.nest = false; bool ok = false; double x = 1.5; float xf = 1.5f;
  { sim::Lib lib(outer.op + 500); ok = outer.isfloat ? search<float>(e, outer.method, xf, 40, 20, false) : search<double>(e, outer.method, x, 40, 40, false); }
  return std::string(ok ? "root " : "none ") + hexd(outer.isfloat ? xf : x) + " after " + to_string(e.evals);
}
// n: method func iters digits float default | faults...; s: c lo hi x0 as hex floats
template <class R> std::string search_op(const Op &o, bool faults, bool nest = true, std::string *inner = nullptr) {
  Env e; double c = 0, lo = 0, hi = 0, x0 = 0; sscanf(o.s.c_str(), "%la %la %la %la", &c, &lo, &hi, &x0);
  e.func = o.n[1]; e.c = c; e.lo = (R)lo; e.hi = (R)hi; e.x0 = (R)x0; e.plan = o.n.data() + 6; e.plan_n = faults ? (long)o.n.size() - 6 : 0; e.seed = o.id + 77; e.isfloat = sizeof(R) == 4; e.method = o.n[0]; e.op = o.id; e.nest = nest;
  size_t iters = o.n[2]; e.limit = iters ? 8 * iters + 16 : ~0ull; if (iters > 100000) e.limit = ~0ull;
  R x = (R)x0; int method = o.n[0]; bool ok = false; long thrown = -1; std::string other;
  std::string ex = guarded(o.id, [&] {
    try { ok = search<R>(e, method, x, iters, o.n[3], o.n[5]); }
    catch (const Bad &b) { thrown = b.id; }
    catch (const BadStd &b) { thrown = b.id; }
    catch (const BadLib &b) { thrown = b.id; }
    catch (const Stop &) {}
  });
  if (inner) *inner = e.inner;
  if (!ex.empty()) return "bad:an exception the objective did not throw came out: " + ex;
  // did the objective throw, and did the caller see exactly that?
  bool threw = false; for (long i = 0; i + 1 < e.plan_n; i += 2) if (e.plan[i + 1] == 3 && (uint64_t)e.plan[i] == e.evals && e.log.size() < e.evals && !e.stopped) threw = true;
  if (threw && thrown != (long)e.evals) return "bad:the objective threw in evaluation " + to_string(e.evals) + " but the caller did not get that exception";
  if (e.stopped && ok) return "bad:success after an exception";
  if (thrown >= 0) return "threw:" + to_string(thrown);
  if (e.stopped) return "environment stopped the search";
  if (ok) {
    if (!std::isfinite((double)x)) return "bad:success reported with the non-finite point " + hexd(x);
    if (!((double)x >= std::min(e.lo, e.hi) && (double)x <= std::max(e.lo, e.hi))) return "bad:success reported at " + hexd(x) + " outside [" + hexd(e.lo) + ", " + hexd(e.hi) + "]";
    bool at = false, good = false; for (auto &p : e.log) if (p.first == (double)x) { at = true; if (!std::isnan(p.second)) good = true; }
    if (!at) return "bad:success reported at " + hexd(x) + " where the objective was never evaluated";
    if (!good) return "bad:success reported at " + hexd(x) + " where the objective was NaN";
    sim::probe(0);
  } else sim::probe(1);
  return std::string(ok ? "root " : "none ") + hexd(ok ? (double)x : 0) + " after " + to_string(e.evals);
}

// ------------------------------------------------------------------ the checks
struct NumCheck : Check {
  string prop; explicit NumCheck(const string &p) : prop(p) {}
  const char *property() override { return prop.c_str(); }
  static void stats(int id, sim::OpStat a) { sim::OpStat b = sim::opstat(); char t[120]; snprintf(t, sizeof t, "%lu %lu %lu %lu %lu", a.ev, b.ev, a.st, b.st, last_allocs); emit(id, 's', t); }
  static NumCheck *me;
  struct Arg { const Plan *p; int t; };
  void step(const Op &o) {
    sim::OpStat s0 = sim::opstat(); string out;
    if (prop == "C09") {
      string in; out = o.n[4] ? search_op<float>(o, true, true, &in) : search_op<double>(o, true, true, &in);
      if (!in.empty() && out.compare(0, 4, "bad:")) { // searches made inside the objective change neither this search nor each other
        string flat = o.n[4] ? search_op<float>(o, true, false) : search_op<double>(o, true, false), again; Env e; e.isfloat = o.n[4]; e.func = o.n[1]; e.method = o.n[0]; e.op = o.id; again = inner_search(e, nullptr) + ' ';
        if (flat != out) out = "bad:with a search made by the objective the search gives <" + out + ">, without it <" + flat + ">";
        else for (size_t i = 0; i < in.size(); i += again.size()) if (in.compare(i, again.size(), again)) { out = "bad:a search made inside an objective gives <" + in.substr(i, again.size()) + ">, outside it <" + again + ">"; break; }
      }
      uint64_t al = last_allocs; (void)al;
      stats(o.id, s0); emit(o.id, 'o', out);
      out = o.n[4] ? search_op<float>(o, false) : search_op<double>(o, false); emit(o.id, 'h', out);   // the healthy call afterwards
      return;
    }
    Txt t; string ex = guarded(o.id, [&] { run_num(o, t); });
    stats(o.id, s0); emit(o.id, 'o', ex.empty() ? t.s : ex);
  }
  static void tmain(void *v) { auto *a = (Arg *)v; sim::Quiet q; for (auto &o : a->p->th[a->t - 1]) me->step(o); }
  void inputs(const Plan &p) { if (prop != "C02") return; long n = p.c("inputs", 1); ins = new In[n]; for (long i = 0; i < n; i++) fill_in(ins[i], p.c("iseed") * 131 + i); }
  void program(const Plan &p) override {
    me = this; sim::Quiet q; inputs(p);
    vector<Arg> a(p.th.size());
    if (p.th.size() == 1) { a[0] = {&p, 1}; for (auto &o : p.th[0]) step(o); }
    else { for (size_t i = 0; i < p.th.size(); i++) { a[i] = {&p, (int)i + 1}; sim::spawn(tmain, &a[i]); } sim::join_all(); }
    string l = sim::leaks(); if (!l.empty()) sim::violation("leak", l);
  }
  void alone(const Plan &p, int id) override { me = this; sim::Quiet q; inputs(p); for (auto &t : p.th) for (auto &o : t) if (o.id == id) { if (prop == "C09") { string s = o.n[4] ? search_op<float>(o, false) : search_op<double>(o, false); emit(id, 'h', s); } else step(o); } }
  void gen(Rng &r, Plan &p) override {
    if (prop == "C02") {
      p.cfg["iseed"] = r.below(1 << 20); p.cfg["inputs"] = r.range(1, 3); int nt = r.range(2, 4);
      static const char *ks[] = {"roots", "roots", "roots", "bounds", "arith", "repr", "ad", "taylor", "interval", "search", "sv", "matrix", "ct", "units", "num", "array", "float", "bairstow", "geom", "grid", "edge", "edge", "multiple"};
      bool same = r.chance(0.4); Op first;
      for (int t = 0; t < nt; t++) {
        p.th.emplace_back();
        for (int j = 0, n = r.range(1, 4); j < n; j++) {
          Op o; o.id = 1000 * (t + 1) + j; o.k = ks[r.below(sizeof ks / sizeof *ks)]; o.n = {r.range(1, 6), (long)r.below(3)}; if (o.k == "roots" && r.chance(0.5)) o.n[0] = r.range(1, 3);
          o.a = {(int)r.below(p.cfg["inputs"])};
          if (same && j == 0) { if (t == 0) first = o; else { int id = o.id; vector<int> a = o.a; o = first; o.id = id; if (r.chance(0.5)) o.a = a; } } // racing first calls
          p.th[t].push_back(o);
        }
      }
      p.sched.fill = r.chance(0.5) ? 0xA5 : 0xFF;
    } else {
      int nt = r.chance(0.8) ? 1 : 2;
      for (int t = 0; t < nt; t++) {
        p.th.emplace_back();
        for (int j = 0, n = r.range(2, 6); j < n; j++) {
          Op o; o.id = 1000 * (t + 1) + j; o.k = "search";
          long iters = r.chance(0.4) ? 0 : r.chance(0.5) ? r.range(1, 5) : r.range(6, 200);
          o.n = {(long)r.below(4), (long)r.below(9), iters, (long)(r.chance(0.7) ? r.range(2, 53) : r.range(-3, 60)), r.chance(0.2), r.chance(0.4)};
          double c, lo, hi, x0, inf = HUGE_VAL;
          c = r.chance(0.8) ? 0.1 + 5 * r.unit() : special(r);
          switch (r.below(9)) {
            case 0: lo = -inf; hi = inf; break;
            case 1: lo = 0; hi = 1e50; if (o.n[4]) hi = 1e30; break;
            case 2: lo = c - r.unit(); hi = c + r.unit(); break;
            case 3: lo = 1e308; hi = 1.7e308; if (o.n[4]) { lo = 2e38; hi = 3.3e38; } break;
            case 4: lo = -1; hi = inf; break;
            case 5: lo = 5e-324; hi = 1e-320; if (o.n[4]) { lo = 1e-45; hi = 1e-42; } break;
            case 6: lo = 2; hi = r.chance(0.5) ? 2 : 1; break;
            default: lo = -5 * r.unit(); hi = 7 * r.unit(); break;
          }
          if (o.n[0] == 2 && r.chance(0.6) && (std::isinf(lo) || std::isinf(hi))) { lo = -3; hi = 8; }
          double a = std::isinf(lo) ? -10 : lo, b = std::isinf(hi) ? 10 : hi; if (a > b) std::swap(a, b);
          x0 = r.chance(0.1) ? a : r.chance(0.1) ? b : a / 2 + b / 2 + (b / 2 - a / 2) * (2 * r.unit() - 1); if (r.chance(0.3) && a < 1 && b > 1) x0 = 1; x0 = std::max(a, std::min(b, x0));
          char buf[160]; snprintf(buf, sizeof buf, "%a %a %a %a", c, lo, hi, x0); o.s = buf;
          p.th[t].push_back(o);
        }
      }
    }
  }
  int variants(Rng &, const Plan &) override { return prop == "C02" ? 30 : 60; }
  void vary(Rng &r, Plan &p, const RunResult &base) override {
    BaseStats b(base);
    if (prop == "C02") { add_switches(r, p, b, 8); return; }
    for (auto &t : p.th) for (auto &o : t) {
      if (r.chance(0.15)) continue;
      for (int i = r.range(1, 3); i-- > 0;) { long k = r.chance(0.6) ? r.range(1, 8) : r.range(1, 60); o.n.push_back(k); o.n.push_back((long)r.below(14)); if (o.n.back() == 13) o.n.back() = 12; }
    }
    add_switches(r, p, b, 3);
  }
  Verdict judge(const Plan &p, const RunResult &r, std::function<const RunResult &(int)> ref) override {
    for (auto &x : r.recs) {
      if (x.type == 's') continue;
      if (x.text.compare(0, 4, "bad:") == 0) return Verdict{"wrong-result", "op " + to_string(x.id) + ": " + x.text};
      if (prop == "C09" && x.type != 'h') continue;
      const RunResult &f = ref(x.id); if (!f.kind.empty()) return Verdict{"reference-" + f.kind, "op " + to_string(x.id) + " alone: " + f.msg};
      const Rec *q = f.find(x.id, x.type); if (!q) return Verdict{"harness", "no reference for op " + to_string(x.id)};
      if (q->text != x.text) return Verdict{"outcome-differs", "op " + to_string(x.id) + ": got <" + x.text + "> but alone it gives <" + q->text + ">"};
    }
    return Verdict{};
  }
  Verdict in_run(const Plan &, const RunResult &r, std::function<const RunResult &(int)> ref) override {
    // an operation that already fails this way alone, without other threads, says nothing about concurrency
    if (prop == "C02" && (r.kind == "stack-overflow" || r.kind == "hang")) { auto k = r.msg.find("in op "); if (k != string::npos) { int id = atoi(r.msg.c_str() + k + 6); if (id > 0 && ref(id).kind == r.kind) return Verdict{}; } }
    return Verdict{r.kind, r.msg};
  }
  vector<const char *> fault_names() override {
    if (prop == "C02") { vector<const char *> v = Check::fault_names(); v.clear(); return v; }
    return {"value-nan", "value-plus-inf", "value-minus-inf", "throws", "value-jump", "zero-derivative", "derivative-nan", "all-nan", "nan-from-now-on", "infinite-from-now-on", "second-derivative-bad", "sign-flip", "search-inside-objective"};
  }
  vector<const char *> probe_names() override { vector<const char *> v(16, nullptr); if (prop == "C09") { v[0] = "successes"; v[1] = "failures-reported"; } v[15] = "waits-on-static-initialisation"; return v; }
  const char *rule() override { return prop == "C02" ? "runs with a pre-emption inside a library call, distinct by the global sequence of shared accesses and switches and the recorded outcomes" : "runs in which at least one objective evaluation misbehaved, distinct by access trace and step count"; }
};
NumCheck *NumCheck::me;
} // namespace
Check *make_check(const string &p) { if (p == "C02" || p == "C09") return new NumCheck(p); if (p == "C04") { mem_mode = true; return new MemCheck(1, {new NumCheck("C02"), new NumCheck("C09")}, {"objective-misbehaves", "objective-throws"}); } return nullptr; }
