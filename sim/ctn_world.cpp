// Container world (C05): histories of container operations in which element operations throw and allocations fail at
// seeded points, checked after every operation against a small executable model.
#include <stator/symbolic/symbolic.hpp>
#include <stator/symbolic/runtime.hpp>
#include <stator/symbolic/parser.hpp>
#include <stator/symbolic/polynomial.hpp>
#include <stator/orphan/stack_vector.hpp>
#include "guard.h"
#include "plangen.h"
#include "memcheck.h"
#include <algorithm>
#include <unordered_map>
using xw::guarded; using xw::last_fired; using xw::last_allocs;

namespace cw {
// ---- an element whose every special operation may throw, and which owns memory
struct ElemFail { long id; };
long steps; const long *plan; size_t plan_n; bool elem_fired; long fired_at; int nth_fault;
enum { F_CTOR, F_COPY, F_ASSIGN, F_COMPARE, F_ARITH };
void step(int kind) {
  sim::Quiet q;
  ++steps;
  for (size_t i = 0; i < plan_n; i++) if (plan[i] == steps) { sim::count_fault(6 + kind); elem_fired = true; fired_at = steps; throw ElemFail{steps}; }
}
struct Elem {
  int *p;
  Elem() { step(F_CTOR); p = new int(0); }
  explicit Elem(int v) { step(F_CTOR); p = new int(v); }
  Elem(const Elem &o) { step(F_COPY); p = new int(*o.p); }
  Elem &operator=(const Elem &o) { step(F_ASSIGN); int *n = new int(*o.p); delete p; p = n; return *this; }
  ~Elem() { delete p; p = nullptr; }
  bool operator==(const Elem &o) const { step(F_COMPARE); return *p == *o.p; }
  bool operator!=(const Elem &o) const { return !(*this == o); }
  Elem operator+(const Elem &o) const { step(F_ARITH); return Elem(*p + *o.p); }
  Elem operator-(const Elem &o) const { step(F_ARITH); return Elem(*p - *o.p); }
  Elem operator*(const Elem &o) const { step(F_ARITH); return Elem(*p * *o.p); }
  Elem operator-() const { step(F_ARITH); return Elem(-*p); }
  Elem &operator+=(const Elem &o) { step(F_ARITH); *this = *this + o; return *this; }
};
inline Elem empty_sum(const Elem &) { return Elem(0); }
} // namespace cw
namespace std { template <> struct hash<cw::Elem> { size_t operator()(const cw::Elem &e) const noexcept { return (size_t)*e.p % 5; } }; } // collides on purpose

namespace cw {
using sym::Expr; using std::vector; using std::string; using std::to_string;
constexpr char xs[] = "x"; typedef sym::Var<xs> X;

template <class T> struct Val;
template <> struct Val<Elem> { static Elem make(int v) { return Elem(v); } static int get(const Elem &e) { return *e.p; } };
template <> struct Val<Expr> { static Expr make(int v) { return Expr((double)v); } static int get(const Expr &e) { return e ? (int)e.as<double>() : 0; } };

// ---- model state
struct St {
  vector<size_t> dims; vector<long> vals; string bad; // vals: iteration order (dictionaries: sorted key*1000+value)
  bool operator==(const St &o) const { return dims == o.dims && vals == o.vals; }
  string text() const { string s = "dims("; for (auto d : dims) s += to_string(d) + " "; s += ") values("; for (auto v : vals) s += to_string(v) + " "; return s + ")"; }
};
enum Guarantee { NO_CHANGE, WEAK, KEEPS_ALL };
struct Expect { St after; bool must_throw = false; Guarantee g = WEAK; vector<long> stored; long result = 0; bool has_result = false; };

struct Box {
  virtual ~Box() {}
  virtual const char *name() = 0;
  virtual int kind() = 0;
  virtual St state() = 0;                                               // harness: reads everything observable
  virtual bool expect(const Op &o, const St &me, const St *other, Expect &e) = 0; // false: operation not applicable now
  virtual void prepare(const Op &o) = 0;                                // arguments, made without faults
  virtual void run(const Op &o, Box *other, long &result) = 0;          // the operation
};

inline vector<long> ever{0}; // every value any container of this run ever held: containers with fixed capacity copy the slots beyond their size too
static size_t prod(const vector<size_t> &d) { size_t s = d.size() > 0; for (auto x : d) s *= x; return s; }

// what: 0 push 1 resize 2 set 3 assign 4 copy 5 add 6 addscalar 7 eq 8 init 9 move
template <class T, class A, bool FIXED, int RANK /* -1 any, 0: linear */, bool PUSH> struct ArrBox : Box {
  A own; T arg, arg2; string nm; int kd; size_t cap;
  ArrBox(const char *n, int k, size_t c) : own(), arg(Val<T>::make(1)), arg2(Val<T>::make(2)), nm(n), kd(k), cap(c) {}
  A &a() { return own; }
  const char *name() override { return nm.c_str(); }
  int kind() override { return kd; }
  St state() override {
    St s; auto d = a().getDimensions();
    if constexpr (RANK == 0) s.dims = {(size_t)d}; else s.dims.assign(d.begin(), d.end());
    size_t n = a().size(), it = (size_t)std::distance(a().begin(), a().end());
    if (prod(s.dims) != n) { s.bad = "size() is " + to_string(n) + " but the dimensions hold " + to_string(prod(s.dims)); return s; }
    if (FIXED ? n > it : n != it) { s.bad = "size() is " + to_string(n) + " but " + to_string(it) + " elements can be iterated"; return s; }
    if (a().empty() != (n == 0)) { s.bad = "empty() disagrees with size()"; return s; }
    auto i = a().begin(); for (size_t k = 0; k < n; k++, ++i) s.vals.push_back(Val<T>::get(*i));
    return s;
  }
  vector<size_t> newdims(const Op &o) {
    if (RANK == 0) return {(size_t)o.n[1]};
    if (RANK > 0) { vector<size_t> d; for (int i = 0; i < RANK; i++) d.push_back(o.n[1 + i]); return d; }
    vector<size_t> d; for (int i = 0; i < 1 + (int)(o.n[3] % 3); i++) d.push_back(o.n[1 + i % 2]); return d;
  }
  bool expect(const Op &o, const St &me, const St *other, Expect &e) override {
    e.after = me;
    switch (o.n[0]) {
      case 0:
        if constexpr (!PUSH) return false;
        e.g = NO_CHANGE; e.stored = {o.n[1]};
        if (me.dims.size() > 1 || (FIXED && me.vals.size() + 1 > cap)) { e.must_throw = true; return true; }
        e.after.dims = {me.vals.size() + 1}; e.after.vals.push_back(o.n[1]); return true;
      case 1: {
        e.g = NO_CHANGE; auto d = newdims(o); if (FIXED && prod(d) > cap) { e.must_throw = true; return true; }
        if (FIXED && prod(d) > me.vals.size()) return false; // slots beyond the size hold unspecified values
        e.after.dims = d; e.after.vals.resize(prod(d), 0); return true; }
      case 2: if (me.vals.empty()) return false; e.stored = {o.n[1]}; e.after.vals[o.n[2] % me.vals.size()] = o.n[1]; return true;
      case 3: if (!other) return false; e.after = *other; e.stored = FIXED ? ever : other->vals; return true;
      case 4: e.g = NO_CHANGE; e.has_result = true; e.result = 1; return true;
      case 5: if (!other || me.vals.empty()) return false; e.g = NO_CHANGE; e.has_result = true; e.must_throw = other->dims != me.dims; for (size_t i = 0; !e.must_throw && i < me.vals.size(); i++) e.result = e.result * 31 + me.vals[i] + other->vals[i]; return true;
      case 6: if (me.vals.empty()) return false; e.g = NO_CHANGE; e.has_result = true; for (auto v : me.vals) e.result = e.result * 31 + v + o.n[1]; return true;
      case 7: if (!other || FIXED) return false; e.g = NO_CHANGE; e.has_result = true; e.result = *other == me; return true;
      case 8: if constexpr (RANK == 0 && !FIXED) { e.after.dims = {2}; e.after.vals = {o.n[1], o.n[2]}; e.stored = e.after.vals; return true; } return false;
      case 9: e.g = NO_CHANGE; return !FIXED;
      case 10: // an element of the array itself is appended
        if constexpr (!PUSH) return false;
        if (me.vals.empty()) return false;
        e.g = NO_CHANGE; e.stored = me.vals;
        if (me.dims.size() > 1 || (FIXED && me.vals.size() + 1 > cap)) { e.must_throw = true; return true; }
        e.after.dims = {me.vals.size() + 1}; e.after.vals.push_back(me.vals[o.n[2] % me.vals.size()]); return true;
      case 11: e.stored = FIXED ? ever : me.vals; return true; // assigned to itself
      case 12: if (!other || me.vals.empty()) return false; e.g = NO_CHANGE; e.has_result = true; e.must_throw = other->dims != me.dims; for (size_t i = 0; !e.must_throw && i < me.vals.size(); i++) e.result = e.result * 31 + me.vals[i] - other->vals[i]; return true;
      case 13: case 14: { // an element reached by its coordinates, possibly too few of them
        if (me.vals.empty()) return false; size_t k = o.n[2] % me.vals.size(); e.stored = {o.n[1]};
        if (o.n[0] == 14 && RANK == -1 && me.dims.size() > 1 && o.n[3] == 2) { e.g = NO_CHANGE; e.must_throw = true; return true; }
        e.after.vals[k] = o.n[1]; return true; }
      case 15: { // built with its elements
        if (FIXED) return false; auto d = newdims(o); if (prod(d) > 4) return false; e.after.dims = d; e.after.vals.clear(); for (size_t i = 0; i < prod(d); i++) e.after.vals.push_back(o.n[1 + i % 2]); e.stored = e.after.vals; return true; }
      case 17: { if (me.vals.empty()) return false; e.g = NO_CHANGE; e.has_result = true; auto d = newdims(o); e.result = me.vals.size(); if (FIXED && prod(d) > cap) return false; return true; } // a copy is resized: the original keeps its elements
    }
    return false;
  }
  static typename A::Coords coords(const vector<size_t> &d) { if constexpr (RANK == 0) return d[0]; else { typename A::Coords c{}; if constexpr (RANK < 0) c.resize(d.size()); std::copy(d.begin(), d.end(), c.begin()); return c; } }
  vector<size_t> at(size_t k) { auto d = a().getDimensions(); if constexpr (RANK == 0) return {k}; else { vector<size_t> c(d.size()); for (size_t i = d.size(); i-- > 0;) { c[i] = k % d[i]; k /= d[i]; } return c; } }
  vector<size_t> where, nd; bool partial = false;
  void prepare(const Op &o) override { if (a().size()) where = at(o.n[2] % a().size()); nd = newdims(o); partial = o.n[3] == 2; arg = Val<T>::make(o.n[1]); arg2 = Val<T>::make(o.n[2]); }
  template <class B> static long digest(const B &b, size_t n) { long r = 0; auto i = b.begin(); for (size_t k = 0; k < n; k++, ++i) { const auto &x = *i; if constexpr (std::is_same<std::decay_t<decltype(x)>, Expr>::value) { Expr s = sym::simplify(x); r = r * 31 + Val<Expr>::get(s); } else r = r * 31 + Val<T>::get(x); } return r; }
  void run(const Op &o, Box *ob, long &result) override {
    auto *other = ob ? &static_cast<ArrBox *>(ob)->a() : nullptr;
    switch (o.n[0]) {
      case 0: if constexpr (PUSH) a().push_back(arg); break;
      case 1: { auto d = newdims(o); if constexpr (RANK == 0) a().resize(d[0]); else { typename A::Coords c{}; if constexpr (RANK < 0) c.resize(d.size()); std::copy(d.begin(), d.end(), c.begin()); a().resize(c); } break; }
      case 2: { size_t k = o.n[2] % a().size(); auto it = a().begin(); std::advance(it, k); *it = arg; break; }
      case 3: a() = *other; break;
      case 4: { A b(a()); result = FIXED ? b.getDimensions() == a().getDimensions() : b == a(); break; }
      case 5: { auto r = a() + *other; result = digest(r, a().size()); break; }
      case 6: { auto r = a() + arg; result = digest(r, a().size()); break; }
      case 7: result = a() == *other; break;
      case 8: if constexpr (RANK == 0 && !FIXED) { a() = A(std::initializer_list<T>{arg, arg2}); } break;
      case 9: { A b(std::move(a())); a() = std::move(b); break; }
      case 10: if constexpr (PUSH) { auto it = a().begin(); std::advance(it, o.n[2] % a().size()); a().push_back(*it); } break;
      case 11: a() = const_cast<const A &>(a()); break;
      case 12: { auto r = a() - *other; result = digest(r, a().size()); break; }
      case 13: a()[coords(where)] = arg; break;
      case 14:
        if constexpr (RANK == 0) a()[where[0]] = arg;
        else if constexpr (RANK == 2) a()[where[0]][where[1]] = arg;
        else { size_t n = where.size(); auto acc = a()[where[0]]; if (n == 1) acc = arg; else if (partial) { acc = arg; } else if (n == 2) acc[where[1]] = arg; else { auto b = acc[where[1]]; b[where[2]] = arg; } }
        break;
      case 15: if constexpr (!FIXED) { auto c = coords(nd); switch (prod(nd)) { case 1: a() = A(c, {arg}); break; case 2: a() = A(c, {arg, arg2}); break; case 3: a() = A(c, {arg, arg2, arg}); break; case 4: a() = A(c, {arg, arg2, arg, arg2}); break; } } break;
      case 17: { A b(a()); b.resize(coords(nd)); result = a().size(); break; }
    }
  }
};
// run-time arrays live behind a shared pointer
struct RtArrBox : Box {
  decltype(sym::ArrayRT::create()) own; Expr arg;
  RtArrBox() : own(sym::ArrayRT::create()) {}
  const char *name() override { return "run-time array"; }
  int kind() override { return 5; }
  St state() override {
    St s; s.dims = {(size_t)own->getDimensions()}; size_t n = own->size(), it = (size_t)std::distance(own->begin(), own->end());
    if (prod(s.dims) != n || n != it) { s.bad = "size() is " + to_string(n) + ", dimension " + to_string(s.dims[0]) + ", but " + to_string(it) + " elements can be iterated"; return s; }
    for (auto &x : *own) s.vals.push_back(Val<Expr>::get(x)); return s;
  }
  bool expect(const Op &o, const St &me, const St *other, Expect &e) override {
    e.after = me;
    switch (o.n[0]) {
      case 0: e.g = NO_CHANGE; e.stored = {o.n[1]}; e.after.dims[0]++; e.after.vals.push_back(o.n[1]); return true;
      case 1: e.g = NO_CHANGE; e.after.dims[0] = o.n[1]; e.after.vals.resize(o.n[1], 0); return true;
      case 2: if (me.vals.empty()) return false; e.stored = {o.n[1]}; e.after.vals[o.n[2] % me.vals.size()] = o.n[1]; return true;
      case 4: for (auto v : me.vals) if (!v) return false; e.g = NO_CHANGE; return true; // 0: a null expression
      case 5: if (!other || me.vals.empty()) return false; for (auto v : me.vals) if (!v) return false; for (auto v : other->vals) if (!v) return false;
        e.g = NO_CHANGE; e.has_result = true; e.must_throw = other->dims != me.dims; for (size_t i = 0; !e.must_throw && i < me.vals.size(); i++) e.result = e.result * 31 + me.vals[i] + other->vals[i]; return true;
      case 7: if (!other) return false; for (auto v : me.vals) if (!v) return false; for (auto v : other->vals) if (!v) return false; e.g = NO_CHANGE; e.has_result = true; e.result = *other == me; return true;
      case 10: if (me.vals.empty()) return false; e.g = NO_CHANGE; e.after.dims[0]++; e.after.vals.push_back(me.vals[o.n[2] % me.vals.size()]); return true;
      case 12: if (!other || me.vals.empty()) return false; for (auto v : me.vals) if (!v) return false; for (auto v : other->vals) if (!v) return false;
        e.g = NO_CHANGE; e.has_result = true; e.must_throw = other->dims != me.dims; for (size_t i = 0; !e.must_throw && i < me.vals.size(); i++) e.result = e.result * 31 + me.vals[i] - other->vals[i]; return true;
      case 13: if (me.vals.empty()) return false; e.stored = {o.n[1]}; e.after.vals[o.n[2] % me.vals.size()] = o.n[1]; return true;
      case 14: for (auto v : me.vals) if (!v) return false; e.g = NO_CHANGE; e.has_result = true; e.result = me.vals.size(); return true;
    }
    return false;
  }
  void prepare(const Op &o) override { arg = Val<Expr>::make(o.n[1]); }
  void run(const Op &o, Box *ob, long &result) override {
    auto *other = ob ? static_cast<RtArrBox *>(ob)->own.get() : nullptr;
    switch (o.n[0]) {
      case 0: own->push_back(arg); break;
      case 1: own->resize(o.n[1]); break;
      case 2: { auto it = own->begin(); std::advance(it, o.n[2] % own->size()); *it = arg; break; }
      case 4: { Expr e(own); Expr f(e); Expr g = sym::simplify(f); break; }
      case 5: { auto r = *own + *other; for (auto &x : *r) { Expr s = sym::simplify(x); result = result * 31 + Val<Expr>::get(s); } break; }
      case 7: result = (*own == *other); break;
      case 10: own->push_back((*own)[o.n[2] % own->size()]); break;
      case 12: { auto r = *own - *other; for (auto &x : *r) { Expr s = sym::simplify(x); result = result * 31 + Val<Expr>::get(s); } break; }
      case 13: (*own)[o.n[2] % own->size()] = arg; break;
      case 14: { Expr e(own); Expr d = sym::derivative(e, *sym::VarRT::create("x")); string t = sym::repr(e); Expr f(t); result = f.as<sym::ArrayRT>().size(); break; }
    }
  }
};
// what: 0 push 1 pop 2 extend 3 assign 4 copy 5 init 6 set 7 widen
struct SvBox : Box {
  typedef stator::orphan::StackVector<Elem, 4> V; typedef stator::orphan::StackVector<Elem, 2> S;
  V v; S small; Elem arg, arg2;
  const char *name() override { return "stack vector"; }
  int kind() override { return 6; }
  St state() override {
    St s; size_t n = v.size(), it = (size_t)std::distance(v.begin(), v.end()); s.dims = {n};
    if (n != it || n > 4 || v.empty() != (n == 0)) { s.bad = "size() is " + to_string(n) + " but " + to_string(it) + " elements can be iterated"; return s; }
    for (auto &x : v) s.vals.push_back(*x.p); return s;
  }
  // assignment copies the slots beyond the size too, so a failed one may leave those values behind
  bool expect(const Op &o, const St &me, const St *other, Expect &e) override {
    e.after = me; size_t n = me.vals.size();
    switch (o.n[0]) {
      case 0: if (n >= 4) return false; e.stored = {o.n[1]}; e.after.vals.push_back(o.n[1]); e.after.dims[0]++; e.g = KEEPS_ALL; return true;
      case 1: if (!n) return false; e.has_result = true; e.result = me.vals.back(); e.after.vals.pop_back(); e.after.dims[0]--; return true;
      case 2: if (n > 2) return false; e.stored = {o.n[1], o.n[2]}; e.g = KEEPS_ALL; e.after.vals.push_back(o.n[1]); e.after.vals.push_back(o.n[2]); e.after.dims[0] += 2; return true;
      case 3: if (!other) return false; e.after = *other; e.stored = ever; return true;
      case 4: e.g = NO_CHANGE; e.has_result = true; for (auto x : me.vals) e.result = e.result * 31 + x; return true;
      case 5: e.stored = ever; e.after.vals = {o.n[1], o.n[2]}; e.after.dims[0] = 2; return true;
      case 6: if (!n) return false; e.stored = {o.n[1]}; e.after.vals[o.n[2] % n] = o.n[1]; return true;
      case 7: e.stored = ever; e.after.vals = {o.n[1], o.n[2]}; e.after.dims[0] = 2; return true;
      case 8: if (!n || n >= 4) return false; e.stored = {me.vals[o.n[2] % n]}; e.after.vals.push_back(me.vals[o.n[2] % n]); e.after.dims[0]++; e.g = KEEPS_ALL; return true;
      case 9: if (!n || n > 2) return false; e.stored = me.vals; for (size_t i = 0; i < n; i++) e.after.vals.push_back(me.vals[i]); e.after.dims[0] = 2 * n; e.g = KEEPS_ALL; return true;
      case 10: e.stored = ever; return true;
      case 11: e.g = NO_CHANGE; e.has_result = true; for (size_t i = n; i-- > 0;) e.result = e.result * 31 + me.vals[i]; if (n) e.result = e.result * 31 + me.vals.back(); return true;
    }
    return false;
  }
  void prepare(const Op &o) override { arg = Elem(o.n[1]); arg2 = Elem(o.n[2]); small = S(); small.push_back(arg); small.push_back(arg2); }
  void run(const Op &o, Box *ob, long &result) override {
    switch (o.n[0]) {
      case 0: v.push_back(arg); break;
      case 1: { Elem e = v.pop_back(); result = *e.p; break; }
      case 2: v.extend(small); break;
      case 3: v = static_cast<SvBox *>(ob)->v; break;
      case 4: { V b(v); for (auto &x : b) result = result * 31 + *x.p; break; }
      case 5: v = V{arg, arg2}; break;
      case 6: v[o.n[2] % v.size()] = arg; break;
      case 7: v = V(small); break;
      case 8: v.push_back(v[o.n[2] % v.size()]); break;
      case 9: { V twin(v); v.extend(twin); break; }
      case 10: v = const_cast<const V &>(v); break;
      case 11: for (auto i = v.rbegin(); i != v.rend(); ++i) result = result * 31 + *i->p; if (!v.empty()) result = result * 31 + *v.back().p; break;
    }
  }
};
// what: 0 insert 1 index-assign 2 at 3 assign 4 copy 5 find 6 eq
template <class D, class T, class K> struct DictBox : Box {
  D d; K key; T val; string nm; int kd;
  DictBox(D &&x, const char *n, int k) : d(std::move(x)), key(mk(1)), val(Val<T>::make(1)), nm(n), kd(k) {}
  auto &m() { if constexpr (std::is_same<K, Expr>::value) return *d; else return d; }
  static K mk(int v) { if constexpr (std::is_same<K, Expr>::value) return Expr(sym::VarRT::create("k" + to_string(v))); else return K(v); }
  static long kv(const K &k) { if constexpr (std::is_same<K, Expr>::value) return atoi(k.template as<sym::VarRT>().getName().c_str() + 1); else return *k.p; }
  const char *name() override { return nm.c_str(); }
  int kind() override { return kd; }
  St state() override {
    St s; size_t n = m().size(), it = 0; for (auto &x : m()) { s.vals.push_back(kv(x.first) * 1000 + Val<T>::get(x.second)); it++; }
    s.dims = {n}; std::sort(s.vals.begin(), s.vals.end());
    if (n != it || m().empty() != (n == 0)) s.bad = "size() is " + to_string(n) + " but " + to_string(it) + " items can be iterated";
    for (size_t i = 1; i < s.vals.size(); i++) if (s.vals[i] / 1000 == s.vals[i - 1] / 1000) s.bad = "key " + to_string(s.vals[i] / 1000) + " occurs twice";
    return s;
  }
  static void put(St &s, long k, long v, bool over) { for (auto &x : s.vals) if (x / 1000 == k) { if (over) x = k * 1000 + v; return; } s.vals.push_back(k * 1000 + v); s.dims[0]++; std::sort(s.vals.begin(), s.vals.end()); }
  bool expect(const Op &o, const St &me, const St *other, Expect &e) override {
    e.after = me; long k = o.n[2] % 7 + 1, v = o.n[1]; bool has = false; long was = 0; for (auto x : me.vals) if (x / 1000 == k) { has = true; was = x % 1000; }
    switch (o.n[0]) {
      case 0: e.stored = {k * 1000 + v}; e.g = KEEPS_ALL; e.has_result = true; e.result = !has; put(e.after, k, v, false); return true;
      case 1: e.stored = {k * 1000 + v, k * 1000}; e.g = KEEPS_ALL; put(e.after, k, v, true); return true;
      case 2: e.g = NO_CHANGE; e.must_throw = !has; e.has_result = true; e.result = was; return true;
      case 3: if (!other || std::is_same<K, Expr>::value) return false; e.after = *other; e.stored = other->vals; return true;
      case 4: e.g = NO_CHANGE; e.has_result = true; e.result = me.dims[0]; return true;
      case 5: e.g = NO_CHANGE; e.has_result = true; e.result = has ? was : -1; return true;
      case 6: if (!other) return false; e.g = NO_CHANGE; e.has_result = true; e.result = *other == me; return true;
      case 7: e.stored = {k * 1000 + v}; e.g = KEEPS_ALL; e.has_result = true; e.result = !has; put(e.after, k, v, false); return true; // inserted by copy
      case 8: { if (me.vals.empty()) return false; size_t i = o.n[3] % me.vals.size(); e.stored = {k * 1000 + me.vals[i] % 1000, k * 1000}; e.g = KEEPS_ALL; put(e.after, k, me.vals[i] % 1000, true); return true; } // a value of the dictionary itself
      case 9: e.g = WEAK; e.stored = me.vals; return !std::is_same<K, Expr>::value; // assigned to itself
      case 10: if (std::is_same<K, Expr>::value) return false; e.after.vals = {k * 1000 + v}; e.after.dims = {1}; e.stored = e.after.vals; return true;
      case 11: if (me.vals.empty()) return false; { size_t i = o.n[3] % me.vals.size(); e.stored = {me.vals[i] / 1000 * 1000 + v}; e.after.vals[i] = e.stored[0]; return true; } // through an iterator
      case 13: e.g = NO_CHANGE; e.has_result = true; { long sum = 0; for (auto x : me.vals) sum += x; e.result = sum; } return true;
    }
    return false;
  }
  std::unique_ptr<std::pair<const K, T>> item; long from = 0;
  void prepare(const Op &o) override { key = mk(o.n[2] % 7 + 1); val = Val<T>::make(o.n[1]); item.reset(new std::pair<const K, T>(key, val)); if (m().size()) { St s = state(); from = s.vals[o.n[3] % s.vals.size()] / 1000; } }
  void run(const Op &o, Box *ob, long &result) override {
    auto *other = ob ? &static_cast<DictBox *>(ob)->m() : nullptr;
    switch (o.n[0]) {
      case 0: result = m().insert({key, val}).second; break;
      case 1: m()[key] = val; break;
      case 2: result = Val<T>::get(m().at(key)); break;
      case 3: if constexpr (!std::is_same<K, Expr>::value) m() = *other; break;
      case 4: if constexpr (!std::is_same<K, Expr>::value) { D b(d); result = b.size(); } else { Expr e(d); Expr s = sym::simplify(e); result = s.template as<sym::DictRT>().size(); } break;
      case 5: { auto it = m().find(key); result = it == m().end() ? -1 : Val<T>::get(it->second); break; }
      case 6: result = (m() == *other); break;
      case 7: { const auto &ci = *item; result = m().insert(ci).second; break; }
      case 8: for (auto &x : m()) if (kv(x.first) == from) { T t(x.second); m()[key] = t; break; } break;
      case 9: if constexpr (!std::is_same<K, Expr>::value) m() = const_cast<const D &>(m()); break;
      case 10: if constexpr (!std::is_same<K, Expr>::value) m() = D{*item}; break;
      case 11: for (auto &x : m()) if (kv(x.first) == from) { x.second = val; break; } break;
      case 13: { const auto &cm = m(); for (auto i = cm.cbegin(); i != cm.cend(); ++i) { auto j = cm.find(i->first); result += kv(j->first) * 1000 + Val<T>::get(cm.at(i->first)); } break; }
    }
  }
};
// what: 0 set 1 assign 2 copy 3 init 4 range 5 eq 6 add 7 negate
struct PolyBox : Box {
  typedef sym::Polynomial<3, Elem, X> P; P p; Elem arg, arg2;
  const char *name() override { return "polynomial"; }
  int kind() override { return 9; }
  St state() override { St s; s.dims = {p.size()}; for (auto &x : p) s.vals.push_back(*x.p); return s; }
  bool expect(const Op &o, const St &me, const St *other, Expect &e) override {
    e.after = me;
    switch (o.n[0]) {
      case 0: e.stored = {o.n[1]}; e.after.vals[o.n[2] % 4] = o.n[1]; return true;
      case 1: if (!other) return false; e.after = *other; e.stored = other->vals; return true;
      case 2: e.g = NO_CHANGE; e.has_result = true; for (auto x : me.vals) e.result = e.result * 31 + x; return true;
      case 3: e.stored = {o.n[1], o.n[2], 0}; e.after.vals = {o.n[1], o.n[2], 0, 0}; return true;
      case 4: e.g = NO_CHANGE; e.must_throw = true; return true;
      case 5: if (!other) return false; e.g = NO_CHANGE; e.has_result = true; e.result = *other == me; return true;
      case 6: if (!other) return false; e.g = NO_CHANGE; e.has_result = true; for (size_t i = 0; i < 4; i++) e.result = e.result * 31 + me.vals[i] + other->vals[i]; return true;
      case 7: e.g = NO_CHANGE; e.has_result = true; for (size_t i = 0; i < 4; i++) e.result = e.result * 31 - me.vals[i]; return true;
      case 8: e.stored = me.vals; e.after.vals[o.n[2] % 4] = me.vals[o.n[3] % 4]; return true;
      case 9: e.stored = me.vals; return true;
      case 10: if (!other) return false; e.g = NO_CHANGE; e.has_result = true; for (size_t i = 0; i < 4; i++) e.result = e.result * 31 + me.vals[i] - other->vals[i]; return true;
      case 11: if (!other) return false; e.g = NO_CHANGE; e.has_result = true; { long c[7] = {}; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) c[i + j] += me.vals[i] * other->vals[j]; for (auto x : c) e.result = e.result * 31 + x; } return true;
    }
    return false;
  }
  void prepare(const Op &o) override { arg = Elem(o.n[1]); arg2 = Elem(o.n[2]); }
  void run(const Op &o, Box *ob, long &result) override {
    auto *other = ob ? &static_cast<PolyBox *>(ob)->p : nullptr;
    switch (o.n[0]) {
      case 0: p[o.n[2] % 4] = arg; break;
      case 1: p = *other; break;
      case 2: { P b(p); for (auto &x : b) result = result * 31 + *x.p; break; }
      case 3: p = P{arg, arg2}; break;
      case 4: { vector<Elem> five(5, arg); P b(five.begin(), five.end()); break; }
      case 5: result = (p == *other); break;
      case 6: { auto r = sym::expand(p + *other); for (size_t i = 0; i < 4; i++) result = result * 31 + *r[i].p; break; }
      case 7: { auto r = -p; for (size_t i = 0; i < 4; i++) result = result * 31 + *r[i].p; break; }
      case 8: p[o.n[2] % 4] = p[o.n[3] % 4]; break;
      case 9: p = const_cast<const P &>(p); break;
      case 10: { auto r = sym::expand(p - *other); for (size_t i = 0; i < 4; i++) result = result * 31 + *r[i].p; break; }
      case 11: { auto r = sym::expand(p * *other); for (size_t i = 0; i < 7; i++) result = result * 31 + *r[i].p; break; }
    }
  }
};
Box *make_box(int kind) {
  using namespace sym;
  switch (kind) {
    case 0: return new ArrBox<Elem, Array<Elem, LinearAddressing<-1u>>, false, 0, true>("linear array", 0, 0);
    case 1: return new ArrBox<Elem, Array<Elem, LinearAddressing<5>>, true, 0, true>("fixed linear array", 1, 5);
    case 2: return new ArrBox<Elem, Array<Elem>, false, -1, true>("row-major array", 2, 0);
    case 3: return new ArrBox<Elem, Array<Elem, RowMajorAddressing<-1u, 2>>, false, 2, false>("two-dimensional array", 3, 0);
    case 4: return new ArrBox<Elem, Array<Elem, RowMajorAddressing<6, -1u>>, true, -1, true>("fixed row-major array", 4, 6);
    case 5: return new RtArrBox;
    case 6: return new SvBox;
    case 7: return new DictBox<Dict<Elem, Elem>, Elem, Elem>(Dict<Elem, Elem>(), "dictionary", 7);
    case 8: return new DictBox<decltype(DictRT::create()), Expr, Expr>(DictRT::create(), "run-time dictionary", 8);
    default: return new PolyBox;
  }
}
constexpr int KINDS = 10;
} // namespace cw

namespace {
using namespace cw;
struct CtnCheck : Check {
  const char *property() override { return "C05"; }
  map<int, Box *> boxes;
  struct NoPlan { NoPlan() { plan_n = 0; steps = 0; } };
  St look(Box *b) { plan_n = 0; St s; string ex = guarded(-7, [&] { s = b->state(); }); if (!ex.empty()) s.bad = "reading the container failed: " + ex; return s; }
  // returns "" or what is wrong
  string attempt(Box *b, Box *other, const Op &o, bool faults, bool &failed) {
    St before = look(b), osave; if (other) osave = look(other);
    if (!before.bad.empty()) return string("before: ") + before.bad;
    for (auto x : before.vals) ever.push_back(x); ever.push_back(o.n[1]); ever.push_back(o.n[2]);
    Expect e; failed = false;
    if (!b->expect(o, before, other ? &osave : nullptr, e)) return "";
    { plan_n = 0; string ex = guarded(-8, [&] { b->prepare(o); }); if (!ex.empty()) return "preparing the arguments failed: " + ex; }
    long result = 0, caught = 0; steps = 0; elem_fired = false; fired_at = 0; nth_fault = 0;
    plan = o.n.data() + 4; plan_n = faults && o.n.size() > 4 ? o.n.size() - 4 : 0;
    string ex = guarded(faults ? o.id : -9, [&] { try { b->run(o, other, result); } catch (const ElemFail &f) { sim::Quiet q; caught = f.id; } });
    bool alloc_fired = last_fired; long nsteps = steps; plan_n = 0;
    if (faults) { emit(o.id, 'e', to_string(nsteps)); }
    failed = caught || !ex.empty();
    St now = look(b);
    string what = string(b->name()) + " operation " + to_string(o.n[0]) + ": ";
    if (!now.bad.empty()) return what + (failed ? "after a failed operation " : "") + now.bad + "; before it held " + before.text();
    if (other) { St on = look(other); if (!(on == osave)) return what + "the other operand changed from " + osave.text() + " to " + on.text(); }
    if (!failed) {
      if (elem_fired) return what + "an element operation threw but the caller saw no exception";
      if (e.must_throw) return what + "should have been refused with an exception";
      if (!(now == e.after)) return what + "gave " + now.text() + " instead of " + e.after.text();
      if (e.has_result && result != e.result) return what + "returned " + to_string(result) + " instead of " + to_string(e.result);
      return "";
    }
    if (elem_fired && !alloc_fired && caught != fired_at) return what + "the element's exception did not reach the caller (" + ex + ")";
    if (!elem_fired && !alloc_fired && !e.must_throw) return what + "failed for no reason: " + ex;
    if (!elem_fired && alloc_fired && !e.must_throw && ex != "oom") return what + "a failed allocation was reported as " + ex;
    if (e.g == NO_CHANGE || (!elem_fired && !alloc_fired)) { if (!(now == before)) return what + "failed and left " + now.text() + " instead of " + before.text(); return ""; }
    vector<long> pool = before.vals; pool.insert(pool.end(), e.stored.begin(), e.stored.end());
    for (auto v : now.vals) if (std::find(pool.begin(), pool.end(), v) == pool.end()) return what + "failed and left the value " + to_string(v) + ", which it neither held nor was given: " + now.text() + ", before " + before.text();
    if (e.g == KEEPS_ALL) for (auto v : before.vals) if (std::find(now.vals.begin(), now.vals.end(), v) == now.vals.end() && !(b->kind() >= 7 && b->kind() <= 8 && (o.n[0] == 1 || o.n[0] == 8) && v / 1000 == o.n[2] % 7 + 1)) return what + "failed and lost the value " + to_string(v) + ": " + now.text() + ", before " + before.text();
    return "";
  }
  void program(const Plan &p) override {
    sim::Quiet q; boxes.clear(); ever.assign(1, 0);
    for (auto &o : p.setup) { plan_n = 0; string ex = guarded(-5, [&] { boxes[o.id] = make_box(o.n[0]); }); if (!ex.empty()) sim::violation("harness", ex); }
    if (!p.th.empty()) for (auto &o : p.th[0]) {
      Box *b = boxes.count(o.a[0]) ? boxes[o.a[0]] : nullptr; Box *other = o.a.size() > 1 && boxes.count(o.a[1]) ? boxes[o.a[1]] : nullptr;
      if (!b) continue; if (other && (other == b || other->kind() != b->kind())) other = nullptr;
      bool failed = false; sim::OpStat s0 = sim::opstat(); last_allocs = 0;
      string bad = attempt(b, other, o, true, failed);
      uint64_t al = last_allocs; sim::OpStat s1 = sim::opstat(); char t[120]; snprintf(t, sizeof t, "%lu %lu %lu %lu %lu", s0.ev, s1.ev, s0.st, s1.st, op_allocs(o.id, al)); emit(o.id, 's', t);
      if (!bad.empty()) sim::violation("inconsistent", "op " + to_string(o.id) + ": " + bad);
      emit(o.id, 'o', (failed ? "failed " : "done ") + look(b).text());
      if (failed) { bool f2 = false; sim::probe(0); bad = attempt(b, other, o, false, f2); if (!bad.empty()) sim::violation("not-usable-afterwards", "op " + to_string(o.id) + " repeated without a fault: " + bad); }
    }
    for (auto &x : boxes) { plan_n = 0; guarded(-6, [&] { delete x.second; }); }
    boxes.clear();
    string l = sim::leaks(); if (!l.empty()) sim::violation("leak", l);
  }
  uint64_t op_allocs(int, uint64_t) { return allocs_seen; }
  uint64_t allocs_seen = 12;   // faults are aimed at the first few allocations of an operation
  void alone(const Plan &, int) override {}
  void gen(Rng &r, Plan &p) override {
    int nb = r.range(2, 4);
    for (int i = 0; i < nb; i++) { Op o; o.id = i + 1; o.k = "make"; o.n = {(long)(i > 0 && r.chance(0.6) ? p.setup[i - 1].n[0] : r.below(KINDS))}; p.setup.push_back(o); }
    p.th.emplace_back();
    int burst = r.chance(0.08) ? r.range(8, 36) : 0, bb = r.range(1, nb); // one container grown far beyond its first allocation
    for (int j = 0, n = r.range(4, 16) + burst; j < n; j++) {
      Op o; o.id = 1000 + j; o.k = "do"; int b = j < burst ? bb : r.range(1, nb); o.a = {b}; if (nb > 1) { int c = r.range(1, nb - 1); if (c >= b) c++; o.a.push_back(c); }
      long what = j < burst ? 0 : j < n / 3 && r.chance(0.7) ? (long)r.below(2) : (long)r.below(18);
      o.n = {what, (long)r.range(1, 5), (long)r.range(1, 4), (long)r.below(3)};
      if (what != 1) o.n[1] = r.range(1, 99); else if (r.chance(0.08)) o.n[1] = r.range(6, 40);
      p.th[0].push_back(o);
    }
    p.sched.reuse = r.below(4); p.sched.fill = r.chance(0.5) ? 0xA5 : 0xFF;
  }
  int variants(Rng &, const Plan &) override { return 40; }
  void vary(Rng &r, Plan &p, const RunResult &base) override {
    vector<std::pair<int, long>> c; for (auto &x : base.recs) if (x.type == 'e') c.push_back({x.id, atol(x.text.c_str())});
    if (c.empty()) return;
    for (int i = r.range(1, 3); i-- > 0;) {
      auto &t = c[r.below(c.size())];
      if (t.second && r.chance(0.65)) { for (auto &o : p.th[0]) if (o.id == t.first) o.n.push_back(1 + r.below(t.second)); }
      else { sim::AllocFault f; f.op = t.first; f.kind = r.chance(0.7) ? 0 : 1; f.nth = 1 + r.below(r.chance(0.6) ? 3 : 12); f.arg = 0; p.sched.af.push_back(f); }
    }
  }
  Verdict judge(const Plan &, const RunResult &, std::function<const RunResult &(int)>) override { return Verdict{}; }
  vector<const char *> fault_names() override { auto v = Check::fault_names(); for (auto n : {"element-construction-throws", "element-copy-throws", "element-assignment-throws", "element-comparison-throws", "element-arithmetic-throws"}) v.push_back(n); return v; }
  vector<const char *> probe_names() override { return {"failed-operations-repeated"}; }
  const char *rule() override { return "runs in which at least one element operation threw or allocation failed, distinct by access trace and the container states reached"; }
};
} // namespace
Check *make_check(const std::string &p) { if (p == "C05") return new CtnCheck; if (p == "C04") return new MemCheck(2, {new CtnCheck}, {"element-construction-throws", "element-copy-throws", "element-assignment-throws", "element-comparison-throws", "element-arithmetic-throws"}); return nullptr; }
