// Python world (C13): the real binding module (pysrc/stator/core.cpp) in an embedded interpreter.  Simulated clients make calls on
// shared objects in a seeded order, also from inside each other's argument conversions; C++ and Python allocations fail and
// conversion arguments misbehave at seeded points.
#include <pybind11/pybind11.h>
#include <pysrc/stator/core.cpp>
#include <stator/symbolic/parser.hpp>
#include "guard.h"
#include "expr_ops.h"
#include "value_text.h"
#include "plangen.h"
#include "gentext.h"
#include "memcheck.h"
#include <sys/mman.h>
#include <sys/stat.h>
#include <elf.h>
#include <fcntl.h>
#include <unwind.h>
// libpython's static archive refers to a hash library it does not contain; hashlib is never used here
extern "C" {
#define NO_HASH(n) void python_hashlib_Hacl_Hash_SHA2_##n() { abort(); }
NO_HASH(copy_256) NO_HASH(copy_512) NO_HASH(digest_256) NO_HASH(digest_512) NO_HASH(free_256) NO_HASH(free_512) NO_HASH(malloc_224) NO_HASH(malloc_256) NO_HASH(malloc_384) NO_HASH(malloc_512) NO_HASH(update_256) NO_HASH(update_512)
}
using namespace xw;
using std::to_string;

namespace {
// ------------------------------------------------------------------ the interpreter's memory: fixed addresses, poisoned and never reused during a run
namespace mem {
constexpr uintptr_t BASE = 0x300000000000ull; constexpr size_t SZ = 2048ull << 20; uintptr_t bump = 0; bool run = false; void *fl[65];
long live = 0; bool in_op = false; long nth = 0, count = 0, at = 0; bool fired = false; // Python allocation faults
struct Hd { size_t n, pad; };
void init() { if (!bump) { mmap((void *)BASE, SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0); bump = BASE; } }
void *raw_malloc(void *, size_t n) {
  if (n > (64u << 20)) return nullptr;
  size_t r = ((n ? n : 1) + 15) & ~15ull; size_t c = r >> 4; Hd *h;
  if (!run && c <= 64 && fl[c]) { h = (Hd *)fl[c] - 1; fl[c] = *(void **)(h + 1); } else { if (bump + r + 16 > BASE + SZ) return nullptr; h = (Hd *)bump; bump += r + 16; }
  h->n = n; live++; if (run) memset((void *)(h + 1), 0xCB, n); return h + 1;
}
void raw_free(void *, void *p) { if (!p) return; live--; Hd *h = (Hd *)p - 1; size_t r = ((h->n ? h->n : 1) + 15) & ~15ull; if (run) { memset(p, 0xDB, h->n); return; } if ((r >> 4) <= 64) { *(void **)p = fl[r >> 4]; fl[r >> 4] = p; } }
void *raw_calloc(void *c, size_t a, size_t b) { if (b && a > SZ / b) return nullptr; void *p = raw_malloc(c, a * b); if (p) memset(p, 0, a * b); return p; }
void *raw_realloc(void *c, void *p, size_t n) { if (!p) return raw_malloc(c, n); Hd *h = (Hd *)p - 1; if (n <= h->n && n > h->n / 2) return p; void *q = raw_malloc(c, n); if (q) { memcpy(q, p, n < h->n ? n : h->n); raw_free(c, p); } return q; }
bool fail() { if (!in_op) return false; at++; if (nth && at >= nth && at < nth + count && sim::fault_gate()) { fired = true; sim::count_fault(6); return true; } return false; }
void *o_malloc(void *c, size_t n) { return fail() ? nullptr : raw_malloc(c, n); }
void *o_calloc(void *c, size_t a, size_t b) { return fail() ? nullptr : raw_calloc(c, a, b); }
void *o_realloc(void *c, void *p, size_t n) { return fail() ? nullptr : raw_realloc(c, p, n); }
} // namespace mem

// C++ allocation faults are aimed at stator and the binding module: pybind11 itself terminates the process when its own error
// messages cannot be allocated, so a fault fires only when the innermost frame of interest belongs to the code under test.
namespace frames {
struct Fn { uintptr_t lo, hi; char k; }; Fn *tab; size_t n; // 1: code under test, 2: pybind11
void init() {
  int fd = ::open("/proc/self/exe", O_RDONLY); struct stat st; if (fd < 0 || fstat(fd, &st)) abort();
  char *b = (char *)mmap(nullptr, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0); ::close(fd); if (b == MAP_FAILED) abort();
  auto *eh = (Elf64_Ehdr *)b; auto *sh = (Elf64_Shdr *)(b + eh->e_shoff);
  for (int i = 0; i < eh->e_shnum; i++) if (sh[i].sh_type == SHT_SYMTAB) {
    auto *s = (Elf64_Sym *)(b + sh[i].sh_offset); size_t c = sh[i].sh_size / sizeof *s; const char *str = b + sh[sh[i].sh_link].sh_offset; tab = (Fn *)malloc(c * sizeof(Fn));
    for (size_t j = 0; j < c; j++) {
      if (ELF64_ST_TYPE(s[j].st_info) != STT_FUNC || !s[j].st_size) continue; const char *m = str + s[j].st_name; auto st = [&](const char *p) { return !strncmp(m, p, strlen(p)); };
      char k = st("_ZN3sym") || st("_ZNK3sym") || st("_ZN6stator") || st("_ZNK6stator") || st("_ZZL18pybind11_init_core") || st("_ZZ18pybind11_init_core") || st("_Z9to_python") || st("_Z9make_Expr") || st("_ZN15ToPythonVisitor") ? 1 : st("_ZN8pybind11") || st("_ZNK8pybind11") || st("_ZZN8pybind11") || st("_ZZNK8pybind11") ? 2 : 0;
      if (k) tab[n++] = {s[j].st_value, s[j].st_value + s[j].st_size, k};
    } }
  std::sort(tab, tab + n, [](const Fn &a, const Fn &b) { return a.lo < b.lo; }); munmap(b, st.st_size);
}
_Unwind_Reason_Code step(_Unwind_Context *c, void *v) {
  uintptr_t pc = _Unwind_GetIP(c) - 1; size_t a = 0, z = n; while (a < z) { size_t m = (a + z) / 2; if (tab[m].lo <= pc) a = m + 1; else z = m; }
  if (a && pc < tab[a - 1].hi) { *(int *)v = tab[a - 1].k; return _URC_END_OF_STACK; } return _URC_NO_REASON;
}
bool ours() { int k = 0; _Unwind_Backtrace(step, &k); return k == 1; }
} // namespace frames
PyObject *mod, *evil, *T_Expr, *gc_collect; py::module_ *keepmod;
struct World;
World *w;
PyObject *hook_fn(PyObject *, PyObject *);
PyMethodDef hook_def = {"hook", hook_fn, METH_NOARGS, nullptr};
const char *SRC = R"(
class Evil:
    def __init__(self, mode, val, target):
        self.mode = mode; self.val = val; self.target = target; self.n = 0
    def act(self, conv):
        self.n += 1; m = self.mode; t = self.target
        if m & 8: hook()
        if m & 2 and t is not None: t.clear()
        if m & 4 and t is not None and self.n < 3:
            if isinstance(t, list): t.append(self); t.insert(0, 1.5)
            else: t[len(t) + 10.5] = 2.5
        if m & 32: collect()
        if m & 1: raise ValueError('evil')
        if m & 64: raise (MemoryError, KeyboardInterrupt, RecursionError, SystemExit)[self.val % 4]
        if m & 16: return conv(self.val) if self.n % 2 else 'text'
        if m & 128: return 10 ** 40
        return conv(self.val)
    def __index__(self): return self.act(int)
    def __float__(self): return self.act(float)
    def __hash__(self): return 7
)";
void fatal(const char *m) { fprintf(stderr, "harness: %s\n", m); if (PyErr_Occurred()) PyErr_Print(); _exit(3); }
void init_python() {
  mem::init(); frames::init(); sim::fault_gate = frames::ours;
  PyPreConfig pre; PyPreConfig_InitIsolatedConfig(&pre); pre.utf8_mode = 1; pre.configure_locale = 0; if (PyStatus_Exception(Py_PreInitialize(&pre))) fatal("preinit");
  PyMemAllocatorEx r{nullptr, mem::raw_malloc, mem::raw_calloc, mem::raw_realloc, mem::raw_free}, o{nullptr, mem::o_malloc, mem::o_calloc, mem::o_realloc, mem::raw_free};
  PyMem_SetAllocator(PYMEM_DOMAIN_RAW, &r); PyMem_SetAllocator(PYMEM_DOMAIN_MEM, &o); PyMem_SetAllocator(PYMEM_DOMAIN_OBJ, &o);
  PyImport_AppendInittab("core", PyInit_core);
  PyConfig c; PyConfig_InitIsolatedConfig(&c); c.site_import = 0; c.use_hash_seed = 1; c.hash_seed = 0; c.install_signal_handlers = 0; c.write_bytecode = 0; c.pathconfig_warnings = 0;
  PyConfig_SetString(&c, &c.home, L"/usr"); PyConfig_SetString(&c, &c.program_name, L"/usr/bin/python3");
  if (PyStatus_Exception(Py_InitializeFromConfig(&c))) fatal("python initialisation");
  PyConfig_Clear(&c);
  mod = PyImport_ImportModule("core"); if (!mod) fatal("import core");
  T_Expr = PyObject_GetAttrString(mod, "Expr");
  PyObject *g = PyDict_New(); PyDict_SetItemString(g, "__builtins__", PyEval_GetBuiltins()); PyObject *h = PyCFunction_New(&hook_def, nullptr); PyDict_SetItemString(g, "hook", h);
  PyObject *gcm = PyImport_ImportModule("gc"); gc_collect = PyObject_GetAttrString(gcm, "collect"); PyDict_SetItemString(g, "collect", gc_collect);
  if (!PyRun_String(SRC, Py_file_input, g, g)) fatal("classes");
  evil = PyDict_GetItemString(g, "Evil");
  PyObject *dis = PyObject_CallMethod(gcm, "disable", nullptr); Py_XDECREF(dis);
  PyEval_SaveThread();
}

// ------------------------------------------------------------------ model
bool is_expr(PyObject *o) { return o && PyObject_IsInstance(o, T_Expr) == 1; }
sym::Expr &expr_of(PyObject *o) { return py::cast<sym::Expr &>(py::handle(o)); }
// any Python value as an expression; false if it has no such meaning
bool conv(PyObject *o, Expr &e, int depth = 0) {
  if (depth > 8) return false;
  if (is_expr(o)) { e = expr_of(o); return true; }
  if (PyFloat_Check(o)) { e = Expr(PyFloat_AS_DOUBLE(o)); return true; }
  if (PyLong_Check(o)) { double d = PyLong_AsDouble(o); if (PyErr_Occurred()) { PyErr_Clear(); return false; } e = Expr(d); return true; }
  if (PyList_Check(o)) { auto p = ArrayRT::create(); for (Py_ssize_t i = 0; i < PyList_GET_SIZE(o); i++) { Expr x; if (!conv(PyList_GET_ITEM(o, i), x, depth + 1)) return false; p->push_back(x); } e = p; return true; }
  if (PyDict_Check(o)) { auto p = DictRT::create(); PyObject *k, *v; Py_ssize_t pos = 0; while (PyDict_Next(o, &pos, &k, &v)) { Expr a, b; if (!conv(k, a, depth + 1) || !conv(v, b, depth + 1)) return false; (*p)[a] = b; } e = p; return true; }
  return false;
}
string kinds(PyObject *o, bool id = false, int depth = 0) { // the Python types (and identities) of the parts of a container
  string t = Py_TYPE(o)->tp_name; if (id) { char b[24]; snprintf(b, sizeof b, "@%lx", (long)o); t += b; } if (depth > 8) return t;
  if (PyList_Check(o)) { t += "["; for (Py_ssize_t i = 0; i < PyList_GET_SIZE(o); i++) t += kinds(PyList_GET_ITEM(o, i), id, depth + 1) + ","; t += "]"; }
  if (PyDict_Check(o)) { t += "{"; PyObject *k, *v; Py_ssize_t pos = 0; while (PyDict_Next(o, &pos, &k, &v)) t += kinds(k, id, depth + 1) + ":" + kinds(v, id, depth + 1) + ","; t += "}"; }
  return t;
}
string image(PyObject *o) { // the state of an object as text
  if (!o) return "none"; Expr e; string t = PyList_Check(o) || PyDict_Check(o) ? kinds(o) : Py_TYPE(o)->tp_name;
  if (conv(o, e)) return t + " " + ser(e);
  return t;
}
// value after simplifying as far as it goes (list items are simplified once more for every level of nesting)
string settled(Expr e) { string t = ser(e); for (int i = 0; i < 5; i++) { try { e = sym::simplify(e); } catch (const std::exception &) { break; } string u = ser(e); if (u == t) break; t = u; } return value_text(e); }
string values(PyObject *o) { Expr e; return conv(o, e) ? settled(e) : "?"; }

struct Slot { PyObject *o = nullptr; string img = "none"; };
struct World { const Plan *p; vector<Slot> s; vector<size_t> pc; vector<long> order; size_t at = 0; int depth = 0; int running = 0; vector<char> busy; };
constexpr int NS = 10;
void put(int k, PyObject *o) { Slot &s = w->s[k]; PyObject *old = s.o; s.o = o; s.img = image(o); Py_XDECREF(old); }
Expr model_of(PyObject *o, bool &ok) { Expr e; if (!conv(o, e)) ok = false; return e; }
bool has_dict(const Expr &e) { return ser(e).find('{') != string::npos; }

// the Python value documented for an expression: lists and dictionaries of values, numbers, else the expression; false: no such value
bool py_value(const Expr &e0, PyObject *&out, bool &clash) {
  Expr e; try { e = sym::simplify(e0); } catch (const std::exception &) { return false; }
  out = nullptr;
  if (auto *l = dynamic_cast<const ArrayRT *>(e.get())) { out = PyList_New(0); for (auto &x : *l) { PyObject *v; if (!py_value(x, v, clash)) { Py_CLEAR(out); return false; } PyList_Append(out, v); Py_DECREF(v); } return true; }
  if (auto *d = dynamic_cast<const DictRT *>(e.get())) {
    out = PyDict_New(); Py_ssize_t n = 0;
    for (auto &x : *d) { PyObject *k = nullptr, *v = nullptr; bool ok = py_value(x.first, k, clash) && py_value(x.second, v, clash); if (ok && PyDict_SetItem(out, k, v)) { PyErr_Clear(); ok = false; } Py_XDECREF(k); Py_XDECREF(v); if (!ok) { Py_CLEAR(out); return false; } n++; }
    if (PyDict_Size(out) != n) clash = true; return true; // keys that Python takes for the same
  }
  if (auto *c = dynamic_cast<const sym::ConstantRT<double> *>(e.get())) { out = PyFloat_FromDouble(c->get()); return true; }
  out = py::cast(e).release().ptr(); return true;
}
bool dict_inside(const Expr &e) { // a dictionary within an operation: such values are not compared
  if (auto *l = dynamic_cast<const ArrayRT *>(e.get())) { for (auto &x : *l) if (dict_inside(x)) return true; return false; }
  if (auto *d = dynamic_cast<const DictRT *>(e.get())) { for (auto &x : *d) if (dict_inside(x.first) || dict_inside(x.second)) return true; return false; }
  return has_dict(e);
}

struct OpRun {
  const Op &o; string bad, out; PyObject *res = nullptr; string exname; bool raised = false, fired = false; int target = -1, dst = -1;
  string text; bool is_text = false;
  explicit OpRun(const Op &x) : o(x) {}
  // run f (returns a new reference or NULL) as library code
  template <class F> void call(int id, F f) {
    Py_CLEAR(res); raised = false; exname.clear(); bool was = mem::in_op; bool pf0 = mem::fired; mem::fired = false; if (!was) { mem::at = 0; const Plan &p = *w->p; mem::nth = p.c("pyop") == id ? p.c("pynth") : 0; mem::count = p.c("pycount", 1); }
    { sim::Lib lib(id); mem::in_op = true; res = f(); mem::in_op = was; sim::Quiet q; fired = sim::fault_fired() || mem::fired; last_allocs = sim::lib_allocs(); last_pyallocs = mem::at; }
    mem::fired = mem::fired || pf0; if (!was) mem::nth = 0;
    if (!res) {
      if (!PyErr_Occurred()) { bad = "the call returned nothing and raised nothing"; return; }
      raised = true; PyObject *t, *v, *tb; PyErr_Fetch(&t, &v, &tb); exname = ((PyTypeObject *)t)->tp_name;
      if (exname == "SystemError") { PyObject *s = PyObject_Str(v); bad = string("SystemError: ") + (s ? PyUnicode_AsUTF8(s) : "?"); Py_XDECREF(s); }
      Py_XDECREF(t); Py_XDECREF(v); Py_XDECREF(tb);
    } else if (PyErr_Occurred()) { bad = "the call returned a value and left an exception behind"; PyErr_Clear(); }
  }
  static long last_pyallocs;
  // the call must give this expression's value (or its text), or raise when `fails`
  void want_value(const Expr &e, const char *what, bool lax = false) {
    if (!bad.empty() || raised) return;
    string why; bool cmp = false; string a = settled(e), b = values(res);
    if (b == "?") { if (!lax) bad = string(what) + ": the result is a " + Py_TYPE(res)->tp_name; return; }
    if (!values_agree(a, b, why, cmp)) bad = string(what) + ": " + why + " (expected " + sym::repr(e) + ", got " + image(res) + ")";
    if (cmp) sim::probe(1);
  }
  void want_dicts(const Expr &e, const char *what) { // dictionaries (in lists, in dictionaries) as Python values
    if (!bad.empty() || dict_inside(e)) return;
    PyObject *m = nullptr; bool clash = false; bool good = py_value(e, m, clash); if (!clash) must(good, what);
    if (good && !clash && bad.empty() && !raised) {
      if (Py_TYPE(m) != Py_TYPE(res)) bad = string(what) + ": the result is a " + Py_TYPE(res)->tp_name; string why; bool cmp = false, same = values_agree(values(m), values(res), why, cmp);
      if (bad.empty() && !same) bad = string(what) + ": " + why + " (expected " + image(m) + ", got " + image(res) + ")"; sim::probe(4);
    }
    Py_XDECREF(m);
  }
  void want_text(const string &t) { if (!bad.empty() || raised) return; const char *g = PyUnicode_Check(res) ? PyUnicode_AsUTF8(res) : nullptr; if (!g) { PyErr_Clear(); bad = "the result is not text"; } else if (t != g) bad = "the text is <" + string(g) + "> instead of <" + t + ">"; }
  void must(bool succeed, const char *what) { if (!bad.empty()) return; if (succeed && raised && !fired) bad = string(what) + ": raised " + exname + " although the operation is valid"; if (!succeed && !raised && !fired) bad = string(what) + ": gave a value although the operation fails"; }
};
long OpRun::last_pyallocs;

template <class F> bool reference(F f, Expr &e) { try { e = f(); return true; } catch (const std::exception &) { return false; } }
PyObject *slot(int k) { return w->s[k % NS].o; }
PyObject *make_evil(long mode, long val, PyObject *target) { PyObject *e = PyObject_CallFunction(evil, "llO", mode, val, target ? target : Py_None); if (!e) fatal("evil"); return e; }

void run_op(const Op &o, int id, OpRun &r) {
  PyObject *a = slot(o.a[0]), *b = slot(o.a[1]); r.dst = o.a[2] % NS; const string &k = o.k; Py_XINCREF(a); Py_XINCREF(b); // the client holds what it works with
  struct Rel { PyObject *x, *y; ~Rel() { Py_XDECREF(x); Py_XDECREF(y); } } rel{a, b};
  bool ok = true; Expr ea, eb; if (a) ea = model_of(a, ok); else ok = false; bool okb = true; if (b) eb = model_of(b, okb); else okb = false;
  bool xa = a && is_expr(a), xb = b && is_expr(b), na = a && (PyFloat_Check(a) || PyLong_Check(a)), nb = b && (PyFloat_Check(b) || PyLong_Check(b));
  Expr m; auto nothing = [&] { r.dst = -1; r.out = "skipped"; };
  if (k == "text") {
    bool good = reference([&] { return Expr(o.s); }, m); bool utf = true; PyObject *arg = PyUnicode_DecodeUTF8(o.s.data(), o.s.size(), nullptr); if (!arg) { PyErr_Clear(); utf = false; arg = PyBytes_FromStringAndSize(o.s.data(), o.s.size()); }
    r.call(id, [&] { return PyObject_CallOneArg(T_Expr, arg); }); Py_DECREF(arg); if (utf) r.must(good, "Expr(text)"); if (good) r.want_value(m, "Expr(text)");
  } else if (k == "int") { PyObject *arg = PyLong_FromLong(o.n[0]); r.call(id, [&] { return PyObject_CallOneArg(T_Expr, arg); }); Py_DECREF(arg); r.must(true, "Expr(int)"); r.want_value(Expr((double)o.n[0]), "Expr(int)"); }
  else if (k == "float") { PyObject *arg = PyFloat_FromDouble(o.d); r.call(id, [&] { return PyObject_CallOneArg(T_Expr, arg); }); Py_DECREF(arg); r.must(true, "Expr(float)"); r.want_value(Expr(o.d), "Expr(float)"); }
  else if (k == "pynum") { r.res = o.n[0] % 2 ? PyLong_FromLong(o.n[1]) : PyFloat_FromDouble(o.d); }
  else if (k == "list" || k == "dict") {
    bool d = k == "dict"; PyObject *c = d ? PyDict_New() : PyList_New(0); auto arr = ArrayRT::create(); auto dict = DictRT::create(); bool good = true, known = true; 
    for (size_t i = 0; i < o.n.size(); i++) {
      PyObject *x = slot(o.n[i]); if (!x) continue; Expr ex; if (!conv(x, ex)) known = false; if (!is_expr(x) && !PyFloat_Check(x) && !PyLong_Check(x)) good = false;
      if (d) { PyObject *key = slot(o.n[i] + 1 + i); if (!key || PyList_Check(key) || PyDict_Check(key)) continue; Expr ek; if (!conv(key, ek)) known = false; Py_hash_t hk = PyObject_Hash(key); if (hk == -1) { PyErr_Clear(); continue; } if (PyDict_SetItem(c, key, x)) { PyErr_Clear(); known = false; continue; } }
      else PyList_Append(c, x);
    }
    if (d) { PyObject *kk, *vv; Py_ssize_t pos = 0; while (PyDict_Next(c, &pos, &kk, &vv)) { Expr x, y; if (!conv(kk, x) || !conv(vv, y)) { known = false; continue; } (*dict)[x] = y; } m = dict; } else { for (Py_ssize_t i = 0; i < PyList_GET_SIZE(c); i++) { Expr x; if (conv(PyList_GET_ITEM(c, i), x)) arr->push_back(x); else known = false; } m = arr; }
    string was = kinds(c, true);
    r.call(id, [&] { return PyObject_CallOneArg(T_Expr, c); }); if (r.bad.empty() && kinds(c, true) != was) r.bad = "converting a container to an expression changed the container: " + was + " / " + kinds(c, true);
    if (known && good) { r.must(true, "Expr(container)"); r.want_value(m, "Expr(container)"); }
    Py_DECREF(c);
  } else if (k == "add" || k == "sub" || k == "mul" || k == "div") {
    if (!a || !b || !((xa && (xb || nb)) || (na && xb))) return nothing();
    bool good = reference([&] { return k == "add" ? sym::simplify(ea + eb) : k == "sub" ? sym::simplify(ea - eb) : k == "mul" ? sym::simplify(ea * eb) : sym::simplify(ea / eb); }, m);
    r.call(id, [&] { return k == "add" ? PyNumber_Add(a, b) : k == "sub" ? PyNumber_Subtract(a, b) : k == "mul" ? PyNumber_Multiply(a, b) : PyNumber_TrueDivide(a, b); });
    bool small = !PyLong_Check(a) && !PyLong_Check(b); (void)small; bool dict = good && has_dict(m); bool sum = k == "add" || k == "mul"; Expr m2; bool good2 = good;
    if (sum) { good2 = reference([&] { return k == "add" ? sym::simplify(eb + ea) : sym::simplify(eb * ea); }, m2); if (good2 && has_dict(m2)) dict = true; } // sums and products may be formed in either order
    if (!dict && good == good2) r.must(good, k.c_str());
    if (dict && !sum && good) r.want_dicts(m, k.c_str());
    if (good && !dict) { r.want_value(m, k.c_str()); if (!r.bad.empty() && sum && good2) { r.bad.clear(); r.want_value(m2, k.c_str()); } }
    if (good && !dict && !r.raised && r.bad.empty() && na) sim::probe(2);
  } else if (k == "eq") {
    if (!xa || !(xb || nb)) return nothing(); bool e = ea == eb;
    r.call(id, [&] { return PyObject_RichCompare(a, b, Py_EQ); }); r.must(true, "=="); if (!r.raised && r.bad.empty() && (r.res == Py_True) != e) r.bad = "== gives the opposite"; r.dst = -1; r.out = e ? "1" : "0";
    if (e && xb && r.bad.empty() && !r.fired) { Py_hash_t h1 = PyObject_Hash(a), h2 = PyObject_Hash(b); if (h1 != h2) r.bad = "equal objects hash differently"; }
  } else if (k == "hash") { if (!xa) return nothing(); r.call(id, [&]() -> PyObject * { Py_hash_t h = PyObject_Hash(a); return h == -1 && PyErr_Occurred() ? nullptr : PyLong_FromSsize_t(h); }); r.must(true, "hash"); r.dst = -1; }
  else if (k == "str" || k == "repr" || k == "latex" || k == "debug_form") {
    if (!xa) return nothing(); string t; bool good = true; try { t = k == "latex" ? sym::repr<Latex>(ea) : sym::repr(ea); if (k == "repr") t = "Expr('" + t + "')"; } catch (const std::exception &) { good = false; }
    r.call(id, [&] { return k == "str" ? PyObject_Str(a) : k == "repr" ? PyObject_Repr(a) : PyObject_CallMethod(a, k.c_str(), nullptr); }); r.must(good, k.c_str()); if (k != "debug_form") r.want_text(t); r.dst = -1;
    if (r.res && r.bad.empty()) { const char *u = PyUnicode_AsUTF8(r.res); if (u) r.out = u; else PyErr_Clear(); }
  } else if (k == "simplify" || k == "msimplify" || k == "to_python") {
    if (!xa) return nothing(); bool good = reference([&] { return sym::simplify(ea); }, m); bool dict = k == "to_python" && good && has_dict(m);
    r.call(id, [&] { return k == "msimplify" ? PyObject_CallMethod(mod, "simplify", "O", a) : PyObject_CallMethod(a, k.c_str(), nullptr); }); if (!dict) { r.must(good, k.c_str()); if (good) r.want_value(m, k.c_str()); } else r.want_dicts(m, k.c_str());
  } else if (k == "equal") { if (!xa || !(xb || nb)) return nothing(); r.call(id, [&] { return PyObject_CallMethod(a, "equal", "O", b); }); r.must(true, "equal"); if (r.res && is_expr(r.res)) { string t = ser(expr_of(r.res)); (void)t; } }
  else if (k == "derivative") {
    if (!xa || !xb) return nothing(); bool good = reference([&] { return sym::simplify(sym::derivative(ea, eb)); }, m);
    r.call(id, [&] { return PyObject_CallMethod(mod, "derivative", "OO", a, b); }); r.must(good, "derivative"); if (good) r.want_value(m, "derivative");
  } else if (k == "subexpr" || k == "subdict") {
    if (!xa) return nothing(); Expr s, v(o.s.empty() ? string("x") : o.s);
    if (k == "subexpr") { if (!b) return nothing(); PyObject *lhs = py::cast(v).release().ptr(); s = sym::equality(v, okb ? eb : Expr(1.0)); PyObject *e = py::cast(s).release().ptr(); bool good = okb && reference([&] { return sym::simplify(sym::sub(ea, s)); }, m);
      r.call(id, [&] { return PyObject_CallMethod(mod, "sub", "OO", a, e); }); Py_DECREF(lhs); Py_DECREF(e); if (okb && !(good && has_dict(m))) { r.must(good, "sub"); if (good) r.want_value(m, "sub"); } else if (okb) r.want_dicts(m, "sub"); }
    else { PyObject *d = PyDict_New(); auto dm = DictRT::create(); bool known = true; PyObject *key = py::cast(v).release().ptr(); PyObject *val = b ? b : Py_None; PyDict_SetItem(d, key, val); if (xb || nb) (*dm)[v] = eb; else known = false; Py_DECREF(key);
      if (o.n.size() && o.n[0] % 3 == 0) { PyObject *k2 = py::cast(Expr(string("y"))).release().ptr(), *v2 = PyFloat_FromDouble(o.d); PyDict_SetItem(d, k2, v2); Py_DECREF(k2); Py_DECREF(v2); (*dm)[Expr(string("y"))] = Expr(o.d); }
      Expr se = dm; bool good = known && reference([&] { return sym::simplify(sym::sub(ea, se)); }, m);
      string was = kinds(d, true);
      r.call(id, [&] { return PyObject_CallMethod(mod, "sub", "OO", a, d); }); if (r.bad.empty() && kinds(d, true) != was) r.bad = "a substitution changed the dictionary it was given: " + was + " / " + kinds(d, true); Py_DECREF(d); if (known && !(good && has_dict(m))) { r.must(good, "sub"); if (good) r.want_value(m, "sub"); } else if (known) r.want_dicts(m, "sub"); }
  } else if (k == "mutate") { // a client edits a list or dictionary it was given: nothing else may change
    if (!a || !(PyList_Check(a) || PyDict_Check(a))) return nothing(); r.target = o.a[0] % NS; r.dst = -1; PyObject *x = b && b != a && !PyList_Check(b) && !PyDict_Check(b) ? b : Py_False;
    if (PyList_Check(a)) { if (o.n[0] % 3 == 0) PyList_Append(a, x); else if (o.n[0] % 3 == 1 && PyList_GET_SIZE(a)) { Py_INCREF(x); PyList_SetItem(a, o.n[1] % PyList_GET_SIZE(a), x); } else PyList_SetSlice(a, 0, PyList_GET_SIZE(a) / 2, nullptr); }
    else { if (o.n[0] % 2) PyDict_Clear(a); else { PyObject *key = PyFloat_FromDouble(o.d); PyDict_SetItem(a, key, x); Py_DECREF(key); } } PyErr_Clear();
  } else if (k == "item") { // read an element of a list or dictionary
    if (!a || !(PyList_Check(a) || PyDict_Check(a))) return nothing(); PyObject *x = nullptr; if (PyList_Check(a) && PyList_GET_SIZE(a)) x = PyList_GET_ITEM(a, o.n[0] % PyList_GET_SIZE(a)); else if (PyDict_Check(a)) { PyObject *kk; Py_ssize_t pos = 0; PyDict_Next(a, &pos, &kk, &x); } if (!x) return nothing(); Py_INCREF(x); r.res = x;
  } else if (k == "key") { // expressions as keys of a Python dictionary
    if (!xa || !b || PyList_Check(b) || PyDict_Check(b)) return nothing(); PyObject *d = PyDict_New(); r.call(id, [&]() -> PyObject * { if (PyDict_SetItem(d, a, Py_True)) return nullptr; PyObject *copy = py::cast(expr_of(a)).release().ptr(); PyObject *g = PyDict_GetItemWithError(d, copy); Py_DECREF(copy); if (!g && PyErr_Occurred()) return nullptr; return PyBool_FromLong(g != nullptr); }); r.must(true, "dictionary key"); if (r.res && r.bad.empty() && r.res != Py_True) r.bad = "an equal expression does not find its dictionary entry"; r.dst = -1; Py_DECREF(d);
  } else if (k == "badcall") {
    PyObject *bad[] = {Py_None, Py_Ellipsis, nullptr, nullptr, nullptr}; bad[2] = PyUnicode_FromString("1+*"); bad[3] = PyTuple_New(0); bad[4] = PyUnicode_FromWideChar(L"\xd800x", 2); PyErr_Clear(); PyObject *x = bad[o.n[0] % 5] ? bad[o.n[0] % 5] : Py_None; PyObject *y = xa ? a : x; long what = xa ? o.n[1] % 8 : 0;
    r.call(id, [&]() -> PyObject * { switch (what) { case 0: return PyObject_CallOneArg(T_Expr, x); case 1: return PyNumber_Add(y, x); case 2: return PyNumber_Subtract(x, y); case 3: return PyObject_CallMethod(mod, "derivative", "OO", y, x); case 4: return PyObject_CallMethod(mod, "sub", "OO", y, x); case 5: return PyObject_CallMethod(mod, "simplify", "O", x); case 6: return PyObject_CallMethod(mod, "sub", "O", y); default: return PyObject_CallNoArgs(T_Expr); } });
    r.must(false, "a call with unusable arguments"); r.dst = -1; for (int i = 2; i < 5; i++) Py_XDECREF(bad[i]);
  } else if (k == "evil") { // a conversion argument that misbehaves: raises, changes the container being converted, lets other clients run
    long mode = o.n[0], val = o.n[1]; int shape = o.n[2] % 6; sim::count_fault(7); 
    PyObject *cont = shape == 0 || shape == 5 ? PyList_New(0) : shape == 1 || shape == 2 ? PyDict_New() : nullptr; PyObject *e = make_evil(mode, val, cont); PyObject *f = PyFloat_FromDouble(o.d);
    if (shape == 0 || shape == 5) { PyList_Append(cont, f); PyList_Append(cont, e); PyList_Append(cont, f); if (b) PyList_Append(cont, b); }
    if (shape == 1) { PyDict_SetItem(cont, f, e); PyDict_SetItem(cont, a && !PyList_Check(a) && !PyDict_Check(a) ? a : f, f); PyErr_Clear(); }
    if (shape == 2) { PyDict_SetItem(cont, e, f); PyDict_SetItem(cont, f, e); PyErr_Clear(); }
    PyObject *arg = cont ? cont : e; if (cont) { Py_DECREF(e); } // the container holds the only reference to the misbehaving object
    PyObject *x = xa ? a : nullptr; bool single = !cont;
    r.call(id, [&]() -> PyObject * { if (single) return shape == 3 || !x ? PyObject_CallOneArg(T_Expr, arg) : o.n[1] % 2 ? PyNumber_Subtract(x, arg) : PyNumber_Subtract(arg, x); if (PyDict_Check(arg) && x && o.n[1] % 2) return PyObject_CallMethod(mod, "sub", "OO", x, arg); return PyObject_CallOneArg(T_Expr, arg); });
    if (r.res) { string t = image(r.res); r.out = t.substr(0, 400); if (single && !(mode & (16 | 1 | 64 | 128)) && (shape == 3 || !x)) r.want_value(Expr((double)val), "Expr(number-like)"); }
    Py_DECREF(f); if (cont) PyObject_CallMethod(cont, "clear", nullptr) ? (void)0 : PyErr_Clear(); Py_DECREF(arg); r.dst = r.res ? r.dst : -1;
  } else if (k == "drop") { put(o.a[0] % NS, nullptr); r.dst = -1; PyObject *g = PyObject_CallNoArgs(gc_collect); Py_XDECREF(g); PyErr_Clear(); }
  else r.bad = "unknown operation";
  if (r.raised) r.dst = -1;
}
void stats(int id, sim::OpStat a) { sim::OpStat b = sim::opstat(); char t[160]; snprintf(t, sizeof t, "%lu %lu %lu %lu %lu %ld", a.ev, b.ev, a.st, b.st, last_allocs, OpRun::last_pyallocs); emit(id, 's', t); }
string check_slots(const OpRun &r) {
  for (int i = 0; i < NS; i++) { if (i == r.target) { w->s[i].img = image(w->s[i].o); continue; } string s = image(w->s[i].o); if (s != w->s[i].img) return "object " + to_string(i) + " changed from <" + w->s[i].img + "> to <" + s + ">"; }
  return "";
}
// containers handed out are shared between slots when the same object was read twice: refresh the images of aliases of the target
void refresh_aliases(const OpRun &r) { if (r.target >= 0) for (auto &s : w->s) if (s.o && (s.o == w->s[r.target].o || PyList_Check(s.o) || PyDict_Check(s.o))) s.img = image(s.o); }
void exec(int c) {
  const Op &o = w->p->th[c][w->pc[c]++]; sim::OpStat s0 = sim::opstat(); bool nested = w->depth > 0; w->depth++; w->busy[c] = 1; last_allocs = 0;
  OpRun r(o); bool f0 = mem::fired; run_op(o, o.id, r); if (!nested) stats(o.id, s0); (void)f0;
  bool faulted = r.fired && !nested && o.k != "evil" && o.k != "mutate" && o.k != "drop";
  if (r.bad.empty() && r.raised && faulted) { // once the fault is gone the same call gives its normal value
    OpRun q(o); run_op(o, -7, q); if (!q.bad.empty()) r.bad = "repeated after a failed call: " + q.bad; else { Py_XDECREF(r.res); r.res = q.res; q.res = nullptr; r.dst = q.dst; r.out += "|retried:" + q.exname; }
  }
  refresh_aliases(r); string ch = check_slots(r); if (r.bad.empty() && !ch.empty()) r.bad = ch;
  string t = r.bad.empty() ? (r.raised ? "raised " + r.exname : "ok ") + r.out : "bad:" + o.k + ": " + r.bad; if (r.dst >= 0 && r.res && r.bad.empty()) { put(r.dst, r.res); r.res = nullptr; t += " -> " + w->s[r.dst].img.substr(0, 600); }
  emit(o.id, 'o', t); Py_XDECREF(r.res); w->depth--; w->busy[c] = 0;
}
int next_client(bool nested) {
  size_t n = w->p->th.size();
  for (size_t tries = 0; tries <= n + w->order.size(); tries++) { int c = (int)((w->order.empty() ? w->at : w->order[w->at % w->order.size()]) % n); w->at++; if (!w->busy[c] && w->pc[c] < w->p->th[c].size()) return c; if (tries > w->order.size()) for (size_t d = 0; d < n; d++) if (!w->busy[d] && w->pc[d] < w->p->th[d].size()) return d; }
  (void)nested; return -1;
}
PyObject *hook_fn(PyObject *, PyObject *) {
  sim::Quiet q; bool was = mem::in_op; mem::in_op = false;
  if (w->depth < 4) { int c = next_client(true); if (c >= 0) { sim::count_fault(8); exec(c); } }
  mem::in_op = was; Py_RETURN_NONE;
}

struct PyCheck : Check {
  const char *property() override { return "C13"; }
  void program(const Plan &p) override {
    sim::Quiet q; PyGILState_Ensure(); mem::run = true; w = new World; w->p = &p; w->s.resize(NS); w->pc.assign(p.th.size(), 0); w->busy.assign(p.th.size(), 0);
    for (auto &o : p.setup) if (o.k == "order") w->order = o.n; else { OpRun r(o); run_op(o, o.id, r); if (r.dst >= 0 && r.res) { put(r.dst, r.res); r.res = nullptr; } }
    for (int c; (c = next_client(false)) >= 0;) exec(c);
    for (int i = 0; i < NS; i++) put(i, nullptr);
  }
  void alone(const Plan &, int) override {}
  void gen(Rng &r, Plan &p) override {
    TextGen g{r}; auto text = [&] { string s = r.chance(0.15) ? g.any() : g.expr(r.range(0, 2)); if (r.chance(0.1)) damage(r, s, "x+1"); return s; };
    Op ord; ord.id = 1; ord.k = "order"; for (int i = r.range(3, 16); i-- > 0;) ord.n.push_back(r.below(3)); p.setup.push_back(ord);
    for (int i = 0; i < 6; i++) { Op o; o.id = 2 + i; o.a = {0, 0, i}; o.k = i == 0 ? "text" : i == 1 ? "pynum" : r.chance(0.6) ? "text" : r.chance(0.5) ? "float" : "pynum"; o.s = i == 0 ? "x" : r.chance(0.2) ? "[" + g.expr(1) + ", " + g.expr(0) + "]" : r.chance(0.06) ? g.list(r.range(5, 20), 0) : r.chance(0.08) ? "{" + g.var() + ":" + g.number() + "}" : r.chance(0.05) ? g.dict(r.range(2, 7), 0) : g.expr(r.range(0, 2)); o.n = {(long)r.below(4), (long)r.range(-20, 20)}; o.d = r.range(-40, 40) / 8.0; p.setup.push_back(o); }
    static const char *ks[] = {"text", "int", "float", "pynum", "list", "list", "dict", "add", "add", "sub", "sub", "sub", "mul", "mul", "div", "div", "eq", "hash", "str", "repr", "latex", "debug_form", "simplify", "msimplify", "to_python", "to_python", "equal", "derivative", "derivative", "subexpr", "subexpr", "subdict", "subdict", "mutate", "item", "key", "badcall", "evil", "evil", "evil", "drop"};
    for (int c = 0, nc = r.range(1, 3); c < nc; c++) { p.th.emplace_back();
      for (int j = 0, n = r.range(2, 7); j < n; j++) {
        Op o; o.id = 1000 * (c + 1) + j; o.k = ks[r.below(sizeof ks / sizeof *ks)]; for (int i = 0; i < 3; i++) o.a.push_back(r.below(NS)); if (o.k == "derivative" && r.chance(0.7)) o.a[1] = 0;
        o.d = r.chance(0.5) ? r.range(-40, 40) / 8.0 : 10 * (r.unit() - 0.5); o.s = o.k == "text" ? text() : o.k.compare(0, 3, "sub") == 0 ? (r.chance(0.8) ? "x" : "y") : "";
        if (o.k == "list" || o.k == "dict") for (int i = r.chance(0.1) ? r.range(5, 20) : r.below(5); i-- > 0;) o.n.push_back(r.below(NS));
        else if (o.k == "evil") { static const long m[] = {0, 1, 2, 3, 4, 8, 8, 10, 12, 16, 32, 34, 64, 66, 128, 9, 2, 42}; o.n = {m[r.below(18)], (long)r.range(0, 50), (long)r.below(6)}; }
        else o.n = {(long)r.below(1000), (long)r.range(-1000, 1000), (long)r.below(9)}; if (o.k == "int") o.n[0] = r.range(-100000, 100000); if (o.k == "badcall" || o.k == "mutate") o.n[1] = r.below(8);
        p.th[c].push_back(o);
      } }
    p.sched.reuse = r.below(4); p.sched.fill = 0xA5; p.sched.seed = r.next() >> 8;
  }
  int variants(Rng &, const Plan &) override { return 25; }
  void vary(Rng &r, Plan &p, const RunResult &base) override {
    BaseStats b(base); for (auto it = b.m.begin(); it != b.m.end();) if (it->first < 1000) it = b.m.erase(it); else ++it;
    if (r.chance(0.7)) for (auto &o : p.setup) if (o.k == "order") { o.n.clear(); for (int i = r.range(3, 20); i-- > 0;) o.n.push_back(r.below(3)); }
    if (r.chance(0.75)) add_alloc_faults(r, p, b, 3);
    else if (r.chance(0.6)) { vector<std::pair<int, long>> c; for (auto &x : base.recs) if (x.type == 's' && x.id >= 1000) { long n = 0; sscanf(x.text.c_str(), "%*u %*u %*u %*u %*u %ld", &n); if (n > 0) c.push_back({x.id, n}); } if (!c.empty()) { auto &x = c[r.below(c.size())]; p.cfg["pyop"] = x.first; p.cfg["pynth"] = 1 + r.below(x.second); p.cfg["pycount"] = r.chance(0.7) ? 1 : r.range(2, 4); } }
  }
  Verdict judge(const Plan &, const RunResult &r, std::function<const RunResult &(int)>) override {
    for (auto &x : r.recs) if (x.type == 'o' && x.text.compare(0, 4, "bad:") == 0) return Verdict{"wrong-result", "op " + to_string(x.id) + ": " + x.text.substr(4)};
    return Verdict{};
  }
  bool nontrivial(const Plan &p, const RunResult &r) override { uint64_t f = 0; for (auto x : r.head.faults) f += x; return f || p.th.size() > 1; }
  vector<const char *> fault_names() override { auto v = Check::fault_names(); for (auto n : {"python-alloc", "misbehaving-conversion", "other-client-runs-inside-conversion"}) v.push_back(n); return v; }
  vector<const char *> probe_names() override { return {nullptr, "results-with-comparable-values", "reflected-operators-checked", nullptr, "dictionary-results-checked"}; }
  const char *rule() override { return "runs with several clients or with a fault, distinct by trace and outcomes of every call"; }
};

// C04: the same calls over and over must not keep more memory, neither the library's nor the interpreter's objects
struct PyMem : MemCheck {
  PyMem() : MemCheck(5, {new PyCheck}, {"python-alloc", "misbehaving-conversion", "other-client-runs-inside-conversion"}) {}
  void vary(Rng &r, Plan &p, const RunResult &base) override { MemCheck::vary(r, p, base); p.cfg.erase("pyop"); } // CPython's own failure paths are not judged
  void program(const Plan &p) override {
    long live[5]; int n = 0; PyGILState_STATE g = PyGILState_Ensure();
    auto rep = [&] { in[0]->program(p); sim::Quiet q; PyObject *c = PyObject_CallNoArgs(gc_collect); Py_XDECREF(c); PyErr_Clear(); PyType_ClearCache(); if (++n < 5) live[n] = mem::live; };
    rep(); string t = sim::growth(rep); if (!t.empty()) sim::violation("growth", t);
    if (live[4] > live[3] && live[3] > live[2]) sim::violation("growth", "repeating the same history keeps " + to_string(live[4] - live[3]) + " more blocks of the Python interpreter each time");
    (void)g;
  }
};
} // namespace
Check *make_check(const std::string &p) { if (p != "C13" && p != "C04") return nullptr; init_python(); return p == "C13" ? (Check *)new PyCheck : new PyMem; }
