// P01: embedded Python: values, errors and reference counts
#include "vmon.h"
#include <iostream>
#include <fstream>
#include <limits>
#include <clocale>
#include <sys/stat.h>
#include "ristra/embedded/embed_python.h"
namespace em = ristra::embedded; using namespace em;
extern "C" int __lsan_is_turned_off() { return 1; } // the interpreter keeps its own pools

static const char * module_src = R"PY(
import sys, gc
calls = 0
last = ()
def ident(x): return x
def add(a, b): return a + b
def args(*a):
    global last, calls
    last = a; calls += 1
    return len(a)
def kind(x): return {int: 1, float: 2}[type(x)]
def nth(n, *a): return a[n]
def none(): return 42
def raises(how):
    if how == 0: raise ValueError("boom")
    if how == 1: return undefined_name
    if how == 2: return 1 // 0
    if how == 3: return raises(3)
    if how == 4: raise KeyboardInterrupt()
    if how == 5: raise Exception()
    if how == 6: raise StopIteration(3)
    if how == 7: raise MemoryError()
    if how == 8: raise Odd()
    if how == 9: raise Odder()
    if how == 10: raise ExceptionGroup("g", [ValueError(1), Odd()])
    if how == 11: raise GeneratorExit()
    if how == 12:
        try: raise ValueError(1)
        except ValueError as e: raise KeyError("k") from e
    if how == 13: compile("def (", "x", "exec")
    if how == 14: raise UnicodeDecodeError("utf8", b"\xff", 0, 1, "x")
class Odd(Exception):
    def __str__(self): raise RuntimeError("no text")
class Odder(BaseException): pass
class Prop:
    @property
    def p(self): raise ValueError("property")
    def __getattr__(self, n): raise ZeroDivisionError(n)
prop = Prop()
class Call:
    def __init__(self, *a): self.a = a
    def __call__(self, x): return x + 1
    def method(self, x): return x + 2
caller = Call()
method = caller.method
class Bad:
    def __float__(self): return "x"
    def __int__(self): raise ValueError("no int")
    def __index__(self): raise ValueError("no index")
bad = Bad()
truth = True
shared = (1, 2, 3)
alist = [1, 2, 3]
inf = float("inf"); nan = float("nan"); huge = 10 ** 400
def fresh(): return [object()]
def text(): return "abc"
def pair(a, b): return (a, b)
def big(): return 2 ** 80
def blocks():
    for n in ('last_exc', 'last_type', 'last_value', 'last_traceback'):
        if hasattr(sys, n): setattr(sys, n, None)
    gc.collect()
    return sys.getallocatedblocks()
class Num:
    def __init__(self, v): self.v = v
    def __float__(self): return float(self.v)
    def __int__(self): return int(self.v)
    def __index__(self): return int(self.v)
def num(v): return Num(v)
value = 17
def _classes():
    out = []
    def walk(c):
        for d in sorted(c.__subclasses__(), key=lambda k: k.__module__ + k.__name__):
            if d in out or issubclass(d, SystemExit): continue
            if d.__module__ == 'builtins':
                for a in (("x",), (), ("utf8", b"x", 0, 1, "r"), ("utf8", "x", 0, 1, "r"), ("x", 0, 1, "r"), ("g", [ValueError()])):
                    try: d(*a)
                    except Exception: continue
                    out.append((d, a)); break
            walk(d)
    walk(BaseException)
    seen = []
    for d, a in out:
        if all(d is not e for e, _ in seen): seen.append((d, a))
    return seen
classes = _classes()
def nclasses(): return len(classes)
raised = 0
def raise_class(i, *rest):
    global raised
    raised += 1
    c, a = classes[i]
    raise c(*a)
def raised_count(): return raised
things = [None, "text", b"bytes", [1], {}, set(), NotImplemented, Ellipsis, True, False, int, ident, (), frozenset(), 1j, range(3), sys]
def thing(i): return things[i]
def long_tuple(n): return tuple(range(1000, 1000 + n))
)PY";
static PyObject * mod;
static PyObject * fn(const char * n) { return python_get_attribute(mod, n); }
static long long_of(PyObject * o) { long v = python_as_long(o); python_free(o); return v; }
static double dbl_of(PyObject * o) { double v = python_as_double(o); python_free(o); return v; }
template <class F> static void fails(const char * what, F && f) {
  vm::case_("%s", what); bool t = false; try { f(); } catch (const std::exception &) { t = true; }
  vm::check(t, "error:reported", "%s is not reported", what);
  vm::check(!PyErr_Occurred(), "error:pending", "%s leaves the Python error set", what); PyErr_Clear();
  PyObject * a = fn("add"); vm::check(long_of(python_call_function(a, 20, 22)) == 42, "error:usable", "after %s the interpreter computes something else", what); python_free(a);
  vm::count("errors_contained"); vm::distinct(vm::hstr(what));
}
// one allocation of the interpreter's fails
static long fail_in = -1, failed = 0; static PyMemAllocatorEx base_[2];
static bool now() { if (fail_in < 0) return false; if (fail_in-- == 0) { failed++; return true; } return false; }
static void * f_malloc(void * c, size_t n) { auto * a = (PyMemAllocatorEx *)c; return now() ? nullptr : a->malloc(a->ctx, n); }
static void * f_calloc(void * c, size_t n, size_t m) { auto * a = (PyMemAllocatorEx *)c; return now() ? nullptr : a->calloc(a->ctx, n, m); }
static void * f_realloc(void * c, void * p, size_t n) { auto * a = (PyMemAllocatorEx *)c; return now() ? nullptr : a->realloc(a->ctx, p, n); }
static void f_free(void * c, void * p) { auto * a = (PyMemAllocatorEx *)c; a->free(a->ctx, p); }
static const PyMemAllocatorDomain doms[2] = { PYMEM_DOMAIN_MEM, PYMEM_DOMAIN_OBJ };
static void faults(bool on) { for (int i = 0; i < 2; ++i) { if (on) { PyMem_GetAllocator(doms[i], &base_[i]); PyMemAllocatorEx a{ &base_[i], f_malloc, f_calloc, f_realloc, f_free }; PyMem_SetAllocator(doms[i], &a); } else PyMem_SetAllocator(doms[i], &base_[i]); } }

static double rdouble(vm::Rng & r) { switch (r.below(6)) { case 0: return (double)r.range(-9, 9); case 1: return -0.0; case 2: return std::numeric_limits<double>::infinity(); case 3: return r.uniform(-1e9, 1e9); case 4: return -1.0; default: { uint64_t u = r.next(); double d; memcpy(&d, &u, 8); return std::isnan(d) ? 1.5 : d; } } }
static long rlong(vm::Rng & r) { switch (r.below(5)) { case 0: return r.range(-20, 20); case 1: return std::numeric_limits<long>::max(); case 2: return std::numeric_limits<long>::min(); case 3: return -1; default: return (long)r.next() >> r.below(60); } }
static bool eq(double a, double b) { return memcmp(&a, &b, 8) == 0; }

int other_unit(PyObject *); // python_embed2.cc

int main(int argc, char ** argv) {
  vm::init(argc, argv); std::cerr.rdbuf(nullptr);
  if (!freopen("/dev/null", "w", stderr)) return 70;
  char tmpl[] = "/tmp/vmon-py-XXXXXX"; std::string dir = mkdtemp(tmpl); setenv("PYTHONDONTWRITEBYTECODE", "1", 1);
  { std::ofstream(dir + "/vmon_mod.py") << module_src; } if (mkdir((dir + "/vmon_pkg").c_str(), 0700)) return 70; { std::ofstream(dir + "/vmon_pkg/__init__.py") << "where = 1\n"; } { std::ofstream(dir + "/vmon_pkg/sub.py") << "where = 2\n"; } { std::ofstream(dir + "/vmon_bad.py") << "def ("; } { std::ofstream(dir + "/vmon_raise.py") << "raise RuntimeError('x')"; }
  for (int cycle = 0; cycle < (vm::thorough() ? 4 : 2); ++cycle) {
    vm::case_("initialise, cycle %d", cycle);
    const char * pn = cycle % 2 ? "a longer program name" : "vmon"; python_set_program_name(pn); python_initialize(); { std::wstring w = Py_GetProgramName() ? Py_GetProgramName() : L""; vm::ok(w == std::wstring(pn, pn + strlen(pn)), "init:name", "the interpreter has another program name than it was given"); } vm::ok(Py_IsInitialized(), "init", "not initialised");
    { PyObject * before = PySys_GetObject("path"); Py_ssize_t rc = Py_REFCNT(before), len = PyList_Size(before);
      PyObject * p = python_add_to_path(dir); vm::ok(p == PySys_GetObject("path") && PyList_Size(p) == len + 1, "path:list", "sys.path was not extended by one entry");
      PyObject * e = PyList_GetItem(p, 0); const char * s = e && PyUnicode_Check(e) ? PyUnicode_AsUTF8(e) : nullptr; vm::ok(s && dir == s, "path:entry", "the new entry is not first or differs");
      python_free(p); vm::check(Py_REFCNT(PySys_GetObject("path")) == rc, "path:refs", "adding to the path and freeing what it returned changes sys.path's references by %ld", (long)(Py_REFCNT(PySys_GetObject("path")) - rc)); vm::count("paths_added"); }
    mod = python_import("vmon_mod"); vm::Rng r = vm::rng(("values" + std::to_string(cycle)).c_str());
    PyObject *ident = fn("ident"), *add = fn("add"), *args = fn("args"), *kind = fn("kind"), *nth = fn("nth"), *none = fn("none"), *pair = fn("pair"), *num = fn("num");
    if (vm::section("values")) for (uint64_t k = 0; k < vm::n(1500); ++k) {
      long l = rlong(r), l2 = r.range(-1000, 1000); double d = rdouble(r), d2 = r.uniform(-5, 5); int i = (int)rlong(r);
      vm::case_("pass %ld, %d, %a", l, i, d);
      vm::check(long_of(python_call_function(ident, l)) == l, "value:long", "long comes back differently"); vm::check(long_of(python_call_function(ident, i)) == i, "value:int", "int comes back differently");
      vm::check(eq(dbl_of(python_call_function(ident, d)), d), "value:double", "double comes back differently"); vm::check(dbl_of(python_call_function(ident, (int)l2)) == (double)l2, "value:int-as-double", "int read as double differs");
      vm::check(long_of(python_call_function(ident, (double)l2)) == l2, "value:double-as-long", "whole double read as long differs");
      vm::check(long_of(python_call_function(kind, l)) == 1 && long_of(python_call_function(kind, i)) == 1 && long_of(python_call_function(kind, d)) == 2, "value:type", "argument has the wrong Python type");
      vm::check(long_of(python_call_function(args, l, d, i, d2, l2)) == 5 && long_of(python_call_function(none)) == 42 && long_of(python_call_function(args)) == 0, "call:count", "argument count differs");
      vm::check(long_of(python_call_function(nth, 0, l, d, i, d2)) == l && eq(dbl_of(python_call_function(nth, 1, l, d, i, d2)), d) && long_of(python_call_function(nth, 2, l, d, i, d2)) == i && eq(dbl_of(python_call_function(nth, 3, l, d, i, d2)), d2), "call:order", "arguments arrive in another order");
      vm::check(eq(dbl_of(python_call_function(add, d2, (double)l2)), d2 + (double)l2), "call:add", "function computes something else");
      PyObject * t = python_call_function(pair, l, d); vm::check(python_as_long(python_get_tuple_element(t, 0)) == l && eq(python_as_double(python_get_tuple_element(t, 1)), d), "tuple:get", "tuple elements differ"); python_free(t);
      PyObject * b = python_build_args(l, d, i); python_set_tuple_element(b, 1, i); vm::check(python_as_long(python_get_tuple_element(b, 0)) == l && python_as_long(python_get_tuple_element(b, 1)) == i && python_as_long(python_get_tuple_element(b, 2)) == i, "tuple:set", "set element differs"); python_free(b);
      PyObject * z = python_call_function(num, (int)l2); vm::check(python_as_long(z) == l2 && python_as_double(z) == (double)l2, "value:numeric-object", "a numeric object converts differently"); python_free(z);
      vm::check(other_unit(ident) == 7, "link", "another translation unit sees something else");
      vm::count("calls_made", 18); vm::distinct(vm::hdbl(d, vm::hmix(l, i)));
    }
    if (vm::section("errors")) for (uint64_t k = 0; k < vm::n(12); ++k) {
      fails("importing a missing module", [] { python_import("vmon_no_such_module"); }); fails("importing a broken module", [] { python_import("vmon_bad"); }); fails("importing a module that raises", [] { python_import("vmon_raise"); });
      fails("a missing attribute", [] { python_get_attribute(mod, "nope"); });
      for (int how : { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14 }) fails(("a call that raises, kind " + std::to_string(how)).c_str(), [&] { PyObject * f = fn("raises"); try { python_call_function(f, how); } catch (...) { python_free(f); throw; } python_free(f); });
      fails("too many arguments", [&] { python_call_function(none, 1, 2, 3); }); fails("too few arguments", [&] { python_call_function(add, 1); });
      PyObject * v = fn("value"); fails("calling a number", [&] { python_call_function(v, 1); }); python_free(v);
      PyObject * tx = fn("text"); PyObject * s = python_call_function(tx); fails("text as long", [&] { (void)python_as_long(s); }); fails("text as double", [&] { (void)python_as_double(s); }); python_free(s); python_free(tx);
      PyObject * bg = fn("big"); PyObject * g = python_call_function(bg); fails("a long that does not fit", [&] { (void)python_as_long(g); }); vm::ok(python_as_double(g) == std::pow(2.0, 80), "value:big", "a big integer as double differs"); python_free(g); python_free(bg);
      PyObject * t = python_build_args(1, 2.0); fails("reading past a tuple", [&] { (void)python_get_tuple_element(t, 2); }); fails("writing past a tuple", [&] { python_set_tuple_element(t, 5, 1); }); python_free(t);
      for (size_t past : { (size_t)3, (size_t)1000000, ~(size_t)0 }) { PyObject * q = python_build_args(1, 2.0, 3); fails("reading far past a tuple", [&] { (void)python_get_tuple_element(q, past); }); fails("writing far past a tuple", [&] { python_set_tuple_element(q, past, 1); }); vm::ok(PyTuple_GET_SIZE(q) == 3 && python_as_long(python_get_tuple_element(q, 0)) == 1 && python_as_double(python_get_tuple_element(q, 1)) == 2 && python_as_long(python_get_tuple_element(q, 2)) == 3, "tuple:kept", "a refused access changes the tuple"); python_free(q); }
      PyObject * sh = fn("shared"); fails("writing into a tuple that others hold", [&] { python_set_tuple_element(sh, 1, 77); }); vm::ok(python_as_long(python_get_tuple_element(sh, 1)) == 2, "tuple:shared", "a tuple that others hold was changed"); python_free(sh);
      PyObject * ls = fn("alist"); fails("reading a list as a tuple", [&] { (void)python_get_tuple_element(ls, 1); }); fails("writing a list as a tuple", [&] { python_set_tuple_element(ls, 1, 5); }); python_free(ls);
      PyObject * pr = fn("prop"); fails("an attribute that raises", [&] { python_get_attribute(pr, "p"); }); fails("an attribute whose lookup raises", [&] { python_get_attribute(pr, "other"); }); python_free(pr);
      fails("an attribute that is not text", [] { python_get_attribute(mod, "\xff\xfe"); }); fails("an empty attribute name", [] { python_get_attribute(mod, ""); }); fails("an empty module name", [] { python_import(""); }); fails("a module name that is not text", [] { python_import("\xff"); }); fails("a module of a package that lacks it", [] { python_import("vmon_pkg.none"); }); fails("a module under no package", [] { python_import("vmon_mod.sub"); });
      PyObject * bd = fn("bad"); fails("an object that will not be an integer", [&] { (void)python_as_long(bd); }); fails("an object that will not be a double", [&] { (void)python_as_double(bd); }); python_free(bd);
      for (const char * n : { "inf", "nan", "huge" }) { PyObject * o = fn(n); fails((std::string(n) + " as long").c_str(), [&] { (void)python_as_long(o); }); if (n[0] == 'h') fails("a number beyond doubles", [&] { (void)python_as_double(o); }); python_free(o); }
      fails("a script that raises", [] { python_run_string("raise ValueError(1)"); }); fails("a script that does not parse", [] { python_run_string("def ("); }); fails("a script that stops half way", [] { python_run_string("vmon_half = 1\nvmon_none\nvmon_half = 2\n"); });
      { PyObject * p = PySys_GetObject("path"); Py_INCREF(p); PyObject * none_ = PyTuple_New(0); PySys_SetObject("path", none_); fails("a path that is no list", [&] { python_free(python_add_to_path("x")); }); PySys_SetObject("path", nullptr); fails("no path at all", [&] { python_free(python_add_to_path("x")); }); PySys_SetObject("path", p); Py_DECREF(p); Py_DECREF(none_); }
    }
    if (vm::section("classes")) { // every exception class there is, raised once and reported once
      PyObject *rc = fn("raise_class"), *nc = fn("nclasses"), *cn = fn("raised_count"); long n = long_of(python_call_function(nc)); vm::check(n > 50, "classes:infra", "only %ld exception classes", n);
      for (long i = 0; i < n; ++i) for (int a = 0; a < 2; ++a) { long c0 = long_of(python_call_function(cn)); fails(("exception class " + std::to_string(i)).c_str(), [&] { if (a) python_call_function(rc, i, 1, 2.5); else python_call_function(rc, i); }); long c1 = long_of(python_call_function(cn)); vm::check(c1 == c0 + 1, "call:once", "a function that raises was called %ld times", c1 - c0); vm::count("exception_classes"); }
      python_free(rc); python_free(nc); python_free(cn);
      PyObject *th = fn("thing"), *ths = fn("things"); for (long i = 0; i < PyList_GET_SIZE(ths); ++i) { vm::case_("result of kind %ld", i); PyObject * want = PyList_GET_ITEM(ths, i); Py_ssize_t r0 = Py_REFCNT(want); bool t = false; PyObject * o = nullptr; try { o = python_call_function(th, i); } catch (const std::exception &) { t = true; } vm::check(!t && o == want, "result:object", "a call does not give the object the function returned"); if (o) python_free(o); vm::check(Py_REFCNT(want) == r0 && !PyErr_Occurred(), "result:refs", "a result's reference count changed"); PyErr_Clear(); vm::count("results_of_kinds"); } python_free(th); python_free(ths);
      PyObject * lt = fn("long_tuple"); for (int m : { 0, 1, 7, 8, 9, 20, 21, 100, 3000 }) { vm::case_("tuple of %d", m); PyObject * t = python_call_function(lt, m); for (int i = 0; i < m; ++i) vm::check(python_as_long(python_get_tuple_element(t, (size_t)i)) == 1000 + i, "tuple:long", "element %d of %d differs", i, m); python_free(t); fails("reading past a long tuple", [&] { PyObject * q = python_call_function(lt, m); try { (void)python_get_tuple_element(q, (size_t)m); } catch (...) { python_free(q); throw; } python_free(q); });
        PyObject * w = PyTuple_New(m); for (int i = m; i-- > 0;) python_set_tuple_element(w, (size_t)i, i * 3); for (int i = 0; i < m; ++i) vm::check(python_as_long(PyTuple_GET_ITEM(w, i)) == i * 3, "tuple:long-set", "element %d of %d is set differently", i, m); python_free(w); vm::count("long_tuples"); } python_free(lt);
      { vm::case_("twelve arguments"); PyObject * a = python_build_args(1, 2.5, 3L, 4.5, 5, 6.5, 7L, 8.5, 9, 10.5, 11L, 12.5); vm::ok(PyTuple_GET_SIZE(a) == 12, "args:many", "another number of arguments"); for (int i = 0; i < 12; ++i) vm::ok(python_as_double(python_get_tuple_element(a, (size_t)i)) == i + 1 + (i % 2 ? 0.5 : 0) && PyFloat_Check(PyTuple_GET_ITEM(a, i)) == (i % 2), "args:many-value", "an argument among many differs"); python_free(a); }
      for (const char * src : { "x = 1\ny = 2\n", "for i in range(3):\n  x = i\n", "x = '\xc3\xa9'", "", "# only a comment", "if True:\n\tx = 3\n" }) { vm::case_("script"); bool t = false; try { python_run_string(src); } catch (const std::exception &) { t = true; } vm::ok(!t && !PyErr_Occurred(), "run:accepted", "a script that is right is refused"); vm::count("scripts_run"); }
      for (const char * src : { "raise KeyboardInterrupt()", "x = 1\nraise MemoryError()\n", "  x = 1", "x = '", "import vmon_not_there\n", "def f():\n  return 1\nf(2)\n", "raise BaseException()", "assert False" }) fails("a script that is wrong", [&] { python_run_string(src); });
    }
    if (vm::section("objects")) for (uint64_t k = 0; k < vm::n(40); ++k) {
      vm::case_("other callables and attributes"); PyObject *c = fn("caller"), *m = fn("method"), *cl = fn("Call"), *t = fn("truth"), *fr = fn("fresh"), *na = fn("nan"), *inf = fn("inf");
      vm::ok(long_of(python_call_function(c, 4)) == 5 && long_of(python_call_function(m, 4)) == 6, "call:object", "a callable object or method computes something else"); { PyObject * o = python_call_function(cl, 1, 2.5); vm::ok(long_of(python_call_function(o, 8)) == 9, "call:class", "an object made by calling its class differs"); PyObject * a = python_get_attribute(o, "a"); vm::ok(python_as_double(python_get_tuple_element(a, 1)) == 2.5, "call:class-args", "the constructor got other arguments"); python_free(a); python_free(o); }
      vm::ok(python_as_long(t) == 1 && python_as_double(t) == 1., "value:bool", "a truth value converts differently"); vm::ok(std::isnan(python_as_double(na)) && std::isinf(python_as_double(inf)), "value:special", "special values convert differently"); vm::ok(std::isnan(dbl_of(python_call_function(ident, std::numeric_limits<double>::quiet_NaN()))), "value:nan", "NaN comes back differently");
      { PyObject * o = python_call_function(fr); vm::check(Py_REFCNT(o) == 1, "refs:result", "a new object comes back with %ld references", (long)Py_REFCNT(o)); PyObject * same = python_call_function(ident, 5); python_free(same); python_free(o); }
      for (long q : { (1L << 53) + 1, (1L << 62) + 12345, -(1L << 53) - 1 }) { PyObject * o = python_call_function(ident, q); vm::check(python_as_double(o) == (double)q && python_as_long(o) == q, "value:wide", "%ld converts differently", q); python_free(o); }
      { PyObject * p = python_import("vmon_pkg.sub"); PyObject * w = python_get_attribute(p, "where"); vm::ok(python_as_long(w) == 2, "import:sub", "importing a module of a package gives another module"); python_free(w); python_free(p); p = python_import("vmon_pkg"); w = python_get_attribute(p, "where"); vm::ok(python_as_long(w) == 1, "import:package", "importing a package gives another module"); python_free(w); python_free(p); }
      { PyObject * p = PySys_GetObject("path"); Py_ssize_t len = PyList_Size(p); for (const char * n : { "/vmon one", "/vmon/\xc3\xa9", "", "/vmon\xff" }) { python_free(python_add_to_path(n)); PyObject * b = PyUnicode_EncodeFSDefault(PyList_GetItem(PySys_GetObject("path"), 0)); vm::check(b && std::string(PyBytes_AsString(b)) == n, "path:text", "path entry '%s' arrives differently", n); Py_XDECREF(b); PyErr_Clear(); } p = PySys_GetObject("path"); vm::ok(PyList_Size(p) == len + 4, "path:count", "four entries were added"); PyList_SetSlice(p, 0, 4, nullptr); }
      for (PyObject * o : { c, m, cl, t, fr, na, inf }) python_free(o); vm::count("objects_used");
    }
    if (vm::section("memory")) { // each allocation of an operation fails in turn
      PyObject * blk = fn("blocks"); auto blocks = [&] { return long_of(python_call_function(blk)); }; PyObject * nm = python_call_function(num, 1 << 20); long inj = 0, rep = 0; faults(true);
      auto each = [&](const char * what, auto && f) { // f returns whether what it got is right
        auto sweep = [&](bool judge) { int clean = 0; for (long k = 0; k < 400 && clean < 3; ++k) { if (judge) vm::case_("%s, allocation %ld fails", what, k); bool t = false, right = true; failed = 0; fail_in = k; try { right = f(); } catch (const std::exception &) { t = true; } fail_in = -1; bool pend = PyErr_Occurred() != nullptr; PyErr_Clear(); clean = failed ? 0 : clean + 1;
            if (!judge) continue; vm::check(!pend, "memory:pending", "%s leaves the Python error set when memory runs out", what); vm::check(t || right, "memory:value", "%s gives something else when memory runs out", what); vm::check(!t || failed, "memory:spurious", "%s fails though nothing is wrong", what); inj += failed; rep += t; } };
        sweep(true); const int N = 150; for (int i = 0; i < N; ++i) sweep(false); long least = 1 << 30; for (int w = 0; w < 3 && least >= N / 2; ++w) { long b0 = blocks(); for (int i = 0; i < N; ++i) sweep(false); long b1 = blocks(); least = std::min(least, b1 - b0); } vm::check(least < N / 2, "memory:objects", "%s, when memory runs out 150 times, leaves %ld more objects allocated, every time", what, least); vm::distinct(vm::hstr(std::string("m") + what)); };
      long big = 1L << 40;
      each("building arguments", [&] { PyObject * a = python_build_args(big + 1, 2.5, big + 3, 4.5, 1); bool ok = python_as_long(python_get_tuple_element(a, 0)) == big + 1 && python_as_double(python_get_tuple_element(a, 1)) == 2.5 && python_as_long(python_get_tuple_element(a, 2)) == big + 3 && python_as_double(python_get_tuple_element(a, 3)) == 4.5 && PyTuple_GET_SIZE(a) == 5; python_free(a); return ok; });
      each("calling", [&] { PyObject * v = python_call_function(add, big, big); long l = 0; try { l = python_as_long(v); } catch (...) { python_free(v); throw; } python_free(v); return l == 2 * big; });
      each("setting an element", [&] { PyObject * a = PyTuple_New(1); if (!a) { PyErr_Clear(); return true; } try { python_set_tuple_element(a, 0, big + 7); } catch (...) { python_free(a); throw; } bool ok = python_as_long(PyTuple_GET_ITEM(a, 0)) == big + 7; python_free(a); return ok; });
      each("converting", [&] { return python_as_double(nm) == (double)(1 << 20) && python_as_long(nm) == 1 << 20; });
      each("an attribute", [&] { PyObject * o = python_get_attribute(mod, "value"); bool ok = python_as_long(o) == 17; python_free(o); return ok; });
      each("a path", [&] { long k = fail_in; fail_in = -1; PyObject * p = PySys_GetObject("path"); Py_ssize_t n0 = PyList_Size(p); fail_in = k; bool ok = true; auto undo = [&] { long q = fail_in; fail_in = -1; Py_ssize_t n1 = PyList_Size(p); if (n1 == n0 + 1) PyList_SetSlice(p, 0, 1, nullptr); fail_in = q; return n1; };
        try { python_free(python_add_to_path("/vmon-none")); } catch (...) { undo(); throw; } ok = undo() == n0 + 1; return ok; });
      each("importing", [&] { PyObject * m = python_import("vmon_mod"); bool ok = m == mod; python_free(m); return ok; });
      faults(false); python_free(nm); python_free(blk); vm::count("allocations_failed", (uint64_t)inj); vm::count("memory_errors_reported", (uint64_t)rep);
      vm::ok(long_of(python_call_function(add, 20, 22)) == 42, "memory:usable", "after memory ran out the interpreter computes something else");
    }
    if (vm::section("refs")) { // repeating an operation does not accumulate objects, whether it succeeds or fails
      PyObject * blk = fn("blocks"); auto blocks = [&] { return long_of(python_call_function(blk)); };
      auto balanced = [&](const char * what, auto && f) {
        vm::case_("%s, repeated", what); for (int i = 0; i < 30; ++i) f(i); long b0 = blocks(); Py_ssize_t ri = Py_REFCNT(ident), rm = Py_REFCNT(mod), ra = Py_REFCNT(args), rp = Py_REFCNT(PySys_GetObject("path")); const int N = 2000;
        for (int i = 0; i < N; ++i) f(i);
        long b1 = blocks(); vm::check(b1 - b0 < N / 4, "refs:objects", "%s repeated %d times leaves %ld more objects allocated", what, N, b1 - b0);
        vm::check(Py_REFCNT(ident) == ri && Py_REFCNT(mod) == rm && Py_REFCNT(args) == ra && Py_REFCNT(PySys_GetObject("path")) == rp, "refs:count", "%s changes the reference count of an object it was given", what); vm::count("operations_balanced", N); vm::distinct(vm::hstr(std::string("b") + what)); };
      balanced("a call", [&](int i) { long_of(python_call_function(args, 100000 + i, 2.5 * i, 3)); });
      balanced("a call without arguments", [&](int) { long_of(python_call_function(none)); });
      balanced("building arguments", [&](int i) { PyObject * a = python_build_args(100000 + i, 1.5 * i); python_set_tuple_element(a, 0, 0.5 + i); python_free(a); });
      balanced("importing", [&](int) { python_free(python_import("vmon_mod")); });
      balanced("an attribute", [&](int) { python_free(fn("ident")); });
      balanced("a failing call", [&](int i) { try { python_call_function(add, 100000 + i); } catch (const std::exception &) {} });
      balanced("a failing import", [&](int i) { try { python_import("vmon_missing_" + std::to_string(i % 3)); } catch (const std::exception &) {} });
      balanced("a failing attribute", [&](int) { try { python_get_attribute(mod, "nope"); } catch (const std::exception &) {} });
      balanced("a failing conversion", [&](int i) { PyObject * t = python_build_args(100000 + i); try { (void)python_as_long(t); } catch (const std::exception &) {} PyErr_Clear(); python_free(t); });
      balanced("conversions", [&](int i) { PyObject * t = python_build_args(100000 + i, 0.25 * i); (void)python_as_long(python_get_tuple_element(t, 0)); (void)python_as_long(python_get_tuple_element(t, 1)); (void)python_as_double(python_get_tuple_element(t, 0)); python_free(t); });
      balanced("the path", [&](int i) { python_free(python_add_to_path("/nonexistent")); PyObject * p = PySys_GetObject("path"); PyList_SetSlice(p, 0, 1, nullptr); });
      python_free(blk);
    }
    { vm::case_("run_string"); python_run_string("vmon_global = 5\n"); PyObject * m = python_import("__main__"); PyObject * g = python_get_attribute(m, "vmon_global"); vm::ok(python_as_long(g) == 5, "run:string", "a script's global is not visible"); python_free(g); python_free(m);
      std::wstring w = make_python_string("path/to"); std::wstring w2 = make_python_string(std::string("x")); vm::ok(w == L"path/to" && w2 == L"x" && as_python_char(w)[0] == L'p', "string", "wide strings differ"); }
    { vm::case_("wide strings"); std::string old = setlocale(LC_CTYPE, nullptr); if (setlocale(LC_CTYPE, "C.UTF-8")) { vm::ok(make_python_string("a\xc3\xa9\xe2\x82\xac") == L"a\u00e9\u20ac" && make_python_string(std::string("\xf0\x9f\x98\x80")) == L"\U0001F600" && make_python_string("").empty(), "string:wide", "a text outside ASCII becomes another"); vm::count("wide_strings"); } setlocale(LC_CTYPE, old.c_str()); }
    for (PyObject * o : { ident, add, args, kind, nth, none, pair, num }) python_free(o); python_free(mod);
    python_finalize(); vm::ok(!Py_IsInitialized(), "finalize", "still initialised"); vm::count("cycles");
  }
  std::string rm = "rm -rf '" + dir + "'"; if (dir.rfind("/tmp/vmon-py-", 0) == 0 && system(rm.c_str())) {}
  return vm::finish();
}
