// U03: helpers that walk several sequences or tuples together
#include "vmon.h"
#include <array>
#include <deque>
#include <list>
#include <memory>
#include <numeric>
#include <set>
#include <sys/wait.h>
#include "ristra/utils/zip.h"
#include "ristra/utils/tasks.h"
#include "ristra/utils/tuple_for_each.h"
#include "ristra/utils/tuple_visit.h"
#include "ristra/utils/tuple_zip.h"
#include "ristra/utils/tuple_to_array.h"
#include "ristra/utils/static_for.h"
#include "ristra/utils/template_helpers.h"
#include "ristra/utils/functional.h"
#include "ristra/utils/filter_iterator.h"
#include "ristra/utils/algorithm.h"
namespace u = ristra::utils; using std::get;

struct Tracked { int v; int id; Tracked(int x = 0) : v(x), id(0) {} Tracked(const Tracked & o) : v(o.v), id(o.id) { copies()++; } Tracked & operator=(const Tracked &) = default; static int & copies() { static int c; return c; } };

template <class C> C make(vm::Rng & r, size_t n) { C c; for (size_t i = 0; i < n; ++i) c.push_back(typename C::value_type((int)r.range(-999, 999))); return c; }

// zip one to four containers of n elements
static void zips() {
  vm::Rng r = vm::rng("zips");
  for (uint64_t k = 0; k < vm::n(600); ++k) {
    size_t n = r.chance(1, 6) ? 0 : r.chance(1, 10) ? r.range(50, 400) : r.range(1, 9); vm::case_("zip of %zu elements", n);
    auto a = make<std::vector<int>>(r, n); auto b = make<std::list<double>>(r, n); auto c = make<std::deque<long>>(r, n); auto d = make<std::vector<Tracked>>(r, n); auto a0 = a; auto b0 = b; auto c0 = c;
    { size_t i = 0; for (auto t : u::zip(a)) { vm::ok(i < n && &get<0>(t) == &a[i], "zip1", "zipping one container does not visit its elements in order"); i++; } vm::ok(i == n, "zip1:count", "zipping one container visits too few or too many"); }
    { size_t i = 0; auto ib = b.begin(); for (auto t : u::zip(a, b)) { vm::ok(i < n && &get<0>(t) == &a[i] && &get<1>(t) == &*ib, "zip2", "elements are not visited together in order"); i++; ++ib; } vm::ok(i == n, "zip2:count", "wrong number of visits"); }
    { size_t i = 0; auto ib = b.begin(); Tracked::copies() = 0; auto z = u::zip(a, b, c, d); for (auto t : z) { vm::ok(i < n && &get<0>(t) == &a[i] && &get<1>(t) == &*ib && &get<2>(t) == &c[i] && &get<3>(t) == &d[i], "zip4", "elements are not visited together in order"); get<2>(t) = get<0>(t) + 1; get<3>(t).id = (int)i; i++; ++ib; }
      vm::ok(i == n, "zip4:count", "wrong number of visits"); vm::ok(Tracked::copies() == 0, "zip:copies", "zipping copies elements"); bool w = true; for (size_t j = 0; j < n; ++j) w &= c[j] == a[j] + 1 && d[j].id == (int)j; vm::ok(w && a == a0 && b == b0, "zip:writes", "writes through the zip go elsewhere");
      size_t i2 = 0; for (auto t : z) { vm::ok(get<0>(t) == a[i2], "zip:again", "a second walk differs"); i2++; } vm::ok(i2 == n, "zip:again:count", "a second walk has another length");
      auto z2 = z; size_t i3 = 0; for (auto it = z2.begin(); it != z2.end(); ++it) i3++; (void)i3; }
    { auto z = u::zip(a, b); auto it = z.begin(); auto jt = it; auto ib = b.begin(); for (size_t i = 0; i < n; ++i) { vm::ok(it == jt && !(it != jt), "zip:equal", "equal positions differ"); vm::ok(it != z.end() && !(it == z.end()), "zip:end", "a position before the end is the end"); auto old = it++; vm::ok(old == jt && &get<0>(*old) == &a[i] && &get<1>(*old) == &*ib, "zip:post", "post-increment does not return the old position"); vm::ok(it != jt, "zip:moved", "an incremented position equals the old one"); auto & ref = ++jt; vm::ok(&ref == &jt && jt == it, "zip:pre", "pre-increment does not move to the next position"); ++ib; } vm::ok(it == z.end() && !(it != z.end()), "zip:last", "the end is not reached"); }
    { std::array<int, 5> x, y; for (int i = 0; i < 5; ++i) x[i] = (int)r.range(-9, 9); auto lam = [](const int & p, int & q) { q = p * 3; }; u::simple_task(lam, x, y); bool w = true; for (int i = 0; i < 5; ++i) w &= y[i] == 3 * x[i]; vm::ok(w, "task:array", "a task is not applied to every element"); }
    { std::vector<std::array<int, 3>> seen; auto lam = [&](int & p, const double & q, long & s) { seen.push_back({ p, (int)q, (int)s }); s = p; p = -p; }; auto aa = a; auto cc = c; u::simple_task(lam, aa, b, cc); bool w = seen.size() == n; auto ib = b.begin(); for (size_t i = 0; w && i < n; ++i, ++ib) w = seen[i] == std::array<int, 3>{ a[i], (int)*ib, (int)c[i] } && aa[i] == -a[i] && cc[i] == a[i]; vm::ok(w, "task:order", "a task is not applied once per position in order"); }
    { int calls = 0; auto one = [&](int & p) { calls++; p++; }; auto aa = a; u::simple_task(one, aa); bool w = calls == (int)n; for (size_t i = 0; i < n; ++i) w &= aa[i] == a[i] + 1; vm::ok(w, "task:one", "a task over one container is wrong"); }
    vm::count("positions_visited", 8 * n); vm::distinct(vm::hmix(n, (uint64_t)(n ? a[0] : 0)));
  }
}
// the callable of a task is the one handed over, not a copy of it, and many containers are walked as few are
struct Counter { long calls = 0, sum = 0; int limit = -1; template <class... A> void operator()(A &... a) { if (calls == limit) throw std::runtime_error("enough"); calls++; int k = 0; ((sum += ++k * (long)a), ...); ((a = (std::decay_t<A>)(a + 1)), ...); } };
struct LogAll { std::vector<long> * log; template <class... X> void operator()(X &... x) { (log->push_back((long)x), ...); } };
static void many() {
  vm::Rng r = vm::rng("many");
  for (uint64_t k = 0; k < vm::n(300); ++k) {
    size_t n = r.below(r.chance(1, 8) ? 300 : 7); vm::case_("a task over up to twelve containers of %zu elements", n); std::vector<std::vector<int>> v(12); for (auto & x : v) x = make<std::vector<int>>(r, n); auto v0 = v; std::list<long> l(v[0].begin(), v[0].end()); std::deque<double> d(v[1].begin(), v[1].end());
    auto expect = [&](size_t m) { long s = 0; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) s += (long)(j + 1) * v0[j][i]; return s; };
    auto judge = [&](Counter & c, size_t m, const char * what) { vm::ok(c.calls == (long)n, "task:callable", std::string("the callable handed over is not the one called at every position: ") + what); vm::ok(c.sum == expect(m), "task:order", std::string("a task does not see the elements in order: ") + what); bool w = true; for (size_t j = 0; j < v.size(); ++j) for (size_t i = 0; i < n; ++i) w &= v[j][i] == v0[j][i] + (j < m ? 1 : 0); vm::ok(w, "task:writes", std::string("a task writes elsewhere: ") + what); v = v0; };
    { Counter c; u::simple_task(c, v[0]); judge(c, 1, "1"); } { Counter c; u::simple_task(c, v[0], v[1]); judge(c, 2, "2"); } { Counter c; u::simple_task(c, v[0], v[1], v[2], v[3], v[4]); judge(c, 5, "5"); } { Counter c; u::simple_task(c, v[0], v[1], v[2], v[3], v[4], v[5], v[6]); judge(c, 7, "7"); } { Counter c; u::simple_task(c, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]); judge(c, 9, "9"); } { Counter c; u::simple_task(c, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11]); judge(c, 12, "12"); }
    { Counter c; c.limit = (int)r.below(n + 2); bool threw = false; try { u::simple_task(c, v[0], l, d); } catch (const std::runtime_error &) { threw = true; } size_t done = std::min((size_t)c.limit, n); vm::ok(threw == ((size_t)c.limit < n) && c.calls == (long)done, "task:throws", "an exception out of a task does not end it"); bool w = true; auto il = l.begin(); for (size_t i = 0; i < n; ++i, ++il) { int add = i < done; w &= v[0][i] == v0[0][i] + add && *il == v0[0][i] + add && d[i] == v0[1][i] + add; } vm::ok(w, "task:throws", "positions beyond an exception are visited, or some before are not"); v = v0; }
    { size_t i = 0; for (auto t : u::zip(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9])) { vm::ok(i < n && &get<0>(t) == &v[0][i] && &get<1>(t) == &v[1][i] && &get<2>(t) == &v[2][i] && &get<3>(t) == &v[3][i] && &get<4>(t) == &v[4][i] && &get<5>(t) == &v[5][i] && &get<6>(t) == &v[6][i] && &get<7>(t) == &v[7][i] && &get<8>(t) == &v[8][i] && &get<9>(t) == &v[9][i], "zip:many", "ten containers are not visited together in order"); i++; } vm::ok(i == n, "zip:many", "ten containers: wrong number of visits"); }
    vm::count("positions_visited", 50 * n);
    { // tuples of a dozen elements
      int a[12]; for (int & x : a) x = (int)r.range(-1000000, 1000000); auto t = std::make_tuple(a[0], (long)a[1], (double)a[2], a[3], (long)a[4], (double)a[5], a[6], (long)a[7], (double)a[8], a[9], (long)a[10], (double)a[11]); std::vector<long> want(a, a + 12), log;
      u::tuple_for_each(t, [&](auto & x) { log.push_back((long)x); x = -x; }); vm::ok(log == want, "for_each:order", "a dozen elements are not visited once each in order"); vm::ok(get<0>(t) == -a[0] && get<11>(t) == -(double)a[11], "for_each:writes", "writes go elsewhere"); u::tuple_for_each(t, [&](auto & x) { x = -x; });
      LogAll f{ &log }; log.clear(); u::tuple_visit(f, t); vm::ok(log == want, "visit:order", "a dozen elements are not visited once each in order"); auto t2 = t; u::tuple_for_each(t2, [](auto & x) { x = x + 7; }); log.clear(); u::tuple_visit(f, t, t2); std::vector<long> both; for (int x : a) { both.push_back(x); both.push_back(x + 7); } vm::ok(log == both, "visit:two", "two tuples of a dozen are not visited in step");
      auto z = u::tuple_zip(t, t2); log.clear(); u::tuple_for_each(z, [&](auto & p) { log.push_back((long)get<0>(p)); log.push_back((long)get<1>(p)); }); vm::ok(log == both && std::tuple_size<decltype(z)>::value == 12, "tuple_zip", "tuples of a dozen are not paired element by element"); auto y = u::tuple_tie(t, t2); log.clear(); u::tuple_for_each(y, [&](auto & p) { log.push_back((long)get<0>(p)); log.push_back((long)get<1>(p)); }); vm::ok(log == both && &get<0>(get<0>(y)) == &get<0>(t) && &get<0>(get<9>(y)) == &get<9>(t) && &get<1>(get<11>(y)) == &get<11>(t2), "tuple_tie", "tied tuples of a dozen do not refer to the elements");
      std::vector<size_t> is, wi; u::static_for<70>([&](auto i) { is.push_back(i); }); for (size_t i = 0; i < 70; ++i) wi.push_back(i); vm::ok(is == wi, "static_for", "a static loop does not run 0..N-1 in order"); is.clear(); wi.clear(); u::static_for<300>([&](auto i) { is.push_back(i); }); for (size_t i = 0; i < 300; ++i) wi.push_back(i); vm::ok(is == wi, "static_for", "a long static loop does not run 0..N-1 in order");
      long long b[9]; double e[9]; for (int i = 0; i < 9; ++i) { b[i] = (long long)r.next(); e[i] = std::ldexp(((double)(int64_t)r.next() / 9.3e18), (int)r.range(-300, 300)); } auto ab = u::to_array(std::make_tuple(b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7], b[8])); vm::ok(std::equal(ab.begin(), ab.end(), b) && ab.size() == 9, "to_array", "an array made from a tuple of integers differs"); auto ae = u::to_array(std::make_tuple(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8])); vm::ok(std::equal(ae.begin(), ae.end(), e) && ae.size() == 9, "to_array", "an array made from a tuple of numbers differs"); auto m = u::make_array<double, 70>(e[0]); bool w = m.size() == 70; for (double x : m) w &= x == e[0]; vm::ok(w, "make_array", "an array of one value differs"); auto g = u::fill<40>::apply(b[1]); w = g.size() == 40; for (auto x : g) w &= x == b[1]; vm::ok(w, "fill", "a filled array differs");
      vm::count("tuples_walked", 12); vm::distinct(vm::hmix((uint64_t)(unsigned)a[0], (uint64_t)b[0])); }
  }
}
// containers of different length: refused, or walked up to the shortest, never beyond
static void mismatch() {
  vm::Rng r = vm::rng("mismatch");
  for (uint64_t k = 0; k < (vm::thorough() ? 120 : 24); ++k) {
    size_t n[3] = { (size_t)r.below(6), (size_t)r.below(6), (size_t)r.below(6) }; size_t m = std::min({ n[0], n[1], n[2] }); bool same = n[0] == n[1] && n[1] == n[2]; vm::case_("zip of %zu, %zu and %zu elements", n[0], n[1], n[2]);
    fflush(stdout); pid_t p = fork();
    if (p == 0) { if (!freopen("/dev/null", "w", stderr)) _exit(9); auto a = make<std::vector<int>>(r, n[0]); auto b = make<std::vector<int>>(r, n[1]); auto c = make<std::vector<int>>(r, n[2]); a.shrink_to_fit(); size_t i = 0, s = 0; for (auto t : u::zip(a, b, c)) { if (i > m + 2) break; s += get<0>(t) + get<1>(t) + get<2>(t); i++; } _exit(i == m ? 0 : 3); }
    int stt = 0; waitpid(p, &stt, 0); bool aborted = WIFSIGNALED(stt) && WTERMSIG(stt) == SIGABRT, fine = WIFEXITED(stt) && WEXITSTATUS(stt) == 0;
    vm::check(same ? fine : fine || aborted, "zip:mismatch", "zipping %zu, %zu and %zu elements goes beyond the shortest (status %d)", n[0], n[1], n[2], stt); vm::count(aborted ? "mismatches_refused" : "mismatches_stopped");
  }
}
struct Visitor { std::vector<long> * log; int n; template <class A> void operator()(const A & a) { log->push_back((long)a); n++; } template <class A, class B> void operator()(const A & a, B & b) { log->push_back((long)a); b = B(a); n++; } template <class A, class B, class C> void operator()(A & a, const B & b, const C & c) { log->push_back((long)b * 10 + (long)c); a = A(b + c); n++; } };
static void tuples() {
  vm::Rng r = vm::rng("tuples");
  for (uint64_t k = 0; k < vm::n(1500); ++k) {
    int a = (int)r.range(-99, 99); double b = (double)r.range(-99, 99); short c = (short)r.range(-99, 99); char d = (char)r.range(1, 99); long e = (long)r.range(-99, 99); vm::case_("tuple %d %g %d %d %ld", a, b, c, d, e);
    auto t = std::make_tuple(a, b, c, d, e); std::vector<long> want{ a, (long)b, c, d, e }, log;
    u::tuple_for_each(t, [&](auto & x) { log.push_back((long)x); x = x + 1; }); vm::ok(log == want, "for_each:order", "elements are not visited once each in order"); vm::ok(t == std::make_tuple(a + 1, b + 1, short(c + 1), char(d + 1), e + 1), "for_each:writes", "writes go elsewhere");
    log.clear(); const auto & ct = std::make_tuple(a, b); u::tuple_for_each(ct, [&](const auto & x) { log.push_back((long)x); }); vm::ok(log == std::vector<long>{ a, (long)b }, "for_each:const", "a constant tuple is visited wrongly");
    log.clear(); u::tuple_for_each(std::array<int, 3>{ a, c, d }, [&](auto && x) { log.push_back(x); }); vm::ok(log == std::vector<long>{ a, c, d }, "for_each:array", "an array is visited wrongly"); log.clear(); u::tuple_for_each(std::make_pair(a, b), [&](auto && x) { log.push_back((long)x); }); vm::ok(log == std::vector<long>{ a, (long)b }, "for_each:pair", "a pair is visited wrongly"); log.clear(); u::tuple_for_each(std::tuple<>(), [&](auto &&) { log.push_back(1); }); vm::ok(log.empty(), "for_each:empty", "an empty tuple is visited");
    { auto mv = std::make_tuple(std::make_unique<int>(a), std::make_unique<int>(c)); std::vector<std::unique_ptr<int>> got; u::tuple_for_each(std::move(mv), [&](auto && x) { got.push_back(std::forward<decltype(x)>(x)); }); vm::ok(got.size() == 2 && *got[0] == a && *got[1] == c && !get<0>(mv) && !get<1>(mv), "for_each:move", "elements of a temporary are not handed over"); }
    { log.clear(); auto v = u::tuple_visit(Visitor{ &log, 0 }, std::make_tuple(a, b, c, d, e)); vm::ok(log == want && v.n >= 0, "visit:order", "elements are not visited once each in order"); Visitor w{ &log, 0 }; log.clear(); Visitor & back = u::tuple_visit(w, std::make_tuple(a, b, c)); vm::ok(&back == &w && w.n == 3 && log == std::vector<long>{ a, (long)b, c }, "visit:functor", "the callable is not used and returned"); }
    { log.clear(); std::tuple<double, long, int> o; Visitor w{ &log, 0 }; u::tuple_visit(w, std::make_tuple(a, b, c), o); vm::ok(o == std::make_tuple((double)a, (long)b, (int)c) && log.size() == 3, "visit:two", "two tuples are not visited in step"); log.clear(); u::tuple_visit(w, o, std::make_tuple(1, 2, 3), std::make_tuple((int)d, (int)d, (int)d)); vm::ok(o == std::make_tuple(1. + d, 2l + d, 3 + d) && log == std::vector<long>{ 10l + d, 20l + d, 30l + d }, "visit:three", "three tuples are not visited in step"); }
    { auto t1 = std::make_tuple(a, b, c); auto t2 = std::make_tuple(d, e, std::string("s") + std::to_string(k)); auto z = u::tuple_zip(t1, t2); vm::ok(z == std::make_tuple(std::make_pair(a, d), std::make_pair(b, e), std::make_pair(c, get<2>(t2))), "tuple_zip", "tuples are not paired element by element");
      auto y = u::tuple_tie(t1, t2); vm::ok(&get<0>(get<0>(y)) == &get<0>(t1) && &get<1>(get<0>(y)) == &get<0>(t2) && &get<0>(get<1>(y)) == &get<1>(t1) && &get<1>(get<1>(y)) == &get<1>(t2) && &get<0>(get<2>(y)) == &get<2>(t1) && &get<1>(get<2>(y)) == &get<2>(t2), "tuple_tie", "tied tuples do not refer to the elements"); }
    { std::vector<size_t> is; u::static_for<7>([&](auto i) { is.push_back(i); }); vm::ok(is == std::vector<size_t>{ 0, 1, 2, 3, 4, 5, 6 }, "static_for", "a static loop does not run 0..N-1 in order"); is.clear(); u::static_for<0>([&](auto i) { is.push_back(i); }); u::static_for<1>([&](auto i) { is.push_back(i); }); vm::ok(is == std::vector<size_t>{ 0 }, "static_for:small", "a short static loop is wrong"); }
    { auto ar = u::to_array(std::make_tuple(a, a + 1, a + 2, (int)c)); vm::ok(ar == std::array<int, 4>{ a, a + 1, a + 2, c }, "to_array", "an array made from a tuple differs"); auto ma = u::make_array<double, 5>(b); vm::ok(ma == std::array<double, 5>{ b, b, b, b, b } && u::make_array<int, 0>(3).size() == 0, "make_array", "an array of one value differs"); auto f = u::fill<4>::apply(c); vm::ok(f == std::array<short, 4>{ c, c, c, c }, "fill", "a filled array differs"); }
    { int x = a; double y = b; auto q = u::ctie(x, y); get<0>(q) = c; y = e; vm::ok(x == c && get<1>(q) == (double)e && &get<1>(q) == &y, "ctie", "a constant tie does not refer to its arguments"); vm::ok(u::multiply(a, c, 3) == a * c * 3 && u::multiply(a) == a && u::multiply() == 1u, "multiply", "a product differs");
      vm::ok(u::plus(a, b) == a + b && u::minus(b, a) == b - a && u::multiplies(a, c) == a * c && u::divides(b, 2) == b / 2 && u::divides(a, (int)d) == a / (int)d && u::plus(std::string("x"), "y") == "xy", "functional", "an operation of two types differs"); int lv = a; vm::ok(&u::as_lvalue(lv) == &lv && u::as_lvalue(a + 1) == a + 1, "as_lvalue", "as_lvalue differs"); }
    vm::count("tuples_walked", 14); vm::distinct(vm::hmix(vm::hmix((uint64_t)(unsigned)a, (uint64_t)(unsigned short)c), (uint64_t)e));
  }
}
static void filters() {
  vm::Rng r = vm::rng("filters");
  for (uint64_t k = 0; k < vm::n(1500); ++k) {
    size_t n = r.chance(1, 12) ? r.range(60, 700) : r.below(15); std::vector<int> v = make<std::vector<int>>(r, n); int mod = n > 20 ? (int)r.range(20, 900) : (int)r.range(1, 4); vm::case_("filter of %zu elements, every %d", n, mod); auto pred = [mod](int x) { return x % mod == 0; };
    std::vector<int> want, got; for (int x : v) if (pred(x)) want.push_back(x);
    auto it = u::make_filter_iterator(v.begin(), v.end(), pred), end = u::make_filter_iterator(v.end(), v.end(), pred); std::vector<int *> addr; for (; it != end; ++it) { got.push_back(*it); addr.push_back(it.operator->()); if (got.size() > n) break; }
    vm::ok(got == want, "filter", "a filter does not visit exactly the accepted elements in order"); vm::ok(it == end, "filter:end", "the end is not reached"); bool in = true; for (int * p : addr) in &= p >= v.data() && p < v.data() + n; vm::ok(in, "filter:refer", "a filter refers elsewhere");
    std::list<int> l(v.begin(), v.end()); auto p = u::make_filter_iterator(l.cbegin(), l.cend(), pred), pe = u::make_filter_iterator(l.cend(), l.cend(), pred); got.clear(); while (p != pe && got.size() <= n) { auto o = p++; got.push_back(*o); } vm::ok(got == want, "filter:post", "post-increment visits other elements"); 
    { // copies, swaps and the conversion to a filter over constant elements carry the position with them
      auto a = u::make_filter_iterator(v.begin(), v.end(), pred), b = u::make_filter_iterator(v.end(), v.end(), pred), c = a; size_t k = want.empty() ? 0 : r.below(want.size() + 1); for (size_t i = 0; i < k; ++i) ++c; vm::ok((size_t)std::distance(a, c) == k && (size_t)std::distance(c, b) == want.size() - k, "filter:copy", "a copy of a filter iterator does not advance on its own");
      auto walk = [&](auto from, auto to) { std::vector<int> w; for (; from != to && w.size() <= n + 40; ++from) w.push_back(*from); return w; }; auto x = c, y = a; x.swap(y); vm::ok(x == a && y == c && walk(x, b) == want && walk(y, b) == std::vector<int>(want.begin() + k, want.end()), "filter:swap", "swapped filter iterators do not exchange their positions");
      std::vector<int> o = make<std::vector<int>>(r, r.below(15)), wo; for (int e : o) if (pred(e)) wo.push_back(e); auto z = u::make_filter_iterator(o.begin(), o.end(), pred), ze = u::make_filter_iterator(o.end(), o.end(), pred); auto s = c; s.swap(z); vm::ok(walk(s, ze) == wo && walk(z, b) == std::vector<int>(want.begin() + k, want.end()), "filter:swap", "iterators over two ranges, swapped, do not exchange the ranges");
      u::filter_iterator<decltype(pred), std::vector<int>::const_iterator> q(c), qe(b); vm::ok(walk(q, qe) == std::vector<int>(want.begin() + k, want.end()), "filter:convert", "the filter over constant elements differs from the one it was made of");
    }
    vm::count("filtered", n); vm::distinct(vm::hmix(n, (uint64_t)mod + (n ? (uint64_t)(unsigned)v[0] : 0)));
  }
}
static void sets() {
  vm::Rng r = vm::rng("sets");
  for (uint64_t k = 0; k < vm::n(1500); ++k) {
    auto gen = [&] { std::vector<int> v(r.below(r.chance(1, 8) ? 200 : 12)); int w = (int)r.range(1, 30); for (auto & x : v) x = (int)r.range(-w, w); return v; };
    auto a = gen(), b = gen(); auto a0 = a, b0 = b; vm::case_("intersection of %zu and %zu", a.size(), b.size()); std::multiset<int> ma(a.begin(), a.end()), mb(b.begin(), b.end()); std::vector<int> want; for (int x : std::set<int>(a.begin(), a.end())) for (size_t i = 0; i < std::min(ma.count(x), mb.count(x)); ++i) want.push_back(x);
    std::vector<int> got; u::unsorted_set_intersection(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(got)); vm::ok(got == want, "intersection", "the intersection is not the common elements in order"); vm::ok(a == a0 && b == b0, "intersection:inputs", "the inputs are changed");
    std::vector<int> out(a.size() + b.size() + 1, 12345); std::list<long> lb(b.begin(), b.end()); auto e = u::unsorted_set_intersection(a.begin(), a.end(), lb.begin(), lb.end(), out.begin()); vm::ok((size_t)(e - out.begin()) == want.size() && std::equal(want.begin(), want.end(), out.begin()) && out[want.size()] == 12345, "intersection:end", "the returned position is not past the last common element");
    std::sort(a.begin(), a.end()); std::set<int> sa(a.begin(), a.end()); std::list<int> la(a.begin(), a.end()); u::remove_duplicates(a); u::remove_duplicates(la); vm::ok(a == std::vector<int>(sa.begin(), sa.end()) && std::equal(la.begin(), la.end(), a.begin()) && la.size() == a.size(), "duplicates", "removing duplicates of a sorted sequence does not leave each value once"); vm::count("sets_intersected", 2); vm::distinct(vm::hmix(a0.size(), vm::hmix(b0.size(), want.size())));
  }
}
int main(int argc, char ** argv) {
  vm::init(argc, argv);
  if (vm::section("zips")) zips(); if (vm::section("many")) many(); if (vm::section("mismatch")) mismatch(); if (vm::section("tuples")) tuples(); if (vm::section("filters")) filters(); if (vm::section("sets")) sets();
  return vm::finish();
}
