// One translation unit per assertion mode (see dbc_throw.cc, dbc_notify.cc, dbc_quiet.cc, dbc_off.cc), all linked into one program.
#include "vmon.h"
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <thread>
#include <utility>
#include <vector>
#include "ristra/assertions/dbc.h"

namespace VNS {
namespace dbc = ristra::assertions::dbc;
enum { kind_throw = 1, kind_notify, kind_quiet, kind_off };
static const bool on = KIND != kind_off;

struct Got { bool threw = false, other = false, ret = false; std::string what, noted; };
struct Stream { std::ostringstream os; std::ostream * old; Stream() : old(dbc::p_str) { dbc::p_str = &os; } ~Stream() { dbc::p_str = old; } };

template <class T> std::string str(const T & x) { std::ostringstream o; o << x; return o.str(); }

// what must be observed when the condition `cond` was asserted at `line` in function check_ with text containing each of `parts`
static void judge(const char * what, bool returns, bool cond, const Got & g, int line, std::initializer_list<std::string> parts) {
  std::string K = std::string(MODENAME) + ":" + what;
  vm::ok(!g.other, K + ":type", "a failed assertion throws something that is not a std::logic_error");
  bool act = !cond && (on || std::string(what) == "Insist");
  // with the assertions compiled out the Insist of this file keeps its action, which is to throw
  bool wants_throw = act && (KIND == kind_throw || KIND == kind_off), wants_note = act && KIND == kind_notify;
  vm::ok(g.threw == wants_throw, K + ":throws", cond ? "an assertion that holds throws" : g.threw ? "an assertion throws though its action is another" : "a failed assertion does not throw");
  vm::ok(g.noted.empty() == !wants_note, K + ":notes", cond ? "an assertion that holds is reported" : wants_note ? "a failed assertion is not reported" : "an assertion is reported though its action is another");
  const std::string & m = wants_throw ? g.what : g.noted;
  if (act && KIND != kind_quiet) {
    std::string file = __FILE__; size_t p = m.find(file + ":" + std::to_string(line) + ":");
    vm::ok(p != std::string::npos, K + ":where", "the message does not name the file and line: " + m);
    vm::ok(m.find("check_") != std::string::npos, K + ":function", "the message does not name the function: " + m);
    for (auto & s : parts) vm::ok(m.find(s) != std::string::npos, K + ":text", "the message lacks '" + s + "': " + m);
    if (wants_note) { size_t nl = 0; for (char c : m) nl += c == '\n'; vm::ok(nl == 1 && m.back() == '\n', K + ":once", "a failure is not reported as one line: " + m); }
    vm::count(wants_throw ? "failures_thrown" : "failures_noted");
  } else vm::count(cond ? "conditions_held" : "failures_ignored");
  if (returns && !g.threw) vm::ok(g.ret == cond, K + ":value", "the value of the assertion is not the condition's");
}
#define TRY(expr_stmt) Got g; int line = 0; { Stream s_; try { expr_stmt } catch (const std::logic_error & e) { g.threw = true; g.what = e.what(); } catch (...) { g.threw = g.other = true; } g.noted = s_.os.str(); }

static int evals;
template <class T> const T & see(const T & x) { evals++; return x; }

template <class T> void check_(const char * type, T a, T b, T c) {
  vm::case_s(std::string(MODENAME) + " " + type + " " + str(a) + " " + str(b) + " " + str(c));
  auto once = [&](const char * w, int n) { if (on) vm::check(evals == n, "once", "%s in mode %s evaluates its arguments %d times instead of %d", w, MODENAME, evals, n); evals = 0; };
  { bool cond = a == b; TRY(line = __LINE__; g.ret = Equal(see(a), see(b));) once("Equal", 2); judge("Equal", true, cond, g, line, { "see(a)", "see(b)", "!=" }); }
  { bool cond = a != b; TRY(line = __LINE__; g.ret = NotEqual(see(a), see(b));) once("NotEqual", 2); judge("NotEqual", true, cond, g, line, { "see(a)", "see(b)" }); }
  { bool cond = a > b && a < c; TRY(line = __LINE__; g.ret = InOpenRange(see(a), see(b), see(c));) once("InOpenRange", 3); judge("InOpenRange", true, cond, g, line, { "see(a)", str(a), str(b), str(c) }); }
  { bool cond = a > b; TRY(line = __LINE__; g.ret = GreaterThan(see(a), see(b));) once("GreaterThan", 2); judge("GreaterThan", true, cond, g, line, { "see(a)", str(a), str(b) }); }
  { bool cond = a >= b; TRY(line = __LINE__; g.ret = GreaterEqual(see(a), see(b));) once("GreaterEqual", 2); judge("GreaterEqual", true, cond, g, line, { "see(a)", str(a), str(b) }); }
  { bool cond = a < b; TRY(line = __LINE__; g.ret = LessThan(see(a), see(b));) once("LessThan", 2); judge("LessThan", true, cond, g, line, { "see(a)", str(a), str(b) }); }
  { std::set<T> s{ b, c }; bool cond = s.count(a) != 0; TRY(line = __LINE__; g.ret = OneOf(see(a), s);) once("OneOf", 1); judge("OneOf", on, cond, g, line, { "see(a)" }); }
  std::string text = "text for " + str(a);
  { bool cond = a < b; TRY(line = __LINE__; Insist(see(a) < see(b), text)) vm::ok(evals == 2, "once", "Insist does not evaluate its condition exactly once"); evals = 0; judge("Insist", false, cond, g, line, { text }); }
#define STMT(M) { bool cond = a < c; TRY(line = __LINE__; M(see(a) < see(c), text)) vm::check(evals == (on ? 2 : 0), "once", "%s in mode %s evaluates its condition %d times", #M, MODENAME, evals / 2); evals = 0; judge(#M, false, cond, g, line, { text }); }
  STMT(Require) STMT(Check) STMT(Ensure)
  vm::count("assertions", 11); vm::distinct(vm::hstr(std::string(type) + str(a) + "," + str(b) + "," + str(c) + MODENAME));
}

// operands that are not ordered: a comparison and its opposite are both false
static void check_nan(double a, double b, double c) {
  vm::case_s(std::string(MODENAME) + " unordered " + str(a) + " " + str(b) + " " + str(c)); evals = 0;
  { bool cond = a == b; TRY(line = __LINE__; g.ret = Equal(a, b);) judge("Equal", true, cond, g, line, { "a != b" }); }
  { bool cond = a == a; TRY(line = __LINE__; g.ret = Equal(a, a);) judge("Equal", true, cond, g, line, { "a != a" }); }
  { bool cond = a != a; TRY(line = __LINE__; g.ret = NotEqual(a, a);) judge("NotEqual", true, cond, g, line, {}); }
  { bool cond = a != b; TRY(line = __LINE__; g.ret = NotEqual(a, b);) judge("NotEqual", true, cond, g, line, {}); }
  { bool cond = a > b && a < c; TRY(line = __LINE__; g.ret = InOpenRange(a, b, c);) judge("InOpenRange", true, cond, g, line, { str(a), str(b), str(c) }); }
  { bool cond = a > b; TRY(line = __LINE__; g.ret = GreaterThan(a, b);) judge("GreaterThan", true, cond, g, line, { str(a), str(b) }); }
  { bool cond = a >= b; TRY(line = __LINE__; g.ret = GreaterEqual(a, b);) judge("GreaterEqual", true, cond, g, line, { str(a), str(b) }); }
  { bool cond = a < b; TRY(line = __LINE__; g.ret = LessThan(a, b);) judge("LessThan", true, cond, g, line, { str(a), str(b) }); }
  vm::count("assertions", 6); vm::count("unordered_operands");
}
// collections other than a set, with the element present any number of times
template <class C> static void check_one(const char * what, const C & c, int x, bool in) {
  vm::case_("%s: OneOf a %s, %d", MODENAME, what, x); TRY(line = __LINE__; g.ret = OneOf(x, c);) judge("OneOf", on, in, g, line, { "x not in set" }); vm::count("collections"); }
struct Both { int e, n; }; // each operator says what it was told to
static bool operator==(const Both & a, const Both & b) { return a.e & b.e & 1; }
static bool operator!=(const Both & a, const Both & b) { return a.n & b.n & 1; }
static bool operator<(const Both & a, const Both & b) { return a.e & b.e & 2; }
static bool operator>(const Both & a, const Both & b) { return a.e & b.e & 4; }
static bool operator<=(const Both & a, const Both & b) { return a.n & b.n & 2; }
static bool operator>=(const Both & a, const Both & b) { return a.n & b.n & 4; }
static std::ostream & operator<<(std::ostream & o, const Both & b) { return o << "both" << b.e << "/" << b.n; }
static void check_both(Both a, Both b) {
  vm::case_("%s: operators of their own %d %d %d %d", MODENAME, a.e, a.n, b.e, b.n);
  { bool cond = a == b; TRY(line = __LINE__; g.ret = Equal(a, b);) judge("Equal", true, cond, g, line, { "a != b" }); }
  { bool cond = a != b; TRY(line = __LINE__; g.ret = NotEqual(a, b);) judge("NotEqual", true, cond, g, line, {}); }
  { bool cond = a > b; TRY(line = __LINE__; g.ret = GreaterThan(a, b);) judge("GreaterThan", true, cond, g, line, { str(a), str(b) }); }
  { bool cond = a >= b; TRY(line = __LINE__; g.ret = GreaterEqual(a, b);) judge("GreaterEqual", true, cond, g, line, { str(a), str(b) }); }
  { bool cond = a < b; TRY(line = __LINE__; g.ret = LessThan(a, b);) judge("LessThan", true, cond, g, line, { str(a), str(b) }); } vm::count("assertions", 5); }
// texts of every length and content, reported in full
static void check_text(const std::string & t, bool cond) {
  vm::case_("%s: a text of %zu characters", MODENAME, t.size()); std::string K = std::string(MODENAME) + ":long"; TRY(line = __LINE__; Insist(cond, t)) bool act = !cond;
  vm::ok(g.threw == (act && (KIND == kind_throw || KIND == kind_off)) && g.noted.empty() == !(act && KIND == kind_notify), K + ":acts", "an assertion with this text does not take its action");
  const std::string & m = g.threw ? g.what : g.noted; if (g.threw || !g.noted.empty()) vm::ok(m.find(t.substr(0, t.find('\0'))) != std::string::npos, K + ":text", "the message does not hold its text in full"); vm::count("texts"); }
// an assertion reached while an exception passes through, and in a handler
struct Passing { Got & g; int & line; bool cond; ~Passing() { Stream s_; try { line = __LINE__; Insist(cond, "passing"); } catch (const std::logic_error & e) { g.threw = true; g.what = e.what(); } catch (...) { g.other = true; } g.noted = s_.os.str(); } };
static void check_passing(bool cond, int how) {
  vm::case_("%s: an assertion %s", MODENAME, how ? "in a handler" : "while an exception passes"); Got g; int line = 0;
  try { try { if (!how) { Passing p{ g, line, cond }; throw 1; } throw 2; } catch (int) { if (how) { Passing p{ g, line, cond }; } throw; } } catch (int) {}
  bool act = !cond; vm::ok(!g.other && g.threw == (act && (KIND == kind_throw || KIND == kind_off)) && g.noted.empty() == !(act && KIND == kind_notify), std::string(MODENAME) + ":passing", "an assertion behaves differently while an exception is under way"); vm::count("passing_exceptions"); }
static void many_lines_check_();

static double rd(vm::Rng & r) { switch (r.below(6)) { case 0: return std::numeric_limits<double>::infinity(); case 1: return std::nan(""); case 2: return -0.0; default: return (double)r.range(-3, 3); } }
static long long rl(vm::Rng & r) { switch (r.below(5)) { case 0: return std::numeric_limits<long long>::max(); case 1: return std::numeric_limits<long long>::min(); default: return r.range(-3, 3); } }

void run() {
  vm::Rng r = vm::rng(MODENAME);
  for (uint64_t k = 0; k < vm::n(400); ++k) {
    check_<int>("int", (int)r.range(-2, 2), (int)r.range(-2, 2), (int)r.range(-2, 2));
    check_<long long>("long long", rl(r), rl(r), rl(r));
    { double a = rd(r), b = rd(r), c = rd(r); if (std::isnan(b)) b = 1; if (std::isnan(c)) c = 2; check_<double>("double", a, b, c); } // a set of NaNs is not ordered
    check_<unsigned char>("unsigned char", (unsigned char)('a' + r.below(4)), (unsigned char)('a' + r.below(4)), (unsigned char)('a' + r.below(4)));
    auto s = [&] { return std::string(r.below(3), (char)('x' + r.below(2))); }; check_<std::string>("string", s(), s(), s());
  }
  const double nan = std::nan(""), inf = std::numeric_limits<double>::infinity(); const double odd[] = { nan, -nan, inf, -inf, 0.0, -0.0, 1.0, -1.0 };
  for (double a : odd) for (double b : odd) for (double c : odd) check_nan(a, b, c);
  for (uint64_t k = 0; k < vm::n(60); ++k) { std::multiset<int> m; std::map<int, int> mm; std::multimap<int, int> mu; std::set<int> empty; for (int i = (int)r.below(8); i-- > 0;) { int x = (int)r.below(4); m.insert(x); mm[x] = 1; mu.emplace(x, i); }
    for (int x = 0; x < 4; ++x) { check_one("multiset", m, x, m.count(x) > 0); check_one("map", mm, x, mm.count(x) > 0); check_one("multimap", mu, x, mu.count(x) > 0); check_one("empty set", empty, x, false); }
    check_both({ (int)r.below(8), (int)r.below(8) }, { (int)r.below(8), (int)r.below(8) });
    std::string t; for (size_t n = r.chance(1, 4) ? (size_t)r.range(0, 5000) : (size_t)r.below(40); n-- > 0;) t += r.chance(1, 9) ? '%' : r.chance(1, 9) ? '\'' : (char)r.range(32, 126); check_text(t, r.chance(1, 4));
    check_passing(r.chance(1, 3), (int)r.below(2)); }
  check_text("", false); check_text("", true); check_text("%s%s%n %d", false);
  many_lines_check_();
  // a great many failures at one place, each acted on
  { vm::case_("%s: a thousand failures at one place", MODENAME); size_t threw = 0, lines = 0; { Stream s_; for (int i = 0; i < 1000; ++i) try { Insist(i < 0, "again"); } catch (const std::logic_error &) { threw++; } for (char c : s_.os.str()) lines += c == '\n'; }
    vm::check(threw == (KIND == kind_throw || KIND == kind_off ? 1000u : 0u) && lines == (KIND == kind_notify ? 1000u : 0u), (std::string(MODENAME) + ":again").c_str(), "of 1000 failures at one place %zu are thrown and %zu reported", threw, lines); vm::count("repeated_failures", 1000); }
  // threads that assert at the same time; those that throw or do nothing share no stream
  if (KIND != kind_notify) { vm::case_("%s: threads", MODENAME); std::vector<std::thread> th; std::vector<int> bad(4, 0); for (int t = 0; t < 4; ++t) th.emplace_back([t, &bad] { for (int i = 0; i < 500; ++i) { bool cond = (i + t) % 3 != 0, threw = false; std::string m; try { Insist(cond, "thread " + std::to_string(t * 1000 + i)); } catch (const std::logic_error & e) { threw = true; m = e.what(); } bad[t] += threw != (!cond && KIND != kind_quiet) || (threw && m.find("'thread " + std::to_string(t * 1000 + i) + "'") == std::string::npos); } }); for (auto & t : th) t.join();
    for (int b : bad) vm::ok(b == 0, std::string(MODENAME) + ":threads", "an assertion in one thread is affected by those in others"); vm::count("thread_assertions", 2000); }
  // a stream with formatting of its own
  if (KIND == kind_notify) { vm::case_("a report stream that prints in hexadecimal, with a width"); Stream s_; s_.os << std::hex << std::showbase; int line = __LINE__; Insist(false, "hex"); vm::ok(s_.os.str().find(":" + std::to_string(line) + ":") != std::string::npos, "notify:hex", "the line number follows the format of the report stream"); }
  // the action of this file can be replaced, here only
  std::vector<std::string> seen; auto old = dbc::dbc_action; int line = 0;
  dbc::dbc_action = [&](std::string const & c, const char * f, const char * fn, int l) { seen.push_back(c + "|" + std::to_string(l)); vm::ok(std::string(f) == __FILE__ && std::string(fn) == "run", std::string(MODENAME) + ":action:args", "an action is given another file or function"); };
  vm::case_("%s: replaced action", MODENAME);
  line = __LINE__; Insist(1 < 0, "one"); Insist(0 < 1, "two");
  vm::ok(seen.size() == 1 && seen[0] == "one|" + std::to_string(line), std::string(MODENAME) + ":action:insist", "a replaced action is not the one called");
  if (on) { seen.clear(); int i = 3, j = 4; line = __LINE__; bool e = Equal(i, j); bool f = LessThan(j, i); bool h = GreaterThan(j, i);
    vm::ok(seen.size() == 2 && !e && !f && h && seen[0].find("|" + std::to_string(line)) != std::string::npos, std::string(MODENAME) + ":action:compare", "comparison assertions do not call this file's action"); }
  dbc::dbc_action = old; vm::count("actions_replaced");
}
static void many_lines_check_() {
  Got g; std::string f; // far down a generated file
  { Stream s_; try {
#line 2000000001 "some generated/file name.i"
    Insist(false, "far down");
#line 1000 "dbc.inc"
  } catch (const std::logic_error & e) { g.threw = true; g.what = e.what(); } g.noted = s_.os.str(); }
  if (on) { Got h; { Stream s_; int one = 1, two = 2; try {
#line 1999999999 "some generated/file name.i"
    h.ret = LessThan(two, one);
#line 1000 "dbc.inc"
    } catch (const std::logic_error & e) { h.threw = true; h.what = e.what(); } h.noted = s_.os.str(); }
    const std::string & m = h.threw ? h.what : h.noted; vm::case_("%s: line 1999999999", MODENAME); vm::ok(KIND != kind_quiet ? m.find("some generated/file name.i:1999999999:many_lines_check_") != std::string::npos : m.empty(), std::string(MODENAME) + ":far", "the message does not name its place: " + m); }
  { Stream s_; try { if (false) throw std::logic_error("");
  } catch (const std::logic_error &) {} }
  vm::case_("%s: line 2000000001", MODENAME);
  const std::string & m = g.threw ? g.what : g.noted; bool act = KIND != kind_quiet;
  vm::ok(act ? m.find("some generated/file name.i:2000000001:many_lines_check_") != std::string::npos : m.empty(), std::string(MODENAME) + ":far", "the message does not name its place: " + m); vm::count("far_lines");
}
} // namespace
