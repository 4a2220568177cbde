// D01: assertions, errors and where they say they are
#include "vmon.h"
#include <functional>
#include <iostream>
#include <sstream>
#include "ristra/assertions/errors.h"
namespace mode_throw { void run(); } namespace mode_notify { void run(); } namespace mode_quiet { void run(); } namespace mode_off { void run(); }
namespace as = ristra::assertions;

struct Redirect { std::ostream & s; std::ostringstream os; std::streambuf * old; explicit Redirect(std::ostream & t) : s(t), old(t.rdbuf(os.rdbuf())) {} ~Redirect() { s.rdbuf(old); } };

template <class E> void raises(const char * what, const std::function<int()> & f, std::initializer_list<std::string> said, const std::string & in_what) {
  vm::case_("%s", what); Redirect c(std::cerr); int line = 0; bool right = false, any = false; std::string w;
  extern int g_line; try { f(); } catch (const E & e) { right = any = true; w = e.what(); } catch (...) { any = true; } line = g_line;
  std::string out = c.os.str(); std::string K = std::string("errors:") + what;
  vm::ok(any, K + ":thrown", "nothing is thrown"); vm::ok(right, K + ":type", "an exception of another type is thrown");
  vm::ok(out.find(__FILE__) != std::string::npos && out.find("L" + std::to_string(line)) != std::string::npos, K + ":where", "the report does not name the file and line: " + out);
  for (auto & s : said) vm::ok(out.find(s) != std::string::npos, K + ":said", "the report lacks '" + s + "': " + out);
  vm::ok(w.find(in_what) != std::string::npos, K + ":what", "the exception does not say '" + in_what + "': " + w); vm::count("errors_raised"); vm::distinct(vm::hstr(out));
}
int g_line;
static void errors() {
  vm::Rng r = vm::rng("errors");
  for (uint64_t k = 0; k < vm::n(300); ++k) {
    int v = (int)r.next(); std::string s = std::to_string(v), fn = "file" + s;
    raises<as::ExceptionRunTime>("THROW_RUNTIME_ERROR", [&]() -> int { g_line = __LINE__; THROW_RUNTIME_ERROR("value " << v << "!"); }, { "value " + s + "!" }, "");
    raises<std::runtime_error>("THROW_RUNTIME_ERROR", [&]() -> int { g_line = __LINE__; THROW_RUNTIME_ERROR("v " << v); }, { "v " + s }, "");
    raises<as::ExceptionLogic>("THROW_LOGIC_ERROR", [&]() -> int { g_line = __LINE__; THROW_LOGIC_ERROR("value " << v << "!"); }, { "value " + s + "!" }, "");
    raises<std::logic_error>("THROW_LOGIC_ERROR", [&]() -> int { g_line = __LINE__; THROW_LOGIC_ERROR("v " << v); }, { "v " + s }, "");
    raises<as::ExceptionNotImplemented>("THROW_IMPLEMENTED_ERROR", [&]() -> int { g_line = __LINE__; THROW_IMPLEMENTED_ERROR("value " << v << "!"); }, { "value " + s + "!" }, "");
    raises<as::ExceptionFileError>("THROW_FILE_ERROR", [&]() -> int { g_line = __LINE__; THROW_FILE_ERROR(fn); }, {}, fn);
    raises<as::ExceptionRunTime>("assert_true", [&]() -> int { g_line = __LINE__; assert_true(v == v + 1 - 0 * v && false, "because " << v); return 0; }, { "because " + s }, "");
    vm::case_("assert_true that holds"); { Redirect c(std::cerr); int n = 0; bool t = false; try { assert_true((++n, true), "no"); } catch (...) { t = true; } vm::ok(!t && n == 1 && c.os.str().empty(), "errors:assert_true:holds", "an assertion that holds is not silent, or is evaluated again"); }
    for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) { vm::case_("if (%d) assert_true(%d) else", a, b); Redirect c(std::cerr); bool other = false, t = false;
      try { if (a) assert_true(b, "x"); else other = true; } catch (...) { t = true; } vm::ok(other == !a && t == (a && !b), "errors:assert_true:else", "an else after assert_true is taken for another if"); vm::count("else_branches"); }
    { Redirect o(std::cout), c(std::cerr); vm::case_("short_warning"); short_warning("careful " << v); vm::ok(o.os.str().find("careful " + s) != std::string::npos && c.os.str().empty(), "errors:warning", "a warning is not shown"); }
    { int line = __LINE__; std::string h = HERE_STR("msg" + s); vm::ok(h.find(__FILE__) != std::string::npos && h.find("errors") != std::string::npos && h.find(std::to_string(line)) != std::string::npos && h.find("msg" + s) != std::string::npos, "here:string", "HERE_STR does not name its place: " + h); }
    { std::string odd; for (size_t n = r.below(300); n-- > 0;) odd += r.chance(1, 9) ? '%' : (char)r.range(32, 126); vm::case_("odd texts"); raises<as::ExceptionRunTime>("THROW_RUNTIME_ERROR", [&]() -> int { g_line = __LINE__; THROW_RUNTIME_ERROR(odd); }, { odd }, ""); raises<as::ExceptionFileError>("THROW_FILE_ERROR", [&]() -> int { g_line = __LINE__; THROW_FILE_ERROR(odd); }, {}, odd); raises<as::ExceptionLogic>("THROW_LOGIC_ERROR", [&]() -> int { g_line = __LINE__; THROW_LOGIC_ERROR(odd << 1 << odd); }, { odd + "1" + odd }, "");
      raises<as::ExceptionRunTime>("assert_true", [&]() -> int { g_line = __LINE__; assert_true(0, odd); return 0; }, { odd }, ""); std::string h = HERE_STR(odd); vm::ok(h.size() > odd.size() && h.compare(h.size() - odd.size(), odd.size(), odd) == 0, "here:odd", "HERE_STR changes its message");
      void * nul = nullptr; int two = 2; vm::case_("conditions of other types"); for (int z = 0; z < 3; ++z) { Redirect c(std::cerr); bool t = false; try { if (z == 0) assert_true(nul, "p"); else if (z == 1) assert_true(two, "i"); else assert_true(two & 1, "and"); } catch (const as::ExceptionRunTime &) { t = true; } vm::ok(t == (z != 1), "errors:assert_true:kinds", "assert_true misjudges a condition that is not a bool"); }
      vm::case_("assert_true while an exception passes"); struct P { bool & t; ~P() { Redirect c(std::cerr); try { assert_true(false, "p"); } catch (const as::ExceptionRunTime &) { t = true; } catch (...) {} } }; bool pt = false; try { P p{ pt }; throw 1; } catch (int) {} vm::ok(pt, "errors:passing", "assert_true does not throw while an exception passes"); }
    { std::ostringstream os; int line = __LINE__; os << RISTRA_HERE; vm::ok(os.str().find(__FILE__) != std::string::npos && os.str().find("errors") != std::string::npos && os.str().find("L" + std::to_string(line)) != std::string::npos, "here:stream", "RISTRA_HERE does not name its place"); }
  }
  bool ok = true; try { throw as::ExceptionConvergenceFailure(); } catch (const std::runtime_error &) {} catch (...) { ok = false; } try { throw as::ExceptionFloatingPoint(); } catch (const std::runtime_error &) {} catch (...) { ok = false; }
  vm::ok(ok, "errors:types", "an exception is not a runtime error");
}
int main(int argc, char ** argv) {
  vm::init(argc, argv);
  if (vm::section("throw")) mode_throw::run(); if (vm::section("notify")) mode_notify::run(); if (vm::section("quiet")) mode_quiet::run(); if (vm::section("off")) mode_off::run();
  if (vm::section("errors")) errors();
  return vm::finish();
}
