// L02: whatever a script or a lookup does, an error comes out as an exception and the state stays usable
#include "lua_common.h"
#include <fstream>

static int refs(lua_State * s) { return (int)lua_rawlen(s, LUA_REGISTRYINDEX); }

struct Session {
  lua_t l; vm::Rng r; std::vector<std::pair<lua_result_t, int>> held; int sentinels = 0; std::string dir;
  Session(vm::Rng r_, const std::string & d) : r(r_), dir(d) {
    l.run_string("canary = 41 function ok(x) canary = x return x + 1 end tab = {a = 1, 7, 8, sub = {z = 5}} function pair() return 1, 'two' end "
      "function none() end function nilret() return nil end function lastnil() return 1, nil end function fail(how) "
      "if how == 1 then error('boom') elseif how == 2 then error({code = 3}) elseif how == 3 then error(nil) elseif how == 4 then local x = nil; return x.y "
      "elseif how == 5 then return fail(5) + 1 elseif how == 6 then error(setmetatable({}, {__tostring = function() error('nested') end})) "
      "elseif how == 7 then return #nil elseif how == 8 then string.rep('x', -1, 3):bad() elseif how == 9 then return setmetatable({}, {__call = function() error('c') end})() end end "
      "mode = 0 function moded(...) if mode == 0 then return 77 end return fail(mode) end lib = {moded = moded, deep = {moded = moded}} list = {0, moded} function maker() return function(...) return moded(...) end end "
      "meta = setmetatable({}, {__index = function(t, k) error('no ' .. k) end, __len = function() error('len') end})");
    // values a caller keeps on the raw stack itself
    sentinels = (int)r.below(4);
    for (int i = 0; i < sentinels; ++i) lua_pushinteger(l.state(), 1000 + i);
  }
  void stack(const char * what) {
    vm::check(lua_gettop(l.state()) == sentinels, "stack:height", "after %s the stack holds %d values instead of %d", what, lua_gettop(l.state()), sentinels);
    for (int i = 0; i < sentinels; ++i)
      vm::check(lua_tointeger(l.state(), i + 1) == 1000 + i, "stack:contents", "after %s the caller's own stack values changed", what);
    if (lua_gettop(l.state()) != sentinels) { lua_settop(l.state(), 0); for (int i = 0; i < sentinels; ++i) lua_pushinteger(l.state(), 1000 + i); }
  }
  void usable(const char * what) {
    int x = (int)r.range(0, 1000000);
    try {
      vm::check(l["ok"](x).as<int>() == x + 1 && l["canary"].as<int>() == x, "state:usable", "after %s the state computes something else", what);
      vm::check(l["tab"]["sub"]["z"].as<int>() == 5 && l["tab"][2].as<int>() == 8, "state:tables", "after %s tables read differently", what);
      for (auto & h : held) vm::check(h.first.as<int>() == h.second, "state:held", "after %s a held value changed", what);
    } catch (const std::exception & e) { vm::check(false, "state:usable", "after %s the state raises %s", what, e.what()); }
    stack("using the state");
  }
  // run f; it must throw a std::exception (and nothing else) and leave the state alone
  template <class F> void fails(const char * what, F && f) {
    vm::case_("%s, %d caller values on the stack, %zu held results", what, sentinels, held.size());
    bool threw = false, other = false;
    try { f(); } catch (const std::exception &) { threw = true; } catch (...) { other = true; }
    vm::check(threw && !other, "error:reported", "%s: %s", what, other ? "a foreign exception escaped" : "no error was reported");
    stack(what); usable(what); vm::count("errors_contained"); vm::distinct(vm::hmix(vm::hstr(what), sentinels * 8 + held.size()));
  }
  template <class F> void works(const char * what, F && f) {
    vm::case_("%s, %d caller values on the stack", what, sentinels);
    try { f(); } catch (const std::exception & e) { vm::check(false, "error:spurious", "%s raised %s", what, e.what()); }
    stack(what); vm::count("operations_balanced");
  }
  void step() {
    switch (r.below(42)) {
      case 0: fails("a script with a syntax error", [&] { l.run_string("x = = 3"); }); break;
      case 1: fails("a script that raises", [&] { l.run_string("error('boom')"); }); break;
      case 2: { int how = (int)r.range(1, 9); fails(("a function that fails, kind " + std::to_string(how)).c_str(), [&] { l["fail"](how); }); break; }
      case 3: fails("a missing file", [&] { l.loadfile(dir + "/nope.lua"); }); break;
      case 4: { std::ofstream(dir + "/bad.lua") << "return ]]"; fails("a broken file", [&] { l.loadfile(dir + "/bad.lua"); }); break; }
      case 5: { std::ofstream(dir + "/raise.lua") << "tmp = 1\nerror({})"; fails("a file that raises", [&] { l.loadfile(dir + "/raise.lua"); }); break; }
      case 6: fails("calling a global that does not exist", [&] { l["nothing"](1, 2.0, "x"); }); break;
      case 7: fails("calling a number", [&] { l["canary"](); }); break;
      case 8: fails("calling a table", [&] { l["tab"](3); }); break;
      case 9: fails("indexing nil", [&] { l["nothing"]["x"]; }); break;
      case 10: fails("indexing a number", [&] { l["canary"][1]; }); break;
      case 11: fails("indexing nil by number", [&] { l["nothing"][3]; }); break;
      case 12: fails("indexing two levels below a missing key", [&] { l["tab"]["missing"]["x"]; }); break;
      case 13: fails("converting a table to int", [&] { (void)l["tab"].as<int>(); }); break;
      case 14: fails("converting a string element to int", [&] { l.run_string("e = {1, 2, 'three', 4}"); (void)l["e"].as<std::vector<int>>(); }); break;
      case 15: fails("converting a deep wrong element", [&] { l.run_string("e = {{1, 2}, {3, {}}}"); (void)l["e"].as<std::vector<std::vector<int>>>(); }); break;
      case 16: fails("an array of another size", [&] { l.run_string("e = {1, 2, 3}"); (void)l["e"].as<std::array<int, 4>>(); }); break;
      case 17: fails("a ragged matrix", [&] { l.run_string("e = {{1, 2}, {3}}"); (void)l["e"].as<ristra::math::matrix<double, 2, 2>>(); }); break;
      case 18: fails("a matrix with a scalar row", [&] { l.run_string("e = {{1, 2}, 3}"); (void)l["e"].as<ristra::math::matrix<double, 2, 2>>(); }); break;
      case 19: fails("too few results", [&] { (void)l["pair"]().as<int, std::string, int>(); }); break;
      case 20: fails("a tuple with one wrong type", [&] { (void)l["pair"]().as<std::string, int>(); }); break;
      case 21: fails("using the result of a function that returns nothing", [&] { (void)l["none"]().as<int>(); }); break;
      case 22: fails("calling the result of a function that returns nothing", [&] { l["none"]()(1); }); break;
      case 23: fails("indexing the result of a function that returns nothing", [&] { l["none"]()["x"]; }); break;
      case 24: fails("indexing by number the result of a function that returns nothing", [&] { l["none"]()[1]; }); break;
      case 25: fails("reading a missing global", [&] { (void)l["nothing"].as<double>(); }); break;
      case 26: works("a script that returns values", [&] { l.run_string("return 1, 2, 3"); }); break;
      case 27: { std::ofstream(dir + "/vals.lua") << "return 4, 5"; works("a file that returns values", [&] { l.loadfile(dir + "/vals.lua"); }); break; }
      case 28: works("a table with a hostile metatable", [&] { vm::ok(l["meta"]["q"].empty() && l["meta"][1].empty() && l["meta"].size() == 0, "meta:raw", "raw access consults metamethods"); }); break;
      case 29: { int v = (int)r.range(-99, 99); works("holding a value", [&] { l.run_string("h = " + std::to_string(v)); if (held.size() > 6) held.erase(held.begin() + (long)r.below(held.size())); held.emplace_back(l["h"], v); }); break; }
      case 30: works("emptiness tests", [&] { vm::ok(l["nothing"].empty() && l["tab"]["nothing"].empty() && !l["tab"].empty() && l["none"]().empty(), "empty", "emptiness is wrong"); }); break;
      case 31: works("a multiple result", [&] { auto t = l["pair"]().as<int, std::string>(); vm::ok(std::get<0>(t) == 1 && std::get<1>(t) == "two", "pair", "results differ"); }); break;
      case 32: works("printing the stack", [&] { std::ostringstream os; os << l; int rows = 0; std::string line; std::istringstream is(os.str()); while (std::getline(is, line)) rows++;
          vm::ok(rows == (sentinels ? sentinels + 1 : 1), "dump:rows", "the stack dump does not list each row"); }); break;
      case 36: case 37: { // whatever is raised, wherever the source comes from
          static const char * raised[] = { "nil", "", "42", "2.5", "true", "false", "{}", "print", "'x'", "'a\\0b'", "io.stdout", "coroutine.create(print)", "setmetatable({}, {__tostring = function() error('nested') end})", "string.rep('long', 5000)" };
          const char * v = raised[r.below(14)]; std::string body = std::string(r.chance(1, 2) ? "local a = 1 " : "") + "error(" + v + (*v && r.chance(1, 3) ? ", 0" : "") + ")"; std::string w = std::string("raising ") + v;
          switch (r.below(4)) { case 0: fails((w + " in a script").c_str(), [&] { l.run_string(body); }); break; case 1: fails((w + " in a called script").c_str(), [&] { l(body); }); break;
            case 2: { std::ofstream(dir + "/any.lua") << body; fails((w + " in a file").c_str(), [&] { l.loadfile(dir + "/any.lua"); }); break; } default: l.run_string("function any(...) " + body + " end"); fails((w + " in a function").c_str(), [&] { l["any"](1, "x"); }); } break; }
      case 38: case 39: { // anything but a table cannot be indexed, anything but a function cannot be called
          static const char * kinds[] = { "io.stdout", "print", "coroutine.create(print)", "'text'", "true", "false", "0", "2.5", "function() end" }; int k = (int)r.below(9); l.run_string(std::string("odd = ") + kinds[k] + " odds = {odd, k = odd}");
          auto get = [&]() -> lua_result_t { switch (r.below(3)) { case 0: return l["odd"]; case 1: return l["odds"][1]; default: return l["odds"]["k"]; } }; std::string w = std::string("indexing ") + kinds[k];
          if (r.chance(1, 2)) fails((w + " by name").c_str(), [&] { get()["x"]; }); else fails((w + " by number").c_str(), [&] { get()[1]; });
          if (k != 1 && k != 8) fails((std::string("calling ") + kinds[k]).c_str(), [&] { get()(1); }); if (k < 3 || k == 8) { fails((std::string("reading as text ") + kinds[k]).c_str(), [&] { (void)get().as<std::string>(); }); fails((std::string("reading as a vector ") + kinds[k]).c_str(), [&] { (void)get().as<std::vector<std::string>>(); }); } break; }
      case 40: fails("too many results", [&] { if (r.chance(1, 2)) (void)l["pair"]().as<int>(); else { l.run_string("function three() return 1, 2, 3 end"); (void)l["three"]().as<int, int>(); } }); break;
      case 41: { // other sources that cannot be run
          switch (r.below(5)) { case 0: fails("a directory as a file", [&] { l.loadfile(dir); }); break; case 1: { std::ofstream(dir + "/bin.lua") << "\x1bLua garbage"; fails("a broken binary file", [&] { l.loadfile(dir + "/bin.lua"); }); break; } case 2: fails("a broken binary script", [&] { l.run_string("\x1bLua garbage"); }); break;
            case 3: fails("an unfinished string", [&] { l.run_string("x = 'abc"); }); break; default: { std::ofstream(dir + "/empty.lua"); works("an empty file", [&] { l.loadfile(dir + "/empty.lua"); }); works("an empty script", [&] { vm::ok(!l.run_string(""), "empty:script", "an empty script reports an error"); }); } } break; }
      case 34: case 35: { // any number and kind of arguments, from any place a function can be kept in
          int how = (int)r.range(1, 9), n = (int)r.below(5), place = (int)r.below(5); bool bad = r.chance(2, 3); l.run_string("mode = " + std::to_string(bad ? how : 0));
          auto get = [&]() -> lua_result_t { switch (place) { case 0: return l["moded"]; case 1: return l["lib"]["moded"]; case 2: return l["list"][2]; case 3: return l["maker"](); default: return l["lib"]["deep"]["moded"]; } };
          auto f = get(); std::array<double, 3> a{ { 1, 2, 3 } };
          auto call = [&]() -> int { switch (n) { case 0: return f().as<int>(); case 1: switch (r.below(4)) { case 0: return f(true).as<int>(); case 1: return f(std::string("s")).as<int>(); case 2: return f(2.5).as<int>(); default: return f(a).as<int>(); }
            case 2: return f(1, "two").as<int>(); case 3: return f(a, std::string("x"), 3LL).as<int>(); default: return f(1, 2.5, "three", false).as<int>(); } };
          std::string w = std::string("a function kept in place ") + std::to_string(place) + " called with " + std::to_string(n) + " arguments, kind " + std::to_string(bad ? how : 0);
          if (r.chance(1, 4)) { std::function<int(int)> one = ristra::embedded::Lua_Func_Wrapper<std::function<int(int)>>(f); if (bad) fails((w + ", wrapped").c_str(), [&] { (void)one(3); }); else works((w + ", wrapped").c_str(), [&] { vm::ok(one(3) == 77, "call:value", "a working function returns something else"); }); }
          else if (bad) fails(w.c_str(), [&] { (void)call(); }); else works(w.c_str(), [&] { vm::ok(call() == 77, "call:value", "a working function returns something else"); }); break; }
      case 33: works("macros", [&] { auto q = lua_try_access_as(l["tab"], "a", int); vm::ok(q == 1, "macro", "lua_try_access_as differs"); bool t = false; auto tb = l["tab"];
          try { auto z = lua_try_access(tb, "zz"); (void)z; } catch (const std::runtime_error & e) { t = std::string(e.what()).find("zz") != std::string::npos; } vm::ok(t, "macro:missing", "lua_try_access does not name the missing key"); }); break;
    }
  }
};

// a state that cannot be made (only while asked for)
#include <dlfcn.h>
static bool no_state = false; static int no_state_given = 0;
extern "C" lua_State * luaL_newstate(void) { if (no_state) { no_state_given++; return nullptr; } static auto f = (lua_State * (*)(void))dlsym(RTLD_NEXT, "luaL_newstate"); return f(); }

int main(int argc, char ** argv) {
  vm::init(argc, argv); quiet();
  char tmpl[] = "/tmp/vmon-lua-XXXXXX"; std::string dir = mkdtemp(tmpl);
  if (vm::section("sessions")) {
    vm::Rng r = vm::rng("sessions");
    for (uint64_t k = 0; k < vm::n(25); ++k) {
      Session s(vm::Rng(r.next()), dir); uint64_t steps = 120;
      for (uint64_t i = 0; i < steps; ++i) s.step();
      vm::count("sessions");
    }
  }
  // many failures in a row neither fill the stack nor leak references
  if (vm::section("endurance")) {
    vm::Rng r = vm::rng("endurance"); Session s(vm::Rng(3), dir); s.usable("start"); int r0 = 0;
    for (uint64_t k = 0; k < vm::n(3000); ++k) {
      vm::case_("endurance round %llu", (unsigned long long)k);
      for (int i = 0; i < 6; ++i) try { switch (i) { case 0: (void)s.l["tab"].as<double>(); break; case 1: s.l["fail"](1 + (int)(k % 4)); break; case 2: s.l["canary"]["x"]; break;
        case 3: (void)s.l["pair"]().as<int, int>(); break; case 4: s.l.run_string("bad("); break; case 5: (void)s.l["none"]().as<int>(); break; } } catch (const std::exception &) { vm::count("repeated_errors"); }
      if (k == 20) r0 = refs(s.l.state());
    }
    vm::check(refs(s.l.state()) <= r0, "registry:growth", "registry grew from %d to %d references", r0, refs(s.l.state()));
    s.stack("endurance"); s.usable("endurance");
    // and the same for successful use
    for (uint64_t k = 0; k < vm::n(3000); ++k) { (void)s.l["tab"]["sub"]["z"].as<int>(); (void)s.l["pair"]().as<int, std::string>(); s.l.run_string("return 1, {}"); (void)s.l["tab"][1].empty(); vm::count("repeated_uses"); }
    vm::check(refs(s.l.state()) <= r0, "registry:growth-ok", "registry grew from %d to %d references", r0, refs(s.l.state())); s.stack("repeated use");
  }
  // a guarded global table
  if (vm::section("strict")) {
    for (int with = 0; with < 2; ++with) { lua_t l(with == 1); vm::case_("global table whose __index raises, libraries %s", with ? "open" : "closed");
      if (!with) { bool t = false; try { l.run_string("print(1)"); } catch (const std::exception &) { t = true; } vm::ok(t, "bare", "a bare state has libraries"); vm::ok(l["print"].empty(), "bare:print", "a bare state has print"); continue; }
      l.run_string("known = 3 setmetatable(_G, {__index = function(t, k) error('undeclared ' .. tostring(k)) end})");
      vm::ok(l["known"].as<int>() == 3, "strict:known", "a declared global is not found");
      bool t = false; try { (void)l["unknown"].empty(); } catch (const std::exception &) { t = true; }
      vm::ok(t, "strict:unknown", "an error raised by the global table is lost"); vm::ok(lua_gettop(l.state()) == 0, "strict:stack", "stack grew");
      l.run_string("setmetatable(_G, {__index = function(t, k) return k .. '!' end})");
      vm::ok(l["dyn"].as<std::string>() == "dyn!", "strict:dynamic", "a computed global is not found"); vm::count("guarded_globals");
    }
  }
  if (vm::section("nostate")) { // Lua cannot give a state
    for (int k = 0; k < 4; ++k) { vm::case_("no memory for a Lua state, %d", k); no_state = true; no_state_given = 0; bool t = false; try { lua_t l(k % 2 == 0); } catch (const std::exception &) { t = true; } no_state = false;
      if (no_state_given) { vm::ok(t, "nostate", "no state could be made, and nothing was reported"); vm::count("states_refused"); }
      lua_t again; again.run_string("x = 1"); vm::ok(again["x"].as<int>() == 1, "nostate:again", "a later state does not work"); }
  }
  if (vm::section("many")) { // more results than the default stack has slots for
    lua_t l; l.run_string("function many(n) local t = {} for i = 1, n do t[i] = i end return table.unpack(t) end function sum(...) local s = 0 for _, v in ipairs({...}) do s = s + v end return s end");
    for (int n : { 1, 19, 20, 21, 60, 250, 5000 }) { vm::case_("%d results", n); auto q = l["many"](n); vm::check(q.size() == (size_t)n, "many:size", "%zu results instead of %d", q.size(), n); vm::check(lua_gettop(l.state()) == 0, "many:stack", "stack grew"); vm::count("result_lists"); }
    std::array<double, 200> a; double want = 0; for (size_t i = 0; i < a.size(); ++i) want += a[i] = (double)i; vm::ok(l["sum"](a, a).as<double>() == 2 * want, "many:args", "a long argument list arrives differently");
    std::vector<int> big(3000); std::string src = "b = {}"; l.run_string("b = {} for i = 1, 3000 do b[i] = i end"); auto v = l["b"].as<std::vector<int>>(); vm::ok(v.size() == 3000 && v[2999] == 3000, "many:vector", "a long table reads differently");
  }
  std::string rm = "rm -rf '" + dir + "'"; if (dir.rfind("/tmp/vmon-lua-", 0) == 0 && system(rm.c_str())) {}
  return vm::finish();
}
