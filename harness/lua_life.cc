// L03: Lua values live as long as anything in C++ refers to them, and no longer
#include "lua_common.h"

static int g_closed, g_collected[4096];
static int on_close(lua_State * s) { g_closed++; return 0; }
static int on_gc(lua_State * s) { g_collected[(int)lua_tointeger(s, lua_upvalueindex(1))]++; return 0; }

// a state that reports when it is closed
static lua_t state() {
  lua_t l; lua_State * s = l.state();
  lua_newtable(s); lua_newtable(s); lua_pushcfunction(s, on_close); lua_setfield(s, -2, "__gc"); lua_setmetatable(s, -2);
  luaL_ref(s, LUA_REGISTRYINDEX);
  return l;
}
// a fresh global `obj` = {id = n} that reports when it is collected
static void tracked(lua_t & l, int n) {
  lua_State * s = l.state();
  lua_newtable(s); lua_pushinteger(s, n); lua_setfield(s, -2, "id");
  lua_newtable(s); lua_pushinteger(s, n); lua_pushcclosure(s, on_gc, 1); lua_setfield(s, -2, "__gc"); lua_setmetatable(s, -2);
  lua_setglobal(s, "obj");
}

struct Handle { lua_result_t v; int st, id; };

int main(int argc, char ** argv) {
  vm::init(argc, argv); quiet();
  if (vm::section("histories")) {
    vm::Rng r = vm::rng("histories");
    for (uint64_t k = 0; k < vm::n(120); ++k) {
      memset(g_collected, 0, sizeof g_collected); g_closed = 0; int made = 0, opened = 0; uint64_t h = 0;
      std::map<int, lua_t> states; std::vector<Handle> hs; std::map<int, int> home; std::map<int, lua_State *> raw; // object -> state
      std::vector<std::pair<std::function<int(int)>, int>> fns; std::map<int, int> fnhome; std::vector<int> fnst;
      auto alive = [&](int st) { if (states.count(st)) return true; for (auto & x : hs) if (x.st == st) return true; for (int s : fnst) if (s == st) return true; return false; };
      auto audit = [&](const char * what) {
        int open = 0; for (int s = 0; s < opened; ++s) open += alive(s);
        vm::check(g_closed == opened - open, "close:count", "%s: %d of %d states closed, %d still referred to", what, g_closed, opened, open);
        for (int s = 0; s < opened; ++s) if (alive(s)) { lua_State * L = raw[s]; lua_gc(L, LUA_GCCOLLECT, 0); lua_gc(L, LUA_GCCOLLECT, 0); }
        std::map<int, int> ref; for (auto & x : hs) if (x.id >= 0) ref[x.id]++;
        for (int o = 0; o < made; ++o) {
          bool want = ref.count(o) != 0;
          vm::check(g_collected[o] == (want ? 0 : 1), "gc:object", "%s: object %d, referred to by %d results, was collected %d times", what, o, ref.count(o) ? ref[o] : 0, g_collected[o]);
        }
        for (auto & x : hs) { if (x.id >= 0) { vm::check(x.v["id"].as<int>() == x.id, "gc:value", "%s: a held object reads differently", what); } }
      };
      for (int i = 0; i < 40; ++i) {
        int op = (int)r.below(10); h = vm::hmix(h, op);
        vm::case_("history %llu step %d op %d: %zu states, %zu results, %zu functions", (unsigned long long)k, i, op, states.size(), hs.size(), fns.size());
        switch (op) {
          case 0: if (states.size() < 4) { states.emplace(opened, state()); raw[opened] = states.at(opened).state(); opened++; } break;
          case 1: case 2: if (!states.empty() && made < 4000) { auto it = states.begin(); std::advance(it, (long)r.below(states.size())); tracked(it->second, made);
              hs.push_back({ it->second["obj"], it->first, made }); it->second.run_string("obj = nil"); home[made] = it->first; made++; } break;
          case 3: if (!hs.empty()) { Handle c = hs[r.below(hs.size())]; hs.push_back(c); } break;
          case 4: case 5: if (!hs.empty()) { size_t j = r.below(hs.size()); hs.erase(hs.begin() + (long)j); } break;
          case 6: if (!states.empty()) { auto it = states.begin(); std::advance(it, (long)r.below(states.size())); states.erase(it); } break;
          case 7: if (hs.size() > 1) { size_t a = r.below(hs.size()), b = r.below(hs.size()); hs[a] = hs[b]; } break; // overwrite one reference by another
          case 8: if (!states.empty()) { // wrap a function, through a result that goes out of scope
              auto it = states.begin(); std::advance(it, (long)r.below(states.size())); int c = (int)r.range(1, 99); it->second.run_string("f = function(x) return x + " + std::to_string(c) + " end");
              using F = std::function<int(int)>;
              if (r.chance(1, 2)) { lua_result_t lf = it->second["f"]; em::Lua_Func_Wrapper<F> w(lf); fns.emplace_back(F(w), c); }
              else { em::lua_result_uptr_t u(new lua_result_t(it->second["f"])); em::Lua_Func_Wrapper<F> w(std::move(u)); fns.emplace_back(F(w), c); }
              fnst.push_back(it->first); it->second.run_string("f = nil"); } break;
          case 9: if (!fns.empty()) { size_t j = r.below(fns.size()); if (r.chance(1, 3)) { fns.erase(fns.begin() + (long)j); fnst.erase(fnst.begin() + (long)j); } else { fns.push_back(fns[j]); fnst.push_back(fnst[j]); } } break;
        }
        for (auto & f : fns) { vm::check(f.first(5) == 5 + f.second, "function:value", "a wrapped function computes something else"); vm::count("wrapped_calls"); }
        if (i % 8 == 7) audit("mid-history"); vm::count("steps");
      }
      audit("end"); if (r.chance(1, 2)) { states.clear(); audit("states dropped first"); }
      fns.clear(); fnst.clear(); hs.clear(); states.clear(); audit("everything dropped");
      vm::check(g_closed == opened, "close:all", "%d of %d states closed after everything was dropped", g_closed, opened);
      vm::count("objects_tracked", made); vm::count("states_tracked", opened); vm::distinct(h);
    }
  }
  // results outlive the state object they came from, however it is reached
  if (vm::section("outlive")) {
    vm::Rng r = vm::rng("outlive");
    for (uint64_t k = 0; k < vm::n(300); ++k) {
      g_closed = 0; std::string s = Gen<std::string>::get(r); vm::case_s("outlive " + lit(s));
      { std::vector<lua_result_t> keep;
        { lua_t l = state(); l.run_string("t = {x = {y = " + lit(s) + "}, f = function(a) return a, {a} end}"); keep.push_back(l["t"]); keep.push_back(keep[0]["x"]); keep.push_back(keep[1]["y"]); keep.push_back(keep[0]["f"]); keep.push_back(keep[3](7)); }
        vm::ok(g_closed == 0, "outlive:closed", "the state was closed under a result");
        vm::ok(keep[2].as<std::string>() == s && keep[0]["x"]["y"].as<std::string>() == s && keep[3](9).as<int, std::vector<int>>() == std::make_tuple(9, std::vector<int>{9}) && keep[4].as<int, std::vector<int>>() == std::make_tuple(7, std::vector<int>{7}), "outlive:value", "a result changed after its state object went away");
        lua_t again = keep[0].get_top(); again.run_string("z = 5"); vm::ok(again["z"].as<int>() == 5 && again["t"]["x"]["y"].as<std::string>() == s, "outlive:top", "get_top reaches another state");
        std::vector<lua_result_t> moved(std::move(keep)); while (moved.size() > 1) moved.erase(moved.begin() + (long)r.below(moved.size())); vm::ok(g_closed == 0, "outlive:closed2", "the state was closed under a result"); }
      if (k % 3 == 0) { // a state reached through a result, and copies of states, keep it as well
        g_closed = 0; { std::vector<lua_t> tops; { lua_t l = state(); l.run_string("q = " + lit(s)); auto v = l["q"]; switch (k % 4) { case 0: tops.push_back(v.get_top()); break; case 1: tops.push_back(l); break; case 2: { lua_t c(l); lua_t d = c["q"].get_top(); tops.push_back(std::move(d)); break; } default: { lua_t o; o = v.get_top(); tops.push_back(o); tops.push_back(v.get_top()); } } }
          vm::ok(g_closed == 0, "outlive:top-closed", "the state was closed under a state object"); vm::ok(tops.back()["q"].as<std::string>() == s, "outlive:top-value", "a state object reaches another state"); tops.back().run_string("collectgarbage() q2 = 1"); auto last = tops.back()["q"]; tops.clear(); vm::ok(g_closed == 0 && last.as<std::string>() == s, "outlive:top-last", "the state was closed under a result"); vm::count("states_outlived"); }
      }
      vm::ok(g_closed == 1, "outlive:once", "the state was not closed exactly once"); vm::count("outlived"); vm::distinct(vm::hstr(s));
    }
  }
  // two states do not share anything
  if (vm::section("isolation")) {
    for (int i = 0; i < 20; ++i) { lua_t a, b; vm::case_("isolation %d", i); a.run_string("x = 1 function f() return 'a' end"); b.run_string("x = 2 function f() return 'b' end"); auto xa = a["x"], xb = b["x"]; auto fa = a["f"], fb = b["f"];
      vm::ok(xa.as<int>() == 1 && xb.as<int>() == 2 && fa().as<std::string>() == "a" && fb().as<std::string>() == "b", "isolation", "states share values"); xa = xb; vm::ok(xa.as<int>() == 2 && xa.state() == b.state(), "isolation:assign", "assignment does not follow the other state"); vm::count("isolated"); }
  }
  return vm::finish();
}
