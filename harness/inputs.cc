// I01 (PART 1): where an input's value comes from; I02 (PART 2): initial values and their validation
#include "lua_common.h"
#include <fstream>
#include <functional>
#include <memory>
#include <set>
#include <unistd.h>
#include "ristra/initialization/input_engine.h"
#include "ristra/initialization/init_value.h"
#include "ristra/initialization/input.h"
using namespace ristra;
using A2 = std::array<double, 2>; using S2 = std::array<size_t, 2>;
using Ics = std::function<std::tuple<double, A2, double>(A2 const &, double const &)>;
using Fun = std::function<double(double)>;
struct traits { using types = std::tuple<double, std::string, A2, S2, size_t, Ics, int, bool, std::vector<double>, Fun>; };
struct engine : input_engine_t<traits> {
  using base = input_engine_t<traits>;
  // the bookkeeping derived engines can see; skipped if the base offers it under another name
  template <class T, class E = engine> static auto failed(E & e, int) -> decltype(&e.template get_failed_target_set<T>()) { return &e.template get_failed_target_set<T>(); }
  template <class T, class E = engine> static const std::set<std::string> * failed(E &, long) { return nullptr; }
  template <class T, class E = engine> static auto targets(E & e, int) -> decltype(&e.template get_target_set<T>()) { return &e.template get_target_set<T>(); }
  template <class T, class E = engine> static const std::set<std::string> * targets(E &, long) { return nullptr; }
};
template <class T> struct TN; 
#define N(T, n) template <> struct TN<T> { static const char * name() { return n; } };
N(double, "double") N(std::string, "string") N(A2, "array<double,2>") N(S2, "array<size_t,2>") N(size_t, "size_t") N(int, "int") N(bool, "bool") N(std::vector<double>, "vector<double>")
static std::string dir;
static const char * const fixed_keys[] = { "prefix", "suffix", "output_freq", "CFL", "final_time", "max_steps", "mesh_type", "dimensions", "xmin", "xmax", "file" };

// The model of a Lua input file: table name -> key -> (type index, literal), plus functions as constants
struct LuaModel { std::map<std::string, std::map<std::string, std::string>> t; };

template <class T> struct Var { std::map<std::string, T> hc, lua; std::set<std::string> targets; };
template <class T> bool hold(const T & a, const T & b) { return same(a, b); }

template <class F> static bool throws(F && f) { try { f(); return false; } catch (const std::exception &) { return true; } }

// keys: k<i> is registered with the Lua source under table tab<i%4>, with or without a different Lua key;
// u<i> is never registered there
struct Where { std::string table, luakey; };
struct World {
  engine e; vm::Rng r; std::map<std::string, Where> where; bool lua = false, hc = false; std::unique_ptr<lua_source_t> dummy; lua_source_t * src = nullptr; int files = 0;
  std::tuple<Var<double>, Var<std::string>, Var<A2>, Var<S2>, Var<size_t>, Var<int>, Var<bool>, Var<std::vector<double>>> vars;
  std::map<std::string, double> fhc, flua; std::set<std::string> ft; // one-argument functions x -> x + c
  std::map<std::string, double> ihc, ilua; std::set<std::string> it; // initial conditions
  World(vm::Rng r_) : r(r_) { e.clear_registry(); hard_coded_source_t h; h.clear_registry<traits::types>(); }
  template <class F> void each(F && f) { std::apply([&](auto &... v) { (f(v), ...); }, vars); }
  std::string key() { int i = (int)r.below(7); return r.chance(1, 5) ? "u" + std::to_string(i) : r.chance(1, 6) ? fixed_keys[r.below(11)] : "k" + std::to_string(i); }
  // every type has keys of its own in the Lua file (Lua itself has no types); `p` keeps them apart
  template <class T> static std::string pre() { return std::string(1, "dsaqzibv"[std::is_same<T, double>::value ? 0 : std::is_same<T, std::string>::value ? 1 : std::is_same<T, A2>::value ? 2 : std::is_same<T, S2>::value ? 3 : std::is_same<T, size_t>::value ? 4 : std::is_same<T, int>::value ? 5 : std::is_same<T, bool>::value ? 6 : 7]) + "_"; }
  void new_lua() {
    if (r.chance(1, 6)) { e.register_lua_source(nullptr); lua = false; src = nullptr; each([](auto & v) { v.lua.clear(); }); flua.clear(); ilua.clear(); return; }
    std::map<std::string, std::string> tab; for (auto n : { "hydro", "mesh", "extra", "base_state" }) tab[n] = "";
    where.clear(); each([](auto & v) { v.lua.clear(); }); flua.clear(); ilua.clear();
    auto place = [&](const std::string & k, const std::string & literal) {
      if (!where.count(k)) { static const char * ts[] = { "hydro", "mesh", "extra", "base_state" }; where[k] = { ts[r.below(4)], r.chance(1, 3) ? "renamed_" + k : k }; }
      if (literal.empty()) return; const Where & w = where[k]; tab[w.table] += (w.table == "base_state" ? w.luakey + " = " + literal + "\n" : w.luakey + " = " + literal + ",\n"); };
    each([&](auto & v) { using T = typename decltype(v.hc)::mapped_type;
      for (int i = 0; i < 7; ++i) { std::string k = pre<T>() + "k" + std::to_string(i); if (r.chance(2, 3)) { T x = Gen<T>::get(r); v.lua[k] = x; place(k, lit(x)); } else place(k, ""); } });
    for (int i = 0; i < 4; ++i) { std::string k = "fk" + std::to_string(i); if (r.chance(2, 3)) { double c = (double)r.range(-9, 9); flua[k] = c; place(k, "function(x) return x + (" + lit(c) + ") end"); } else place(k, "");
      k = "ik" + std::to_string(i); if (r.chance(2, 3)) { double c = (double)r.range(-9, 9); ilua[k] = c; place(k, "function(x, y, t) return x + (" + lit(c) + "), {y, x}, t end"); } else place(k, ""); }
    // the keys the Lua source knows without registration
    auto & vd = std::get<Var<double>>(vars); auto & vs = std::get<Var<std::string>>(vars); auto & vz = std::get<Var<size_t>>(vars); auto & va = std::get<Var<A2>>(vars); auto & vq = std::get<Var<S2>>(vars);
    auto put = [&](auto & v, const char * k, const char * t, const char * lk) { using T = typename std::decay_t<decltype(v.hc)>::mapped_type; where[k] = { t, lk }; if (r.chance(2, 3)) { T x = Gen<T>::get(r); v.lua[k] = x; tab[t] += std::string(lk) + " = " + lit(x) + ",\n"; } };
    put(vs, "prefix", "hydro", "prefix"); put(vs, "suffix", "hydro", "postfix"); put(vz, "output_freq", "hydro", "output_freq"); put(vd, "CFL", "hydro", "CFL"); put(vd, "final_time", "hydro", "final_time"); put(vz, "max_steps", "hydro", "max_steps");
    put(vs, "mesh_type", "mesh", "type"); put(vq, "dimensions", "mesh", "dimensions"); put(va, "xmin", "mesh", "xmin"); put(va, "xmax", "mesh", "xmax"); put(vs, "file", "mesh", "file");
    if (r.chance(1, 2)) { double c = (double)r.range(-9, 9); ilua["ics_func"] = c; tab["hydro"] += "ics = function(x, y, t) return x + (" + lit(c) + "), {y, x}, t end,\n"; } where["ics_func"] = { "hydro", "ics" };
    std::string f = dir + "/in" + std::to_string(files++ % 4) + ".lua"; { std::ofstream o(f); o << "hydro = {\n" << tab["hydro"] << "mesh = {\n" << tab["mesh"] << "},\ninner = {\n" << tab["extra"] << "} }\n" << tab["base_state"]; }
    std::unique_ptr<lua_source_t> ls(mk_lua(f)); bool twice = r.chance(1, 3);
    if (twice) ls->register_table("extra", "hydro", "mesh"); // replaced below
    bool rep = ls->register_table("extra", "hydro", "inner"); vm::ok(rep == twice, "register:replaced", "register_table misreports whether it replaced something");
    for (auto & kv : where) { bool def = ls_known(kv.first); if (def && r.chance(1, 2)) continue; // the built-in registration must do
      if (r.chance(1, 4)) ls->register_value(kv.first, "hydro", "decoy"); bool again = ls->register_value(kv.first, kv.second.table, kv.second.luakey == kv.first ? "" : kv.second.luakey); (void)again; }
    src = ls.get(); e.register_lua_source(ls.release()); lua = true;
  }
  static bool ls_known(const std::string & k) { for (auto f : fixed_keys) if (k == f) return true; return k == "ics_func"; }
  void new_hc() {
    hard_coded_source_t h;
    if (!hc || r.chance(1, 3)) { e.register_hard_coded_source(mk_hard_coded_source().release()); hc = true; }
    if (r.chance(1, 3)) { h.clear_registry<traits::types>(); each([](auto & v) { v.hc.clear(); }); fhc.clear(); ihc.clear(); }
    each([&](auto & v) { using T = typename decltype(v.hc)::mapped_type; hard_coded_source_t::registry<T> m;
      for (int i = 0; i < 3; ++i) { std::string k = key(); if (k[0] == 'k' || k[0] == 'u') k = pre<T>() + k; m[k] = Gen<T>::get(r); }
      if (r.chance(1, 2)) h.set_registry<T>(m); else for (auto & kv : m) e.get_hard_coded_source().get_registry<T>()[kv.first] = kv.second; for (auto & kv : m) v.hc[kv.first] = kv.second; });
    for (int i = 0; i < 2; ++i) { double c = (double)r.range(-9, 9); std::string k = r.chance(1, 4) ? "fu" : "fk" + std::to_string(r.below(4)); e.get_hard_coded_source().get_registry<Fun>()[k] = [c](double x) { return x + c; }; fhc[k] = c;
      k = r.chance(1, 4) ? "ics_func" : "ik" + std::to_string(r.below(4)); e.get_hard_coded_source().get_registry<Ics>()[k] = [c](A2 const & x, double const & t) { return std::make_tuple(x[0] + c, A2{ x[1], x[0] }, t); }; ihc[k] = c; }
    if (r.chance(1, 8)) { e.register_hard_coded_source(nullptr); hc = false; }
  }
  template <class T, class M> void targets(Var<T> & v, M) { for (int i = 0; i < 3; ++i) { std::string k = key(); if (k[0] == 'k' || k[0] == 'u') k = pre<T>() + k; if (!v.targets.count(k)) e.register_target<T>(k); v.targets.insert(k); } }
  template <class T> const T * expect(Var<T> & v, const std::string & k) { if (lua && v.lua.count(k)) return &v.lua[k]; if (hc && v.hc.count(k)) return &v.hc[k]; return nullptr; }
  const double * fexpect(const std::string & k) { if (lua && flua.count(k)) return &flua[k]; if (hc && fhc.count(k)) return &fhc[k]; return nullptr; }
  const double * iexpect(const std::string & k) { if (lua && ilua.count(k)) return &ilua[k]; if (hc && ihc.count(k)) return &ihc[k]; return nullptr; }
  // a key of one type that the Lua file holds as another type is a conversion error, not a missing value
  template <class T> bool clash(const std::string & k) { if (!lua || !ls_known(k)) return false; bool here = false, any = false;
    each([&](auto & v) { using U = typename decltype(v.hc)::mapped_type; if (v.lua.count(k)) { any = true; here |= std::is_same<T, U>::value; } }); if (ilua.count(k)) any = true; return any && !here; }
  void resolve() {
    bool all = true, clashes = false;
    each([&](auto & v) { using T = typename decltype(v.hc)::mapped_type; for (auto & k : v.targets) { if (clash<T>(k)) clashes = true; else if (!expect(v, k)) all = false; } });
    for (auto & k : ft) if (!fexpect(k)) all = false; for (auto & k : it) if (!iexpect(k)) all = false;
    if (clashes) return; // what a type clash does is a matter of the Lua conversions (L01, L02)
    vm::case_("resolve with lua=%d hard-coded=%d", lua, hc);
    bool got = e.resolve_inputs();
    vm::check(got == all, "resolve:result", "resolve_inputs() says %d, but %s", got, all ? "every target is in a source" : "some target is in no source");
    std::string log; uint64_t h = vm::hmix(lua, hc);
    each([&](auto & v) { using T = typename decltype(v.hc)::mapped_type; std::set<std::string> miss;
      for (auto & k : v.targets) { const T * x = expect(v, k); vm::case_("%s '%s' with lua=%d (has it: %d) hard-coded=%d (has it: %d)", TN<T>::name(), k.c_str(), lua, (int)v.lua.count(k), hc, (int)v.hc.count(k));
        h = vm::hmix(h, vm::hstr(k) + (x ? 1 : 0));
        if (!x) { miss.insert(k); vm::count("targets_missing"); vm::ok(!e.resolved<T>(k) && throws([&] { e.get_value<T>(k); }), "value:gone", "a target that is in no source can be read"); continue; }
        vm::ok(e.resolved<T>(k), "resolve:resolved", "a target found in a source does not count as resolved");
        for (int z = 0; z < 2; ++z) { bool t = false; try { vm::ok(same(e.get_value<T>(k), *x), z ? "value:again" : (lua && v.lua.count(k) ? "value:lua" : "value:hard-coded"), "the target has another value than its source gives it"); } catch (const std::exception &) { t = true; } vm::ok(!t, "value:throws", "a resolved target cannot be read"); }
        vm::count(lua && v.lua.count(k) ? (hc && v.hc.count(k) ? "lua_over_hard_coded" : "lua_only") : "hard_coded_fallback"); }
      if (auto * fs = engine::failed<T>(e, 0)) vm::ok(*fs == miss, "resolve:failed", "the failed targets are not the ones no source has"); });
    for (auto & k : ft) { const double * c = fexpect(k); if (!c) { vm::ok(!e.resolved<Fun>(k) && throws([&] { e.get_value<Fun>(k); }), "function:gone", "a function that is in no source can be had"); continue; } Fun f = e.get_value<Fun>(k); double x = r.uniform(-3, 3); vm::case_("function '%s' lua=%d", k.c_str(), lua); vm::ok(f(x) == x + *c, lua && flua.count(k) ? "function:lua" : "function:hard-coded", "the function computes something else"); vm::count("functions_resolved"); }
    for (auto & k : it) { const double * c = iexpect(k); if (!c) { vm::ok(!e.resolved<Ics>(k) && throws([&] { e.get_value<Ics>(k); }), "function:gone", "a function that is in no source can be had"); continue; } Ics f = e.get_value<Ics>(k); A2 x{ r.uniform(-3, 3), r.uniform(-3, 3) }; double t = r.uniform(0, 1); vm::ok(f(x, t) == std::make_tuple(x[0] + *c, A2{ x[1], x[0] }, t), "function:ics", "the initial condition computes something else"); vm::count("functions_resolved"); }
    { std::set<std::string> mf, mi; for (auto & k : ft) if (!fexpect(k)) mf.insert(k); for (auto & k : it) if (!iexpect(k)) mi.insert(k); if (auto * fs = engine::failed<Fun>(e, 0)) vm::ok(*fs == mf, "resolve:failed-function", "the failed functions are not the ones no source has"); if (auto * fs = engine::failed<Ics>(e, 0)) vm::ok(*fs == mi, "resolve:failed-function", "the failed functions are not the ones no source has"); }
    // unknown names and other types
    vm::ok(throws([&] { e.get_value<double>("never registered"); }) && !e.resolved<double>("never registered"), "value:unknown", "an unknown name has a value");
    vm::distinct(h); vm::count("resolutions");
  }
  void instant() {
    each([&](auto & v) { using T = typename decltype(v.hc)::mapped_type; std::string k = key(); if (k[0] == 'k' || k[0] == 'u') k = pre<T>() + k; if (clash<T>(k)) return; const T * x = expect(v, k);
      vm::case_("instant %s '%s'", TN<T>::name(), k.c_str());
      if (x) { bool t = false; try { vm::ok(same(e.get_instant_value<T>(k), *x), "instant:value", "instant value differs"); } catch (const std::exception &) { t = true; } vm::ok(!t, "instant:throws", "an available value cannot be had instantly"); vm::count("instant_values"); }
      else { vm::ok(throws([&] { e.get_instant_value<T>(k); }), "instant:gone", "a value that is in no source is had instantly"); vm::count("instant_refusals"); } });
    vm::ok(throws([&] { e.get_instant_value<double>("never registered"); }), "instant:unknown", "an unknown name has an instant value");
    if (!ft.empty()) { std::string k = "fk" + std::to_string(r.below(4)); if (const double * c = fexpect(k)) vm::ok(e.get_instant_value<Fun>(k)(1.5) == 1.5 + *c, "instant:function", "instant function differs"); else vm::ok(throws([&] { e.get_instant_value<Fun>(k); }), "instant:function-gone", "a function that is in no source is had instantly"); }
  }
  void direct() { // the sources themselves
    vm::ok(e.has_lua_source() == lua && e.has_hard_coded_source() == hc, "engine:has", "has_*_source is wrong"); if (!lua) vm::ok(throws([&] { e.get_lua_source(); }), "engine:no-lua", "there is a Lua source though none is registered"); if (!hc) vm::ok(throws([&] { e.get_hard_coded_source(); }), "engine:no-hard-coded", "there is a hard-coded source though none is registered");
    each([&](auto & v) { using T = typename decltype(v.hc)::mapped_type; std::string k = key(); if (k[0] == 'k' || k[0] == 'u') k = pre<T>() + k; if (clash<T>(k)) return; vm::case_("direct %s '%s'", TN<T>::name(), k.c_str());
      if (hc) { T x = Gen<T>::get(r), y = x; bool f = e.get_hard_coded_source().get_value(k, x); vm::ok(f == (v.hc.count(k) != 0) && same(x, f ? v.hc[k] : y), "direct:hard-coded", "hard-coded lookup differs"); vm::count("direct_lookups"); }
      if (lua) { T x = Gen<T>::get(r), y = x; bool f = e.get_lua_source().get_value(k, x); vm::ok(f == (v.lua.count(k) != 0) && same(x, f ? v.lua[k] : y), "direct:lua", "Lua lookup differs"); vm::count("direct_lookups");
        if (where.count(k)) { auto p = e.get_lua_source().get_lua_result_raw(k); vm::ok(p.first == (v.lua.count(k) != 0) && (!p.first || same(p.second.template as<T>(), v.lua[k])), "direct:raw", "raw lookup differs"); } } });
    if (lua) { auto & vv = std::get<Var<std::vector<double>>>(vars); for (auto & kv : vv.lua) { vm::ok(e.get_lua_source().get_size(kv.first) == kv.second.size(), "direct:size", "get_size differs from the length"); vm::ok(!throws([&] { e.get_lua_source().get_table("extra"); }) && throws([&] { e.get_lua_source().get_table("none"); }), "direct:table", "get_table differs"); } 
      vm::ok(throws([&] { e.get_lua_source().get_size("never registered"); }), "direct:size-unknown", "an unknown key has a size"); }
  }
  void step() {
    switch (r.below(9)) {
      case 0: new_lua(); break; case 1: new_hc(); break;
      case 2: each([&](auto & v) { if (r.chance(1, 2)) targets(v, 0); }); break;
      case 3: { std::string k = "fk" + std::to_string(r.below(4)); if (!ft.count(k)) e.register_target<Fun>(k); ft.insert(k); k = r.chance(1, 4) ? "ics_func" : "ik" + std::to_string(r.below(4)); if (!it.count(k)) e.register_target<Ics>(k); it.insert(k); break; }
      case 4: case 5: resolve(); break; case 6: instant(); break; case 7: direct(); break;
      case 8: if (r.chance(1, 4)) { e.clear_registry(); each([](auto & v) { v.targets.clear(); }); ft.clear(); it.clear(); vm::ok(!e.resolved<double>("CFL") && throws([&] { e.get_value<double>("CFL"); }), "clear", "a value survives clearing the registry"); vm::count("clears"); } break;
    }
  }
};

#if PART == 2
struct PE : engine { static World *& w() { static World * p; return p; } };
template <class T> using iv = init_value_t<T, engine>;
template <class T> void life(World & w, vm::Rng & r, const char * name) {
  // one initial value through a random history of get/valid/resolved/resolve against a reference state machine
  using st = init_val_status_t; static int uniq = 0;
  auto & v = std::get<Var<T>>(w.vars); bool ns = r.chance(1, 2); static const char * const spaces[] = { "space", "s", "a:b", " ", "0", "a namespace so long that it does not fit into a short string" }; std::string sp = spaces[r.below(6)], nm = "v" + std::to_string(uniq++), full = ns ? sp + ":" + nm : nm;
  int calls = 0; bool good = true, inverted = r.chance(1, 3); T ref = Gen<T>::get(r);
  auto validator = [&](T const & x) { calls++; return same(x, ref) != inverted; };
  bool none = r.chance(1, 4); std::unique_ptr<iv<T>> p(none ? new iv<T>(nm) : ns ? new iv<T>(nm, validator, sp) : new iv<T>(nm, validator)); if (none) full = nm, ns = false;
  hard_coded_source_t h; bool have = false, resolved = false; T cur{}, stored{}; st want = st::registered; uint64_t hs = 0;
  vm::ok(p->status() == st::registered, "status:registered", "a new initial value is not registered"); if (auto * ts = engine::targets<T>(w.e, 0)) vm::ok(ts->count(full) == 1, "status:target", "its target is not registered under its full name");
  for (int i = 0; i < 12; ++i) {
    int op = (int)r.below(7); hs = vm::hmix(hs, op); vm::case_("%s initial value, step %d op %d: in source %d, resolved %d", name, i, op, have, resolved);
    bool ok = none || same(stored, ref) != inverted;
    switch (op) {
      case 0: { bool match = r.chance(2, 3); cur = match ? ref : Gen<T>::get(r); h.set_registry<T>({ { full, cur } }); have = true; break; }
      case 1: { w.e.resolve_inputs(); if (have) stored = cur; resolved = have; break; }
      case 6: if (r.chance(1, 2)) { h.get_registry<T>().erase(full); have = false; vm::count("withdrawn"); } break;
      case 2: case 3: { bool threw = false; try { auto && x = p->get(); vm::ok(same(T(x), stored), "get:value", "get() returns another value"); } catch (const std::exception &) { threw = true; }
          vm::ok(threw == !(resolved && ok), "get:throws", threw ? "get() refuses a resolved, valid value" : resolved ? "get() returns a value its validator rejects" : "get() returns a value that was never resolved");
          want = !resolved ? st::resolve_failed : ok ? st::valid : st::invalid; vm::ok(p->status() == want, "status:get", std::string("status after get() is ") + init_val_status_name(p->status())); vm::count(threw ? "gets_refused" : "gets_served"); break; }
      case 4: { bool b = p->resolved(); vm::ok(b == resolved, "resolved", "resolved() is wrong"); if (b) want = st::initialized; else if (want > st::resolve_failed) want = st::resolve_failed; vm::ok(p->status() == want, "status:resolved", std::string("status after resolved() is ") + init_val_status_name(p->status())); vm::count("resolved_queries"); break; }
      case 5: { bool b = p->valid(); vm::ok(b == (resolved && ok), "valid", b ? "valid() accepts a value that is unresolved or rejected" : "valid() rejects an accepted value"); if (resolved) want = ok ? st::valid : st::invalid; else if (want > st::resolve_failed) want = st::resolve_failed; vm::ok(p->status() == want, "status:valid", std::string("status after valid() is ") + init_val_status_name(p->status())); vm::count("valid_queries"); break; }
    }
    vm::distinct(hs);
  }
  (void)good; (void)v;
}
#endif

int main(int argc, char ** argv) {
  vm::init(argc, argv); quiet(); char tmpl[] = "/tmp/vmon-in-XXXXXX"; dir = mkdtemp(tmpl);
  int keep = dup(1); // the library narrates on stdout
#if PART == 1
  if (vm::section("histories")) { vm::Rng r = vm::rng("histories");
    for (uint64_t k = 0; k < vm::n(40); ++k) { World w(vm::Rng(r.next())); for (int i = 0; i < 60; ++i) w.step(); vm::count("histories"); } }
  if (vm::section("many")) { vm::Rng r = vm::rng("many"); // many targets registered at once, under names that are prefixes of one another
    for (uint64_t k = 0; k < vm::n(30); ++k) { engine e; e.clear_registry(); hard_coded_source_t h; h.clear_registry<traits::types>(); e.register_hard_coded_source(mk_hard_coded_source().release());
      size_t n = (size_t)r.range(1, 80); std::set<std::string> names; std::string base(1, (char)('a' + r.below(26)));
      for (size_t i = 0; i < n; ++i) { names.insert(base); if (r.chance(1, 6)) base = base.substr(0, (size_t)r.range(0, base.size())); base += r.chance(1, 9) ? std::string((size_t)r.range(1, 60), 'q') : std::string(1, " :._aZ0"[r.below(7)]); }
      std::map<std::string, double> have; std::map<std::string, int> ihave; for (auto & x : names) { if (r.chance(5, 6)) have[x] = Gen<double>::get(r); if (r.chance(1, 2)) ihave[x] = Gen<int>::get(r); }
      h.set_registry<double>(have); h.set_registry<int>(ihave); std::set<std::string> copy = names; e.register_targets<double>(copy); if (r.chance(1, 2)) { std::set<std::string> c2; for (auto & kv : ihave) c2.insert(kv.first); e.register_targets<int>(c2); }
      vm::ok(copy == names, "many:names", "registering targets changes the list of names"); vm::case_("%zu names at once, %zu of them available", names.size(), have.size());
      vm::ok(e.resolve_inputs() == (have.size() == names.size()), "many:result", "resolve_inputs() is wrong about many targets");
      for (auto & x : names) { vm::case_("%zu names at once, '%s'", names.size(), x.c_str()); if (have.count(x)) vm::ok(e.resolved<double>(x) && !throws([&] { e.get_value<double>(x); }) && same(e.get_value<double>(x), have[x]) && same(e.get_instant_value<double>(x), have[x]), "many:value", "one of many targets has another value"); else vm::ok(!e.resolved<double>(x) && throws([&] { e.get_value<double>(x); }) && throws([&] { e.get_instant_value<double>(x); }), "many:missing", "a target in no source has a value, though others of similar name exist");
        double y = 1.5; bool f = e.get_hard_coded_source().get_value(x, y); vm::ok(f == (have.count(x) != 0) && same(y, f ? have[x] : 1.5), "many:direct", "hard-coded lookup finds another name's value"); vm::count("many_targets"); }
      vm::distinct(vm::hmix(names.size(), have.size())); } }
  if (vm::section("placement")) { vm::Rng r = vm::rng("placement"); // the same names in several tables of the file, and in none
    for (uint64_t k = 0; k < vm::n(60); ++k) { engine e; e.clear_registry(); hard_coded_source_t h; h.clear_registry<traits::types>(); e.register_hard_coded_source(mk_hard_coded_source().release());
      double v[8]; for (auto & x : v) x = Gen<double>::get(r); for (int i = 0; i < 8; ++i) for (int j = 0; j < i; ++j) if (same(v[i], v[j])) { v[i] = i + 1000.25; } std::string f = dir + "/p.lua";
      { std::ofstream o(f); o << "x = " << lit(v[0]) << " one = {x = " << lit(v[1]) << ", deep = {x = " << lit(v[2]) << ", x2 = " << lit(v[5]) << "}} two = {x = " << lit(v[3]) << ", deep = {x = " << lit(v[6]) << "}} hydro = {x = " << lit(v[4]) << ", mesh = {}} other = " << lit(v[7]) << " word = 'abc' tab = {}\n"; }
      lua_source_t * ls = mk_lua(f).release(); e.register_lua_source(ls); bool inst = r.chance(1, 2); double fall = 777.125;
      auto get = [&](const char * n, double & out) { try { if (inst) out = e.get_instant_value<double>(n); else { e.clear_registry(); e.register_target<double>(n); if (!e.resolve_inputs()) return 0; out = e.get_value<double>(n); } return 1; } catch (const std::exception &) { return -1; } };
      double g = 0; h.set_registry<double>({ { "x", fall }, { "word", fall }, { "tab", fall }, { "nope", fall }, { "other", fall } });
      vm::case_("a global named like a key the Lua source was not told of"); vm::ok(get("x", g) == 1 && g == fall, "placement:unregistered", "a key the Lua source was not told of is taken from the file");
      ls->register_table("t", "base_state", "one"); ls->register_value("x", "t"); vm::case_("the value of a table that has been registered"); vm::ok(get("x", g) == 1 && same(g, v[1]), "placement:table", "the value is not the one of the table registered");
      bool rep = ls->register_table("t", "base_state", "two"); vm::case_("a table registered again under its name, for another table of the file"); vm::ok(rep && get("x", g) == 1 && same(g, v[3]), "placement:table-again", "a table that has been registered again is not the new one");
      ls->register_table("d", "t", "deep"); ls->register_value("x", "d"); vm::case_("a table inside a registered table"); vm::ok(get("x", g) == 1 && same(g, v[6]), "placement:inner", "the value is not the one of the inner table");
      ls->register_table("t", "base_state", "one"); ls->register_table("d", "t", "deep"); ls->register_value("x", "d", r.chance(1, 2) ? "x2" : ""); vm::ok(get("x", g) == 1 && (same(g, v[2]) || same(g, v[5])), "placement:inner-again", "an inner table that has been registered again is not the new one");
      ls->register_value("x", "base_state"); vm::case_("a value of the file's top level"); vm::ok(get("x", g) == 1 && same(g, v[0]), "placement:global", "the value is not the global one");
      ls->register_value("x", "never loaded"); vm::case_("a key registered under a table that was never loaded"); int st = get("x", g); vm::ok(st != 1 || same(g, fall), "placement:no-table", "a key of a table that was never loaded has the value of something else in the file"); vm::count(st < 0 ? "no_table_refused" : "no_table_fallback");
      ls->register_value("word", "base_state"); ls->register_value("tab", "base_state"); ls->register_value("nope", "base_state");
      for (auto n : { "word", "tab" }) { vm::case_("'%s' is of the wrong kind in the file, and hard-coded", n); vm::ok(get(n, g) == -1, "placement:wrong-kind", "a value of the wrong kind in the file is passed over in silence"); }
      vm::case_("a key that is absent from the file, and hard-coded"); vm::ok(get("nope", g) == 1 && g == fall, "placement:absent", "a key that is absent from the file does not get its default");
      e.register_lua_source(nullptr); vm::ok(get("word", g) == 1 && g == fall, "placement:no-lua", "without the Lua source the default does not show"); vm::count("placements"); vm::distinct(vm::hdbl(v[0], inst)); } }
  if (vm::section("file")) { vm::Rng r = vm::rng("file"); // a Lua file without the expected tables, or broken, is reported
    auto wr = [&](const char * s) { std::ofstream(dir + "/x.lua") << s; return dir + "/x.lua"; };
    for (auto s : { "x = 1", "hydro = 3", "hydro = {}", "hydro = {mesh = {}", "error('x')" }) { vm::case_("input file: %s", s); vm::ok(throws([&] { lua_source_t ls(wr(s)); }), "file:bad", "a malformed input file is accepted"); }
    vm::ok(throws([&] { lua_source_t ls(dir + "/none.lua"); }), "file:missing", "a missing input file is accepted"); vm::ok(!throws([&] { lua_source_t ls(wr("hydro = {mesh = {}}")); }), "file:minimal", "a minimal input file is refused");
    for (uint64_t k = 0; k < vm::n(50); ++k) { double d = Gen<double>::get(r); std::string s = Gen<std::string>::get(r); vm::case_s("input_t " + lit(s)); auto & in = initialization::input_t::instance(); std::string f = wr(("p = {d = " + lit(d) + ", s = " + lit(s) + "} q = " + lit(s)).c_str());
      in.load(f); vm::ok(in.filename() == f && same(in["p"]["d"].as<double>(), d) && in["p"]["s"].as<std::string>() == s && in["q"].as<std::string>() == s && in.try_access("p")["s"].as<std::string>() == s, "input_t:value", "input_t gives another value"); vm::ok(in["zz"].empty() && throws([&] { in.try_access("zz"); }), "input_t:missing", "input_t finds what is not there");
      vm::ok(throws([&] { (void)(inputs_try_access_as(in["p"], "nope", double)); }) && same(inputs_try_access_as(in["p"], "d", double), d), "input_t:macro", "inputs_try_access_as differs"); vm::count("input_files"); vm::distinct(vm::hdbl(d, vm::hstr(s))); }
  }
#else
  if (vm::section("values")) { vm::Rng r = vm::rng("values"); World w(vm::Rng(r.next())); w.e.register_hard_coded_source(mk_hard_coded_source().release()); w.hc = true;
    for (uint64_t k = 0; k < vm::n(150); ++k) { life<double>(w, r, "double"); life<std::string>(w, r, "string"); life<A2>(w, r, "array"); life<size_t>(w, r, "size_t"); life<int>(w, r, "int"); life<std::vector<double>>(w, r, "vector"); 
      if (k % 10 == 9) { w.e.clear_registry(); hard_coded_source_t h; h.clear_registry<traits::types>(); } } }
  if (vm::section("names")) { using st = init_val_status_t; const std::pair<st, const char *> all[] = { { st::unregistered, "unregistered" }, { st::registered, "registered" }, { st::resolve_failed, "resolve_failed" }, { st::initialized, "initialized" }, { st::invalid, "invalid" }, { st::valid, "valid" } };
    for (auto & q : all) { vm::case_("status %s", q.second); vm::ok(init_val_status_name(q.first) == q.second, "status:name", "a status has the name of another"); vm::count("status_names"); } vm::ok(init_val_status_name((st)77) == "unknown", "status:unknown", "what is no status has the name of one"); }
  if (vm::section("functions")) { vm::Rng r = vm::rng("functions"); World w(vm::Rng(r.next())); w.e.register_hard_coded_source(mk_hard_coded_source().release());
    for (uint64_t k = 0; k < vm::n(150); ++k) { std::string nm = "f" + std::to_string(k); double c = (double)r.range(-9, 9), lim = (double)r.range(-9, 9); vm::case_("function value, constant %g limit %g", c, lim); iv<Fun> f(nm, [lim](Fun const & g) { return g(0) <= lim; });
      vm::ok(!f.resolved() && !f.valid() && throws([&] { f.get(); }), "function:unresolved", "an unresolved function is handed out"); w.e.get_hard_coded_source().get_registry<Fun>()[nm] = [c](double x) { return x + c; }; w.e.resolve_inputs();
      bool ok = c <= lim, threw = false, v = f.resolved() && f.valid(); try { Fun g = f.get(); double x = r.uniform(-1, 1); vm::ok(g(x) == x + c, "function:value", "the function computes something else"); } catch (const std::exception &) { threw = true; } vm::ok(threw == !ok && v == ok, "function:validated", "validation of a function is wrong"); vm::count("function_values"); vm::distinct(vm::hmix((uint64_t)(int64_t)c, (uint64_t)(int64_t)lim)); 
      if (k % 10 == 9) { w.e.clear_registry(); } } }
  if (vm::section("reference")) { vm::Rng r = vm::rng("reference"); World w(vm::Rng(1)); w.e.register_hard_coded_source(mk_hard_coded_source().release()); hard_coded_source_t h; h.set_registry<double>({ { "shared", 2.5 } }); iv<double> a("shared"), b("shared"); w.e.resolve_inputs(); vm::case_("two initial values of one name"); a.get() = 7; vm::ok(b.get() == 7 && w.e.get_value<double>("shared") == 7, "reference", "get() does not refer to the stored value"); iv<int> c("shared"); vm::ok(!c.resolved(), "reference:type", "the same name in another type counts as resolved"); }
#endif
  (void)keep; std::string rm = "rm -rf '" + dir + "'"; if (dir.rfind("/tmp/vmon-in-", 0) == 0 && system(rm.c_str())) {}
  return vm::finish();
}
