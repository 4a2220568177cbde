// L01: values cross between C++ and Lua unchanged, or the conversion is refused
#include "lua_common.h"

static int top(const lua_t & l) { return lua_gettop(l.state()); }
template <class F> bool throws(F && f) { try { f(); return false; } catch (const std::exception &) { return true; } }

// read a literal back through globals, tables, functions and tuples
template <class T> void roundtrip(const char * name, uint64_t base) {
  if (!vm::section("roundtrip")) return;
  vm::Rng r = vm::rng(name); lua_t l;
  l.run_string("t = {} function id(...) return ... end function get() return v end function count(...) return select('#', ...) end");
  for (uint64_t k = 0; k < vm::n(base); ++k) {
    T v = Gen<T>::get(r); std::string s = lit(v), key = Gen<std::string>::get(r); int idx = (int)r.range(-3, 9);
    vm::case_s(std::string("read ") + name + " " + s);
    l.run_string("v = " + s + " t[" + lit(key) + "] = v t[" + lit(idx) + "] = v");
    std::string K = std::string("value:") + name;
    vm::ok(same(l["v"].as<T>(), v), K + ":global", "global reads back differently");
    vm::ok(same(l["t"][key].as<T>(), v), K + ":table", "table entry reads back differently");
    vm::ok(same(l["t"][idx].as<T>(), v), K + ":index", "indexed entry reads back differently");
    vm::ok(same(l["get"]().as<T>(), v), K + ":returned", "function result reads back differently");
    vm::ok(same(static_cast<T>(l["get"]().as<T>()), v), K + ":cast");
    vm::ok(same(l["v"].as<T>(T(v)), v), K + ":default-ignored", "a present value is replaced by the default");
    auto held = l["v"]; l.run_string("v = nil collectgarbage()");
    vm::ok(same(held.as<T>(), v) && same(held.as<T>(), v), K + ":held", "a held value changes when read again after the global was dropped");
    vm::ok(l["v"].empty() && !held.empty(), "value:empty", "emptiness is wrong");
    vm::ok(same(l["v"].as<T>(v), v), K + ":default", "an absent value does not yield the default");
    vm::ok(throws([&] { (void)l["v"].as<T>(); }), K + ":nil", "nil converts to a value");
    vm::ok(top(l) == 0, "value:stack", "the Lua stack grew");
    vm::count("values_read", 9); vm::distinct(vm::hstr(name + s));
  }
}

// an argument arrives as the value that was passed
template <class T> void argument(const char * name, const char * luatype, uint64_t base) {
  if (!vm::section("argument")) return;
  vm::Rng r = vm::rng((std::string("arg") + name).c_str()); lua_t l;
  l.run_string("function id(...) return ... end function ty(x) return math.type(x) or type(x) end function eq(x) return x == want end");
  for (uint64_t k = 0; k < vm::n(base); ++k) {
    T v = Gen<T>::get(r); vm::case_s(std::string("pass ") + name + " " + lit(v));
    l.run_string("want = " + lit(v));
    std::string K = std::string("argument:") + name;
    vm::ok(same(l["id"](v).template as<T>(), v), K, "argument comes back differently");
    vm::ok(l["ty"](v).template as<std::string>() == luatype, K + ":type", "argument has the wrong Lua type");
    vm::ok(l["eq"](v).template as<bool>() == (v == v), K + ":eq", "Lua sees a different value");
    vm::count("arguments_passed", 3); vm::distinct(vm::hstr(std::string("a") + name + lit(v)));
  }
}

static void calls() {
  if (!vm::section("calls")) return;
  { lua_t l; l.run_string("n = 0 function seen(...) n = n + 1 return select('#', ...) end"); vm::Rng r = vm::rng("unsigned");
    for (uint64_t k = 0; k < vm::n(60); ++k) { size_t v = r.chance(1, 3) ? ~(size_t)0 - r.below(3) : ((size_t)1 << 63) + (r.next() >> r.range(1, 63)); bool fits = v <= (size_t)std::numeric_limits<long long>::max(); vm::case_("pass size_t %zu", v); bool t = false; int n0 = l["n"].as<int>();
      try { (void)(r.chance(1, 2) ? l["seen"](v) : l["seen"](1, v, 2.5)); } catch (const std::exception &) { t = true; } vm::ok(t == !fits && l["n"].as<int>() == n0 + (fits ? 1 : 0), "argument:unsigned", "a number that Lua has no integer for was passed"); vm::ok(top(l) == 0, "argument:unsigned-stack", "the Lua stack grew"); vm::count("arguments_refused"); } }
  vm::Rng r = vm::rng("calls"); lua_t l;
  l.run_string("function count(...) return select('#', ...) end function nth(n, ...) return (select(n, ...)) end "
               "function rev(...) local t = {...} local o = {} for i = 1, #t do o[i] = t[#t + 1 - i] end return table.unpack(o) end "
               "function mk(a, b, c, d) return a, b, c, {d, a} end  n = 0 function tick() n = n + 1 return n end");
  for (uint64_t k = 0; k < vm::n(600); ++k) {
    int a = Gen<int>::get(r); double b = Gen<double>::get(r); std::string s = Gen<std::string>::get(r); bool f = r.chance(1, 2);
    std::array<double, 3> v = Gen<std::array<double, 3>>::get(r); long long q = Gen<long long>::get(r);
    vm::case_s("call with " + lit(a) + " " + lit(b) + " " + lit(s));
    vm::ok(l["count"](a, b, s, f, v, q).as<int>() == 8, "call:count", "argument count differs (an array of three passes three arguments)");
    vm::ok(l["count"]().as<int>() == 0, "call:count0", "no arguments is not zero arguments");
    vm::ok(same(l["nth"](2, a, b, s, f, v, q).as<double>(), b), "call:order2", "second argument differs");
    vm::ok(l["nth"](3, a, b, s, f, v, q).as<std::string>() == s, "call:order3", "third argument differs");
    vm::ok(l["nth"](4, a, b, s, f, v, q).as<bool>() == f, "call:order4", "fourth argument differs");
    for (int i = 0; i < 3; ++i) vm::ok(same(l["nth"](5 + i, a, b, s, f, v, q).as<double>(), v[i]), "call:array", "array argument element differs");
    vm::ok(l["nth"](8, a, b, s, f, v, q).as<long long>() == q, "call:order8", "argument after an array differs");
    auto t = l["rev"](a, b, s, q).as<long long, std::string, double, int>();
    vm::ok(std::get<0>(t) == q && std::get<1>(t) == s && same(std::get<2>(t), b) && std::get<3>(t) == a, "call:results", "results come back in the wrong order");
    auto m = l["mk"](a, s, f, 7).as<std::tuple<int, std::string, bool, std::vector<int>>>();
    vm::ok(std::get<0>(m) == a && std::get<1>(m) == s && std::get<2>(m) == f && std::get<3>(m) == std::vector<int>({7, a}), "call:tuple", "tuple result differs");
    auto held = l["rev"](a, s); auto copy = held; l.run_string("collectgarbage()");
    for (int z = 0; z < 2; ++z) { auto u = copy.as<std::string, int>(); vm::ok(std::get<0>(u) == s && std::get<1>(u) == a, "call:held-tuple", "held results change"); }
    int n0 = l["n"].as<int>(); auto tk = l["tick"](); (void)tk.as<int>(); (void)tk.as<int>();
    vm::ok(l["n"].as<int>() == n0 + 1 && tk.as<int>() == n0 + 1, "call:once", "a call does not run exactly once");
    vm::ok(throws([&] { (void)l["rev"](a, s).as<int, std::string, int>(); }) && throws([&] { (void)l["rev"](a, s).as<int>(); }), "call:arity", "a result count mismatch is accepted");
    vm::ok(top(l) == 0, "value:stack", "the Lua stack grew");
    vm::count("calls_made", 16); vm::distinct(vm::hmix(vm::hstr(s), a));
  }
}

// numbers read as integers keep their value or are refused
template <class I> void integer(const char * name) {
  if (!vm::section("integer")) return;
  vm::Rng r = vm::rng((std::string("int") + name).c_str()); lua_t l; using L = std::numeric_limits<I>;
  for (uint64_t k = 0; k < vm::n(500); ++k) {
    // candidate as an exact rational: integer part z (128 bit), optionally a fraction
    __int128 z; bool frac = false, flt = r.chance(1, 2); std::string s;
    switch (r.below(5)) { case 0: z = (__int128)L::max() + r.range(-2, 2); break; case 1: z = (__int128)L::min() + r.range(-2, 2); break;
      case 2: z = r.range(-300, 300); break; case 3: z = (long long)r.next() >> r.below(60); break; default: z = (__int128)(long long)r.next(); }
    if (z > (__int128)std::numeric_limits<long long>::max() || z < (__int128)std::numeric_limits<long long>::min()) continue;
    if (flt) { if (z > (1ll << 52) || z < -(1ll << 52)) continue; frac = r.chance(1, 3); s = lit((double)z + (frac ? 0.5 : 0.0)); }
    else s = lit((long long)z);
    bool str = r.chance(1, 6); if (str) s = flt ? "'" + std::to_string((long long)z) + (frac ? ".5" : ".0") + "'" : "'" + std::to_string((long long)z) + "'";
    bool neg_str = str && frac && z < 0;  // "-3.5" is not z + 0.5, but still has a fraction
    bool fits = !frac && z >= (__int128)L::min() && z <= (__int128)L::max(); (void)neg_str;
    vm::case_s(std::string("integer ") + name + " from " + s);
    l.run_string("v = " + s);
    bool threw = false; I got{}; try { got = l["v"].as<I>(); } catch (const std::exception &) { threw = true; }
    if (fits) vm::ok(!threw && (__int128)got == z, std::string("integer:") + name, threw ? "a representable integer is refused" : "the integer changed");
    else vm::ok(threw, std::string("integer:lossy:") + name, "a number the type cannot hold is converted anyway");
    vm::count(fits ? "integers_kept" : "integers_refused"); vm::distinct(vm::hstr(name + s));
  }
}

// anything that is not of the requested kind is refused
static void refuse() {
  if (!vm::section("refuse")) return;
  vm::Rng r = vm::rng("refuse"); lua_t l;
  struct V { const char * src; int num, integral, str, boolean, table; };
  static const V vals[] = { { "3", 1, 1, 1, 0, 0 }, { "2.5", 1, 0, 1, 0, 0 }, { "'abc'", 0, 0, 1, 0, 0 }, { "'12'", 1, 1, 1, 0, 0 }, { "''", 0, 0, 1, 0, 0 }, { "true", 0, 0, 0, 1, 0 },
    { "false", 0, 0, 0, 1, 0 }, { "{}", 0, 0, 0, 0, 1 }, { "{1,2}", 0, 0, 0, 0, 1 }, { "{{1,2},{3,4}}", 0, 0, 0, 0, 1 }, { "print", 0, 0, 0, 0, 0 }, { "coroutine.create(print)", 0, 0, 0, 0, 0 },
    { "{1,'x'}", 0, 0, 0, 0, 1 }, { "{1,true}", 0, 0, 0, 0, 1 }, { "{{1,2},3}", 0, 0, 0, 0, 1 }, { "{{1,2},{3}}", 0, 0, 0, 0, 1 }, { "{{1,2},{3,4,5}}", 0, 0, 0, 0, 1 }, { "{{1,2},'ab'}", 0, 0, 0, 0, 1 },
    { "{{1,2},{3,{}}}", 0, 0, 0, 0, 1 }, { "{1,2,3}", 0, 0, 0, 0, 1 }, { "{1.5,2}", 0, 0, 0, 0, 1 }, { "{{1,2}}", 0, 0, 0, 0, 1 }, { "{{1,2},{3,4},{5,6}}", 0, 0, 0, 0, 1 }, { "{1,2,[5]=3}", 0, 0, 0, 0, 1 },
    { "{1,nil,3}", 0, 0, 0, 0, 1 }, { "{nil,2}", 0, 0, 0, 0, 1 }, { "{{1,2},nil,{3,4}}", 0, 0, 0, 0, 1 }, { "{{1,nil,3},{4,5}}", 0, 0, 0, 0, 1 }, { "{{nil,2},{4,5}}", 0, 0, 0, 0, 1 }, { "io.stdout", 0, 0, 0, 0, 0 }, { "'0x10'", 1, 1, 1, 0, 0 }, { "' 7 '", 1, 1, 1, 0, 0 }, { "'1e2'", 1, 1, 1, 0, 0 }, { "'12abc'", 0, 0, 1, 0, 0 },
    { "setmetatable({}, {__tostring = function() return '3' end})", 0, 0, 0, 0, 2 }, { "1/0", 1, 0, 1, 0, 0 }, { "0/0", 1, 0, 1, 0, 0 }, { "2^53", 1, 2, 1, 0, 0 } };
  auto acc = [&](const char * what, const V & v, bool want, bool got) {
    vm::ok(want == got, std::string("refuse:") + what, std::string(want ? "refused: " : "accepted: ") + v.src);
    vm::ok(top(l) == 0, "refuse:stack", "the Lua stack grew"); vm::count(want ? "conversions_accepted" : "conversions_refused"); vm::distinct(vm::hstr(std::string(what) + v.src));
  };
  for (int pass = 0; pass < 2; ++pass) for (const V & v : vals) {
    std::string s = v.src; auto is = [&](const char * x) { return s == x; };
    vm::case_s("convert " + s);
    l.run_string("v = " + s + " t = {v} function f() return v end");
    lua_result_t x = pass ? l["t"][1] : l["f"]();
    acc("int", v, v.num && v.integral == 1, !throws([&] { (void)x.as<int>(); }));
    acc("size_t", v, v.num && v.integral, !throws([&] { (void)x.as<size_t>(); }));
    acc("double", v, v.num, !throws([&] { (void)x.as<double>(); }));
    acc("string", v, v.str, !throws([&] { (void)x.as<std::string>(); }));
    acc("bool", v, v.boolean, !throws([&] { (void)x.as<bool>(); }));
    acc("vector<int>", v, v.table == 2 || is("{}") || is("{1,2}") || is("{1,2,3}") || is("{1,2,[5]=3}"), !throws([&] { (void)x.as<std::vector<int>>(); }));
    acc("vector<double>", v, v.table == 2 || is("{}") || is("{1,2}") || is("{1,2,3}") || is("{1.5,2}") || is("{1,2,[5]=3}"), !throws([&] { (void)x.as<std::vector<double>>(); }));
    acc("array<int,2>", v, is("{1,2}") || is("{1,2,[5]=3}"), !throws([&] { (void)x.as<std::array<int, 2>>(); }));
    acc("array<int,3>", v, is("{1,2,3}"), !throws([&] { (void)x.as<std::array<int, 3>>(); }));
    acc("vector<double,2>", v, is("{1,2}") || is("{1.5,2}") || is("{1,2,[5]=3}"), !throws([&] { (void)x.as<ristra::math::vector<double, 2>>(); }));
    acc("matrix<double,2,2>", v, is("{{1,2},{3,4}}"), !throws([&] { (void)x.as<ristra::math::matrix<double, 2, 2>>(); }));
    acc("vector<vector<double>>", v, v.table == 2 || is("{}") || is("{{1,2},{3,4}}") || is("{{1,2},{3}}") || is("{{1,2},{3,4,5}}") || is("{{1,2}}") || is("{{1,2},{3,4},{5,6}}"), !throws([&] { (void)x.as<std::vector<std::vector<double>>>(); }));
    acc("default", v, v.num && v.integral == 1, !throws([&] { (void)x.as<int>(5); }));
  }
  (void)r;
}

// numbers of either kind read as floating point are rounded to the nearest value of the type
template <class F> void rounding(const char * name) {
  if (!vm::section("rounding")) return;
  vm::Rng r = vm::rng((std::string("round") + name).c_str()); lua_t l; l.run_string("function f() return v end");
  for (uint64_t k = 0; k < vm::n(250); ++k) {
    bool in = r.chance(1, 2); F want; std::string s;
    if (in) { long long z = Gen<long long>::get(r); if (r.chance(1, 3)) z = (1ll << r.range(20, 62)) + r.range(-3, 3); s = lit(z); want = (F)(double)z; }
    else { double d = Gen<double>::get(r); if (r.chance(1, 2)) { float a = (float)r.uniform(-1e6, 1e6), b = std::nextafter(a, 1e9f); d = ((double)a + b) / 2; if (r.chance(1, 2)) d = std::nextafter(d, r.chance(1, 2) ? 1e9 : -1e9); } s = lit(d); want = (F)d; }
    vm::case_s(std::string(name) + " from " + s); l.run_string("v = " + s + " t = {v, {v}}");
    auto chk = [&](F got, const char * how) { vm::ok(got == want && std::signbit(got) == std::signbit(want), std::string("rounding:") + name, std::string("a number reads as another than the nearest, ") + how); };
    chk(l["v"].as<F>(), "global"); chk(l["f"]().as<F>(), "result"); chk(l["t"][2].as<std::vector<F>>().at(0), "in a vector"); chk(l["t"][2].as<std::array<F, 1>>()[0], "in an array"); chk(l["v"].as<F>(F(3)), "with a default");
    vm::count("numbers_rounded", 5); vm::distinct(vm::hstr(name + s));
  }
}
// long lists of arguments, results and elements
template <size_t N> void long_args(lua_t & l, vm::Rng & r) {
  std::array<double, N> a; ristra::math::array<double, N> b; ristra::math::vector<double, N> c; for (size_t i = 0; i < N; ++i) { a[i] = r.uniform(-9, 9); b[i] = (double)i + 0.5; c[i] = -(double)i; }
  vm::case_("arrays of %zu as arguments", N);
  auto va = l["pack"](a).template as<std::vector<double>>(), vb = l["pack"](b).template as<std::vector<double>>(), vc = l["pack"](c).template as<std::vector<double>>();
  vm::ok(va == std::vector<double>(a.begin(), a.end()) && vb == std::vector<double>(b.begin(), b.end()) && vc == std::vector<double>(c.begin(), c.end()), "long:array", "an array arrives as something other than its elements in order");
  auto m = l["pack"](1.25, a, 2.25, b, 3.25).template as<std::vector<double>>(); std::vector<double> w{ 1.25 }; w.insert(w.end(), a.begin(), a.end()); w.push_back(2.25); w.insert(w.end(), b.begin(), b.end()); w.push_back(3.25);
  vm::ok(m == w, "long:mixed", "arguments around arrays arrive in other places"); vm::ok(top(l) == 0, "value:stack", "the Lua stack grew"); vm::count("long_argument_lists", 4); vm::distinct(N);
}
static void longs() {
  if (!vm::section("longs")) return;
  vm::Rng r = vm::rng("longs");
  for (int pass = 0; pass < 2; ++pass) { lua_t l; l.run_string("function pack(...) return {...} end"); // the interpreter's stack is small at first
    if (pass) long_args<3000>(l, r); long_args<1>(l, r); long_args<2>(l, r); long_args<4>(l, r); long_args<5>(l, r); long_args<9>(l, r); long_args<17>(l, r); long_args<40>(l, r); long_args<130>(l, r); if (!pass) long_args<3000>(l, r); }
  lua_t l; l.run_string("function upto(n) local t = {} for i = 1, n do t[i] = i * 1.5 end return table.unpack(t) end function mix() return 1, 'two', 3.5, true, {5, 6}, {'seven'}, {{8, 9}, {10, 11}}, 12 end");
  for (int k = 0; k < 20; ++k) { vm::case_("eight results of several kinds, %d", k); auto h = l["mix"](); using M = ristra::math::matrix<double, 2, 2>;
    auto t = h.as<int, std::string, double, bool, std::vector<int>, std::array<std::string, 1>, M, size_t>(); M m; m(0, 0) = 8; m(0, 1) = 9; m(1, 0) = 10; m(1, 1) = 11;
    vm::ok(std::get<0>(t) == 1 && std::get<1>(t) == "two" && std::get<2>(t) == 3.5 && std::get<3>(t) && std::get<4>(t) == std::vector<int>({ 5, 6 }) && std::get<5>(t)[0] == "seven" && same(std::get<6>(t), m) && std::get<7>(t) == 12, "long:results", "results of several kinds come back differently"); vm::count("long_results");
    auto s6 = l["upto"](6).as<double, double, double, double, double, double>(); vm::ok(s6 == std::make_tuple(1.5, 3.0, 4.5, 6.0, 7.5, 9.0), "long:six", "six results come back differently");
    { auto h6 = l["upto"](6); for (int z = 0; z < 3; ++z) vm::ok(h6.as<double, double, double, double, double, double>() == s6, "long:again", "held results come back differently the next time"); for (int z = 0; z < 2; ++z) { auto t2 = h.as<int, std::string, double, bool, std::vector<int>, std::array<std::string, 1>, M, size_t>(); vm::ok(std::get<1>(t2) == "two" && std::get<4>(t2) == std::get<4>(t) && std::get<7>(t2) == 12, "long:again8", "held results come back differently the next time"); } }
    { l.run_string("function holes() return nil, 1 end function inner() return 1, nil, 3 end"); auto a = l["holes"](), b = l["inner"](); vm::ok(!a.empty() && !b.empty() && a.size() == 2 && b.size() == 3 && throws([&] { (void)a.as<int, int>(); }) && throws([&] { (void)b.as<int, int, int>(); }) && throws([&] { (void)a.as<int>(4); }), "long:holes", "an absent result among others is read as a value, or counts as no result"); }
    for (int n = 0; n < 6; ++n) { auto q = l["upto"](n); vm::case_("%d results read as others", n);
      vm::ok(throws([&] { (void)q.as<double, double>(); }) == (n != 2) && throws([&] { (void)q.as<double, double, double>(); }) == (n != 3) && throws([&] { (void)q.as<double>(); }) == (n != 1) && throws([&] { (void)static_cast<std::tuple<double>>(q); }) == (n != 1), "long:arity", "another number of results is accepted, or the right one refused");
      if (n == 0) vm::ok(q.empty() && q.as<int>(7) == 7 && q.as<std::string>("d") == "d", "long:none", "no result at all does not yield the default"); else vm::ok(!q.empty(), "long:some", "results count as none"); if (n == 1) vm::ok(q.as<double>(9.0) == 1.5, "long:one", "a present result is replaced by the default"); vm::count("result_counts"); } }
  for (size_t n : { 0, 1, 255, 256, 1000, 1025, 5000, 70000 }) { vm::case_("%zu elements", n); std::vector<int> w(n); for (size_t i = 0; i < n; ++i) w[i] = (int)(i * 7 + 1); l.run_string("b = {} for i = 1, " + std::to_string(n) + " do b[i] = (i - 1) * 7 + 1 end q = string.rep('x', " + std::to_string(n) + ")");
    vm::ok(l["b"].as<std::vector<int>>() == w && l["b"].size() == n && l["q"].as<std::string>() == std::string(n, 'x') && l["q"].size() == n, "long:elements", "a long table or string reads differently"); if (n > 1) vm::ok(l["b"][(int)n].as<int>() == w[n - 1] && l["b"][(int)n + 1].empty(), "long:last", "the last element is not found"); vm::count("long_tables"); }
  // tables that were grown, filled backwards or emptied again
  l.run_string("b = {} for i = 10, 1, -1 do b[i] = i end c = {} for i = 1, 9 do c[i] = i end for i = 9, 5, -1 do c[i] = nil end d = {} table.insert(d, 4) table.insert(d, 1, 3) e = {1, 2, 3, n = 7, [0] = 9, [-1] = 8, x = 'y', [2.5] = 1}");
  vm::case_("tables by history"); vm::ok(l["b"].as<std::vector<int>>() == std::vector<int>({ 1, 2, 3, 4, 5, 6, 7, 8, 9, 10 }) && l["c"].as<std::vector<int>>() == std::vector<int>({ 1, 2, 3, 4 }) && l["d"].as<std::array<int, 2>>() == std::array<int, 2>({ { 3, 4 } }) && l["e"].as<std::vector<int>>() == std::vector<int>({ 1, 2, 3 }), "long:history", "a table with a history reads differently");
}
// globals under any name, and globals that the global table computes
static void globals() {
  if (!vm::section("globals")) return;
  vm::Rng r = vm::rng("globals"); lua_t l; std::map<std::string, int> m; l.run_string("computed = 0");
  for (uint64_t k = 0; k < vm::n(200); ++k) { std::string key = Gen<std::string>::get(r) + (r.chance(1, 2) ? "" : Gen<std::string>::get(r)); int v = (int)r.range(-99, 99); vm::case_s("global " + lit(key)); l.run_string("rawset(_G, " + lit(key) + ", " + lit(v) + ")"); m[key] = v;
    auto it = m.begin(); std::advance(it, (long)r.below(m.size())); vm::ok(l[it->first].as<int>() == it->second && l[key].as<int>() == v, "global:key", "a global is found under another name"); std::string other = key + std::string(1, (char)r.below(3)); vm::ok(l[other].empty() == !m.count(other), "global:absent", "a global that is not there is found"); vm::count("globals_read"); vm::distinct(vm::hstr(key)); }
  l.run_string("setmetatable(_G, {__index = function(t, k) return 'made ' .. k end})"); for (const char * k : { "p", "some thing", "0" }) { vm::case_("computed global %s", k); vm::ok(l[k].as<std::string>() == std::string("made ") + k, "global:computed", "a computed global is not what Lua gives"); }
  l.run_string("setmetatable(_G, {__index = {deflt = 5}})"); vm::ok(l["deflt"].as<int>() == 5 && l["other"].empty(), "global:inherited", "an inherited global is not what Lua gives"); vm::count("globals_read", 4);
}

// size() and lookups
static void tables() {
  if (!vm::section("tables")) return;
  vm::Rng r = vm::rng("tables"); lua_t l;
  for (uint64_t k = 0; k < vm::n(400); ++k) {
    std::map<std::string, int> ms; std::map<int, int> mi; std::string src = "t = {} ";
    for (int i = 0, n = (int)r.below(12); i < n; ++i) { int v = (int)r.range(-99, 99);
      if (r.chance(1, 2)) { std::string key = r.chance(1, 3) ? std::to_string(r.range(0, 4)) : Gen<std::string>::get(r); ms[key] = v; src += "t[" + lit(key) + "]=" + lit(v) + " "; }
      else { int key = (int)r.range(-4, 5); mi[key] = v; src += "t[" + lit(key) + "]=" + lit(v) + " "; } }
    vm::case_s(src); l.run_string(src + " nest = {a = {b = {t, x = t}}}");
    auto t = r.chance(1, 2) ? l["t"] : r.chance(1, 2) ? l["nest"]["a"]["b"][1] : l["nest"]["a"]["b"]["x"];
    for (auto & kv : ms) vm::ok(t[kv.first].as<int>() == kv.second, "table:string-key", "string key finds another value");
    for (auto & kv : mi) vm::ok(t[kv.first].as<int>() == kv.second, "table:int-key", "integer key finds another value");
    for (int i = -5; i <= 6; ++i) { vm::ok(t[i].empty() == !mi.count(i), "table:absent-int", "an integer key's presence is wrong"); vm::ok(t[std::to_string(i)].empty() == !ms.count(std::to_string(i)), "table:absent-str", "a numeric string key is confused with a number"); }
    std::vector<int> seq(r.below(40), 3); std::string str = Gen<std::string>::get(r); l.run_string("s = " + lit(seq) + " q = " + lit(str));
    vm::ok(l["s"].size() == seq.size() && l["q"].size() == str.size(), "table:size", "size() differs from the length");
    { l.run_string("sz = { k = s, [7] = s, [-3] = q, kq = q, n = 5 } sz['\\0'] = s function many(n) local u = {} for i = 1, n do u[i] = i end return table.unpack(u) end"); auto z = l["sz"]; int m = (int)r.below(9);
      vm::ok(z["k"].size() == seq.size() && z["kq"].size() == str.size() && z[7].size() == seq.size() && z[-3].size() == str.size() && z[std::string("\0", 1)].size() == seq.size(), "table:size-inner", "size() of an entry differs from its length");
      vm::ok(z["n"].size() == 0 && z["none"].size() == 0 && z[99].size() == 0 && l["none"].size() == 0, "table:size-none", "something without a length has one");
      auto c = l["many"](m); vm::ok(c.size() == (size_t)m && c.empty() == (m == 0), "table:size-results", "size() differs from the number of results"); auto cc = c; auto mv = std::move(cc); vm::ok(mv.size() == (size_t)m && z[7].as<std::vector<int>>() == seq, "table:size-copy", "a copy has another size");
      if (m > 0) { auto one = l["many"](m); bool t = false; try { vm::ok(one.as<int>() == 1 && m == 1, "results:one", "one value was read from several results"); } catch (const std::exception &) { t = true; } vm::ok(t == (m != 1), "results:count", "several results read as one"); } }
    vm::ok(top(l) == 0, "value:stack", "the Lua stack grew");
    vm::count("tables_probed"); vm::distinct(vm::hstr(src));
  }
}

// lua_value<T>::get takes exactly the row it is asked for
template <class T> void rows(const char * name) {
  if (!vm::section("rows")) return;
  vm::Rng r = vm::rng((std::string("row") + name).c_str()); lua_t l; lua_State * s = l.state();
  for (uint64_t k = 0; k < vm::n(150); ++k) {
    int n = (int)r.range(1, 6), at = (int)r.range(1, n); std::vector<T> vals;
    for (int i = 0; i < n; ++i) vals.push_back(Gen<T>::get(r));
    for (int i = 0; i < n; ++i) { if (luaL_dostring(s, ("return " + lit(T(vals[i]))).c_str())) { vm::viol("rows:infra", "cannot push"); return; } }
    int idx = r.chance(1, 2) ? at : at - n - 1; vm::case_s(std::string("row ") + std::to_string(idx) + " of " + std::to_string(n) + " as " + name + " " + lit(T(vals[at - 1])));
    T got = em::lua_value<T>::get(s, idx);
    vm::ok(same(got, T(vals[at - 1])), std::string("rows:") + name, "the wrong row was read");
    vm::ok(lua_gettop(s) == n - 1, std::string("rows:removed:") + name, "not exactly one row was removed");
    for (int i = n; i >= 1; --i) if (i != at) vm::ok(same(em::lua_value<T>::get(s), T(vals[i - 1])), std::string("rows:rest:") + name, "another row was removed");
    vm::ok(lua_gettop(s) == 0, "rows:stack", "rows left over"); lua_settop(s, 0);
    vm::count("rows_read", n); vm::distinct(vm::hstr(lit(T(vals[at - 1])) + name));
  }
}

int main(int argc, char ** argv) {
  vm::init(argc, argv); quiet();
#define RT(...) roundtrip<__VA_ARGS__>(#__VA_ARGS__, 120)
  RT(bool); RT(short); RT(unsigned short); RT(int); RT(unsigned); RT(long); RT(long long); RT(size_t); RT(unsigned char); RT(double); RT(float); RT(std::string);
  RT(std::vector<int>); RT(std::vector<double>); RT(std::vector<std::string>); RT(std::vector<bool>); RT(std::vector<size_t>); RT(std::vector<std::vector<int>>); RT(std::vector<std::array<double, 2>>);
  RT(std::array<double, 3>); RT(std::array<int, 1>); RT(std::array<std::string, 2>); RT(std::array<std::array<int, 2>, 3>); RT(std::array<std::vector<double>, 2>);
  RT(ristra::math::vector<double, 3>); RT(ristra::math::vector<int, 2>); RT(ristra::math::matrix<double, 2, 3>); RT(ristra::math::matrix<int, 3, 2>); RT(ristra::math::matrix<double, 2, 2>); RT(std::vector<ristra::math::matrix<double, 2, 2>>);
  argument<int>("int", "integer", 300); argument<size_t>("size_t", "integer", 300); argument<long long>("long long", "integer", 300);
  argument<float>("float", "float", 300); argument<double>("double", "float", 300); argument<bool>("bool", "boolean", 20); argument<std::string>("string", "string", 300);
  calls();
  integer<int>("int"); integer<short>("short"); integer<unsigned char>("unsigned char"); integer<unsigned>("unsigned"); integer<long long>("long long"); integer<size_t>("size_t"); integer<unsigned short>("unsigned short"); integer<long>("long");
  rounding<float>("float"); rounding<double>("double"); rounding<long double>("long double"); longs(); globals();
  refuse(); tables();
  rows<int>("int"); rows<double>("double"); rows<std::string>("string"); rows<bool>("bool"); rows<std::vector<int>>("vector"); rows<std::array<double, 2>>("array"); rows<ristra::math::matrix<double, 2, 2>>("matrix"); rows<std::vector<std::vector<int>>>("vector of vector");
  return vm::finish();
}
