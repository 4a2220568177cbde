// T01: separate objects used from several threads at once.  Each job is a self-contained
// use of the library, deterministic in its number; its digest taken alone is the oracle
// for the digests taken while other threads run other jobs, and ThreadSanitizer watches
// for state shared behind the caller's back.  Some jobs only read objects that all
// threads share.  Failures that report on the process's standard error stream are left out:
// that stream belongs to the whole process.
#include "vmon.h"
#include <atomic>
#include <thread>
#include <functional>
#include <iostream>
#include <sstream>
#include <array>
#include <list>
#include <numeric>
#include <memory>
#include <cassert>
#include "ristra/assertions/errors.h"
#include "ristra/math/array.h"
#include "ristra/math/vector.h"
#include "ristra/math/matrix.h"
#include "ristra/math/multi_array.h"
#include "ristra/math/tuple.h"
#include "ristra/math/general.h"
#include "ristra/geometry/point.h"
#include "ristra/geometry/area.h"
#include "ristra/geometry/centroid.h"
#include "ristra/geometry/shapes/triangle.h"
#include "ristra/geometry/shapes/quadrilateral.h"
#include "ristra/geometry/shapes/polygon.h"
#include "ristra/geometry/shapes/tetrahedron.h"
#include "ristra/geometry/shapes/hexahedron.h"
#include "ristra/geometry/shapes/polyhedron.h"
#include "ristra/elements/elements.h"
#include "ristra/utils/array_view.h"
#include "ristra/utils/array_ref.h"
#include "ristra/utils/fixed_vector.h"
#include "ristra/utils/string_utils.h"
#include "ristra/utils/trivial_string.h"
#include "ristra/utils/time_utils.h"
#include "ristra/utils/zip.h"
#include "ristra/utils/tasks.h"
#include "ristra/utils/filter_iterator.h"
#include "ristra/utils/algorithm.h"
#include "ristra/utils/tuple_visit.h"
#include "ristra/utils/tuple_for_each.h"
#include "ristra/utils/type_traits.h"
#include "ristra/embedded/embed_lua.h"
namespace rm = ristra::math; namespace rg = ristra::geometry; namespace sh = ristra::geometry::shapes; namespace el = ristra::elements; namespace u = ristra::utils; namespace em = ristra::embedded; using std::get;
using V = std::vector<double>; using VV = std::vector<V>; using P2 = rg::point<double, 2>; using P3 = rg::point<double, 3>;

struct Dig { uint64_t h = 7; void d(double x) { h = vm::hdbl(x, h); } void i(uint64_t x) { h = vm::hmix(h, x); } void s(const std::string & x) { h = vm::hstr(x, h); } template <class C> void all(const C & c) { for (auto & x : c) d((double)x); } };
struct Job { const char * name; std::function<void(vm::Rng &, Dig &)> run; };

static void matrices(vm::Rng & r, Dig & o) {
  rm::matrix<double, 3, 3> a, b; rm::vector<double, 3> x; for (int i = 0; i < 3; ++i) { x[i] = r.uniform(-1, 1); for (int j = 0; j < 3; ++j) { a(i, j) = r.uniform(-1, 1) + 4 * (i == j); b(i, j) = r.uniform(-1, 1); } }
  o.d(rm::determinant(a)); auto c = a * b; o.all(c); auto y = a * x; o.all(y); o.all(rm::inverse(a)); o.all(rm::solve(a, x)); o.all(rm::transpose(a)); o.all(rm::outer_product(x, y)); o.d(rm::dot_product(x, y)); rm::matrix<double, 3, 3> z(0); rm::matrix_multiply(a, b, z); o.all(z); a += b; a *= 2.0; o.all(a); auto e = rm::exponential(b); o.all(e); o.all(rm::rotation_matrix<double, 2>(r.uniform(0, 3)));
}
static void vectors(vm::Rng & r, Dig & o) {
  rm::vector<double, 4> a, b; rm::array<double, 5> c; rm::multi_array<double, 2, 3> m; for (auto & x : a) x = r.uniform(-5, 5); for (auto & x : b) x = r.uniform(-5, 5); for (auto & x : c) x = r.uniform(-5, 5); for (auto & x : m) x = r.uniform(-5, 5);
  o.all(a + b); o.all(a - b); o.all(2.0 * a); o.d(rm::magnitude(a)); o.all(rm::unit(a)); o.d(rm::dot_product(a, b)); o.d(*rm::max_element(std::vector<double>(c.begin(), c.end()))); o.d(rm::average(V(c.begin(), c.end()))); o.all(c + c); o.all(m + m); m /= 3.0; o.all(m); std::ostringstream s; s << a << c; o.s(s.str()); o.i(a < b); o.i(c == c); o.d(rm::delta_magnitude(a, b));
  try { m.at(7, 7) = 1; } catch (const std::exception & e) { o.i(1); } try { c.at(99) = 1; } catch (const std::exception & e) { o.i(2); }
  auto t = std::make_tuple(r.uniform(0, 1), (int)r.below(9)); using namespace rm; auto t2 = t + t; o.d(get<0>(t2)); o.i((uint64_t)get<1>(t2));
}
static void planar(vm::Rng & r, Dig & o) {
  size_t n = 4 + r.below(8); std::vector<P2> v; std::vector<P3> w; double k = r.uniform(0.5, 2); for (size_t i = 0; i < n; ++i) { double t = 6.28318 * i / n; v.push_back(P2(k * cos(t), sin(t))); w.push_back(P3(k * cos(t), sin(t), 0.3 * cos(t))); }
  o.d(sh::polygon<2>::area(v)); o.all(sh::polygon<2>::centroid(v)); o.all(sh::polygon<2>::normal(v)); o.all(sh::polygon<2>::midpoint(v)); o.d(sh::polygon<3>::area(w)); o.all(sh::polygon<3>::centroid(w)); o.all(sh::polygon<3>::normal(w)); o.all(sh::polygon<3>::midpoint(w)); o.d(rg::area(v)); o.all(rg::centroid_2d(v));
  o.d(sh::quadrilateral<2>::area(v[0], v[1], v[2], v[3])); o.all(sh::quadrilateral<3>::centroid(w[0], w[1], w[2], w[3])); o.d(sh::triangle<3>::area(w[0], w[1], w[2])); o.all(sh::triangle<2>::centroid(v[0], v[1], v[2])); o.d(rg::distance(w[0], w[1])); o.all(rg::midpoint(w[0], w[1]));
}
static void solids(vm::Rng & r, Dig & o) {
  P3 q[8]; static const int c[8][3] = { { 0, 0, 0 }, { 1, 0, 0 }, { 1, 1, 0 }, { 0, 1, 0 }, { 0, 0, 1 }, { 1, 0, 1 }, { 1, 1, 1 }, { 0, 1, 1 } }; for (int i = 0; i < 8; ++i) for (int d = 0; d < 3; ++d) q[i][d] = c[i][d] + r.uniform(-0.1, 0.1);
  o.d(sh::hexahedron::volume(q[0], q[1], q[2], q[3], q[4], q[5], q[6], q[7])); o.all(sh::hexahedron::centroid(q[0], q[1], q[2], q[3], q[4], q[5], q[6], q[7])); o.all(sh::hexahedron::midpoint(q[0], q[1], q[2], q[3], q[4], q[5], q[6], q[7])); o.d(sh::tetrahedron::volume(q[0], q[1], q[3], q[4])); o.all(sh::tetrahedron::centroid(q[0], q[1], q[3], q[4]));
  sh::polyhedron<P3> s; static const int f[6][4] = { { 0, 3, 2, 1 }, { 4, 5, 6, 7 }, { 0, 1, 5, 4 }, { 1, 2, 6, 5 }, { 2, 3, 7, 6 }, { 3, 0, 4, 7 } }; for (auto & g : f) s.insert({ q[g[0]], q[g[1]], q[g[2]], q[g[3]] }); o.d(s.volume()); o.all(s.centroid()); o.all(s.midpoint());
}
template <class E, class B> void element(vm::Rng & r, Dig & o, int n, int d) {
  E e; B & b = e; V x(d), out(n), p(d); VV v(n, V(d)); for (auto & c : x) c = r.uniform(-1, 1); for (auto & q : v) for (auto & c : q) c = r.uniform(-1, 1); b.physical_position(p, x, v); o.all(p); b.partial_xi_shape_fcn(out, x); o.all(out); b.partial_eta_shape_fcn(out, x); o.all(out);
  if constexpr (!std::is_same<B, el::Element4D>::value) { b.basis(out, x, v); o.all(out); } if constexpr (!std::is_same<B, el::Element2D>::value) { b.partial_mu_shape_fcn(out, x); o.all(out); }
}
static void elements(vm::Rng & r, Dig & o) {
  switch (r.below(7)) { case 0: element<el::Quad_4_2D, el::Element2D>(r, o, 4, 2); break; case 1: element<el::Quad_8_2D, el::Element2D>(r, o, 8, 2); break; case 2: element<el::Quad_12_2D, el::Element2D>(r, o, 12, 2); break; case 3: element<el::Hex8, el::Element3D>(r, o, 8, 3); break; case 4: element<el::Hex20, el::Element3D>(r, o, 20, 3); break; case 5: element<el::Hex32, el::Element3D>(r, o, 32, 3); break; default: element<el::Tess16, el::Element4D>(r, o, 16, 4); }
}
template <class E, int D> void orderN(vm::Rng & r, Dig & o, int ord) {
  E e; int n = ord + 1, tot = 1; for (int d = 0; d < D; ++d) tot *= n; V nd(n), v1(n), d1(n), b(tot), x(D); VV nodes(tot, V(D)), v2(tot, V(D)), dv(tot, V(D)), part(tot, V(D)); for (auto & c : x) c = r.uniform(-1, 1); e.chebyshev_nodes_1D(nd, ord); o.all(nd); e.lagrange_1D(v1, d1, x[0], nd, ord); o.all(v1); o.all(d1); e.basis_partials(nodes, nd, v1, d1, v2, dv, b, part, x, ord); o.all(b); for (auto & q : part) o.all(q); V p(D); e.physical_position(p, nodes, b, ord); o.all(p);
}
static void lagrangian(vm::Rng & r, Dig & o) { if (r.chance(1, 2)) orderN<el::QuadN, 2>(r, o, 1 + r.below(5)); else orderN<el::HexN, 3>(r, o, 1 + r.below(2)); }
static void quadrature(vm::Rng & r, Dig & o) {
  int p = 1 + r.below(4), D = 2 + r.below(3), tot = 1; for (int d = 0; d < D; ++d) tot *= p; VV x(tot, V(D)), w(tot, V(D)); V tw(tot); int q = p; const int dd = D; bool g = r.chance(1, 2); if (D == 2) g ? el::Gauss2D(x, w, tw, q) : el::Lobatto2D(x, w, q); else if (D == 3) g ? el::Gauss3D(x, w, tw, q) : el::Lobatto3D(x, w, q); else g ? el::Gauss4D(x, w, q, dd) : el::Lobatto4D(x, w, q, dd); for (auto & z : x) o.all(z); for (auto & z : w) o.all(z);
  int n = D == 2 ? 4 : D == 3 ? 8 : 16; VV X(n, V(D)), Pp(n, V(D)), J(D, V(D)), I(D, V(D)); for (auto & z : X) for (auto & c : z) c = r.uniform(-1, 1); for (auto & z : Pp) for (auto & c : z) c = r.uniform(-1, 1); double det; const int nn = n; if (D == 4) { el::jacobian4D(J, det, X, Pp, nn, dd); el::jacobian_inverse_4d(I, J, det); } else { el::jacobian(J, det, X, Pp, nn, dd); if (D == 2) el::jacobian_inverse_2d(I, J); else el::jacobian_inverse_3d(I, J); } o.d(det); for (auto & z : J) o.all(z); for (auto & z : I) o.all(z);
}
static void sequences(vm::Rng & r, Dig & o) {
  u::fixed_vector<int, 32> f; for (int i = 0; i < 12; ++i) { f.push_back((int)r.range(-9, 9)); if (r.chance(1, 4)) f.insert(f.begin() + r.below(f.size()), (int)r.below(9)); if (r.chance(1, 4)) f.erase(f.begin() + r.below(f.size())); } o.all(f); u::fixed_vector<std::string, 8> g; for (int i = 0; i < 6; ++i) g.emplace_back(std::string(r.below(40), 'a' + i)); auto h = g; for (auto & s : h) o.s(s); o.i(g == h); try { f.at(99) = 1; } catch (const std::exception & e) { o.i(3); }
  std::vector<int> s(24); for (auto & x : s) x = (int)r.range(-99, 99); u::array_view<int, 2> v(s.data(), u::contiguous_bounds<2>(u::index_t<2>(std::array<std::ptrdiff_t, 2>{ 4, 6 }))); auto sl = v[1]; for (int i = 0; i < 6; ++i) o.i((uint64_t)sl[u::index_t<1>{ i }]); for (auto i : v.bounds()) o.i((uint64_t)v[i]); u::array_ref<int> ar(s); o.i(ar.size()); for (int x : ar) o.i((uint64_t)x);
  std::vector<double> a(7), b(7); for (auto & x : a) x = r.uniform(-1, 1); auto task = [](double & p, double & q) { q = 2 * p; }; u::simple_task(task, a, b); o.all(b); for (auto t : u::zip(a, b)) o.d(get<0>(t) + get<1>(t)); auto pos = [](int x) { return x > 0; }; for (auto it = u::make_filter_iterator(s.begin(), s.end(), pos), e = u::make_filter_iterator(s.end(), s.end(), pos); it != e; ++it) o.i((uint64_t)*it); auto d = s; u::remove_duplicates(d); o.all(d);
}
static void texts(vm::Rng & r, Dig & o) {
  std::string s; for (int i = 0; i < 20; ++i) s += "ab/. ,"[r.below(6)]; o.s(u::replace_all(s, "a", "xy")); for (auto & p : u::split(s, { ',', '/' })) o.s(p); for (auto & p : u::split(s)) o.s(p); o.s(u::basename(s)); o.s(u::file_extension(s)); o.s(u::remove_extension(s)); auto se = u::split_extension(s); o.s(se.first + "|" + se.second); o.s(u::to_string(r.below(99999))); o.s(u::zero_padded((unsigned)r.below(9999))); o.i(u::num_digits((unsigned)r.next())); for (wchar_t c : u::to_wstring(s.c_str())) o.i(c);
  long long d; int h, m, sec; u::daysHoursMinutesSeconds((long long)(r.next() >> 30), d, h, m, sec); o.i(d); o.i(h * 10000 + m * 100 + sec); auto t = u::to_trivial_string<32>(s); o.s(t.str()); o.s(u::type_as_string<std::vector<int>>()); o.i(u::get_wall_time() > 0);
}
static void lua(vm::Rng & r, Dig & o) {
  em::lua_t s; int k = (int)r.below(1000); o.i(s.run_string("x = " + std::to_string(k) + "; t = { 1.5, 2.5, k = { 'a', 'bc' } }; function f(a, b) return a + b, tostring(a) end")); o.i((uint64_t)(lua_try_access_as(s, "x", int))); auto t = s["t"]; o.d(t[1].as<double>()); o.s(t["k"][2].as<std::string>()); auto res = s["f"](k, 7); auto tup = res.as<std::tuple<int, std::string>>(); o.i((uint64_t)get<0>(tup)); o.s(get<1>(tup));
}
// objects all threads look at
struct Shared { rm::matrix<double, 3, 3> m; rm::vector<double, 5> v; sh::polyhedron<P3> s; std::vector<P2> p; u::fixed_vector<int, 32> f; std::vector<int> st; u::array_view<const int, 2> view; rm::multi_array<int, 3, 4> ma; };
static Shared * g_sh;
static void readers(vm::Rng & r, Dig & o) {
  const Shared & s = *g_sh; o.d(rm::determinant(s.m)); o.all(rm::inverse(s.m)); o.d(rm::magnitude(s.v)); o.d(s.s.volume()); o.all(s.s.centroid()); o.all(s.s.midpoint()); o.d(sh::polygon<2>::area(s.p)); o.all(s.f); o.i(s.f.size()); o.i((uint64_t)s.f.at(3)); o.i(s.f == s.f); for (auto i : s.view.bounds()) o.i((uint64_t)s.view[i]); auto sec = s.view.section({ 1, 1 }, { 2, 2 }); for (auto i : sec.bounds()) o.i((uint64_t)sec[i]); o.i((uint64_t)s.ma(r.below(3), r.below(4))); sh::polyhedron<P3> copy(s.s); o.d(copy.volume()); std::ostringstream os; os << s.v; o.s(os.str());
}
int main(int argc, char ** argv) {
  vm::init(argc, argv); std::cerr.rdbuf(nullptr); std::ostringstream sink; std::cout.rdbuf(nullptr);
  Shared sd; vm::Rng g = vm::rng("shared"); for (auto & x : sd.m) x = g.uniform(-1, 1); for (int i = 0; i < 3; ++i) sd.m(i, i) += 4; for (auto & x : sd.v) x = g.uniform(-1, 1); for (int i = 0; i < 20; ++i) sd.f.push_back((int)g.below(99)); for (auto & x : sd.ma) x = (int)g.below(99); sd.p = { P2(0, 0), P2(2, 0), P2(2, 1), P2(0, 3) };
  { P3 a(0, 0, 0), b(1, 0, 0), c(0, 1, 0), d(0, 0, 1); sd.s.insert({ a, c, b }); sd.s.insert({ a, b, d }); sd.s.insert({ b, c, d }); sd.s.insert({ c, a, d }); } sd.st.resize(12); std::iota(sd.st.begin(), sd.st.end(), 0); sd.view = u::array_view<const int, 2>(sd.st.data(), u::contiguous_bounds<2>(u::index_t<2>(std::array<std::ptrdiff_t, 2>{ 3, 4 }))); g_sh = &sd;
  std::vector<Job> jobs = { { "matrices", matrices }, { "vectors", vectors }, { "planar shapes", planar }, { "solids", solids }, { "elements", elements }, { "arbitrary order elements", lagrangian }, { "quadrature and Jacobians", quadrature }, { "sequences and views", sequences }, { "strings and times", texts }, { "Lua states", lua }, { "shared objects, read only", readers } };
  const int K = 60, T = vm::thorough() ? 8 : 4; std::vector<std::vector<uint64_t>> want(jobs.size(), std::vector<uint64_t>(K)); const uint64_t base = vm::seed() * 1000003;
  auto once = [&](size_t j, int k) { vm::Rng r(vm::hmix(base + k, j)); Dig d; jobs[j].run(r, d); return d.h; };
  // half of the jobs first run alone, half first run in company: first uses happen both ways
  auto alone = [&](size_t j) { for (int k = 0; k < K; ++k) { vm::case_("%s number %d alone", jobs[j].name, k); uint64_t h = once(j, k); if (!want[j][k]) want[j][k] = h; else vm::ok(h == want[j][k], std::string(jobs[j].name) + ":alone", "two runs alone differ"); } };
  struct Obs { size_t j; int k; uint64_t h; }; const uint64_t rounds = vm::n(60);
  const bool late = vm::seed() & 1; for (size_t j = 0; j < jobs.size(); ++j) if ((j & 1) == late) alone(j);
  for (uint64_t q = 0; q < rounds; ++q) {
    vm::case_("round %llu of %d threads", (unsigned long long)q, T); std::vector<std::vector<Obs>> seen(T); std::atomic<int> ready{ 0 }; std::vector<std::thread> th;
    for (int t = 0; t < T; ++t) th.emplace_back([&, t] { vm::Rng r(vm::hmix(base + q, 77 + t)); ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < T) {} // no ordering beyond the start
      for (size_t s = 0; s < jobs.size(); ++s) { size_t j = q % 2 ? (s + t) % jobs.size() : s; for (int c = 0; c < 16; ++c) { int k = (int)r.below(K); seen[t].push_back({ j, k, once(j, k) }); } } });
    for (auto & x : th) x.join();
    if (q == 0) { for (size_t j = 0; j < jobs.size(); ++j) if ((j & 1) != late) alone(j); }
    for (int t = 0; t < T; ++t) for (auto & b : seen[t]) { vm::case_("%s number %d in round %llu", jobs[b.j].name, b.k, (unsigned long long)q); vm::ok(b.h == want[b.j][b.k], std::string(jobs[b.j].name) + ":in company", "a result obtained while other threads ran differs from the one obtained alone"); vm::count(jobs[b.j].name); vm::distinct(vm::hmix(b.j * 1000 + b.k, vm::hmix(q, t))); }
  }
  vm::sample("11 kinds of job, " + std::to_string(K) + " numbers each, " + std::to_string(T) + " threads, the kinds aligned in even rounds and staggered in odd ones"); vm::sample("digests compared with those taken alone; first uses happen alone for half of the kinds and in company for the other half");
  return vm::finish();
}
