// E01 (PART 1) basis functions and positions, E02 (PART 2) their derivatives.
// Oracle: the basis of an element is the only one that reproduces the element's
// polynomial space from its nodes; it is recovered in long double by solving the
// Vandermonde system of the documented node layout, and so are its derivatives.
#include "vmon.h"
#include <sstream>
#include <iostream>
#include <functional>
#include <memory>
#include <algorithm>
#include "ristra/elements/elements.h"
namespace el = ristra::elements; using ld = long double; using V = std::vector<double>; using VV = std::vector<V>;
#ifndef PART
#define PART 1
#endif
struct Space { int d, n; std::vector<std::vector<ld>> node; std::vector<std::vector<int>> mono; std::vector<std::vector<ld>> inv; };
// superlinear degree: the degree ignoring variables that enter linearly
static void monomials(Space & s, int deg) {
  std::vector<int> e(s.d, 0);
  for (;;) { int sl = 0; for (int x : e) if (x > 1) sl += x; if (sl <= deg) s.mono.push_back(e); int k = 0; while (k < s.d && ++e[k] > std::max(deg, 1)) e[k++] = 0; if (k == s.d) break; }
}
static ld mono(const std::vector<int> & e, const std::vector<ld> & x, int der) {
  ld r = 1; for (size_t k = 0; k < e.size(); ++k) { int p = e[k]; if ((int)k == der) { if (p == 0) return 0; r *= p; p--; } for (int i = 0; i < p; ++i) r *= x[k]; } return r;
}
static void prepare(Space & s) {
  int n = s.n; if ((int)s.mono.size() != n) { fprintf(stderr, "space size %zu for %d nodes\n", s.mono.size(), n); exit(65); }
  std::vector<std::vector<ld>> a(n, std::vector<ld>(2 * n, 0)); // rows: monomials, columns: nodes
  for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) a[i][j] = mono(s.mono[i], s.node[j], -1); a[i][n + i] = 1; }
  for (int c = 0; c < n; ++c) { int p = c; for (int i = c; i < n; ++i) if (fabsl(a[i][c]) > fabsl(a[p][c])) p = i; std::swap(a[c], a[p]); ld v = a[c][c]; if (fabsl(v) < 1e-9L) { fprintf(stderr, "singular\n"); exit(65); }
    for (auto & x : a[c]) x /= v; for (int i = 0; i < n; ++i) if (i != c) { ld f = a[i][c]; if (f != 0) for (int j = 0; j < 2 * n; ++j) a[i][j] -= f * a[c][j]; } }
  s.inv.assign(n, std::vector<ld>(n)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) s.inv[i][j] = a[i][n + j];
}
static std::vector<ld> eval(const Space & s, const std::vector<ld> & x, int der) {
  std::vector<ld> m(s.n), r(s.n, 0); for (int i = 0; i < s.n; ++i) m[i] = mono(s.mono[i], x, der); for (int i = 0; i < s.n; ++i) for (int j = 0; j < s.n; ++j) r[i] += s.inv[i][j] * m[j]; return r;
}
// node layouts, from the pictures in the documentation of each element
static Space quad(int nodes) {
  Space s; s.d = 2; s.n = nodes; s.node = { { -1, -1 }, { 1, -1 }, { 1, 1 }, { -1, 1 } }; ld t = 1.0L / 3;
  if (nodes == 8) for (auto & p : std::vector<std::vector<ld>>{ { 0, -1 }, { 1, 0 }, { 0, 1 }, { -1, 0 } }) s.node.push_back(p);
  if (nodes == 12) for (auto & p : std::vector<std::vector<ld>>{ { -t, -1 }, { t, -1 }, { t, 1 }, { -t, 1 }, { -1, -t }, { 1, -t }, { 1, t }, { -1, t } }) s.node.push_back(p);
  monomials(s, nodes == 4 ? 0 : nodes == 8 ? 2 : 3); prepare(s); return s;
}
static Space hex(int nodes) {
  Space s; s.d = 3; s.n = nodes; std::vector<std::vector<ld>> c = { { -1, -1 }, { 1, -1 }, { 1, 1 }, { -1, 1 } }; ld t = 1.0L / 3; // (xi,mu) of the four corners
  for (ld eta : { -1.0L, 1.0L }) for (auto & p : c) s.node.push_back({ p[0], eta, p[1] });
  if (nodes == 20) { std::vector<std::vector<ld>> m = { { 0, -1 }, { 1, 0 }, { 0, 1 }, { -1, 0 } }; for (ld eta : { -1.0L, 1.0L }) for (auto & p : m) s.node.push_back({ p[0], eta, p[1] }); for (auto & p : c) s.node.push_back({ p[0], 0, p[1] }); }
  if (nodes == 32) {
    for (ld eta : { -1.0L, 1.0L }) for (auto & p : c) s.node.push_back({ p[0], eta, p[1] * t });
    for (ld eta : { -1.0L, 1.0L }) for (auto & p : c) s.node.push_back({ p[0] * t, eta, p[1] });
    for (ld eta : { -t, t }) for (auto & p : c) s.node.push_back({ p[0], eta, p[1] });
  }
  monomials(s, nodes == 8 ? 0 : nodes == 20 ? 2 : 3); prepare(s); return s;
}
static Space tess() { Space s; s.d = 4; s.n = 16; Space h = hex(8); for (ld tau : { -1.0L, 1.0L }) for (auto & p : h.node) s.node.push_back({ p[0], p[1], p[2], tau }); monomials(s, 0); prepare(s); return s; }

struct Elem {
  const char * name; Space s;
  std::function<void(V &, const V &, const VV &)> basis, pos; std::vector<std::function<void(V &, const V &)>> part;
};
template <class E> Elem make2(const char * n, Space s) {
  auto e = std::make_shared<E>(); el::Element2D * b = e.get(); Elem r; r.name = n; r.s = s;
  r.basis = [e, b](V & o, const V & x, const VV & v) { b->basis(o, x, v); }; r.pos = [e, b](V & o, const V & x, const VV & v) { b->physical_position(o, x, v); };
  r.part = { [e, b](V & o, const V & x) { b->partial_xi_shape_fcn(o, x); }, [e, b](V & o, const V & x) { b->partial_eta_shape_fcn(o, x); } }; return r;
}
template <class E> Elem make3(const char * n, Space s) {
  auto e = std::make_shared<E>(); el::Element3D * b = e.get(); Elem r; r.name = n; r.s = s;
  r.basis = [e, b](V & o, const V & x, const VV & v) { b->basis(o, x, v); }; r.pos = [e, b](V & o, const V & x, const VV & v) { b->physical_position(o, x, v); };
  r.part = { [e, b](V & o, const V & x) { b->partial_xi_shape_fcn(o, x); }, [e, b](V & o, const V & x) { b->partial_eta_shape_fcn(o, x); }, [e, b](V & o, const V & x) { b->partial_mu_shape_fcn(o, x); } }; return r;
}
static Elem make4() {
  auto e = std::make_shared<el::Tess16>(); el::Element4D * b = e.get(); Elem r; r.name = "tess16"; r.s = tess(); r.pos = [e, b](V & o, const V & x, const VV & v) { b->physical_position(o, x, v); };
  r.part = { [e, b](V & o, const V & x) { b->partial_xi_shape_fcn(o, x); }, [e, b](V & o, const V & x) { b->partial_eta_shape_fcn(o, x); }, [e, b](V & o, const V & x) { b->partial_mu_shape_fcn(o, x); }, [e, b](V & o, const V & x) { b->partial_tau_shape_fcn(o, x); } }; return r;
}
static double garbage(vm::Rng & g) { return g.chance(1, 3) ? NAN : g.uniform(-1e6, 1e6); }
static V dirty(vm::Rng & g, size_t n) { V v(n); for (auto & x : v) x = garbage(g); v.shrink_to_fit(); return v; }
static std::string show(const V & v) { std::ostringstream o; o.precision(17); o << "("; for (double x : v) o << x << " "; o << ")"; return o.str(); }
static V point(vm::Rng & g, const Space & s, int & at) {
  V x(s.d); at = -1; unsigned m = g.below(8);
  if (m == 0) { at = g.below(s.n); for (int k = 0; k < s.d; ++k) x[k] = (double)s.node[at][k]; }
  else for (auto & c : x) c = m == 1 ? (double)g.range(-1, 1) : m == 2 ? g.uniform(-3, 3) : m == 3 && g.chance(1, 2) ? (g.chance(1, 2) ? 1. : -1.) : g.uniform(-1, 1);
  return x;
}
static VV corners_like(vm::Rng & g, const Space & s) { // a deformed element
  VV v(s.n, V(s.d)); double sc = std::pow(10., g.chance(1, 4) ? g.uniform(-20, 20) : g.uniform(-3, 3)); std::vector<V> A(s.d, V(s.d)); V b(s.d); for (auto & r : A) for (auto & c : r) c = g.uniform(-1, 1) * sc; for (auto & c : b) c = g.uniform(-2, 2) * sc;
  double w = g.chance(1, 3) ? 0 : g.chance(1, 2) ? 0.2 : 3; for (int i = 0; i < s.n; ++i) for (int k = 0; k < s.d; ++k) { double x = b[k] + w * sc * g.uniform(-1, 1); for (int j = 0; j < s.d; ++j) x += A[k][j] * (double)s.node[i][j]; v[i][k] = x; }
  return v;
}
static void element(Elem & e, vm::Rng & g) {
  const Space & s = e.s; int at; V x = point(g, s, at); VV v = corners_like(g, s); vm::case_s(std::string(e.name) + " at " + show(x)); uint64_t h = vm::hstr(e.name); for (double c : x) h = vm::hdbl(c, h); vm::distinct(h);
  std::vector<ld> lx(x.begin(), x.end()); ld m = 1; for (ld c : lx) m *= std::max(1.0L, fabsl(c)); m = m * m * m; // magnitude of the terms of the polynomials
  std::string k = e.name;
#if PART == 1
  auto N = eval(s, lx, -1);
  if (e.basis) { V b = dirty(g, s.n + (g.chance(1, 4) ? 1 + g.below(5) : 0)); e.basis(b, x, v); double sum = 0; for (int i = 0; i < s.n; ++i) { vm::okn(b[i], (double)N[i], 1e-13, (double)m * 8, k + ":basis", "basis function value"); sum += b[i]; if (at >= 0) vm::okn(b[i], i == at ? 1 : 0, 1e-14, 4, k + ":nodal", "basis function at a node"); }
    vm::okn(sum, 1, 1e-13, (double)m * 8, k + ":unity", "sum of the basis functions"); vm::count("basis evaluations"); }
  if (g.chance(1, 4)) v.resize(s.n + 1 + g.below(5), V(s.d, 3.5)); V p = dirty(g, s.d); e.pos(p, x, v); vm::count("positions"); for (int d = 0; d < s.d; ++d) { ld w = 0, sc = 0; for (int i = 0; i < s.n; ++i) { w += N[i] * (ld)v[i][d]; sc = std::max(sc, fabsl((ld)v[i][d])); } vm::okn(p[d], (double)w, 1e-12, (double)(sc * m * 8), k + ":position", "mapped coordinate"); if (at >= 0) { vm::okn(p[d], v[at][d], 1e-13, (double)sc * 8, k + ":node position", "mapped node"); vm::count("node positions"); } }
  if (g.chance(1, 3)) { VV v2 = g.chance(1, 2) ? corners_like(g, s) : v; V x2 = x; if (g.chance(1, 2)) { int at2; x2 = point(g, s, at2); } if (g.chance(1, 2)) v2[g.below(s.n)][g.below(s.d)] += 1; // one argument kept from the last call, another changed
    std::vector<ld> l2(x2.begin(), x2.end()); ld m2 = 1; for (ld c : l2) m2 *= std::max(1.0L, fabsl(c)); m2 = m2 * m2 * m2; auto N2 = eval(s, l2, -1); V q = dirty(g, s.d); e.pos(q, x2, v2); vm::count("positions with one argument kept"); for (int d = 0; d < s.d; ++d) { ld w = 0, sc = 0; for (int i = 0; i < s.n; ++i) { w += N2[i] * (ld)v2[i][d]; sc = std::max(sc, fabsl((ld)v2[i][d])); } vm::okn(q[d], (double)w, 1e-12, (double)(sc * m2 * 8), k + ":position again", "mapped coordinate after another call"); } }
  vm::sample_if(e.name, "xi=" + show(x) + " -> " + show(p));
#else
  ld der[4] = { 0, 0, 0, 0 };
  for (int d = 0; d < s.d; ++d) {
    auto D = eval(s, lx, d); V q = dirty(g, s.n + (g.chance(1, 4) ? 1 + g.below(5) : 0)); e.part[d](q, x); double sum = 0; for (int i = 0; i < s.n; ++i) { vm::okn(q[i], (double)D[i], 1e-13, (double)m * 40, k + ":derivative", "partial derivative of a basis function"); sum += q[i]; }
    vm::okn(sum, 0, 1e-13, (double)m * 40, k + ":derivative sum", "sum of the partial derivatives"); vm::count("derivative evaluations");
    // and against the code's own basis: the map's directional difference
    V a = x, b = x; double hh = 1e-3; V pa(s.d), pb(s.d), pc(s.d), pd(s.d); V c = x, f = x; a[d] += hh; b[d] -= hh; c[d] += 2 * hh; f[d] -= 2 * hh; e.pos(pa, a, v); e.pos(pb, b, v); e.pos(pc, c, v); e.pos(pd, f, v);
    for (int t = 0; t < s.d; ++t) { double w = 0, sc = 0; for (int i = 0; i < s.n; ++i) { w += q[i] * v[i][t]; sc = std::max(sc, std::fabs(v[i][t])); } double fd = (8 * (pa[t] - pb[t]) - (pc[t] - pd[t])) / (12 * hh); vm::okn(w, fd, 1e-9, sc * (double)m * 40, k + ":map slope", "slope of the map along a direction"); }
  }
  vm::sample_if(e.name, "xi=" + show(x));
#endif
}

// arbitrary order Lagrange elements
struct Lag { std::vector<ld> v, d, dscale; };
static Lag lagrange(const V & nodes, double x) {
  int n = nodes.size(); Lag r; r.v.resize(n); r.d.resize(n); r.dscale.resize(n);
  for (int i = 0; i < n; ++i) { ld p = 1; for (int j = 0; j < n; ++j) if (j != i) p *= ((ld)x - nodes[j]) / ((ld)nodes[i] - nodes[j]); r.v[i] = p; ld s = 0, a = 0; for (int j = 0; j < n; ++j) if (j != i) { ld t = 1 / ((ld)nodes[i] - nodes[j]); for (int k = 0; k < n; ++k) if (k != i && k != j) t *= ((ld)x - nodes[k]) / ((ld)nodes[i] - nodes[k]); s += t; a += fabsl(t); } r.d[i] = s; r.dscale[i] = a; }
  return r;
}
template <class E, int D> void lagElement(const char * name, vm::Rng & g, int maxo) {
  E e; int o = maxo > 8 && D == 3 ? maxo : 1 + g.below(maxo), n = o + 1, tot = 1; for (int d = 0; d < D; ++d) tot *= n; std::string k = name;
  V nd = dirty(g, n + (g.chance(1, 3) ? 1 + g.below(4) : 0)); unsigned kind = g.below(4); e.chebyshev_nodes_1D(nd, o); nd.resize(n);
  vm::case_("%s order %d nodes %u", name, o, kind);
#if PART == 1
  vm::okn(nd[0], -1, 0, 1, k + ":cheb", "first node"); vm::okn(nd[o], 1, 0, 1, k + ":cheb", "last node"); for (int i = 1; i < o; ++i) vm::okn(nd[i], (double)-cosl(acosl(-1.0L) * (2 * i + 1) / (2 * (o + 1))), 1e-14, 1, k + ":cheb", "interior node"); vm::count("node sets");
#endif
  if (kind == 1) for (int i = 0; i < n; ++i) nd[i] = -1 + 2.0 * i / o; if (kind == 2) { double c = 0; for (auto & x : nd) { x = c; c += g.uniform(0.1, 1); } for (auto & x : nd) x = 2 * x / (c > 0 ? c : 1) - 1; } if (kind == 3) { double s = g.uniform(0.2, 5), b = g.uniform(-4, 4); for (auto & x : nd) x = s * x + b; }
  V x(D); std::vector<int> at(D, -1); double lo = *std::min_element(nd.begin(), nd.end()), hi = *std::max_element(nd.begin(), nd.end()); bool allnode = g.chance(1, 6);
  for (int d = 0; d < D; ++d) { if (allnode || g.chance(1, 6)) { at[d] = g.below(n); x[d] = nd[at[d]]; } else x[d] = g.uniform(lo - 0.1, hi + 0.1); }
  vm::case_s(std::string(name) + " order " + std::to_string(o) + " nodes " + show(nd) + " at " + show(x)); uint64_t h = vm::hstr(name); for (double c : nd) h = vm::hdbl(c, h); for (double c : x) h = vm::hdbl(c, h); vm::distinct(h);
  std::vector<Lag> L; for (int d = 0; d < D; ++d) L.push_back(lagrange(nd, x[d]));
  const int x1 = g.chance(1, 3) ? 3 : 0; V i1 = dirty(g, n + x1), d1 = dirty(g, n + x1); { V nl = nd; for (int i = 0; i < x1; ++i) nl.push_back(g.uniform(-9, 9)); e.lagrange_1D(i1, d1, x[0], nl, o); }
  for (int i = 0; i < n; ++i) {
#if PART == 1
    vm::okn(i1[i], (double)L[0].v[i], 1e-13, (double)fabsl(L[0].v[i]), k + ":1d basis", "1d interpolant");
#else
    vm::okn(d1[i], (double)L[0].d[i], 1e-12, (double)L[0].dscale[i], k + ":1d derivative", "1d derivative");
#endif
  }
  { V n2 = nd; unsigned how = g.below(3); if (how == 0) n2[g.below(n)] += 0.013; else if (how == 1) for (auto & c : n2) c = 1.5 * c + 0.1; int o2 = o; if (how == 2 && o > 1) { o2 = o - 1; n2.resize(o); } auto L2 = lagrange(n2, x[0]); V i2 = dirty(g, o2 + 1), d2 = dirty(g, o2 + 1); e.lagrange_1D(i2, d2, x[0], n2, o2); // the point kept, the nodes or the order changed
    for (int i = 0; i <= o2; ++i) {
#if PART == 1
      vm::okn(i2[i], (double)L2.v[i], 1e-13, (double)fabsl(L2.v[i]), k + ":1d basis again", "1d interpolant after another call");
#else
      vm::okn(d2[i], (double)L2.d[i], 1e-12, (double)L2.dscale[i], k + ":1d derivative again", "1d derivative after another call");
#endif
    } }
  const int xt = g.chance(1, 3) ? 1 + (int)g.below(40) : 0, xn = g.chance(1, 3) ? 1 + (int)g.below(5) : 0; if (xt || xn) vm::count("evaluations in storage with room to spare");
  VV nodes(tot + xt, dirty(g, D)), v2(tot + xt, dirty(g, D)), dv(tot + xt, dirty(g, D)), part(tot + xt, dirty(g, D)); V b = dirty(g, tot + xt), v1 = dirty(g, n + xn), dv1 = dirty(g, n + xn); V ndc = nd; for (int i = 0; i < xn; ++i) ndc.push_back(g.uniform(-9, 9));
  e.basis_partials(nodes, ndc, v1, dv1, v2, dv, b, part, x, o); vm::count("evaluations");
  for (int i = 0; i < n; ++i) vm::ok(ndc[i] == nd[i], k + ":nodes kept", "the 1d nodes changed");
  for (int m = 0; m < tot; ++m) { int id[3] = { m % n, (m / n) % n, m / n / n }; ld w = 1; for (int d = 0; d < D; ++d) { w *= L[d].v[id[d]];
#if PART == 1
      vm::okn(nodes[m][d], nd[id[d]], 0, 1, k + ":node", "node coordinate");
#endif
    }
#if PART == 1
    vm::okn(b[m], (double)w, 1e-12, (double)fabsl(w), k + ":basis", "basis value");
#else
    for (int d = 0; d < D; ++d) { ld q = L[d].d[id[d]], sc = L[d].dscale[id[d]]; for (int t = 0; t < D; ++t) if (t != d) { q *= L[t].v[id[t]]; sc *= fabsl(L[t].v[id[t]]); } vm::okn(part[m][d], (double)q, 1e-12, (double)sc, k + ":derivative", "basis derivative"); }
    vm::count("derivative sets");
#endif
  }
#if PART == 1
  // the map: any nodal positions, exact at nodes, reset on each call
  VV phys(tot + xt, V(D)); for (auto & p : phys) for (auto & c : p) c = g.uniform(-10, 10); V p = dirty(g, D); e.physical_position(p, phys, b, o); vm::count("positions");
  for (int d = 0; d < D; ++d) { ld w = 0, sc = 0; for (int m = 0; m < tot; ++m) { w += (ld)phys[m][d] * b[m]; sc += fabsl((ld)phys[m][d] * b[m]); } vm::okn(p[d], (double)w, 1e-13 * tot, (double)sc, k + ":position", "mapped coordinate"); }
  e.physical_position(p, nodes, b, o); for (int d = 0; d < D; ++d) { ld sc = 0; for (int m = 0; m < tot; ++m) sc += fabsl((ld)nodes[m][d] * b[m]); vm::okn(p[d], x[d], 1e-12, (double)sc + 1, k + ":identity", "reference point mapped by the reference nodes"); }
  VV cor(1 << D, dirty(g, D)); e.corners(phys, cor, o); for (int c = 0; c < (1 << D); ++c) { int m = 0, f = 1; for (int d = 0; d < D; ++d) { if (c >> d & 1) m += f * o; f *= n; } for (int d = 0; d < D; ++d) vm::okn(cor[c][d], phys[m][d], 0, 1, k + ":corner", "corner node"); } vm::count("corner sets");
#endif
}
int main(int argc, char ** argv) {
  vm::init(argc, argv); std::ostringstream sink; auto * old = std::cout.rdbuf(sink.rdbuf());
  std::vector<Elem> es = { make2<el::Quad_4_2D>("quad4", quad(4)), make2<el::Quad_8_2D>("quad8", quad(8)), make2<el::Quad_12_2D>("quad12", quad(12)), make3<el::Hex8>("hex8", hex(8)), make3<el::Hex20>("hex20", hex(20)), make3<el::Hex32>("hex32", hex(32)), make4() };
  for (auto & e : es) { auto g = vm::rng(e.name); for (uint64_t i = 0, t = vm::n(e.s.n > 16 ? 1500 : 3000); i < t; ++i) element(e, g); }
  { auto g = vm::rng("quadN"); for (uint64_t i = 0, t = vm::n(1500); i < t; ++i) { lagElement<el::QuadN, 2>("quadN", g, i % 16 ? 8 : 14); sink.str(""); } }
  { auto g = vm::rng("hexN"); for (uint64_t i = 0, t = vm::n(300); i < t; ++i) { lagElement<el::HexN, 3>("hexN", g, i % 8 ? 4 : i % 96 ? 8 : 9 + (i / 96) % 2); sink.str(""); } }
  std::cout.rdbuf(old); return vm::finish();
}
