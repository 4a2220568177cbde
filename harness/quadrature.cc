// E03: quadrature.  Every rule and order; oracle: exact integrals of random tensor
// product polynomials (Legendre form, long double) up to the rule's degree.
#include "vmon.h"
#include <sstream>
#include <algorithm>
#include "ristra/elements/elements.h"
namespace el = ristra::elements; using ld = long double; using V = std::vector<double>; using VV = std::vector<V>;
static ld leg(int n, ld x) { ld a = 1, b = x; if (!n) return 1; for (int k = 1; k < n; ++k) { ld c = ((2 * k + 1) * x * b - k * a) / (k + 1); a = b; b = c; } return b; }
static void rule(const char * name, int D, int p, bool gauss, vm::Rng & g, bool rm) {
  int tot = 1; for (int d = 0; d < D; ++d) tot *= p; int room = tot + (rm ? 1 + (int)g.below(9) : 0); VV pts(room, V(D, NAN)), w(room, V(D, NAN)); V tw(room, NAN); if (rm) { for (auto & q : pts) for (auto & x : q) x = g.uniform(-5, 5); for (auto & q : w) for (auto & x : q) x = g.uniform(-5, 5); for (auto & x : tw) x = g.uniform(-5, 5); vm::count("rules built in reused storage with room to spare"); } int o = p; const int dim = D; std::string k = std::string(name) + std::to_string(D); vm::case_("%s%d order %d", name, D, p);
  if (D == 1) for (int m = 0; m < p; ++m) { int i = m + 1; if (gauss) el::LineGaussRuleInfo(pts[m][0], w[m][0], i, o); else el::LineLobattoRuleInfo(pts[m][0], w[m][0], i, o); }
  else if (gauss) { if (D == 2) el::Gauss2D(pts, w, tw, o); if (D == 3) el::Gauss3D(pts, w, tw, o); if (D == 4) el::Gauss4D(pts, w, o, dim); }
  else { if (D == 2) el::Lobatto2D(pts, w, o); if (D == 3) el::Lobatto3D(pts, w, o); if (D == 4) el::Lobatto4D(pts, w, o, dim); }
  pts.resize(tot); w.resize(tot); tw.resize(tot); vm::ok(o == p, k + ":order kept", "the order argument changed"); vm::count("rules built");
  int deg = gauss ? 2 * p - 1 : std::max(1, 2 * p - 3); std::vector<ld> W(tot); ld sum = 0;
  std::vector<std::vector<ld>> seen;
  for (int m = 0; m < tot; ++m) { W[m] = 1; bool in = true, pos = true; for (int d = 0; d < D; ++d) { W[m] *= w[m][d]; if (!(pts[m][d] >= -1 && pts[m][d] <= 1)) in = false; if (!(w[m][d] > 0)) pos = false; } sum += W[m];
    vm::ok(in, k + ":inside", "a point of order " + std::to_string(p) + " lies outside the element"); vm::ok(pos, k + ":positive", "a weight of order " + std::to_string(p) + " is not positive");
    if (gauss && (D == 2 || D == 3)) vm::okn(tw[m], (double)W[m], 1e-14, (double)fabsl(W[m]), k + ":product", "product weight");
    if (D == 1 || D == 2) { int id[2] = { m % p, m / p }; (void)id; } }
  vm::okn((double)sum, std::pow(2., D), 1e-13, std::pow(2., D), k + ":sum", "sum of the weights");
  // points form a grid: distinct, the boundary is included by the Lobatto rules, xi runs fastest
  for (int m = 0; m < tot; ++m) { int r = m; for (int d = 0; d < D; ++d, r /= p) { int i = r % p; if (i) { int f = 1; for (int t = 0; t < d; ++t) f *= p; vm::ok(pts[m][d] > pts[m - f][d] || pts[m][d] < pts[m - f][d], k + ":distinct", "two points of order " + std::to_string(p) + " coincide in a direction"); }
      for (int t = 0; t < D; ++t) { int rr = m; for (int q = 0; q < t; ++q) rr /= p; vm::ok(std::fabs(pts[m][t] - pts[rr % p][0]) < 1e-14, k + ":grid", "point is not on the tensor grid of the line rule, xi fastest"); vm::ok(std::fabs(w[m][t] - w[rr % p][0]) < 1e-14, k + ":grid", "weight does not belong to its point"); } } }
  if (!gauss && p > 1) for (int d = 0; d < D; ++d) { double lo = 2, hi = -2; for (auto & q : pts) { lo = std::min(lo, q[d]); hi = std::max(hi, q[d]); } vm::ok(lo == -1 && hi == 1, k + ":ends", "the end points are not in the rule of order " + std::to_string(p)); }
  auto integrate = [&](const std::vector<std::vector<ld>> & c, const char * kk) { // product of 1d Legendre series
    ld got = 0, want = 1, mag = 0; for (int d = 0; d < D; ++d) want *= 2 * c[d][0];
    for (int m = 0; m < tot; ++m) { ld f = 1; for (int d = 0; d < D; ++d) { ld s = 0; for (size_t n = 0; n < c[d].size(); ++n) s += c[d][n] * leg(n, pts[m][d]); f *= s; } got += W[m] * f; mag += fabsl(W[m] * f); }
    vm::okn((double)got, (double)want, 2e-14, (double)mag + std::fabs((double)want) + 1, k + kk, "integral of a polynomial"); };
  for (int n = 0; n <= deg; ++n) for (int d = 0; d < D; ++d) { std::vector<std::vector<ld>> c(D, { 1 }); c[d].assign(n + 1, 0); c[d][n] = 1; integrate(c, ":exact"); vm::count("single-degree integrals"); vm::distinct(vm::hmix(vm::hstr(k), p * 1000 + n * 10 + d)); }
  for (uint64_t i = 0, t = vm::n(tot > 1000 ? 8 : 60); i < t; ++i) { std::vector<std::vector<ld>> c(D); for (auto & q : c) { q.resize(1 + g.below(deg + 1)); for (auto & x : q) x = g.uniform(-1, 1); } integrate(c, ":random"); vm::count("random polynomial integrals"); uint64_t h = vm::hstr(k); for (auto & q : c) for (auto & x : q) h = vm::hdbl((double)x, h); vm::distinct(h); }
  // symmetry of the rule about the centre
  for (int d = 0; d < D; ++d) for (int n = 1; n <= 2 * p + 1; n += 2) { ld s = 0; for (int m = 0; m < tot; ++m) s += W[m] * powl(pts[m][d], n); vm::okn((double)s, 0, 1e-14, std::pow(2., D), k + ":odd", "odd moment"); }
  vm::sample_if(k.c_str(), "order " + std::to_string(p) + " exact to degree " + std::to_string(deg));
}
int main(int argc, char ** argv) {
  vm::init(argc, argv); auto g = vm::rng("quadrature");
  for (int gs = 0; gs < 2; ++gs) for (int D = 1; D <= 4; ++D) for (int p = 1; p <= 8; ++p) { rule(gs ? "gauss" : "lobatto", D, p, gs, g, false); rule(gs ? "gauss" : "lobatto", D, p, gs, g, true); }
  return vm::finish();
}
