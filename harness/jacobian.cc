// E04: Jacobian matrices, determinants and inverses against long double linear algebra.
#include "vmon.h"
#include <sstream>
#include <algorithm>
#include "ristra/elements/elements.h"
namespace el = ristra::elements; using ld = long double; using V = std::vector<double>; using VV = std::vector<V>; using LM = std::vector<std::vector<ld>>;
static ld det(LM a) { int n = a.size(); ld r = 1; for (int c = 0; c < n; ++c) { int p = c; for (int i = c; i < n; ++i) if (fabsl(a[i][c]) > fabsl(a[p][c])) p = i; if (a[p][c] == 0) return 0; if (p != c) { std::swap(a[p], a[c]); r = -r; } r *= a[c][c]; for (int i = c + 1; i < n; ++i) { ld f = a[i][c] / a[c][c]; for (int j = c; j < n; ++j) a[i][j] -= f * a[c][j]; } } return r; }
static LM inv(const LM & m) { int n = m.size(); LM a = m; for (int i = 0; i < n; ++i) { a[i].resize(2 * n, 0); a[i][n + i] = 1; } for (int c = 0; c < n; ++c) { int p = c; for (int i = c; i < n; ++i) if (fabsl(a[i][c]) > fabsl(a[p][c])) p = i; std::swap(a[p], a[c]); ld v = a[c][c]; for (auto & x : a[c]) x /= v; for (int i = 0; i < n; ++i) if (i != c) { ld f = a[i][c]; for (int j = 0; j < 2 * n; ++j) a[i][j] -= f * a[c][j]; } } LM r(n, std::vector<ld>(n)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) r[i][j] = a[i][n + j]; return r; }
static ld permanent(const LM & a, int row, unsigned used) { int n = a.size(); if (row == n) return 1; ld s = 0; for (int j = 0; j < n; ++j) if (!(used >> j & 1)) s += fabsl(a[row][j]) * permanent(a, row + 1, used | 1u << j); return s; } // magnitude of the terms
static std::string show(const LM & m) { std::ostringstream o; o.precision(17); for (auto & r : m) { o << "["; for (auto x : r) o << (double)x << " "; o << "]"; } return o.str(); }
static void inverse(const char * key, int D, const LM & J, vm::Rng & g) {
  ld d = det(J), nrm = 0; for (auto & r : J) for (auto x : r) nrm = std::max(nrm, fabsl(x)); ld per = permanent(J, 0, 0); if (!(fabsl(d) > 1e-9L * per)) { vm::count("skipped: singular to working precision"); return; }
  VV Jd(D, V(D)), I(D, V(D, NAN)); for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) Jd[i][j] = (double)J[i][j];
  if (D == 2) el::jacobian_inverse_2d(I, Jd); else if (D == 3) el::jacobian_inverse_3d(I, Jd); else { double dj = (double)d; el::jacobian_inverse_4d(I, Jd, dj); }
  LM R = inv(J); vm::count((std::string("inverses ") + std::to_string(D) + "d").c_str());
  ld amp = per / fabsl(d), rn = 0; for (auto & r : R) for (auto x : r) rn = std::max(rn, fabsl(x));
  for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) { vm::okn(I[i][j], (double)R[i][j], 1e-13, (double)(amp * (rn + amp / nrm)) , std::string(key) + ":inverse", "entry of the inverse"); ld s = 0, m = 0; for (int k = 0; k < D; ++k) { s += J[i][k] * I[k][j]; m += fabsl(J[i][k] * I[k][j]); } vm::okn((double)s, i == j, 1e-13, (double)(amp * amp * (m + 1)), std::string(key) + ":identity", "entry of J * J^-1"); }
}
static void one(int D, vm::Rng & g) {
  int n = D == 2 ? (const int[]){ 4, 8, 12, 3 }[g.below(4)] : D == 3 ? (const int[]){ 8, 20, 32, 27 }[g.below(4)] : 16;
  VV X(n, V(D)), P(n, V(D)); double sx = std::pow(10., g.chance(1, 3) ? g.uniform(-15, 15) : g.uniform(-2, 2)); bool ints = g.chance(1, 4); for (auto & r : X) for (auto & x : r) x = ints ? (double)g.range(-4, 4) : g.uniform(-1, 1) * sx; for (auto & r : P) for (auto & x : r) x = ints ? (double)g.range(-3, 3) : g.uniform(-1, 1);
  if (g.chance(1, 6)) for (auto & r : X) r[g.below(D)] = 0;
  int store = D == 2 && g.chance(1, 2) ? 3 : D; VV J(store, V(store)); for (auto & r : J) for (auto & x : r) x = g.chance(1, 3) ? NAN : g.uniform(-1, 1) * 1e20; double d = NAN; const int nn = n, dd = D;
  LM R(D, std::vector<ld>(D, 0)), M = R; for (int j = 0; j < D; ++j) for (int k = 0; k < D; ++k) for (int v = 0; v < n; ++v) { R[j][k] += (ld)X[v][k] * P[v][j]; M[j][k] += fabsl((ld)X[v][k] * P[v][j]); }
  if (g.chance(1, 3)) { int ex = 1 + g.below(6); for (int i = 0; i < ex; ++i) { X.push_back(V(D, g.uniform(-9, 9))); P.push_back(V(D, g.uniform(-9, 9))); } vm::count("lists of nodes longer than the element"); } // only the first n nodes belong to the element
  vm::case_s("dim " + std::to_string(D) + " J=" + show(R)); uint64_t h = D; for (auto & r : R) for (auto x : r) h = vm::hdbl((double)x, h); vm::distinct(h);
  if (D == 4) el::jacobian4D(J, d, X, P, nn, dd); else el::jacobian(J, d, X, P, nn, dd);
  std::string k = "jacobian" + std::to_string(D); vm::count(("matrices " + std::to_string(D) + "d").c_str());
  for (int a = 0; a < D; ++a) for (int b = 0; b < D; ++b) vm::okn(J[a][b], (double)R[a][b], 1e-14, (double)M[a][b] + 1e-300, k + ":entry", "Jacobian entry");
  vm::okn(d, (double)det(R), 2e-14, (double)permanent(M, 0, 0) + 1e-300, k + ":det", "determinant");
  if (g.chance(1, 2)) { // one argument kept from the last call, another changed
    VV X2 = X, P2 = P; if (g.chance(1, 2)) X2[g.below(n)][g.below(D)] += ints ? 1 : sx * 0.5; else P2[g.below(n)][g.below(D)] += 1; LM R2(D, std::vector<ld>(D, 0)), M2 = R2; for (int a = 0; a < D; ++a) for (int b = 0; b < D; ++b) for (int v = 0; v < n; ++v) { R2[a][b] += (ld)X2[v][b] * P2[v][a]; M2[a][b] += fabsl((ld)X2[v][b] * P2[v][a]); }
    if (D == 4) el::jacobian4D(J, d, X2, P2, nn, dd); else el::jacobian(J, d, X2, P2, nn, dd); vm::count("matrices with one argument kept"); for (int a = 0; a < D; ++a) for (int b = 0; b < D; ++b) vm::okn(J[a][b], (double)R2[a][b], 1e-14, (double)M2[a][b] + 1e-300, k + ":entry", "Jacobian entry after another call"); vm::okn(d, (double)det(R2), 2e-14, (double)permanent(M2, 0, 0) + 1e-300, k + ":det", "determinant after another call");
    inverse(("inverse" + std::to_string(D)).c_str(), D, R2, g); d = (double)det(R); }
  inverse(("inverse" + std::to_string(D)).c_str(), D, R, g); vm::sample_if(k.c_str(), "J=" + show(R) + " det " + std::to_string(d));
}
static void direct(int D, vm::Rng & g) { // structured matrices: permutations, triangular, sparse, rotations
  LM J(D, std::vector<ld>(D, 0)); unsigned m = g.below(4); std::vector<int> p(D); for (int i = 0; i < D; ++i) p[i] = i; for (int i = D - 1; i > 0; --i) std::swap(p[i], p[g.below(i + 1)]);
  for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) { bool on = m == 0 ? p[i] == j : m == 1 ? j <= i : m == 2 ? j >= i : (p[i] == j || g.chance(1, 2)); if (on) J[i][j] = (double)(g.chance(1, 2) ? (ld)(g.range(1, 5) * (g.chance(1, 2) ? 1 : -1)) : (ld)g.uniform(0.1, 2)); }
  if (g.chance(1, 3)) { ld sc = (double)powl(10, g.range(-15, 15)); for (auto & q : J) for (auto & x : q) x = (double)(x * sc); }
  vm::case_s("structured dim " + std::to_string(D) + " J=" + show(J)); uint64_t h = 99 + D; for (auto & r : J) for (auto x : r) h = vm::hdbl((double)x, h); vm::distinct(h); inverse(("inverse" + std::to_string(D)).c_str(), D, J, g);
}
int main(int argc, char ** argv) {
  vm::init(argc, argv); for (int D = 2; D <= 4; ++D) { auto g = vm::rng(("jac" + std::to_string(D)).c_str()); for (uint64_t i = 0, t = vm::n(6000); i < t; ++i) one(D, g); for (uint64_t i = 0, t = vm::n(6000); i < t; ++i) direct(D, g); }
  // the Jacobian of a real element is the derivative of its map, and its inverse undoes it
  return vm::finish();
}
