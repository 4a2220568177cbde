// M03: the dense matrix operations satisfy their defining equations.  Oracles:
// exact integer Leibniz determinants, long double sums of the defining
// expressions, residuals of inverses and solves scaled by the condition number,
// and an independent long double Taylor series for the exponential.
#include <cassert>
#include <cstddef>
#include <iterator>
#include <sstream>
#include <vector>
#include <numeric>
#include "vmon.h"
#include "ristra/math/matrix.h"
#include "ristra/math/vector.h"
#include "ristra/math/general.h"
using namespace ristra::math;
using ld = long double;

template <class M> std::string show(const M & m) { std::ostringstream o; o.precision(17); for (size_t i = 0; i < m.size() && i < 40; ++i) o << (i ? " " : "") << m[i]; return o.str(); }
template <class T> double eps() { return sizeof(T) == 4 ? 1.2e-7 : 2.3e-16; }
template <class T> void eq(const char * key, ld got, ld want, ld mag, const char * what, double k = 64) {
  bool ok = std::is_floating_point<T>::value ? std::fabs((double)(got - want)) <= k * eps<T>() * (double)(mag + fabsl(want)) + 1e-300 : got == want;
  vm::check(ok, key, "%s: observed %.17Lg, defining expression gives %.17Lg (magnitude %.3Lg)", what, got, want, mag);
}
template <size_t N> ld leibniz(const std::vector<ld> & a) {   // exact for small integers
  std::vector<int> p(N); std::iota(p.begin(), p.end(), 0); ld det = 0;
  do { ld t = 1; int inv = 0; for (size_t i = 0; i < N; ++i) { t *= a[i * N + p[i]]; for (size_t j = i + 1; j < N; ++j) inv += p[i] > p[j]; } det += inv % 2 ? -t : t; } while (std::next_permutation(p.begin(), p.end()));
  return det;
}
template <size_t N> ld permanent_abs(const std::vector<ld> & a) {
  std::vector<int> p(N); std::iota(p.begin(), p.end(), 0); ld s = 0;
  do { ld t = 1; for (size_t i = 0; i < N; ++i) t *= fabsl(a[i * N + p[i]]); s += t; } while (std::next_permutation(p.begin(), p.end()));
  return s;
}
template <class T, size_t A, size_t B> std::vector<ld> lds(const matrix<T, A, B> & m) { std::vector<ld> v(A * B); for (size_t i = 0; i < A * B; ++i) v[i] = m[i]; return v; }
template <class T> T el(vm::Rng & r, int mode) {
  if (sizeof(T) == 8 && !std::is_floating_point<T>::value && mode == 1) return (T)r.range(-350000000, 350000000);
  if (!std::is_floating_point<T>::value || mode == 0) return (T)r.range(-9, 9);
  if (mode == 1) return (T)r.uniform(-5, 5);
  if (mode == 2) return r.chance(1, 2) ? (T)0 : (T)r.range(-4, 4);
  return (T)(r.uniform(-1, 1) * std::pow(10.0, (double)r.range(-3, 3)));
}
template <class T, size_t D1, size_t D2> uint64_t fillm(matrix<T, D1, D2> & m, vm::Rng & r) { int mode = (int)r.below(4); uint64_t h = 7; for (size_t i = 0; i < D1 * D2; ++i) { m[i] = el<T>(r, mode); h = vm::hdbl((double)m[i], h); } return h; }

template <class T, size_t N> void square(const char * name, uint64_t cnt) {
  vm::Rng r = vm::rng(name); std::string nk = name;
  for (uint64_t k = 0; k < cnt; ++k) {
    matrix<T, N, N> m; uint64_t h = fillm(m, r);
    if (!std::is_floating_point<T>::value) { const bool wide = sizeof(T) == 8 && r.chance(1, 2); const int64_t lim = !wide ? 9 : N == 2 ? 2000000000 : N == 3 ? 1000000 : 20000; for (size_t i = 0; i < N * N; ++i) m[i] = (T)r.range(-lim, lim); if (wide) vm::count("matrices of wide integers"); }
    switch (r.below(10)) { // structured inputs
      case 5: if (N > 1) { size_t a = r.below(N), b = (a + 1 + r.below(N - 1)) % N; bool col = r.chance(1, 2); for (size_t j = 0; j < N; ++j) { T x = col ? m(j, b) : m(b, j); if (std::is_floating_point<T>::value) x = (T)(x * (1 + (sizeof(T) == 4 ? 1e-4 : std::pow(10., -(double)r.range(4, 11))) * (r.chance(1, 2) ? 1 : -1))); (col ? m(j, a) : m(a, j)) = x; } } break; // nearly equal rows or columns
      case 3: if (N > 1) { size_t a = r.below(N), b = (a + 1 + r.below(N - 1)) % N; for (size_t j = 0; j < N; ++j) m(a, j) = (T)(m(b, j) * (T)2); } break; // singular
      case 4: for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < i; ++j) m(i, j) = m(j, i); break;               // symmetric
      case 0: for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < i; ++j) m(i, j) = 0; break;                 // triangular
      case 1: { std::vector<int> p(N); std::iota(p.begin(), p.end(), 0); for (size_t i = N; i-- > 1;) std::swap(p[i], p[r.below(i + 1)]); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) m(i, j) = p[i] == (int)j ? (T)r.range(1, 5) : (T)0; break; } // scaled permutation
      case 2: for (size_t i = 0; i < N; ++i) m(i, i) = m(i, i) + (T)20; break;
    }
    if (std::is_floating_point<T>::value && r.chance(1, 4)) { T u = (T)std::pow(10.0, (double)(sizeof(T) == 4 ? r.range(-4, 4) : r.range(-25, 25))); for (size_t i = 0; i < N * N; ++i) m[i] = m[i] * u; } // in another unit
    auto v = lds(m); vm::case_("%s [%s]", name, show(m).c_str()); vm::sample_if(name, show(m)); vm::distinct(vm::hmix(h, N)); const auto before = m;
    eq<T>((nk + ":determinant").c_str(), determinant(m), leibniz<N>(v), permanent_abs<N>(v), "determinant");
    { ld tr = 0, mg = 0, n2 = 0, ni = 0, n1 = 0; for (size_t i = 0; i < N; ++i) { tr += v[i * N + i]; mg += fabsl(v[i * N + i]); ld a = 0, b = 0; for (size_t j = 0; j < N; ++j) { a += fabsl(v[i * N + j]); b += fabsl(v[j * N + i]); n2 += v[i * N + j] * v[i * N + j]; } ni = std::max(ni, a); n1 = std::max(n1, b); }
      eq<T>((nk + ":trace").c_str(), trace_matrix(m), tr, mg, "trace"); eq<T>((nk + ":infinity_norm").c_str(), infinity_norm(m), ni, 0, "largest absolute row sum"); eq<T>((nk + ":one_norm").c_str(), one_norm(m), n1, 0, "largest absolute column sum");
      if (std::is_floating_point<T>::value) eq<T>((nk + ":two_norm").c_str(), two_norm(m), sqrtl(n2), 0, "root of the sum of squares"); }
    { auto t = transpose(m); bool ok = true; for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) ok = ok && t(j, i) == m(i, j); vm::check(ok, (nk + ":transpose").c_str(), "transpose of [%s] is [%s]", show(m).c_str(), show(t).c_str()); }
    { auto I = identity_matrix<T, N>(); bool ok = true; for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) ok = ok && I(i, j) == (T)(i == j); vm::check(ok, (nk + ":identity").c_str(), "identity is [%s]", show(I).c_str()); }
    if constexpr (N > 1) { size_t a = r.below(N), b = r.below(N); auto c = cofactor(m, a, b); bool ok = true; for (size_t i = 0; i < N - 1; ++i) for (size_t j = 0; j < N - 1; ++j) ok = ok && c(i, j) == m(i + (i >= a), j + (j >= b)); vm::check(ok, (nk + ":cofactor").c_str(), "minor (%zu,%zu) is [%s]", a, b, show(c).c_str()); vm::count("minors compared"); }
    { matrix<T, N, N> b; fillm(b, r); ld dd = 0, mg = 0; for (size_t i = 0; i < N * N; ++i) { dd += (ld)m[i] * b[i]; mg += fabsl((ld)m[i] * b[i]); } eq<T>((nk + ":doubledot").c_str(), doubledot_product(m, b), dd, mg, "double dot product"); }
    if constexpr (std::is_floating_point<T>::value) {
      ld det = leibniz<N>(v), per = permanent_abs<N>(v);
      if (fabsl(det) > 1e-6L * per && per > 0) {
        auto inv = inverse(m); auto w = lds(inv); vm::count("inverses checked");
        ld na = 0, nb = 0; for (size_t i = 0; i < N; ++i) { ld a = 0, b = 0; for (size_t j = 0; j < N; ++j) { a += fabsl(v[i * N + j]); b += fabsl(w[i * N + j]); } na = std::max(na, a); nb = std::max(nb, b); }
        ld cond = std::max((ld)1, na * nb), worst = 0; ld tol = 2000 * (ld)eps<T>() * cond * std::max((ld)1, per / fabsl(det));
        for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) { ld s = 0, t = 0; for (size_t q = 0; q < N; ++q) { s += v[i * N + q] * w[q * N + j]; t += w[i * N + q] * v[q * N + j]; } worst = std::max(worst, std::max(fabsl(s - (i == j)), fabsl(t - (i == j)))); }
        if (tol < 0.1L) vm::check(worst <= tol, (nk + ":inverse").c_str(), "inverse times the matrix is off the identity by %.3Lg (condition %.3Lg): [%s]", worst, cond, show(m).c_str());
        if (tol < 0.1L) { vector<T, N> b; T bu = r.chance(1, 3) ? (T)std::pow(10.0, (double)r.range(-8, 8)) : (T)1; for (size_t i = 0; i < N; ++i) b[i] = el<T>(r, 1) * bu; auto x = solve(m, b); ld res = 0, xs = 0, bs = 0;
          for (size_t i = 0; i < N; ++i) { ld s = 0; for (size_t j = 0; j < N; ++j) s += v[i * N + j] * (ld)x[j]; res = std::max(res, fabsl(s - b[i])); xs = std::max(xs, fabsl((ld)x[i])); bs = std::max(bs, fabsl((ld)b[i])); }
          vm::check(res <= tol * (na * xs + bs), (nk + ":solve").c_str(), "residual %.3Lg of the solved system [%s]", res, show(m).c_str()); vm::count("systems solved"); }
      }
    }
    vm::check(m == before, (nk + ":pure").c_str(), "the argument changed");
    // vectors: reflection, projection, outer product
    { vector<T, N> a, b; for (size_t i = 0; i < N; ++i) { a[i] = el<T>(r, 0); b[i] = el<T>(r, 1); }
      if constexpr (N > 1) {
        auto o = outer_product(a, b); bool ok = true; for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) ok = ok && o(i, j) == (T)(a[i] * b[j]); vm::check(ok, (nk + ":outer").c_str(), "outer product is [%s]", show(o).c_str());
        matrix<T, N, N> acc(m); if constexpr (std::is_same<T, int>::value) { matrix<T, N, N> hf(m); double hb = r.range(-7, 7) * 0.5; outer_product(a, b, hf, hb); bool okh = true; for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) okh = okh && hf(i, j) == (T)(m(i, j) + hb * a[i] * b[j]); vm::check(okh, (nk + ":outer fraction").c_str(), "outer product of integers accumulated with the factor %g is [%s]", hb, show(hf).c_str()); vm::count("fractional factors"); }
        T f = el<T>(r, 0); outer_product(a, b, acc, f); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) eq<T>((nk + ":outer accumulate").c_str(), acc(i, j), (ld)m(i, j) + (ld)f * a[i] * b[j], fabsl((ld)m(i, j)) + fabsl((ld)f * a[i] * b[j]), "accumulated outer product");
      }
      if constexpr (std::is_floating_point<T>::value && N > 1) {
        ld n2 = 0; for (size_t i = 0; i < N; ++i) n2 += (ld)a[i] * a[i];
        if (n2 > 0) { auto n = unit(a); ld u2 = 0; for (size_t i = 0; i < N; ++i) u2 += (ld)n[i] * n[i]; eq<T>((nk + ":unit").c_str(), (double)u2, 1, 1, "squared length of the unit vector");
          for (size_t i = 0; i < N; ++i) eq<T>((nk + ":unit").c_str(), n[i], (ld)a[i] / sqrtl(n2), 1, "direction of the unit vector");
          auto R = reflection_matrix(n); auto P = projection_matrix(n); auto rf = reflect(b, n); auto rb = R * b; auto pb = P * b; ld dt = 0, bm = 1; for (size_t i = 0; i < N; ++i) { dt += (ld)b[i] * n[i]; bm += fabsl((ld)b[i]); }
          for (size_t i = 0; i < N; ++i) { eq<T>((nk + ":reflect").c_str(), rf[i], (ld)b[i] - 2 * dt * n[i], bm, "reflected vector"); eq<T>((nk + ":reflection_matrix").c_str(), rb[i], (ld)b[i] - 2 * dt * n[i], bm, "reflection by the matrix"); eq<T>((nk + ":projection_matrix").c_str(), pb[i], (ld)b[i] - dt * n[i], bm, "projection by the matrix"); } }
      }
    }
  }
}
template <class T, size_t A, size_t B, size_t C> void rect(const char * name, uint64_t cnt) {
  vm::Rng r = vm::rng(name); std::string nk = name;
  for (uint64_t k = 0; k < cnt; ++k) {
    matrix<T, A, B> a; matrix<T, B, C> b; matrix<T, A, C> c0; uint64_t h = vm::hmix(fillm(a, r), fillm(b, r)); fillm(c0, r); vm::distinct(h); vm::case_("%s [%s] x [%s]", name, show(a).c_str(), show(b).c_str());
    auto p = matrix_multiply(a, b); auto c = c0; matrix_multiply(a, b, c);
    for (size_t i = 0; i < A; ++i) for (size_t j = 0; j < C; ++j) { ld s = 0, g = 0; for (size_t q = 0; q < B; ++q) { s += (ld)a(i, q) * b(q, j); g += fabsl((ld)a(i, q) * b(q, j)); }
      eq<T>((nk + ":multiply").c_str(), p(i, j), s, g, "product entry"); eq<T>((nk + ":multiply accumulate").c_str(), c(i, j), s + c0(i, j), g + fabsl((ld)c0(i, j)), "accumulated product entry"); vm::count("product entries"); }
    auto t = transpose(a); bool ok = true; for (size_t i = 0; i < A; ++i) for (size_t j = 0; j < B; ++j) ok = ok && t(j, i) == a(i, j); vm::check(ok, (nk + ":transpose").c_str(), "transpose of [%s] is [%s]", show(a).c_str(), show(t).c_str());
    if constexpr (A > 1 && B > 1) {
      vector<T, B> x; vector<T, A> y; for (size_t i = 0; i < B; ++i) x[i] = el<T>(r, 1); for (size_t i = 0; i < A; ++i) y[i] = el<T>(r, 1); T al = el<T>(r, 0), be = el<T>(r, 0);
      auto y1 = y, y2 = y; ax_plus_y(a, x, y1); matrix_vector(al, a, x, be, y2); auto y3 = a * x;
      for (size_t i = 0; i < A; ++i) { ld s = 0, g = 0; for (size_t q = 0; q < B; ++q) { s += (ld)a(i, q) * x[q]; g += fabsl((ld)a(i, q) * x[q]); }
        eq<T>((nk + ":matrix*vector").c_str(), y3[i], s, g, "A*x"); eq<T>((nk + ":ax_plus_y").c_str(), y1[i], s + y[i], g + fabsl((ld)y[i]), "A*x+y"); eq<T>((nk + ":matrix_vector").c_str(), y2[i], (ld)al * s + (ld)be * y[i], fabsl((ld)al) * g + fabsl((ld)be * y[i]), "alpha*A*x+beta*y"); }
    }
  }
}
template <size_t N> void expo(const char * name, uint64_t cnt) {
  vm::Rng r = vm::rng(name); std::string nk = name;
  for (uint64_t k = 0; k < cnt; ++k) {
    matrix<double, N, N> m; uint64_t h = fillm(m, r); int form = (int)r.below(6); double target = r.chance(1, 6) ? std::pow(10., r.uniform(-11, -2)) : r.chance(1, 4) ? r.uniform(0, 1e-3) : r.chance(1, 3) ? r.uniform(0.3, 1.2) : r.chance(1, 5) ? r.uniform(6, 80) : r.uniform(0, 6);
    if (form == 0) for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) if (i != j) m(i, j) = 0;
    if (form == 1) for (size_t i = 0; i < N; ++i) for (size_t j = 0; j <= i; ++j) m(i, j) = 0;
    if (form == 2) for (size_t i = 0; i < N; ++i) for (size_t j = 0; j <= i; ++j) m(i, j) = i == j ? 0 : -m(j, i);
    if (form == 3) for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) m(i, j) = i == j ? -std::fabs(m(i, j)) : 0;                 // decaying
    if ((form == 1 || form == 3) && r.chance(1, 3)) target = std::pow(10.0, r.uniform(0, form == 3 ? 5 : 2.5));
    double nrm = 0; for (size_t i = 0; i < N; ++i) { double s = 0; for (size_t j = 0; j < N; ++j) s += std::fabs(m(i, j)); nrm = std::max(nrm, s); }
    if (nrm > 0) for (size_t i = 0; i < N * N; ++i) m[i] *= target / nrm;
    if (k == 0) m = 0.0;
    vm::case_("%s [%s]", name, show(m).c_str()); vm::distinct(vm::hdbl(target, h)); vm::sample_if(name, show(m));
    // long double: scale to norm < 2^-8, Taylor, square back
    int s = 8; double t = target; while (t > 1) { t /= 2; ++s; } ld f = powl(2, -s);
    std::vector<ld> X(N * N), P(N * N, 0), E(N * N, 0), W(N * N); for (size_t i = 0; i < N * N; ++i) X[i] = m[i] * f; for (size_t i = 0; i < N; ++i) P[i * N + i] = E[i * N + i] = 1;
    auto mul = [&](const std::vector<ld> & A, const std::vector<ld> & B) { std::vector<ld> C(N * N, 0); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) for (size_t q = 0; q < N; ++q) C[i * N + j] += A[i * N + q] * B[q * N + j]; return C; };
    for (int q = 1; q < 16; ++q) { P = mul(P, X); for (auto & x : P) x /= q; for (size_t i = 0; i < N * N; ++i) E[i] += P[i]; }
    for (int q = 0; q < s; ++q) E = mul(E, E);
    auto e = exponential(m); double big = form == 1 ? std::max(1.0, std::pow(target, (double)N - 1)) : form == 3 ? 100 : std::exp(target);
    for (size_t i = 0; i < N * N; ++i) vm::okn(e[i], (double)E[i], 1e-11 * std::max(1.0, target), big, nk + ":exponential", "entry of the matrix exponential");
    vm::count("exponentials");
  }
}
int main(int argc, char ** argv) {
  vm::init(argc, argv); const uint64_t N = vm::n(1500);
  square<double, 1>("double1", N / 4); square<double, 2>("double2", N); square<double, 3>("double3", N); square<double, 4>("double4", N); square<double, 5>("double5", N / 4); square<double, 6>("double6", N / 40 + 1); square<float, 3>("float3", N); square<int, 3>("int3", N); square<int, 2>("int2", N); square<int, 4>("int4", N / 2); square<long, 3>("long3", N / 2); square<long, 2>("long2", N / 2); square<long, 4>("long4", N / 4); square<double, 7>("double7", N / 100 + 1);
  rect<double, 2, 3, 4>("rect234", N); rect<double, 3, 2, 2>("rect322", N); rect<int, 4, 3, 2>("irect432", N); rect<float, 3, 3, 3>("frect333", N); rect<double, 1, 4, 1>("rect141", N); rect<double, 5, 7, 3>("rect573", N / 2); rect<double, 4, 1, 3>("rect413", N); rect<long, 3, 4, 2>("lrect342", N); rect<int, 130, 3, 2>("irect130", N / 50 + 1); rect<int, 2, 257, 3>("irect257", N / 50 + 1); rect<double, 3, 2, 300>("rect300", N / 50 + 1);
  expo<1>("exp1", N / 4); expo<2>("exp2", N); expo<3>("exp3", N); expo<4>("exp4", N / 2); expo<5>("exp5", N / 8);
  { vm::Rng r = vm::rng("rot"); for (uint64_t k = 0; k < N; ++k) { double a = r.chance(1, 6) ? r.range(-8, 8) * (M_PI / 4) : r.chance(1, 6) ? r.uniform(-1, 1) * std::pow(10., (double)r.range(2, 14)) : r.chance(1, 6) ? r.uniform(-1e-6, 1e-6) : r.uniform(-20, 20); vm::case_("rotation %.17g", a); vm::distinct(vm::hdbl(a, 3)); auto R = rotation_matrix<double, 2>(a);
      vector<double, 2> v(r.uniform(-5, 5), r.uniform(-5, 5)); auto w = R * v; ld c = cosl(a), s = sinl(a); vm::okn(w[0], (double)(c * v[0] - s * v[1]), 1e-14, 20, "rotation", "x of the counter-clockwise rotated vector"); vm::okn(w[1], (double)(s * v[0] + c * v[1]), 1e-14, 20, "rotation", "y of the counter-clockwise rotated vector"); } }
  return vm::finish();
}
