// M04: reductions and vector products against their definitions (exact for
// integers, long double for floating point), plus their algebraic identities.
#include <cassert>
#include <cstddef>
#include <iterator>
#include <sstream>
#include <vector>
#include <limits>
#include <list>
#include <deque>
#include <algorithm>
#include "vmon.h"
#include "ristra/math/general.h"
#include "ristra/math/vector.h"
#include "ristra/math/multi_array.h"
#include "ristra/geometry/point.h"
#include "ristra/utils/dimensioned_array.h"
#ifdef USE_NORMAL_H
#include "ristra/geometry/normal.h"
#else
#include "ristra/geometry/space_vector.h"
#endif
using ld = long double; namespace rm = ristra::math; namespace rg = ristra::geometry;
template <class T> double eps() { return sizeof(T) == 4 ? 1.2e-7 : 2.3e-16; }
template <class T> void eq(const std::string & key, T got, ld want, ld mag, const char * what) {
  bool ok = std::is_floating_point<T>::value ? std::fabs((double)((ld)got - want)) <= 40 * eps<T>() * (double)(mag + fabsl(want)) + 1e-300 : (ld)got == want;
  vm::check(ok, key.c_str(), "%s: observed %.17g, definition gives %.17Lg", what, (double)got, want); vm::count("values compared");
}
// the unit of length of the current case: results must scale with it
static double g_unit = 1; template <class T> void unit(vm::Rng & r) { g_unit = r.chance(2, 3) || !std::is_floating_point<T>::value ? 1 : std::pow(10., (double)(sizeof(T) == 4 ? r.range(-3, 4) : r.range(-40, 40))); }
template <class T> T el(vm::Rng & r) { if (std::is_floating_point<T>::value) return r.chance(1, 4) ? (T)(r.range(-6, 6) * g_unit) : (T)(r.uniform(-1, 1) * std::pow(10.0, (double)r.range(-2, 3)) * g_unit); return (T)(std::is_unsigned<T>::value ? r.range(0, 100) : r.range(-100, 100)); }
template <class V> std::string show(const V & v) { std::ostringstream o; o.precision(17); for (auto & x : v) o << x << " "; return o.str(); }

template <class T> ld tdiv(ld s, size_t n) { return std::is_floating_point<T>::value ? s / (ld)n : truncl(s / (ld)n); }

template <class T, size_t N> void fixed(const char * name, uint64_t cnt) {
  vm::Rng r = vm::rng(name); std::string k = name; using A = rm::vector<T, N>;
  for (uint64_t c = 0; c < cnt; ++c) {
    unit<T>(r); A a, b; uint64_t h = vm::hstr(name); for (size_t i = 0; i < N; ++i) { a[i] = el<T>(r); b[i] = r.chance(1, 5) ? a[i] : el<T>(r); h = vm::hdbl((double)a[i], vm::hdbl((double)b[i], h)); } vm::distinct(h);
    vm::case_("%s a=%s b=%s", name, show(a).c_str(), show(b).c_str()); vm::sample_if(name, show(a) + "| " + show(b)); const A a0 = a, b0 = b;
    ld d = 0, dm = 0, m2 = 0, dl = 0; for (size_t i = 0; i < N; ++i) { d += (ld)a[i] * b[i]; dm += fabsl((ld)a[i] * b[i]); m2 += (ld)a[i] * a[i]; dl += ((ld)a[i] - b[i]) * ((ld)a[i] - b[i]); }
    eq<T>(k + ":dot", rm::dot_product(a, b), d, dm, "dot product"); eq<T>(k + ":dot", rm::dot_product(b, a), d, dm, "dot product, swapped"); eq<T>(k + ":dot range", rm::dot_product(a.begin(), a.end(), b.begin()), d, dm, "dot product of ranges");
    if (std::is_floating_point<T>::value) { eq<T>(k + ":magnitude", rm::magnitude(a), sqrtl(m2), 0, "magnitude"); eq<T>(k + ":abs", rm::abs(a), sqrtl(m2), 0, "abs"); 
      ld cm = 0; for (size_t i = 0; i < N; ++i) cm = std::max(cm, std::max(fabsl((ld)a[i]), fabsl((ld)b[i])));
      vm::okn((double)rm::delta_magnitude(a, b), (double)sqrtl(dl), 64 * eps<T>(), (double)(sqrtl(dl)) + eps<T>() * (double)cm, k + ":delta_magnitude", "magnitude of the difference");
      eq<T>(k + ":distance", rg::distance(a, b), sqrtl(dl), eps<T>() * cm, "distance"); auto mp = rg::midpoint(a, b); for (size_t i = 0; i < N; ++i) eq<T>(k + ":midpoint", mp[i], ((ld)a[i] + b[i]) / 2, fabsl((ld)a[i]) + fabsl((ld)b[i]), "midpoint"); }
    if (g_unit == 1) { rm::vector<double, N> fb; rm::vector<int, N> ib; ld dx = 0, dy = 0, mg = 0; for (size_t i = 0; i < N; ++i) { fb[i] = r.uniform(-9, 9); ib[i] = (int)r.range(-9, 9); dx += ((ld)a[i] - fb[i]) * ((ld)a[i] - fb[i]); dy += ((ld)fb[i] - ib[i]) * ((ld)fb[i] - ib[i]); mg += fabsl((ld)a[i]) + 18; } // elements of two types
      vm::okn((double)rm::delta_magnitude(a, fb), (double)sqrtl(dx), 1e-13, (double)mg, k + ":delta_magnitude mixed", "magnitude of the difference of two element types"); vm::okn((double)rm::delta_magnitude(ib, fb), (double)sqrtl(dy), 1e-13, (double)mg, k + ":delta_magnitude mixed", "magnitude of the difference of integers and reals"); vm::okn((double)rm::delta_magnitude(fb, ib), (double)sqrtl(dy), 1e-13, (double)mg, k + ":delta_magnitude mixed", "magnitude of the difference of reals and integers"); vm::count("differences of two element types"); }
    if constexpr (std::is_floating_point<T>::value) if (m2 > 0) { auto u = rm::unit(a); for (size_t i = 0; i < N; ++i) eq<T>(k + ":unit", u[i], (ld)a[i] / sqrtl(m2), 0, "unit vector"); }
    auto lo = rm::min(a, b), hi = rm::max(a, b); bool ok = true; for (size_t i = 0; i < N; ++i) ok = ok && lo[i] == (a[i] < b[i] ? a[i] : b[i]) && hi[i] == (a[i] < b[i] ? b[i] : a[i]); vm::check(ok, (k + ":minmax").c_str(), "elementwise min %s max %s", show(lo).c_str(), show(hi).c_str());
    auto im = rm::min_element(a); auto iM = rm::max_element(a); bool in = true; for (auto & x : a) in = in && !(x < *im) && !(*iM < x); vm::check(in && im >= a.begin() && im < a.end() && iM >= a.begin() && iM < a.end(), (k + ":element").c_str(), "min/max element is not extreme");
    if constexpr (N > 1) { A e(el<T>(r)), f2(el<T>(r)); auto av = rm::average(a, b); auto av4 = rm::average(a, b, e, f2); auto av3 = rm::average(a, b, e);
      for (size_t i = 0; i < N; ++i) { ld s = (ld)a[i] + b[i]; ld g = fabsl((ld)a[i]) + fabsl((ld)b[i]) + fabsl((ld)e[i]) + fabsl((ld)f2[i]); eq<T>(k + ":average2", av[i], tdiv<T>(s, 2), g, "average of two vectors"); eq<T>(k + ":average3", av3[i], tdiv<T>(s + e[i], 3), g, "average of three vectors"); eq<T>(k + ":average4", av4[i], tdiv<T>(s + e[i] + f2[i], 4), g, "average of four vectors"); } }
    if constexpr (N == 2) { eq<T>(k + ":cross2", rm::cross_product(a, b), (ld)a[0] * b[1] - (ld)a[1] * b[0], fabsl((ld)a[0] * b[1]) + fabsl((ld)a[1] * b[0]), "planar cross product"); eq<T>(k + ":cross2", rm::cross_product(b, a), -((ld)a[0] * b[1] - (ld)a[1] * b[0]), fabsl((ld)a[0] * b[1]) + fabsl((ld)a[1] * b[0]), "planar cross product, swapped");
      auto n = rm::normal(a, b); vm::check(n[0] == (T)(a[1] - b[1]) && n[1] == (T)(b[0] - a[0]), (k + ":normal").c_str(), "normal of the segment is %s", show(n).c_str());
#ifdef USE_NORMAL_H
      auto g = rg::normal(a, b); vm::check(g[0] == (T)(a[1] - b[1]) && g[1] == (T)(b[0] - a[0]), (k + ":geometry normal").c_str(), "normal of the segment is %s", show(g).c_str());
#endif
    }
    if constexpr (N == 3) { A w; for (size_t i = 0; i < N; ++i) w[i] = el<T>(r); auto x = rm::cross_product(a, b);
      for (size_t i = 0; i < 3; ++i) { size_t p = (i + 1) % 3, q = (i + 2) % 3; eq<T>(k + ":cross3", x[i], (ld)a[p] * b[q] - (ld)a[q] * b[p], fabsl((ld)a[p] * b[q]) + fabsl((ld)a[q] * b[p]), "cross product"); }
#ifdef USE_NORMAL_H
      auto g = rg::normal(a, b); for (size_t i = 0; i < 3; ++i) { size_t p = (i + 1) % 3, q = (i + 2) % 3; eq<T>(k + ":geometry normal3", g[i], (ld)a[p] * b[q] - (ld)a[q] * b[p], fabsl((ld)a[p] * b[q]) + fabsl((ld)a[q] * b[p]), "normal of two vectors"); }
#endif
      ld t = 0, tm = 0; for (size_t i = 0; i < 3; ++i) { size_t p = (i + 1) % 3, q = (i + 2) % 3; t += (ld)a[i] * ((ld)b[p] * w[q] - (ld)b[q] * w[p]); tm += fabsl((ld)a[i]) * (fabsl((ld)b[p] * w[q]) + fabsl((ld)b[q] * w[p])); }
      eq<T>(k + ":triple", rm::triple_product(a, b, w), t, tm, "triple product"); eq<T>(k + ":triple", rm::triple_product(b, w, a), t, tm, "triple product, rotated arguments"); eq<T>(k + ":triple", rm::triple_product(b, a, w), -t, tm, "triple product, exchanged arguments"); }
    vm::check(a == a0 && b == b0, (k + ":pure").c_str(), "an argument changed");
#ifndef USE_NORMAL_H
    if constexpr (std::is_floating_point<T>::value && N <= 3) { auto sa = rg::point_to_vector<T, N>(a), sb = rg::point_to_vector<T, N>(b); bool same = true; for (size_t i = 0; i < N; ++i) same = same && sa[i] == a[i]; vm::check(same, (k + ":point_to_vector").c_str(), "components changed");
      eq<T>(k + ":sv dot", rg::dot(sa, sb), d, dm, "dot"); eq<T>(k + ":sv magnitude", rg::magnitude(sa), sqrtl(m2), 0, "magnitude");
      if constexpr (N == 2) { eq<T>(k + ":sv cross_magnitude", rg::cross_magnitude(sa, sb), fabsl((ld)a[0] * b[1] - (ld)a[1] * b[0]), fabsl((ld)a[0] * b[1]) + fabsl((ld)a[1] * b[0]), "cross magnitude"); auto n = rg::normal<T>(a, b); vm::check(n[0] == (T)(a[1] - b[1]) && n[1] == (T)(b[0] - a[0]), (k + ":sv normal").c_str(), "normal of the segment"); }
      if constexpr (N == 3) { ld s = 0, g = 0; auto n = rg::normal(sa, sb); for (size_t i = 0; i < 3; ++i) { size_t p = (i + 1) % 3, q = (i + 2) % 3; ld v = (ld)a[p] * b[q] - (ld)a[q] * b[p]; s += v * v; g += fabsl((ld)a[p] * b[q]) + fabsl((ld)a[q] * b[p]); eq<T>(k + ":sv normal", n[i], v, g, "normal of two vectors"); } eq<T>(k + ":sv cross_magnitude", rg::cross_magnitude(sa, sb), sqrtl(s), g, "cross magnitude"); }
      if constexpr (N == 1) eq<T>(k + ":sv cross_magnitude", rg::cross_magnitude(sa, sb), 0, 0, "cross magnitude"); }
#endif
  }
}
template <class T> void dynamic(const char * name, uint64_t cnt) {
  vm::Rng r = vm::rng(name); std::string k = name;
  for (uint64_t c = 0; c < cnt; ++c) {
    unit<T>(r); size_t n = 1 + (r.chance(1, 10) ? r.below(500) : r.below(12)); std::vector<T> a(n), b(n); uint64_t h = vm::hstr(name); for (size_t i = 0; i < n; ++i) { a[i] = el<T>(r); b[i] = r.chance(1, 5) ? a[i] : el<T>(r); h = vm::hdbl((double)a[i], vm::hdbl((double)b[i], h)); } vm::distinct(h); vm::case_("%s a=%s b=%s", name, show(a).c_str(), show(b).c_str());
    if (r.chance(1, 4)) { T m = a[0]; for (auto & x : a) x = std::is_unsigned<T>::value ? x : (T)-std::abs((double)x); }
    const auto a0 = a, b0 = b; ld s = 0, g = 0, d = 0, dm = 0, m2 = 0; for (size_t i = 0; i < n; ++i) { s += a[i]; g += fabsl((ld)a[i]); d += (ld)a[i] * b[i]; dm += fabsl((ld)a[i] * b[i]); m2 += (ld)a[i] * a[i]; }
    std::list<T> l(a.begin(), a.end()); std::deque<T> q(a.begin(), a.end());
    eq<T>(k + ":average vector", rm::average(a), tdiv<T>(s, n), g, "average"); eq<T>(k + ":average list", rm::average(l), tdiv<T>(s, n), g, "average"); eq<T>(k + ":average deque", rm::average(q), tdiv<T>(s, n), g, "average");
    eq<T>(k + ":average range", rm::average(a.begin(), a.end()), tdiv<T>(s, n), g, "average of a range"); eq<T>(k + ":average range", rm::average(l.begin(), l.end()), tdiv<T>(s, n), g, "average of a list range"); eq<T>(k + ":average range", rm::average(a.data(), a.data() + n), tdiv<T>(s, n), g, "average of a pointer range");
    T x0 = a[0], x1 = b[0], x2 = a[n - 1]; eq<T>(k + ":average args", rm::average(x0, x1), tdiv<T>((ld)x0 + x1, 2), g + fabsl((ld)x1), "average of two"); eq<T>(k + ":average args", rm::average(x0, x1, x2), tdiv<T>((ld)x0 + x1 + x2, 3), g + fabsl((ld)x1), "average of three"); eq<T>(k + ":average args", rm::average(x0, x1, x2, x1, x0), tdiv<T>(2 * (ld)x0 + 2 * (ld)x1 + x2, 5), g + 2 * fabsl((ld)x1), "average of five");
    eq<T>(k + ":dot vector", rm::dot_product(a, b), d, dm, "dot product"); eq<T>(k + ":dot range", rm::dot_product(a.begin(), a.end(), b.begin()), d, dm, "dot product of ranges");
    if (std::is_floating_point<T>::value) { eq<T>(k + ":magnitude vector", rm::magnitude(a), sqrtl(m2), 0, "magnitude"); eq<T>(k + ":abs vector", rm::abs(a), sqrtl(m2), 0, "abs"); }
    auto lo = rm::min(a, b), hi = rm::max(a, b); bool ok = lo.size() == n && hi.size() == n; for (size_t i = 0; ok && i < n; ++i) ok = lo[i] == std::min(a[i], b[i]) && hi[i] == std::max(a[i], b[i]); vm::check(ok, (k + ":minmax vector").c_str(), "elementwise min/max of %zu elements", n);
    auto im = rm::min_element(a); auto iM = rm::max_element(a); vm::check(*im == *std::min_element(a0.begin(), a0.end()) && *iM == *std::max_element(a0.begin(), a0.end()) && im - a.begin() < (long)n && iM - a.begin() < (long)n, (k + ":element vector").c_str(), "min/max element is not extreme");
    vm::check(*rm::min_element(l) == *im && *rm::max_element(l) == *iM, (k + ":element list").c_str(), "min/max element of a list is not extreme");
    T x = el<T>(r); eq<T>(k + ":sqr", (T)rm::sqr(x), (ld)(T)(x * x), 0, "sqr"); eq<T>(k + ":cube", (T)rm::cube(x), (ld)(T)(x * x * x), 0, "cube"); vm::check(rm::sgn(x) == (x > T(0) ? 1 : x < T(0) ? -1 : 0), (k + ":sgn").c_str(), "sgn(%g) is %d", (double)x, rm::sgn(x)); vm::check(rm::sgn(T(0)) == 0, (k + ":sgn").c_str(), "sgn(0)");
    vm::check(a == a0 && b == b0, (k + ":pure").c_str(), "an argument changed");
    if constexpr (std::is_floating_point<T>::value) { using P = rg::point<T, 2>; std::vector<P> pts; ld sx = 0, sy = 0; for (size_t i = 0; i < n; ++i) { pts.push_back(P(a[i], b[i])); sx += a[i]; sy += b[i]; } ld gm = g; for (auto & q2 : b) gm += fabsl((ld)q2);
      auto cc = rg::centroid({ P(a[0], b[0]), P(x0, x2), P(x2, x1) }); eq<T>(k + ":point centroid", cc[0], ((ld)a[0] + x0 + x2) / 3  , 3000 * g_unit, "mean x of the points"); eq<T>(k + ":point centroid", cc[1], ((ld)b[0] + x2 + x1) / 3, 3000 * g_unit, "mean y of the points");
      auto av = rm::average(pts); eq<T>(k + ":average points", av[0], sx / n, gm, "mean x"); eq<T>(k + ":average points", av[1], sy / n, gm, "mean y"); }
  }
}
template <class T, size_t... D> void multi(const char * name, uint64_t cnt) {
  vm::Rng r = vm::rng(name); std::string k = name; using M = rm::multi_array<T, D...>; constexpr size_t n = (D * ...);
  for (uint64_t c = 0; c < cnt; ++c) { unit<T>(r); M a, b; ld d = 0, dm = 0, m2 = 0, dl = 0, cm = 0; uint64_t h = 1; for (size_t i = 0; i < n; ++i) { a[i] = el<T>(r); b[i] = el<T>(r); h = vm::hdbl((double)a[i], vm::hdbl((double)b[i], h)); d += (ld)a[i] * b[i]; dm += fabsl((ld)a[i] * b[i]); m2 += (ld)a[i] * a[i]; dl += ((ld)a[i] - b[i]) * ((ld)a[i] - b[i]); cm = std::max(cm, std::max(fabsl((ld)a[i]), fabsl((ld)b[i]))); } vm::distinct(h); vm::case_("%s a=%s b=%s", name, show(a).c_str(), show(b).c_str());
    eq<T>(k + ":dot", rm::dot_product(a, b), d, dm, "dot product"); eq<T>(k + ":magnitude", rm::magnitude(a), sqrtl(m2), 0, "magnitude"); vm::okn((double)rm::delta_magnitude(a, b), (double)sqrtl(dl), 1e-14, (double)(sqrtl(dl) + cm), k + ":delta_magnitude", "magnitude of the difference");
    auto lo = rm::min(a, b), hi = rm::max(a, b); bool ok = true; for (size_t i = 0; i < n; ++i) ok = ok && lo[i] == std::min(a[i], b[i]) && hi[i] == std::max(a[i], b[i]); vm::check(ok, (k + ":minmax").c_str(), "elementwise min/max"); vm::check(*rm::min_element(a) == *std::min_element(a.begin(), a.end()) && *rm::max_element(a) == *std::max_element(a.begin(), a.end()), (k + ":element").c_str(), "min/max element"); } }
// large values and many elements: integers beyond what a double or 32 bits hold, sequences longer than small counters
template <class T, size_t N> void long_array(vm::Rng & r) {
  using A = rm::vector<T, N>; static A a, b; vm::case_("array of %zu %s", N, std::is_floating_point<T>::value ? "reals" : "integers"); ld d = 0, dm = 0, m2 = 0, dl = 0; for (size_t i = 0; i < N; ++i) { a[i] = (T)r.range(-90, 90); b[i] = (T)r.range(-90, 90); d += (ld)a[i] * b[i]; dm += fabsl((ld)a[i] * b[i]); m2 += (ld)a[i] * a[i]; dl += ((ld)a[i] - b[i]) * ((ld)a[i] - b[i]); }
  a[N - 1] = (T)95; d += ((ld)95) * b[N - 1]; d = 0; m2 = 0; dl = 0; for (size_t i = 0; i < N; ++i) { d += (ld)a[i] * b[i]; m2 += (ld)a[i] * a[i]; dl += ((ld)a[i] - b[i]) * ((ld)a[i] - b[i]); } vm::distinct(vm::hmix(N, r.next()));
  vm::check(rm::dot_product(a, b) == (T)d && rm::dot_product(a.begin(), a.end(), b.begin()) == (T)d, "long:dot", "dot product of %zu elements", N); auto lo = rm::min(a, b), hi = rm::max(a, b); bool ok = true; for (size_t i = 0; i < N; ++i) ok = ok && lo[i] == std::min(a[i], b[i]) && hi[i] == std::max(a[i], b[i]); vm::check(ok, "long:minmax", "elementwise extremes of %zu elements", N); vm::check(*rm::max_element(a) == 95 && rm::max_element(a) == a.begin() + (N - 1) && *rm::min_element(a) == *std::min_element(a.begin(), a.end()), "long:element", "extreme of %zu elements", N);
  if (std::is_floating_point<T>::value) { eq<T>("long:magnitude", rm::magnitude(a), sqrtl(m2), 0, "magnitude"); vm::okn((double)rm::delta_magnitude(a, b), (double)sqrtl(dl), sizeof(T) == 4 ? 1e-4 : 1e-12, (double)sqrtl(dl), "long:delta_magnitude", "magnitude of the difference"); } auto av = rm::average(a, b, a, b, a, a); ok = true; for (size_t i = 0; i < N; ++i) ok = ok && fabsl((ld)av[i] - tdiv<T>(4 * (ld)a[i] + 2 * (ld)b[i], 6)) < 1e-5L * 90; vm::check(ok, "long:average6", "average of six arrays of %zu elements", N);
  vm::count("long arrays");
}
template <class T> void wide_int(vm::Rng & r) {
  size_t n = 1 + (r.chance(1, 12) ? r.below(300000) : r.below(r.chance(1, 3) ? 400 : 9)); const bool uns = std::is_unsigned<T>::value; const __int128 mx = (__int128)std::numeric_limits<T>::max(); __int128 lim = mx / (__int128)n; if (r.chance(1, 3)) lim /= 1 + r.below(1000); if (lim < 1) lim = 1;
  std::vector<T> a(n); __int128 s = 0; for (auto & x : a) { __int128 v = (__int128)(r.next() % (uint64_t)(lim + 1 > (__int128)UINT64_MAX ? UINT64_MAX : (uint64_t)(lim + 1))); if (r.chance(1, 8)) v = lim; if (!uns && r.chance(1, 2)) v = -v; x = (T)v; s += v; } vm::case_("%zu integers of %zu bytes up to %.3Lg", n, sizeof(T), (ld)lim); vm::distinct(vm::hmix((uint64_t)s, n));
  std::list<T> l(a.begin(), a.end()); T want = (T)(s / (__int128)n); if (sizeof(T) >= 4) vm::check(rm::average(a) == want && rm::average(a.begin(), a.end()) == want && rm::average(l) == want && rm::average(l.begin(), l.end()) == want, "wide:average", "average of %zu integers", n);
  vm::check(*rm::min_element(a) == *std::min_element(a.begin(), a.end()) && *rm::max_element(a) == *std::max_element(a.begin(), a.end()), "wide:element", "extremes of %zu integers", n);
  if (sizeof(T) >= 4 && n >= 3) { T x = a[0], y = a[1], z = a[2]; vm::check((__int128)rm::average(x, y) == ((__int128)x + y) / 2 && (__int128)rm::average(x, y, z) == ((__int128)x + y + z) / 3, "wide:average args", "average of two or three large integers"); }
  std::vector<T> b(a.rbegin(), a.rend()); auto lo = rm::min(a, b), hi = rm::max(a, b); bool ok = lo.size() == n && hi.size() == n; for (size_t i = 0; ok && i < n; ++i) ok = lo[i] == std::min(a[i], b[i]) && hi[i] == std::max(a[i], b[i]); vm::check(ok, "wide:minmax", "elementwise extremes of %zu integers", n);
  if (sizeof(T) >= 4) { ld root = sqrtl((ld)mx / (ld)n) * 0.99L; std::vector<T> p(n), q(n); __int128 d = 0; for (size_t i = 0; i < n; ++i) { p[i] = (T)(uint64_t)((ld)(r.next() >> 11) / 9007199254740992.0L * root); q[i] = (T)(uint64_t)((ld)(r.next() >> 11) / 9007199254740992.0L * root); if (!uns && r.chance(1, 2)) q[i] = (T)-q[i]; d += (__int128)p[i] * q[i]; } vm::check((__int128)rm::dot_product(p, q) == d && (__int128)rm::dot_product(p.begin(), p.end(), q.begin()) == d, "wide:dot", "dot product of %zu large integers", n);
    T x = (T)(uint64_t)((ld)(r.next() >> 11) / 9007199254740992.0L * sqrtl((ld)mx) * 0.99L), y = (T)(uint64_t)((ld)(r.next() >> 11) / 9007199254740992.0L * cbrtl((ld)mx) * 0.99L); vm::check((__int128)rm::sqr(x) == (__int128)x * x && (__int128)rm::cube(y) == (__int128)y * y * y, "wide:power", "square of %.20Lg or cube of %.20Lg", (ld)x, (ld)y);
    rm::vector<T, 2> u(x, y), v(y, x); if (!uns) vm::check((__int128)rm::cross_product(u, v) == (__int128)x * x - (__int128)y * y, "wide:cross", "cross product of large integers"); rm::vector<T, 3> c3(y, 1, 2), d3(3, y, 1), e3(1, 2, y); if (!uns) { __int128 t = (__int128)y * ((__int128)y * y - 2) - ((__int128)3 * y - 1) + 2 * ((__int128)6 - y); if (t < mx) vm::check((__int128)rm::triple_product(c3, d3, e3) == t, "wide:triple", "triple product of large integers"); } }
  for (T x : { std::numeric_limits<T>::min(), std::numeric_limits<T>::max(), (T)(std::numeric_limits<T>::min() + 1), (T)1, (T)0, (T)-1, a[0] }) vm::check(rm::sgn(x) == (x > T(0) ? 1 : x < T(0) ? -1 : 0), "wide:sgn", "sign of %.20Lg is %d", (ld)x, rm::sgn(x));
  vm::count("wide integers");
}
template <class T> void wide_real(vm::Rng & r) {
  const T inf = std::numeric_limits<T>::infinity(), tiny = std::numeric_limits<T>::denorm_min(), big = std::numeric_limits<T>::max(); for (T x : { inf, tiny, big, std::numeric_limits<T>::min(), std::numeric_limits<T>::epsilon(), (T)0.25, (T)1, (T)r.uniform(0, 1) }) { vm::case_("sign of %.17g", (double)x); vm::check(rm::sgn(x) == 1 && rm::sgn(-x) == -1, "real:sgn", "sign of +-%.17g", (double)x); } vm::check(rm::sgn((T)-0.0) == 0 && rm::sgn((T)0.0) == 0, "real:sgn", "sign of a zero");
  size_t n = 1 + r.below(r.chance(1, 3) ? 200000 : 3000); std::vector<T> a(n); ld s = 0, g = 0, m2 = 0; for (auto & x : a) { x = (T)r.uniform(-1, 3); s += x; g += fabsl((ld)x); m2 += (ld)x * x; } std::list<T> l(a.begin(), a.end()); vm::case_("%zu reals", n); vm::distinct(vm::hdbl((double)s, n)); ld tol = (ld)std::numeric_limits<T>::epsilon() * (ld)n * g / (ld)n + (ld)std::numeric_limits<T>::epsilon() * 4 * (g / n);
  for (T v : { rm::average(a), rm::average(a.begin(), a.end()), rm::average(l), rm::average(l.begin(), l.end()), rm::average(a.data(), a.data() + n) }) vm::check(fabsl((ld)v - s / n) <= tol, "real:average", "average of %zu reals is %.17g, not %.17Lg", n, (double)v, s / n); vm::check(fabsl((ld)rm::dot_product(a, a) - m2) <= std::numeric_limits<T>::epsilon() * (ld)n * m2 && fabsl((ld)rm::magnitude(a) - sqrtl(m2)) <= std::numeric_limits<T>::epsilon() * (ld)n * sqrtl(m2), "real:dot", "dot product of %zu reals", n);
  rm::vector<T, 4> x(inf, -inf, big, (T)1), y((T)2, (T)3, -inf, inf); auto lo = rm::min(x, y), hi = rm::max(x, y); vm::check(lo[0] == 2 && lo[1] == -inf && lo[2] == -inf && lo[3] == 1 && hi[0] == inf && hi[1] == 3 && hi[2] == big && hi[3] == inf && *rm::max_element(x) == inf && *rm::min_element(x) == -inf, "real:extremes", "extremes with infinities"); vm::count("wide reals");
  { std::vector<T> m(a); size_t at = r.below(n); m[at] = 7; vm::check(rm::max_element(m) == m.begin() + at && *rm::max_element(m) == 7, "real:element", "largest of %zu reals", n); m[at] = -7; vm::check(rm::min_element(m) == m.begin() + at, "real:element", "smallest of %zu reals", n); }
}
int main(int argc, char ** argv) {
  vm::init(argc, argv); const uint64_t N = vm::n(2000);
  fixed<double, 2>("double2", N); fixed<double, 3>("double3", N); fixed<float, 3>("float3", N); fixed<int, 3>("int3", N); fixed<int, 2>("int2", N); fixed<double, 1>("double1", N); fixed<double, 7>("double7", N); fixed<long, 4>("long4", N);
  dynamic<double>("dyn double", N); dynamic<int>("dyn int", N); dynamic<long>("dyn long", N); dynamic<float>("dyn float", N); dynamic<unsigned>("dyn unsigned", N);
  multi<double, 2, 3>("multi23", N); multi<double, 2, 2, 3>("multi223", N);
  if (vm::section("wide")) { vm::Rng r = vm::rng("wide"); for (uint64_t i = 0, t = vm::n(150); i < t; ++i) { wide_int<int>(r); wide_int<long>(r); wide_int<unsigned>(r); wide_int<unsigned long>(r); wide_int<short>(r); wide_int<signed char>(r); if (i % 5 == 0) { wide_real<double>(r); wide_real<float>(r); } if (i % 10 == 0) { long_array<int, 127>(r); long_array<int, 128>(r); long_array<double, 255>(r); long_array<int, 256>(r); long_array<double, 257>(r); long_array<long, 1000>(r); long_array<float, 300>(r); long_array<int, 65535>(r); long_array<int, 65536>(r); } } }
  return vm::finish();
}
