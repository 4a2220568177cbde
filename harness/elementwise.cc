// M01: arithmetic on the fixed size containers is the arithmetic of their
// elements.  Every operator runs on random operands (including operands that
// alias the destination) and is compared element by element with the built-in
// operator on copies taken before the call.
#include <cassert>
#include <cstddef>
#include <iterator>
#include <memory>
#include <sstream>
#include <vector>
#include "vmon.h"
#include "ristra/math/array.h"
#include "ristra/math/multi_array.h"
#include "ristra/math/tuple.h"
#include "ristra/utils/dimensioned_array.h"
#include "ristra/geometry/point.h"
#include "ristra/geometry/space_vector.h"
using ristra::math::array; using ristra::math::multi_array;
using ristra::utils::dimensioned_array__;

template <class T> struct TN; 
#define TNAME(T) template <> struct TN<T> { static const char * n() { return #T; } };
TNAME(int) TNAME(long) TNAME(short) TNAME(float) TNAME(double) TNAME(unsigned)

// values chosen so that the built-in operation is always defined
// 0: everyday values, 1: large and tiny ones (products of which still fit), 2: infinities and zeros, for floating point
static int g_mag = 0;
template <class T> T val(vm::Rng & r, bool nz) {
  if (std::is_floating_point<T>::value) {
    if (g_mag == 1) { T v = (T)std::ldexp(r.uniform(1, 2), (int)r.range(sizeof(T) == 4 ? -28 : -300, sizeof(T) == 4 ? 28 : 300)); return r.chance(1, 2) ? v : -v; }
    if (g_mag == 3) { T v = (T)std::ldexp(r.uniform(1, 2), (int)r.range(sizeof(T) == 4 ? -148 : -1073, sizeof(T) == 4 ? 126 : 1022)); return r.chance(1, 2) ? v : -v; }
    if (g_mag == 2 && !nz && r.chance(1, 8)) return std::numeric_limits<T>::quiet_NaN();
    if (g_mag == 2 && r.chance(1, 2)) { const T sp[] = { T(0), T(-0.0), std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(), std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest() }; return sp[r.below(6)]; }
    T v; do { v = r.chance(1, 3) ? (T)r.range(-20, 20) : (T)r.uniform(-50, 50); } while (nz && std::fabs((double)v) < 1e-3); return v;
  }
  const int64_t wide = sizeof(T) == 8 ? 2000000000ll : sizeof(T) == 4 ? 20000 : 150;
  T v; do { v = g_mag == 1 ? (T)(std::is_unsigned<T>::value ? r.range(0, 3 * wide) : r.range(-wide, wide)) : (T)(std::is_unsigned<T>::value ? r.range(0, 300) : r.range(-150, 150)); } while (nz && v == 0); return v;
}
static void magnitude(vm::Rng & r) { g_mag = r.chance(1, 4) ? 1 : r.chance(1, 6) ? 2 : r.chance(1, 8) ? 3 : 0; vm::count(g_mag == 0 ? "everyday operands" : g_mag == 1 ? "large and tiny operands" : g_mag == 2 ? "infinities and zeros" : "the whole range of exponents"); }
template <class R, class T> bool same(R got, T want, double mag) {
  if (!std::is_floating_point<T>::value) return got == want;
  if (std::isnan((double)want)) return std::isnan((double)got);
  if (std::isinf((double)want)) return (double)got == (double)want;
  if (mag < 0) return got == want && std::signbit((double)got) == std::signbit((double)want);
  const double eps = sizeof(T) == 4 ? 1.2e-7 : 2.3e-16;
  return std::fabs((double)got - (double)want) <= 8 * eps * (std::fabs((double)want) + mag) + 1e-300;
}
template <char OP, class A, class B> auto ap(A a, B b) {
  if constexpr (OP == '+') return a + b; else if constexpr (OP == '-') return a - b;
  else if constexpr (OP == '*') return a * b; else return a / b;
}
template <char OP> double mg(double, double) { return -1; } // one operation: exactly what the built-in operator gives

template <class A> std::vector<typename A::value_type> vec(const A & a) { std::vector<typename A::value_type> v(a.size()); for (size_t i = 0; i < v.size(); ++i) v[i] = a[i]; return v; }
template <class T, size_t N, size_t S> std::vector<T> vec(const dimensioned_array__<T, N, S> & a) { std::vector<T> v(N); for (size_t i = 0; i < N; ++i) v[i] = a[i]; return v; }

struct Ctx { vm::Rng & r; std::string name; };
template <class V, class W> std::string show(const V & v, const W & w) {
  std::ostringstream o; o.precision(17); o << "["; for (size_t i = 0; i < v.size() && i < 8; ++i) o << (i ? " " : "") << +v[i]; o << "] with ["; for (size_t i = 0; i < w.size() && i < 8; ++i) o << (i ? " " : "") << +w[i]; o << "]"; return o.str();
}
template <class T, class F> void cmp(const Ctx & c, const char * op, const std::vector<T> & got, size_t n, F want, const std::string & in) {
  std::string key = c.name + ":" + op;
  bool ok = got.size() == n; size_t bad = 0; double g = 0, w = 0;
  for (size_t i = 0; i < n && ok; ++i) { auto p = want(i); if (!same<T, T>(got[i], p.first, p.second)) { ok = false; bad = i; g = (double)got[i]; w = (double)p.first; } }
  vm::check(ok, key.c_str(), "element %zu of %zu is %.17g, the elements' own arithmetic gives %.17g, operands %s", bad, n, g, w, in.c_str());
  vm::count("operators applied");
}
template <class T> bool alike(const std::vector<T> & x, const std::vector<T> & y) { bool ok = x.size() == y.size(); for (size_t i = 0; ok && i < x.size(); ++i) ok = same<T, T>(x[i], y[i], -1); return ok; }
template <class T> void unchanged(const Ctx & c, const char * op, const std::vector<T> & now, const std::vector<T> & before) {
  std::string key = c.name + ":pure:" + op;
  vm::check(alike(now, before), key.c_str(), "an operand changed value");
}

template <class U> using scal = U;
template <class T, class U> T conv(U u) { return (T)u; }

// scalar operand of type U against element type T
template <char OP, class T, class A, class U, bool MEM, bool BIN> void scalar_ops(const Ctx & c, const A & a, U s, const char * un) {
  const std::vector<T> va = vec(a); const size_t n = va.size();
  std::vector<U> sv(1, s); char nm[48];
  if constexpr (MEM) {
    A x(a); if constexpr (OP == '+') x += s; else if constexpr (OP == '-') x -= s; else if constexpr (OP == '*') x *= s; else x /= s;
    snprintf(nm, sizeof nm, "%c=%s", OP, un);
    cmp(c, nm, vec(x), n, [&](size_t i) { return std::make_pair(conv<T>(ap<OP>(va[i], s)), mg<OP>(va[i], s)); }, show(va, sv));
  }
  if constexpr (BIN) {
    const A x = [&] { if constexpr (OP == '+') return A(a + s); else if constexpr (OP == '-') return A(a - s); else if constexpr (OP == '*') return A(a * s); else return A(a / s); }();
    snprintf(nm, sizeof nm, "%c%s", OP, un);
    cmp(c, nm, vec(x), n, [&](size_t i) { return std::make_pair(conv<T>(ap<OP>(va[i], s)), mg<OP>(va[i], s)); }, show(va, sv));
    unchanged(c, nm, vec(a), va);
    bool zero = false; if (OP == '/') for (auto & v : va) zero |= !std::is_floating_point<T>::value && v == 0;
    bool tiny = false; if (OP == '/' && std::is_floating_point<T>::value) for (auto & v : va) tiny |= std::fabs((double)v) < 1e-3;
    if (!zero && !tiny) {
      const A y = [&] { if constexpr (OP == '+') return A(s + a); else if constexpr (OP == '-') return A(s - a); else if constexpr (OP == '*') return A(s * a); else return A(s / a); }();
      snprintf(nm, sizeof nm, "%s%c", un, OP);
      cmp(c, nm, vec(y), n, [&](size_t i) { return std::make_pair(conv<T>(ap<OP>(s, va[i])), mg<OP>(va[i], s)); }, show(sv, va));
      unchanged(c, nm, vec(a), va);
    }
  }
}

template <char OP, class T, class A, bool BINARR> void one_op(const Ctx & c, const A & a, const A & b) {
  const std::vector<T> va = vec(a), vb = vec(b); const size_t n = va.size(); char nm[32];
  { A x(a); const A * ret; if constexpr (OP == '+') ret = &(x += b); else if constexpr (OP == '-') ret = &(x -= b); else if constexpr (OP == '*') ret = &(x *= b); else ret = &(x /= b);
    snprintf(nm, sizeof nm, "%c=arr", OP);
    cmp(c, nm, vec(x), n, [&](size_t i) { return std::make_pair(conv<T>(ap<OP>(va[i], vb[i])), mg<OP>(va[i], vb[i])); }, show(va, vb));
    unchanged(c, nm, vec(b), vb);
    vm::check(ret == &x, (c.name + ":ret").c_str(), "compound assignment does not return its object"); }
  { // both operands are the same object
    A x(b); if constexpr (OP == '+') x += x; else if constexpr (OP == '-') x -= x; else if constexpr (OP == '*') x *= x; else x /= x;
    snprintf(nm, sizeof nm, "%c=self", OP);
    cmp(c, nm, vec(x), n, [&](size_t i) { return std::make_pair(conv<T>(ap<OP>(vb[i], vb[i])), mg<OP>(vb[i], vb[i])); }, show(vb, vb)); }
  { // the scalar is one of the elements
    A x(b); size_t k = c.r.below(n); const T s = vb[k];
    if constexpr (OP == '+') x += x[k]; else if constexpr (OP == '-') x -= x[k]; else if constexpr (OP == '*') x *= x[k]; else x /= x[k];
    snprintf(nm, sizeof nm, "%c=own element", OP);
    cmp(c, nm, vec(x), n, [&](size_t i) { return std::make_pair(conv<T>(ap<OP>(vb[i], s)), mg<OP>(vb[i], s)); }, show(vb, std::vector<T>(1, s))); }
  if constexpr (BINARR) {
    const A x = [&] { if constexpr (OP == '+') return A(a + b); else if constexpr (OP == '-') return A(a - b); else if constexpr (OP == '*') return A(a * b); else return A(a / b); }();
    snprintf(nm, sizeof nm, "%carr", OP);
    cmp(c, nm, vec(x), n, [&](size_t i) { return std::make_pair(conv<T>(ap<OP>(va[i], vb[i])), mg<OP>(va[i], vb[i])); }, show(va, vb));
    unchanged(c, nm, vec(a), va); unchanged(c, nm, vec(b), vb);
    const A y = [&] { if constexpr (OP == '+') return A(b + b); else if constexpr (OP == '-') return A(b - b); else if constexpr (OP == '*') return A(b * b); else return A(b / b); }();
    cmp(c, nm, vec(y), n, [&](size_t i) { return std::make_pair(conv<T>(ap<OP>(vb[i], vb[i])), mg<OP>(vb[i], vb[i])); }, show(vb, vb));
  }
}

template <class T, class A> void run_math(const char * name, size_t n, uint64_t cnt) {
  vm::Rng r = vm::rng(name); Ctx c{ r, name };
  struct Box { uint64_t lo; A a; uint64_t hi; };
  for (uint64_t k = 0; k < cnt; ++k) {
    std::unique_ptr<Box> bx(new Box); bx->lo = bx->hi = 0x5AFE5AFE5AFE5AFEull;
    magnitude(r); A & a = bx->a; A b; uint64_t h = vm::hstr(name);
    for (size_t i = 0; i < n; ++i) { a[i] = val<T>(r, false); b[i] = val<T>(r, true); h = vm::hdbl((double)a[i], vm::hdbl((double)b[i], h)); }
    vm::case_("%s %s", name, show(vec(a), vec(b)).c_str()); vm::sample_if(name, show(vec(a), vec(b))); vm::distinct(h);
    one_op<'+', T, A, true>(c, a, b); one_op<'-', T, A, true>(c, a, b); one_op<'*', T, A, true>(c, a, b); one_op<'/', T, A, true>(c, a, b);
    T s = val<T>(r, true); int si = (int)r.range(1, 9); double sd = (double)r.range(1, 40) / 8; float sf = (float)r.range(1, 40) / 4;
    scalar_ops<'+', T, A, T, true, true>(c, a, s, "T"); scalar_ops<'-', T, A, T, true, true>(c, a, s, "T");
    scalar_ops<'*', T, A, T, true, true>(c, a, s, "T"); scalar_ops<'/', T, A, T, true, true>(c, a, s, "T");
    scalar_ops<'/', T, A, T, false, true>(c, b, s, "T");
    scalar_ops<'+', T, A, int, true, true>(c, b, si, "int"); scalar_ops<'-', T, A, int, true, true>(c, b, si, "int");
    scalar_ops<'*', T, A, int, true, true>(c, b, si, "int"); scalar_ops<'/', T, A, int, true, true>(c, b, si, "int");
    scalar_ops<'+', T, A, float, true, true>(c, b, sf, "float"); scalar_ops<'-', T, A, float, !std::is_unsigned<T>::value, !std::is_unsigned<T>::value>(c, b, sf, "float");
    scalar_ops<'*', T, A, double, true, true>(c, b, sd, "double"); scalar_ops<'/', T, A, double, true, true>(c, b, sd, "double");
    { // scalars of other kinds, and the ones for which a shortcut offers itself
      const bool sgn = !std::is_unsigned<T>::value; T s2 = r.chance(1, 3) ? T(0) : r.chance(1, 2) ? T(1) : sgn ? T(-1) : T(2), s3 = r.chance(1, 2) ? T(1) : sgn ? T(-1) : T(2);
      scalar_ops<'+', T, A, T, true, true>(c, a, s2, "T"); scalar_ops<'-', T, A, T, true, true>(c, a, s2, "T"); scalar_ops<'*', T, A, T, true, true>(c, a, s2, "T"); scalar_ops<'/', T, A, T, true, true>(c, b, s3, "T");
      short sh = (short)r.range(sgn ? -99 : 0, 99); long long sl = r.range(sgn ? -20000 : 0, 20000); unsigned char su = (unsigned char)r.range(1, 100);
      scalar_ops<'+', T, A, bool, true, true>(c, a, r.chance(1, 2), "bool"); scalar_ops<'-', T, A, short, true, true>(c, a, sh, "short"); scalar_ops<'*', T, A, long long, sizeof(T) >= 4, sizeof(T) >= 4>(c, a, sl, "long long"); scalar_ops<'/', T, A, unsigned char, true, true>(c, b, su, "unsigned char");
      scalar_ops<'+', T, A, double, true, true>(c, b, sd, "double"); scalar_ops<'-', T, A, double, !std::is_unsigned<T>::value, !std::is_unsigned<T>::value>(c, b, sd, "double"); scalar_ops<'*', T, A, float, true, true>(c, b, sf, "float"); scalar_ops<'/', T, A, float, true, true>(c, b, sf, "float"); }
    auto va = vec(a); auto vb = vec(b);
    { const A x = -a; cmp(c, "negate", vec(x), n, [&](size_t i) { return std::make_pair(conv<T>(-va[i]), -1.0); }, show(va, va)); unchanged(c, "negate", vec(a), va); }
    { A x; x = s; cmp(c, "=scalar", vec(x), n, [&](size_t i) { return std::make_pair(s, -1.0); }, ""); A y(s); cmp(c, "ctor scalar", vec(y), n, [&](size_t i) { return std::make_pair(s, -1.0); }, "");
      A z(a); z.fill(s); cmp(c, "fill", vec(z), n, [&](size_t i) { return std::make_pair(s, -1.0); }, "");
      A w(b); size_t q = r.below(n); w = w[q]; cmp(c, "=own element", vec(w), n, [&](size_t i) { return std::make_pair(vb[q], -1.0); }, ""); }
    { A w(a); for (size_t i = 0; i < n; ++i) if (r.chance(1, 2)) w[i] = val<T>(r, false); w = a; cmp(c, "=arr over some of it", vec(w), n, [&](size_t i) { return std::make_pair(va[i], -1.0); }, ""); if (n > 2) { w[n / 2] = val<T>(r, false); w = a; cmp(c, "=arr over most of it", vec(w), n, [&](size_t i) { return std::make_pair(va[i], -1.0); }, ""); } }
    { A x; x = a; cmp(c, "=arr", vec(x), n, [&](size_t i) { return std::make_pair(va[i], -1.0); }, ""); A & y = x; x = y; cmp(c, "=self", vec(x), n, [&](size_t i) { return std::make_pair(va[i], -1.0); }, "");
      A p(a), q(b); p.swap(q); cmp(c, "swap", vec(p), n, [&](size_t i) { return std::make_pair(vb[i], -1.0); }, ""); cmp(c, "swap", vec(q), n, [&](size_t i) { return std::make_pair(va[i], -1.0); }, "");
      using ristra::math::swap; swap(p, q); cmp(c, "swap()", vec(p), n, [&](size_t i) { return std::make_pair(va[i], -1.0); }, ""); cmp(c, "swap()", vec(q), n, [&](size_t i) { return std::make_pair(vb[i], -1.0); }, "");
      p.swap(p); cmp(c, "swap self", vec(p), n, [&](size_t i) { return std::make_pair(va[i], -1.0); }, ""); }
    { // a longer expression, evaluated element by element
      if (std::is_floating_point<T>::value && g_mag == 0) { const A x = (a + b) * s - b / s + (-a) * b;
        cmp(c, "expr", vec(x), n, [&](size_t i) { T w = (va[i] + vb[i]) * s - vb[i] / s + (-va[i]) * vb[i]; return std::make_pair(w, 60000.0); }, show(va, vb)); } }
    vm::check(bx->lo == 0x5AFE5AFE5AFE5AFEull && bx->hi == 0x5AFE5AFE5AFE5AFEull, "guard", "%s wrote outside its storage", name);
  }
}
template <class T, size_t N, size_t S> void run_dim(const char * name, uint64_t cnt) {
  using A = dimensioned_array__<T, N, S>; vm::Rng r = vm::rng(name); Ctx c{ r, name }; const size_t n = N;
  for (uint64_t k = 0; k < cnt; ++k) {
    magnitude(r); A a, b; uint64_t h = vm::hstr(name);
    for (size_t i = 0; i < n; ++i) { a[i] = val<T>(r, false); b[i] = val<T>(r, true); h = vm::hdbl((double)a[i], vm::hdbl((double)b[i], h)); }
    vm::case_("%s %s", name, show(vec(a), vec(b)).c_str()); vm::distinct(h);
    auto va = vec(a); auto vb = vec(b); T s = val<T>(r, true);
    one_op<'+', T, A, true>(c, a, b); one_op<'-', T, A, true>(c, a, b); one_op<'*', T, A, false>(c, a, b); one_op<'/', T, A, false>(c, a, b);
    scalar_ops<'+', T, A, T, true, false>(c, a, s, "T"); scalar_ops<'-', T, A, T, true, false>(c, a, s, "T"); scalar_ops<'*', T, A, T, true, false>(c, a, s, "T"); scalar_ops<'/', T, A, T, true, false>(c, a, s, "T");
    { const A x = a / s; cmp(c, "/T", vec(x), n, [&](size_t i) { return std::make_pair(conv<T>(va[i] / s), -1.0); }, show(va, va)); unchanged(c, "/T", vec(a), va); }
    { A w(a); for (size_t i = 0; i < n; ++i) if (r.chance(1, 2)) w[i] = val<T>(r, false); w = a; cmp(c, "=arr over some of it", vec(w), n, [&](size_t i) { return std::make_pair(va[i], -1.0); }, ""); if (n > 2) { w[n / 2] = val<T>(r, false); w = a; cmp(c, "=arr over most of it", vec(w), n, [&](size_t i) { return std::make_pair(va[i], -1.0); }, ""); } }
    { A x; x = s; cmp(c, "=scalar", vec(x), n, [&](size_t i) { return std::make_pair(s, -1.0); }, ""); A y(s); cmp(c, "ctor scalar", vec(y), n, [&](size_t i) { return std::make_pair(s, -1.0); }, "");
      A z; z = a; A & zz = z; z = zz; cmp(c, "=arr", vec(z), n, [&](size_t i) { return std::make_pair(va[i], -1.0); }, ""); vm::check(A::size() == N, "dim:size", "size() is not the dimension"); }
    if constexpr (S == 2 && std::is_floating_point<T>::value) {
      using namespace ristra::geometry;
      // qualified: the scaling operator lives beside the alias, not in the type's namespace
      const A x = ristra::geometry::operator*<T, N>(a, s); cmp(c, "space_vector*s", vec(x), n, [&](size_t i) { return std::make_pair(conv<T>(va[i] * s), -1.0); }, show(va, va));
    }
    // named axes address the same elements
    if constexpr (N == 3) { using ax = ristra::utils::axis; vm::check(&a[ax::x] == &a[0] && &a[ax::y] == &a[1] && &a[ax::z] == &a[2], "dim:axis", "an axis names the wrong element");
      A l{ va[0], va[1], va[2] }; A m(va[0], va[1], va[2]); vm::check(alike(vec(l), va) && alike(vec(m), va), "dim:ctor", "element-wise construction differs"); }
  }
}

template <class Tup, class F, size_t... I> void each(Tup & t, F f, std::index_sequence<I...>) { (f(std::get<I>(t), I), ...); }
template <class... Ts> void run_tuple(const char * name, uint64_t cnt) {
  using Tup = std::tuple<Ts...>; constexpr size_t n = sizeof...(Ts); using IS = std::make_index_sequence<n>;
  vm::Rng r = vm::rng(name);
  using namespace ristra::math;
  for (uint64_t k = 0; k < cnt; ++k) {
    magnitude(r); if (n > 1 && !(... && (std::is_floating_point<Ts>::value))) g_mag = 0; Tup a, b; uint64_t h = vm::hstr(name); std::ostringstream d;
    each(a, [&](auto & x, size_t) { x = val<std::decay_t<decltype(x)>>(r, true); d << " " << x; h = vm::hdbl((double)x, h); }, IS{});
    d << " |"; each(b, [&](auto & x, size_t) { x = val<std::decay_t<decltype(x)>>(r, true); d << " " << x; h = vm::hdbl((double)x, h); }, IS{});
    int s = (int)r.range(1, 9); double sd = (double)r.range(1, 40) / 8; d << " | " << s << " " << sd; vm::distinct(h);
    vm::case_("%s%s", name, d.str().c_str()); vm::sample_if(name, d.str());
    const Tup A0 = a, B0 = b;
    auto chk = [&](const char * op, auto & got, auto want) {
      bool ok = true; size_t bad = 0;
      auto one = [&](auto I) { constexpr size_t i = decltype(I)::value; using E = std::tuple_element_t<i, Tup>;
        E w = (E)want(std::get<i>(A0), std::get<i>(B0)); if (!same<E, E>(std::get<i>(got), w, -1)) { ok = false; bad = i; } };
      [&]<size_t... J>(std::index_sequence<J...>) { (one(std::integral_constant<size_t, J>{}), ...); }(IS{});
      std::string key = std::string(name) + ":" + op; vm::check(ok, key.c_str(), "element %zu differs from the element's own arithmetic", bad); vm::count("operators applied");
      vm::check(a == A0 && b == B0, key.c_str(), "an operand changed");
    };
#define TUPOP(NM, SYM)                                                                              \
    { Tup x = a; NM##_equal(x, b); chk(#NM "_equal(tuple)", x, [&](auto p, auto q) { return p SYM q; }); } \
    { Tup x = a; NM##_equal(x, s); chk(#NM "_equal(int)", x, [&](auto p, auto q) { return p SYM s; }); }   \
    { Tup x = a; NM##_equal(x, sd); chk(#NM "_equal(double)", x, [&](auto p, auto q) { return p SYM sd; }); } \
    { Tup x = a; NM##_equal(x, x); chk(#NM "_equal(self)", x, [&](auto p, auto q) { return p SYM p; }); }  \
    { Tup x = a; const auto e = std::get<0>(A0); NM##_equal(x, std::get<0>(x)); chk(#NM "_equal(own element)", x, [&](auto p, auto q) { return p SYM e; }); } \
    { Tup x = a SYM b; chk(#SYM " tuple", x, [&](auto p, auto q) { return p SYM q; }); }                   \
    { Tup x = a SYM s; chk(#SYM " int", x, [&](auto p, auto q) { return p SYM s; }); }                     \
    { Tup x = sd SYM b; chk("double " #SYM, x, [&](auto p, auto q) { return sd SYM q; }); }                \
    { Tup x = b SYM sd; chk(#SYM " double", x, [&](auto p, auto q) { return q SYM sd; }); }                \
    { Tup x = s SYM a; chk("int " #SYM, x, [&](auto p, auto q) { return s SYM p; }); }
    TUPOP(plus, +) TUPOP(minus, -) TUPOP(multiplies, *) TUPOP(divides, /)
    { Tup x = a; fill(x, s); chk("fill", x, [&](auto p, auto q) { return s; }); fill(x, sd); chk("fill(double)", x, [&](auto p, auto q) { return sd; }); }
  }
}

int main(int argc, char ** argv) {
  vm::init(argc, argv);
  const uint64_t N = vm::n(600);
#define ARR(T, K) run_math<T, array<T, K>>("array<" #T "," #K ">", K, N);
#define MUL(T, ...) { using M = multi_array<T, __VA_ARGS__>; run_math<T, M>("multi_array<" #T "," #__VA_ARGS__ ">", M::size(), N); }
#if PART == 1
  ARR(int, 2) ARR(int, 3) ARR(int, 7) ARR(long, 4) ARR(short, 5)
#elif PART == 2
  ARR(double, 1) ARR(double, 2) ARR(double, 3) ARR(double, 17)
#elif PART == 3
  ARR(unsigned, 3) ARR(float, 3) ARR(float, 4)
  run_math<double, array<double, 300>>("array<double,300>", 300, N / 20 + 1); run_math<int, array<int, 129>>("array<int,129>", 129, N / 20 + 1); run_math<float, array<float, 4099>>("array<float,4099>", 4099, N / 200 + 1);
#elif PART == 4
  MUL(int, 2, 2) MUL(int, 2, 3) MUL(double, 3, 3) MUL(double, 4, 2)
#elif PART == 5
  MUL(float, 3, 2) MUL(double, 2, 3, 4) MUL(long, 2, 2, 2) MUL(double, 6) MUL(int, 3, 1, 2, 2) run_math<double, multi_array<double, 67, 65>>("multi_array<double,67,65>", 67 * 65, N / 200 + 1); run_math<long, multi_array<long, 2, 3, 2, 3, 2, 2>>("multi_array<long,2,3,2,3,2,2>", 144, N / 20 + 1);
#elif PART == 6
  run_dim<double, 3, 2>("space_vector<double,3>", N); run_dim<double, 2, 2>("space_vector<double,2>", N); run_dim<int, 3, 1>("dimensioned_array<int,3>", N); run_dim<float, 4, 2>("space_vector<float,4>", N);
  run_dim<double, 1, 7>("dimensioned_array<double,1>", N); run_dim<long, 10, 3>("dimensioned_array<long,10>", N); run_dim<double, 300, 4>("dimensioned_array<double,300>", N / 20 + 1); run_tuple<double, float, int, double, long, float, double, int, long, double, float, int>("tuple12", N);
  run_tuple<double, int, float>("tuple<double,int,float>", N); run_tuple<double>("tuple<double>", N); run_tuple<int, int>("tuple<int,int>", N); run_tuple<double, float>("tuple<double,float>", N); run_tuple<float, double, long, int, double>("tuple5", N);
#endif
  return vm::finish();
}
