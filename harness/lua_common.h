#pragma once
#include "vmon.h"
#include <iostream>
#include <array>
#include <tuple>
#include <limits>
#include <ristra/embedded/embed_lua.h>
#include <ristra/math/vector.h>
#include <ristra/math/matrix.h>
namespace em = ristra::embedded;
using em::lua_t; using em::lua_result_t;

inline void quiet() { std::cerr.rdbuf(nullptr); }

// ---- serialising model values as Lua source ---------------------------------
inline std::string lit(bool b) { return b ? "true" : "false"; }
inline std::string lit(long long i) {
  if (i == std::numeric_limits<long long>::min()) return "math.mininteger";
  return std::to_string(i);
}
inline std::string lit(int i) { return lit((long long)i); }
inline std::string lit(short i) { return lit((long long)i); }
inline std::string lit(long i) { return lit((long long)i); }
inline std::string lit(unsigned char i) { return lit((long long)i); }
inline std::string lit(signed char i) { return lit((long long)i); }
inline std::string lit(unsigned i) { return lit((long long)i); }
inline std::string lit(unsigned short i) { return lit((long long)i); }
inline std::string lit(size_t i) { return lit((long long)i); }
inline std::string lit(double d) {
  if (std::isnan(d)) return "(0/0)"; if (std::isinf(d)) return d > 0 ? "(1/0)" : "(-1/0)";
  char b[64]; snprintf(b, sizeof b, d == 0 && std::signbit(d) ? "(-0.0)" : "%a", d);
  std::string s(b); return s[0] == '-' ? "(" + s + ")" : s;
}
inline std::string lit(float d) { return lit((double)d); }
inline std::string lit(const std::string & s) {
  std::string o = "\""; char b[8];
  for (unsigned char c : s) { if (c >= 32 && c < 127 && c != '"' && c != '\\') o += (char)c; else { snprintf(b, sizeof b, "\\%03d", c); o += b; } }
  return o + "\"";
}
template <class T> std::string lit(const std::vector<T> & v);
template <class T, size_t N> std::string lit(const ristra::math::vector<T, N> & v);
template <class T, size_t M, size_t N> std::string lit(const ristra::math::matrix<T, M, N> & v);
template <class T, size_t N> std::string lit(const std::array<T, N> & v) {
  std::string o = "{"; for (auto & x : v) o += lit(x) + ","; return o + "}";
}
template <class T> std::string lit(const std::vector<T> & v) {
  std::string o = "{"; for (const auto & x : v) o += lit(T(x)) + ","; return o + "}";
}
template <class T, size_t N> std::string lit(const ristra::math::vector<T, N> & v) {
  std::string o = "{"; for (size_t i = 0; i < N; ++i) o += lit(v[i]) + ","; return o + "}";
}
template <class T, size_t M, size_t N> std::string lit(const ristra::math::matrix<T, M, N> & v) {
  std::string o = "{"; for (size_t i = 0; i < M; ++i) { o += "{"; for (size_t j = 0; j < N; ++j) o += lit(v(i, j)) + ","; o += "},"; } return o + "}";
}

// ---- random model values -----------------------------------------------------
template <class T> struct Gen;
template <> struct Gen<bool> { static bool get(vm::Rng & r) { return r.chance(1, 2); } };
template <class T> struct GenInt { static T get(vm::Rng & r) {
  using L = std::numeric_limits<T>;
  switch (r.below(6)) {
    case 0: return T(r.range(0, 20)); case 1: return L::min(); case 2: return sizeof(T) == 8 && !L::is_signed ? T(std::numeric_limits<long long>::max()) : L::max();
    case 3: return L::is_signed ? T(-(int)r.range(0, 100)) : T(r.range(0, 100));
    case 4: { T v = T(r.next() >> r.below(64)); if (sizeof(T) == 8 && !L::is_signed) v &= T(std::numeric_limits<long long>::max()); return v; }
    default: { T v = T(r.next()); if (sizeof(T) == 8 && !L::is_signed) v &= T(std::numeric_limits<long long>::max()); return v; }
  } } };
#define GI(T) template <> struct Gen<T> : GenInt<T> {};
GI(short) GI(unsigned short) GI(int) GI(unsigned) GI(long) GI(long long) GI(size_t) GI(signed char) GI(unsigned char)
template <> struct Gen<double> { static double get(vm::Rng & r) {
  switch (r.below(8)) {
    case 0: return (double)r.range(-5, 5); case 1: return r.uniform(-1, 1); case 2: { uint64_t u = r.next(); double d; memcpy(&d, &u, 8); return std::isnan(d) ? 0.5 : d; }
    case 3: return std::numeric_limits<double>::infinity() * (r.chance(1, 2) ? 1 : -1); case 4: return -0.0;
    case 5: return std::numeric_limits<double>::denorm_min(); case 6: return 9007199254740993.0 * (double)r.range(1, 9); default: return r.uniform(-1e6, 1e6);
  } } };
template <> struct Gen<float> { static float get(vm::Rng & r) { return r.chance(1, 4) ? (float)r.range(-9, 9) : (float)r.uniform(-1e6, 1e6); } };
template <> struct Gen<std::string> { static std::string get(vm::Rng & r) {
  switch (r.below(5)) {
    case 0: return ""; case 1: return "hello world"; case 2: { std::string s(r.range(1, 40), ' '); for (auto & c : s) c = (char)r.below(256); return s; }
    case 3: { std::string s = "a"; s += '\0'; s += "b"; return s + std::string(r.below(3), '\0'); } default: return std::string(r.range(30, 300), (char)('a' + r.below(26)));
  } } };
template <class T> struct Gen<std::vector<T>> { static std::vector<T> get(vm::Rng & r) { std::vector<T> v; size_t n = r.chance(1, 20) ? r.range(50, 300) : r.below(6); for (size_t i = 0; i < n; ++i) v.push_back(Gen<T>::get(r)); return v; } };
template <class T, size_t N> struct Gen<std::array<T, N>> { static std::array<T, N> get(vm::Rng & r) { std::array<T, N> v; for (auto & x : v) x = Gen<T>::get(r); return v; } };
template <class T, size_t N> struct Gen<ristra::math::vector<T, N>> { static ristra::math::vector<T, N> get(vm::Rng & r) { ristra::math::vector<T, N> v; for (size_t i = 0; i < N; ++i) v[i] = Gen<T>::get(r); return v; } };
template <class T, size_t M, size_t N> struct Gen<ristra::math::multi_array<T, M, N>> { static ristra::math::matrix<T, M, N> get(vm::Rng & r) { ristra::math::matrix<T, M, N> v; for (size_t i = 0; i < M; ++i) for (size_t j = 0; j < N; ++j) v(i, j) = Gen<T>::get(r); return v; } };

// ---- exact comparison --------------------------------------------------------
template <class T> bool same(const T & a, const T & b) { return a == b; }
inline bool same(double a, double b) { return memcmp(&a, &b, 8) == 0 || (std::isnan(a) && std::isnan(b)); }
inline bool same(float a, float b) { return memcmp(&a, &b, 4) == 0 || (std::isnan(a) && std::isnan(b)); }
template <class T, size_t N> bool same(const std::array<T, N> & a, const std::array<T, N> & b);
template <class T, size_t N> bool same(const ristra::math::vector<T, N> & a, const ristra::math::vector<T, N> & b);
template <class T, size_t M, size_t N> bool same(const ristra::math::matrix<T, M, N> & a, const ristra::math::matrix<T, M, N> & b);
template <class T> bool same(const std::vector<T> & a, const std::vector<T> & b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!same(T(a[i]), T(b[i]))) return false; return true; }
template <class T, size_t N> bool same(const std::array<T, N> & a, const std::array<T, N> & b) { for (size_t i = 0; i < N; ++i) if (!same(a[i], b[i])) return false; return true; }
template <class T, size_t N> bool same(const ristra::math::vector<T, N> & a, const ristra::math::vector<T, N> & b) { for (size_t i = 0; i < N; ++i) if (!same(a[i], b[i])) return false; return true; }
template <class T, size_t M, size_t N> bool same(const ristra::math::matrix<T, M, N> & a, const ristra::math::matrix<T, M, N> & b) { for (size_t i = 0; i < M; ++i) for (size_t j = 0; j < N; ++j) if (!same(a(i, j), b(i, j))) return false; return true; }
