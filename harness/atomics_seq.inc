// A02: every spelling of every atomic operation, executed by one thread, must
// compute exactly what the built-in operation computes on the plain value.
#include <iostream>
#include <complex>
#include <cassert>
#include <limits>
#include <sstream>
#include <type_traits>
#include "vmon.h"
#include "ristra/atomics/src/atomics.h"

namespace seq {
namespace ra = ristra::atomics;

// a trivially copyable user type (4 x 8 bits) with its own operators
struct quad8 {
  unsigned char a, b, c, d;
  quad8(int v = 0) : a(v), b(v + 1), c(v * 3), d(v * 7) {}
  bool operator==(const quad8 & o) const { return a == o.a && b == o.b && c == o.c && d == o.d; }
};
// a 16 byte user type
struct pair64 {
  uint64_t x, y;
  pair64(uint64_t v = 0) : x(v), y(v * 0x9E3779B97F4A7C15ull) {}
  bool operator==(const pair64 & o) const { return x == o.x && y == o.y; }
};
#define UOP(op) \
  inline quad8 & operator op(quad8 & l, const quad8 r) { l.a op r.a; l.b op r.b; l.c op r.c; l.d op r.d; return l; } \
  inline pair64 & operator op(pair64 & l, const pair64 r) { l.x op r.x; l.y op r.y; return l; }
UOP(+=) UOP(-=) UOP(*=) UOP(&=) UOP(|=) UOP(^=)
#undef UOP
inline quad8 & operator++(quad8 & l) { ++l.a; ++l.b; ++l.c; ++l.d; return l; }
inline quad8 operator++(quad8 & l, int) { quad8 o = l; ++l; return o; }
inline quad8 & operator--(quad8 & l) { --l.a; --l.b; --l.c; --l.d; return l; }
inline quad8 operator--(quad8 & l, int) { quad8 o = l; --l; return o; }
inline pair64 & operator++(pair64 & l) { ++l.x; ++l.y; return l; }
inline pair64 operator++(pair64 & l, int) { pair64 o = l; ++l; return o; }
inline pair64 & operator--(pair64 & l) { --l.x; --l.y; return l; }
inline pair64 operator--(pair64 & l, int) { pair64 o = l; --l; return o; }
inline bool operator<(const quad8 l, const quad8 r) { return l.a + l.b < r.a + r.b; }
inline bool operator<(const pair64 l, const pair64 r) { return l.x < r.x; }

template <class T> std::string show(const T & v) { std::ostringstream o; o.precision(20); o << +v; return o.str(); }
template <class U> std::string show(U * const & v) { std::ostringstream o; o << (const void *)v; return o.str(); }
inline std::string show(const quad8 & v) { std::ostringstream o; o << "q(" << +v.a << "," << +v.b << "," << +v.c << "," << +v.d << ")"; return o.str(); }
inline std::string show(const pair64 & v) { std::ostringstream o; o << "p(" << v.x << "," << v.y << ")"; return o.str(); }
inline std::string show(const std::complex<float> & v) { std::ostringstream o; o.precision(12); o << v; return o.str(); }
template <class T> std::enable_if_t<!std::is_floating_point<T>::value, bool> same(const T & a, const T & b) { return a == b; }
template <class T> std::enable_if_t<std::is_floating_point<T>::value, bool> same(const T & a, const T & b) { return (a == b && std::signbit(a) == std::signbit(b)) || (std::isnan(a) && std::isnan(b)); }

enum op_t { ADD, SUB, MUL, DIV, MOD, SHL, SHR, AND, OR, XOR, MIN, MAX, INC, PREINC, POSTINC, DEC, PREDEC, POSTDEC, NOPS };
static const char * const opname[] = { "add", "sub", "mul", "div", "mod", "lshift", "rshift", "andeq", "oreq", "xoreq", "min", "max",
  "inc", "preinc", "postinc", "dec", "predec", "postdec" };

// which operations exist for T
template <class T, class = void> struct Has { // user types
  static constexpr bool op(int o) { return o == ADD || o == SUB || o == MUL || o == AND || o == OR || o == XOR || o == MIN || o == MAX || o >= INC; }
};
template <class T> struct Has<T, std::enable_if_t<std::is_integral<T>::value>> { static constexpr bool op(int) { return true; } };
template <class T> struct Has<T, std::enable_if_t<std::is_floating_point<T>::value>> {
  static constexpr bool op(int o) { return o <= DIV || o >= MIN; } };
template <class T> struct Has<T *, void> { static constexpr bool op(int o) { return o == ADD || o == SUB || o >= INC; } };
template <class F> struct Has<std::complex<F>, void> { static constexpr bool op(int o) { return o <= DIV; } };

template <class T> struct Operand { using type = T; };
template <class T> struct Operand<T *> { using type = std::ptrdiff_t; };

// what each scheme offers for T
template <class S, class T> struct Offers { static constexpr bool ok = true; static constexpr bool op(int) { return true; } };
template <class T> struct Offers<ra::cpp, T> {
  static constexpr bool ok = std::is_integral<T>::value || std::is_pointer<T>::value;
  static constexpr bool op(int o) { return o == ADD || o == SUB || o >= INC || (std::is_integral<T>::value && (o == AND || o == OR || o == XOR)); }
};
template <class T> struct Offers<ra::strong::pun, T> { static constexpr bool ok = sizeof(T) <= 8; static constexpr bool op(int) { return true; } };
template <class T> struct Offers<ra::weak::pun, T> { static constexpr bool ok = sizeof(T) <= 8; static constexpr bool op(int) { return true; } };
// std::atomic<long double>::compare_exchange never succeeds on this platform once padding bits differ (with libstdc++ alone, no libristra)
template <> struct Offers<ra::strong, long double> { static constexpr bool ok = false; static constexpr bool op(int) { return false; } };
template <> struct Offers<ra::weak, long double> { static constexpr bool ok = false; static constexpr bool op(int) { return false; } };
// how many memory orders a scheme's operations accept (binary ops; inc/dec of cpp take none)
template <class S> struct Orders { static constexpr int n = 2; };
template <> struct Orders<ra::cpp> { static constexpr int n = 1; };
template <> struct Orders<ra::lock> { static constexpr int n = 0; };
template <> struct Orders<ra::serial> { static constexpr int n = 0; };
template <class S> const char * sname();
template <> inline const char * sname<ra::cpp>() { return "cpp"; }
template <> inline const char * sname<ra::strong>() { return "strong"; }
template <> inline const char * sname<ra::strong::pun>() { return "strong::pun"; }
template <> inline const char * sname<ra::weak>() { return "weak"; }
template <> inline const char * sname<ra::weak::pun>() { return "weak::pun"; }
template <> inline const char * sname<ra::lock>() { return "lock"; }
template <> inline const char * sname<ra::serial>() { return "serial"; }

// forms
enum form_t { OPERATOR, MEMBER, MEMBER1, MEMBER2, FREE, FREE1, FREE2, NFORMS };
static const char * const formname[] = { "operator", "member", "member(order)", "member(succ,fail)", "free", "free(order)", "free(succ,fail)" };

// One struct per operation: the reference on the plain value and all spellings.
// A is the (possibly volatile) atomic, S the scheme that governs the call.
#define BIN(NAME, FUN, OPER) \
  struct NAME { \
    template <class T, class X> static T ref(T & v, X x) { v OPER x; return v; } \
    template <class S, int N, class A, class X> static auto call(A & a, X x, int form, std::memory_order s, std::memory_order f) { \
      using R = typename std::remove_cv_t<A>::value_type; \
      switch (form) { \
        case OPERATOR: return R(a OPER x); \
        case MEMBER: return R(a.FUN(x)); \
        case MEMBER1: if constexpr (N >= 1) return R(a.FUN(x, s)); break; \
        case MEMBER2: if constexpr (N >= 2) return R(a.FUN(x, s, f)); break; \
        case FREE: return R(ra::FUN(a, x)); \
        case FREE1: if constexpr (N >= 1) return R(ra::FUN(a, x, s)); break; \
        case FREE2: if constexpr (N >= 2) return R(ra::FUN(a, x, s, f)); break; \
      } \
      abort(); \
    } \
    template <class S, class A, class X> static auto ocall(A & a, X x, bool member) { return member ? a.template FUN<S>(x) : ra::FUN<S>(a, x); } \
  };
BIN(o_add, add, +=) BIN(o_sub, sub, -=) BIN(o_mul, mul, *=) BIN(o_div, div, /=) BIN(o_mod, mod, %=)
BIN(o_shl, lshift, <<=) BIN(o_shr, rshift, >>=) BIN(o_and, andeq, &=) BIN(o_or, oreq, |=) BIN(o_xor, xoreq, ^=)
#undef BIN
#define MM(NAME, FUN, CMP) \
  struct NAME { \
    template <class T, class X> static T ref(T & v, X x) { if (CMP) v = T(x); return v; } \
    template <class S, int N, class A, class X> static auto call(A & a, X x, int form, std::memory_order s, std::memory_order f) { \
      using R = typename std::remove_cv_t<A>::value_type; \
      switch (form) { \
        case OPERATOR: case MEMBER: return R(a.FUN(x)); \
        case MEMBER1: if constexpr (N >= 1) return R(a.FUN(x, s)); break; \
        case MEMBER2: if constexpr (N >= 2) return R(a.FUN(x, s, f)); break; \
        case FREE: return R(ra::FUN(a, x)); \
        case FREE1: if constexpr (N >= 1) return R(ra::FUN(a, x, s)); break; \
        case FREE2: if constexpr (N >= 2) return R(ra::FUN(a, x, s, f)); break; \
      } \
      abort(); \
    } \
    template <class S, class A, class X> static auto ocall(A & a, X x, bool member) { return member ? a.template FUN<S>(x) : ra::FUN<S>(a, x); } \
  };
MM(o_min, min, x < v) MM(o_max, max, v < x)
#undef MM
#define UN(NAME, FUN, REFEXPR, OPEXPR) \
  struct NAME { \
    template <class T, class X> static T ref(T & v, X) { REFEXPR; } \
    template <class S, int N, class A, class X> static auto call(A & a, X, int form, std::memory_order s, std::memory_order f) { \
      using R = typename std::remove_cv_t<A>::value_type; \
      switch (form) { \
        case OPERATOR: return R(OPEXPR); \
        case MEMBER: return R(a.FUN()); \
        case MEMBER1: if constexpr (N >= 2) return R(a.FUN(s)); break; \
        case MEMBER2: if constexpr (N >= 2) return R(a.FUN(s, f)); break; \
        case FREE: return R(ra::FUN(a)); \
        case FREE1: if constexpr (N >= 2) return R(ra::FUN(a, s)); break; \
        case FREE2: if constexpr (N >= 2) return R(ra::FUN(a, s, f)); break; \
      } \
      abort(); \
    } \
    template <class S, class A, class X> static auto ocall(A & a, X, bool member) { return member ? a.template FUN<S>() : ra::FUN<S>(a); } \
  };
UN(o_inc, inc, ++v; return v, ++a) UN(o_preinc, preinc, ++v; return v, ++a) UN(o_postinc, postinc, T o = v; ++v; return o, a++)
UN(o_dec, dec, --v; return v, --a) UN(o_predec, predec, --v; return v, --a) UN(o_postdec, postdec, T o = v; --v; return o, a--)
#undef UN
template <int O> struct Op;
#define MAP(O, N) template <> struct Op<O> { using type = N; };
MAP(ADD, o_add) MAP(SUB, o_sub) MAP(MUL, o_mul) MAP(DIV, o_div) MAP(MOD, o_mod) MAP(SHL, o_shl) MAP(SHR, o_shr)
MAP(AND, o_and) MAP(OR, o_or) MAP(XOR, o_xor) MAP(MIN, o_min) MAP(MAX, o_max) MAP(INC, o_inc) MAP(PREINC, o_preinc)
MAP(POSTINC, o_postinc) MAP(DEC, o_dec) MAP(PREDEC, o_predec) MAP(POSTDEC, o_postdec)
#undef MAP

// ---- operand generation; the built-in operation must be defined on (v, x)
template <class T> std::enable_if_t<std::is_integral<T>::value, T> gen(vm::Rng & r) {
  switch (r.below(6)) {
    case 0: return std::numeric_limits<T>::max();
    case 1: return std::numeric_limits<T>::min();
    case 2: return T(r.range(-3, 9));
    case 3: return T(T(1) << r.below(sizeof(T) * 8 - 1));
    default: return T(r.next());
  }
}
template <class T> std::enable_if_t<std::is_floating_point<T>::value, T> gen(vm::Rng & r) {
  switch (r.below(8)) {
    case 0: return T(r.range(-8, 8));
    case 1: return r.chance(1, 2) ? T(-0.0) : T(0.0);
    case 3: return r.chance(1, 2) ? std::numeric_limits<T>::infinity() : -std::numeric_limits<T>::infinity();
    case 4: return r.chance(1, 3) ? std::numeric_limits<T>::quiet_NaN() : T(std::numeric_limits<T>::denorm_min() * T(r.range(-5, 5)));
    case 2: return T(std::ldexp(r.uniform(-1, 1), (int)r.range(-60, 60)));
    default: return T(r.uniform(-1000, 1000));
  }
}
static int parr[64];
template <class T> std::enable_if_t<std::is_pointer<T>::value, T> gen(vm::Rng & r) { return parr + 20 + r.below(20); }
template <class T> std::enable_if_t<std::is_same<T, quad8>::value, T> gen(vm::Rng & r) { quad8 q(0); q.a = r.next(); q.b = r.next(); q.c = r.next(); q.d = r.next(); return q; }
template <class T> std::enable_if_t<std::is_same<T, pair64>::value, T> gen(vm::Rng & r) { pair64 p; p.x = r.chance(1, 3) ? r.below(4) : r.next(); p.y = r.next(); return p; }
template <class T> std::enable_if_t<std::is_same<T, std::complex<float>>::value, T> gen(vm::Rng & r) { return { (float)r.uniform(-9, 9), (float)r.uniform(-9, 9) }; }

template <class T, class X> std::enable_if_t<std::is_integral<T>::value, bool> valid(int o, T v, X x) {
  using P = decltype(v + x);
  if (std::is_floating_point<P>::value) { // the result has to be convertible back
    double y = (double)x, z = (double)v, q = o == ADD ? z + y : o == SUB ? z - y : o == MUL ? z * y : o == DIV && y != 0 ? z / y : z;
    if (o == DIV && y == 0) return false;
    if (!(q > (double)std::numeric_limits<T>::min() - 1 && q < (double)std::numeric_limits<T>::max() + 1)) return false;
    if (o == ADD || o == SUB || o == MUL || o == DIV || o == MIN || o == MAX || sizeof(T) < 4) return true;
    return v != std::numeric_limits<T>::max() && v != std::numeric_limits<T>::min();
  }
  const __int128 a = v, b = std::is_floating_point<X>::value ? 0 : (__int128)(std::is_floating_point<X>::value ? X() : x);
  auto fits = [](__int128 q) { if (std::is_floating_point<P>::value) return true; using L = std::conditional_t<std::is_floating_point<P>::value, int, P>; return !std::is_signed<P>::value || (q >= (__int128)std::numeric_limits<L>::min() && q <= (__int128)std::numeric_limits<L>::max()); };
  switch (o) {
    case ADD: return fits(a + b);
    case SUB: return fits(a - b);
    case MUL: return !std::is_signed<P>::value || (sizeof(T) < 8 ? fits(a * b) : (std::abs((double)v) < 2e9 && std::abs((double)x) < 2e9));
    case DIV: case MOD: return x != 0 && !(std::is_signed<P>::value && x == X(-1));
    case SHL: return b >= 0 && b < (int)(sizeof(decltype(+v)) * 8) && (!std::is_signed<decltype(+v)>::value ||
        (a >= 0 && b < 64 && (a << (int)b) <= (__int128)std::numeric_limits<decltype(+v)>::max()));
    case SHR: return b >= 0 && b < (int)(sizeof(decltype(+v)) * 8) && (a >= 0 || true);
    case INC: case PREINC: case POSTINC: return sizeof(T) < 4 || !std::is_signed<T>::value || v != std::numeric_limits<T>::max();
    case DEC: case PREDEC: case POSTDEC: return sizeof(T) < 4 || !std::is_signed<T>::value || v != std::numeric_limits<T>::min();
    default: return true;
  }
}
template <class T, class X> std::enable_if_t<std::is_floating_point<T>::value, bool> valid(int o, T v, X x) {
  if (o == MIN || o == MAX) return !std::isnan(v) && !std::isnan((double)x) && (v != 0 || x != 0); // of a NaN, or of zeros of both signs, neither is the smaller
  return true;
}
template <class T, class X> std::enable_if_t<std::is_pointer<T>::value, bool> valid(int o, T v, X x) {
  std::ptrdiff_t at = v - parr; std::ptrdiff_t to = at + (o == ADD ? x : o == SUB ? -x : (o <= POSTINC && o >= INC) ? 1 : -1);
  return to >= 0 && to < 64;
}
template <class T, class X> std::enable_if_t<std::is_class<T>::value, bool> valid(int o, T v, X x) { return o != DIV || !(x == X(0)); }

struct Names { static std::string & type() { static std::string s; return s; } };

// One operation on one atomic through one spelling, against the reference.
template <int O, class S, int N, class A, class T, class X>
void one(A & a, T & model, X x, int form, vm::Rng & r, const char * vol, const char * tag) {
  static const std::memory_order ss[] = { std::memory_order_relaxed, std::memory_order_acquire, std::memory_order_release,
    std::memory_order_acq_rel, std::memory_order_seq_cst };
  static const std::memory_order ff[] = { std::memory_order_relaxed, std::memory_order_acquire, std::memory_order_seq_cst };
  const auto s = ss[r.below(5)]; const auto f = ff[r.below(3)];
  T before = model;
  T want = Op<O>::type::template ref<T, X>(model, x);
  vm::case_("%s %s%s %s via %s on %s with %s", Names::type().c_str(), vol, tag, opname[O], formname[form], show(before).c_str(), show(x).c_str());
  T got = Op<O>::type::template call<S, N>(a, x, form, s, f);
  T after = T(a);
  std::string key = std::string("value:") + opname[O];
  vm::check(same(got, want), (key + ":return").c_str(), "returned %s, the plain operation gives %s", show(got).c_str(), show(want).c_str());
  vm::check(same(after, model), (key + ":store").c_str(), "left %s in the variable, the plain operation leaves %s", show(after).c_str(), show(model).c_str());
  vm::count("operations");
  vm::distinct(vm::hstr(vm::st().casebuf));
}

template <int O, class S, class A, class T, class X> void over(A & a, T & model, X x, bool member, const char * tag) {
  T before = model;
  T want = Op<O>::type::template ref<T, X>(model, x);
  vm::case_("%s override %s %s via %s on %s with %s", Names::type().c_str(), tag, opname[O], member ? "member<S>" : "free<S>", show(before).c_str(), show(x).c_str());
  T got = Op<O>::type::template ocall<S>(a, x, member);
  vm::check(same(got, want), (std::string("value:") + opname[O] + ":return").c_str(), "returned %s, the plain operation gives %s", show(got).c_str(), show(want).c_str());
  vm::check(same(T(a), model), (std::string("value:") + opname[O] + ":store").c_str(), "left %s in the variable, the plain operation leaves %s", show(T(a)).c_str(), show(model).c_str());
  vm::count("operations"); vm::count("operations_with_scheme_override");
  vm::distinct(vm::hstr(vm::st().casebuf));
}
template <class T, class X> X gen_x(vm::Rng & r, int o) {
  if constexpr (std::is_pointer<T>::value) return (X)r.range(-25, 25);
  else if constexpr (std::is_integral<T>::value) { if (o == SHL || o == SHR) return X(r.below(sizeof(T) * 8)); if ((o == MUL || o == ADD || o == SUB) && r.chance(1, 2)) return X(r.range(0, 11)); return gen<X>(r); }
  else return gen<X>(r);
}

template <class T, class S, int O, bool VOL> void run_op(vm::Rng & r, uint64_t iters) {
  if constexpr (Has<T>::op(O) && Offers<S, T>::ok && Offers<S, T>::op(O)) {
    using X = typename Operand<T>::type;
    using A = ra::atomic<T, S>;
    struct { A lo; A a; A hi; } slot{ { T{} }, { T{} }, { T{} } };
    const T g = gen<T>(r); slot.lo = g; slot.hi = g;
    constexpr int N = Orders<S>::n;
    for (uint64_t i = 0; i < iters; ++i) {
      T v = gen<T>(r); X x = gen_x<T, X>(r, O);
      if (!valid(O, v, x)) continue;
      slot.a = v; T m = v;
      int form = (int)r.below(NFORMS);
      if (form == MEMBER1 || form == FREE1) { if (O >= INC ? N < 2 : N < 1) form = MEMBER; }
      if (form == MEMBER2 || form == FREE2) { if (N < 2) form = FREE; }
      if constexpr (VOL) { volatile A & va = slot.a; one<O, S, N>(va, m, x, form, r, "volatile ", sname<S>()); }
      else one<O, S, N>(slot.a, m, x, form, r, "", sname<S>());
    }
    vm::check(same(T(slot.lo), g) && same(T(slot.hi), g), "neighbour", "an adjacent variable changed");
  }
}
// scheme given at the call
template <class T, class BASE, class S, int O> void run_over(vm::Rng & r, uint64_t iters) {
  if constexpr (Has<T>::op(O) && Offers<S, T>::ok && Offers<S, T>::op(O) && Offers<BASE, T>::ok) {
    using X = typename Operand<T>::type;
    ra::atomic<T, BASE> a{ T{} };
    for (uint64_t i = 0; i < iters; ++i) {
      T v = gen<T>(r); X x = gen_x<T, X>(r, O);
      if (!valid(O, v, x)) continue;
      a = v; T m = v;
      over<O, S>(a, m, x, r.chance(1, 2), sname<S>());
    }
  }
}

template <class T, class S, bool VOL, int... O> void run_ops(vm::Rng & r, uint64_t it, std::integer_sequence<int, O...>) {
  (run_op<T, S, O, VOL>(r, it), ...);
}
template <class T, class BASE, class S, int... O> void run_overs(vm::Rng & r, uint64_t it, std::integer_sequence<int, O...>) {
  (run_over<T, BASE, S, O>(r, it), ...);
}
using AllOps = std::make_integer_sequence<int, NOPS>;
template <class T, class S> void scheme(vm::Rng & r) {
  run_ops<T, S, false>(r, vm::n(120), AllOps{});
  if constexpr (std::is_arithmetic<T>::value && sizeof(T) <= 8) run_ops<T, S, true>(r, vm::n(40), AllOps{});
}
// a variable updated in turn through every scheme keeps one value
template <class T> void type(const char * name) {
  Names::type() = name;
  vm::Rng r = vm::rng(name);
  scheme<T, ra::cpp>(r); scheme<T, ra::strong>(r); scheme<T, ra::weak>(r); scheme<T, ra::lock>(r); scheme<T, ra::serial>(r);
  scheme<T, ra::strong::pun>(r); scheme<T, ra::weak::pun>(r);
  const uint64_t k = vm::n(40);
  run_overs<T, ra::strong, ra::cpp>(r, k, AllOps{}); run_overs<T, ra::strong, ra::weak>(r, k, AllOps{});
  run_overs<T, ra::strong, ra::strong::pun>(r, k, AllOps{}); run_overs<T, ra::strong, ra::weak::pun>(r, k, AllOps{});
  run_overs<T, ra::serial, ra::lock>(r, k, AllOps{}); run_overs<T, ra::strong, ra::lock>(r, k, AllOps{}); run_overs<T, ra::strong, ra::serial>(r, k, AllOps{});
  run_overs<T, ra::weak, ra::strong>(r, k, AllOps{});
  vm::sample_if(name, vm::st().casebuf);
}
} // namespace seq
