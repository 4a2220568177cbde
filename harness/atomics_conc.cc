// A01: concurrent updates of one variable are indivisible: the values the
// operations returned, and the value finally left, are explained by one serial
// order of all the operations.
//
// Observation: every operation is recorded as an edge (value before -> value
// after).  A serial order exists exactly when these edges form an Eulerian
// path from the initial to the final value; with distinct values that path is
// unique and is then also compared with each thread's program order.
// Reach: operands of class type run user code inside the window between the
// library's read and its write; that code injects delays, yields and (in the
// deterministic part) interfering updates.
#include <iostream>
#include <thread>
#include <atomic>
#include <vector>
#include <functional>
#include <algorithm>
#include <sstream>
#include <map>
#include <sched.h>
#include "vmon.h"
#include "ristra/atomics/src/atomics.h"
namespace ra = ristra::atomics;

// ---------------------------------------------------------------- user types
struct quad8 { // 4 bytes: an affine map over Z/2^16, composition does not commute
  uint16_t m, c;
  bool operator==(const quad8 & o) const { return m == o.m && c == o.c; }
};
struct pair64 { // 16 bytes, non commutative update
  uint64_t x, y;
  bool operator==(const pair64 & o) const { return x == o.x && y == o.y; }
};
inline quad8 & operator+=(quad8 & l, const quad8 r) { l.c = (uint16_t)(l.c * r.m + r.c); l.m = (uint16_t)(l.m * r.m); return l; }
inline pair64 & operator+=(pair64 & l, const pair64 r) { l.x = l.x * 3 + r.x; l.y += r.y; return l; }

// ------------------------------------------------------- window instrumentation
struct Tls { vm::Rng * r = nullptr; uint64_t bits_before = 0, hi_before = 0; uint64_t calls = 0; bool observed = false; uint64_t unobserved = 0; std::function<void()> * inject = nullptr; };
static thread_local Tls tls;
static inline void window() {
  tls.calls++;
  if (tls.inject && *tls.inject) (*tls.inject)();
  else if (tls.r) {
    uint64_t k = tls.r->next();
    if ((k & 63) == 0) std::this_thread::yield();
    else if ((k & 7) == 0) for (volatile int i = 0; i < (int)((k >> 8) & 255); ++i) {}
  }
}
template <class T0> static void seen(const T0 & v) { using T = std::remove_volatile_t<T0>; T t = v; uint64_t w[2] = { 0, 0 }; memcpy(w, &t, sizeof(T)); tls.observed = true; tls.bits_before = w[0]; tls.hi_before = w[1]; }
// operand that observes the value an operation starts from and widens the window
template <class X> struct Hook {
  X v;
  operator X() const { return v; }
};
template <class T> struct is_cell : std::false_type {};
template <class T, class S, std::size_t N> struct is_cell<ra::atomic<T, S, N>> : std::true_type {};
#define HOP(op) template <class T, class X, class = std::enable_if_t<!is_cell<std::remove_cv_t<T>>::value && !std::is_const<T>::value>> inline T & operator op(T & l, const Hook<X> h) { seen(l); window(); l op h.v; return l; }
HOP(+=) HOP(-=) HOP(*=) HOP(/=) HOP(%=) HOP(<<=) HOP(>>=) HOP(&=) HOP(|=) HOP(^=)
#undef HOP
#define HCMP(op) \
template <class T, class X, class = std::enable_if_t<std::is_arithmetic<T>::value>> inline bool operator op(const Hook<X> h, const T & a) { seen(a); window(); return h.v op a; } \
template <class T, class X, class = std::enable_if_t<std::is_arithmetic<T>::value>> inline bool operator op(const T & a, const Hook<X> h) { seen(a); window(); return a op h.v; }
HCMP(<) HCMP(>) HCMP(<=) HCMP(>=)
#undef HCMP

enum op_t { ADD, SUB, MUL, DIV, MOD, SHL, SHR, AND, OR, XOR, MIN, MAX, INC, PREINC, POSTINC, DEC, PREDEC, POSTDEC };
static const char * const opn[] = { "add", "sub", "mul", "div", "mod", "lshift", "rshift", "andeq", "oreq", "xoreq", "min", "max", "inc", "preinc", "postinc", "dec", "predec", "postdec" };

template <class S> const char * sname();
template <> const char * sname<ra::cpp>() { return "cpp"; }
template <> const char * sname<ra::strong>() { return "strong"; }
template <> const char * sname<ra::strong::pun>() { return "strong::pun"; }
template <> const char * sname<ra::weak>() { return "weak"; }
template <> const char * sname<ra::weak::pun>() { return "weak::pun"; }
template <> const char * sname<ra::lock>() { return "lock"; }

struct V { uint64_t a = 0, b = 0; bool operator<(const V & o) const { return a != o.a ? a < o.a : b < o.b; } bool operator==(const V & o) const { return a == o.a && b == o.b; } };
template <class T> V val(const T & t) { uint64_t w[2] = { 0, 0 }; T c = t; memcpy(w, &c, sizeof(T)); return { w[0], w[1] }; }
struct Edge { V from, to; int thread; uint32_t idx; };
// the same variable through a volatile reference, one time in three: one and the same cell, lock and value
#define EITHER(EXPR) (r.chance(1, 3) ? [&](volatile std::remove_reference_t<decltype(at0)> & at) -> T { return EXPR; }(at0) : [&](auto & at) -> T { return EXPR; }(at0))

static std::string vs(V v) { char b[64]; snprintf(b, sizeof b, "%llx:%llx", (unsigned long long)v.b, (unsigned long long)v.a); return b; }

// Does one serial order explain the edges?  (Eulerian path from init to fin)
static void judge(const std::string & what, V init, V fin, std::vector<Edge> & es, uint64_t retries, int nthreads) {
  vm::case_("%s: %zu operations by %d threads", what.c_str(), es.size(), nthreads);
  std::map<V, int> deg; std::map<V, V> uf;
  std::function<V(V)> find = [&](V x) { while (!(uf[x] == x)) { uf[x] = uf[uf[x]]; x = uf[x]; } return x; };
  auto add = [&](V x) { if (!uf.count(x)) uf[x] = x; };
  add(init); add(fin);
  bool repeated = false; std::map<V, int> outn;
  for (auto & e : es) { add(e.from); add(e.to); deg[e.from]--; deg[e.to]++; uf[find(e.from)] = find(e.to); if (!(e.from == e.to) && outn[e.from]++) repeated = true; if (e.from == e.to) repeated = true; }
  deg[init]++; deg[fin]--;
  bool bal = true; V bad;
  for (auto & d : deg) if (d.second != 0) { bal = false; bad = d.first; break; }
  std::string k = "serial:" + what.substr(0, what.find(" x"));
  vm::check(bal, k.c_str(), "no serial order explains the returned values and the final value %s (started from %s; value %s is produced and consumed unequally often)",
    vs(fin).c_str(), vs(init).c_str(), vs(bad).c_str());
  bool conn = true; V root = find(init);
  for (auto & e : es) if (!(find(e.from) == root)) { conn = false; bad = e.from; break; }
  vm::check(conn, k.c_str(), "an operation started from %s, a value the variable never held", vs(bad).c_str());
  vm::count("operations_observed", es.size()); vm::count("window_retries_observed", retries);
  if (bal && conn && !repeated) {
    std::map<V, const Edge *> next; for (auto & e : es) next[e.from] = &e;
    V x = init; uint64_t h = vm::hstr(what); std::vector<int64_t> last(nthreads + 1, -1); uint64_t switches = 0; int prev = -1; size_t n = 0;
    while (n < es.size()) {
      auto it = next.find(x); if (it == next.end()) break;
      const Edge * e = it->second;
      vm::check((int64_t)e->idx > last[e->thread], ("program-order:" + what.substr(0, what.find(" x"))).c_str(), "thread %d: operation %u took effect after operation %lld", e->thread, e->idx, (long long)last[e->thread]);
      last[e->thread] = e->idx; if (e->thread != prev) switches++; prev = e->thread; h = vm::hmix(h, e->thread); x = e->to; ++n;
    }
    vm::check(n == es.size() && x == fin, k.c_str(), "the chain of returned values breaks after %zu of %zu operations", n, es.size());
    vm::count("unique_serial_orders_recovered"); vm::count("thread_switches_in_serial_order", switches);
    if (switches > (uint64_t)nthreads) vm::distinct(h); // non-trivial: the threads really interleaved
  } else if (bal && conn) { vm::count("histories_with_repeated_values"); vm::distinct(vm::hmix(vm::hstr(what), retries)); }
  vm::sample_if(what.substr(0, 12).c_str(), std::string(vm::st().casebuf) + ", initial " + vs(init) + " final " + vs(fin));
}

// ------------------------------------------------------------------ workloads
struct Gate { std::atomic<int> in{ 0 }; int n; explicit Gate(int n_) : n(n_) {} void wait() { in.fetch_add(1); while (in.load() < n) sched_yield(); } };

// update(atom, rng, idx) performs one operation and returns the edge it claims
template <class A, class F> void stress(const std::string & what, A & a, typename A::value_type init, int nt, int k, vm::Rng & seed, F update) {
  using T = typename A::value_type;
  a = init;
  std::vector<std::vector<Edge>> es(nt); std::vector<uint64_t> retr(nt, 0); Gate g(nt);
  std::vector<std::thread> th;
  vm::case_("%s running", what.c_str());
  // an operand that was converted instead of applied shows no origin value: such a history cannot be judged
  const bool hooked = what.find("observing operand") != std::string::npos; std::atomic<uint64_t> unob{ 0 };
  for (int t = 0; t < nt; ++t) {
    uint64_t s = seed.next();
    th.emplace_back([&, t, s] {
      vm::Rng r(s); tls = Tls{}; tls.r = &r; es[t].reserve(k); g.wait();
      uint64_t calls0 = tls.calls;
      for (int i = 0; i < k; ++i) { tls.observed = !hooked; Edge e = update(a, r, i); if (!tls.observed) tls.unobserved++; e.thread = t; e.idx = i; es[t].push_back(e); }
      retr[t] = tls.calls - calls0 > (uint64_t)k ? tls.calls - calls0 - k : 0; tls.r = nullptr; unob += tls.unobserved;
    });
  }
  for (auto & x : th) x.join();
  std::vector<Edge> all; uint64_t rt = 0; for (auto & e : es) all.insert(all.end(), e.begin(), e.end()); for (auto x : retr) rt += x;
  if (unob.load()) { vm::count("operations_whose_window_was_not_observable", unob.load()); return; }
  judge(what, val(init), val(T(a)), all, rt, nt);
}

template <class T> T big(vm::Rng & r) { return (T)(r.next() | 1); }

#define ORD(CALL0, CALL1, CALL2) (f == 0 ? T(CALL0) : f == 1 ? T(CALL1) : T(CALL2))

// Hooked binary operation: the edge's origin is what the operation saw.
template <int O, class T, class A, class X> T apply(A & a, X x, int f) {
  const auto s1 = std::memory_order_acq_rel, s2 = std::memory_order_seq_cst; const auto fl = std::memory_order_relaxed;
  constexpr bool lk = std::is_same<typename A::scheme_type, ra::lock>::value;
  if constexpr (lk) {
    if constexpr (O == ADD) return f ? T(a += x) : T(a.add(x)); if constexpr (O == SUB) return f ? T(a -= x) : T(ra::sub(a, x));
    if constexpr (O == MUL) return f ? T(a *= x) : T(a.mul(x)); if constexpr (O == DIV) return f ? T(a /= x) : T(ra::div(a, x)); if constexpr (O == MOD) return f ? T(a %= x) : T(a.mod(x));
    if constexpr (O == SHL) return f ? T(a <<= x) : T(ra::lshift(a, x)); if constexpr (O == SHR) return f ? T(a >>= x) : T(a.rshift(x));
    if constexpr (O == AND) return f ? T(a &= x) : T(a.andeq(x)); if constexpr (O == OR) return f ? T(a |= x) : T(ra::oreq(a, x)); if constexpr (O == XOR) return f ? T(a ^= x) : T(a.xoreq(x));
    if constexpr (O == MIN) return f ? T(a.min(x)) : T(ra::min(a, x)); if constexpr (O == MAX) return f ? T(ra::max(a, x)) : T(a.max(x));
  } else {
    if constexpr (O == ADD) return ORD(a += x, a.add(x, s1), ra::add(a, x, s2, fl)); if constexpr (O == SUB) return ORD(a -= x, ra::sub(a, x, s1), a.sub(x, s1, fl));
    if constexpr (O == MUL) return ORD(a *= x, a.mul(x, s1), a.mul(x, s2, fl)); if constexpr (O == DIV) return ORD(a /= x, a.div(x, s2), ra::div(a, x, s1, fl)); if constexpr (O == MOD) return ORD(a %= x, ra::mod(a, x, s1), a.mod(x, s2, fl));
    if constexpr (O == SHL) return ORD(a <<= x, a.lshift(x, s1), a.lshift(x, s2, fl)); if constexpr (O == SHR) return ORD(a >>= x, a.rshift(x, s1), ra::rshift(a, x, s2, fl));
    if constexpr (O == AND) return ORD(a &= x, a.andeq(x, s1), a.andeq(x, s2, fl)); if constexpr (O == OR) return ORD(a |= x, ra::oreq(a, x, s1), a.oreq(x, s2, fl)); if constexpr (O == XOR) return ORD(a ^= x, a.xoreq(x, s1), ra::xoreq(a, x, s2, fl));
    if constexpr (O == MIN) return ORD(a.min(x), ra::min(a, x, s1), a.min(x, s2, fl)); if constexpr (O == MAX) return ORD(ra::max(a, x), a.max(x, s1), ra::max(a, x, s2, fl));
  }
  abort();
}
template <int O, class T, class A> T apply1(A & a, int f) {
  const auto s1 = std::memory_order_acq_rel, s2 = std::memory_order_seq_cst; const auto fl = std::memory_order_relaxed;
  constexpr bool lk = std::is_same<typename A::scheme_type, ra::lock>::value || std::is_same<typename A::scheme_type, ra::cpp>::value;
  if constexpr (lk) {
    if constexpr (O == INC) return f ? T(a.inc()) : T(ra::inc(a)); if constexpr (O == PREINC) return f ? T(++a) : T(a.preinc()); if constexpr (O == POSTINC) return f ? T(a++) : T(ra::postinc(a));
    if constexpr (O == DEC) return f ? T(a.dec()) : T(ra::dec(a)); if constexpr (O == PREDEC) return f ? T(--a) : T(a.predec()); if constexpr (O == POSTDEC) return f ? T(a--) : T(ra::postdec(a));
  } else {
    if constexpr (O == INC) return ORD(a.inc(), ra::inc(a, s1), a.inc(s2, fl)); if constexpr (O == PREINC) return ORD(++a, a.preinc(s1), ra::preinc(a, s2, fl)); if constexpr (O == POSTINC) return ORD(a++, a.postinc(s1), ra::postinc(a, s2, fl));
    if constexpr (O == DEC) return ORD(a.dec(), ra::dec(a, s1), a.dec(s2, fl)); if constexpr (O == PREDEC) return ORD(--a, a.predec(s1), a.predec(s2, fl)); if constexpr (O == POSTDEC) return ORD(a--, ra::postdec(a, s1), a.postdec(s2, fl));
  }
  abort();
}
template <int O, class T> T plain(T v, T x) {
  if constexpr (O == ADD) v += x; if constexpr (O == SUB) v -= x;
  if constexpr (O == MUL) v *= x; if constexpr (O == DIV) v /= x;
  if constexpr (O == MIN) { if (x < v) v = x; } if constexpr (O == MAX) { if (v < x) v = x; }
  if constexpr (std::is_integral<T>::value) {
    if constexpr (O == MOD) v %= x; if constexpr (O == SHL) v <<= x; if constexpr (O == SHR) v >>= x;
    if constexpr (O == AND) v &= x; if constexpr (O == OR) v |= x; if constexpr (O == XOR) v ^= x;
  }
  return v;
}
// undo of an invertible operation, for operands the library passes through untouched
template <int O, class T> T undo(T v, T x) {
  if constexpr (O == ADD) return T(v - x); if constexpr (O == SUB) return T(v + x); if constexpr (O == XOR) return T(v ^ x);
  abort();
}
static int NT = 4;
static uint64_t K(uint64_t k) { uint64_t r = vm::n(k); return r < 50 ? 50 : r; }

template <int O, class T> T operand(vm::Rng & r) {
  if constexpr (O == ADD || O == SUB) { if constexpr (std::is_integral<T>::value) return big<T>(r); else return T((double)r.range(1, 1 << 20)); }
  if constexpr (O == MUL || O == DIV) { if constexpr (std::is_integral<T>::value) { return O == MUL ? T(r.next() | 1) : T(r.range(1, 2)); } else return r.chance(1, 2) ? T(2) : T(0.5); }
  if constexpr (O == MOD) return T(T(r.next()) | T(T(1) << (sizeof(T) * 8 - 2)));
  if constexpr (O == SHL || O == SHR) return T(r.below(3));
  if constexpr (O == AND) return (T)~(T(1) << r.below(sizeof(T) * 8));
  if constexpr (O == OR) return T(T(1) << r.below(sizeof(T) * 8));
  if constexpr (O == XOR) return big<T>(r);
  return T((double)r.range(-100000, 100000));
}
// binary operation with an observing operand (also checks return == op(seen))
template <class T, class S, int O> void binary(vm::Rng & seed, const char * tn) {
  static ra::atomic<T, S> a(T{});
  std::string what = std::string(sname<S>()) + "/" + opn[O] + "/" + tn + " x observing operand";
  T init; { if constexpr (std::is_integral<T>::value) init = O == AND ? T(~T(0)) : O == OR ? T(0) : O == SHL ? T(1) : T(seed.next()); else init = T(1 << 20); }
  stress(what, a, init, NT, (int)K(400), seed, [](auto & at0, vm::Rng & r, int) {
    T x = operand<O, T>(r); const int f = (int)r.below(3);
    T ret = EITHER((apply<O, T>(at, Hook<T>{ x }, f)));
    T before; uint64_t w[2] = { tls.bits_before, tls.hi_before }; memcpy(&before, w, sizeof(T));
    T want = plain<O, T>(before, x);
    if (tls.observed && !(want == ret)) vm::viol(std::string("return:") + sname<S>() + "/" + opn[O], "the operation saw %.17g, operand %.17g, returned %.17g", (double)before, (double)x, (double)ret);
    return Edge{ val(before), val(ret), 0, 0 };
  });
}
// invertible operation with a plain operand: works for every scheme, also cpp
template <class T, class S, int O> void invertible(vm::Rng & seed, const char * tn) {
  static ra::atomic<T, S> a(T{});
  std::string what = std::string(sname<S>()) + "/" + opn[O] + "/" + tn + " x plain operand";
  stress(what, a, T(seed.next()), NT, (int)K(3000), seed, [](auto & at, vm::Rng & r, int) {
    T x = big<T>(r);
    T ret;
    if constexpr (std::is_same<S, ra::cpp>::value) {
      const int f = (int)r.below(2);
      if constexpr (O == ADD) ret = f ? T(at += x) : T(at.add(x, std::memory_order_acq_rel)); if constexpr (O == SUB) ret = f ? T(at -= x) : T(ra::sub(at, x, std::memory_order_seq_cst)); if constexpr (O == XOR) ret = f ? T(at ^= x) : T(ra::xoreq(at, x));
    } else { const int f = (int)r.below(3); auto & at0 = at; ret = EITHER((apply<O, T>(at, x, f))); }
    return Edge{ val(undo<O, T>(ret, x)), val(ret), 0, 0 };
  });
}
template <class T, class S, int O> void unary(vm::Rng & seed, const char * tn) {
  static ra::atomic<T, S> a(T{});
  std::string what = std::string(sname<S>()) + "/" + opn[O] + "/" + tn + " x unary";
  T init; if constexpr (std::is_integral<T>::value) init = T(seed.below(40)); else init = T(3);
  if constexpr (std::is_same<T, unsigned>::value || std::is_same<T, uint64_t>::value) init = T(0) - T(7); // wraps
  stress(what, a, init, NT, (int)K(3000), seed, [](auto & at0, vm::Rng & r, int) {
    const int f = (int)r.below(3); T ret = EITHER((apply1<O, T>(at, f))); T one = 1;
    V from, to;
    if (O == INC || O == PREINC) { from = val(T(ret - one)); to = val(ret); }
    else if (O == POSTINC) { from = val(ret); to = val(T(ret + one)); }
    else if (O == DEC || O == PREDEC) { from = val(T(ret + one)); to = val(ret); }
    else { from = val(ret); to = val(T(ret - one)); }
    return Edge{ from, to, 0, 0 };
  });
}
// monotone / absorbing operations through std-like scheme cpp (no observing operand possible)
template <class T> void cpp_bits(vm::Rng & seed, const char * tn) {
  // andeq/oreq with one private bit per thread: a thread's own bit is exactly what it last wrote
  static ra::atomic<T, ra::cpp> a(T{});
  const int nt = NT; Gate g(nt); std::vector<std::thread> th; std::atomic<uint64_t> bad{ 0 }; a = T(0);
  vm::case_("cpp/andeq+oreq/%s private bits", tn);
  const uint64_t k = K(3000);
  for (int t = 0; t < nt; ++t) th.emplace_back([&, t, k] {
    const T bit = T(T(1) << t); g.wait();
    for (uint64_t i = 0; i < k; ++i) {
      T x = (i & 1) ? T(a |= bit) : T(ra::oreq(a, bit)); if (!(x & bit)) bad++;
      x = (i & 1) ? T(a.andeq(T(~bit))) : T(a &= T(~bit)); if (x & bit) bad++;
    }
  });
  for (auto & x : th) x.join();
  vm::check(bad == 0, "return:cpp/andeq+oreq", "%llu results lacked the caller's own update", (unsigned long long)bad.load());
  vm::check(T(a) == T(0), "serial:cpp/andeq+oreq", "final bits %llx", (unsigned long long)T(a)); vm::count("operations_observed", 2 * k * nt);
}
// --------------------------------------------------------- deterministic part
// The operand's code runs inside the library's read-modify-write window on this
// very thread and changes the variable k times: the library must notice.
template <class T, class S, int O> void interfere(vm::Rng & r, const char * tn) {
  ra::atomic<T, S> a(T{});
  for (uint64_t it = 0; it < vm::n(60); ++it) {
    T v0 = T(r.range(1, 100)), x = operand<O, T>(r);
    if constexpr (O == DIV || O == MOD) { if (x == T(0)) x = T(1); }
    const int depth = r.chance(1, 60) ? (int)r.below(30000) : r.chance(1, 6) ? (int)r.below(400) : (int)r.below(5); T w[5]; for (auto & q : w) q = T(r.range(1, 120));
    if (depth > 4) vm::count("long_contentions");
    const int mode = (int)r.below(2); // overwrite, or a nested update through the library
    a = v0; int calls = 0; T expect_base = v0; T nested_model = v0;
    std::function<void()> inj = [&] {
      if (calls++ < depth) {
        const T q = w[(calls - 1) % 5];
        if (mode == 0) { expect_base = depth > 4 && T(a) == q ? T(q + T(1)) : q; a = expect_base; }
        else { nested_model = T(T(a) + q); a = nested_model; expect_base = nested_model; }
      }
    };
    vm::case_("window interference: %s %s %s, start %.17g operand %.17g, %d interfering writes (mode %d)", sname<S>(), opn[O], tn, (double)v0, (double)x, depth, mode);
    tls = Tls{}; tls.inject = &inj;
    T ret = apply<O, T>(a, Hook<T>{ x }, (int)r.below(3));
    tls.inject = nullptr;
    if (calls == 0) { vm::count("operations_whose_window_was_not_observable"); continue; }
    T want = plain<O, T>(expect_base, x);
    std::string k = std::string("window:") + sname<S>() + "/" + opn[O];
    vm::check(ret == want, k.c_str(), "returned %.17g, expected %.17g (update applied to a stale value?)", (double)ret, (double)want);
    vm::check(T(a) == want, k.c_str(), "left %.17g, expected %.17g (an interfering update was lost)", (double)T(a), (double)want);
    vm::count("window_interferences", calls > depth ? depth : calls); vm::distinct(vm::hstr(vm::st().casebuf));
  }
}
// lock scheme: while one operation is inside its window no other one enters
template <class T, std::size_t NM> void exclusion(vm::Rng & r, const char * tn) {
  static ra::atomic<T, ra::lock, NM> a(T(0)); a = T(0);
  for (uint64_t it = 0; it < (vm::n(25) > 40 ? 40 : vm::n(25)); ++it) {
    std::atomic<int> inside{ 0 }, maxin{ 0 }; Gate g(3); std::vector<std::thread> th; a = T(0);
    vm::case_("lock exclusion %s nmux %zu", tn, NM);
    for (int t = 0; t < 3; ++t) th.emplace_back([&, t] {
      std::function<void()> inj = [&] {
        int n = inside.fetch_add(1) + 1; int m = maxin.load(); while (n > m && !maxin.compare_exchange_weak(m, n)) {}
        for (int k = 0; k < 40; ++k) { std::this_thread::yield(); for (volatile int q = 0; q < 300; ++q) {} }
        inside.fetch_sub(1);
      };
      tls = Tls{}; tls.inject = &inj; g.wait();
      switch (t) { case 0: a += Hook<T>{ T(1) }; break; case 1: ra::sub(a, Hook<T>{ T(1) }); break; default: a.max(Hook<T>{ T(0) }); }
      tls.inject = nullptr;
    });
    for (auto & x : th) x.join();
    vm::check(maxin.load() == 1, "lock:exclusion", "%d operations of the lock scheme were inside the update at once", maxin.load());
    vm::count("lock_exclusion_rounds"); vm::distinct(vm::hmix(vm::hstr(tn), it));
  }
}

template <class T, class S, int O> void rot(vm::Rng & r, const char * tn) { binary<T, S, O>(r, tn); }

template <class T, class S> void integral_all(vm::Rng & r, const char * tn) {
  binary<T, S, ADD>(r, tn); binary<T, S, SUB>(r, tn); binary<T, S, MUL>(r, tn); binary<T, S, DIV>(r, tn); binary<T, S, MOD>(r, tn);
  binary<T, S, SHL>(r, tn); binary<T, S, SHR>(r, tn); binary<T, S, AND>(r, tn); binary<T, S, OR>(r, tn); binary<T, S, XOR>(r, tn);
  binary<T, S, MIN>(r, tn); binary<T, S, MAX>(r, tn);
  invertible<T, S, ADD>(r, tn); invertible<T, S, SUB>(r, tn); invertible<T, S, XOR>(r, tn);
  unary<T, S, INC>(r, tn); unary<T, S, PREINC>(r, tn); unary<T, S, POSTINC>(r, tn); unary<T, S, DEC>(r, tn); unary<T, S, PREDEC>(r, tn); unary<T, S, POSTDEC>(r, tn);
}
template <class T, class S> void floating_all(vm::Rng & r, const char * tn) {
  binary<T, S, ADD>(r, tn); binary<T, S, SUB>(r, tn); binary<T, S, MUL>(r, tn); binary<T, S, DIV>(r, tn); binary<T, S, MIN>(r, tn); binary<T, S, MAX>(r, tn);
  unary<T, S, PREINC>(r, tn); unary<T, S, POSTDEC>(r, tn);
}
template <class S> void user_all(vm::Rng & seed) {
  {
    static ra::atomic<pair64, S> a(pair64{ 0, 0 });
    stress(std::string(sname<S>()) + "/add/16-byte user x observing operand", a, pair64{ 5, 7 }, NT, (int)K(400), seed, [](auto & at, vm::Rng & r, int) {
      pair64 x{ r.next(), r.next() | 1 };
      pair64 ret = at.add(Hook<pair64>{ x });
      pair64 b{ tls.bits_before, tls.hi_before };
      return Edge{ val(b), val(ret), 0, 0 };
    });
  }
}
template <class S> void user4(vm::Rng & seed) {
  static ra::atomic<quad8, S> a(quad8{ 1, 0 });
  stress(std::string(sname<S>()) + "/add/4-byte user x observing operand, non-commutative", a, quad8{ 1, 3 }, NT, (int)K(600), seed, [](auto & at, vm::Rng & r, int) {
    quad8 x{ (uint16_t)(r.next() | 1), (uint16_t)r.next() };
    quad8 ret = r.chance(1, 2) ? at.add(Hook<quad8>{ x }) : (at += Hook<quad8>{ x });
    quad8 b; memcpy(&b, &tls.bits_before, sizeof b);
    quad8 want = b; want += x;
    if (tls.observed && !(want == ret)) vm::viol(std::string("return:") + sname<S>() + "/user", "returned value does not follow from the value seen");
    return Edge{ val(b), val(ret), 0, 0 };
  });
}
template <class T, class S> void interf_int(vm::Rng & r, const char * tn) {
  interfere<T, S, ADD>(r, tn); interfere<T, S, SUB>(r, tn); interfere<T, S, MUL>(r, tn); interfere<T, S, DIV>(r, tn); interfere<T, S, MOD>(r, tn); interfere<T, S, SHL>(r, tn); interfere<T, S, SHR>(r, tn);
  interfere<T, S, AND>(r, tn); interfere<T, S, OR>(r, tn); interfere<T, S, XOR>(r, tn); interfere<T, S, MIN>(r, tn); interfere<T, S, MAX>(r, tn);
}
template <class T, class S> void interf_fp(vm::Rng & r, const char * tn) {
  interfere<T, S, ADD>(r, tn); interfere<T, S, SUB>(r, tn); interfere<T, S, MUL>(r, tn); interfere<T, S, DIV>(r, tn); interfere<T, S, MIN>(r, tn); interfere<T, S, MAX>(r, tn);
}
// several schemes that share the hardware cell may be mixed on one variable
// the scheme named at the call overrides the one of the variable's type, whichever that is
template <class S, class O> void overridden(vm::Rng & seed) {
  static ra::atomic<uint64_t, S> a(0); constexpr bool orders = !std::is_same<O, ra::lock>::value && !std::is_same<O, ra::cpp>::value;
  stress(std::string(sname<O>()) + " on a variable of another scheme/add+xor+inc/uint64 x plain operand", a, (uint64_t)seed.next(), NT, (int)K(1500), seed, [](auto & at, vm::Rng & r, int) {
    uint64_t x = r.next(), ret; const auto o = std::memory_order_acq_rel; const int f = (int)r.below(6);
    switch (f) {
      case 0: ret = at.template add<O>(x); return Edge{ val(uint64_t(ret - x)), val(ret), 0, 0 };
      case 1: if constexpr (orders) ret = r.chance(1, 2) ? ra::add<O>(at, x, o) : at.template add<O>(x, o, std::memory_order_relaxed); else ret = ra::add<O>(at, x); return Edge{ val(uint64_t(ret - x)), val(ret), 0, 0 };
      case 2: if constexpr (orders) ret = r.chance(1, 2) ? at.template xoreq<O>(x, o) : ra::xoreq<O>(at, x, o, std::memory_order_relaxed); else ret = ra::xoreq<O>(at, x); return Edge{ val(uint64_t(ret ^ x)), val(ret), 0, 0 };
      case 3: ret = at.template inc<O>(); return Edge{ val(uint64_t(ret - 1)), val(ret), 0, 0 };
      case 4: if constexpr (orders) ret = r.chance(1, 2) ? ra::postdec<O>(at, o) : at.template postdec<O>(o, std::memory_order_relaxed); else ret = ra::postdec<O>(at); return Edge{ val(ret), val(uint64_t(ret - 1)), 0, 0 };
      default: ret = ra::predec<O>(at); return Edge{ val(uint64_t(ret + 1)), val(ret), 0, 0 };
    }
  });
}
template <class S> void overrides(vm::Rng & r) { overridden<S, ra::strong>(r); overridden<S, ra::weak>(r); overridden<S, ra::strong::pun>(r); overridden<S, ra::weak::pun>(r); overridden<S, ra::cpp>(r); overridden<S, ra::lock>(r); }
static void mixed(vm::Rng & seed) {
  static ra::atomic<uint64_t, ra::strong> a(0);
  stress("mixed cpp+strong+weak+pun/add/uint64 x plain operand", a, (uint64_t)99, NT, (int)K(4000), seed, [](auto & at, vm::Rng & r, int) {
    uint64_t x = r.next(), ret;
    switch (r.below(5)) {
      case 0: ret = at.template add<ra::cpp>(x); break; case 1: ret = at.template add<ra::weak>(x); break; case 2: ret = ra::add<ra::strong::pun>(at, x); break;
      case 3: ret = ra::add<ra::weak::pun>(at, x); break; default: ret = (at += x);
    }
    return Edge{ val(uint64_t(ret - x)), val(ret), 0, 0 };
  });
  static ra::atomic<double, ra::strong> d(0.);
  stress("mixed strong+weak+pun/add/double x plain operand", d, 0., NT, (int)K(3000), seed, [](auto & at, vm::Rng & r, int) {
    double x = (double)r.range(1, 1 << 30), ret;
    switch (r.below(4)) {
      case 0: ret = at.template add<ra::weak>(x); break; case 1: ret = ra::add<ra::strong::pun>(at, x); break;
      case 2: ret = at.template add<ra::weak::pun>(x, std::memory_order_acq_rel); break; default: ret = (at += x);
    }
    return Edge{ val(ret - x), val(ret), 0, 0 };
  });
}

#ifndef PART
#define PART 1
#endif
int main(int c, char ** v) {
  vm::init(c, v); vm::Rng r = vm::rng(("conc" + std::to_string(PART)).c_str()); if (vm::thorough()) NT = 6;
#if PART == 1
  integral_all<uint64_t, ra::strong>(r, "uint64"); integral_all<uint64_t, ra::weak>(r, "uint64");
  integral_all<uint64_t, ra::strong::pun>(r, "uint64");
#elif PART == 2
  integral_all<uint64_t, ra::weak::pun>(r, "uint64"); integral_all<uint64_t, ra::lock>(r, "uint64");
  invertible<uint64_t, ra::cpp, ADD>(r, "uint64"); invertible<uint64_t, ra::cpp, SUB>(r, "uint64"); invertible<uint64_t, ra::cpp, XOR>(r, "uint64");
  unary<uint64_t, ra::cpp, INC>(r, "uint64"); unary<uint64_t, ra::cpp, PREINC>(r, "uint64"); unary<uint64_t, ra::cpp, POSTINC>(r, "uint64"); unary<uint64_t, ra::cpp, DEC>(r, "uint64"); unary<uint64_t, ra::cpp, PREDEC>(r, "uint64"); unary<uint64_t, ra::cpp, POSTDEC>(r, "uint64");
  cpp_bits<unsigned char>(r, "uint8"); cpp_bits<unsigned>(r, "uint32"); cpp_bits<unsigned long>(r, "uint64");
  mixed(r); overrides<ra::serial>(r); overrides<ra::lock>(r); overrides<ra::cpp>(r); overrides<ra::strong>(r);
#elif PART == 3
  floating_all<double, ra::strong>(r, "double"); floating_all<double, ra::weak>(r, "double"); floating_all<double, ra::strong::pun>(r, "double"); floating_all<double, ra::weak::pun>(r, "double"); floating_all<double, ra::lock>(r, "double");
  floating_all<float, ra::strong::pun>(r, "float"); floating_all<float, ra::weak>(r, "float"); floating_all<float, ra::strong>(r, "float"); floating_all<float, ra::weak::pun>(r, "float");
  user_all<ra::strong>(r); user_all<ra::weak>(r); user_all<ra::lock>(r);
  user4<ra::strong>(r); user4<ra::weak>(r); user4<ra::strong::pun>(r); user4<ra::weak::pun>(r); user4<ra::lock>(r);
  exclusion<int, 0>(r, "int"); exclusion<double, 0>(r, "double"); exclusion<int, 3>(r, "int"); exclusion<uint64_t, 1>(r, "uint64");
#elif PART == 4
  integral_all<unsigned, ra::strong>(r, "uint32"); integral_all<unsigned short, ra::weak::pun>(r, "uint16"); integral_all<unsigned char, ra::strong::pun>(r, "uint8"); integral_all<unsigned, ra::strong::pun>(r, "uint32"); integral_all<unsigned, ra::weak>(r, "uint32"); integral_all<unsigned short, ra::strong::pun>(r, "uint16"); integral_all<unsigned char, ra::weak::pun>(r, "uint8"); integral_all<unsigned, ra::weak::pun>(r, "uint32");
  invertible<unsigned, ra::cpp, ADD>(r, "uint32"); unary<int, ra::cpp, POSTDEC>(r, "int"); unary<int, ra::strong, PREDEC>(r, "int");
#elif PART == 5
  interf_int<uint64_t, ra::strong>(r, "uint64"); interf_int<uint64_t, ra::weak>(r, "uint64"); interf_int<uint64_t, ra::strong::pun>(r, "uint64"); interf_int<uint64_t, ra::weak::pun>(r, "uint64");
  interf_int<unsigned, ra::strong>(r, "uint32"); interf_int<unsigned, ra::weak::pun>(r, "uint32"); interf_int<unsigned, ra::strong::pun>(r, "uint32"); interf_int<unsigned short, ra::strong::pun>(r, "uint16"); interf_int<unsigned short, ra::weak>(r, "uint16"); interf_int<unsigned short, ra::weak::pun>(r, "uint16"); interf_int<unsigned char, ra::weak::pun>(r, "uint8"); interf_int<unsigned char, ra::strong::pun>(r, "uint8"); interf_int<unsigned char, ra::strong>(r, "uint8");
  interf_fp<double, ra::strong>(r, "double"); interf_fp<double, ra::weak>(r, "double"); interf_fp<double, ra::strong::pun>(r, "double"); interf_fp<double, ra::weak::pun>(r, "double"); interf_fp<float, ra::strong::pun>(r, "float"); interf_fp<float, ra::weak::pun>(r, "float");
#endif
  return vm::finish();
}
