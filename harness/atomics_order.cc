// A03: an update made with the default (or a releasing) order publishes what
// its thread wrote before it, to a thread that observes the update.  Plain
// payloads are handed over through the library's operations; ThreadSanitizer's
// happens-before engine is the oracle (a missing release/acquire is a reported
// race on the payload), and the payload value itself is compared as well.
#include <iostream>
#include <thread>
#include <atomic>
#include <vector>
#include <functional>
#include <sched.h>
#include "vmon.h"
#include "ristra/atomics/src/atomics.h"
namespace ra = ristra::atomics;

template <class S> const char * sname();
template <> const char * sname<ra::cpp>() { return "cpp"; }
template <> const char * sname<ra::strong>() { return "strong"; }
template <> const char * sname<ra::strong::pun>() { return "strong::pun"; }
template <> const char * sname<ra::weak>() { return "weak"; }
template <> const char * sname<ra::weak::pun>() { return "weak::pun"; }
template <> const char * sname<ra::lock>() { return "lock"; }

static const auto REL = std::memory_order_release, AR = std::memory_order_acq_rel, SC = std::memory_order_seq_cst, ACQ = std::memory_order_acquire, RLX = std::memory_order_relaxed;

// The payload is a fresh heap-like slot per round so each round is its own litmus.
struct Round { int payload = 0; long back = 0; char pad[112]; };

// publish: performs one updating operation that moves the cell from `old` to something different
// observe: returns true when it has seen that the cell moved (an acquiring observation)
template <class A> void pass(const char * tag, A & a, typename A::value_type start, uint64_t rounds, void (*publish)(A &), const std::function<bool(A &)> & observe) {
  using T = typename A::value_type;
  vm::case_("message passing %s", tag);
  for (uint64_t i = 0; i < rounds; ++i) {
    a = start;
    Round * rd = new Round; const int want = (int)(i * 7 + 3); int got = 0;
    std::atomic<int> go{ 0 };
    std::thread prod([&] { go.fetch_add(1, RLX); while (go.load(RLX) < 2) sched_yield(); rd->payload = want; publish(a); });
    std::thread cons([&] { go.fetch_add(1, RLX); while (go.load(RLX) < 2) sched_yield(); while (!observe(a)) sched_yield(); got = rd->payload; });
    prod.join(); cons.join();
    vm::check(got == want, (std::string("payload:") + tag).c_str(), "observer saw the update but payload %d instead of %d", got, want);
    delete rd; vm::count("handovers"); vm::distinct(vm::hmix(vm::hstr(tag), i));
  }
  vm::sample_if(tag, "payload handed over, round count as counted");
}

template <class S, class T> void binops(uint64_t k, const char * tn) {
  using A = ra::atomic<T, S>;
  static A a(T(0));
  auto nm = [&](const char * o) { static std::string s; s = std::string(sname<S>()) + "/" + o + "/" + tn; return s.c_str(); };
  constexpr bool lk = std::is_same<S, ra::lock>::value, cp = std::is_same<S, ra::cpp>::value;
  // acquiring observations: a plain read of the variable, or a lock-scheme operation
  auto obs = [](T start) { return [start](A & c) { if constexpr (lk) return !(T(c.add(T(0))) == start); else return !(T(c) == start); }; };
#define GO(NAME, START, EXPR) pass<A>(nm(NAME), a, T(START), k, +[](A & c) { EXPR; }, obs(T(START)));
  GO("operator+=", 0, c += T(1)) GO("add", 0, c.add(T(1))) GO("free add", 0, ra::add(c, T(1)))
  GO("operator-=", 9, c -= T(1)) GO("sub", 9, c.sub(T(1)))
  GO("++x", 0, ++c) GO("x++", 0, c++) GO("--x", 9, --c) GO("x--", 9, c--) GO("inc", 0, c.inc()) GO("dec", 9, ra::dec(c)) GO("preinc", 0, c.preinc()) GO("postinc", 0, ra::postinc(c)) GO("predec", 3, c.predec()) GO("postdec", 3, c.postdec())
  if constexpr (!cp) {
    GO("operator*=", 3, c *= T(2)) GO("mul", 3, c.mul(T(2))) GO("operator/=", 8, c /= T(2)) GO("div", 8, ra::div(c, T(2)))
    GO("min", 8, c.min(T(2))) GO("free min", 8, ra::min(c, T(2))) GO("max", 8, c.max(T(12))) GO("free max", 8, ra::max(c, T(12)))
  }
  if constexpr (std::is_integral<T>::value) {
    GO("operator&=", 7, c &= T(3)) GO("operator|=", 4, c |= T(3)) GO("operator^=", 4, c ^= T(3)) GO("andeq", 7, c.andeq(T(3))) GO("oreq", 4, ra::oreq(c, T(3))) GO("xoreq", 4, c.xoreq(T(3)))
    if constexpr (!cp) { GO("operator%=", 17, c %= T(5)) GO("operator<<=", 1, c <<= T(2)) GO("operator>>=", 16, c >>= T(2)) GO("mod", 17, ra::mod(c, T(5))) GO("lshift", 1, c.lshift(T(2))) GO("rshift", 16, ra::rshift(c, T(2))) }
  }
  if constexpr (!lk) { // explicit orders
    GO("add(release)", 0, c.add(T(1), REL)) GO("free add(release)", 0, ra::add(c, T(1), REL)) GO("sub(acq_rel)", 9, c.sub(T(1), AR)) GO("add(seq_cst)", 0, ra::add(c, T(1), SC))
    if constexpr (!cp) {
      GO("add(release,relaxed)", 0, c.add(T(1), REL, RLX)) GO("free mul(acq_rel,acquire)", 3, ra::mul(c, T(2), AR, ACQ)) GO("max(seq_cst,relaxed)", 3, c.max(T(30), SC, RLX)) GO("min(release)", 8, c.min(T(2), REL))
      GO("inc(release)", 0, c.inc(REL)) GO("postinc(acq_rel)", 0, ra::postinc(c, AR)) GO("predec(release,relaxed)", 7, c.predec(REL, RLX)) GO("postdec(seq_cst)", 7, c.postdec(SC))
      GO("div(release)", 8, ra::div(c, T(2), REL))
    }
    // the observing side as an acquiring operation of the library
    auto obsop = [](T start) { return [start](A & c) { return !(T(c.add(T(0))) == start); }; };
    pass<A>(nm("release -> observing add"), a, T(0), k, +[](A & c) { c.add(T(1), REL); }, obsop(T(0)));
    auto obsop2 = [](T start) { return [start](A & c) { return !(T(ra::sub(c, T(0), ACQ)) == start); }; };
    pass<A>(nm("release -> observing sub(acquire)"), a, T(0), k, +[](A & c) { c.add(T(1), REL); }, obsop2(T(0)));
    auto obsop3 = [](T start) { return [start](A & c) { return !(T(c.sub(T(0), AR)) == start); }; };
    pass<A>(nm("acq_rel -> observing sub(acq_rel)"), a, T(0), k, +[](A & c) { c.add(T(1), AR); }, obsop3(T(0)));
    // scheme given at the call
    if constexpr (!cp) { pass<A>(nm("strong override"), a, T(0), k, +[](A & c) { c.template add<ra::strong>(T(1)); }, obs(T(0))); pass<A>(nm("weak override"), a, T(0), k, +[](A & c) { ra::add<ra::weak>(c, T(1), REL); }, obs(T(0))); }
  }
  // every operation, spelled as a free function, a member and a member of a volatile variable, with every publishing order
  const uint64_t kk = k < 3 ? k : k / 2;
#define ONE(NAME, START, EXPR) pass<A>(nm(NAME), a, T(START), kk, +[](A & c) { EXPR; }, obs(T(START)));
#define VOL(c) static_cast<volatile A &>(c)
#define SP1(F, START, ...) ONE("free " #F " (" #__VA_ARGS__ ")", START, ra::F(c, __VA_ARGS__)) ONE(#F " (" #__VA_ARGS__ ")", START, c.F(__VA_ARGS__)) ONE("volatile " #F " (" #__VA_ARGS__ ")", START, VOL(c).F(__VA_ARGS__)) ONE("free volatile " #F " (" #__VA_ARGS__ ")", START, ra::F(VOL(c), __VA_ARGS__))
#define BIN(F, START, V) { ONE("volatile " #F, START, VOL(c).F(T(V))) ONE("free volatile " #F, START, ra::F(VOL(c), T(V))) if constexpr (!lk) { SP1(F, START, T(V), REL) SP1(F, START, T(V), AR) SP1(F, START, T(V), SC) if constexpr (!cp) { SP1(F, START, T(V), REL, RLX) SP1(F, START, T(V), AR, ACQ) SP1(F, START, T(V), SC, SC) SP1(F, START, T(V), SC, RLX) } } }
#define UNA(F, START) { ONE("volatile " #F, START, VOL(c).F()) ONE("free volatile " #F, START, ra::F(VOL(c))) if constexpr (!lk && !cp) { \
    ONE("free " #F " (REL)", START, ra::F(c, REL)) ONE("free " #F " (AR)", START, ra::F(c, AR)) ONE("free " #F " (SC, RLX)", START, ra::F(c, SC, RLX)) SPU(F, START, REL) SPU(F, START, AR) SPU(F, START, SC) SPU(F, START, REL, RLX) SPU(F, START, AR, ACQ) SPU(F, START, SC, SC) } }
#define SPU(F, START, ...) ONE(#F " (" #__VA_ARGS__ ")", START, c.F(__VA_ARGS__)) ONE("volatile " #F " (" #__VA_ARGS__ ")", START, VOL(c).F(__VA_ARGS__)) ONE("free volatile " #F " (" #__VA_ARGS__ ")", START, ra::F(VOL(c), __VA_ARGS__))
  BIN(add, 0, 1) BIN(sub, 9, 1) UNA(inc, 0) UNA(preinc, 0) UNA(postinc, 0) UNA(dec, 9) UNA(predec, 9) UNA(postdec, 9)
  if constexpr (!cp) { BIN(mul, 3, 2) BIN(div, 8, 2) BIN(min, 8, 2) BIN(max, 8, 12) }
  if constexpr (std::is_integral<T>::value) { BIN(andeq, 7, 3) BIN(oreq, 4, 3) BIN(xoreq, 4, 3) if constexpr (!cp) { BIN(mod, 17, 5) BIN(lshift, 1, 2) BIN(rshift, 16, 2) } }
  // the observing side: an operation that leaves the value alone, with every acquiring order
#define OBS(NAME, EXPR) pass<A>(nm(NAME), a, T(0), kk, +[](A & c) { c.add(T(1), REL); }, [](A & c) { return !(T(EXPR) == T(0)); });
  if constexpr (!lk) {
    OBS("observing free add", ra::add(c, T(0))) OBS("observing volatile add(acquire)", VOL(c).add(T(0), ACQ)) OBS("observing add(acquire)", c.add(T(0), ACQ)) OBS("observing free add(acq_rel)", ra::add(c, T(0), AR)) OBS("observing add(seq_cst)", c.add(T(0), SC))
    if constexpr (!cp) { OBS("observing add(acquire,acquire)", c.add(T(0), ACQ, ACQ)) OBS("observing free max(acq_rel,acquire)", ra::max(c, T(0), AR, ACQ)) OBS("observing volatile mul(seq_cst,acquire)", VOL(c).mul(T(1), SC, ACQ)) OBS("observing *=", c *= T(1)) }
    if constexpr (std::is_integral<T>::value) { OBS("observing |=", c |= T(0)) OBS("observing xoreq(acquire)", ra::xoreq(c, T(0), ACQ)) }
  }
#undef GO
#undef ONE
}
// a spin lock built from the library's own operations protects plain data (acquire and release both needed)
template <class S> void ticket(uint64_t k) {
  static ra::atomic<int, S> next(0), serving(0); next = 0; serving = 0;
  long plain = 0; const int nt = 3; std::vector<std::thread> th;
  vm::case_("ticket lock from %s operations", sname<S>());
  for (int t = 0; t < nt; ++t) th.emplace_back([&] { for (uint64_t i = 0; i < k; ++i) {
    int my = ra::postinc(next);
    while (int(serving) != my) sched_yield();
    plain++;
    serving.add(1);
  } });
  for (auto & x : th) x.join();
  vm::check(plain == (long)(nt * k), (std::string("ticket:") + sname<S>()).c_str(), "plain counter %ld of %llu", plain, (unsigned long long)(nt * k)); vm::count("critical_sections", nt * k);
}
// lock scheme: user data touched inside the operation is protected by the scheme's mutex
struct Touch { long * p; };
inline int & operator+=(int & l, const Touch t) { (*t.p)++; return ++l; }
template <std::size_t NM> void under_lock(uint64_t k) {
  static ra::atomic<int, ra::lock, NM> a(0); a = 0; long plain = 0; std::vector<std::thread> th;
  vm::case_("data touched under the lock scheme, nmux %zu", NM);
  for (int t = 0; t < 3; ++t) th.emplace_back([&] { for (uint64_t i = 0; i < k; ++i) if (i & 1) a += Touch{ &plain }; else ra::add(a, Touch{ &plain }); });
  for (auto & x : th) x.join();
  vm::check(plain == (long)(3 * k) && int(a) == (int)(3 * k), "lock:protects", "plain %ld cell %d of %llu", plain, int(a), (unsigned long long)(3 * k)); vm::count("critical_sections", 3 * k);
}

int main(int c, char ** v) {
  vm::init(c, v);
  const uint64_t k = vm::n(6);
#if PART == 1
  binops<ra::strong, int>(k, "int"); binops<ra::weak, int>(k, "int"); binops<ra::strong::pun, int>(k, "int"); binops<ra::cpp, int>(k, "int");
  binops<ra::strong::pun, unsigned char>(k, "uint8"); binops<ra::weak::pun, short>(k, "short");
#else
  binops<ra::weak::pun, long>(k, "long"); binops<ra::lock, int>(k, "int"); binops<ra::strong, double>(k, "double"); binops<ra::weak::pun, double>(k, "double"); binops<ra::strong::pun, float>(k, "float"); binops<ra::cpp, unsigned long>(k, "ulong");
  ticket<ra::strong>(vm::n(300)); ticket<ra::weak>(vm::n(300)); ticket<ra::cpp>(vm::n(300)); ticket<ra::strong::pun>(vm::n(300)); ticket<ra::weak::pun>(vm::n(300));
  under_lock<0>(vm::n(2000)); under_lock<2>(vm::n(2000));
#endif
  return vm::finish();
}
