#include "atomics_seq.inc"
using namespace seq;
// long histories on one variable, hopping between schemes, spellings and operand types
template <class T, class X, int O, class A> void step(A & a, T & m, vm::Rng & r, X x) {
  if (!valid(O, m, x)) return;
  T want = Op<O>::type::template ref<T, X>(m, x);
  vm::case_("history %s: %s with %s", Names::type().c_str(), opname[O], show(x).c_str());
  T got;
  switch (r.below(5)) {
    case 0: got = Op<O>::type::template ocall<ra::strong>(a, x, r.chance(1, 2)); break;
    case 1: got = Op<O>::type::template ocall<ra::weak>(a, x, r.chance(1, 2)); break;
    case 2: got = Op<O>::type::template ocall<ra::strong::pun>(a, x, r.chance(1, 2)); break;
    case 3: got = Op<O>::type::template ocall<ra::weak::pun>(a, x, r.chance(1, 2)); break;
    default: got = Op<O>::type::template ocall<ra::lock>(a, x, r.chance(1, 2)); break;
  }
  vm::check(same(got, want), "history:return", "returned %s, plain value history gives %s", show(got).c_str(), show(want).c_str());
  vm::check(same(T(a), m), "history:store", "variable holds %s, plain value history gives %s", show(T(a)).c_str(), show(m).c_str());
  vm::count("history_steps");
}
// operands for min/max: also ones the variable's own type cannot hold, on the side where they must not be taken
template <class X> X wide(vm::Rng & r, int sign) {
  X x = X(r.range(-90, 90));
  if (r.chance(1, 3)) { if (sizeof(X) == 8) x = X(X(sign) * X(4294967296.0) * X(r.range(1, 1000)) + x); else if (sizeof(X) == 4 && std::is_integral<X>::value) x = X(sign * 65536 * (int)r.range(1, 1000) + (int)x); }
  else if (std::is_floating_point<X>::value) x += X(0.5);
  return x;
}
template <class T, class X> void history(const char * name) {
  Names::type() = name; vm::Rng r = vm::rng(name);
  for (uint64_t k = 0; k < vm::n(60); ++k) {
    T m = T(r.range(-50, 50)); ra::atomic<T, ra::strong> a(m); uint64_t h = 0;
    for (int i = 0; i < 60; ++i) {
      int o = (int)r.below(10); X x = X(r.range(1, 9)); h = vm::hmix(h, o * 16 + (int)x);
      switch (o) {
        case 0: step<T, X, ADD>(a, m, r, x); break; case 1: step<T, X, SUB>(a, m, r, x); break;
        case 2: if (m < T(1000) && m > T(-1000)) step<T, X, MUL>(a, m, r, x); break;
        case 3: step<T, X, DIV>(a, m, r, x); break;
        case 4: step<T, X, MIN>(a, m, r, sizeof(X) > sizeof(T) ? wide<X>(r, 1) : X(r.range(-90, 90))); break; case 5: step<T, X, MAX>(a, m, r, sizeof(X) > sizeof(T) ? wide<X>(r, -1) : X(r.range(-90, 90))); break;
        case 6: step<T, X, PREINC>(a, m, r, x); break; case 7: step<T, X, POSTDEC>(a, m, r, x); break;
        case 8: step<T, X, POSTINC>(a, m, r, x); break; case 9: step<T, X, PREDEC>(a, m, r, x); break;
      }
    }
    vm::distinct(h);
  }
}
void seqmix() {
  history<int, int>("int by int"); history<int, long long>("int by long long"); history<short, double>("short by double"); history<int, short>("int by short"); history<double, int>("double by int");
  history<long, int>("long by int"); history<float, double>("float by double"); history<double, double>("double by double");
  history<short, int>("short by int"); history<int, double>("int by double"); history<long long, unsigned char>("long long by unsigned char");
}
