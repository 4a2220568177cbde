// M02: addressing, iteration and ordering of the fixed size arrays.  Oracle: an
// explicit enumeration of the index space in row-major order and the
// lexicographic order of the element sequences.
#include <cassert>
#include <cstddef>
#include <iterator>
#include <memory>
#include <sstream>
#include <vector>
#include <set>
#include <list>
#include "vmon.h"
#include "ristra/math/array.h"
#include "ristra/math/multi_array.h"
#include "ristra/utils/dimensioned_array.h"
using ristra::math::array; using ristra::math::multi_array;

// small values meet often; close ones, huge ones, zeros of both signs and values without an order must be told apart all the same
static int g_kind = 0;
template <class T> T rv(vm::Rng & r, int span) {
  if (g_kind == 1) { if constexpr (std::is_floating_point<T>::value) { static const double base[] = { 1, -1, 1e-9, 1e200, -1e-300, 3.0e38, 0 }; T b = (T)base[r.below(7)]; T v = b; for (size_t i = r.below(3); i > 0; --i) v = std::nextafter(v, std::numeric_limits<T>::max()); return v; } else return (T)(std::numeric_limits<T>::max() - (T)r.below(3)) * (r.chance(1, 2) ? 1 : -1) - 0; }
  if (g_kind == 2) { if constexpr (std::is_floating_point<T>::value) { const T sp[] = { T(0), T(-0.0), std::numeric_limits<T>::quiet_NaN(), std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(), T(1) }; return sp[r.below(6)]; } else return (T)((uint64_t)r.next() >> r.below(64)); }
  return (T)r.range(-span, span); }
template <class T> bool is(T x, T y) { return x == y || (x != x && y != y); }
template <class A> bool alike(const A & a, const A & b) { bool ok = a.size() == b.size(); for (size_t i = 0; ok && i < a.size(); ++i) ok = is(a[i], b[i]); return ok; }
static void kind(vm::Rng & r) { g_kind = r.chance(1, 4) ? 1 : r.chance(1, 5) ? 2 : 0; vm::count(g_kind == 0 ? "small values" : g_kind == 1 ? "close and huge values" : "zeros, infinities and values without an order"); }
template <class A, class T> void iterate(const char * name, A & a, const std::vector<T> & v) {
  const A & c = a; const size_t n = v.size(); std::string k = std::string(name) + ":iter";
  bool ok = a.size() == n; size_t i = 0;
  for (auto & x : a) ok = ok && i < n && &x == &a[i] && is(x, v[i++]); ok = ok && i == n; i = 0;
  for (auto it = c.begin(); it != c.end(); ++it) ok = ok && i < n && is(*it, v[i++]); ok = ok && i == n; i = 0;
  for (auto it = c.cbegin(); it != c.cend(); ++it) ok = ok && i < n && is(*it, v[i++]); ok = ok && i == n;
  for (auto it = a.rbegin(); it != a.rend(); ++it) ok = ok && i > 0 && is(*it, v[--i]); ok = ok && i == 0; i = n;
  for (auto it = c.rbegin(); it != c.rend(); ++it) ok = ok && i > 0 && is(*it, v[--i]); ok = ok && i == 0; i = n;
  for (auto it = c.crbegin(); it != c.crend(); ++it) ok = ok && i > 0 && is(*it, v[--i]); ok = ok && i == 0;
  vm::check(ok, k.c_str(), "iteration does not visit the elements in storage order");
  vm::check(&a.front() == &a[0] && &c.front() == &a[0] && &a.back() == &a[n - 1] && &c.back() == &a[n - 1] && a.data() == &a[0] && c.data() == &c[0] && a.c_array() == &a[0], (std::string(name) + ":ends").c_str(), "front/back/data differ from the element sequence");
  bool lin = true; for (size_t q = 0; q < n; ++q) lin = lin && is(a[q], v[q]) && is(c[q], v[q]) && &c[q] == c.data() + q;
  vm::check(lin, (std::string(name) + ":linear").c_str(), "the q-th element is not the q-th in storage");
}
template <class A, class T> void order(const char * name, const A & a, const A & b, const std::vector<T> & va, const std::vector<T> & vb, T s) {
  std::string k = std::string(name) + ":order";
  auto d = [&] { std::ostringstream o; size_t e = 0; for (auto x : va) if (e++ < 12) o << " " << x; o << " vs"; e = 0; for (auto x : vb) if (e++ < 12) o << " " << x; return o.str(); };
#define REL(R) vm::check((a R b) == (va R vb), (k + #R).c_str(), "a " #R " b is %d but the sequences say %d:%s", (int)(a R b), (int)(va R vb), d().c_str());
  REL(==) REL(!=) REL(<) REL(>) REL(<=) REL(>=)
  bool all = true; for (auto x : va) all = all && x == s;
  vm::check((a == s) == all, (k + "scalar").c_str(), "comparison with the value %g is %d:%s", (double)s, (int)(a == s), d().c_str());
  vm::count("pairs ordered");
}
template <class A, class T> void printed(const char * name, const A & a, const std::vector<T> & v, bool inorder) {
  std::ostringstream o; o << a; std::string t = o.str(); for (char & ch : t) if (strchr("()[]{}\n,", ch)) ch = ' ';
  std::istringstream in(t); std::vector<double> got; double x; while (in >> x) got.push_back(x);
  std::vector<double> w(v.begin(), v.end()); if (!inorder) { std::sort(w.begin(), w.end()); std::sort(got.begin(), got.end()); }
  vm::check(got == w, (std::string(name) + ":print").c_str(), "printed text is '%s'", o.str().c_str());
}
template <class A, class T> std::vector<T> fillr(A & a, vm::Rng & r, size_t n, int span) { std::vector<T> v(n); for (size_t i = 0; i < n; ++i) { v[i] = rv<T>(r, span); a[i] = v[i]; } return v; }

template <class A, class T> void exchanged(const char * name, const A & a, const A & b, const std::vector<T> & va, const std::vector<T> & vb, vm::Rng & r) {
  std::string k = std::string(name) + ":swap"; const size_t n = va.size(); std::unique_ptr<A> px(new A(a)), py(new A(b)); A & x = *px, & y = *py; auto holds = [&](const A & z, const std::vector<T> & v) { bool ok = true; for (size_t i = 0; i < n; ++i) ok &= is(z[i], v[i]); return ok; };
  x.swap(y); vm::check(holds(x, vb) && holds(y, va), k.c_str(), "swapped arrays do not hold each other's elements"); swap(x, y); vm::check(holds(x, va) && holds(y, vb), k.c_str(), "swapping back does not restore the elements"); x.swap(x); vm::check(holds(x, va), k.c_str(), "an array swapped with itself changes"); y = x; vm::check(holds(y, va) && holds(x, va), (std::string(name) + ":=").c_str(), "an assigned array differs");
  T f = r.chance(1, 2) ? va[r.below(n)] : rv<T>(r, 5); y.fill(f); vm::check(holds(y, std::vector<T>(n, f)), (std::string(name) + ":fill").c_str(), "fill does not reach every element"); x.fill(x[n - 1]); vm::check(holds(x, std::vector<T>(n, va[n - 1])), (std::string(name) + ":fill").c_str(), "filling with an own element differs");
  // sequences that agree up to a late position
  for (int t = 0; t < (n > 1000 ? 8 : 1); ++t) { *px = a; *py = a; auto wy = va; size_t q = r.below(n); wy[q] = y[q] = rv<T>(r, 3); order(name, x, y, va, wy, va[0]); order(name, y, x, wy, va, va[0]); }
}
template <class T, size_t N> void run_array(const char * name, uint64_t cnt) {
  vm::Rng r = vm::rng(name); using A = array<T, N>;
  for (uint64_t k = 0; k < cnt; ++k) {
    kind(r); std::unique_ptr<A> pa(new A), pb(new A); A & a = *pa; A & b = *pb;
    auto va = fillr<A, T>(a, r, N, 1 + (int)r.below(4)); auto vb = fillr<A, T>(b, r, N, 1 + (int)r.below(4));
    if (r.chance(1, 2)) { for (size_t i = 0; i < N; ++i) vb[i] = b[i] = va[i]; if (r.chance(2, 3)) { size_t q = r.below(N); vb[q] = b[q] = rv<T>(r, 3); } }
    if (r.chance(1, 6)) for (size_t i = 0; i < N; ++i) va[i] = a[i] = (T)2;
    if (r.chance(1, 6)) for (size_t i = 0; i < N; ++i) { va[i] = a[i] = (T)2; if (i + 1 == N && r.chance(1, 2)) va[i] = a[i] = (T)1; }
    uint64_t h = vm::hstr(name); for (auto x : va) h = vm::hdbl((double)x, h); for (auto x : vb) h = vm::hdbl((double)x, h); vm::distinct(h);
    vm::case_("%s #%llu", name, (unsigned long long)k);
    iterate(name, a, va); order(name, a, b, va, vb, (T)2); order(name, b, a, vb, va, (T)2); order(name, a, a, va, va, va[0]); exchanged(name, a, b, va, vb, r); if (g_kind == 0) printed(name, a, va, true);
    const A & c = a;
    for (size_t i = 0; i < N; ++i) vm::check(&a.at(i) == &a[i] && &c.at(i) == &c[i] && &a(i) == &a[i] && &c(i) == &c[i], (std::string(name) + ":at").c_str(), "at(%zu) names another element", i);
    for (size_t i : { N, N + 1, (size_t)-1, (size_t)1 << 32 }) {
      int th = 0; try { (void)a.at(i); } catch (const std::out_of_range &) { ++th; } try { (void)c.at(i); } catch (const std::out_of_range &) { ++th; }
      vm::check(th == 2, (std::string(name) + ":at range").c_str(), "at(%zu) on %zu elements did not raise out_of_range", i, N); }
    { A x; x.assign(va.begin(), va.end()); std::list<T> l(vb.begin(), vb.end()); A y; y.assign(l.begin(), l.end()); vm::check(alike(x, a) && alike(y, b), (std::string(name) + ":assign").c_str(), "assign from a range differs");
      A z(a); vm::check(alike(z, a) && &z[0] != &a[0], (std::string(name) + ":copy").c_str(), "copy differs"); }
    if constexpr (N == 3) { A x(va[0], va[1], va[2]); A y{ va[0], va[1], va[2] }; A z; z.assign({ vb[0], vb[1], vb[2] }); vm::check(alike(x, a) && alike(y, a) && alike(z, b), (std::string(name) + ":ctor").c_str(), "construction from values differs"); }
    vm::check(A::size() == N && A::capacity() == N && A::max_size() == N && !A::empty(), (std::string(name) + ":size").c_str(), "capacity queries");
  }
}
template <class M, class T, size_t... D, size_t... I> void index_space(const char * name, M & m, const std::vector<T> & v, std::index_sequence<D...>, std::index_sequence<I...>) {
  const M & c = m; constexpr size_t dims[] = { D... }; constexpr size_t nd = sizeof...(D); std::vector<size_t> id(nd, 0); size_t lin = 0; std::set<const T *> seen; bool ok = true; std::string bad;
  vm::check(M::num_dimensions() == nd && M::num_elements() == v.size() && M::size() == v.size(), (std::string(name) + ":shape").c_str(), "dimension or element count");
  size_t st = 1; bool sok = true; for (size_t d = nd; d-- > 0;) { sok = sok && M::shape()[d] == dims[d] && M::strides()[d] == st; st *= dims[d]; }
  vm::check(sok, (std::string(name) + ":strides").c_str(), "shape or strides are not those of a row-major array");
  for (;;) {
    const size_t ids[nd] = { id[I]... }; 
    bool good = &m(id[I]...) == m.data() + lin && &c((int)id[I]...) == m.data() + lin && &m[ids] == m.data() + lin && &c[ids] == m.data() + lin &&
      &m.at(id[I]...) == m.data() + lin && &c.at((unsigned)id[I]...) == m.data() + lin && M::element(ids) == lin && M::element(id[I]...) == lin && is(m(id[I]...), v[lin]);
    if (!good && ok) { ok = false; bad = std::to_string(lin); for (auto q : id) bad += " " + std::to_string(q); }
    seen.insert(&m(id[I]...)); vm::count("index tuples addressed");
    size_t d = nd; while (d-- > 0) { if (++id[d] < dims[d]) break; id[d] = 0; if (d == 0) { d = (size_t)-1; break; } }
    ++lin; if (d == (size_t)-1) break;
  }
  vm::check(ok, (std::string(name) + ":address").c_str(), "index tuple addresses the wrong element: row-major position and indices are %s", bad.c_str());
  vm::check(lin == v.size() && seen.size() == v.size(), (std::string(name) + ":bijection").c_str(), "%zu index tuples reach %zu of %zu elements", lin, seen.size(), v.size());
}
template <class M, size_t... D, size_t... I> void out_of_range_all(const char * name, M & m, vm::Rng & r, std::index_sequence<D...>, std::index_sequence<I...>) {
  constexpr size_t dims[] = { D... }; constexpr size_t nd = sizeof...(D); const M & c = m;
  for (size_t bad = 0; bad < nd; ++bad) for (size_t ex : { dims[bad], dims[bad] + 1, (size_t)-1, dims[bad] + 1000 }) {
    size_t id[nd]; for (size_t d = 0; d < nd; ++d) id[d] = r.below(dims[d]); id[bad] = ex;
    vm::case_("%s at() with index %zu of dimension %zu", name, ex, bad);
    int th = 0; try { (void)m.at(id[I]...); } catch (const std::out_of_range &) { ++th; } try { (void)c.at(id[I]...); } catch (const std::out_of_range &) { ++th; }
    vm::check(th == 2, (std::string(name) + ":at range").c_str(), "at() with index %zu in dimension %zu of extent %zu did not raise out_of_range", ex, bad, dims[bad]);
    long sid[nd]; for (size_t d = 0; d < nd; ++d) sid[d] = (long)r.below(dims[d]); sid[bad] = -1 - (long)r.below(3); th = 0;
    try { (void)m.at(sid[I]...); } catch (const std::out_of_range &) { ++th; }
    vm::check(th == 1, (std::string(name) + ":at range").c_str(), "at() with a negative index did not raise out_of_range");
  }
}
template <class T, size_t... D> void run_multi(const char * name, uint64_t cnt) {
  vm::Rng r = vm::rng(name); using M = multi_array<T, D...>; constexpr size_t n = (D * ...); using IS = std::make_index_sequence<sizeof...(D)>;
  for (uint64_t k = 0; k < cnt; ++k) {
    kind(r); std::unique_ptr<M> pa(new M), pb(new M); M & a = *pa; M & b = *pb;
    auto va = fillr<M, T>(a, r, n, 1 + (int)r.below(4)); auto vb = fillr<M, T>(b, r, n, 1 + (int)r.below(4));
    if (r.chance(1, 2)) { for (size_t i = 0; i < n; ++i) vb[i] = b[i] = va[i]; if (r.chance(2, 3)) { size_t q = r.below(n); vb[q] = b[q] = rv<T>(r, 3); } }
    if (r.chance(1, 5)) for (size_t i = 0; i < n; ++i) { va[i] = a[i] = (T)2; if (i + 1 == n && r.chance(1, 2)) va[i] = a[i] = (T)1; }
    uint64_t h = vm::hstr(name); for (auto x : va) h = vm::hdbl((double)x, h); for (auto x : vb) h = vm::hdbl((double)x, h); vm::distinct(h);
    vm::case_("%s #%llu", name, (unsigned long long)k);
    iterate(name, a, va); order(name, a, b, va, vb, (T)2); order(name, b, a, vb, va, (T)2); order(name, a, a, va, va, va[0]); exchanged(name, a, b, va, vb, r);
    index_space(name, a, va, std::index_sequence<D...>{}, IS{}); out_of_range_all(name, a, r, std::index_sequence<D...>{}, IS{});
    if constexpr (sizeof...(D) == 2) if (g_kind == 0) printed(name, a, va, false);
    { M x; x.assign(va.begin(), va.end()); std::list<T> l(vb.begin(), vb.end()); M y; y.assign(l.begin(), l.end()); vm::check(alike(x, a) && alike(y, b), (std::string(name) + ":assign").c_str(), "assign from a range differs");
      M z(a); vm::check(alike(z, a) && z.data() != a.data(), (std::string(name) + ":copy").c_str(), "copy differs");
      using O = std::conditional_t<std::is_same<T, double>::value, float, double>; multi_array<O, D...> w(a); bool ok = true; for (size_t i = 0; i < n; ++i) ok = ok && is(w[i], (O)va[i]); vm::check(ok, (std::string(name) + ":convert").c_str(), "conversion from another element type differs"); }
    if constexpr (n == 2) { M x{ va[0], va[1] }; M y; y.assign({ vb[0], vb[1] }); vm::check(alike(x, a) && alike(y, b), (std::string(name) + ":ctor").c_str(), "row-major list construction differs"); }
    if constexpr (n == 6) { M x{ va[0], va[1], va[2], va[3], va[4], va[5] }; M y; y.assign({ vb[0], vb[1], vb[2], vb[3], vb[4], vb[5] }); vm::check(alike(x, a) && alike(y, b), (std::string(name) + ":ctor").c_str(), "row-major list construction differs");
      M z{ (T)2 }; vm::check(z == (T)2, (std::string(name) + ":ctor").c_str(), "one value does not fill the array"); }
  }
  // the stride generators
  const size_t dims[] = { D... }; auto row = ristra::math::row_major_ordering{}(dims); auto col = ristra::math::col_major_ordering{}(dims);
  size_t sr = 1, sc = 1; bool ok = true; for (size_t d = 0; d < sizeof...(D); ++d) { ok = ok && col[d] == sc; sc *= dims[d]; size_t e = sizeof...(D) - 1 - d; ok = ok && row[e] == sr; sr *= dims[e]; }
  vm::check(ok, (std::string(name) + ":ordering").c_str(), "row/column major strides do not enumerate the index space");
}
template <class T, size_t N, size_t S, size_t... I> void run_dim(const char * name, uint64_t cnt, std::index_sequence<I...>) {
  using A = ristra::utils::dimensioned_array__<T, N, S>; enum ax : int { first = 0, last = (int)N - 1 }; enum class axis : size_t { first = 0, last = N - 1 };
  vm::Rng r = vm::rng(name); std::string k(name);
  for (uint64_t c = 0; c < cnt; ++c) {
    g_kind = 0; std::vector<T> v(N); for (auto & x : v) x = rv<T>(r, 50); vm::case_("%s, case %llu", name, (unsigned long long)c);
    auto same = [&](const A & a, const char * how) { bool ok = A::size() == N; for (size_t i = 0; i < N; ++i) ok &= a[i] == v[i] && a[(int)i] == v[i] && a[(long)i] == v[i]; ok &= a[first] == v[0] && a[last] == v[N - 1] && a[axis::first] == v[0] && a[axis::last] == v[N - 1]; vm::check(ok, (k + ":" + how).c_str(), "an element is not where it was put"); };
    A l(std::initializer_list<T>{ v[I]... }); same(l, "list"); A a(v[I]...); same(a, "arguments"); A z; for (size_t i = 0; i < N; ++i) z[i] = v[i]; same(z, "index"); vm::check(&z[last] == &z[N - 1] && &z[N - 1] - &z[0] == (long)N - 1 && &z[axis::first] == &z[0], (k + ":place").c_str(), "elements do not lie one after the other");
    A cp(a); same(cp, "copy"); A as; as = a; same(as, "assign"); A & al = as; as = al; same(as, "self-assign"); A mv(std::move(cp)); same(mv, "move"); printed(name, a, v, true); printed(name, (const A &)l, v, true);
    z[last] = v[0]; a[first] = v[N - 1]; vm::check(z[N - 1] == v[0] && a[0] == v[N - 1], (k + ":write").c_str(), "writing through an enumerator writes elsewhere");
    T val = rv<T>(r, 9); A f(val); bool all = true; for (size_t i = 0; i < N; ++i) all &= f[i] == val; as = val; for (size_t i = 0; i < N; ++i) all &= as[i] == val; vm::check(all, (k + ":fill").c_str(), "a value does not reach every element");
    uint64_t h = vm::hstr(k); for (auto x : v) h = vm::hdbl((double)x, h); vm::distinct(h); vm::count("dimensioned arrays"); } }
template <class T, size_t N, size_t S> void run_dim(const char * name, uint64_t cnt) { run_dim<T, N, S>(name, cnt, std::make_index_sequence<N>()); }

int main(int argc, char ** argv) {
  vm::init(argc, argv); const uint64_t N = vm::n(400);
  run_array<int, 1>("array<int,1>", N); run_array<int, 3>("array<int,3>", N); run_array<double, 3>("array<double,3>", N); run_array<float, 2>("array<float,2>", N); run_array<double, 10>("array<double,10>", N); run_array<long, 257>("array<long,257>", N / 10 + 1); run_array<double, 256>("array<double,256>", N / 10 + 1); run_array<int, 255>("array<int,255>", N / 10 + 1); run_array<float, 1025>("array<float,1025>", N / 20 + 1); run_array<int, 70001>("array<int,70001>", N / 100 + 1); run_array<unsigned, 4>("array<unsigned,4>", N); run_array<short, 6>("array<short,6>", N);
  run_multi<int, 2, 3>("multi<int,2,3>", N); run_multi<int, 3, 2>("multi<int,3,2>", N); run_multi<double, 1, 2>("multi<double,1,2>", N); run_multi<long, 2>("multi<long,2>", N); run_multi<double, 3, 3>("multi<double,3,3>", N); run_multi<double, 2, 3, 4>("multi<double,2,3,4>", N); run_multi<float, 1, 5>("multi<float,1,5>", N);
  run_multi<int, 4, 1, 3, 2>("multi<int,4,1,3,2>", N); run_multi<double, 2, 3, 2, 3, 2>("multi<double,2,3,2,3,2>", N / 4 + 1); run_multi<double, 7>("multi<double,7>", N); run_multi<double, 12, 31>("multi<double,12,31>", N / 10 + 1); run_multi<int, 300, 301>("multi<int,300,301>", N / 200 + 1); run_multi<float, 3, 1, 2, 2, 1, 3, 2>("multi<float,3,1,2,2,1,3,2>", N / 10 + 1); run_multi<long, 70, 2, 19>("multi<long,70,2,19>", N / 100 + 1);
  run_dim<double, 3, 2>("dimensioned<double,3>", N); run_dim<double, 2, 2>("dimensioned<double,2>", N); run_dim<int, 4, 1>("dimensioned<int,4>", N); run_dim<long, 9, 3>("dimensioned<long,9>", N); run_dim<int, 40, 4>("dimensioned<int,40>", N / 4 + 1);
  return vm::finish();
}
