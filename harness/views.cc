// U02: non-owning views.  Oracle: the owning storage addressed by hand; histories of
// slicing, sectioning and iterator moves against a model position; writes through a view
// land on exactly one element of the storage.
#include "vmon.h"
#include <array>
#include <vector>
#include <iterator>
#include <numeric>
#include <functional>
#include <stdexcept>
#include <algorithm>
#include <sys/mman.h>
#include "ristra/utils/array_view.h"
#include "ristra/utils/array_ref.h"
using namespace ristra::utils; using pd = std::ptrdiff_t;
template <int R> using Ext = std::array<pd, R>;
template <int R> std::string show(const Ext<R> & e) { std::string s = "{"; for (auto x : e) s += std::to_string(x) + ","; return s + "}"; }
template <int R> index_t<R> idx(const Ext<R> & e) { return index_t<R>(e); }
template <int R> bool next(Ext<R> & i, const Ext<R> & e) { for (int k = R; k-- > 0;) { if (++i[k] < e[k]) return true; i[k] = 0; } return false; }
template <int R> pd total(const Ext<R> & e) { pd n = 1; for (auto x : e) n *= x; return n; }
template <class V, int R, size_t... I> auto & call(const V & v, const Ext<R> & i, std::index_sequence<I...>) { return v(i[I]...); }
// what the view should show: base pointer of the storage, origin and stride of each dimension
template <class T, int R> struct Model { T * base; Ext<R> ext, str; T & at(const Ext<R> & i) const { pd o = 0; for (int k = 0; k < R; ++k) o += i[k] * str[k]; return base[o]; } };
template <class T, int R> Model<T, R> contiguous(T * b, const Ext<R> & e) { Model<T, R> m{ b, e, {} }; pd s = 1; for (int k = R; k-- > 0;) { m.str[k] = s; s *= e[k]; } return m; }

template <class It, class Ref> void iterators(const char * key, It b, It e, const std::vector<Ref> & want, vm::Rng & g) {
  size_t n = want.size(), i = 0; vm::count("iterations");
  for (It p = b; p != e; ++p, ++i) { if (!vm::ok(i < n, std::string(key) + ":length", "iteration runs past the elements")) return; vm::ok(*p == *want[i] && &*p == want[i], std::string(key) + ":order", "iterator at " + std::to_string(i) + " shows another element"); }
  vm::ok(i == n, std::string(key) + ":length", "iteration stopped after " + std::to_string(i) + " of " + std::to_string(n)); if (i != n) return;
  It p = e; for (i = n; i-- > 0;) { p--; vm::ok(&*p == want[i], std::string(key) + ":backward", "backward iteration shows another element"); } vm::ok(p == b, std::string(key) + ":backward", "backward iteration does not end at the beginning");
  // a history of moves against a model position
  pd pos = 0; It q = b; for (int s = 0; s < 12; ++s) { pd to = g.range(0, n); pd d = to - pos; switch (g.below(5)) { case 0: q += d; break; case 1: q -= -d; break; case 2: q = q + d; break; case 3: q = q - (-d); break; default: q = d + q; }
    pos = to; vm::count("iterator moves"); vm::ok(q - b == pos && e - q == (pd)n - pos, std::string(key) + ":distance", "distance after moving to " + std::to_string(pos) + " is " + std::to_string(q - b)); if (pos < (pd)n) vm::ok(&*q == want[pos], std::string(key) + ":move", "moved iterator shows another element"); vm::ok((q == e) == (pos == (pd)n), std::string(key) + ":end", "position " + std::to_string(pos) + " of " + std::to_string(n) + " and the end"); vm::ok((q == b) == (pos == 0), std::string(key) + ":begin", "position and the beginning");
    pd oth = g.range(0, n); It o = b + oth; vm::ok((q < o) == (pos < oth) && (q <= o) == (pos <= oth) && (q > o) == (pos > oth) && (q >= o) == (pos >= oth) && (q == o) == (pos == oth) && (q != o) == (pos != oth), std::string(key) + ":ordering", "ordering of positions " + std::to_string(pos) + " and " + std::to_string(oth));
    if (n && pos < (pd)n) { pd k = g.range(-pos, n - 1 - pos); vm::ok(q[k] == *want[pos + k], std::string(key) + ":subscript", "subscripted iterator shows another element"); } }
}
template <class View, class T, int R> void same(const char * key, const View & v, const Model<T, R> & m, vm::Rng & g) {
  std::string k = key; pd n = total<R>(m.ext); vm::ok((pd)v.size() == n, k + ":size", "size " + std::to_string(v.size())); vm::ok(v.empty() == (n == 0), k + ":empty", "empty"); vm::ok(bool(v) , k + ":bool", "a view over data is false"); vm::ok(v.data() == m.base, k + ":data", "data pointer"); vm::ok(v.rank() == R, k + ":rank", "rank");
  vm::ok((pd)v.template extent<0>() == m.ext[0] && (pd)v.template extent<R - 1>() == m.ext[R - 1], k + ":extent", "extent"); vm::count("views compared");
  std::vector<std::add_pointer_t<typename View::value_type>> want; Ext<R> i{};
  if (n) do { want.push_back(&m.at(i)); vm::ok(&v[idx<R>(i)] == &m.at(i), k + ":element", "element " + show<R>(i) + " is elsewhere"); vm::ok(&call<View, R>(v, i, std::make_index_sequence<R>{}) == &m.at(i), k + ":call", "element by call " + show<R>(i) + " is elsewhere"); try { vm::ok(&v.at(idx<R>(i)) == &m.at(i), k + ":at", "checked element " + show<R>(i)); } catch (const std::out_of_range &) { vm::ok(false, k + ":at", "in-range index " + show<R>(i) + " refused"); } } while (next<R>(i, m.ext));
  for (int t = 0; t < 4; ++t) { Ext<R> j; for (int d = 0; d < R; ++d) j[d] = m.ext[d] ? g.below(m.ext[d]) : 0; int d = g.below(R); j[d] = t == 0 ? m.ext[d] : t == 1 ? -1 : t == 2 ? m.ext[d] + (pd)g.below(1000) : -(pd)g.below(1000) - 1; bool thrown = false; try { (void)v.at(idx<R>(j)); } catch (const std::out_of_range &) { thrown = true; } vm::ok(thrown, k + ":range", "index " + show<R>(j) + " accepted in " + show<R>(m.ext)); vm::count("out of range probes"); vm::ok(!v.bounds().contains(idx<R>(j)), k + ":contains", "bounds contain " + show<R>(j)); }
  iterators((k + ":iter").c_str(), v.begin(), v.end(), want, g);
  { std::vector<std::add_pointer_t<typename View::value_type>> rw(want.rbegin(), want.rend()); size_t c = 0; for (auto p = v.rbegin(); p != v.rend() && c < rw.size() + 1; ++p, ++c) vm::ok(c < rw.size() && &*p == rw[c], k + ":reverse", "reverse iteration"); vm::ok(c == rw.size(), k + ":reverse", "reverse iteration length"); }
  { size_t c = 0; for (auto p = v.cbegin(); p != v.cend() && c <= want.size(); ++p, ++c) vm::ok(c < want.size() && &*p == want[c], k + ":const", "const iteration"); vm::ok(c == want.size(), k + ":const", "const iteration length"); }
  // writing through the view changes exactly that element
}
template <class T, int R> void strided(const char * key, const strided_array_view<T, R> & v, const Model<T, R> & m, vm::Rng & g, int depth);
template <class View, class T, int R> void parts(const char * key, const View & v, const Model<T, R> & m, vm::Rng & g, int depth) {
  if (depth == 0 || total<R>(m.ext) == 0) return;
  if constexpr (R > 1) {
    pd s = g.below(m.ext[0]); Model<T, R - 1> sm; Ext<R> o{}; o[0] = s; sm.base = &m.at(o); for (int k = 1; k < R; ++k) { sm.ext[k - 1] = m.ext[k]; sm.str[k - 1] = m.str[k]; }
    auto a = v[(size_t)s]; same((std::string(key) + ".sub").c_str(), a, sm, g); auto b = v.slice(s); same((std::string(key) + ".slice").c_str(), b, sm, g); vm::count("slices"); for (size_t bad : { (size_t)m.ext[0], (size_t)m.ext[0] + 1 + g.below(1000), (size_t)-1, (size_t)-1 - (size_t)g.below(1000), (size_t)1 << 63, ((size_t)1 << 32) + (size_t)s }) { bool th = false; try { (void)v.slice(bad); } catch (const std::out_of_range &) { th = true; } vm::ok(th, std::string(key) + ".slice:range", "a slice at " + std::to_string(bad) + " of " + std::to_string(m.ext[0]) + " is accepted"); } parts((std::string(key) + ".slice").c_str(), b, sm, g, depth - 1);
    bool thrown = false; try { (void)v.slice((size_t)(m.ext[0] + (pd)g.below(3))); } catch (const std::out_of_range &) { thrown = true; } vm::ok(thrown, std::string(key) + ".slice:range", "slice past the end accepted");
  }
  Ext<R> org, len; Model<T, R> c = m; for (int k = 0; k < R; ++k) { org[k] = g.below(m.ext[k]); len[k] = 1 + g.below(m.ext[k] - org[k]); c.ext[k] = m.ext[k] - org[k]; } c.base = &m.at(org);
  auto s1 = v.section(idx<R>(org)); same((std::string(key) + ".section").c_str(), s1, c, g); c.ext = len; auto s2 = v.section(idx<R>(org), idx<R>(len)); vm::case_s(std::string(key) + " section at " + show<R>(org) + " of " + show<R>(len)); same((std::string(key) + ".section2").c_str(), s2, c, g); auto s0 = v.section(); same((std::string(key) + ".section0").c_str(), s0, m, g); vm::count("sections"); parts((std::string(key) + ".part").c_str(), s2, c, g, depth - 1);
}
template <int R> Ext<R> extents(vm::Rng & g, pd cap) { for (;;) { Ext<R> e; for (auto & x : e) x = 1 + g.below(R > 2 ? 5 : 9); if (total<R>(e) <= cap) return e; } }
template <class T, int R> void dynamic(vm::Rng & g) {
  Ext<R> e = extents<R>(g, 300); pd n = total<R>(e); size_t extra = g.below(3); std::vector<T> st(n + extra); for (size_t i = 0; i < st.size(); ++i) st[i] = (T)(i * 3 + 1); st.shrink_to_fit();
  vm::case_s("dynamic rank " + std::to_string(R) + " " + show<R>(e)); uint64_t h = R * 100 + sizeof(T); for (auto x : e) h = vm::hmix(h, x); h = vm::hmix(h, g.next()); vm::distinct(h);
  auto m = contiguous<T, R>(st.data(), e); using CV = array_view<T, R>; using SV = strided_array_view<T, R>;
  CV a(st.data(), contiguous_bounds<R>(idx<R>(e))); same("view", a, m, g); parts("view", a, m, g, 3);
  SV s(st.data(), idx<R>(e), idx<R>(m.str)); same("strided", s, m, g); parts("strided", s, m, g, 3);
  CV fromc(st, contiguous_bounds<R>(idx<R>(e))); same("view of container", fromc, m, g);
  SV conv = static_cast<SV>(a); same("view to strided", conv, m, g);
  array_view<const T, R> ca(a); Model<const T, R> cm{ m.base, m.ext, m.str }; same("const view", ca, cm, g); strided_array_view<const T, R> cs(s); same("const strided", cs, cm, g); array_view<const T, R> as; vm::ok(as.empty() && !as, "view:default", "a default view is not empty"); as = a; same("assigned const view", as, cm, g);
  if constexpr (R == 1) { CV w(st); Model<T, 1> wm = contiguous<T, 1>(st.data(), Ext<1>{ (pd)st.size() }); same("view of whole", w, wm, g); SV ws(st); same("strided of whole", ws, wm, g); auto mk = make_array_view(st); same("made view", mk, wm, g); }
  // arbitrary (permuted / padded) strides
  { Ext<R> str{}; std::array<int, R> p; std::iota(p.begin(), p.end(), 0); for (int i = R - 1; i > 0; --i) std::swap(p[i], p[g.below(i + 1)]); pd s0 = 1 + g.below(3); for (int k = R; k-- > 0;) { str[p[k]] = s0; s0 = s0 * e[p[k]] + g.below(2); } std::vector<T> big(s0 + 1); for (size_t i = 0; i < big.size(); ++i) big[i] = (T)(i * 7 + 5); Model<T, R> pm{ big.data(), e, str }; SV ps(big.data(), idx<R>(e), idx<R>(str)); same("permuted", ps, pm, g); parts("permuted", ps, pm, g, 2); pd last = 1; for (int k = 0; k < R; ++k) last += (e[k] - 1) * str[k]; vm::ok((pd)ps.bounds().total_size() == last, "permuted:span", "span of the strided storage"); 
    bool eq = true; Ext<R> i{}; do if (!(pm.at(i) == m.at(i))) eq = false; while (next<R>(i, e)); vm::ok((ps == s) == eq && (ps != s) == !eq, "compare:strided", "equality of two views"); vm::count("comparisons"); }
  // writes
  { std::vector<T> before = st; Ext<R> i; for (int k = 0; k < R; ++k) i[k] = g.below(e[k]); T nv = (T)(1000000 + g.below(1000)); switch (g.below(4)) { case 0: a[idx<R>(i)] = nv; break; case 1: s.at(idx<R>(i)) = nv; break; case 2: call<CV, R>(a, i, std::make_index_sequence<R>{}) = nv; break; default: *(s.begin() + (&m.at(i) - st.data())) = nv; }
    pd at = &m.at(i) - st.data(); for (size_t j = 0; j < st.size(); ++j) vm::ok(st[j] == ((pd)j == at ? nv : before[j]), "write", "write through a view changed another element"); vm::count("writes"); }
  // comparisons of contiguous views
  { std::vector<T> o(st); Ext<R> e2 = g.chance(1, 2) ? e : extents<R>(g, 300); o.resize(total<R>(e2) > (pd)o.size() ? total<R>(e2) : o.size(), (T)3); if (g.chance(1, 2)) o[g.below(o.size())] = (T)g.below(1000); CV b(o.data(), contiguous_bounds<R>(idx<R>(e2))); std::vector<T> x(st.begin(), st.begin() + n), y(o.begin(), o.begin() + total<R>(e2)); vm::ok((a == b) == (x == y) && (a != b) == (x != y) && (a < b) == (x < y) && (a <= b) == (x <= y) && (a > b) == (x > y) && (a >= b) == (x >= y), "compare:view", "comparison of two views"); { array_view<const T, R> cb(b); array_view<const T, 1> fb(o.data(), contiguous_bounds<1>(index_t<1>((pd)y.size()))); SV sb(o.data(), idx<R>(e2), idx<R>(contiguous<T, R>(o.data(), e2).str)); strided_array_view<const T, 1> f1(o.data(), index_t<1>((pd)y.size()), index_t<1>(1)); vm::ok((a == cb) == (x == y) && (a < cb) == (x < y) && (cb > a) == (y > x) && (a == fb) == (x == y) && (a != fb) == (x != y) && (a >= fb) == (x >= y) && (fb < a) == (y < x) && (s == f1) == (x == y) && (s <= f1) == (x <= y) && (s == sb) == (x == y) && (sb < s) == (y < x), "compare:mixed", "comparison of views of different constness or rank"); } vm::count("comparisons");
    if (n > 1) { Ext<R> z = e; int d = 0; for (int k = 0; k < R; ++k) if (e[k] > 1) d = k; z[d]--; if (total<R>(z) && e[d] > 1) { auto p = s.section(index_t<R>{}, idx<R>(z)); Ext<R> one{}; one[d] = 1; auto q = s.section(idx<R>(one), idx<R>(z)); std::vector<T> px(p.begin(), p.end()), qx(q.begin(), q.end()); vm::ok((p == q) == (px == qx) && (p < q) == (px < qx) && (p > q) == (px > qx), "compare:sections", "comparison of two sections"); }
      // same first element, same size, different elements
      if constexpr (R == 2) if (e[0] == e[1] && e[0] > 1) { SV tr(st.data(), idx<R>(e), index_t<2>(m.str[1], m.str[0])); std::vector<T> tx(tr.begin(), tr.end()); vm::ok((s == tr) == (x == tx), "compare:transpose", "a view and its transpose"); vm::count("transposes"); } } }
  { CV c = a, d = CV(st.data(), contiguous_bounds<R>(idx<R>(e))); c.clear(); vm::ok(c.empty() && c.data() == nullptr, "view:clear", "cleared view"); c.swap(d); same("view swapped", c, m, g); vm::ok(d.empty(), "view:swap", "swapped view"); }
  // bounds: iteration enumerates every index once, in order
  { strided_bounds<R> b(idx<R>(e), idx<R>(m.str)); contiguous_bounds<R> cb(idx<R>(e)); Ext<R> i{}; size_t c = 0; auto p = b.begin(); auto q = cb.begin(); do { vm::ok(p != b.end() && *p == idx<R>(i), "bounds:order", "index " + std::to_string(c)); vm::ok(*q == idx<R>(i), "bounds:order", "contiguous index"); vm::ok(b.linearize(*p) == (pd)c, "bounds:linear", "linear position"); vm::ok(b.contains(*p), "bounds:contains", "own index"); vm::ok(p - b.begin() == (pd)c && (b.begin() + c) == p, "bounds:distance", "distance"); ++p; q++; ++c; } while (next<R>(i, e)); vm::ok(p == b.end() && q == cb.end() && (pd)c == n, "bounds:end", "end"); vm::ok(b.end() - b.begin() == n && (b.begin() + n) == b.end() && (b.end() - n) == b.begin(), "bounds:distance", "distance to the end"); vm::ok((pd)b.size() == n && (pd)cb.size() == n && (pd)cb.total_size() == n, "bounds:size", "size"); if (R > 1) { } }
  { // index arithmetic
    Ext<R> x, y; for (int k = 0; k < R; ++k) { x[k] = g.range(-50, 50); y[k] = g.range(-50, 50); } auto a1 = idx<R>(x), b1 = idx<R>(y); pd sc = g.range(1, 5); auto s1 = a1 + b1, d1 = a1 - b1, n1 = -a1, m1 = a1 * sc, q1 = a1 / sc, r1 = sc * a1; for (int k = 0; k < R; ++k) vm::ok(s1[k] == x[k] + y[k] && d1[k] == x[k] - y[k] && n1[k] == -x[k] && m1[k] == x[k] * sc && r1[k] == x[k] * sc && q1[k] == x[k] / sc, "index:arith", "index arithmetic"); vm::ok((a1 == b1) == (x == y), "index:eq", "index equality"); bool ge = true; for (int k = 0; k < R; ++k) if (x[k] < y[k]) ge = false; vm::ok((a1 >= b1) == ge, "index:ge", "index dominance"); bool th = false; try { a1.at(R); } catch (const std::out_of_range &) { th = true; } vm::ok(th, "index:at", "component out of range accepted"); for (size_t bad : { (size_t)R, (size_t)R + 1, (size_t)-1 }) { bool t2 = false; const auto & c1 = a1; try { (void)c1.at(bad); } catch (const std::out_of_range &) { t2 = true; } vm::ok(t2, "index:at", "component out of range of a constant index accepted"); } for (int k = 0; k < R; ++k) vm::ok(a1.at(k) == x[k] && static_cast<const index_t<R> &>(a1).at(k) == x[k], "index:at", "a checked component differs");
    auto sw = a1, sx = b1; sw.swap(sx); vm::ok(sw == b1 && sx == a1, "index:swap", "swapped indices"); }
  { // bounds iterators over two ranges, swapped
    Ext<R> e2; for (auto & x : e2) x = 1 + g.below(4); contiguous_bounds<R> c1(idx<R>(e)), c2(idx<R>(e2)); auto p = c1.begin(), q = c2.begin(); pd k1 = g.below((uint64_t)total<R>(e)), k2 = g.below((uint64_t)total<R>(e2)); p += k1; q += k2; auto was1 = *p, was2 = *q; p.swap(q); vm::ok(*p == was2 && *q == was1, "bounds:swap", "swapped bounds iterators do not exchange their positions"); pd l1 = 0, l2 = 0; for (; p != c2.end() && l2 < 100000; ++p) ++l2; for (; q != c1.end() && l1 < 100000; ++q) ++l1; vm::ok(l2 == total<R>(e2) - k2 && l1 == total<R>(e) - k1, "bounds:swap", "swapped bounds iterators do not walk each other's bounds"); }
  if constexpr (std::is_floating_point<T>::value) { // values without an order: comparisons are still those of the sequences
    std::vector<T> nv(st.begin(), st.begin() + n); nv[g.below(nv.size())] = std::numeric_limits<T>::quiet_NaN(); if (g.chance(1, 2)) nv[g.below(nv.size())] = T(-0.0); std::vector<T> ov(nv); if (g.chance(1, 2)) ov[g.below(ov.size())] = T(0); array_view<T, R> x1(nv.data(), contiguous_bounds<R>(idx<R>(e))), y1(ov.data(), contiguous_bounds<R>(idx<R>(e))); strided_array_view<T, R> x2(nv.data(), idx<R>(e), idx<R>(m.str)), y2(ov.data(), idx<R>(e), idx<R>(m.str));
    auto rel = [&](const auto & u, const auto & w, const std::vector<T> & su, const std::vector<T> & sw) { vm::ok((u == w) == (su == sw) && (u != w) == (su != sw) && (u < w) == (su < sw) && (u > w) == (su > sw) && (u <= w) == (su <= sw) && (u >= w) == (su >= sw), "compare:unordered", "views with a value without an order do not compare as their sequences"); }; rel(x1, y1, nv, ov); rel(x1, x1, nv, nv); rel(x2, y2, nv, ov); rel(x2, x2, nv, nv); rel(y1, x1, ov, nv); array_view<T, R> z1(x1); rel(x1, z1, nv, nv); vm::count("unordered comparisons", 6); }
  vm::sample_if("dynamic", show<R>(e));
}
// views without elements: some extent is zero
template <class T, int R> void hollow(vm::Rng & g) {
  Ext<R> e; for (auto & x : e) x = g.below(4); e[g.below(R)] = 0; if (g.chance(1, 3)) e[g.below(R)] = 0; vm::case_s("no elements in " + show<R>(e)); vm::distinct(vm::hmix(vm::hstr(show<R>(e)), R * 10 + sizeof(T))); std::vector<T> st(64); auto m = contiguous<T, R>(st.data(), e); for (int k = 0; k < R; ++k) if (g.chance(1, 3)) m.str[k] = 1 + g.below(9);
  array_view<T, R> a(st.data(), contiguous_bounds<R>(idx<R>(e))); strided_array_view<T, R> s(st.data(), idx<R>(e), idx<R>(m.str)); same("hollow view", a, m, g); same("hollow strided", s, m, g); array_view<const T, R> ca(a); strided_array_view<const T, R> cs(s); Model<const T, R> cm{ m.base, m.ext, m.str }; same("hollow const view", ca, cm, g); same("hollow const strided", cs, cm, g);
  contiguous_bounds<R> cb(idx<R>(e)); strided_bounds<R> sb(idx<R>(e), idx<R>(m.str)); vm::ok(cb.begin() == cb.end() && sb.begin() == sb.end() && cb.end() - cb.begin() == 0 && sb.end() - sb.begin() == 0 && !(cb.begin() < cb.end()) && sb.begin() + 0 == sb.end() && cb.size() == 0 && sb.size() == 0, "hollow:bounds", "bounds without indices do not begin at their end");
  Ext<R> e2; for (auto & x : e2) x = 1 + g.below(2); strided_array_view<T, R> full(st.data(), idx<R>(e2), idx<R>(contiguous<T, R>(st.data(), e2).str)); vm::ok(s == s && !(s == full) && s < full && !(full < s) && s <= full && full > s && !(s != s), "hollow:compare", "a view without elements and one with"); array_view<T, R> af(st.data(), contiguous_bounds<R>(idx<R>(e2))); vm::ok(a == a && !(a == af) && a < af && !(af < a) && af >= a, "hollow:compare", "a view without elements and one with");
  Ext<R> org, len; for (int k = 0; k < R; ++k) { org[k] = g.below(e2[k]); len[k] = g.below(e2[k] - org[k] + 1); } if (total<R>(len) == 0) { Model<T, R> fm = contiguous<T, R>(st.data(), e2); fm.base = &fm.at(org); fm.ext = len; same("hollow section", full.section(idx<R>(org), idx<R>(len)), fm, g); same("hollow section of view", af.section(idx<R>(org), idx<R>(len)), fm, g); }
  if constexpr (R > 1) if (e[0]) { Model<T, R - 1> sm; for (int k = 1; k < R; ++k) { sm.ext[k - 1] = e[k]; sm.str[k - 1] = m.str[k]; } sm.base = st.data(); same("hollow slice", s.slice(0), sm, g); }
  vm::count("views without elements");
}
template <class T, pd... D> void fixed(vm::Rng & g) {
  constexpr int R = sizeof...(D); Ext<R> e{ D... }; constexpr pd n = (D * ...); std::vector<T> st(n + g.below(2)); for (size_t i = 0; i < st.size(); ++i) st[i] = (T)(g.below(1000)); st.shrink_to_fit(); auto m = contiguous<T, R>(st.data(), e); vm::case_s("static " + show<R>(e)); vm::distinct(vm::hmix(vm::hstr(show<R>(e)), g.next()));
  static_array_view<T, D...> v(st); same("static", v, m, g); parts("static", v, m, g, 2); auto mk = make_static_array_view<D...>(st); same("made static", mk, m, g); static_array_view<T, D...> pv(st.data()); same("static of pointer", pv, m, g); 
  static_array_view<const T, D...> c(v); Model<const T, R> cm{ m.base, m.ext, m.str }; same("static const", c, cm, g); static_array_view<const T, D...> c2; c2 = v; same("static const assigned", c2, cm, g);
  strided_array_view<T, R> sv = static_cast<strided_array_view<T, R>>(v); same("static to strided", sv, m, g); array_view<T, R> dv = static_cast<array_view<T, R>>(v); same("static to dynamic", dv, m, g);
  auto str = v.strides(); for (int k = 0; k < R; ++k) vm::ok(str[k] == m.str[k], "static:strides", "stride");
  if constexpr (std::is_floating_point<T>::value) { std::vector<T> nv(st.begin(), st.begin() + n); nv[g.below(n)] = std::numeric_limits<T>::quiet_NaN(); static_array_view<T, D...> u(nv), u2(u); vm::ok((u == u2) == (nv == nv) && (u != u2) == (nv != nv) && (u < u2) == (nv < nv) && (u <= u2) == (nv <= nv), "compare:unordered", "static views with a value without an order do not compare as their sequences"); }
  std::vector<T> o(st); if (g.chance(1, 2)) o[g.below(n)] = (T)g.below(1000); static_array_view<T, D...> w(o); std::vector<T> x(st.begin(), st.begin() + n), y(o.begin(), o.begin() + n); vm::ok((v == w) == (x == y) && (v < w) == (x < y) && (v >= w) == (x >= y) && (v != w) == (x != y) && (v > w) == (x > y) && (v <= w) == (x <= y), "compare:static", "comparison of static views"); vm::count("static views");
}
template <class T, int A, int B, int C> void carray(vm::Rng & g) {
  static T r[A][B][C]; for (int i = 0; i < A; ++i) for (int j = 0; j < B; ++j) for (int k = 0; k < C; ++k) r[i][j][k] = (T)g.below(100000); vm::case_("array [%d][%d][%d]", A, B, C); Ext<3> e{ A, B, C }; auto m = contiguous<T, 3>(&r[0][0][0], e);
  array_view<T, 3> a(r); same("array", a, m, g); parts("array", a, m, g, 2); strided_array_view<T, 3> s(r); same("array strided", s, m, g); static_array_view<T, A, B, C> t(r); same("array static", t, m, g); auto k = make_array_view(r); same("array made", k, m, g); auto q = make_static_array_view(r); same("array made static", q, m, g);
  array_view<T> f(a); auto fm = contiguous<T, 1>(&r[0][0][0], Ext<1>{ A * B * C }); same("flattened", f, fm, g);
  strided_bounds<3> sb(r); contiguous_bounds<3> cb(r); for (int d = 0; d < 3; ++d) vm::ok(sb.strides()[d] == m.str[d] && cb.strides()[d] == m.str[d] && cb[d] == e[d] && sb[d] == e[d], "array:bounds", "bounds derived from an array"); vm::ok(cb.linearize({ A - 1, B - 1, C - 1 }) == A * B * C - 1, "array:bounds", "linear position of the last element"); vm::count("C arrays");
}
template <class T> void ref(vm::Rng & g, std::function<T(uint64_t)> mk) {
  size_t n = g.below(40); std::vector<T> v(n); for (auto & x : v) x = mk(g.next()); v.shrink_to_fit(); array_ref<T> r = g.chance(1, 2) ? array_ref<T>(v) : array_ref<T>(v.data(), v.size()); size_t lo = 0, hi = n; std::string hist; uint64_t h = n + sizeof(T) * 1000;
  for (int s = 0; s < 25; ++s) {
    unsigned op = g.below(7); size_t a = g.below(hi - lo + 1);
    if (op == 0) { r.remove_prefix(a); lo += a; } else if (op == 1) { r.remove_suffix(a > 3 ? 3 : a); hi -= a > 3 ? 3 : a; } else if (op == 2 && hi > lo) { r.pop_front(); lo++; } else if (op == 3 && hi > lo) { r.pop_back(); hi--; }
    else if (op == 4) { size_t p = g.chance(1, 3) ? hi - lo + g.below(5) : g.below(hi - lo + 1), c = g.chance(1, 4) ? (size_t)-1 : g.chance(1, 4) ? (size_t)-1 - g.below(50) : g.below(hi - lo + 3); r = r.substr(p, c); if (p > hi - lo) p = hi - lo; lo += p; if (c > hi - lo) c = hi - lo; hi = lo + c; }
    else if (op == 5 && g.chance(1, 4)) { r.clear(); vm::ok(r.empty() && r.size() == 0 && r.begin() == r.end(), "ref:clear", "cleared reference"); r = array_ref<T>(v); lo = 0; hi = n; }
    else { auto c = r; r = make_array_ref(c.data(), c.size()); }
    hist += std::to_string(op); h = vm::hmix(h, op * 1000 + a); vm::distinct(h); vm::case_s("array_ref of " + std::to_string(n) + " ops " + hist); vm::count("array_ref steps");
    vm::ok(r.size() == hi - lo && r.empty() == (hi == lo), "ref:size", "size"); vm::ok(r.max_size() >= r.size() && r.max_size() >= 1000000, "ref:max", "the largest size is smaller than a size"); if (r.size() != hi - lo) return; std::vector<T> w(v.begin() + lo, v.begin() + hi);
    vm::ok(std::equal(r.begin(), r.end(), w.begin(), w.end()) && std::equal(r.rbegin(), r.rend(), w.rbegin(), w.rend()) && std::equal(r.cbegin(), r.cend(), w.begin(), w.end()) && std::equal(r.crbegin(), r.crend(), w.rbegin(), w.rend()) && r.vec() == w && static_cast<std::vector<T>>(r) == w, "ref:elements", "elements of the reference"); for (size_t i = 0; i < w.size(); ++i) vm::ok(&r[i] == &v[lo + i] && &r.at(i) == &v[lo + i], "ref:address", "element is not the storage's own"); if (!w.empty()) vm::ok(&r.front() == &v[lo] && &r.back() == &v[hi - 1] && r.data() == &v[lo], "ref:ends", "front and back");
    for (size_t bad : { w.size(), w.size() + 1 + (size_t)g.below(100), (size_t)-1 }) { bool th = false; try { (void)r.at(bad); } catch (const std::out_of_range &) { th = true; } vm::ok(th, "ref:range", "position " + std::to_string(bad) + " of " + std::to_string(w.size()) + " accepted"); vm::count("out of range probes"); }
  }
}
// extents whose product, and whose offsets, need more than 32 bits: the bounds alone, and views over a reserved range
template <int R> void huge(vm::Rng & g) {
  Ext<R> e, str; __int128 n = 1; for (auto & x : e) { x = g.range(1, R == 1 ? (pd)1 << 60 : R == 2 ? 1 << 30 : R == 3 ? 1 << 19 : 1 << 14); if (g.chance(1, 4)) x = g.range(1, 5); n *= x; }
  auto m = contiguous<char, R>(nullptr, e); str = m.str; vm::case_s("large bounds " + show<R>(e)); vm::distinct(vm::hstr(vm::st().casebuf)); contiguous_bounds<R> c(idx<R>(e)); strided_bounds<R> s(idx<R>(e), idx<R>(str));
  vm::ok((__int128)c.size() == n && (__int128)s.size() == n && (__int128)s.total_size() == n && (__int128)c.total_size() == n, "large:size", "the size is not the product of the extents"); for (int k = 0; k < R; ++k) vm::ok(c.strides()[k] == str[k] && s[k] == e[k] && c[k] == e[k], "large:strides", "a stride or extent differs");
  for (int t = 0; t < 20; ++t) { Ext<R> i, j; pd at = 0, to = 0; for (int k = 0; k < R; ++k) { i[k] = g.chance(1, 4) ? e[k] - 1 : g.range(0, e[k] - 1); j[k] = g.range(0, e[k] - 1); at += i[k] * str[k]; to += j[k] * str[k]; } vm::ok(c.linearize(idx<R>(i)) == at && s.linearize(idx<R>(i)) == at && c.contains(idx<R>(i)) && s.contains(idx<R>(i)), "large:linear", "the linear position of " + show<R>(i) + " differs");
    auto p = c.begin() + at; auto q = s.begin() + to; vm::ok(*p == idx<R>(i) && *q == idx<R>(j) && p - c.begin() == at && (c.begin() + to) - p == to - at, "large:iterator", "a bounds iterator " + std::to_string(at) + " beyond the first shows another index"); q += at - to; vm::ok(*q == idx<R>(i) && (q < s.begin() + to) == (at < to), "large:move", "a bounds iterator moves elsewhere");
    Ext<R> o = i; int d = (int)g.below(R); o[d] = g.chance(1, 2) ? e[d] : -1; vm::ok(!c.contains(idx<R>(o)) && !s.contains(idx<R>(o)), "large:contains", "an index outside is contained"); vm::count("large positions"); }
}
static void reserved(vm::Rng & g) {
  const size_t len = (size_t)6 << 30; char * mem = (char *)mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (mem == MAP_FAILED) { vm::count("no large memory"); return; }
  for (int t = 0; t < 12; ++t) { Ext<2> e; e[0] = g.range(40000, 75000); e[1] = (pd)(len / (size_t)e[0]) - (pd)g.below(3); array_view<char, 2> a(mem, contiguous_bounds<2>(idx<2>(e))); strided_array_view<char, 2> s(mem, idx<2>(e), index_t<2>(e[1], 1)), tr(mem, index_t<2>(e[1], e[0]), index_t<2>(1, e[1])); vm::case_s("view of " + show<2>(e) + " over reserved memory"); vm::distinct(vm::hstr(vm::st().casebuf)); vm::ok(a.size() == (size_t)e[0] * (size_t)e[1] && s.size() == a.size(), "reserved:size", "size");
    { pd n = e[0] * e[1], far = g.range(n / 2, n - 1), back = g.range(0, n / 8); auto b = a.begin(), f = a.end(); auto p = b; p += far; vm::ok(&*p == mem + far && p - b == far && f - p == n - far && b < p && p > b, "reserved:move", "an iterator moved far is elsewhere"); p -= far - back; vm::ok(&*p == mem + back, "reserved:move", "an iterator moved far back is elsewhere"); vm::ok(&*(b + far) == mem + far && &*(far + b) == mem + far && &*(f - (n - back)) == mem + back && &*(a.rbegin() + far) == mem + n - 1 - far, "reserved:move", "an iterator moved far is elsewhere"); auto q = s.begin(); q += far; vm::ok(&*q == mem + far && q - s.begin() == far, "reserved:move", "a strided iterator moved far is elsewhere"); q -= far - back; vm::ok(&*q == mem + back && &*(s.end() - (n - back)) == mem + back, "reserved:move", "a strided iterator moved far back is elsewhere"); }
    for (int k = 0; k < 6; ++k) { pd i = g.chance(1, 3) ? e[0] - 1 : g.range(0, e[0] - 1), j = g.range(0, e[1] - 1); char * want = mem + i * e[1] + j; vm::ok(&a(i, j) == want && &a[index_t<2>(i, j)] == want && &a.at(index_t<2>(i, j)) == want && &s(i, j) == want && &s[index_t<2>(i, j)] == want && &tr(j, i) == want && &a.slice(i)(j) == want && &s.slice(i)(j) == want && &a[(size_t)i][index_t<1>(j)] == want, "reserved:element", "an element is elsewhere"); vm::ok(&*(a.begin() + (want - mem)) == want && &*(s.begin() + (want - mem)) == want, "reserved:iterator", "an iterator far from the first shows another element");
      char v = (char)g.range(1, 120); a(i, j) = v; vm::ok(*want == v && s(i, j) == v, "reserved:write", "a write goes elsewhere"); auto sec = a.section(index_t<2>(i, j)); vm::ok(&sec(0, 0) == want && (sec.size() == (size_t)(e[0] - i) * (size_t)(e[1] - j)), "reserved:section", "a section is elsewhere"); madvise(mem + ((want - mem) & ~(pd)4095), 4096, MADV_DONTNEED); vm::count("far elements"); } }
  munmap(mem, len);
}
int main(int argc, char ** argv) {
  vm::init(argc, argv);
  if (vm::section("dynamic")) { auto g = vm::rng("dynamic"); for (uint64_t i = 0, t = vm::n(120); i < t; ++i) { dynamic<int, 1>(g); dynamic<int, 2>(g); dynamic<double, 3>(g); if (i % 3 == 0) dynamic<long, 4>(g); hollow<int, 1>(g); hollow<int, 2>(g); hollow<double, 3>(g); hollow<int, 4>(g); }
    static_array_view<int, 2, 0> z2((int *)nullptr + 0); vm::ok(z2.empty() && z2.size() == 0 && z2.begin() == z2.end(), "hollow:static", "a static view without elements"); }
  if (vm::section("large")) { auto g = vm::rng("large"); for (uint64_t i = 0, t = vm::n(60); i < t; ++i) { huge<1>(g); huge<2>(g); huge<3>(g); huge<4>(g); } reserved(g); }
  if (vm::section("static")) { auto g = vm::rng("static"); for (uint64_t i = 0, t = vm::n(60); i < t; ++i) { fixed<int, 7>(g); fixed<int, 3, 4>(g); fixed<double, 3, 1, 2>(g); fixed<long, 2, 3, 2, 2>(g); fixed<int, 1, 5>(g); fixed<int, 4, 4>(g); carray<int, 3, 1, 2>(g); carray<double, 2, 4, 3>(g); carray<int, 1, 1, 5>(g); } }
  if (vm::section("ref")) { auto g = vm::rng("ref"); for (uint64_t i = 0, t = vm::n(400); i < t; ++i) { ref<int>(g, [](uint64_t x) { return (int)x; }); ref<std::string>(g, [](uint64_t x) { return std::string(x % 30, 'a' + x % 26); }); ref<double>(g, [](uint64_t x) { return (double)(x % 997); }); }
    std::array<int, 4> a{ 1, 2, 3, 4 }; int c[3] = { 5, 6, 7 }; std::string s = "hello"; array_ref<int> ra(a), rc(c); array_ref<char> rs(s); vm::ok(ra.size() == 4 && ra.data() == a.data() && rc.size() == 3 && &rc[1] == &c[1] && rs.size() == 5 && rs.data() == s.data() && rs.str() == s && rs.substr(1, 3).str() == "ell" && array_ref<char>(std::string(3, '\0').c_str(), 3).str().size() == 3 && static_cast<std::string>(rs) == s && make_array_ref(a).size() == 4 && make_array_ref(c).size() == 3, "ref:convert", "conversions"); array_ref<int> d; vm::ok(d.empty() && d.substr(3, 2).empty(), "ref:default", "default reference"); }
  return vm::finish();
}
