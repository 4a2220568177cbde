// G01: planar measures.  Random simple polygons (star shaped in the plane, convex
// in space) in every spelling; oracle: long double fan triangulation about a
// local origin, plus invariance under renumbering, reversal and rigid motion.
#include <cassert>
#include <cstddef>
#include <iterator>
#include <sstream>
#include <vector>
#include <deque>
#include <limits>
#include <list>
#include <algorithm>
#include "vmon.h"
#include "ristra/geometry/point.h"
#include "ristra/assertions/errors.h"
#include "ristra/geometry/area.h"
#include "ristra/geometry/centroid.h"
#include "ristra/geometry/shapes/triangle.h"
#include "ristra/geometry/shapes/polygon.h"
#include "ristra/geometry/shapes/quadrilateral.h"
using ld = long double; namespace sh = ristra::geometry::shapes; namespace rg = ristra::geometry;
#include "ristra/geometry/normal.h"
template <class T> using P2_ = rg::point<T, 2>; template <class T> using P3_ = rg::point<T, 3>;
template <class T> constexpr double eps() { return std::max((double)std::numeric_limits<T>::epsilon() * 4500, 1e-14); } // 1e-12 for double
static std::string pre; static double grow = 1; // scalar type, and rounding growth with the number of vertices
template <class V> std::string show(const V & v) { std::ostringstream o; o.precision(17); for (auto & p : v) o << p << " "; return o.str(); }

struct Ref { ld area = 0, cx[3] = { 0, 0, 0 }, n[3] = { 0, 0, 0 }, mid[3] = { 0, 0, 0 }, scale = 0, ext = 0; };
template <class P> Ref reference(const std::vector<P> & v, size_t D) {
  Ref r; size_t n = v.size(); ld o[3] = { 0, 0, 0 };
  for (size_t d = 0; d < D; ++d) { for (auto & p : v) { o[d] += p[d]; r.scale = std::max(r.scale, fabsl((ld)p[d])); } o[d] /= n; r.mid[d] = o[d]; }
  for (auto & p : v) for (size_t d = 0; d < D; ++d) r.ext = std::max(r.ext, fabsl((ld)p[d] - o[d]));
  // vector area about the local origin, then area and centroid along it (planar polygon)
  std::vector<std::vector<ld>> t; ld tot[3] = { 0, 0, 0 };
  for (size_t i = 0; i < n; ++i) { ld a[3] = { 0, 0, 0 }, b[3] = { 0, 0, 0 }; for (size_t d = 0; d < D; ++d) { a[d] = (ld)v[i][d] - o[d]; b[d] = (ld)v[(i + 1) % n][d] - o[d]; }
    std::vector<ld> c = { (a[1] * b[2] - a[2] * b[1]) / 2, (a[2] * b[0] - a[0] * b[2]) / 2, (a[0] * b[1] - a[1] * b[0]) / 2 }; for (int d = 0; d < 3; ++d) tot[d] += c[d]; t.push_back(c); }
  r.area = sqrtl(tot[0] * tot[0] + tot[1] * tot[1] + tot[2] * tot[2]); for (int d = 0; d < 3; ++d) r.n[d] = tot[d];
  for (size_t i = 0; i < n; ++i) { ld s = 0; for (int d = 0; d < 3; ++d) s += t[i][d] * tot[d] / r.area; for (size_t d = 0; d < D; ++d) r.cx[d] += s * (((ld)v[i][d] - o[d]) + ((ld)v[(i + 1) % n][d] - o[d])) / 3; }
  for (size_t d = 0; d < D; ++d) r.cx[d] = o[d] + r.cx[d] / r.area;
  return r;
}
// each observation names the spelling it came from
template <class T> void area(const char * k, T got, const Ref & r) { vm::okn((double)got, (double)r.area, eps<T>() * grow, (double)(r.scale * r.scale + r.area), pre + k, "area"); vm::count("areas"); }
template <class P> void cent(const char * k, const P & got, const Ref & r, size_t D) { ld s = r.scale * r.scale * r.scale / r.area + r.scale; for (size_t d = 0; d < D; ++d) vm::okn((double)got[d], (double)r.cx[d], eps<typename P::value_type>() * grow, (double)s, pre + k, "centroid coordinate"); vm::count("centroids"); }
template <class P> void mid(const char * k, const P & got, const Ref & r, size_t D) { for (size_t d = 0; d < D; ++d) vm::okn((double)got[d], (double)r.mid[d], eps<typename P::value_type>() * 0.1 * grow, (double)r.scale, pre + k, "mean of the vertices"); vm::count("midpoints"); }
template <class P> void norm2(const char * k, const P & got, const Ref & r) { vm::okn((double)got[0], 0, eps<typename P::value_type>(), (double)r.scale, pre + k, "first component of a planar normal"); vm::okn((double)got[1], (double)r.n[2], eps<typename P::value_type>() * grow, (double)(r.scale * r.scale + r.area), pre + k, "signed area carried by the planar normal"); vm::count("normals"); }
template <class P> void norm3(const char * k, const P & got, const Ref & r) { for (int d = 0; d < 3; ++d) vm::okn((double)got[d], (double)r.n[d], eps<typename P::value_type>() * grow, (double)(r.scale * r.scale + r.area), pre + k, "component of the area vector"); vm::count("normals"); }

template <class P, class F, size_t... I> auto spread(const std::vector<P> & v, F f, std::index_sequence<I...>) { return f(v[I]...); }
template <size_t N, class P2> void variadic2(const std::vector<P2> & v, const Ref & r) {
  using IS = std::make_index_sequence<N>;
  area("area:args", spread(v, [](const auto &... p) { return sh::polygon<2>::area(p...); }, IS{}), r);
  cent("centroid:args", spread(v, [](const auto &... p) { return sh::polygon<2>::centroid(p...); }, IS{}), r, 2);
  norm2("normal:args", spread(v, [](const auto &... p) { return sh::polygon<2>::normal(p...); }, IS{}), r);
  mid("midpoint:args", spread(v, [](const auto &... p) { return sh::polygon<2>::midpoint(p...); }, IS{}), r, 2);
  if constexpr (N >= 4) { area("area:free args", spread(v, [](const auto &... p) { return rg::area(p...); }, IS{}), r); cent("centroid:free args", spread(v, [](const auto &... p) { return rg::centroid(p...); }, IS{}), r, 2); }
}
template <size_t N, class P3> void variadic3(const std::vector<P3> & v, const Ref & r) {
  using IS = std::make_index_sequence<N>;
  area("area3:args", spread(v, [](const auto &... p) { return sh::polygon<3>::area(p...); }, IS{}), r);
  cent("centroid3:args", spread(v, [](const auto &... p) { return sh::polygon<3>::centroid(p...); }, IS{}), r, 3);
  norm3("normal3:args", spread(v, [](const auto &... p) { return sh::polygon<3>::normal(p...); }, IS{}), r);
  mid("midpoint3:args", spread(v, [](const auto &... p) { return sh::polygon<3>::midpoint(p...); }, IS{}), r, 3);
}
template <class P2> void all2(const std::vector<P2> & v, const Ref & r) {
  std::deque<P2> q(v.begin(), v.end()); std::list<P2> l(v.begin(), v.end());
  area("area:vector", sh::polygon<2>::area(v), r); area("area:deque", sh::polygon<2>::area(q), r); area("area:list", sh::polygon<2>::area(l), r); area("area:iterators", sh::polygon<2>::area(v.begin(), v.end()), r); area("area:pointers", sh::polygon<2>::area(v.data(), v.data() + v.size()), r);
  cent("centroid:vector", sh::polygon<2>::centroid(v), r, 2); cent("centroid:list", sh::polygon<2>::centroid(l), r, 2); cent("centroid:iterators", sh::polygon<2>::centroid(v.begin(), v.end()), r, 2);
  norm2("normal:vector", sh::polygon<2>::normal(v), r); norm2("normal:iterators", sh::polygon<2>::normal(v.begin(), v.end()), r);
  mid("midpoint:vector", sh::polygon<2>::midpoint(v), r, 2); mid("midpoint:iterators", sh::polygon<2>::midpoint(v.begin(), v.end()), r, 2);
  norm2("normal:list", sh::polygon<2>::normal(l), r); norm2("normal:deque", sh::polygon<2>::normal(q), r); mid("midpoint:list", sh::polygon<2>::midpoint(l), r, 2); mid("midpoint:deque", sh::polygon<2>::midpoint(q), r, 2); cent("centroid:deque", sh::polygon<2>::centroid(q), r, 2); cent("centroid:pointers", sh::polygon<2>::centroid(v.data(), v.data() + v.size()), r, 2); norm2("normal:list iterators", sh::polygon<2>::normal(l.begin(), l.end()), r);
  area("area:free vector", rg::area_2d(v), r); area("area:free deque", rg::area_2d(q), r); area("area:dispatched", rg::area(v), r); cent("centroid:free vector", rg::centroid_2d(v), r, 2); cent("centroid:free deque", rg::centroid_2d(q), r, 2);
  switch (v.size()) {
    case 3: variadic2<3>(v, r); area("area:triangle", sh::triangle<2>::area(v[0], v[1], v[2]), r); cent("centroid:triangle", sh::triangle<2>::centroid(v[0], v[1], v[2]), r, 2); mid("midpoint:triangle", sh::triangle<2>::midpoint(v[0], v[1], v[2]), r, 2); norm2("normal:triangle", sh::triangle<2>::normal(v[0], v[1], v[2]), r); break;
    case 4: variadic2<4>(v, r); area("area:quad", sh::quadrilateral<2>::area(v[0], v[1], v[2], v[3]), r); cent("centroid:quad", sh::quadrilateral<2>::centroid(v[0], v[1], v[2], v[3]), r, 2); mid("midpoint:quad", sh::quadrilateral<2>::midpoint(v[0], v[1], v[2], v[3]), r, 2); norm2("normal:quad", sh::quadrilateral<2>::normal(v[0], v[1], v[2], v[3]), r); break;
    case 5: variadic2<5>(v, r); break; case 6: variadic2<6>(v, r); break; case 7: variadic2<7>(v, r); break;
  }
}
template <class P3> void all3(const std::vector<P3> & v, const Ref & r, bool planar) {
  std::list<P3> l(v.begin(), v.end());
  if (v.size() > 3) {
    norm3("normal3:vector", sh::polygon<3>::normal(v), r); norm3("normal3:iterators", sh::polygon<3>::normal(v.begin(), v.end()), r); norm3("normal3:list", sh::polygon<3>::normal(l), r);
    if (v.size() == 4) norm3("normal3:quad", sh::quadrilateral<3>::normal(v[0], v[1], v[2], v[3]), r);
    mid("midpoint3:list", sh::polygon<3>::midpoint(l), r, 3); mid("midpoint3:vector", sh::polygon<3>::midpoint(v), r, 3); mid("midpoint3:iterators", sh::polygon<3>::midpoint(v.begin(), v.end()), r, 3);
    if (v.size() == 4) mid("midpoint3:quad", sh::quadrilateral<3>::midpoint(v[0], v[1], v[2], v[3]), r, 3);
    if (planar) {
      area("area3:vector", sh::polygon<3>::area(v), r); area("area3:list", sh::polygon<3>::area(l), r); area("area3:iterators", sh::polygon<3>::area(v.begin(), v.end()), r);
      cent("centroid3:vector", sh::polygon<3>::centroid(v), r, 3); cent("centroid3:list", sh::polygon<3>::centroid(l), r, 3); cent("centroid3:iterators", sh::polygon<3>::centroid(v.begin(), v.end()), r, 3);
      switch (v.size()) { case 4: variadic3<4>(v, r); area("area3:quad", sh::quadrilateral<3>::area(v[0], v[1], v[2], v[3]), r); cent("centroid3:quad", sh::quadrilateral<3>::centroid(v[0], v[1], v[2], v[3]), r, 3); break;
        case 5: variadic3<5>(v, r); break; case 6: variadic3<6>(v, r); break; case 7: variadic3<7>(v, r); break; }
    }
  } else { area("area3:triangle", sh::triangle<3>::area(v[0], v[1], v[2]), r); cent("centroid3:triangle", sh::triangle<3>::centroid(v[0], v[1], v[2]), r, 3); mid("midpoint3:triangle", sh::triangle<3>::midpoint(v[0], v[1], v[2]), r, 3); norm3("normal3:triangle", sh::triangle<3>::normal(v[0], v[1], v[2]), r); }
}
// segments: length, middle and normal, in every dimension
template <class T, size_t D> void segment(vm::Rng & r) {
  using P = rg::point<T, D>; P a, b; double s = std::pow(10.0, (double)r.range(-10, 10)), big = 0; bool near = r.chance(1, 4); for (size_t d = 0; d < D; ++d) { a[d] = (T)(s * r.uniform(-1, 1)); b[d] = near ? a[d] : (T)(s * r.uniform(-1, 1)); if (r.chance(1, 8)) b[d] = a[d]; if (r.chance(1, 8)) a[d] = 0; big = std::max({ big, std::fabs((double)a[d]), std::fabs((double)b[d]) }); }
  std::ostringstream o; o.precision(17); o << "segment " << a << " to " << b; vm::case_s(o.str()); vm::sample_if("segment", o.str()); vm::count("segments");
  ld q = 0; for (size_t d = 0; d < D; ++d) q += ((ld)a[d] - b[d]) * ((ld)a[d] - b[d]); const double e = std::max((double)std::numeric_limits<T>::epsilon(), 2.3e-16);
  for (int t = 0; t < 2; ++t) { const P & x = t ? b : a, & y = t ? a : b; vm::okn((double)rg::distance(x, y), (double)sqrtl(q), 16 * e, (double)sqrtl(q), pre + "segment:distance", "length of the segment");
    auto m = rg::midpoint(x, y); for (size_t d = 0; d < D; ++d) vm::okn((double)m[d], (double)(((ld)a[d] + b[d]) / 2), 8 * e, big, pre + "segment:midpoint", "middle of the segment");
    auto c = rg::centroid({ x, y }); for (size_t d = 0; d < D; ++d) vm::okn((double)c[d], (double)(((ld)a[d] + b[d]) / 2), 8 * e, big, pre + "segment:centroid", "mean of the ends");
    auto c1 = rg::centroid({ x }); for (size_t d = 0; d < D; ++d) vm::okn((double)c1[d], (double)x[d], 2 * e, big, pre + "point:centroid", "mean of one point");
    auto c3 = rg::centroid({ x, y, y }); for (size_t d = 0; d < D; ++d) vm::okn((double)c3[d], (double)(((ld)x[d] + 2 * (ld)y[d]) / 3), 8 * e, big, pre + "points:centroid", "mean of the points");
    if constexpr (D == 2) { auto n = rg::normal(x, y); vm::okn((double)n[0], (double)((ld)x[1] - y[1]), 4 * e, big, pre + "segment:normal", "normal of the segment"); vm::okn((double)n[1], (double)((ld)y[0] - x[0]), 4 * e, big, pre + "segment:normal", "normal of the segment"); }
    if constexpr (D == 3) { auto n = rg::normal(x, y); for (size_t i = 0; i < 3; ++i) { size_t p = (i + 1) % 3, z = (i + 2) % 3; vm::okn((double)n[i], (double)((ld)x[p] * y[z] - (ld)x[z] * y[p]), 8 * e, big * big, pre + "segment:normal3", "normal of two directions"); } } }
}
template <class T> void run(const char * nm, uint64_t N) {
  pre = nm; vm::Rng r = vm::rng((std::string("planar") + nm).c_str()); using P2 = P2_<T>; using P3 = P3_<T>;
  for (uint64_t k = 0; k < N; ++k) {
    const size_t n = r.chance(1, 8) ? r.chance(1, 12) ? 48 + r.below(1000) : 8 + r.below(40) : 3 + r.below(5); constexpr bool single = std::is_same<T, float>::value; segment<T, 1>(r); segment<T, 2>(r); segment<T, 3>(r); segment<T, 4>(r);
    const bool round = r.chance(1, 4); double ox = 0, oy = 0, oz = 0, s = round ? 1 : std::pow(10.0, r.chance(1, 3) ? (double)(single ? r.range(-6, 6) : r.range(-30, 30)) : (double)r.range(-2, 2)); if (r.chance(3, 4)) { const double far = r.chance(1, 10) ? 50 : 1; ox = far * s * r.uniform(-4, 4); oy = far * s * r.uniform(-4, 4); oz = far * s * r.uniform(-4, 4); }
    std::vector<double> ang(n); double base = r.uniform(0, 6.283); // star shaped: every gap below pi
    { std::vector<double> w(n); double t = 0; for (auto & x : w) { x = 0.35 + r.unit(); t += x; } double a = base; for (size_t i = 0; i < n; ++i) { ang[i] = a; a += 2 * M_PI * w[i] / t; } if (n == 3) { bool bad = false; for (double x : w) bad |= x / t > 0.46; if (bad) { --k; continue; } } }
    const bool convex = k % 2; double ex = r.uniform(0.4, 2);
    std::vector<P2> v; for (size_t i = 0; i < n; ++i) { double q = convex ? 1 : r.uniform(0.3, 1.5); P2 p(ox + s * ex * q * std::cos(ang[i]), oy + s * q * std::sin(ang[i])); if (round) { p[0] = std::round(p[0] * 16) / 4; p[1] = std::round(p[1] * 16) / 4; } v.push_back(p); }
    const bool comb = !convex && !round && n > 3 && r.chance(1, 2); // an upper and a lower chain: simple, but not star shaped
    if (comb) { size_t lo = 1 + r.below(n - 3), up = n - 2 - lo; v.clear(); v.push_back(P2(ox - s, oy)); for (size_t i = 0; i < lo; ++i) v.push_back(P2(ox - s + 2 * s * (i + r.uniform(0.1, 0.9)) / lo, oy - s * ex * r.uniform(0.02, 1.0))); v.push_back(P2(ox + s, oy)); for (size_t i = up; i-- > 0;) v.push_back(P2(ox - s + 2 * s * (i + r.uniform(0.1, 0.9)) / up, oy + s * ex * r.uniform(0.02, 1.0)));
      if (r.chance(1, 2)) { double m = r.uniform(-1.5, 1.5); for (auto & p : v) p[1] += m * (p[0] - ox) + (p[0] - ox) * (p[0] - ox) / s; } vm::count("simple polygons that need not be star shaped"); }
    if (r.chance(1, 6) && n < 40) { std::vector<P2> w; for (size_t i = 0; i < v.size(); ++i) { w.push_back(v[i]); if (r.chance(1, 3)) { if (convex && r.chance(1, 2)) w.push_back(v[i]); else { const P2 & z = v[(i + 1) % v.size()]; w.push_back(P2((v[i][0] + z[0]) / 2, (v[i][1] + z[1]) / 2)); } } } v = w; vm::count("polygons with repeated or collinear vertices"); }
    grow = std::max(1.0, v.size() / 16.0); if (v.size() > 47) vm::count("polygons of more than 47 vertices");
    if (r.chance(1, 2)) std::reverse(v.begin(), v.end());
    Ref f = reference(v, 2); if (!(f.area > 1e-3L * f.ext * f.ext)) continue;
    uint64_t h = v.size(); for (auto & p : v) h = vm::hdbl((double)p[0], vm::hdbl((double)p[1], h)); vm::distinct(h); vm::case_("plane polygon %s", show(v).c_str()); vm::sample_if(v.size() == 3 ? "triangle" : v.size() == 4 ? "quadrilateral" : "polygon", show(v));
    all2(v, f);
    { std::vector<P2> w(v); std::rotate(w.begin(), w.begin() + r.below(w.size()), w.end()); vm::case_("renumbered plane polygon %s", show(w).c_str()); all2(w, f); std::reverse(w.begin(), w.end()); Ref g = reference(w, 2); vm::case_("reversed plane polygon %s", show(w).c_str()); all2(w, g); vm::okn((double)g.n[2], -(double)f.n[2], 1e-12, (double)(f.scale * f.scale), "oracle", "oracle self check"); }
    if (convex && !round) { // the same shape carried into space by a random frame
      double a = r.uniform(0, 6.283), b = r.uniform(0, 3.1416), c = r.uniform(0, 6.283); if (r.chance(1, 6)) { a = 0; b = (double)r.below(3) * M_PI / 2; c = 0; }
      double e1[3] = { cos(a) * cos(c) - sin(a) * cos(b) * sin(c), sin(a) * cos(c) + cos(a) * cos(b) * sin(c), sin(b) * sin(c) }, e2[3] = { -cos(a) * sin(c) - sin(a) * cos(b) * cos(c), -sin(a) * sin(c) + cos(a) * cos(b) * cos(c), sin(b) * cos(c) };
      std::vector<P3> w; for (auto & p : v) { double x = p[0] - ox, y = p[1] - oy; w.push_back(P3(ox + x * e1[0] + y * e2[0], oy + x * e1[1] + y * e2[1], oz + x * e1[2] + y * e2[2])); }
      Ref g = reference(w, 3); vm::case_("space polygon %s", show(w).c_str()); vm::sample_if("space polygon", show(w)); all3(w, g, true); vm::okn((double)g.area, (double)f.area, eps<T>() * grow, (double)(f.scale * f.scale + g.scale * g.scale), "oracle", "oracle self check (rigid motion)");
      std::vector<P3> z(w); std::rotate(z.begin(), z.begin() + r.below(z.size()), z.end()); if (r.chance(1, 2)) std::reverse(z.begin(), z.end()); vm::case_("renumbered space polygon %s", show(z).c_str()); all3(z, reference(z, 3), true);
      for (auto & p : z) p[2] += s * r.uniform(-0.3, 0.3); vm::case_("warped space polygon %s", show(z).c_str()); all3(z, reference(z, 3), z.size() == 3); // only the area vector is defined without a plane
    }
  }
}
int main(int argc, char ** argv) {
  vm::init(argc, argv); run<double>("", vm::n(6000)); run<float>("float ", vm::n(1500)); run<long double>("long double ", vm::n(500));
  return vm::finish();
}
