// G02: volumes and centroids of solids.  Oracle: long double signed tetrahedra
// over the faces split about their vertex mean (exact for planar faces and for
// the bilinear faces of a hexahedron), cross checked with Gauss integration of
// the trilinear map.
#include <cassert>
#include <cstddef>
#include <iterator>
#include <sstream>
#include <vector>
#include <array>
#include <list>
#include <algorithm>
#include <limits>
#include "vmon.h"
#include "ristra/geometry/point.h"
#include "ristra/assertions/errors.h"
#include "ristra/geometry/shapes/tetrahedron.h"
#include "ristra/geometry/shapes/hexahedron.h"
#include "ristra/geometry/shapes/polyhedron.h"
using ld = long double; namespace sh = ristra::geometry::shapes; static std::string pre;
template <class T> constexpr double eps() { return std::max((double)std::numeric_limits<T>::epsilon() * 4500, 1e-14); } // 1e-12 for double
template <class V> std::string show(const V & v) { std::ostringstream o; o.precision(17); for (auto & p : v) o << p << " "; return o.str(); }
struct Ref { ld vol = 0, cx[3] = { 0, 0, 0 }, scale = 0, ext = 0; };
template <class P> Ref reference(const std::vector<std::vector<P>> & faces) {
  Ref r; ld o[3] = { 0, 0, 0 }; size_t c = 0; for (auto & f : faces) for (auto & p : f) { ++c; for (int d = 0; d < 3; ++d) { o[d] += p[d]; r.scale = std::max(r.scale, fabsl((ld)p[d])); } } for (auto & x : o) x /= c;
  for (auto & f : faces) for (auto & p : f) for (int d = 0; d < 3; ++d) r.ext = std::max(r.ext, fabsl((ld)p[d] - o[d]));
  for (auto & f : faces) { ld m[3] = { 0, 0, 0 }; for (auto & p : f) for (int d = 0; d < 3; ++d) m[d] += ((ld)p[d] - o[d]) / f.size();
    for (size_t i = 0; i < f.size(); ++i) { ld a[3], b[3]; for (int d = 0; d < 3; ++d) { a[d] = (ld)f[i][d] - o[d]; b[d] = (ld)f[(i + 1) % f.size()][d] - o[d]; }
      ld v = (m[0] * (a[1] * b[2] - a[2] * b[1]) + m[1] * (a[2] * b[0] - a[0] * b[2]) + m[2] * (a[0] * b[1] - a[1] * b[0])) / 6; r.vol += v; for (int d = 0; d < 3; ++d) r.cx[d] += v * (a[d] + b[d] + m[d]) / 4; } }
  for (int d = 0; d < 3; ++d) r.cx[d] = o[d] + r.cx[d] / r.vol; r.vol = fabsl(r.vol); return r;
}
template <class T> void vol(const std::string & k, T got, const Ref & r) { vm::okn((double)got, (double)r.vol, eps<T>(), (double)(r.vol + r.scale * r.scale * r.scale), pre + k, "volume"); vm::count("volumes"); }
template <class Q> void cent(const std::string & k, const Q & got, const Ref & r) { ld s = r.scale + r.scale * r.scale * r.scale * r.scale / r.vol; for (int d = 0; d < 3; ++d) vm::okn((double)got[d], (double)r.cx[d], eps<typename Q::value_type>(), (double)s, pre + k, "centroid coordinate"); vm::count("centroids"); }
struct Frame { ld m[3][3], t[3]; };
static Frame frame(vm::Rng & r, bool single) { Frame f; for (;;) { double s = std::pow(10.0, r.chance(1, 3) ? (double)(single ? r.range(-4, 4) : r.range(-20, 20)) : (double)r.range(-1, 1)); bool axis = r.chance(1, 5), far = r.chance(1, 10); for (int i = 0; i < 3; ++i) { f.t[i] = r.chance(1, 4) ? 0 : s * r.uniform(-3, 3) * (far ? 20 : 1); for (int j = 0; j < 3; ++j) f.m[i][j] = axis ? (i == j ? s * r.uniform(0.5, 2) : 0) : s * r.uniform(-1, 1); }
    ld det = f.m[0][0] * (f.m[1][1] * f.m[2][2] - f.m[1][2] * f.m[2][1]) - f.m[0][1] * (f.m[1][0] * f.m[2][2] - f.m[1][2] * f.m[2][0]) + f.m[0][2] * (f.m[1][0] * f.m[2][1] - f.m[1][1] * f.m[2][0]); if (fabsl(det) > 0.15 * s * s * s) return f; } }
template <class P> P map(const Frame & f, ld x, ld y, ld z) { P p; for (int i = 0; i < 3; ++i) p[i] = (typename P::value_type)(f.t[i] + f.m[i][0] * x + f.m[i][1] * y + f.m[i][2] * z); return p; }

template <class P> void poly(const std::vector<std::vector<P>> & faces, vm::Rng & r, const char * kind) {
  std::vector<std::vector<P>> fs(faces); for (auto & f : fs) std::rotate(f.begin(), f.begin() + r.below(f.size()), f.end()); for (size_t i = fs.size(); i-- > 1;) std::swap(fs[i], fs[r.below(i + 1)]);
  Ref ref = reference(fs); bool flip = r.chance(1, 3); if (flip) for (auto & f : fs) std::reverse(f.begin(), f.end()); // orientation of the whole surface is the caller's choice
  std::string d; uint64_t h = fs.size(); for (auto & f : fs) { d += "{" + show(f) + "} "; for (auto & p : f) h = vm::hdbl((double)p[0], vm::hdbl((double)p[1], vm::hdbl((double)p[2], h))); } vm::distinct(h); vm::case_s(std::string(kind) + " " + d); vm::sample_if(kind, d);
  sh::polyhedron<P> s; ld m[3] = { 0, 0, 0 };
  for (auto & f : fs) { ld q[3] = { 0, 0, 0 }; for (auto & p : f) for (int e = 0; e < 3; ++e) q[e] += (ld)p[e] / f.size(); for (int e = 0; e < 3; ++e) m[e] += q[e] / fs.size();
    switch (r.below(4)) { case 0: s.insert(f.begin(), f.end()); break; case 1: { std::list<P> l(f.begin(), f.end()); s.insert(l.begin(), l.end()); break; }
      case 2: if (f.size() == 3) { s.insert({ f[0], f[1], f[2] }); break; } if (f.size() == 4) { s.insert({ f[0], f[1], f[2], f[3] }); break; } /* fall through */
      default: { std::vector<P> own(f); s.insert(ristra::utils::array_ref<P>(own)); for (auto & p : own) p = P(7, 7, 7); break; } } } // the solid keeps its own copy
  const auto & cs = s; std::string k = kind;
  vol(k + ":volume", cs.volume(), ref); cent(k + ":centroid", cs.centroid(), ref); auto mp = cs.midpoint(); for (int e = 0; e < 3; ++e) vm::okn((double)mp[e], (double)m[e], eps<typename P::value_type>() * 0.1, (double)ref.scale, pre + k + ":midpoint", "mean of the face midpoints");
  vol(k + ":volume", cs.volume(), ref); sh::polyhedron<P> copy(s); vol(k + ":volume copy", copy.volume(), ref);
}
// the trilinear map of these corners keeps a safely positive Jacobian, so they bound a proper solid
static bool unfolded(const ld (&u)[8][3], const int (&c)[8][3]) {
  for (int k = 0; k < 125; ++k) { ld X[3] = { k % 5 / 4.0L, k / 5 % 5 / 4.0L, k / 25 / 4.0L }, J[3][3] = {}; for (int i = 0; i < 8; ++i) { ld s[3], e[3]; for (int d = 0; d < 3; ++d) { s[d] = c[i][d] ? X[d] : 1 - X[d]; e[d] = c[i][d] ? 1 : -1; } ld g[3] = { e[0] * s[1] * s[2], s[0] * e[1] * s[2], s[0] * s[1] * e[2] }; for (int d = 0; d < 3; ++d) for (int z = 0; z < 3; ++z) J[d][z] += g[d] * u[i][z]; }
    if (!(J[0][0] * (J[1][1] * J[2][2] - J[1][2] * J[2][1]) - J[0][1] * (J[1][0] * J[2][2] - J[1][2] * J[2][0]) + J[0][2] * (J[1][0] * J[2][1] - J[1][1] * J[2][0]) > 0.02L)) return false; }
  return true;
}
template <class T> void run(const char * nm, uint64_t N) {
  pre = nm; vm::Rng r = vm::rng((std::string("solids") + nm).c_str()); using P = ristra::geometry::point<T, 3>; constexpr bool single = std::is_same<T, float>::value;
  for (uint64_t k = 0; k < N; ++k) {
    Frame f = frame(r, single);
    { // tetrahedra
      std::vector<P> t; for (int i = 0; i < 4; ++i) t.push_back(map<P>(f, r.uniform(-1, 1), r.uniform(-1, 1), r.uniform(-1, 1))); if (r.chance(1, 5)) { t[0] = map<P>(f, 0, 0, 0); t[1] = map<P>(f, 1, 0, 0); t[2] = map<P>(f, 0, 1, 0); t[3] = map<P>(f, 0, 0, 1); }
      std::vector<std::vector<P>> fs = { { t[0], t[2], t[1] }, { t[0], t[1], t[3] }, { t[1], t[2], t[3] }, { t[2], t[0], t[3] } }; Ref ref = reference(fs); uint64_t h = 4; for (auto & p : t) h = vm::hdbl((double)p[0], vm::hdbl((double)p[1], vm::hdbl((double)p[2], h))); vm::distinct(h); vm::case_("tetrahedron %s", show(t).c_str()); vm::sample_if("tetrahedron", show(t));
      vol("tetrahedron:volume", sh::tetrahedron::volume(t[0], t[1], t[2], t[3]), ref); int p[4] = { 0, 1, 2, 3 }; std::swap(p[r.below(4)], p[r.below(4)]); vol("tetrahedron:volume", sh::tetrahedron::volume(t[p[0]], t[p[1]], t[p[2]], t[p[3]]), ref);
      auto c = sh::tetrahedron::centroid(t[0], t[1], t[2], t[3]); auto m = sh::tetrahedron::midpoint(t[0], t[1], t[2], t[3]); for (int d = 0; d < 3; ++d) { double w = (double)(((ld)t[0][d] + t[1][d] + t[2][d] + t[3][d]) / 4); vm::okn((double)c[d], (double)(w), eps<T>() * 0.1, (double)ref.scale, pre + "tetrahedron:centroid", "centroid coordinate"); vm::okn((double)m[d], (double)(w), eps<T>() * 0.1, (double)ref.scale, pre + "tetrahedron:midpoint", "mean of the vertices"); }
      if (ref.vol > 1e-3L * ref.ext * ref.ext * ref.ext) poly(fs, r, "polyhedron4");
    }
    { // hexahedra: affine images of the cube, optionally with moderately moved corners
      double w = r.chance(1, 4) ? 0 : r.chance(1, 2) ? r.uniform(0, 0.16) : r.uniform(0.16, 0.6); static const int c[8][3] = { { 0, 0, 0 }, { 1, 0, 0 }, { 1, 1, 0 }, { 0, 1, 0 }, { 0, 0, 1 }, { 1, 0, 1 }, { 1, 1, 1 }, { 0, 1, 1 } }; ld u[8][3]; for (int t = 0;; ++t) { for (int i = 0; i < 8; ++i) for (int d = 0; d < 3; ++d) u[i][d] = c[i][d] + w * r.uniform(-1, 1); if (w < 0.17 || unfolded(u, c)) break; if (t > 200) w = 0.1; }
      if (w >= 0.17) vm::count("strongly warped hexahedra"); std::vector<P> q; for (auto & x : u) q.push_back(map<P>(f, x[0], x[1], x[2]));
      if (r.chance(1, 3)) { std::vector<P> z(q); const int s[8] = { 1, 2, 3, 0, 5, 6, 7, 4 }; for (int i = 0; i < 8; ++i) z[i] = q[s[i]]; q = z; } if (r.chance(1, 4)) { std::vector<P> z(q); const int s[8] = { 0, 3, 7, 4, 1, 2, 6, 5 }; for (int i = 0; i < 8; ++i) z[i] = q[s[i]]; q = z; }
      std::vector<std::vector<P>> fs = { { q[0], q[3], q[2], q[1] }, { q[4], q[5], q[6], q[7] }, { q[0], q[1], q[5], q[4] }, { q[1], q[2], q[6], q[5] }, { q[2], q[3], q[7], q[6] }, { q[3], q[0], q[4], q[7] } }; Ref ref = reference(fs); uint64_t h = 8; for (auto & p : q) h = vm::hdbl((double)p[0], vm::hdbl((double)p[1], vm::hdbl((double)p[2], h))); vm::distinct(h); vm::case_("hexahedron %s", show(q).c_str()); vm::sample_if("hexahedron", show(q));
      // the trilinear map's own integral must agree with the oracle
      ld in = 0; for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) for (int e = 0; e < 2; ++e) { ld g = 1 / sqrtl(3), x[3] = { (1 + (a ? g : -g)) / 2, (1 + (b ? g : -g)) / 2, (1 + (e ? g : -g)) / 2 }, J[3][3] = {}; for (int i = 0; i < 8; ++i) { ld s[3], ds[3]; for (int d = 0; d < 3; ++d) { s[d] = c[i][d] ? x[d] : 1 - x[d]; ds[d] = c[i][d] ? 1 : -1; } ld gr[3] = { ds[0] * s[1] * s[2], s[0] * ds[1] * s[2], s[0] * s[1] * ds[2] }; for (int d = 0; d < 3; ++d) for (int z = 0; z < 3; ++z) J[d][z] += gr[d] * q[i][z]; } in += (J[0][0] * (J[1][1] * J[2][2] - J[1][2] * J[2][1]) - J[0][1] * (J[1][0] * J[2][2] - J[1][2] * J[2][0]) + J[0][2] * (J[1][0] * J[2][1] - J[1][1] * J[2][0])) / 8; }
      vm::okn((double)ref.vol, (double)fabsl(in), eps<T>(), (double)(ref.vol + ref.scale * ref.scale * ref.scale), "oracle", "oracle self check (trilinear volume)");
      vol("hexahedron:volume", sh::hexahedron::volume(q[0], q[1], q[2], q[3], q[4], q[5], q[6], q[7]), ref); cent("hexahedron:centroid", sh::hexahedron::centroid(q[0], q[1], q[2], q[3], q[4], q[5], q[6], q[7]), ref); auto m = sh::hexahedron::midpoint(q[0], q[1], q[2], q[3], q[4], q[5], q[6], q[7]); for (int d = 0; d < 3; ++d) { ld s = 0; for (auto & p : q) s += p[d]; vm::okn((double)m[d], (double)((double)(s / 8)), eps<T>() * 0.1, (double)ref.scale, pre + "hexahedron:midpoint", "mean of the vertices"); }
      auto pm = sh::polyhedron<P>::midpoint(q); for (int d = 0; d < 3; ++d) vm::okn((double)pm[d], (double)(m[d]), eps<T>() * 0.1, (double)ref.scale, pre + "polyhedron:vertex mean", "mean of the vertices");
      poly(fs, r, "polyhedron6");
    }
    { // prisms and pyramids over random convex bases
      size_t n = 3 + r.below(r.chance(1, 20) ? 60 : 8); std::vector<double> a(n); double t = 0; std::vector<double> w(n); for (auto & x : w) { x = 0.4 + r.unit(); t += x; } double b = r.uniform(0, 6.28); for (size_t i = 0; i < n; ++i) { a[i] = b; b += 2 * M_PI * w[i] / t; } bool ok = true; for (double x : w) ok = ok && x / t < 0.45; if (!ok) continue;
      std::vector<double> rad(n, 1.0); const bool dent = r.chance(1, 3); if (dent) for (auto & x : rad) x = r.uniform(0.35, 1.4); // a dented base: the solid is not convex
      double top = r.chance(1, 2) ? 1 : r.uniform(0.3, 1.5), h1 = r.uniform(0.5, 2); std::vector<P> lo, hi; for (size_t i = 0; i < n; ++i) { double x = a[i], g = rad[i]; lo.push_back(map<P>(f, g * cos(x), g * sin(x), 0)); hi.push_back(map<P>(f, top * g * cos(x), top * g * sin(x), h1)); } if (dent) vm::count("solids that need not be convex");
      std::vector<std::vector<P>> fs; std::vector<P> bt(lo.rbegin(), lo.rend()); fs.push_back(bt);
      if (r.chance(1, 2)) { fs.push_back(hi); for (size_t i = 0; i < n; ++i) fs.push_back({ lo[i], lo[(i + 1) % n], hi[(i + 1) % n], hi[i] }); poly(fs, r, "frustum"); }
      else { P apex = map<P>(f, r.uniform(-1, 1), r.uniform(-1, 1), h1); for (size_t i = 0; i < n; ++i) fs.push_back({ lo[i], lo[(i + 1) % n], apex }); poly(fs, r, "pyramid"); }
    }
  }
}
int main(int argc, char ** argv) {
  vm::init(argc, argv); run<double>("", vm::n(6000)); run<float>("float ", vm::n(1200)); run<long double>("long double ", vm::n(500));
  return vm::finish();
}
