// C01: what the in-situ support hands to VTK and Catalyst (stand-ins in insitu/)
#include "vmon.h"
#include <chrono>
#include <cmath>
#include <memory>
#include "ristra/io/catalyst/adaptor.h"
#include "ristra/io/catalyst/flecsale_unstructuredGrid.h"
#include "ristra/io/catalyst/vtk/unstructuredGrid.h"
using namespace ristra::io; using Grid = vtkSmartPointer<vtkUnstructuredGrid>;

struct Hush { std::ostringstream os; std::streambuf * old; Hush() : old(std::cout.rdbuf(os.rdbuf())) {} ~Hush() { std::cout.rdbuf(old); } };
// every object made in a scope is gone after it, and none was misused
struct Scope { long live = standin::log().live; std::string what; explicit Scope(const char * w) : what(w) { standin::log().misuse.clear(); }
  ~Scope() { standin::written().clear(); long d = standin::log().live - live; vm::ok(d == 0, what + ":objects", d > 0 ? std::to_string(d) + " VTK objects were never released" : "VTK objects were released too often"); standin::log().live = live; vm::ok(standin::log().misuse.empty(), what + ":misuse", standin::log().misuse.empty() ? "" : standin::log().misuse[0]); } };

static double num(vm::Rng & r) { return r.chance(1, 4) ? (double)r.range(-9, 9) : r.uniform(-1, 1) * std::pow(10., (double)r.range(-8, 8)); }
using P3 = std::array<double, 3>; using Ids = std::vector<vtkIdType>;
static void same_points(vtkUnstructuredGrid * g, const std::vector<P3> & want, const std::string & key) {
  if (!vm::ok((size_t)g->GetNumberOfPoints() == want.size(), key + ":points", "the grid has " + std::to_string(g->GetNumberOfPoints()) + " points instead of " + std::to_string(want.size()))) return;
  for (size_t i = 0; i < want.size(); ++i) { const double * p = g->GetPoints()->GetPoint((vtkIdType)i); for (int k = 0; k < 3; ++k) vm::okn(p[k], want[i][(size_t)k], 1.3e-7, std::fabs(want[i][(size_t)k]) + 1e-35, key + ":point", "coordinate"); }
  vm::count("points_compared", want.size()); }

// ---- fields
template <class T> static T val(vm::Rng & r) { if (std::is_floating_point<T>::value) return (T)num(r); return (T)((long long)r.next() >> r.below(63)); }
struct Field { int place; int comps; size_t n, width; std::vector<std::string> raw; };
using Fields = std::map<std::string, Field>; // key: place and name
template <class T> static Field field(int place, int comps, size_t n, const std::vector<std::vector<T>> & d) { Field f{ place, comps, n, sizeof(T), {} }; for (size_t i = 0; i < n; ++i) for (int c = 0; c < comps; ++c) f.raw.emplace_back((const char *)&d[(size_t)c][i], sizeof(T)); return f; }
static void same_fields(vtkUnstructuredGrid * g, const Fields & m) {
  vtkFieldData * at[3] = { g->GetPointData(), g->GetCellData(), g->GetFieldData() }; int cnt[3] = { 0, 0, 0 };
  for (auto & kv : m) { auto & f = kv.second; cnt[f.place]++; auto * a = at[f.place]->GetArray(kv.first.c_str() + 2); if (!vm::ok(a, "field:missing", "field '" + kv.first.substr(2) + "' is not on the grid")) continue;
    if (!vm::ok(a->GetNumberOfComponents() == f.comps && a->GetNumberOfTuples() == (vtkIdType)f.n && a->GetNumberOfValues() == (vtkIdType)f.n * f.comps && a->width() == f.width, "field:shape", "field '" + kv.first.substr(2) + "' has " + std::to_string(a->GetNumberOfTuples()) + " entries of " + std::to_string(a->GetNumberOfComponents()) + " components")) continue;
    bool ok = true; for (size_t i = 0; i < f.n; ++i) for (int c = 0; c < f.comps; ++c) ok &= !memcmp(a->raw((vtkIdType)i, c), f.raw[i * (size_t)f.comps + (size_t)c].data(), f.width);
    vm::ok(ok, "field:value", "field '" + kv.first.substr(2) + "' has other values than it was given"); vm::count("fields_compared"); }
  for (int p = 0; p < 3; ++p) vm::ok(at[p]->GetNumberOfArrays() == cnt[p], "field:count", "there are fields that nobody added"); }

template <class T> static void add(vm::Rng & r, vtk::UnstructuredGrid * u, Grid & g, Fields & m, std::vector<std::shared_ptr<void>> & keep) {
  static const char * names[] = { "density", "p", "velocity x", "\xcf\x81", "" }; std::string name = names[r.below(5)]; size_t n = r.chance(1, 6) ? 0 : r.chance(1, 60) ? (size_t)r.range(250, r.chance(1, 8) ? 66000 : 1100) : (size_t)r.range(1, 40); int place = (int)r.below(2), form = u ? (int)r.below(9) : (int)r.range(6, 8), comps = 1; if (r.chance(1, 6)) name += std::to_string(r.below(100));
  int form_comps[] = { 1, (int)r.range(1, 4), (int)r.range(1, 9), 3, (int)r.range(1, 9), 1, 1, (int)r.range(1, 4), (int)r.range(1, 9) }; comps = form_comps[form]; if (n < 300 && r.chance(1, 12) && (form == 1 || form == 2 || form == 4 || form > 6)) comps = (int)r.range(5, 40); if (form == 5) { n = 1; place = 2; }
  int disc = place == 0 ? 0 : place == 2 ? 0 : r.chance(3, 4) ? 1 : (int)r.range(2, 5);
  auto d = std::unique_ptr<std::vector<std::vector<T>>>(new std::vector<std::vector<T>>((size_t)comps, std::vector<T>(n))); for (auto & c : *d) for (auto & x : c) x = val<T>(r);
  std::unique_ptr<T[]> flat(new T[n ? n : 1]); std::copy((*d)[0].begin(), (*d)[0].end(), flat.get());
  m[std::to_string(place) + ":" + name] = field<T>(place, comps, n, *d);
  switch (form) {
    case 0: u->addScalarData(name, flat.get(), n, disc); break;
    case 1: u->addVectorData(name, *d, n, disc); break;
    case 2: u->addTensorData(name, *d, n, disc); break;
    case 3: u->addVectorData(name, (int)n, disc, (*d)[0].data(), (*d)[1].data(), (*d)[2].data()); break;
    case 4: { // the array given may become VTK's: it is not touched again
      T * inter = new T[n * (size_t)comps ? n * (size_t)comps : 1]; for (size_t i = 0; i < n; ++i) for (int c = 0; c < comps; ++c) inter[i * (size_t)comps + (size_t)c] = (*d)[(size_t)c][i]; u->addVectorData(name, (int)n, comps, disc, inter); break; }
    case 5: { auto one = std::make_shared<T>((*d)[0][0]); keep.push_back(one); u->addFieldData(name, one.get()); break; }
    case 6: if (disc == 1 && r.chance(1, 2)) catalyst::addScalar(flat.get(), name, g, n); else if (r.chance(1, 2)) catalyst::addScalar(flat.get(), name, g, n, disc); else vtk::setScalarData(name, flat.get(), n, disc, g); break;
    case 7: if (disc == 1 && r.chance(1, 2)) catalyst::addVector(*d, name, g, n); else if (r.chance(1, 2)) catalyst::addVector(*d, name, g, n, disc); else vtk::setVectorData(name, *d, n, disc, g); break;
    default: if (disc == 1 && r.chance(1, 2)) catalyst::addTensor(*d, name, g, n); else if (r.chance(1, 2)) catalyst::addTensor(*d, name, g, n, disc); else vtk::setTensorData(name, *d, n, disc, g); break; }
  for (auto & c : *d) for (auto & x : c) x = T(); if (n) flat[0] = T(); // what was given is the caller's own again
  vm::distinct(vm::hmix(vm::hmix(n, (uint64_t)form), (uint64_t)(comps * 10 + place) * 100 + sizeof(T))); }
static void any_add(vm::Rng & r, vtk::UnstructuredGrid * u, Grid & g, Fields & m, std::vector<std::shared_ptr<void>> & keep) { switch (r.below(5)) { case 0: add<float>(r, u, g, m, keep); break; case 1: add<double>(r, u, g, m, keep); break; case 2: add<int>(r, u, g, m, keep); break; case 3: add<long>(r, u, g, m, keep); break; default: add<long long>(r, u, g, m, keep); } }
static void fields(vm::Rng & r, uint64_t k) {
  vm::case_("field history %llu", (unsigned long long)k); std::vector<std::shared_ptr<void>> keep; Scope s("fields"); Hush h; Fields m; bool own = r.chance(1, 2);
  std::unique_ptr<vtk::UnstructuredGrid> u; Grid g; if (own) { u.reset(r.chance(1, 2) ? new vtk::UnstructuredGrid : new vtk::UnstructuredGrid(0, 1)); g = u->getUGrid(); } else g = Grid::New();
  int n = (int)r.range(1, 25); for (int i = 0; i < n; ++i) { any_add(r, u.get(), g, m, keep); if (r.chance(1, 3)) same_fields(g, m); if (u && r.chance(1, 30)) u.reset(); } // the grid outlives its builder
  same_fields(g, m); }

// ---- points and cells given one by one
static void builder(vm::Rng & r, uint64_t k) {
  vm::case_("grid building history %llu", (unsigned long long)k); Scope s("builder"); Hush h; Grid kept; std::vector<P3> kept_pts; bool have = false;
  { vtk::UnstructuredGrid u; if (r.chance(1, 2)) u.setOutputSerial(); int epochs = (int)r.range(1, 4);
    for (int e = 0; e < epochs; ++e) {
      std::vector<P3> pts; std::vector<Ids> cells; int type = r.chance(1, 2) ? VTK_VERTEX : VTK_POLYGON; int mode = (int)r.below(4), n = r.chance(1, 25) ? (int)r.range(250, 700) : (int)r.below(30);
      auto pt = [&](auto tag) { using T = decltype(tag); std::array<T, 3> p{ { (T)num(r), (T)num(r), (T)num(r) } }; pts.push_back({ { (double)p[0], (double)p[1], (double)p[2] } }); return p; };
      auto fl = [&](auto tag) { using T = decltype(tag);
        if (mode == 0) { for (int i = 0; i < n; ++i) { auto p = pt(tag); u.addPoint(p.data()); cells.push_back({ (vtkIdType)i }); } u.pushPointsToGrid(type); }
        else if (mode == 1) { std::vector<T> flat; for (int i = 0; i < n; ++i) { auto p = pt(tag); flat.insert(flat.end(), p.begin(), p.end()); cells.push_back({ (vtkIdType)i }); } flat.resize(flat.size() + 1); u.setPoints(flat.data(), n, type); }
        else if (mode == 3) { auto ps = vtkSmartPointer<vtkPoints>::New(); auto cs = vtkSmartPointer<vtkCellArray>::New(); for (int i = 0; i < n; ++i) { auto p = pt(tag); ps->InsertNextPoint(p.data()); vtkIdType id[2] = { i, (vtkIdType)r.below((uint64_t)i + 1) }; vtkIdType q = 1 + (vtkIdType)r.below(2); cs->InsertNextCell(q, id); cells.push_back(Ids(id, id + q)); } u.setPoints(ps, cs, type); }
        else { int i = 0; while (i < n) switch (r.below(3)) { case 0: { auto p = pt(tag); u.insertNextPoint(p.data()); ++i; break; } case 1: { auto p = pt(tag); u.insertNextPoint(p[0], p[1], p[2]); ++i; break; } default: { int q = (int)r.below(6); std::vector<T> flat; for (int j = 0; j < q; ++j) { auto p = pt(tag); flat.insert(flat.end(), p.begin(), p.end()); } flat.resize(flat.size() + 1); u.insertNextPoints(flat.data(), q); i += q ? q : 1; } }
          int nc = pts.empty() ? 0 : (int)r.below(12); std::vector<int> all; for (int c = 0; c < nc; ++c) { Ids ids; int q = r.chance(1, 40) ? (int)r.range(120, 600) : (int)r.range(1, 9); for (int j = 0; j < q; ++j) ids.push_back((vtkIdType)r.below(pts.size())); cells.push_back(ids); if (r.chance(1, 2)) u.insertNextCell(ids); else u.insertNextCell(std::vector<int>(ids.begin(), ids.end())); }
          u.setPointIDs(all); u.pushPointsToGrid(type); } };
      if (r.chance(1, 2)) fl(float()); else fl(double());
      auto g = u.getUGrid(); vm::ok(g.Get() == dynamic_cast<vtkUnstructuredGrid *>(u.getGrid().Get()), "builder:grid", "the two ways to get the grid disagree"); same_points(g, pts, "builder"); auto got = g->all();
      if (vm::ok(got.size() == cells.size(), "builder:cells", "the grid has " + std::to_string(got.size()) + " cells instead of " + std::to_string(cells.size()))) for (size_t i = 0; i < cells.size(); ++i) vm::ok(got[i].ids == cells[i] && got[i].type == type, "builder:cell", "cell " + std::to_string(i) + " is not the one described");
      vm::count("grids_built"); vm::count("cells_compared", cells.size()); vm::distinct(vm::hmix(vm::hmix(k, (uint64_t)mode), pts.size() * 100 + cells.size()));
      if (e + 1 < epochs) { if (r.chance(1, 3)) { kept = g; have = true; } u.reset(); } else if (r.chance(1, 2)) { kept = g; kept_pts = pts; have = true; if (r.chance(1, 2)) { u.reset(); } same_points(kept, pts, "builder:reset"); } }
    if (r.chance(1, 3)) u.reset(); }
  if (have && !kept_pts.empty()) same_points(kept, kept_pts, "builder:outlived"); }

// ---- a mesh
using Mesh = flecsi_sp::burton::burton_mesh_t;
static Mesh make(vm::Rng & r, std::vector<P3> & centre) {
  Mesh m; size_t n[3] = { (size_t)r.range(1, 4), (size_t)r.range(1, 4), DIM == 3 ? (size_t)r.range(1, 3) : 0 }; size_t nv = (n[0] + 1) * (n[1] + 1) * (n[2] + 1), nc = n[0] * n[1] * (DIM == 3 ? n[2] : 1);
  auto perm = [&](size_t k) { std::vector<size_t> p(k); for (size_t i = 0; i < k; ++i) p[i] = i; for (size_t i = k; i > 1; --i) std::swap(p[i - 1], p[r.below(i)]); return p; };
  auto pv = perm(nv), pc = perm(nc); auto V = [&](size_t i, size_t j, size_t k) { return pv[i + (n[0] + 1) * (j + (n[1] + 1) * k)]; }; m.v_.resize(nv); double s = std::pow(10., (double)r.range(-6, 6)), sh = r.chance(1, 2) ? 0 : num(r);
  for (size_t i = 0; i <= n[0]; ++i) for (size_t j = 0; j <= n[1]; ++j) for (size_t k = 0; k <= n[2]; ++k) { double x[3] = { (double)i, (double)j, (double)k }; for (int c = 0; c < DIM; ++c) m.v_[V(i, j, k)].x[(size_t)c] = s * (x[c] + r.uniform(-.2, .2)) + sh; }
  m.cv_.resize(nc); m.cf_.resize(nc); m.ghost_.resize(nc); centre.resize(nc); int gk = (int)r.below(4); for (auto & g : m.ghost_) g = gk == 0 ? 0 : gk == 1 ? 1 : r.chance(1, 3);
  std::map<std::vector<size_t>, size_t> known;
  for (size_t i = 0; i < n[0]; ++i) for (size_t j = 0; j < n[1]; ++j) for (size_t k = 0; k < (DIM == 3 ? n[2] : 1); ++k) {
    size_t c = pc[i + n[0] * (j + n[1] * k)]; std::vector<std::vector<size_t>> fs; // outward faces
#if DIM == 3
    size_t q[8] = { V(i, j, k), V(i + 1, j, k), V(i + 1, j + 1, k), V(i, j + 1, k), V(i, j, k + 1), V(i + 1, j, k + 1), V(i + 1, j + 1, k + 1), V(i, j + 1, k + 1) }; int f[6][4] = { { 0, 3, 2, 1 }, { 4, 5, 6, 7 }, { 0, 1, 5, 4 }, { 1, 2, 6, 5 }, { 2, 3, 7, 6 }, { 3, 0, 4, 7 } };
    m.cv_[c].assign(q, q + 8); for (auto & a : f) fs.push_back({ q[a[0]], q[a[1]], q[a[2]], q[a[3]] });
    if (r.chance(1, 3)) for (auto & a : fs) if (r.chance(1, 2)) std::rotate(a.begin(), a.begin() + (long)r.below(4), a.end());
#else
    size_t q[4] = { V(i, j, 0), V(i + 1, j, 0), V(i + 1, j + 1, 0), V(i, j + 1, 0) }; m.cv_[c].assign(q, q + 4); for (int e = 0; e < 4; ++e) fs.push_back({ q[e], q[(e + 1) % 4] });
#endif
    for (auto & a : fs) { auto key = a; std::sort(key.begin(), key.end()); auto it = known.find(key); if (it == known.end()) { size_t id = m.fv_.size(); known[key] = id; m.fv_.push_back(a); m.fc_.push_back({ c }); m.cf_[c].push_back(id); }
      else { size_t id = it->second; if (r.chance(1, 2)) { m.fv_[id] = a; m.fc_[id].insert(m.fc_[id].begin(), c); } else m.fc_[id].push_back(c); m.cf_[c].push_back(id); } } }
  return m; }
// cells with any number of sides: a column of prisms over a polygon, or polygons in a row
static Mesh sides(vm::Rng & r) {
  Mesh m; size_t q = r.chance(1, 10) ? (size_t)r.range(100, 300) : (size_t)r.range(3, 12), nc = (size_t)r.range(1, 4); size_t nv = DIM == 3 ? q * (nc + 1) : 2 + nc * (q - 2); m.v_.resize(nv);
  std::vector<size_t> pv(nv), pc(nc); for (size_t i = 0; i < nv; ++i) pv[i] = i; for (size_t i = nv; i > 1; --i) std::swap(pv[i - 1], pv[r.below(i)]); for (size_t i = 0; i < nc; ++i) pc[i] = i; for (size_t i = nc; i > 1; --i) std::swap(pc[i - 1], pc[r.below(i)]);
  for (auto & v : m.v_) for (int c = 0; c < DIM; ++c) v.x[(size_t)c] = num(r); m.cv_.resize(nc); m.cf_.resize(nc); m.ghost_.resize(nc); for (auto & g : m.ghost_) g = r.chance(1, 4); std::map<std::vector<size_t>, size_t> known;
  for (size_t k = 0; k < nc; ++k) { size_t c = pc[k]; std::vector<std::vector<size_t>> fs;
#if DIM == 3
    auto V = [&](size_t i, size_t l) { return pv[(i % q) + q * (k + l)]; }; std::vector<size_t> bottom, top; for (size_t i = 0; i < q; ++i) { bottom.push_back(V(q - 1 - i, 0)); top.push_back(V(i, 1)); fs.push_back({ V(i, 0), V(i + 1, 0), V(i + 1, 1), V(i, 1) }); } fs.push_back(bottom); fs.push_back(top); m.cv_[c] = bottom; m.cv_[c].insert(m.cv_[c].end(), top.begin(), top.end());
#else
    std::vector<size_t> poly; if (k == 0) for (size_t i = 0; i < q; ++i) poly.push_back(pv[i]); else { size_t b = 2 + k * (q - 2); poly.push_back(pv[b - 1]); poly.push_back(pv[b - 2]); for (size_t i = 0; i < q - 2; ++i) poly.push_back(pv[b + i]); } m.cv_[c] = poly; for (size_t i = 0; i < q; ++i) fs.push_back({ poly[i], poly[(i + 1) % q] });
#endif
    for (auto & a : fs) { auto key = a; std::sort(key.begin(), key.end()); auto it = known.find(key); if (it == known.end()) { size_t id = m.fv_.size(); known[key] = id; m.fv_.push_back(a); m.fc_.push_back({ c }); m.cf_[c].push_back(id); }
      else { size_t id = it->second; if (r.chance(1, 2)) { m.fv_[id] = a; m.fc_[id].insert(m.fc_[id].begin(), c); } else m.fc_[id].push_back(c); m.cf_[c].push_back(id); } } }
  return m; }
static bool cyclic(std::vector<size_t> a, const Ids & b) { if (a.size() != b.size()) return false; for (size_t s = 0; s < a.size(); ++s) { bool eq = true; for (size_t i = 0; i < a.size(); ++i) eq &= (vtkIdType)a[(i + s) % a.size()] == b[i]; if (eq) return true; } return a.empty(); }
static void mesh(vm::Rng & r, uint64_t k) {
  std::vector<P3> cen; bool grid = r.chance(2, 3); Mesh m = grid ? make(r, cen) : sides(r); vm::count(grid ? "meshes_of_boxes" : "meshes_of_many_sides"); vm::case_("%d-dimensional mesh %llu of %zu vertices and %zu cells", DIM, (unsigned long long)k, m.v_.size(), m.cv_.size()); Scope s("mesh"); Hush h; Grid g; bool whole = r.chance(1, 2); Mesh before = m;
  if (whole) g = catalyst::createMesh(m); else { if (r.chance(1, 2)) g = Grid::New(); else { catalyst::initVTKUnstructuredGrid(g); if (!vm::ok(g.Get() != nullptr, "mesh:init", "no grid was made")) return; } if (r.chance(1, 2)) { catalyst::writePointsToGrid(m, g); catalyst::writeCellsToGrid(m, g); } else { catalyst::writeCellsToGrid(m, g); catalyst::writePointsToGrid(m, g); } }
  std::vector<P3> pts; for (auto & v : m.v_) { P3 p{ { 0, 0, 0 } }; for (int c = 0; c < DIM; ++c) p[(size_t)c] = v.x[(size_t)c]; pts.push_back(p); } same_points(g, pts, "mesh");
  auto got = g->all(); size_t at = 0, ghosts = 0;
  for (size_t c = 0; c < m.cv_.size(); ++c) { if (whole && m.ghost_[c]) { ++ghosts; continue; } if (at >= got.size()) { ++at; continue; } auto & x = got[at++]; Ids ids(m.cv_[c].begin(), m.cv_[c].end());
    vm::ok(x.type == VTK_POLYHEDRON && x.ids == ids, "mesh:cell", "a cell of the grid does not have the vertices of its mesh cell");
    if (vm::ok(x.faces.size() == m.cf_[c].size(), "mesh:faces", "a cell of the grid has the wrong number of faces")) for (size_t f = 0; f < x.faces.size(); ++f) { auto fv = m.fv_[m.cf_[c][f]]; if (m.fc_[m.cf_[c][f]][0] != c) std::reverse(fv.begin(), fv.end());
      vm::ok(DIM == 3 ? cyclic(fv, x.faces[f]) : Ids(fv.begin(), fv.end()) == x.faces[f], "mesh:face", "a face of a cell is not the mesh's, seen from outside that cell"); } vm::count("mesh_cells_compared"); }
  vm::ok(at == got.size(), "mesh:cells", "the grid has " + std::to_string(got.size()) + " cells, the mesh " + std::to_string(at)); vm::count("ghost_cells_left_out", ghosts); bool same = m.cv_ == before.cv_ && m.fv_ == before.fv_ && m.cf_ == before.cf_; for (size_t i = 0; i < m.v_.size(); ++i) same &= m.v_[i].x == before.v_[i].x; vm::ok(same, "mesh:changed", "the mesh was changed");
  Fields fm; std::vector<std::shared_ptr<void>> keep; for (int i = 0, n = (int)r.below(4); i < n; ++i) any_add(r, nullptr, g, fm, keep); same_fields(g, fm); vm::distinct(vm::hmix(k, m.v_.size() * 1000 + m.cv_.size())); }

// ---- writing
static void writing(vm::Rng & r, uint64_t k) {
  vm::case_("writing history %llu", (unsigned long long)k); Scope s("writing"); Hush h; vtk::UnstructuredGrid u; bool serial = false; auto & w = standin::written(); int n = (int)r.range(1, 8); Grid other = Grid::New(); double p[3] = { 1, 2, 3 }; u.addPoint(p); u.pushPointsToGrid(VTK_VERTEX);
  for (int i = 0; i < n; ++i) { w.clear(); std::string f = "f" + std::to_string(r.below(100)) + (r.chance(1, 3) ? ".x" : "") , ext; int pieces = (int)r.range(1, 6), st = (int)r.below((uint64_t)pieces), en = (int)r.range(st, pieces - 1); bool par = false, pieced = false; Grid want = u.getUGrid();
    switch (r.below(6)) { case 0: u.write(f); break; case 1: par = r.chance(1, 2); u.write(f, par); break; case 2: u.writeParts(pieces, st, en, f); par = !serial; pieced = par; break; case 3: u.setOutputSerial(); serial = true; continue;
      case 4: vtk::writeUnstructuredGrid(f, other, pieces, st, en); want = other; par = pieces > 1; pieced = par; break;
      default: { catalyst::outputVTKUnstructredGrid(f, other); if (vm::ok(w.size() == 1, "write:count", "the grid was not written once")) vm::ok(w[0].file == f && w[0].grid.Get() == other.Get(), "write:legacy", "the wrong grid or file was written"); continue; } }
    if (!vm::ok(w.size() == 1, "write:count", "the grid was written " + std::to_string(w.size()) + " times")) continue; auto & x = w[0];
    vm::ok(x.file == f + (par ? ".pvtu" : ".vtu"), "write:file", "written to '" + x.file + "'"); vm::ok(x.grid.Get() == want.Get(), "write:grid", "another grid was written"); vm::ok((x.by == "vtkXMLPUnstructuredGridWriter") == par, "write:writer", "the wrong kind of file was written"); if (par) vm::ok(x.controller == 1, "write:controller", "a parallel file was written without a controller");
    if (pieced) vm::ok(x.pieces == pieces && x.start == st && x.end == en, "write:pieces", "the pieces written are not those asked for"); vm::count("grids_written"); vm::distinct(vm::hmix(k, vm::hstr(x.file) + (uint64_t)i)); }
  std::string c(r.below(200), 'x'); for (auto & ch : c) ch = (char)r.next(); catalyst::outputFile("vmon-out.txt", c); std::ifstream f("vmon-out.txt", std::ios::binary); std::ostringstream o; o << f.rdbuf(); vm::ok(o.str() == c, "write:text", "the file does not hold the text"); unlink("vmon-out.txt"); }

// ---- co-processing
static void coprocess(vm::Rng & r, uint64_t k) {
  std::vector<std::string> sc; for (int i = 0, n = (int)r.below(5); i < n; ++i) sc.push_back("s" + std::to_string(r.below(100)) + ".py"); bool cls = r.chance(1, 2); int every = (int)r.range(1, 6); double tmin = r.uniform(0, 3); vm::case_("run %llu: %zu scripts, %s, data every %d steps", (unsigned long long)k, sc.size(), cls ? "adaptor_t" : "functions", every);
  standin::policy() = [=](double t, long long s) { return s % every == 0 && t >= tmin; }; Scope s("run"); Hush h; int steps = (int)r.range(0, 25); long alive;
  struct Want { double t; unsigned s; bool last; vtkUnstructuredGrid * g; }; std::vector<Want> want; std::vector<Grid> grids{ Grid::New(), Grid::New() }; std::unique_ptr<catalyst::adaptor_t> a; vtkCPProcessor * p = nullptr; alive = standin::log().live;
  if (cls) a.reset(new catalyst::adaptor_t(sc)); else { p = catalyst::initAdaptor(sc); vm::ok(p != nullptr, "run:processor", "no processor"); }
  auto & run = standin::run(); vm::ok(run.initialized && run.scripts == sc, "run:scripts", "the pipelines are not the scripts named, in order"); double t = 0; unsigned st = r.chance(1, 8) ? 4294967000u : (unsigned)r.below(10);
  for (int i = 0; i < steps; ++i) { bool last = i + 1 == steps || r.chance(1, 20); auto * g = grids[r.below(2)].Get(); want.push_back({ t, st, last, g }); size_t done = run.done.size();
    if (cls) a->process(g, t, st, last); else catalyst::processCatalyst(p, g, t, st, last);
    if (vm::ok(run.asked.size() == (size_t)i + 1, "run:asked", "the processor was not asked once per step")) { auto & q = run.asked.back(); vm::ok(q.timed && q.time == t && q.step == (long long)st, "run:time", "the processor was told another time or step"); if (last) vm::ok(q.force, "run:last", "output is not forced on the last step"); else if (cls) vm::ok(!q.force, "run:forced", "output is forced before the last step");
      bool due = q.force || standin::policy()(t, st); vm::ok(run.done.size() == done + (due ? 1 : 0), "run:done", due ? "data was wanted but not processed" : "data was processed though it was not wanted"); if (run.done.size() == done + 1) { auto & d = run.done.back(); vm::ok(d.grid == g && d.time == t && d.step == (long long)st, "run:data", "other data than this step's was processed"); vm::count("steps_processed"); } }
    vm::count("steps"); t += r.uniform(0, 1); st += (unsigned)r.range(1, 3); }
  int dead = run.dead; if (cls) a.reset(); else if (r.chance(5, 6) || !p) { auto * q = catalyst::finalizeAdaptor(p); vm::ok(q == nullptr, "run:finalized", "finalizing hands back a dead processor"); } else { p->Delete(); catalyst::finalizeAdaptor(nullptr); }
  vm::ok(standin::run().dead == dead + 1, "run:dead", "the processor was not released exactly once"); vm::ok(standin::log().live == alive, "run:left", "objects of the run are left"); vm::distinct(vm::hmix(vm::hmix(k, (uint64_t)steps), sc.size() * 10 + (uint64_t)every)); }

int main(int argc, char ** argv) {
  vm::init(argc, argv);
  struct S { const char * n; uint64_t base; void (*f)(vm::Rng &, uint64_t); } s[] = { { "fields", 400, fields }, { "builder", 800, builder }, { "mesh", 250, mesh }, { "writing", 300, writing }, { "coprocess", 300, coprocess } };
  for (auto & x : s) if (vm::section(x.n)) { auto r = vm::rng(x.n); for (uint64_t k = 0; k < vm::n(x.base); ++k) x.f(r, k); }
  return vm::finish();
}
