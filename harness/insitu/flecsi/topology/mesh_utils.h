// Stand-in for the flecsi mesh that ristra/io/catalyst reads: a block of boxes (or
// rectangles) with shared faces, renumbered, each face owned by one of its cells.
#pragma once
#include <array>
#include <cstddef>
#include <vector>
#ifndef DIM
#define DIM 3
#endif
namespace flecsi { enum partition_t { all, owned, exclusive, shared, ghost }; }
namespace flecsi_sp { namespace burton {
struct burton_mesh_t {
  static constexpr std::size_t num_dimensions = DIM;
  using real_t = double; using vector_t = std::array<double, DIM>;
  struct vertex { vector_t x; const vector_t & coordinates() const { return x; } vector_t & coordinates() { return x; } };
  template <int K> struct entity { burton_mesh_t * m = nullptr; std::size_t i = 0; std::size_t id() const { return i; } operator std::size_t() const { return i; } vertex * operator->() const { return &m->v_.at(i); } bool operator==(const entity & o) const { return i == o.i; } bool operator!=(const entity & o) const { return i != o.i; } };
  using V = entity<0>; using F = entity<1>; using C = entity<2>;
  std::vector<vertex> v_; std::vector<std::vector<std::size_t>> fv_, fc_, cv_, cf_; std::vector<char> ghost_;
  template <class E> std::vector<E> list(std::size_t n) { std::vector<E> r; for (std::size_t i = 0; i < n; ++i) r.push_back(E{ this, i }); return r; }
  template <class E> std::vector<E> list(const std::vector<std::size_t> & s) { std::vector<E> r; for (auto i : s) r.push_back(E{ this, i }); return r; }
  std::size_t num_vertices() const { return v_.size(); } std::size_t num_faces() const { return fv_.size(); } std::size_t num_cells() const { return cv_.size(); }
  std::vector<V> vertices() { return list<V>(v_.size()); } std::vector<V> vertices(C c) { return list<V>(cv_.at(c.i)); } std::vector<V> vertices(F f) { return list<V>(fv_.at(f.i)); }
  std::vector<F> faces() { return list<F>(fv_.size()); } std::vector<F> faces(C c) { return list<F>(cf_.at(c.i)); }
  std::vector<C> cells() { return list<C>(cv_.size()); } std::vector<C> cells(F f) { return list<C>(fc_.at(f.i)); }
  std::vector<C> cells(flecsi::partition_t p) { std::vector<C> r; for (std::size_t i = 0; i < cv_.size(); ++i) if (p == flecsi::all || (p == flecsi::owned) == !ghost_[i]) r.push_back(C{ this, i }); return r; }
};
} }
