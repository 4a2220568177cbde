// U01: a fixed_vector behaves as a bounded sequence.  Random histories of every
// modifier run against std::vector; the whole observable state is compared after
// every step, guard words around the object and ASan watch the storage.
#include <iterator>
#include <cstddef>
#include <cassert>
#include <iostream>
#include <list>
#include <memory>
#include <vector>
#include <string>
#include "vmon.h"
#include "ristra/utils/fixed_vector.h"
using ristra::utils::fixed_vector;

// value that notices being read after it was moved away, and double destruction
struct Tracked {
  static long live; int id; int * heap;
  Tracked() : id(0), heap(new int(0)) { ++live; }
  Tracked(int i) : id(i), heap(new int(i)) { ++live; }
  Tracked(const Tracked & o) : id(o.id), heap(o.heap ? new int(*o.heap) : nullptr) { ++live; }
  Tracked(Tracked && o) noexcept : id(o.id), heap(o.heap) { o.heap = nullptr; ++live; }
  Tracked & operator=(const Tracked & o) { if (this != &o) { delete heap; id = o.id; heap = o.heap ? new int(*o.heap) : nullptr; } return *this; }
  Tracked & operator=(Tracked && o) noexcept { if (this != &o) { delete heap; id = o.id; heap = o.heap; o.heap = nullptr; } return *this; }
  ~Tracked() { delete heap; --live; }
  bool operator==(const Tracked & o) const { return heap && o.heap && *heap == *o.heap && id == o.id; }
};
long Tracked::live = 0;

// an input iterator: what was read once is gone
template <class T> struct Stream { const std::vector<T> * v; size_t at; };
template <class T> struct Once { using difference_type = std::ptrdiff_t; using value_type = T; using pointer = const T *; using reference = const T &; using iterator_category = std::input_iterator_tag; Stream<T> * s;
  explicit Once(Stream<T> * p = nullptr) : s(p) {} bool done() const { return !s || s->at >= s->v->size(); } const T & operator*() const { return (*s->v)[s->at]; } const T * operator->() const { return &**this; } Once & operator++() { ++s->at; return *this; } Once operator++(int) { Once o = *this; ++s->at; return o; } bool operator==(const Once & o) const { return done() == o.done(); } bool operator!=(const Once & o) const { return !(*this == o); } };

template <class T> T mk(vm::Rng & r);
template <> int mk<int>(vm::Rng & r) { return (int)r.range(-1000, 1000); }
template <> double mk<double>(vm::Rng & r) { if (r.chance(1, 8)) return r.chance(1, 2) ? 0.0 : -0.0; return (double)r.range(-1000, 1000) / 8; }
template <> char mk<char>(vm::Rng & r) { return (char)r.range('a', 'z'); }
template <> std::string mk<std::string>(vm::Rng & r) { return std::string(r.below(40), (char)('a' + r.below(26))) + std::to_string(r.below(1000)); }
template <> Tracked mk<Tracked>(vm::Rng & r) { return Tracked((int)r.range(1, 100000)); }

// equal without being the same bytes
struct Loose { char tag; double v; Loose(double x = 0) : tag((char)x), v(x) {} bool operator==(const Loose & o) const { return v == o.v; } };
template <> Loose mk<Loose>(vm::Rng & r) { Loose l(r.chance(1, 4) ? -0.0 : (double)r.below(3)); l.tag = (char)r.next(); return l; }

static size_t far(size_t n) { static unsigned c = 0; switch (c++ % 6) { case 0: return (size_t)1 << 31; case 1: return (size_t)1 << 32; case 2: return ((size_t)1 << 32) + n / 2; case 3: return (size_t)1 << 63; case 4: return ((size_t)1 << 16) + n / 2; default: return 256 + n / 2; } }
template <class FV, class T> void compare(FV & f, const std::vector<T> & m, const char * after) {
  const FV & cf = f;
  std::string k = std::string("state:") + after;
  if (!vm::check(f.size() == m.size(), k.c_str(), "size %zu, sequence has %zu", f.size(), m.size())) return;
  vm::check(f.empty() == m.empty(), k.c_str(), "empty() is %d with %zu elements", (int)f.empty(), m.size());
  bool ok = true; size_t bad = 0;
  for (size_t i = 0; i < m.size() && ok; ++i) if (!(f[i] == m[i]) || !(cf[i] == m[i]) || !(f.at(i) == m[i]) || !(cf.at(i) == m[i])) { ok = false; bad = i; }
  vm::check(ok, k.c_str(), "element %zu of %zu differs", bad, m.size());
  size_t n = 0; for (auto & x : f) { if (n >= m.size() || !(x == m[n])) { n = (size_t)-1; break; } ++n; }
  vm::check(n == m.size(), k.c_str(), "forward iteration differs");
  n = 0; for (auto it = cf.cbegin(); it != cf.cend(); ++it) { if (n >= m.size() || !(*it == m[n])) { n = (size_t)-1; break; } ++n; }
  vm::check(n == m.size(), k.c_str(), "const iteration differs");
  n = 0; for (auto it = cf.crbegin(); it != cf.crend(); ++it) { if (n >= m.size() || !(*it == m[m.size() - 1 - n])) { n = (size_t)-1; break; } ++n; }
  vm::check(n == m.size(), k.c_str(), "reverse iteration differs");
  if (!m.empty()) vm::check(f.front() == m.front() && f.back() == m.back() && cf.front() == m.front() && cf.back() == m.back() && *f.data() == m[0] && cf.data()[m.size() - 1] == m.back(), k.c_str(), "front/back/data differ");
  for (size_t i : { m.size(), m.size() + 1, f.capacity(), (size_t)-1, far(m.size()) }) if (i >= m.size()) {
    bool th = false; try { (void)f.at(i); } catch (const std::out_of_range &) { th = true; }
    bool th2 = false; try { (void)cf.at(i); } catch (const std::out_of_range &) { th2 = true; }
    vm::check(th && th2, "at:range", "at(%zu) on %zu elements did not raise out_of_range", i, m.size());
  }
}

// constructed where other things lay before
template <class FV, class... A> static FV used_memory(vm::Rng & r, A &&... a) {
  struct Mem { void * p; explicit Mem(int c) : p(::operator new(sizeof(FV))) { memset(p, c, sizeof(FV)); asm volatile("" : : "r"(p) : "memory"); } ~Mem() { ::operator delete(p); } } m((int)r.range(1, 255));
  FV * f = new (m.p) FV(std::forward<A>(a)...); FV out(std::move(*f)); f->~FV(); return out; }

template <class T, std::size_t N> void histories(const char * tn, uint64_t count, int steps) {
  using FV = fixed_vector<T, N>;
  char sec[64]; snprintf(sec, sizeof sec, "fv %s %zu", tn, N);
  vm::Rng r = vm::rng(sec);
  struct Box { uint64_t lo[4]; FV f; uint64_t hi[4]; FV g; uint64_t end[4]; };
  for (uint64_t c = 0; c < count; ++c) {
    std::unique_ptr<Box> b(new Box);
    for (int i = 0; i < 4; ++i) b->lo[i] = b->hi[i] = b->end[i] = 0x5AFE5AFE5AFE0000ull + i;
    FV & f = b->f; FV & g = b->g; std::vector<T> m, mg; uint64_t h = vm::hstr(sec); std::string trace;
    auto fill = [&](size_t k) { std::vector<T> v; for (size_t i = 0; i < k; ++i) v.push_back(mk<T>(r)); return v; };
    for (int s = 0; s < steps; ++s) {
      const char * name = "?"; char arg[64] = "";
      const size_t room = N - m.size(); const size_t n = m.size();
      int o = (int)r.below(24);
      // bias towards the interesting sizes: nearly full and nearly empty
      switch (o) {
        case 0: case 1: if (room) { name = "push_back(const&)"; T v = mk<T>(r); m.push_back(v); f.push_back(v); } break;
        case 2: if (room) { name = "push_back(&&)"; T v = mk<T>(r); T w = v; m.push_back(v); f.push_back(std::move(w)); } break;
        case 3: if (room) { name = "emplace_back"; T v = mk<T>(r); m.emplace_back(v); f.emplace_back(v); } break;
        case 4: name = "pop_back"; f.pop_back(); if (n) m.pop_back(); break;
        case 5: case 6: if (room) { size_t p = r.below(n + 1); T v = mk<T>(r); name = "insert(pos,const&)"; snprintf(arg, 64, "@%zu/%zu", p, n); vm::case_("%s after %s: %s%s", sec, trace.c_str(), name, arg);
            auto it = f.insert(f.cbegin() + p, v); m.insert(m.begin() + p, v); vm::check((size_t)(it - f.begin()) == p, "ret:insert", "insert returned position %td, not %zu", it - f.begin(), p); } break;
        case 7: case 8: if (room) { size_t p = r.below(n + 1); T v = mk<T>(r); T w = v; name = "insert(pos,&&)"; snprintf(arg, 64, "@%zu/%zu", p, n); vm::case_("%s after %s: %s%s", sec, trace.c_str(), name, arg);
            auto it = f.insert(f.cbegin() + p, std::move(w)); m.insert(m.begin() + p, v); vm::check((size_t)(it - f.begin()) == p, "ret:insert", "insert returned position %td, not %zu", it - f.begin(), p); } break;
        case 9: case 10: { size_t p = r.below(n + 1), k = r.below(room + 1); T v = mk<T>(r); name = "insert(pos,count,value)"; snprintf(arg, 64, "@%zu/%zu x%zu", p, n, k); vm::case_("%s after %s: %s%s", sec, trace.c_str(), name, arg);
            auto it = f.insert(f.cbegin() + p, (size_t)k, v); m.insert(m.begin() + p, k, v); vm::check((size_t)(it - f.begin()) == p, "ret:insert", "insert returned position %td, not %zu", it - f.begin(), p); break; }
        case 11: case 12: { size_t p = r.below(n + 1), k = r.below(room + 1); auto v = fill(k); name = "insert(pos,first,last)"; snprintf(arg, 64, "@%zu/%zu x%zu", p, n, k); vm::case_("%s after %s: %s%s", sec, trace.c_str(), name, arg);
            typename FV::iterator it; int how = (int)r.below(4); if (how == 0) { Stream<T> st{ &v, 0 }; it = f.insert(f.cbegin() + p, Once<T>(&st), Once<T>()); } else if (how == 1) { auto w2 = v; it = f.insert(f.cbegin() + p, std::make_move_iterator(w2.begin()), std::make_move_iterator(w2.end())); } else if (how == 2) it = f.insert(f.cbegin() + p, v.begin(), v.end()); else { std::list<T> l(v.begin(), v.end()); it = f.insert(f.cbegin() + p, l.begin(), l.end()); }
            m.insert(m.begin() + p, v.begin(), v.end()); vm::check((size_t)(it - f.begin()) == p, "ret:insert", "insert returned position %td, not %zu", it - f.begin(), p); break; }
        case 13: { size_t p = r.below(n + 1), k = std::min<size_t>(room, r.below(6)); auto v = fill(k); name = "insert(pos,{...})"; snprintf(arg, 64, "@%zu/%zu x%zu", p, n, k); vm::case_("%s after %s: %s%s", sec, trace.c_str(), name, arg); typename FV::iterator it;
            switch (k) { case 0: it = f.insert(f.cbegin() + p, std::initializer_list<T>{}); break; case 1: it = f.insert(f.cbegin() + p, { v[0] }); break; case 2: it = f.insert(f.cbegin() + p, { v[0], v[1] }); break; case 3: it = f.insert(f.cbegin() + p, { v[0], v[1], v[2] }); break; case 4: it = f.insert(f.cbegin() + p, { v[0], v[1], v[2], v[3] }); break; default: it = f.insert(f.cbegin() + p, { v[0], v[1], v[2], v[3], v[4] }); }
            m.insert(m.begin() + p, v.begin(), v.end()); vm::check((size_t)(it - f.begin()) == p, "ret:insert", "insert returned position %td, not %zu", it - f.begin(), p); break; }
        case 14: if (n) { size_t p = r.below(n + 1), q = r.below(n), k = r.below(room + 1); int w = (int)r.below(room ? 5 : 2); static const char * nm[] = { "insert(pos,count,own element)", "resize(count,own element)", "insert(pos,own element)", "push_back(own element)", "emplace_back(own element)" }; name = nm[w]; snprintf(arg, 64, "@%zu/%zu from %zu x%zu", p, n, q, k); vm::case_("%s after %s: %s%s", sec, trace.c_str(), name, arg); T v = m[q];
            if (w == 0) { auto it = f.insert(f.cbegin() + p, (size_t)k, f[q]); m.insert(m.begin() + p, k, v); vm::check((size_t)(it - f.begin()) == p, "ret:insert", "insert returned position %td, not %zu", it - f.begin(), p); } else if (w == 1) { size_t to = r.chance(1, 2) ? n + k : r.below(n + 1); f.resize(to, f[q]); m.resize(to, v); }
            else if (w == 2) { auto it = f.insert(f.cbegin() + p, f[q]); m.insert(m.begin() + p, v); vm::check((size_t)(it - f.begin()) == p, "ret:insert", "insert returned position %td, not %zu", it - f.begin(), p); } else if (w == 3) { f.push_back(f[q]); m.push_back(v); } else { f.emplace_back(f[q]); m.push_back(v); } } break;
        case 15: case 16: if (n) { size_t p = r.below(n); name = "erase(pos)"; snprintf(arg, 64, "@%zu/%zu", p, n); vm::case_("%s after %s: %s%s", sec, trace.c_str(), name, arg);
            auto it = f.erase(f.cbegin() + p); m.erase(m.begin() + p); vm::check((size_t)(it - f.begin()) == p, "ret:erase", "erase returned position %td, not %zu", it - f.begin(), p); } break;
        case 17: case 18: { size_t p = r.below(n + 1), q = p + r.below(n - p + 1); name = "erase(first,last)"; snprintf(arg, 64, "[%zu,%zu)/%zu", p, q, n); vm::case_("%s after %s: %s%s", sec, trace.c_str(), name, arg);
            auto it = f.erase(f.cbegin() + p, f.cbegin() + q); m.erase(m.begin() + p, m.begin() + q); vm::check((size_t)(it - f.begin()) == p, "ret:erase", "erase returned position %td, not %zu", it - f.begin(), p); break; }
        case 19: { size_t k = r.below(N + 1); T v = mk<T>(r); name = "resize(count,value)"; snprintf(arg, 64, "%zu->%zu", n, k); vm::case_("%s after %s: %s%s", sec, trace.c_str(), name, arg); f.resize(k, v); m.resize(k, v); break; }
        case 20: { size_t k = r.chance(1, 2) ? r.below(n + 1) : r.below(N + 1); name = k > n ? "resize(larger)" : "resize(smaller)"; snprintf(arg, 64, "%zu->%zu", n, k); vm::case_("%s after %s: %s%s", sec, trace.c_str(), name, arg); f.resize(k); m.resize(k); break; }
        case 21: { size_t k = r.below(N + 1); int w = (int)r.below(11); name = "assign/construct"; snprintf(arg, 64, " kind %d of %zu", w, k); auto v = fill(k); vm::case_("%s after %s: %s%s", sec, trace.c_str(), name, arg);
            if (w == 0 && k) { f.assign(k, v[0]); m.assign(k, v[0]); } else if (w == 1) { f.assign(v.begin(), v.end()); m = v; } else if (w == 2 && k >= 2) { f.assign({ v[0], v[1] }); m.assign({ v[0], v[1] }); }
            else if (w == 3) { Stream<T> st{ &v, 0 }; f.assign(Once<T>(&st), Once<T>()); m = v; } else if (w == 4) { Stream<T> st{ &v, 0 }; f = used_memory<FV>(r, Once<T>(&st), Once<T>()); m = v; }
            else if (w == 5 && k) { f = used_memory<FV>(r, k, v[0]); m.assign(k, v[0]); } else if (w == 6) { f = used_memory<FV>(r, k); m.assign(k, T()); } else if (w == 7 && k >= 3) { f = used_memory<FV>(r, std::initializer_list<T>{ v[0], v[1], v[2] }); m.assign({ v[0], v[1], v[2] }); }
            else if (w == 8) { std::list<T> l(v.begin(), v.end()); f.assign(l.begin(), l.end()); m = v; } else if (w == 9 && n) { size_t p = r.below(n + 1); f.assign(f.begin() + p, f.end()); std::vector<T> t(m.begin() + p, m.end()); m = t; } else { f = used_memory<FV>(r, v.begin(), v.end()); m = v; } break; }
        case 22: { name = "copy/move/swap"; int w = (int)r.below(7); snprintf(arg, 64, " kind %d", w); vm::case_("%s after %s: %s%s", sec, trace.c_str(), name, arg);
            if (w == 0) { FV t(f); compare(t, m, "copy construction"); g = t; mg = m; } else if (w == 1) { g = f; mg = m; } else if (w == 2) { f.swap(g); m.swap(mg); }
            else if (w == 3) { FV t(f); FV u(std::move(t)); compare(u, m, "move construction"); g = std::move(u); mg = m; } else if (w == 4) { FV & alias = f; f = alias; } else if (w == 6) { FV & alias = f; f.swap(alias); } else { FV t = used_memory<FV>(r); compare(t, std::vector<T>(), "default construction"); if (r.chance(1, 3)) { f.clear(); m.clear(); } }
            compare(g, mg, "copy/move/swap of the other"); break; }
        case 23: { name = "operator=="; bool same = (m == mg); vm::case_("%s after %s: ==", sec, trace.c_str());
            vm::check((f == g) == same && (g == f) == same, "equality", "== says %d, sequences (%zu and %zu elements) say %d", (int)(f == g), m.size(), mg.size(), (int)same);
            FV t(f); vm::check(t == f, "equality", "a copy differs");
            if (n) { t.pop_back(); vm::check(!(t == f) && !(f == t), "equality", "a proper prefix compares equal"); }
            break; }
      }
      trace += name; trace += arg; trace += "; "; if (trace.size() > 900) trace.erase(0, 400);
      h = vm::hmix(h, vm::hstr(name)); h = vm::hmix(h, vm::hstr(arg)); vm::distinct(h);
      vm::case_("%s: %s", sec, trace.c_str());
      compare(f, m, name); vm::count("steps"); vm::count(name);
      for (int i = 0; i < 4; ++i) vm::check(b->lo[i] == 0x5AFE5AFE5AFE0000ull + i && b->hi[i] == 0x5AFE5AFE5AFE0000ull + i && b->end[i] == 0x5AFE5AFE5AFE0000ull + i, "guard", "memory outside the container was written");
      if (vm::st().viols.size()) return;
    }
    compare(g, mg, "the other container"); vm::check(f.capacity() == N && f.max_size() == N, "capacity", "capacity %zu", f.capacity());
    if (c == 0) vm::sample_if(sec, trace);
  }
}
template <std::size_t N> void move_only(uint64_t count) {
  using P = std::unique_ptr<int>; using FV = fixed_vector<P, N>; vm::Rng r = vm::rng("fv move-only");
  for (uint64_t c = 0; c < count; ++c) {
    FV f; std::vector<int> m; std::string tr;
    for (int s = 0; s < 40; ++s) {
      size_t n = m.size(); int v = (int)r.below(100000);
      switch (r.below(6)) {
        case 0: if (n < N) { f.push_back(P(new int(v))); m.push_back(v); tr += "pb;"; } break;
        case 1: if (n < N) { size_t p = r.below(n + 1); f.insert(f.cbegin() + p, P(new int(v))); m.insert(m.begin() + p, v); tr += "ins" + std::to_string(p) + ";"; } break;
        case 2: if (n) { size_t p = r.below(n); f.erase(f.cbegin() + p); m.erase(m.begin() + p); tr += "er" + std::to_string(p) + ";"; } break;
        case 3: { size_t p = r.below(n + 1), q = p + r.below(n - p + 1); f.erase(f.cbegin() + p, f.cbegin() + q); m.erase(m.begin() + p, m.begin() + q); tr += "er;"; break; }
        case 4: if (n < N) { f.emplace_back(new int(v)); m.push_back(v); tr += "eb;"; } break;
        default: { FV t(std::move(f)); f = std::move(t); tr += "mv;"; }
      }
      vm::case_("move-only: %s", tr.c_str());
      bool ok = f.size() == m.size(); for (size_t i = 0; ok && i < m.size(); ++i) ok = f[i] && *f[i] == m[i];
      vm::check(ok, "state:move-only", "sequence of move-only values differs"); vm::count("steps"); vm::distinct(vm::hstr(tr));
    }
  }
}
int main(int c, char ** v) {
  vm::init(c, v);
  histories<int, 5>("int", vm::n(700), 60); histories<int, 1>("int", vm::n(100), 40); histories<int, 2>("int", vm::n(200), 40); histories<int, 64>("int", vm::n(100), 120);
  histories<int, 255>("int", vm::n(20), 120); histories<char, 256>("char", vm::n(20), 120); histories<double, 300>("double", vm::n(15), 120); histories<int, 127>("int", vm::n(15), 100); histories<int, 128>("int", vm::n(15), 100);
  histories<std::string, 6>("string", vm::n(500), 60); histories<std::string, 17>("string", vm::n(150), 80); histories<std::string, 3>("string", vm::n(200), 60);
  histories<Loose, 4>("loose", vm::n(300), 60); histories<Loose, 1>("loose", vm::n(100), 60);
  for (size_t n = 0; n < 6; ++n) for (size_t k = 0; k < 6; ++k) { vm::case_("not-a-number at %zu of %zu", k, n); fixed_vector<double, 6> a(n, 1.5), b(n, 1.5); if (k < n) b[k] = a[k] = __builtin_nan(""); vm::check((a == b) == (k >= n) && (a == a) == (k >= n), "equality", "sequences with a not-a-number"); fixed_vector<double, 6> z(n, 0.0), y(n, -0.0); vm::check(z == y, "equality", "zero and minus zero"); }
  histories<Tracked, 7>("tracked", vm::n(300), 60); histories<Tracked, 12>("tracked", vm::n(150), 60);
  { // the whole index range of small counters
    fixed_vector<char, 65536> * big = new fixed_vector<char, 65536>; vm::case_("resize to 65536"); big->resize(65536, 'x'); vm::check(big->size() == 65536 && (*big)[65535] == 'x' && (*big)[0] == 'x', "state:resize big", "resize to capacity 65536 is wrong"); delete big;
    fixed_vector<char, 65535> * b2 = new fixed_vector<char, 65535>; vm::case_("resize to 65535"); b2->resize(65535, 'y'); vm::check(b2->back() == 'y', "state:resize big", "resize to capacity 65535 is wrong"); delete b2;
  }
  { // longer than small counters, against the standard sequence
    constexpr size_t C = 70001; using F = fixed_vector<int, C>; auto f = std::make_unique<F>(), g = std::make_unique<F>(); std::vector<int> m; vm::Rng r = vm::rng("long sequences");
    auto same = [&](const char * what) { bool ok = f->size() == m.size() && std::equal(m.begin(), m.end(), f->begin()) && std::equal(m.rbegin(), m.rend(), f->rbegin()); vm::check(ok, "state:long", "a sequence of %zu differs after %s", m.size(), what); vm::count("steps of long sequences"); };
    for (uint64_t k = 0, t = vm::n(3); k < t; ++k) { vm::case_("long sequence %llu", (unsigned long long)k); f->clear(); m.clear(); for (size_t i = 0; i < C; ++i) { int v = (int)r.next(); if (i % 3) f->push_back(v); else f->emplace_back(v); m.push_back(v); } same("filling it"); vm::check(f->size() == C && f->back() == m.back() && f->at(C - 1) == m[C - 1], "state:long", "full sequence");
      *g = *f; vm::check(*g == *f, "state:long", "a copy differs"); (*g)[C - 1] ^= 1; vm::check(!(*g == *f), "state:long", "a difference in the last element is not seen"); (*g)[C - 1] ^= 1; (*g)[66000] ^= 4; vm::check(!(*g == *f), "state:long", "a late difference is not seen");
      size_t a = r.below(3000), b = 69000 + r.below(1000); auto it = f->erase(f->cbegin() + a, f->cbegin() + b); m.erase(m.begin() + a, m.begin() + b); vm::check((size_t)(it - f->begin()) == a, "ret:long", "erase"); same("erasing most of it"); std::vector<int> in(C - 1 - f->size()); for (auto & x : in) x = (int)r.next(); auto i2 = f->insert(f->cbegin() + a, in.begin(), in.end()); m.insert(m.begin() + a, in.begin(), in.end()); vm::check((size_t)(i2 - f->begin()) == a, "ret:long", "insert"); same("inserting a long range");
      size_t p = 65600 + r.below(4000); f->insert(f->cbegin() + p, 77); m.insert(m.begin() + p, 77); same("inserting far in"); f->erase(f->cbegin() + p - 1); m.erase(m.begin() + p - 1); same("erasing far in"); f->resize(100); m.resize(100); f->insert(f->cbegin() + 50, (size_t)66000, 5); m.insert(m.begin() + 50, 66000, 5); same("inserting many copies"); f->resize(C); m.resize(C); same("growing"); f->resize(3); m.resize(3); f->resize(C, 9); m.resize(C, 9); same("growing with a value");
      F h(f->begin(), f->end()); h.swap(*g); vm::check(*g == *f && h.size() == C, "state:long", "swapped"); f->assign((size_t)66001, 4); m.assign(66001, 4); same("assigning copies"); f->assign(in.begin(), in.end()); m = in; same("assigning a range"); for (int i = 0; i < 70; ++i) { f->pop_back(); m.pop_back(); } same("dropping the last"); vm::distinct(vm::hmix(r.next(), k)); }
  }
  { // constructed in place from several arguments, as the element's own constructor takes them
    vm::case_("constructed in place"); fixed_vector<std::string, 6> s; s.emplace_back((size_t)3, 'x'); s.emplace_back(); s.emplace_back("abcdef", (size_t)4); vm::check(s.size() == 3 && s[0] == "xxx" && s[1].empty() && s[2] == "abcd", "emplace", "strings constructed in place"); fixed_vector<std::vector<int>, 4> w; w.emplace_back((size_t)3, 7); w.emplace_back((size_t)2); w.emplace_back(); vm::check(w.size() == 3 && w[0] == std::vector<int>({ 7, 7, 7 }) && w[1] == std::vector<int>({ 0, 0 }) && w[2].empty(), "emplace", "vectors constructed in place");
    fixed_vector<std::pair<int, std::string>, 3> q; q.emplace_back(4, "four"); vm::check(q.size() == 1 && q[0].first == 4 && q[0].second == "four", "emplace", "pair constructed in place"); vm::count("constructed in place");
  }
  move_only<6>(vm::n(300));
  vm::check(Tracked::live == 0, "lifetime", "%ld tracked values still alive or destroyed twice", Tracked::live);
  return vm::finish();
}
