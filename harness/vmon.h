// vmon.h - the monitoring runtime shared by every harness.
//
// A harness drives the real library code and reports to this runtime:
//   * vm::case_(...)    : describes the input/history now being executed; it is
//                         mirrored into a mmap'ed file so that it survives a
//                         crash, a sanitizer abort or a hang
//   * vm::check(...)    : one oracle evaluation
//   * vm::viol(...)     : the oracle disagreed with the observed behaviour
//   * vm::count(...)    : an observed event, reported in the evidence
//   * vm::distinct(...) : hash of a non-trivial observed case
// Everything is deterministic in --seed and bounded by --scale (case counts).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <unordered_set>
#include <mutex>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>

namespace vm {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  double unit() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
  double uniform(double a, double b) { return a + (b - a) * unit(); }
};

inline uint64_t hmix(uint64_t h, uint64_t v) {
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h;
}
inline uint64_t hstr(const std::string & s, uint64_t h = 1469598103934665603ull) {
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h;
}
inline uint64_t hdbl(double d, uint64_t h) { uint64_t u; std::memcpy(&u, &d, 8); return hmix(h, u); }

struct State {
  uint64_t seed = 1; double scale = 1; std::string tier = "quick", only, out;
  char * casebuf = nullptr; size_t casecap = 0; char fallback[4096];
  uint64_t own_beat = 0; volatile uint64_t * beat = &own_beat; // moves with every case and judgement; watched for hangs
  std::map<std::string, uint64_t> counters;
  std::unordered_set<uint64_t> dist;
  std::vector<std::string> samples;
  std::map<std::string, std::pair<uint64_t, std::string>> viols;
  uint64_t evaluations = 0, cases = 0;
  std::mutex mx;
};
inline State & st() { static State s; return s; }

inline void init(int argc, char ** argv) {
  State & s = st();
  std::string casefile;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "--seed") s.seed = strtoull(v.c_str(), 0, 10);
    else if (k == "--scale") s.scale = atof(v.c_str());
    else if (k == "--tier") s.tier = v;
    else if (k == "--out") s.out = v;
    else if (k == "--only") s.only = v;
    else if (k == "--casefile") casefile = v;
    else { fprintf(stderr, "vmon: bad option %s\n", k.c_str()); exit(64); }
  }
  s.casebuf = s.fallback; s.casecap = sizeof(s.fallback); s.fallback[0] = 0;
  if (!casefile.empty()) {
    int fd = open(casefile.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0 && ftruncate(fd, 8192) == 0) {
      void * p = mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (p != MAP_FAILED) { s.casebuf = (char *)p; s.casecap = 8184; s.beat = (volatile uint64_t *)((char *)p + 8184); }
      close(fd);
    }
  }
}

inline uint64_t seed() { return st().seed; }
inline bool thorough() { return st().tier == "thorough"; }
// number of iterations for a workload: base count scaled by the tier
inline uint64_t n(uint64_t base) { double r = base * st().scale; return r < 1 ? 1 : (uint64_t)r; }
// a workload section may be selected alone with --only
inline bool section(const char * name) {
  if (!st().only.empty() && st().only != name) return false;
  return true;
}
// independent generator for a named section
inline Rng rng(const char * name) { return Rng(hmix(st().seed, hstr(name))); }

inline void case_(const char * fmt, ...) __attribute__((format(printf, 1, 2)));
inline void case_(const char * fmt, ...) {
  State & s = st(); va_list ap; va_start(ap, fmt); vsnprintf(s.casebuf, s.casecap, fmt, ap); va_end(ap);
  s.cases++; *s.beat = *s.beat + 1;
}
inline void case_s(const std::string & d) {
  State & s = st(); size_t k = d.size() < s.casecap - 1 ? d.size() : s.casecap - 1;
  memcpy(s.casebuf, d.data(), k); s.casebuf[k] = 0; s.cases++; *s.beat = *s.beat + 1;
}
inline void count(const char * name, uint64_t k = 1) { st().counters[name] += k; }
inline void distinct(uint64_t h) { auto & d = st().dist; if (d.size() < 4000000u) d.insert(h); }
inline void sample(const std::string & s_) {
  auto & v = st().samples; if (v.size() < 12) v.push_back(s_.substr(0, 600));
}
inline void sample_if(const char * tag, const std::string & s_) {
  static std::map<std::string, int> seen; if (seen[tag]++ < 1) sample(std::string(tag) + ": " + s_);
}

inline void viol(const std::string & key, const char * fmt, ...) __attribute__((format(printf, 2, 3)));
inline void viol(const std::string & key, const char * fmt, ...) {
  char buf[2048]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  State & s = st(); std::lock_guard<std::mutex> g(s.mx);
  auto & e = s.viols[key];
  if (e.first++ == 0) {
    e.second = std::string(buf) + " [case: " + s.casebuf + "]";
    printf("VMON-VIOLATION key=%s :: %s\n", key.c_str(), e.second.c_str()); fflush(stdout);
  }
}
inline bool check(bool ok, const char * key, const char * fmt, ...) __attribute__((format(printf, 3, 4)));
inline bool check(bool ok, const char * key, const char * fmt, ...) {
  st().evaluations++; *st().beat = *st().beat + 1;
  if (!ok) {
    char buf[2048]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    viol(key, "%s", buf);
  }
  return ok;
}
inline bool ok(bool c, const std::string & key, const std::string & msg = "") {
  st().evaluations++; *st().beat = *st().beat + 1; if (!c) viol(key, "%s", msg.c_str()); return c;
}
// comparison of floating point observations; scale is the magnitude of the operands
inline bool near(double a, double b, double tol, double scale = 1.0) {
  if (std::isnan(a) || std::isnan(b)) return false;
  return std::fabs(a - b) <= tol * (scale > 0 ? scale : 1.0);
}
inline bool okn(double got, double want, double tol, double scale, const std::string & key, const char * what = "") {
  st().evaluations++; *st().beat = *st().beat + 1;
  if (!near(got, want, tol, scale)) { viol(key, "%s observed %.17g, oracle says %.17g (tol %.3g x %.3g)", what, got, want, tol, scale); return false; }
  return true;
}

inline std::string jesc(const std::string & s) {
  std::string o; char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c < 0x20 || c >= 0x7f) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  return o;
}
inline int finish() {
  State & s = st();
  if (!s.out.empty()) {
    FILE * f = fopen(s.out.c_str(), "w");
    if (!f) { perror("vmon out"); return 70; }
    fprintf(f, "{\"evaluations\":%llu,\"cases\":%llu,\"distinct\":%llu,\"counters\":{",
      (unsigned long long)s.evaluations, (unsigned long long)s.cases, (unsigned long long)s.dist.size());
    bool c = false;
    for (auto & kv : s.counters) { fprintf(f, "%s\"%s\":%llu", c ? "," : "", jesc(kv.first).c_str(), (unsigned long long)kv.second); c = true; }
    fprintf(f, "},\"samples\":["); c = false;
    for (auto & x : s.samples) { fprintf(f, "%s\"%s\"", c ? "," : "", jesc(x).c_str()); c = true; }
    fprintf(f, "],\"violations\":["); c = false;
    for (auto & kv : s.viols) { fprintf(f, "%s{\"key\":\"%s\",\"count\":%llu,\"first\":\"%s\"}", c ? "," : "", jesc(kv.first).c_str(), (unsigned long long)kv.second.first, jesc(kv.second.second).c_str()); c = true; }
    fprintf(f, "]}\n"); fclose(f);
  }
  return s.viols.empty() ? 0 : 10;
}

} // namespace vm
