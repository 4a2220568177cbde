// U04: string, path and time helpers; -DTHREADS builds the concurrent workload for ThreadSanitizer
#include "vmon.h"
#include <clocale>
#include <set>
#include <thread>
#include <atomic>
#include <type_traits>
#include <ctime>
#include <memory>
#include "ristra/utils/string_utils.h"
#include "ristra/utils/trivial_string.h"
#include "ristra/utils/const_string.h"
#include "ristra/utils/time_utils.h"
#include "ristra/utils/type_traits.h"
namespace u = ristra::utils;

static std::string text(vm::Rng & r, const char * alphabet, size_t max) { std::string s; size_t n = r.below(max + 1), m = strlen(alphabet); for (size_t i = 0; i < n; ++i) s += alphabet[r.below(m)]; return s; }
static std::string q(const std::string & s) { return "'" + vm::jesc(s) + "'"; }

static std::string m_replace(const std::string & s, const std::string & f, const std::string & t) { if (f.empty()) return s; std::string o; for (size_t i = 0; i < s.size();) if (s.compare(i, f.size(), f) == 0) { o += t; i += f.size(); } else o += s[i++]; return o; }
static std::vector<std::string> m_split(const std::string & s, const std::vector<char> & d) { std::vector<std::string> o; std::string cur; for (char c : s) { bool sep = strchr(" \t\n\v\f\r", c) && c; for (char x : d) sep |= x == c; if (sep) { if (!cur.empty()) o.push_back(cur); cur.clear(); } else cur += c; } if (!cur.empty()) o.push_back(cur); return o; }
static std::string m_base(const std::string & s) { std::string o; for (char c : s) if (c == '/') o.clear(); else o += c; return o; }

static void paths() {
  vm::Rng r = vm::rng("paths");
  for (uint64_t k = 0; k < vm::n(20000); ++k) {
    std::string p = k < 12 ? std::vector<std::string>{ "", "/", ".", "..", "a", "a.b", "/a.b/c", "a.b/c.d", "a/.b", "a/b.", "./x", "../x" }[k] : r.chance(1, 10) ? text(r, "abcdefghij/.", 300) : r.chance(1, 200) ? text(r, "abc/.", 6000) : text(r, r.chance(1, 3) ? "a./\\\x80\xff:" : "ab./.-_ ", 12); if (r.chance(1, 40)) p.insert(r.below(p.size() + 1), 1, '\0'); vm::case_s("path " + q(p));
    std::string base = m_base(p), dir = p.substr(0, p.size() - base.size()), ext, stem = base; size_t dot = std::string::npos; for (size_t i = 0; i < base.size(); ++i) if (base[i] == '.') dot = i; bool has = dot != std::string::npos; if (has) { ext = base.substr(dot + 1); stem = base.substr(0, dot); }
    vm::ok(u::basename(p) == base, "basename", "the base name is not what follows the last separator"); vm::ok(u::file_extension(p) == ext, "extension", "the extension is not what follows the last dot of the base name"); vm::ok(u::remove_extension(p) == dir + stem, "remove_extension", "removing the extension removes something else"); auto s = u::split_extension(p); vm::ok(s.first == dir + stem && s.second == ext, "split_extension", "splitting the extension differs");
    vm::count("paths", 4); vm::distinct(vm::hstr(p));
  }
}
static void pieces() {
  vm::Rng r = vm::rng("pieces");
  for (uint64_t k = 0; k < vm::n(10000); ++k) {
    const bool big = r.chance(1, 100); std::string s = text(r, "aab bc,;\t\n", big ? 5000 : 20), f = text(r, "ab ,", 3), t = text(r, "abx,", r.chance(1, 30) ? 300 : 4);
    if (r.chance(1, 5)) for (auto * x : { &s, &f, &t }) for (auto & c : *x) if (r.chance(1, 3)) c = "\0\xff\x80a"[r.below(4)]; // any bytes
    if (r.chance(1, 8) && !s.empty()) { size_t i = r.below(s.size()); f = s.substr(i, r.below(40)); } vm::case_s("replace " + q(f) + " by " + q(t) + " in " + q(s)); std::string s0 = s; vm::ok(u::replace_all(s, f, t) == m_replace(s, f, t), "replace_all", "not exactly the occurrences are replaced"); vm::ok(s == s0, "replace_all:input", "the input is changed");
    std::vector<char> d; for (size_t i = r.below(r.chance(1, 20) ? 60 : 4); i > 0; --i) d.push_back(r.chance(1, 3) ? (char)r.below(256) : ",;ab- "[r.below(6)]); std::string w; for (size_t i = r.below(big ? 5000 : 30); i > 0; --i) w += big && r.chance(1, 2) ? 'x' : !d.empty() && r.chance(1, 3) ? d[r.below(d.size())] : r.chance(1, 4) ? (char)r.below(256) : "xyz ,;\t"[r.below(7)];
    vm::case_s("split " + q(w) + " at " + q(std::string(d.begin(), d.end()))); vm::ok(u::split(w, d) == m_split(w, d), "split", "the pieces are not those between delimiters"); vm::ok(u::split(w) == m_split(w, { ' ' }), "split:default", "a split at blanks depends on earlier splits or differs");
    if (k % 500 == 7) { size_t m = r.range(1, 12000); std::string lw; for (size_t i = 0; i < m; ++i) { lw += std::to_string(i); lw += i % 3 ? ' ' : ','; } vm::case_("split into %zu pieces", m); vm::ok(u::split(lw, { ',', ' ' }) == m_split(lw, { ',', ' ' }) && u::split(lw, { ',' }).size() == m_split(lw, { ',' }).size(), "split", "the many pieces are not those between delimiters"); }
    vm::count("strings_split", 2); vm::distinct(vm::hstr(w)); vm::distinct(vm::hstr(s + "|" + f));
  }
}
static void numbers() {
  vm::Rng r = vm::rng("numbers");
  for (uint64_t k = 0; k < vm::n(20000); ++k) {
    unsigned n = k < 40 ? (unsigned)k : (unsigned)(r.next() >> r.below(33)); if (r.chance(1, 3)) { unsigned p = 1; for (size_t i = r.below(10); i > 0; --i) p *= 10; n = p - (unsigned)r.below(2); } vm::case_("number %u", n); std::string s = std::to_string(n);
    vm::ok(u::num_digits(n) == s.size(), "num_digits", "the number of digits is wrong"); unsigned pad = (unsigned)r.below(r.chance(1, 20) ? 300 : 14); std::string z = s.size() < pad ? std::string(pad - s.size(), '0') + s : s; vm::ok(u::zero_padded(n, pad) == z, "zero_padded", "padding differs: " + u::zero_padded(n, pad)); vm::ok(u::zero_padded(n) == (s.size() < 6 ? std::string(6 - s.size(), '0') + s : s), "zero_padded:default", "default padding differs"); vm::ok(u::to_string(n) == s && u::to_string(-(long)n) == (n ? "-" + s : s) && u::to_string(s) == s && u::to_string('c') == "c", "to_string", "a value is written differently");
    long long sec = k < 90000 && r.chance(1, 3) ? (long long)r.below(200000) : (long long)(r.next() >> (1 + r.below(40))); if (r.chance(1, 3)) { static const long long unit[] = { 60, 3600, 86400 }; sec = (long long)r.below(r.chance(1, 2) ? 4 : 100000) * unit[r.below(3)] + (long long)r.below(3) * unit[r.below(3)] + (long long)r.range(-1, 1); if (sec < 0) sec = 0; } long long days = -1; int h = -1, m = -1, e = -1; vm::case_("%lld seconds", sec); u::daysHoursMinutesSeconds(sec, days, h, m, e); vm::ok(h >= 0 && h < 24 && m >= 0 && m < 60 && e >= 0 && e < 60 && days >= 0 && (__int128)days * 86400 + h * 3600 + m * 60 + e == sec, "time:parts", "days, hours, minutes and seconds do not add up");
    vm::count("numbers", 6); vm::distinct(n);
  }
  double t0 = u::get_wall_time(); double sys = (double)time(nullptr); vm::case_("wall time"); vm::ok(std::fabs(t0 - sys) < 30, "time:wall", "the wall time is not the time"); struct timespec ts { 0, 20000000 }; nanosleep(&ts, nullptr); double t1 = u::get_wall_time(); vm::ok(t1 - t0 >= 0.015 && t1 - t0 < 30, "time:elapsed", "elapsed time is not measured in seconds"); vm::count("clock_reads", 2);
  vm::ok(u::type_as_string<int>() == "int" && u::type_as_string<std::vector<double>>().find("vector<double") != std::string::npos && u::type_as_string<vm::Rng>() == "vm::Rng", "type_as_string", "a type is named differently");
}
template <size_t N> void trivial(vm::Rng & r) {
  static_assert(std::is_trivially_copyable<u::trivial_string<N>>::value, "must be trivially copyable");
  std::string s(r.chance(1, 2) ? N : r.below(N + 3), 'x'); for (auto & c : s) c = (char)r.range(1, 255); vm::case_s("trivial_string<" + std::to_string(N) + "> of " + q(s)); bool threw = false;
  try { std::unique_ptr<u::trivial_string<N>> p(new u::trivial_string<N>(u::to_trivial_string<N>(s))); auto & t = *p; vm::ok(s.size() <= N && t.str() == s && s == t.c_str() && t.data() == t.c_str() && t.size() == N, "trivial:value", "the string differs"); bool in = true; for (size_t i = 0; i < s.size(); ++i) in &= t[i] == s[i] && static_cast<const u::trivial_string<N> &>(t)[i] == s[i]; in &= t[s.size()] == 0 && static_cast<const u::trivial_string<N> &>(t)[s.size()] == 0; vm::ok(in, "trivial:index", "a character, or the terminator, differs");
    u::trivial_string<N> c; memcpy((void *)&c, (void *)&t, sizeof c); vm::ok(c.str() == s, "trivial:copy", "a bytewise copy differs"); if (!s.empty()) { c[0] = '!'; vm::ok(c.str()[0] == '!' && t.str() == s, "trivial:write", "writing a character goes elsewhere"); } } catch (const std::exception &) { threw = true; }
  vm::ok(threw == (s.size() > N), "trivial:length", threw ? "a string that fits is refused" : "a string that does not fit is accepted"); { std::string z(N + 1 + r.below(N + 9), 'y'); z[r.below(N)] = 0; bool t2 = false; try { (void)u::to_trivial_string<N>(z); } catch (const std::exception &) { t2 = true; } vm::ok(t2, "trivial:length", "a string longer than the capacity, with a NUL in it, is accepted"); }
  vm::count("trivial_strings"); vm::distinct(vm::hstr(s + std::to_string(N)));
}
// decode UTF-8 by hand; false if malformed
static bool utf8(const std::string & s, std::wstring & o) { for (size_t i = 0; i < s.size();) { unsigned c = (unsigned char)s[i]; int n = c < 0x80 ? 0 : c >= 0xC2 && c < 0xE0 ? 1 : (c & 0xF0) == 0xE0 ? 2 : c >= 0xF0 && c < 0xF5 ? 3 : -1; if (n < 0 || i + n >= s.size() + (n ? 0 : 1)) return false; unsigned v = n == 0 ? c : n == 1 ? c & 31 : n == 2 ? c & 15 : c & 7; for (int j = 1; j <= n; ++j) { unsigned x = (unsigned char)s[i + j]; if ((x & 0xC0) != 0x80) return false; v = v << 6 | (x & 63); } if ((n == 2 && (v < 0x800 || (v >= 0xD800 && v < 0xE000))) || (n == 3 && (v < 0x10000 || v > 0x10FFFF))) return false; o += (wchar_t)v; i += (size_t)n + 1; } return true; }
static void put(std::string & s, unsigned v) { if (v < 0x80) s += (char)v; else if (v < 0x800) { s += (char)(0xC0 | v >> 6); s += (char)(0x80 | (v & 63)); } else if (v < 0x10000) { s += (char)(0xE0 | v >> 12); s += (char)(0x80 | (v >> 6 & 63)); s += (char)(0x80 | (v & 63)); } else { s += (char)(0xF0 | v >> 18); s += (char)(0x80 | (v >> 12 & 63)); s += (char)(0x80 | (v >> 6 & 63)); s += (char)(0x80 | (v & 63)); } }
static void wide() {
  vm::Rng r = vm::rng("wide");
  for (int loc = 0; loc < 2; ++loc) { bool utf = loc == 1; if (utf && !setlocale(LC_CTYPE, "C.UTF-8")) { vm::count("no_utf8_locale"); break; }
    for (uint64_t k = 0; k < vm::n(3000); ++k) { std::string s; std::wstring w; for (size_t i = r.below(r.chance(1, 200) ? 100000 : r.chance(1, 50) ? 3000 : 12); i > 0; --i) if (!utf || r.chance(1, 2)) s += (char)r.range(1, 126); else put(s, (unsigned)(r.chance(1, 2) ? r.range(0x80, 0x7ff) : r.chance(1, 2) ? r.range(0x800, 0xd7ff) : r.range(0x10000, 0x10ffff)));
      if (utf && r.chance(1, 10)) s.insert(r.below(s.size() + 1), 1, (char)r.range(128, 255)); vm::case_s("wide " + q(s)); bool good = utf8(s, w), threw = false; std::wstring got; try { got = u::to_wstring(s.c_str()); } catch (const std::exception &) { threw = true; }
      vm::ok(good ? !threw && got == w : threw, utf ? "wide:utf8" : "wide:ascii", good ? "the wide string is not the text, character by character" : "malformed text is converted"); vm::count("wide_strings"); vm::distinct(vm::hstr(s)); }
    setlocale(LC_CTYPE, "C"); }
}
static constexpr u::const_string cs("hello, world"); static constexpr u::const_string ce("");
static void constants() {
  vm::case_("const_string"); static_assert(cs.size() == 12 && ce.size() == 0 && cs[0] == 'h' && cs[11] == 'd', "usable at compile time"); vm::ok(std::string(cs.c_str()) == "hello, world" && std::string(ce.c_str()).empty(), "const_string", "the string differs");
  for (size_t i = 0; i < 40; ++i) { bool t = false; char c = 0; try { c = cs[i]; } catch (const std::out_of_range &) { t = true; } vm::ok(t == (i >= 12) && (t || c == "hello, world"[i]), "const_string:index", "a position beyond the end does not throw, or a character differs"); vm::count("const_chars"); } bool t = false; try { (void)ce[0]; } catch (const std::out_of_range &) { t = true; } vm::ok(t, "const_string:empty", "the empty string has a character"); char nul[] = "a\0b"; u::const_string n(nul); vm::ok(n.size() == 3 && n[1] == 0 && n[2] == 'b', "const_string:nul", "a string with NUL differs");
}
#ifdef THREADS
int main(int argc, char ** argv) {
  vm::init(argc, argv); const int T = 6; std::atomic<uint64_t> done{ 0 }, wrong{ 0 }; std::string first; std::mutex mx; vm::case_("%d threads splitting strings with different delimiters", T);
  std::vector<std::thread> th; for (int t = 0; t < T; ++t) th.emplace_back([&, t] { vm::Rng r(vm::hmix(vm::seed(), (uint64_t)t)); for (uint64_t k = 0; k < vm::n(4000); ++k) { std::vector<char> d{ ",;:|+#"[t] }; if (r.chance(1, 2)) d.push_back((char)r.below(256)); std::string w = text(r, "ab,;:|+#c", 24); bool bad = u::split(w, d) != m_split(w, d) || u::zero_padded((unsigned)k) != (std::string(6 - std::to_string(k).size(), '0') + std::to_string(k)) || u::replace_all(w, "a", "bb") != m_replace(w, "a", "bb") || u::basename(w) != m_base(w); if (bad) { wrong++; std::lock_guard<std::mutex> g(mx); if (first.empty()) first = q(w) + " at " + q(std::string(d.begin(), d.end())); } done++; if (t == 0) vm::distinct(vm::hstr(w)); } });
  for (auto & t : th) t.join(); vm::count("concurrent_splits", done.load()); vm::count("threads", T); vm::check(wrong.load() == 0, "split:concurrent", "%llu of %llu concurrent splits were wrong, first %s", (unsigned long long)wrong.load(), (unsigned long long)done.load(), first.c_str()); vm::st().evaluations += done.load();
  return vm::finish();
}
#else
int main(int argc, char ** argv) {
  vm::init(argc, argv); setlocale(LC_ALL, "C");
  if (vm::section("paths")) paths(); if (vm::section("pieces")) pieces(); if (vm::section("numbers")) numbers(); if (vm::section("wide")) wide(); if (vm::section("constants")) constants();
  if (vm::section("trivial")) { vm::Rng r = vm::rng("trivial"); for (uint64_t k = 0; k < vm::n(1500); ++k) { trivial<1>(r); trivial<2>(r); trivial<7>(r); trivial<16>(r); trivial<33>(r); if (k % 8 == 0) { trivial<128>(r); trivial<256>(r); trivial<1000>(r); } } }
  return vm::finish();
}
#endif
