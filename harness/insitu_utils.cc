// C02: helpers of the in-situ support: script lists, image and file comparison, text replacement, logs, timers
#include "vmon.h"
#include <chrono>
#include <dirent.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/stat.h>
#include <thread>
#include "ristra/io/catalyst/utils/catalystUtils.hpp"
#include "ristra/io/catalyst/utils/insituLog.hpp"
#include "ristra/io/catalyst/utils/insituTimer.hpp"

struct Hush { std::ostringstream os; std::streambuf * old; Hush() : old(std::cout.rdbuf(os.rdbuf())) {} ~Hush() { std::cout.rdbuf(old); } };
static std::string root; // absolute scratch directory
// open files of the scratch directory (the sanitizer's own threads open others)
static size_t open_files() { size_t k = 0; if (DIR * d = opendir("/proc/self/fd")) { while (dirent * e = readdir(d)) { char b[4096]; std::string l = std::string("/proc/self/fd/") + e->d_name; ssize_t n = readlink(l.c_str(), b, sizeof b); if (n > 0 && std::string(b, (size_t)n).rfind(root, 0) == 0) ++k; } closedir(d); } return k; }
static void put(const std::string & p, const std::string & s) { std::ofstream f(p, std::ios::binary); f.write(s.data(), (std::streamsize)s.size()); }
static std::string slurp(const std::string & p) { std::ifstream f(p, std::ios::binary); std::ostringstream o; o << f.rdbuf(); return o.str(); }
static std::string jstr(const std::string & s) { std::string o = "\""; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; o += c; } return o + "\""; }

// ---- scripts named by an input file
// "./s" and "d//s" are the same files as "s" and "d/s"
static std::string canon(const std::string & p) { std::string o; if (!p.empty() && p[0] == '/') o = "/"; std::istringstream is(p); std::string part; bool first = true; while (std::getline(is, part, '/')) { if (part.empty() || part == ".") continue; o += (first ? "" : "/") + part; first = false; } if (!p.empty() && p.back() == '/') o += "/"; return o; }
static void scripts(vm::Rng & r, uint64_t k) {
  static const char * dirs[] = { "", "./", "d1/", "d1/d2/", "../", "d1/../d1/", "d.1/", "d\\1/" };
  std::string d = dirs[r.below(8)], name = (r.chance(1, 8) ? "i\\n" : "in") + std::to_string(r.below(50)) + (r.chance(1, 3) ? "" : ".json"), path;
  path = d == "../" ? "d1/" + d + name : d + name; if (r.chance(1, 4)) path = root + "/" + path;
  std::vector<std::string> want; int n = (int)r.range(0, 6); std::string js = "{"; bool has = r.chance(5, 6);
  auto other = [&]() { static const char * o[] = { "\"other\": [1,2,\"x.py\"]", "\"depth\": {\"catalyst-scripts\": [\"no.py\"]}", "\"catalyst_scripts\": [\"no.py\"]", "\"t\": null", "\"n\": -1.5e3" }; return std::string(o[r.below(5)]); };
  if (r.chance(1, 2)) js += other() + (has ? "," : "");
  size_t cut = path.rfind('/');
  if (has) { js += "\"catalyst-scripts\": ["; for (int i = 0; i < n; ++i) { std::string s(r.range(1, 10), 'a'); for (auto & c : s) c = "abcxyz019_-. /\\\""[r.below(16)]; if (s[0] == '/') s[0] = 'q'; if (r.chance(1, 6)) s = "../" + s; if (r.chance(1, 8)) s += "\xc3\xa9"; js += (i ? "," : "") + jstr(s); want.push_back(cut == std::string::npos ? s : path.substr(0, cut + 1) + s); } js += "]"; }
  js += "}"; put(path, js); vm::case_s("input '" + path + "' holding " + js);
  size_t fds = open_files(); std::vector<std::string> got; bool threw = false; std::string said;
  { Hush h; try { got = getCatalystScripts(path); } catch (std::exception & e) { threw = true; said = e.what(); } }
  if (vm::ok(!threw, "scripts:threw", "a well-formed input file is refused: " + said) && vm::ok(got.size() == want.size(), "scripts:count", "named " + std::to_string(want.size()) + " scripts, got " + std::to_string(got.size())))
    for (size_t i = 0; i < got.size(); ++i) vm::ok(canon(got[i]) == canon(want[i]), "scripts:path", "script " + std::to_string(i) + " is '" + got[i] + "', should be '" + want[i] + "'");
  vm::ok(open_files() == fds, "scripts:fds", "a file was left open"); unlink(path.c_str());
  vm::count("script_lists"); vm::count("scripts", want.size()); vm::distinct(vm::hstr(path + js)); (void)k;
}
static void no_scripts() { Hush h; vm::case_("no input file"); vm::ok(getCatalystScripts("").empty(), "scripts:none", "scripts without an input file"); }

// ---- images
struct Img { int w, h, c; std::vector<unsigned char> px; };
static void write_img(const std::string & p, const Img & m) {
  std::string s;
  if (m.c == 4) { unsigned char hd[18] = { 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, (unsigned char)m.w, (unsigned char)(m.w >> 8), (unsigned char)m.h, (unsigned char)(m.h >> 8), 32, 0x28 }; s.assign((char *)hd, 18); } // 32 bit TGA
  else s = (m.c == 1 ? "P5\n" : "P6\n") + std::to_string(m.w) + " " + std::to_string(m.h) + "\n255\n"; // PGM, PPM
  s.append((const char *)m.px.data(), m.px.size()); put(p, s);
}
static void images(vm::Rng & r, uint64_t k) {
  Img a; a.w = (int)r.range(1, r.chance(1, 4) ? 90 : 14); a.h = (int)r.range(1, r.chance(1, 4) ? 70 : 14); static const int ch[] = { 1, 3, 4 }; a.c = ch[r.below(3)];
  a.px.resize((size_t)a.w * a.h * a.c); for (auto & p : a.px) p = (unsigned char)r.next();
  Img b = a; size_t n = a.px.size(), lim = n / 50, diff = 0; int kind = (int)r.below(10); bool readable_a = true, readable_b = true;
  if (kind == 0) { if (r.chance(1, 2)) b.w++; else b.h++; b.px.resize((size_t)b.w * b.h * b.c, 7); }
  else if (kind == 1) { std::swap(b.w, b.h); }
  else if (kind == 2) { b.c = ch[r.below(3)]; b.px.resize((size_t)b.w * b.h * b.c, 7); }
  else if (kind == 3) { (r.chance(1, 2) ? readable_a : readable_b) = false; }
  else { static const int off[] = { 0, 0, 1, -1, 2 }; long want = r.chance(1, 3) ? (long)r.below(n + 1) : (long)lim + off[r.below(5)]; if (r.chance(1, 8)) want = 0; want = std::max(0l, std::min((long)n, want)); diff = (size_t)want;
    std::vector<size_t> at(n); for (size_t i = 0; i < n; ++i) at[i] = i; int where = (int)r.below(3);
    if (where == 0) for (size_t i = 0; i < diff; ++i) std::swap(at[i], at[i + r.below(n - i)]); else if (where == 1) std::reverse(at.begin(), at.end());
    for (size_t i = 0; i < diff; ++i) b.px[at[i]] ^= (unsigned char)(r.chance(1, 2) ? 1 : r.range(1, 255)); }
  bool alike = readable_a && readable_b && a.w == b.w && a.h == b.h && a.c == b.c && diff * 50 <= n;
  std::string pa = "a" + std::to_string(r.below(9)) + ".img", pb = "b.img"; unlink(pa.c_str()); unlink(pb.c_str()); int how = (int)r.below(3);
  auto save = [&](const std::string & p, const Img & m, bool ok) { if (ok) write_img(p, m); else if (how == 0) put(p, "not an image"); else if (how == 1) put(p, ""); };
  save(pa, a, readable_a); save(pb, b, readable_b);
  vm::case_("images %dx%dx%d and %dx%dx%d, %zu of %zu samples differ, readable %d %d", a.w, a.h, a.c, b.w, b.h, b.c, diff, n, readable_a, readable_b);
  size_t fds = open_files(); bool g1, g2, g3, g4; { Hush h; g1 = imageCompare(pa, pb); g2 = imageCompare(pb, pa); g3 = imageCompare(pa, pa); g4 = imageCompare(pb, pb); }
  const char * w = alike ? "alike images are told apart" : "different images are taken to be alike";
  vm::ok(g1 == alike, "image", w); vm::ok(g2 == alike, "image:swapped", w); vm::ok(g3 == readable_a, "image:self", "an image is not alike itself"); vm::ok(g4 == readable_b, "image:self", "an image is not alike itself");
  vm::ok(open_files() == fds, "image:fds", "a file was left open");
  vm::count(alike ? "images_alike" : "images_different"); if (diff == lim || diff == lim + 1) vm::count("images_at_the_limit"); vm::distinct(vm::hmix(vm::hmix(a.w * 1000 + a.h, a.c * 10 + kind), diff)); (void)k;
}

// ---- files
static void files(vm::Rng & r, uint64_t k) {
  size_t n = r.chance(1, 6) ? 0 : r.chance(1, 4) ? (size_t)r.range(4000, 70000) : (size_t)r.range(1, 200); std::string a(n, 0); bool text = r.chance(1, 2); for (auto & c : a) c = text ? "ab \n\r\t"[r.below(6)] : (char)r.next();
  std::string b = a; int kind = (int)r.below(6); bool ga = true, gb = true;
  if (kind == 1 && n) b[r.chance(1, 3) ? n - 1 : r.chance(1, 2) ? 0 : r.below(n)] ^= (char)(1 << r.below(8));
  else if (kind == 2) b += (char)r.next(); else if (kind == 3 && n) b.pop_back(); else if (kind == 4 && n > 1) { size_t i = r.below(n - 1); std::swap(b[i], b[i + 1]); } else if (kind == 5) { (r.chance(1, 2) ? ga : gb) = false; if (r.chance(1, 3)) ga = gb = false; }
  unlink("fa"); unlink("fb"); if (ga) put("fa", a); if (gb) put("fb", b); bool same = ga && gb && a == b;
  vm::case_("files of %zu and %zu bytes, kind %d, present %d %d", a.size(), b.size(), kind, ga, gb); size_t fds = open_files();
  bool s1, s2, e1, e2; { Hush h; s1 = compareFiles("fa", "fb"); s2 = compareFiles("fb", "fa"); e1 = fileExists("fa"); e2 = fileExists("fb"); }
  vm::ok(s1 == same && s2 == same, "files", same ? "identical files are told apart" : "different files are taken to be identical"); vm::ok(e1 == ga && e2 == gb, "exists", "a file's existence is misreported");
  { Hush h; vm::ok(compareFiles("fa", "fa") == ga && compareFiles("fb", "fb") == gb, "files:self", "a file is not identical to itself exactly when it can be read"); }
  vm::ok(open_files() == fds, "files:fds", "a file was left open"); if (ga) vm::ok(slurp("fa") == a, "files:changed", "a compared file was changed");
  vm::count(same ? "files_same" : "files_different"); vm::distinct(vm::hstr(a, vm::hstr(b)));  (void)k;
}

// ---- replacement in text
static void replacing(vm::Rng & r, uint64_t k) {
  std::string s(r.below(30), 'a'); for (auto & c : s) c = (char)r.range('a', 'c'); std::string p(r.range(1, 4), 'a'); for (auto & c : p) c = (char)r.range('a', 'c'); std::string q(r.below(6), 'a'); for (auto & c : q) c = (char)r.range('a', 'd');
  if (r.chance(1, 6)) { for (auto * t : { &s, &p, &q }) for (auto & c : *t) if (r.chance(1, 2)) c = "\0\xff\n%"[r.below(4)]; } if (r.chance(1, 20)) { std::string big(r.below(6000), 'a'); for (auto & c : big) c = (char)r.range('a', 'b'); s = big + s; }
  vm::case_s("replace '" + p + "' by '" + q + "' in '" + s + "'"); std::string want = s; size_t at = std::string::npos;
  for (size_t i = 0; i + p.size() <= s.size(); ++i) { bool eq = true; for (size_t j = 0; j < p.size(); ++j) eq &= s[i + j] == p[j]; if (eq) { at = i; break; } }
  if (at != std::string::npos) want = std::string(s.begin(), s.begin() + (long)at) + q + std::string(s.begin() + (long)(at + p.size()), s.end());
  std::string got; try { got = replaceInString(s, p, q); vm::ok(got == want, "replace", "'" + got + "' instead of '" + want + "'"); } catch (std::exception & e) { vm::ok(false, "replace:threw", std::string("threw ") + e.what()); }
  vm::count(at == std::string::npos ? "texts_without" : "texts_with"); vm::distinct(vm::hstr(s, vm::hstr(p, vm::hstr(q)))); (void)k;
}

// ---- logs
static void logs(vm::Rng & r, uint64_t k) {
  auto text = [&]() { std::string t(r.below(300), 'x'); for (auto & c : t) c = r.chance(1, 8) ? '\n' : (char)r.next(); return t; };
  std::string name = "log" + std::to_string(r.below(1000)), held; unlink((name + ".log").c_str()); size_t fds = open_files(); int n = (int)r.range(1, 6); vm::case_("log history %llu of %d steps", (unsigned long long)k, n);
  for (int i = 0; i < n; ++i) { std::string t = text(); switch (r.below(3)) { case 0: writeLog(name, t); held = t; break; case 1: writeLogApp(name, t); held += t; break; default: writeLogNew(name, t); held = t; } vm::ok(slurp(name + ".log") == held, "log:file", "the log file does not hold what was logged"); }
  unlink((name + ".log").c_str());
  { bool named = r.chance(1, 2); std::string f = "ilog" + std::to_string(r.below(100)) + ".txt"; std::string acc; { InsituLog l = InsituLog(f); InsituLog d; InsituLog & g = named ? l : d; if (!named) { if (r.chance(1, 2)) { g.setOutputFilename(f); } else f = "untitled.log"; }
      for (int i = 0; i < n; ++i) { std::string t = text(); switch (r.below(4)) { case 0: g.clear(); acc.clear(); break; case 1: g.writeToDisk(); vm::ok(slurp(f) == acc, "log:object", "the file written does not hold the log"); break; default: g.log << t; acc += t; } }
      g.writeToDisk(); } vm::ok(slurp(f) == acc, "log:object", "the file written does not hold the log"); unlink(f.c_str()); }
  vm::ok(open_files() == fds, "log:fds", "a file was left open"); vm::count("log_steps", (uint64_t)n); vm::distinct(vm::hmix(k, (uint64_t)n));
}

// ---- timers
static void timers(vm::Rng & r, uint64_t k) {
  using clk = std::chrono::system_clock; struct T { clk::time_point before, after; bool started = false, stopped = false; double lo = 0, hi = 0; }; std::map<std::string, T> m; InsituTimer t0, t1("t0"); bool given = r.chance(1, 2); InsituTimer & t = given ? t1 : t0;
  if (given) { auto & x = m["t0"]; x.started = true; x.after = clk::now(); x.before = x.after - std::chrono::seconds(5); }
  vm::case_("timer history %llu", (unsigned long long)k); Hush h; auto sec = [](clk::duration d) { return std::chrono::duration<double>(d).count(); };
  for (int i = 0; i < 24; ++i) { std::string n = "t" + std::to_string(r.below(4)); T & x = m[n];
    switch (r.below(5)) {
      case 0: case 1: { auto b = clk::now(); vm::ok(t.start(n) == 1, "timer:start", "a timer cannot be started"); x = T(); x.before = b; x.after = clk::now(); x.started = true; break; }
      case 2: if (x.stopped) break; { auto a = clk::now(); int g = t.stop(n); auto b = clk::now(); vm::ok(g == (x.started ? 1 : -1), "timer:stop", "stopping reports the wrong outcome"); if (x.started) { x.stopped = true; x.lo = sec(a - x.after); x.hi = sec(b - x.before); } break; }
      case 3: std::this_thread::sleep_for(std::chrono::microseconds(r.below(300))); break;
      default: { double d = t.getDuration(n); if (!x.stopped) vm::ok(d == -1, "timer:unstopped", "a timer that has not been stopped has a duration"); else vm::ok(d >= x.lo - 1e-4 - x.lo * 1e-3 && d <= x.hi + 1e-4 + x.hi * 1e-3, "timer:duration", "reported " + std::to_string(d) + " s, measured between " + std::to_string(x.lo) + " and " + std::to_string(x.hi)); vm::count("durations_read"); } } }
  vm::distinct(vm::hmix(k, 77));
}

int main(int argc, char ** argv) {
  vm::init(argc, argv); char tmpl[] = "vmon-is-XXXXXX"; char cwd[4096];
  if (!mkdtemp(tmpl) || chdir(tmpl) || !getcwd(cwd, sizeof cwd)) { perror("scratch"); return 70; }
  root = cwd; mkdir("d1", 0755); mkdir("d1/d2", 0755); mkdir("d.1", 0755); mkdir("d\\1", 0755);
  struct S { const char * n; uint64_t base; void (*f)(vm::Rng &, uint64_t); } s[] = { { "scripts", 1500, scripts }, { "images", 1500, images }, { "files", 800, files }, { "replace", 20000, replacing }, { "logs", 400, logs }, { "timers", 60, timers } };
  if (vm::section("scripts")) no_scripts();
  for (auto & x : s) if (vm::section(x.n)) { auto r = vm::rng(x.n); for (uint64_t k = 0; k < vm::n(x.base); ++k) x.f(r, k); }
  if (chdir("..")) return 70; std::string rm = "/bin/rm -rf " + root; if (root.find("/vmon-is-") != std::string::npos && system(rm.c_str())) {}
  return vm::finish();
}
