// I03: command line arguments
#include "vmon.h"
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include "ristra/initialization/arguments.h"
using namespace ristra::initialization;

struct Redirect { std::ostream & s; std::ostringstream os; std::streambuf * old; explicit Redirect(std::ostream & t) : s(t), old(t.rdbuf(os.rdbuf())) {} ~Redirect() { s.rdbuf(old); } };
enum Kind { flag, integer, real, text, big, list };
struct Opt { std::string name; char shrt; Kind k; std::string group, help; };

struct Given { std::map<std::string, long long> i; std::map<std::string, double> d; std::map<std::string, std::string> s; std::map<std::string, std::vector<int>> v; std::set<std::string> f; };

static std::string word(vm::Rng & r) { static const char * w[] = { "alpha", "bravo", "charlie", "delta", "echo", "foxtrot", "golf", "hotel", "india", "juliet", "kilo", "lima", "mike", "november" }; return w[r.below(14)]; }
static std::string value(vm::Rng & r) { std::string s(r.range(1, 12), 'x'); for (auto & c : s) { do c = (char)r.range(33, 126); while (false); } if (s[0] == '-' || s[0] == '=') s[0] = 'q'; if (r.chance(1, 4)) s += " with spaces"; if (r.chance(1, 6)) s += "=more=\"" ; if (r.chance(1, 8)) s += "\xc3\xa9"; if (r.chance(1, 40)) s += std::string(5000, 'L'); return s; }

static void one(vm::Rng & r, uint64_t k) {
  command_line_arguments_t cl; std::vector<Opt> opts; std::set<std::string> groups; std::set<std::string> used; std::string shorts = "abcdefgijklmnopqrstuvwxyz"; std::map<std::string, std::string> titles;
  int n = (int)r.range(0, r.chance(1, 6) ? 24 : 9); bool help = r.chance(1, 2);
  for (int i = 0; i < n; ++i) { Opt o; o.name = word(r) + std::to_string(i) + "z"; o.shrt = r.chance(1, 2) ? shorts[(size_t)i] : 0; o.k = (Kind)r.below(6); o.group = "g" + std::to_string(r.below(3)); o.help = "help_" + std::to_string(r.below(100000)); opts.push_back(o); }
  for (auto & g : { "g0", "g1", "g2" }) if (r.chance(2, 3)) { titles[g] = "Title" + std::to_string(r.below(100000)); vm::ok(cl.register_group(g, titles[g]), "register:group", "a group cannot be registered"); }
  for (auto & o : opts) { std::string f = o.name + (o.shrt ? std::string(",") + o.shrt : ""); bool b = false;
    switch (o.k) { case flag: b = cl.register_argument(o.group, f, o.help); break; case integer: b = cl.register_argument<int>(o.group, f, o.help); break; case real: b = cl.register_argument<double>(o.group, f, o.help); break; case text: b = cl.register_argument<std::string>(o.group, f, o.help); break; case big: b = cl.register_argument<long long>(o.group, f, o.help); break; case list: b = cl.register_argument<std::vector<int>>(o.group, f, o.help); break; }
    vm::ok(b, "register:argument", "an argument cannot be registered"); }
  if (help) cl.register_argument(r.chance(1, 2) ? "g0" : "other", "help,h", "produce help");
  for (auto & g : { "g0", "g1", "g2" }) if (r.chance(1, 4)) vm::ok(cl.register_group(g, "Again"), "register:again", "a group cannot be registered again"); // what is registered already stays
  for (int round = 0; round < 3; ++round) { // the same registrations serve several command lines
    Given g; std::vector<std::vector<std::string>> parts; bool bad = false; std::string why; bool asked = false;
    for (auto & o : opts) { if (!r.chance(2, 3)) continue; std::string v;
      switch (o.k) {
        case flag: g.f.insert(o.name); parts.push_back({ o.shrt && r.chance(3, 4) ? std::string("-") + o.shrt : "--" + o.name }); continue;
        case integer: { int x = r.chance(1, 5) ? (r.chance(1, 2) ? 2147483647 : -2147483647 - 1) : (int)r.next() >> r.below(31); g.i[o.name] = x; v = std::to_string(x); break; }
        case big: { long long x = (long long)r.next() >> r.below(63); g.i[o.name] = x; v = std::to_string(x); break; }
        case real: { double x = r.chance(1, 3) ? (double)r.range(-9, 9) : r.uniform(-1e6, 1e6) * std::pow(10., (double)r.range(-30, 30)); char b[64]; snprintf(b, sizeof b, "%.17g", x); v = b; g.d[o.name] = x; break; }
        case text: v = value(r); g.s[o.name] = v; break;
        case list: { int m = (int)r.range(1, 4); std::vector<int> xs; for (int i = 0; i < m; ++i) { int x = (int)r.range(0, 999); xs.push_back(x); } g.v[o.name] = xs; for (int x : xs) parts.push_back({ "--" + o.name + "=" + std::to_string(x) }); continue; } }
      if (round == 2 && !bad && r.chance(1, 3) && (o.k == integer || o.k == real || o.k == big)) { bad = true; static const char * junk[] = { "abc", "1x", "1.5.2", "99999999999999999999999", "0xzz" }; v = junk[r.below(5)]; if (o.k == real && v == std::string("99999999999999999999999")) v = "no"; why = v; }
      bool neg = v[0] == '-'; std::string abbr = o.name.substr(0, o.name.size() - 1); int alike = 0; for (auto & q : opts) alike += q.name.rfind(abbr, 0) == 0; if (alike == 1 && r.chance(1, 8)) { if (neg || r.chance(1, 2)) parts.push_back({ "--" + abbr + "=" + v }); else parts.push_back({ "--" + abbr, v }); vm::count("abbreviated"); continue; }
      bool sh = o.shrt && r.chance(1, 3);
      if (sh) { if (neg || v[0] == '=' || r.chance(1, 3)) parts.push_back({ std::string("-") + o.shrt + v }); else parts.push_back({ std::string("-") + o.shrt, v }); }
      else if (neg || r.chance(1, 2)) parts.push_back({ "--" + o.name + "=" + v }); else parts.push_back({ "--" + o.name, v });
      if (round == 2 && !bad && o.k != list && r.chance(1, 8)) { bad = true; why = "given twice"; parts.push_back({ "--" + o.name + "=" + v }); } }
    if (help && r.chance(1, 3)) { parts.push_back({ r.chance(1, 2) ? "--help" : "-h" }); asked = true; g.f.insert("help"); }
    if (r.chance(1, 3)) parts.push_back({ "--zz-unknown-" + std::to_string(r.below(9)) + "=" + std::to_string(r.below(99)) });
    if (r.chance(1, 5)) parts.push_back({ "positional" + std::to_string(r.below(9)) });
    for (int i = 0, m = r.chance(1, 4) ? (int)r.below(8) : 0; i < m; ++i) { std::string up = opts.empty() ? "NONE" : opts[r.below(opts.size())].name; for (auto & c : up) c = (char)toupper(c); // others' arguments, some much like registered ones
      switch (r.below(6)) { case 0: parts.push_back({ "--" + up + "=77" }); break; case 1: parts.push_back({ "--zz-sep", "word" + std::to_string(i) }); break; case 2: parts.push_back({ "-Z" }); break; case 3: parts.push_back({ "-Qab" }); break; case 4: parts.push_back({ "file" + std::to_string(i) + ".txt" }); break; default: parts.push_back({ "--" + (opts.empty() ? std::string("none") : opts[0].name) + "q=5" }); } vm::count("unregistered"); }
    if (r.chance(1, 4)) { // several short flags in one word
      std::string all = "-"; std::vector<std::vector<std::string>> keep; for (auto & p : parts) { bool m = false; if (p.size() == 1 && p[0].size() == 2 && p[0][0] == '-' && p[0][1] != 'Z') for (auto & o : opts) if (o.k == flag && o.shrt == p[0][1]) m = true; if (m) all += p[0][1]; else keep.push_back(p); } if (all.size() > 2) vm::count("merged_flags"); if (all.size() > 1) keep.push_back({ all }); parts = keep; }
    // list options must keep their order; everything else is shuffled
    std::vector<std::vector<std::string>> lists, rest; for (auto & p : parts) { bool is = false; for (auto & o : opts) if (o.k == list && p[0].rfind("--" + o.name + "=", 0) == 0) is = true; (is ? lists : rest).push_back(p); }
    for (size_t i = rest.size(); i > 1; --i) std::swap(rest[i - 1], rest[r.below(i)]);
    { size_t at = 0; for (auto & l : lists) { at = at + r.below(rest.size() - at + 1); rest.insert(rest.begin() + (long)at, l); ++at; } } // in order, but anywhere
    if (round == 2 && !bad && r.chance(1, 6)) for (auto & o : opts) if ((o.k == integer || o.k == real || o.k == text) && !g.i.count(o.name) && !g.d.count(o.name) && !g.s.count(o.name)) { bad = true; why = "no value"; rest.push_back({ o.k == text || r.chance(1, 2) ? "--" + o.name : "--" + o.name + "=" }); break; }
    if (!bad && r.chance(1, 10)) { rest.push_back({ "--" }); for (auto & o : opts) if (r.chance(1, 3)) rest.push_back({ "--" + o.name + "=9" }); vm::count("terminated"); } // nothing after this counts
    std::string prog = std::string(r.chance(1, 2) ? "" : r.chance(1, 2) ? "./" : "/opt/some dir/") + "prog" + std::to_string(r.below(1000)); std::vector<std::string> words{ prog }; for (auto & p : rest) for (auto & w : p) words.push_back(w);
    std::vector<char *> argv; for (auto & w : words) argv.push_back(&w[0]); argv.push_back(nullptr);
    std::string desc; for (auto & w : words) desc += "'" + w + "' "; bool print = r.chance(1, 2); vm::case_s(desc + (print ? "print" : "silent"));
    std::vector<std::string> before = words; Redirect out(std::cout), err(std::cerr); auto res = print && r.chance(1, 2) ? cl.process_arguments((int)words.size(), argv.data()) : cl.process_arguments((int)words.size(), argv.data(), print); std::string so = out.os.str(), se = err.os.str();
    vm::ok(words == before, "argv", "the command line was changed");
    vm::ok(res.error == bad, "error", bad ? "a malformed command line is accepted (" + why + ")" : "a well-formed command line is refused: " + se);
    auto usage = [&](const std::string & s, const char * what) { vm::ok(s.find(prog) != std::string::npos, std::string(what) + ":program", "the program is not named"); for (auto & o : opts) vm::ok(s.find("--" + o.name) != std::string::npos && s.find(o.help) != std::string::npos, std::string(what) + ":option", "an option is not listed with its description"); 
      for (auto & o : opts) if (titles.count(o.group)) vm::ok(s.find(titles[o.group]) != std::string::npos, std::string(what) + ":title", "the title of a group is not shown"); };
    if (!print) vm::ok(so.empty() && se.empty(), "silent", "something is printed though nothing should be");
    else if (res.error) { usage(se, "error-usage"); vm::ok(se.find("ERROR") != std::string::npos, "error:said", "the error is not reported"); vm::count("errors_reported"); }
    else if (asked) { usage(so, "help"); vm::ok(se.empty(), "help:quiet", "help reports an error"); vm::count("helps_shown"); }
    else vm::ok(so.empty() && se.empty(), "chatter", "a well-formed command line prints something");
    if (!res.error && !bad) { auto & v = res.variables;
      for (auto & o : opts) { const std::string & N = o.name; std::string K = std::string("value:") + "fird bl"[o.k] ; K = "value:" + std::to_string((int)o.k); bool have = false;
        switch (o.k) {
          case flag: have = g.f.count(N); break;
          case integer: have = g.i.count(N); { int d = (int)r.next(); vm::ok(v.as<int>(N, d) == (have ? (int)g.i[N] : d) && v.as<int>(N) == (have ? (int)g.i[N] : 0), K, "an integer argument has another value, or its default is not used"); } break;
          case big: have = g.i.count(N); { long long d = (long long)r.next(); vm::ok(v.as<long long>(N, d) == (have ? g.i[N] : d), K, "a long argument has another value"); } break;
          case real: have = g.d.count(N); { double d = r.unit(); vm::ok(v.as<double>(N, d) == (have ? g.d[N] : d) && v.as<double>(N) == (have ? g.d[N] : 0.), K, "a real argument has another value"); } break;
          case text: have = g.s.count(N); { std::string d = value(r); vm::ok(v.as<std::string>(N, d) == (have ? g.s[N] : d) && v.as<std::string>(N) == (have ? g.s[N] : ""), K, "a text argument has another value"); } break;
          case list: have = g.v.count(N); { std::vector<int> d{ 7 }; vm::ok(v.as<std::vector<int>>(N, d) == (have ? g.v[N] : d), K, "a repeated argument has other values"); } break; }
        vm::ok((v.count(N) != 0) == have, "count", have ? "an argument that was given does not count" : "an argument that was not given counts"); vm::count(have ? "arguments_given" : "arguments_defaulted"); }
      vm::ok(v.count("help") == (asked ? 1u : 0u), "count:help", "help is counted wrongly"); vm::ok(v.count("zz-unknown-1") == 0 && v.as<int>("never", 5) == 5, "unknown", "an unregistered argument has a value");
      vm::count("command_lines_accepted"); } else vm::count("command_lines_refused");
    std::string m = cl.print_missing_argument("needed" + std::to_string(k)); usage(m, "missing"); vm::ok(m.find("needed" + std::to_string(k)) != std::string::npos && out.os.str() == so && err.os.str() == se, "missing:name", "the missing argument is not named"); vm::distinct(vm::hstr(desc));
  }
}
int main(int argc, char ** argv) {
  vm::init(argc, argv);
  if (vm::section("lines")) { vm::Rng r = vm::rng("lines"); for (uint64_t k = 0; k < vm::n(400); ++k) one(r, k); }
  if (vm::section("instance")) { vm::case_("instance"); auto & a = command_line_arguments_t::instance(); auto & b = command_line_arguments_t::instance(); vm::ok(&a == &b, "instance", "instance() is not one object"); a.register_argument<int>("x", "size", "s"); std::vector<std::string> w{ "p", "--size=3" }; std::vector<char *> v{ &w[0][0], &w[1][0], nullptr }; vm::ok(b.process_arguments(2, v.data(), false).variables.as<int>("size") == 3, "instance:shared", "registrations are not shared"); 
    bool t = false; try { (void)b.process_arguments(2, v.data(), false).variables.as<std::string>("size"); } catch (const std::exception &) { t = true; } vm::ok(t, "type", "an argument is read as another type than registered"); }
  return vm::finish();
}
