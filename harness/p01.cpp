// P01: options are understood identically and completely in every notation
#include "common.h"
#include <BSMPT/utility/Logger.h>
#include <BSMPT/utility/parser.h>
#include <optional>
HARNESS_MAIN
using namespace BSMPT;

struct Arg { std::string text, key, value; bool hasValue; }; // key: lower case
static std::string low(std::string s) { for (auto &c : s) c = tolower(c); return s; }

struct Decl { std::string name; bool required; int form; };
static const std::vector<std::vector<Decl>> DECLS{
    {{"model", true, 1}, {"firstLine", true, 2}, {"useGSL", false, 1}},
    {{"Input", true, 0}, {"vwall", false, 2}},
    {{"in", false, 0}, {"input", false, 1}, {"INPUTFILE", true, 2}},
    {}};
static std::unique_ptr<parser> declare(int ctor, const std::vector<Decl> &d, int order)
{
  std::unique_ptr<parser> p(ctor == 0 ? new parser() : new parser(ctor == 1));
  auto e = d;
  if (order) std::reverse(e.begin(), e.end());
  for (auto &x : e)
  {
    if (x.form == 0) p->add_argument(x.name, x.required);
    if (x.form == 1) p->add_argument(x.name, "description of " + x.name, x.required);
    if (x.form == 2) p->add_argument(x.name, "description of " + x.name, "dflt", x.required);
  }
  return p;
}
static std::vector<Arg> alphabet(const std::vector<Decl> &d)
{
  std::vector<Arg> a;
  int n = 0;
  std::vector<std::string> vals{"x1", "", "a=b", "a b", "-1", "--model=z", "True", "1e3", "../p/q.tsv", "=", " x "};
  for (auto &x : d)
    for (size_t v = 0; v < vals.size(); v++)
    {
      auto k = x.name;
      switch ((n++) % 5)
      {
      case 0: a.push_back({"--" + k + "=" + vals[v], low(k), vals[v], true}); break;
      case 1: a.push_back({"-" + k + "=" + vals[v], low(k), vals[v], true}); break;
      case 2: a.push_back({k + "=" + vals[v], low(k), vals[v], true}); break;
      case 3: for (auto &c : k) c = toupper(c); a.push_back({"--" + k + "=" + vals[v], low(k), vals[v], true}); break;
      case 4:
        if (vals[v].find('=') == std::string::npos) a.push_back({"--" + k + " " + vals[v], low(k), vals[v], true});
        break;
      }
    }
  if (!d.empty()) a.push_back({"--" + d[0].name, low(d[0].name), "", false});
  a.push_back({"--help", "help", "", false});
  a.push_back({"--unknown=3", "unknown", "3", true});
  a.push_back({"--mode=3", "mode", "3", true});
  a.push_back({"", "", "", false});
  a.push_back({"--", "", "", false});
  a.push_back({"--=5", "", "5", true});
  return a;
}
struct Model
{
  std::map<std::string, std::optional<std::string>> v; // declared names -> value; "*" if only set
  std::map<std::string, bool> req;
};
static Model model(int ctor, const std::vector<Decl> &d)
{
  Model m;
  std::vector<std::string> l{"default", "debug", "disabled", "ewbgdetailed", "progdetailed", "minimizerdetailed"};
  if (ctor) for (auto x : {"transitiondetailed", "mintracerdetailed", "bouncedetailed", "gwdetailed", "complete"}) l.push_back(x);
  for (auto &x : l) m.v["logginglevel::" + x] = std::nullopt;
  if (!ctor) m.v["json"] = std::nullopt;
  for (auto &x : d) { m.v[low(x.name)] = std::nullopt; m.req[low(x.name)] = x.required; }
  return m;
}
static const std::string SET = "\x01(set)";
// applies a list of arguments; false when the list must be rejected
static bool applyArgs(Model &m, const std::vector<Arg> &q)
{
  for (auto &a : q)
  {
    if (a.key == "help") continue;
    auto it = m.v.find(a.key);
    if (it == m.v.end()) return false;
    it->second = a.hasValue ? a.value : SET;
  }
  return true;
}
template <class T> static void conv(parser &p, const std::string &k, const std::string &v, const char *nm)
{
  bool wt = false, gt = false;
  T w{}, g{};
  try
  {
    if constexpr (std::is_same<T, bool>::value) w = low(v) == "true";
    else if constexpr (std::is_same<T, int>::value) w = std::stoi(v);
    else if constexpr (std::is_same<T, unsigned>::value) w = std::stoul(v);
    else w = std::stod(v);
  }
  catch (std::exception &) { wt = true; }
  try { g = p.get_value<T>(k); }
  catch (std::exception &) { gt = true; }
  h.check(wt == gt && (wt || g == w), std::string("option ") + k + "=\"" + v + "\" read as " + nm);
}
static bool compare(parser &p, const Model &m, const std::string &hist, bool full)
{
  bool all = true;
  for (auto &x : m.v)
  {
    h.transitions++;
    std::vector<std::string> keys{x.first};
    if (full) { auto u = x.first; for (auto &c : u) c = toupper(c); keys.push_back(u); }
    for (auto &k : keys)
    {
      std::optional<std::string> got;
      try { got = p.get_value(k); }
      catch (parserException &) {}
      bool ok = got.has_value() == x.second.has_value() && (!got || *x.second == SET || *got == *x.second);
      if (!h.check(ok, "after " + hist + ": option " + k + " is " + (got ? "\"" + *got + "\"" : "not set") + ", supplied was " + (x.second ? "\"" + *x.second + "\"" : "nothing"))) return false;
      if (full && got && *x.second != SET)
      {
        conv<int>(p, k, *got, "int");
        conv<unsigned>(p, k, *got, "unsigned");
        conv<double>(p, k, *got, "double");
        conv<bool>(p, k, *got, "bool");
      }
    }
    auto r = m.req.find(x.first);
    if (r != m.req.end() && r->second && !x.second) all = false;
  }
  bool thrown = false;
  try { p.get_value("undeclared option"); }
  catch (parserException &) { thrown = true; }
  h.check(thrown, "an undeclared option has no value");
  if (!h.check(p.all_required_set() == all, "after " + hist + ": all_required_set")) return false;
  thrown = false;
  try { p.check_required_parameters(); }
  catch (parserException &) { thrown = true; }
  return h.check(thrown == !all, "after " + hist + ": check_required_parameters");
}
static std::string show(const std::vector<Arg> &q)
{
  std::string s = "[";
  for (auto &a : q) s += "'" + a.text + "' ";
  return s + "]";
}
static void one(int ctor, size_t di, int order, const std::vector<Arg> &q, size_t split, bool full)
{
  auto p = declare(ctor, DECLS[di], order);
  auto m = model(ctor, DECLS[di]);
  h.states++;
  h.traces++;
  // the arguments arrive in two calls
  std::vector<std::vector<Arg>> parts{std::vector<Arg>(q.begin(), q.begin() + split), std::vector<Arg>(q.begin() + split, q.end())};
  std::string hist;
  for (auto &pt : parts)
  {
    std::vector<std::string> t;
    for (auto &a : pt) t.push_back(a.text);
    hist += show(pt);
    bool want = applyArgs(m, pt), got = true;
    std::string why;
    try { p->add_input(t); }
    catch (parserException &e) { got = false; why = e.what(); }
    catch (std::exception &e) { got = false; why = e.what(); if (want) why += " (unexpected kind)"; }
    if (!h.check(got == want, hist + (want ? " is rejected: " + why : " is accepted"))) return;
    if (!want) { h.outcome("rejected"); return; }
  }
  compare(*p, m, hist, full);
  h.outcome("ctor " + std::to_string(ctor) + " declarations " + std::to_string(di) + " length " + std::to_string(q.size()));
}
static void sequences(int ctor, size_t di, int first)
{
  auto a = alphabet(DECLS[di]);
  if (h.samples.empty()) h.sample(show({a[0], a[a.size() / 2]}));
  if (first < 0) for (int order = 0; order < 2; order++) one(ctor, di, order, {}, 0, true);
  if (first >= 0)
  {
    auto &x = a[first];
    one(ctor, di, 0, {x}, 0, true);
    for (auto &y : a)
    {
      one(ctor, di, 1, {x, y}, 0, h.thorough);
      one(ctor, di, 0, {x, y}, 1, false);
      if (h.thorough || a.size() < 30)
        for (auto &z : a) one(ctor, di, 0, {x, y, z}, 2, false);
    }
    if (h.violations.size() > 5) return;
  }
}
// JSON: the same settings in a file
static std::string jq(const std::string &s)
{
  std::string r = "\"";
  for (char c : s)
  {
    if (c == '"' || c == '\\') r += '\\';
    if (c == '\n') { r += "\\n"; continue; }
    if (c == '\t') { r += "\\t"; continue; }
    r += c;
  }
  return r + "\"";
}
static void json(int ctor, size_t di, const std::string &file)
{
  std::vector<std::string> vals{"x1", "", "a=b", "a b", "-1", "--model=z", "True", "../p \"q\".tsv", "c:\\d", "1.5\t2", "\xc3\xa9"};
  auto &d = DECLS[di];
  // every assignment of {absent, value} to the options; keys in both cases; with and without comments
  size_t n = d.size(), tot = 1;
  for (size_t i = 0; i < n; i++) tot *= vals.size() + 1;
  for (size_t c = 0; c < tot; c++)
    for (int variant = 0; variant < 3; variant++)
    {
      if (!h.thorough && tot > 200 && (c + variant) % 3) continue;
      auto m = model(ctor, d);
      std::vector<std::string> t, js;
      size_t r = c;
      if (variant == 1) js.push_back("\"note_comment\": \"anything\"");
      for (size_t i = 0; i < n; i++)
      {
        size_t k = r % (vals.size() + 1);
        r /= vals.size() + 1;
        if (!k) continue;
        auto nm = d[i].name;
        if (variant == 2) nm = low(nm);
        t.push_back("--" + nm + "=" + vals[k - 1]);
        js.push_back(jq(nm) + ": " + jq(vals[k - 1]));
        m.v[low(nm)] = vals[k - 1];
        if (variant == 1) js.push_back(jq(nm + "_comment") + ": " + jq("zzz"));
      }
      {
        std::ofstream o(file);
        o << "{\n";
        for (size_t i = 0; i < js.size(); i++) o << "  " << js[i] << (i + 1 < js.size() ? ",\n" : "\n");
        o << "}\n";
      }
      h.states++;
      h.traces++;
      std::string text;
      for (auto &x : js) text += x + " ";
      auto p = declare(ctor, d, 0), q = declare(ctor, d, 1);
      try { p->add_input(std::vector<std::string>{(variant ? "--json=" : "-json=") + file}); }
      catch (std::exception &e) { h.check(false, "JSON {" + text + "} rejected: " + e.what()); return; }
      if (!compare(*p, m, "JSON {" + text + "}", false)) return;
      q->add_input(t);
      if (!compare(*q, m, "command line of {" + text + "}", false)) return;
    }
  auto bad = [&](const std::string &content, const std::string &what, bool write) {
    if (write) { std::ofstream o(file); o << content; }
    auto p = declare(ctor, d, 0);
    bool thrown = false;
    try { p->add_input(std::vector<std::string>{"--json=" + (write ? file : file + ".missing")}); }
    catch (std::exception &) { thrown = true; }
    h.check(thrown, what + " is accepted");
    h.states++;
  };
  bad("{\"unknown\": \"3\"}", "JSON with an unknown option", true);
  bad("{\"model\": ", "truncated JSON", true);
  bad("", "empty JSON", true);
  bad("", "a missing JSON file", false);
  h.outcome("json " + std::to_string(ctor) + " " + std::to_string(di));
}
static void help(int ctor, size_t di)
{
  auto &d = DECLS[di];
  for (int how = 0; how < 4; how++)
  {
    std::stringstream s;
    Logger::SetOStream(s);
    Logger::SetLevel(LoggingLevel::Default, true);
    auto p = declare(ctor, d, 0);
    p->set_help_header("the header");
    if (ctor) { p->add_subtext("more text"); p->add_argument_only_display("shown", "only shown", "7"); }
    try
    {
      if (how == 0) p->add_input(std::vector<std::string>{"--help"});
      if (how == 1) p->print_help();
      if (how == 2) p->add_input(std::vector<std::string>{"--HELP"});
      if (how == 3)
      {
        bool req = false;
        for (auto &x : d) req |= x.required;
        if (req) p->check_required_parameters();
        else p->print_help();
      }
    }
    catch (parserException &) { h.check(how == 3, "asking for help throws"); }
    p->print_help(); // only once
    Logger::SetOStream(std::cout);
    Logger::SetLevel(LoggingLevel::Default, false);
    auto t = s.str();
    auto count = [&](const std::string &x) { int n = 0; for (size_t i = t.find(x); i != std::string::npos; i = t.find(x, i + 1)) n++; return n; };
    h.check(count("the header") == 1, "help shows its header once, not " + std::to_string(count("the header")) + " times");
    for (auto &x : d)
    {
      if (x.form) h.check(count("description of " + x.name) >= 1, "help describes " + x.name);
      if (x.form || !ctor) h.check(count("--" + x.name) >= 1, "help names " + x.name);
    }
    if (ctor == 1) h.check(count("only shown") == 1 && count("more text") == 1, "additional help text");
    h.states++;
    h.traces++;
  }
  h.outcome("help " + std::to_string(ctor));
}
void run_all()
{
  std::stringstream devnull;
  auto *keep = std::cout.rdbuf(devnull.rdbuf());
  Logger::Disable();
  auto cw = getenv("CHK_WORK");
  std::string f = std::string(cw ? cw : "/tmp") + "/p01_" + std::to_string(getpid()) + ".json";
  for (int ctor = 0; ctor < 3; ctor++)
    for (size_t d = 0; d < DECLS.size(); d++)
    {
      auto k = std::to_string(ctor) + ":" + std::to_string(d);
      h.run("seq:" + k, [&] { sequences(ctor, d, -1); });
      for (size_t x = 0; x < alphabet(DECLS[d]).size(); x++) h.run("seq:" + k + ":" + std::to_string(x), [&, x] { sequences(ctor, d, x); });
      h.run("json:" + k, [&] { json(ctor, d, f); });
      h.run("help:" + k, [&] { help(ctor, d); });
    }
  remove(f.c_str());
  std::cout.rdbuf(keep);
  h.assumptions = {"in the notation '--key value' (one argument) the value contains no '='", "the value of an option given without one is not specified"};
}
