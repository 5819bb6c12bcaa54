// U01: a message appears exactly once, on the selected stream, iff its level is enabled
#include "common.h"
#include <BSMPT/utility/Logger.h>
#include <BSMPT/utility/parser.h>
HARNESS_MAIN
using namespace BSMPT;
using L = LoggingLevel;

static const std::vector<L> LV{L::None, L::Default, L::MinimizerDetailed, L::MinTracerDetailed, L::TransitionDetailed, L::GWDetailed, L::BounceDetailed, L::ProgDetailed, L::EWBGDetailed, L::Debug, L::Complete};
static const std::vector<std::string> NM{"none", "default", "minimizerdetailed", "mintracerdetailed", "transitiondetailed", "gwdetailed", "bouncedetailed", "progdetailed", "ewbgdetailed", "debug", "complete"};
static bool initial[11];

struct World // the specification
{
  bool on[11] = {};
  int sink    = 0; // 0,1: string streams, 2,3: files, 4: a file that cannot be opened
  std::string text[5];
};
static std::stringstream S[2];
static std::string F[3];
struct Op { std::string name; std::function<void()> real; std::function<void(World &)> spec; };

static std::string slurp(const std::string &f)
{
  std::ifstream i(f);
  std::stringstream s;
  s << i.rdbuf();
  return s.str();
}
static long msg = 0;
static bool probe(World &w, const std::string &hist)
{
  for (size_t i = 0; i < LV.size(); i++)
    for (int form = 0; form < 3; form++)
    {
      std::string m = "m" + std::to_string(msg++), line = m;
      if (form == 0) Logger::Write(LV[i], m);
      if (form == 1) { Logger::Write(LV[i], m, "f.cpp"); line = "file: f.cpp; " + m; }
      if (form == 2) { Logger::Write(LV[i], m, "g.cpp", 12); line = "file: g.cpp; Line: 12; " + m; }
      h.evaluations++;
      if (w.on[i] && w.sink != 4) w.text[w.sink] += line + "\n";
    }
  for (int k = 0; k < 4; k++)
  {
    std::string got = k < 2 ? S[k].str() : w.sink == k || !w.text[k].empty() ? slurp(F[k - 2]) : w.text[k];
    if (!h.check(got == w.text[k], "after " + hist + ": stream " + std::to_string(k) + " holds \"" + got.substr(0, 200) + "\" instead of \"" + w.text[k].substr(0, 200) + "\"")) return false;
  }
  for (size_t i = 0; i < LV.size(); i++)
    if (!h.check(Logger::GetLoggingLevelStatus(LV[i]) == w.on[i], "after " + hist + ": status of level " + NM[i])) return false;
  return true;
}
static void reset(World &w)
{
  for (auto l : LV) Logger::SetLevel(l, false);
  for (auto &s : S) { s.str(""); s.clear(); }
  Logger::SetOStream(S[0]);
  for (int i = 0; i < 2; i++) remove(F[i].c_str());
  w = World();
}
static std::vector<Op> ops(bool all)
{
  std::vector<Op> o;
  for (size_t i = 0; i < LV.size(); i++)
    for (bool v : {true, false})
      if (all || i == 1 || (i == 2 && v)) o.push_back({NM[i] + (v ? "+" : "-"), [i, v] { Logger::SetLevel(LV[i], v); }, [i, v](World &w) { w.on[i] = v; }});
  for (int k = 0; k < 2; k++) o.push_back({"stream" + std::to_string(k), [k] { Logger::SetOStream(S[k]); }, [k](World &w) { w.sink = k; }});
  for (int k = 0; k < 2; k++) // selecting a file starts it anew
    o.push_back({"file" + std::to_string(k), [k] { Logger::SetOStream(F[k]); }, [k](World &w) { w.sink = 2 + k; w.text[2 + k].clear(); }});
  o.push_back({"badfile", [] { Logger::SetOStream(F[2]); }, [](World &w) { w.sink = 4; }});
  o.push_back({"disable", [] { Logger::Disable(); }, [](World &w) { for (auto &x : w.on) x = false; }});
  o.push_back({"map", [] { Logger::SetLevel({{L::Default, true}, {L::Debug, true}, {L::GWDetailed, false}}); }, [](World &w) { w.on[1] = w.on[9] = true; w.on[5] = false; }});
  auto cli = [&](const std::string &n, std::vector<std::string> a, std::function<void(World &)> f, bool parserToo) {
    o.push_back({"args:" + n, [a] { SetLogger(a); }, f});
    if (parserToo) o.push_back({"parser:" + n, [a] { parser p(true); p.add_input(a); }, f});
  };
  cli("none", {}, [](World &) {}, true);
  cli("unrelated", {"--model=sm", "x"}, [](World &) {}, false);
  cli("disabled", {"--logginglevel::debug=true", "--logginglevel::disabled"}, [](World &w) { for (auto &x : w.on) x = false; }, true);
  // "complete" enables everything except the output of the minimisers
  cli("complete", {"--logginglevel::complete=true"}, [](World &w) { for (int i = 1; i < 11; i++) w.on[i] = i != 2; }, true);
  cli("complete-", {"--logginglevel::complete=false"}, [](World &w) { w.on[10] = false; }, true);
  for (size_t i = 1; i < 10; i++)
    for (bool v : {true, false})
      if (all || i == 1) cli(NM[i] + (v ? "+" : "-"), {"--logginglevel::" + NM[i] + "=" + (v ? "true" : "false")}, [i, v](World &w) { w.on[i] = v; }, true);
  cli("two", {"--logginglevel::default=false", "--model=x", "--logginglevel::minimizerdetailed=true"}, [](World &w) { w.on[1] = false; w.on[2] = true; }, false);
  return o;
}
static void explore(const std::vector<Op> &o, int depth, size_t first)
{
  // depth-first over all sequences that start with `first`; the state is rebuilt for each one
  std::vector<size_t> q;
  std::function<bool()> rec = [&]() -> bool {
    World w;
    reset(w);
    std::string hist;
    h.traces++;
    for (auto i : q)
    {
      o[i].real();
      o[i].spec(w);
      hist += o[i].name + " ";
      h.transitions++;
    }
    h.states++;
    if (!probe(w, hist)) return false;
    if (h.samples.size() < 3 && (int)q.size() == depth) h.sample(hist);
    if ((int)q.size() < depth)
      for (size_t i = 0; i < o.size(); i++)
      {
        q.push_back(i);
        if (!rec()) return false;
        q.pop_back();
      }
    return true;
  };
  q.push_back(first);
  rec();
  Logger::SetOStream(std::cout);
  h.outcome(o[first].name);
}
void run_all()
{
  for (size_t i = 0; i < LV.size(); i++) initial[i] = Logger::GetLoggingLevelStatus(LV[i]);
  auto cw = getenv("CHK_WORK");
  std::string d = std::string(cw ? cw : "/tmp") + "/log" + std::to_string(getpid()) + "_";
  F[0] = d + "a";
  F[1] = d + "b";
  F[2] = d + "missing/x";
  std::stringstream devnull;
  auto *keep = std::cout.rdbuf(devnull.rdbuf()); // "Disable logger"
  h.run("initial", [] {
    for (size_t i = 0; i < LV.size(); i++) h.check(initial[i] == (LV[i] == L::Default), "initial state of level " + NM[i]);
  });
  auto all = ops(true), few = ops(false);
  for (size_t i = 0; i < all.size(); i++) h.run("all:" + all[i].name, [&] { explore(all, h.thorough ? 3 : 2, i); devnull.str(""); });
  for (size_t i = 0; i < few.size(); i++) h.run("deep:" + few[i].name, [&] { explore(few, h.thorough ? 4 : 3, i); devnull.str(""); });
  std::cout.rdbuf(keep);
  for (auto &f : F) remove(f.c_str());
  h.assumptions = {"selecting a file starts it anew; disabling switches all levels off until they are enabled again"};
}
