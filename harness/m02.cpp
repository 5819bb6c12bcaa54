// M02: a point is read from its line exactly, in the documented column order, for every layout and number notation
#include "models.h"
HARNESS_MAIN
using namespace mo;

// number notations that denote exactly the value
static std::vector<std::pair<std::string, std::function<std::string(double)>>> formats()
{
  auto pf = [](const char *f) { return [f](double d) { char b[80]; snprintf(b, 80, f, d); return std::string(b); }; };
  return {{"%.17g", pf("%.17g")}, {"%.17e", pf("%.17e")}, {"%+.17g", pf("%+.17g")}, {"%.17E", pf("%.17E")},
          {"mixed", [](double d) { char b[80]; static int n = 0; snprintf(b, 80, n++ % 2 ? "%.17g" : "%.17e", d); return std::string(b); }}};
}
static std::string build(const std::vector<std::string> &c, const std::string &sep, const std::string &lead, const std::string &trail)
{
  return lead + join(c, sep) + trail;
}
// n-th distinct parameter vector: every entry different, integral Yukawa type
static Vec distinct(const Spec &s, int n)
{
  Vec p(s.nPar);
  for (size_t i = 0; i < p.size(); i++) p[i] = (n % 2 ? -1. : 1.) * (0.1 + i) / 3 + n;
  if (n == 2)
    for (size_t i = 0; i < p.size(); i++) p[i] = 1e-5 * (i + 1) / 7;
  if (n == 3)
    for (size_t i = 0; i < p.size(); i++) p[i] = -1e7 / (i + 1.);
  if (n == 4)
    for (size_t i = 0; i < p.size(); i++) p[i] = (double)i;
  for (auto t : {std::string("R2HDM"), std::string("C2HDM"), std::string("N2HDM")})
    if (s.name == t) p[t == "R2HDM" ? 7 : t == "C2HDM" ? 8 : 11] = 1 + n % 4;
  if (s.name == "CxSM")
  { // the VEVs of valid points
    p[0] = 246 + n; p[1] = n % 2 ? 100 + n / 3. : 0; p[2] = n < 2 ? 0 : 50 + n / 7.;
  }
  return p;
}
static void layouts(const Spec &s, std::shared_ptr<Class_Potential_Origin> m, const Vec &p, bool index)
{
  h.states++;
  const std::vector<std::string> seps{"\t", " ", "   ", " \t", "\t\t"}, leads{"", " ", "  \t"}, trails{"", "\t", " ", "\r", "\t7.5\t-1e3", "\tabc"};
  for (auto &f : formats())
    for (auto &sep : seps)
      for (auto &lead : leads)
        for (auto &trail : trails)
          for (std::string idx : {"1", "0", "1023", "-3.5"})
          {
            if (!index && idx != "1") continue;
            auto c = columns(s, p, f.second);
            if (index) c.insert(c.begin(), idx);
            std::string l = build(c, sep, lead, trail);
            m->setUseIndexCol(index ? "\tx\ty" : "x\ty");
            // different contents of the vector that is filled: everything has to be overwritten
            for (double junk : {0., 123.25})
            {
              Vec r(s.nPar, junk);
              m->ReadAndSet(l, r);
              h.transitions++;
              for (size_t i = 0; i < s.nPar; i++)
                if (!h.check(r.size() == s.nPar && r[i] == p[i], "parameter " + std::to_string(i) + " read as " + fmt17(r[i]) + " instead of " + fmt17(p[i]) + " from \"" + l + "\"")) return;
            }
          }
  h.traces++;
  h.outcome(s.name + (index ? " with" : " without") + " index column");
}
// sequences of files: the index setting is that of the last header
static void headers(const Spec &s)
{
  auto m = make(Point{&s, "", {}}, false);
  h.states++;
  h.check(!m->getUseIndexCol(), "a new model does not expect an index column");
  const std::vector<std::pair<std::string, bool>> hd{{"x\ty", false}, {"\tx\ty", true}, {" x\ty", false}, {"x\t\ty", false}, {"\t", true}, {"", false}, {"\t\tx", true}};
  int len = h.thorough ? 3 : 2;
  std::vector<size_t> q(len, 0);
  while (true)
  {
    for (auto i : q)
    {
      m->setUseIndexCol(hd[i].first);
      h.transitions++;
      if (!h.check(m->getUseIndexCol() == hd[i].second, "index column expected after header \"" + hd[i].first + "\"")) return;
      auto p = distinct(s, i % 5);
      auto c = columns(s, p, fmt17);
      if (hd[i].second) c.insert(c.begin(), "17");
      Vec r(s.nPar, -1);
      m->ReadAndSet(join(c, "\t"), r);
      if (!h.check(r == p, "parameters after header \"" + hd[i].first + "\"")) return;
    }
    int k = 0;
    while (k < len && ++q[k] == hd.size()) q[k++] = 0;
    if (k == len) break;
    h.traces++;
  }
  h.outcome(s.name + " headers");
}
// the model that results from a line is the one that results from its numbers; other lines have no influence
static void model(const std::vector<Point> &ps, size_t a, size_t b, bool index)
{
  auto &s  = *ps[a].s;
  auto f   = make(ps[b]);
  auto m   = make(ps[b], false);
  auto txt = [&](size_t i) { auto c = columns(s, ps[i].par, fmt17); if (index) c.insert(c.begin(), std::to_string(i)); return join(c, "\t"); };
  h.states++;
  m->setUseIndexCol(index ? "\tx" : "x");
  if (a != b)
  {
    auto r = m->initModel(txt(a));
    h.check(r.first == ps[a].par, "parameters of the first line");
  }
  auto r = m->initModel(txt(b));
  h.check(r.first == ps[b].par && m->get_parStored() == ps[b].par, "parameters of the line " + str(r.first) + " vs " + str(ps[b].par));
  h.check(r.second == f->get_parCTStored() && m->get_parCTStored() == r.second, "counterterms of the line");
  h.check(m->get_vevTreeMin() == f->get_vevTreeMin(), "tree-level minimum of the line");
  Oracle o(ps[b]);
  auto w = s.vev(ps[b].par);
  for (size_t i = 0; i < w.size(); i++) h.close(m->get_vevTreeMin(i), w[i], 1e-12, 1e-12, "tree-level minimum entry " + std::to_string(i));
  for (double T : {0., 70.})
    for (int k = 0; k < 3; k++)
    {
      Vec v(s.nVEV);
      for (size_t i = 0; i < v.size(); i++) v[i] = k * w[i] + 20 * k - 11. * i;
      auto x = o.expand(v);
      h.transitions++;
      h.same(m->VEff(x, T), f->VEff(x, T), "potential at " + str(v));
      h.close(m->VTree(x), o.tree(x), 1e-9, 100, "tree-level potential at " + str(v));
      h.check(m->HiggsMassesSquared(x, T) == f->HiggsMassesSquared(x, T) && m->QuarkMassesSquared(x) == f->QuarkMassesSquared(x), "masses at " + str(v));
    }
  h.traces++;
  h.outcome(s.name + " model" + (index ? " with" : " without") + " index column");
  if (h.samples.size() < 3) h.sample(txt(b));
}
// model names
static void names()
{
  h.states++;
  const std::vector<std::pair<std::string, ID>> n{{"sm", ID::SM}, {"r2hdm", ID::R2HDM}, {"c2hdm", ID::C2HDM}, {"n2hdm", ID::N2HDM}, {"cxsm", ID::CXSM}, {"cpinthedark", ID::CPINTHEDARK}, {"template", ID::TEMPLATE}};
  for (auto &x : n)
    // all upper/lower case spellings
    for (int mask = 0; mask < (1 << x.first.size()); mask++)
    {
      auto t = x.first;
      for (size_t i = 0; i < t.size(); i++)
        if (mask >> i & 1) t[i] = toupper(t[i]);
      h.transitions++;
      if (!h.check(ModelID::getModel(t) == x.second, "model named " + t)) break;
    }
  for (std::string bad : {"", "s", "smm", "2hdm", "c2hdm ", "cxsm\t", "notset", "stop", "NotSet"})
  {
    h.check(ModelID::getModel(bad) == ID::NotSet, "no model is called \"" + bad + "\"");
    for (size_t i = 0; i < n.size(); i++) h.transitions++;
  }
  for (auto id : {ID::NotSet, ID::stop})
  {
    bool thrown = false;
    try { ModelID::FChoose(id, GetSMConstants()); }
    catch (std::runtime_error &) { thrown = true; }
    h.check(thrown, "FChoose of an invalid model throws");
  }
  auto inv = ModelID::InvertModelNames();
  for (auto &x : n) h.check(inv.count(x.second) && inv[x.second] == x.first, "inverse name of " + x.first);
  for (auto &x : n)
  {
    auto m = ModelID::FChoose(x.second, GetSMConstants());
    h.check(m->Model == x.second, "FChoose returns the model " + x.first);
  }
  h.traces++;
  h.outcome("names");
}
void run_all()
{
  Logger::Disable();
  h.run("names", names);
  for (auto &s : specs())
  {
    h.run(s.name + ":headers", [&] { headers(s); });
    for (int n = 0; n < 5; n++)
      for (bool index : {false, true})
        h.run(s.name + ":layouts:" + std::to_string(n) + (index ? ":index" : ""), [&, n] {
          auto m = ModelID::FChoose(s.id, GetSMConstants());
          layouts(s, std::move(m), distinct(s, n), index);
        });
    auto ps = points(s.name, h.thorough);
    size_t n = ps.size(), step = h.thorough ? 1 : std::max<size_t>(1, n / 4);
    for (size_t b = 0; b < n; b += step)
      for (bool index : {false, true})
      {
        if (!h.thorough && s.nH > 6 && index != ((b / step) % 2 == 0)) continue;
        size_t a = (b + 1 + b % 3) % n;
        h.run(ps[b].key + ":after:" + std::to_string(a) + (index ? ":index" : ""), [&, a, b, index] { model(ps, a, b, index); });
      }
  }
  h.assumptions = {"the documented column order is that of the headers of the example files"};
}
