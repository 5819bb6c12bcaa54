// M01: a model object is a function of its last input, not of its history
#include "models.h"
#include <sys/wait.h>
HARNESS_MAIN
using namespace mo;
using MP = std::shared_ptr<Class_Potential_Origin>;

// --- evaluations: each returns numbers ---------------------------------------
struct Eval { std::string name; bool slow; std::function<Vec(Class_Potential_Origin &, const Spec &)> f; };
static Vec conf(const Spec &s, int k)
{
  Vec v(s.nH, 0.);
  const double a[3][5] = {{0, 100, 50, 0, 30}, {13, 31, -77, 20, 150}, {5, 240, 17, -9, -60}};
  for (size_t i = 0; i < s.nVEV; i++) v[s.order[i]] = a[k][s.nVEV <= 3 ? i + 1 : i];
  return v;
}
static void app(Vec &a, const Vec &b) { a.insert(a.end(), b.begin(), b.end()); }
static std::vector<Eval> evals()
{
  std::vector<Eval> e;
  auto add = [&](const std::string &n, bool slow, std::function<Vec(Class_Potential_Origin &, const Spec &)> f) { e.push_back({n, slow, f}); };
  for (int k = 0; k < 2; k++)
    for (double T : {0., 80., 150.})
      add("VEff" + std::to_string(k) + "@" + str(T), false, [k, T](Class_Potential_Origin &m, const Spec &s) { return Vec{m.VEff(conf(s, k), T), m.VEff(conf(s, k), T, 0, 0)}; });
  add("gradient", false, [](Class_Potential_Origin &m, const Spec &s) { Vec r; for (size_t i = 0; i < s.nVEV; i++) r.push_back(m.VEff(conf(s, 1), 90, s.order[i] + 1)); return r; });
  add("dVdT", false, [](Class_Potential_Origin &m, const Spec &s) { return Vec{m.VEff(conf(s, 0), 120, -1)}; });
  add("V1Loop", false, [](Class_Potential_Origin &m, const Spec &s) { return Vec{m.V1Loop(conf(s, 2), 60, 0)}; });
  add("tree+CT", false, [](Class_Potential_Origin &m, const Spec &s) {
    auto x = conf(s, 2);
    return Vec{m.VTree(x, 0, false), m.VTree(x, 0, true), m.CounterTerm(x, 0, false), m.CounterTerm(x, 0, true), m.VTree(x, 3, true), m.CounterTerm(x, 3, true)};
  });
  add("masses", false, [](Class_Potential_Origin &m, const Spec &s) {
    Vec r;
    for (double T : {0., 100.})
    {
      app(r, m.HiggsMassesSquared(conf(s, 1), T));
      app(r, m.GaugeMassesSquared(conf(s, 1), T));
    }
    app(r, m.QuarkMassesSquared(conf(s, 1)));
    app(r, m.LeptonMassesSquared(conf(s, 1)));
    app(r, m.HiggsMassesSquared(conf(s, 2), 0, 3));
    return r;
  });
  add("stored", false, [](Class_Potential_Origin &m, const Spec &) {
    Vec r = m.get_parStored();
    app(r, m.get_parCTStored());
    app(r, m.get_vevTreeMin());
    r.push_back(m.get_scale());
    return r;
  });
  add("symmetric phase", false, [](Class_Potential_Origin &m, const Spec &s) {
    Vec v(s.nVEV, 7.), w = m.MinimizeOrderVEV(v);
    m.SetEWVEVZero(v);
    app(w, v);
    w.push_back(m.EWSBVEV(conf(s, 1)));
    w.push_back(m.CheckNLOVEV(m.get_vevTreeMin()));
    w.push_back(m.CheckNLOVEV(Vec(s.nVEV, 3.)));
    return w;
  });
  add("Nabla and Hesse of Coleman-Weinberg", true, [](Class_Potential_Origin &m, const Spec &) { Vec r = m.WeinbergFirstDerivative(); app(r, m.WeinbergSecondDerivative()); return r; });
  add("calc_CT", true, [](Class_Potential_Origin &m, const Spec &) { return m.calc_CT(); });
  add("trilinear", true, [](Class_Potential_Origin &m, const Spec &s) {
    m.Prepare_Triple();
    m.TripleHiggsCouplings();
    Vec r;
    for (size_t i = 0; i < s.nH; i++)
      for (size_t j = i; j < s.nH; j++)
        for (size_t k = j; k < s.nH; k++)
        {
          r.push_back(m.get_TripleHiggsCorrectionsTreePhysical(i, j, k));
          r.push_back(m.get_TripleHiggsCorrectionsCTPhysical(i, j, k));
          r.push_back(m.get_TripleHiggsCorrectionsCWPhysical(i, j, k));
        }
    return r;
  });
  return e;
}
static const std::vector<Eval> EV = evals();

static std::vector<Vec> finger(Class_Potential_Origin &m, const Spec &s, bool slow)
{
  std::vector<Vec> r;
  for (auto &e : EV) r.push_back(e.slow && !slow ? Vec{} : e.f(m, s));
  return r;
}
static bool eq(const Vec &a, const Vec &b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), 8 * a.size()) || std::equal(a.begin(), a.end(), b.begin(), [](double x, double y) { return x == y || (std::isnan(x) && std::isnan(y)); })); }
static bool cmp(const std::vector<Vec> &a, const std::vector<Vec> &b, const std::string &what)
{
  for (size_t i = 0; i < a.size(); i++)
  {
    if (a[i].empty() || b[i].empty()) continue;
    h.transitions++;
    size_t k = 0;
    if (eq(a[i], b[i])) { h.evaluations++; continue; }
    while (k < a[i].size() && k < b[i].size() && (a[i][k] == b[i][k] || (std::isnan(a[i][k]) && std::isnan(b[i][k])))) k++;
    h.check(false, what + ": " + EV[i].name + " entry " + std::to_string(k) + " is " + (k < a[i].size() ? fmt17(a[i][k]) : "missing") + ", a fresh model gives " + (k < b[i].size() ? fmt17(b[i][k]) : "nothing"));
    return false;
  }
  return true;
}
// runs f in a child process that has no history at all and returns its numbers
static std::vector<Vec> forked(const std::function<std::vector<Vec>()> &f)
{
  int fd[2];
  if (pipe(fd)) throw std::runtime_error("pipe");
  fflush(stdout);
  pid_t c = fork();
  if (!c)
  {
    close(fd[0]);
    FILE *o = fdopen(fd[1], "wb");
    try
    {
      for (auto &v : f())
      {
        size_t n = v.size();
        fwrite(&n, 8, 1, o);
        fwrite(v.data(), 8, n, o);
      }
      fclose(o);
    }
    catch (...)
    {
      _exit(1);
    }
    _exit(0);
  }
  close(fd[1]);
  FILE *i = fdopen(fd[0], "rb");
  std::vector<Vec> r;
  size_t n;
  while (fread(&n, 8, 1, i) == 1)
  {
    Vec v(n);
    if (n && fread(v.data(), 8, n, i) != n) break;
    r.push_back(v);
  }
  fclose(i);
  int st = 0;
  waitpid(c, &st, 0);
  if (r.size() != EV.size()) throw std::runtime_error("the evaluation by a fresh model failed");
  return r;
}
static std::map<std::string, std::vector<Vec>> refs;
static const std::vector<Vec> &ref(const Point &p)
{
  auto &r = refs[p.key];
  if (r.empty())
    r = forked([&] { auto m = make(p); return finger(*m, *p.s, true); });
  return r;
}
static std::string line(const Point &p) { return join(columns(*p.s, p.par, fmt17), "\t"); }

// --- operations ---------------------------------------------------------------
struct Op { std::string name; bool quick; std::function<void(Class_Potential_Origin &, const Spec &, const Point &A, const Point &B)> f; };
static std::vector<Op> ops()
{
  std::vector<Op> o;
  auto add = [&](const std::string &n, bool q, std::function<void(Class_Potential_Origin &, const Spec &, const Point &, const Point &)> f) { o.push_back({n, q, f}); };
  add("init-A", true, [](Class_Potential_Origin &m, const Spec &, const Point &A, const Point &) { m.initModel(A.par); });
  add("init-A-line", false, [](Class_Potential_Origin &m, const Spec &, const Point &A, const Point &) { m.initModel(line(A)); });
  add("init-B", false, [](Class_Potential_Origin &m, const Spec &, const Point &, const Point &B) { m.initModel(B.par); });
  add("reset-scale", true, [](Class_Potential_Origin &m, const Spec &, const Point &, const Point &) { m.resetScale(400); });
  add("set-scale", true, [](Class_Potential_Origin &m, const Spec &, const Point &, const Point &) { m.set_scale(150); });
  add("user-CT", true, [](Class_Potential_Origin &m, const Spec &s, const Point &, const Point &) { Vec c(s.nCT); for (size_t i = 0; i < s.nCT; i++) c[i] = 3 + i; m.set_CT_Pot_Par(c); });
  add("set-all-A", true, [](Class_Potential_Origin &m, const Spec &s, const Point &A, const Point &) { Vec c(s.nCT, 0.01); m.set_All(A.par, c); });
  add("set-gen-A", false, [](Class_Potential_Origin &m, const Spec &, const Point &A, const Point &) { m.set_gen(A.par); });
  add("read-A", true, [](Class_Potential_Origin &m, const Spec &s, const Point &A, const Point &) { Vec p(s.nPar); m.ReadAndSet(line(A), p); });
  add("debye", true, [](Class_Potential_Origin &m, const Spec &, const Point &, const Point &) { m.CalculateDebye(true); m.CalculateDebyeGauge(); });
  add("tree-level", true, [](Class_Potential_Origin &m, const Spec &s, const Point &, const Point &) { m.SetUseTreeLevel(true); m.VEff(conf(s, 0), 80); m.VEff(conf(s, 1), 0); m.SetUseTreeLevel(false); });
  add("trilinear", true, [](Class_Potential_Origin &m, const Spec &s, const Point &, const Point &) { m.Prepare_Triple(); m.TripleHiggsCouplings(); });
  add("couplings", false, [](Class_Potential_Origin &m, const Spec &, const Point &, const Point &) { m.CalculatePhysicalCouplings(); });
  add("evaluate", true, [](Class_Potential_Origin &m, const Spec &s, const Point &, const Point &) { finger(m, s, false); m.FindSignSymmetries(); m.write(); m.addLegendCT(); m.addLegendTripleCouplings(); });
  add("other-object", true, [](Class_Potential_Origin &, const Spec &s, const Point &A, const Point &) { auto x = make(A); finger(*x, s, false); });
  add("other-model", false, [](Class_Potential_Origin &, const Spec &s, const Point &, const Point &) { auto &t = specs()[s.name == "SM" ? 4 : 0]; auto x = make(points(t.name, false)[0]); finger(*x, t, false); });
  return o;
}
static const std::vector<Op> OPS = ops();

static void seq(const Point &A, const Point &B, const std::vector<size_t> &q, bool asline)
{
  auto &s = *A.s;
  h.states++;
  auto &rB = ref(B);
  auto m   = make(A);
  finger(*m, s, false);
  for (auto i : q)
  {
    try
    {
      OPS[i].f(*m, s, A, B);
    }
    catch (std::runtime_error &) // an operation may refuse an incompletely initialised model
    {
      h.notes["refused"]++;
    }
    h.transitions++;
  }
  std::string how = asline ? "initModel(line)" : "initModel(parameters)";
  Vec ct;
  if (asline) { auto r = m->initModel(line(B)); ct = r.second; h.check(eq(r.first, B.par), "parameters returned by initModel(line)"); }
  else ct = m->initModel(B.par);
  std::string hist;
  for (auto i : q) hist += OPS[i].name + " ";
  auto f = finger(*m, s, true);
  cmp(f, rB, "after the history (" + hist + ") and " + how);
  h.check(eq(ct, m->get_parCTStored()), "counterterms returned are the stored ones");
  h.traces++;
  h.outcome(s.name + " " + how + " depth " + std::to_string(q.size()));
  if (h.samples.size() < 3) h.sample(s.name + ": " + A.key + " -> " + hist + "-> " + how + " " + B.key);
}
// evaluations do not influence each other: all ordered pairs (x, y): y after x is y alone
static void pairs(const Point &A)
{
  auto &s = *A.s;
  auto &r = ref(A);
  auto m  = make(A);
  h.states++;
  for (size_t x = 0; x < EV.size(); x++)
    for (size_t y = 0; y < EV.size(); y++)
    {
      if ((EV[x].slow || EV[y].slow) && !h.thorough && s.nH > 6 && !(EV[x].slow != EV[y].slow && (x % 3 == 0 || y % 3 == 0))) continue;
      if (EV[x].slow && EV[y].slow && !h.thorough) continue;
      EV[x].f(*m, s);
      auto v = EV[y].f(*m, s);
      h.transitions += 2;
      if (!h.check(eq(v, r[y]), EV[y].name + " after " + EV[x].name + " differs from its value in a fresh model")) return;
    }
  h.traces++;
  h.outcome(s.name + " pairs of evaluations");
}
// a model set with set_All is the model of these parameters and counterterms
static void setall(const Point &A, const Point &B)
{
  auto &s = *A.s;
  Vec c(s.nCT);
  for (size_t i = 0; i < s.nCT; i++) c[i] = 0.3 + 0.1 * i;
  auto r = forked([&] { auto m = make(B, false); m->set_All(B.par, c); return finger(*m, s, false); });
  auto m = make(A);
  finger(*m, s, true);
  m->set_All(B.par, c);
  auto f = finger(*m, s, false);
  // the stored input parameters are not part of set_All
  for (size_t i = 0; i < EV.size(); i++)
    if (EV[i].name == "stored") { f[i].clear(); }
  cmp(f, r, "set_All on a used object");
  h.states++;
  h.traces++;
  h.outcome(s.name + " set_All");
}
// the renormalisation scale: going to another scale and back restores the model
static void scale(const Point &A)
{
  auto &s = *A.s;
  auto &r = ref(A);
  auto m  = make(A);
  double q = m->get_scale();
  auto direct = forked([&] { auto x = make(A); x->resetScale(333); return finger(*x, s, false); });
  for (double t : {100., 600., 333.})
  {
    auto c = m->resetScale(t);
    h.transitions++;
    h.check(eq(c, m->get_parCTStored()) && m->get_scale() == t, "counterterms and scale of resetScale are stored");
    finger(*m, s, false);
  }
  cmp(finger(*m, s, false), direct, "scale 333 reached over 100 and 600");
  m->resetScale(q);
  cmp(finger(*m, s, true), r, "scale changed and restored");
  h.states++;
  h.traces++;
  h.outcome(s.name + " scale");
}
void run_all()
{
  Logger::Disable();
  for (auto &s : specs())
  {
    auto ps = points(s.name, h.thorough);
    // pairs of points: different Yukawa types / branches of the model
    std::vector<std::pair<size_t, size_t>> ab;
    size_t n = ps.size();
    if (s.name == "SM") ab = {{0, 1}, {1, 0}};
    else ab = {{0, n - 1}, {n - 1, 1}, {n / 2, 0}};
    if (h.thorough) ab.push_back({1, n / 3});
    bool cheap = s.name == "SM" || s.name == "CxSM";
    for (size_t k = 0; k < ab.size(); k++)
    {
      auto A = ps[ab[k].first], B = ps[ab[k].second];
      h.run(s.name + ":pairs:" + std::to_string(k), [&] { if (k == 0 || h.thorough || cheap) pairs(A); });
      h.run(s.name + ":setall:" + std::to_string(k), [&] { setall(A, B); });
      h.run(s.name + ":scale:" + std::to_string(k), [&] { if (k == 0 || h.thorough || cheap) scale(A); });
      int cnt = 0;
      auto go = [&](const std::vector<size_t> &q) {
        std::string key = s.name + ":" + std::to_string(k);
        for (auto i : q) key += ":" + OPS[i].name;
        bool asl = (cnt++ + k) % 2;
        h.run(key, [&] { seq(A, B, q, asl); });
        if (h.thorough && cheap) h.run(key + (asl ? ":par" : ":line"), [&] { seq(A, B, q, !asl); });
      };
      for (size_t i = 0; i < OPS.size(); i++)
        if (h.thorough || cheap || (OPS[i].quick && (k == 0 || i % 3 == k))) go({i});
      if (h.thorough || s.name == "SM")
        for (size_t i = 0; i < OPS.size(); i++)
          for (size_t j = 0; j < OPS.size(); j++)
            if (k == 0 || cheap) go({i, j});
      if (h.thorough && s.name == "SM" && k == 0)
        for (size_t i = 0; i < OPS.size(); i++)
          for (size_t j = 0; j < OPS.size(); j++)
            for (size_t l = 0; l < OPS.size(); l++) go({i, j, l});
    }
  }
  h.assumptions = {"the reference of every point is computed by a fresh object in a child process without any history", "a user's switch to tree level (SetUseTreeLevel) persists by design and is switched back"};
}
