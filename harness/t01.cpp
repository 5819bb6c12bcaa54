// T01: tracing of phases over temperature.
#include "toy.h"
#include <BSMPT/minimizer/Minimizer.h>
#include <BSMPT/minimum_tracer/minimum_tracer.h>
using namespace BSMPT;

// One field direction: V = s [ A/2 y^2 - b/4 y^4 + c/6 y^6 ], y = x/100, A = al (T^2-T0^2)/1e4 (+-).
struct Dir
{
  double al, T0, b, c;
  static constexpr double s = 2e7;
  double A(double T) const { return al * (T * T - T0 * T0) / 1e4; }
  double V(double x, double T) const
  {
    double y = x * x / 1e4;
    return s * (A(T) / 2 * y - b / 4 * y * y + c / 6 * y * y * y);
  }
  bool origin(double T) const { return A(T) > 0; }
  bool broken(double T) const
  {
    double d = b * b - 4 * c * A(T);
    return d > 0 && b + std::sqrt(d) > 0;
  }
  double x(double T) const { return 100 * std::sqrt(std::max(0., (b + std::sqrt(std::max(0., b * b - 4 * c * A(T)))) / (2 * c))); }
};
struct Pt
{
  int branch;
  Vec x;
  double V;
};
struct Fam
{
  std::string name;
  int n;
  std::function<double(const Vec &, double)> V;
  std::function<std::vector<Pt>(double)> mins; // all local minima in the first quadrant
  int branches;
  bool narrow = false; // has a phase that is shorter than the steps of the searches
};
static Fam sextic(const std::vector<Dir> &d, const std::string &name)
{
  Fam f;
  f.name = name;
  f.n    = d.size();
  f.V    = [d](const Vec &x, double T) {
    double r = 0;
    for (size_t i = 0; i < d.size(); i++) r += d[i].V(x[i], T);
    return r;
  };
  f.branches = 1 << d.size();
  auto V     = f.V;
  f.mins     = [d, V](double T) {
    std::vector<Pt> r;
    for (int m = 0; m < (1 << d.size()); m++)
    {
      Pt p{m, {}, 0};
      bool ok = true;
      for (size_t i = 0; i < d.size(); i++)
      {
        bool br = m >> i & 1;
        ok &= br ? d[i].broken(T) : d[i].origin(T);
        p.x.push_back(br ? d[i].x(T) : 0);
      }
      if (!ok) continue;
      p.V = V(p.x, T);
      r.push_back(p);
    }
    return r;
  };
  return f;
}
// V = A x^2/2 + l1 x^4/4 + B y^2/2 + l2 y^4/4 + l12 x^2 y^2/2
static Fam portal(double mu1, double c1, double l1, double mu2, double c2, double l2, double l12, const std::string &name)
{
  Fam f;
  f.name     = name;
  f.n        = 2;
  f.branches = 4;
  auto A     = [=](double T) { return -mu1 * mu1 + c1 * T * T; };
  auto B     = [=](double T) { return -mu2 * mu2 + c2 * T * T; };
  f.V        = [=](const Vec &x, double T) {
    double a = x[0] * x[0], b = x[1] * x[1];
    return A(T) * a / 2 + l1 * a * a / 4 + B(T) * b / 2 + l2 * b * b / 4 + l12 * a * b / 2;
  };
  auto V = f.V;
  f.mins = [=](double T) {
    std::vector<Pt> r;
    double a = A(T), b = B(T);
    auto add = [&](int k, double x, double y) { r.push_back({k, {x, y}, V({x, y}, T)}); };
    if (a > 0 && b > 0) add(0, 0, 0);
    if (a < 0 && b - l12 * a / l1 > 0) add(1, std::sqrt(-a / l1), 0);
    if (b < 0 && a - l12 * b / l2 > 0) add(2, 0, std::sqrt(-b / l2));
    double det = l1 * l2 - l12 * l12;
    if (det > 0)
    {
      double x2 = (-a * l2 + l12 * b) / det, y2 = (-b * l1 + l12 * a) / det;
      if (x2 > 0 && y2 > 0) add(3, std::sqrt(x2), std::sqrt(y2));
    }
    return r;
  };
  return f;
}
static double dist(const Vec &a, const Vec &b)
{
  double r = 0;
  for (size_t i = 0; i < a.size(); i++) r += std::pow(std::abs(a[i]) - std::abs(b[i]), 2);
  return std::sqrt(r);
}
static const Pt *best(const std::vector<Pt> &v)
{
  const Pt *r = nullptr;
  for (auto &p : v)
    if (!r || p.V < r->V) r = &p;
  return r;
}
static const Pt *branch(const std::vector<Pt> &v, int b)
{
  for (auto &p : v)
    if (p.branch == b) return &p;
  return nullptr;
}
// ew: the branch of the electroweak vacuum, -1 for the global minimum at T = 0
static void trace(const Fam &f, int mode, double TH, bool moved, int ew = -1)
{
  auto m0 = f.mins(0);
  if (!best(m0)) return;
  const Pt *tree = ew < 0 ? best(m0) : branch(m0, ew);
  if (!tree) return;
  auto tm = std::make_shared<toy::Model>(f.n, f.V, tree->x, f.n + (moved ? 2 : 0));
  if (moved)
  {
    for (int i = 0; i < f.n; i++) tm->VevOrder[i] = i + 1;
    tm->vevTree = Vec(tm->NHiggs, 0);
    for (int i = 0; i < f.n; i++) tm->vevTree[i + 1] = tree->x[i];
  }
  std::shared_ptr<Class_Potential_Origin> m = tm;
  auto t                                    = std::make_shared<MinimumTracer>(m, 6, false);
  Vacuum v(0, TH, t, m, mode, 10, false);
  h.states++;
  std::string st = StatusTracingToString.at(v.status_vacuum);
  // true branch ends
  std::vector<std::vector<std::pair<double, double>>> ranges(f.branches);
  for (int b = 0; b < f.branches; b++)
  {
    auto ex   = [&](double T) { return branch(f.mins(T), b) != nullptr; };
    bool in   = ex(0);
    double lo = 0;
    for (double st = f.narrow ? 0.01 : 0.25, T = st; T <= TH + 1e-9; T += st)
    {
      bool e = ex(T);
      if (e != in)
      {
        double a = T - st, c = T;
        for (int i = 0; i < 60; i++)
        {
          double q = (a + c) / 2;
          (ex(q) == in ? a : c) = q;
        }
        if (in) ranges[b].push_back({lo, a});
        else lo = c;
        in = e;
      }
    }
    if (in) ranges[b].push_back({lo, TH});
  }
  auto edge = [&](double T) {
    double d = 1e9;
    for (auto &r : ranges)
      for (auto &q : r) d = std::min({d, std::abs(q.first - T), std::abs(q.second - T)});
    return d;
  };
  double maxerr = 0, maxend = 0, maxpot = 0, maxgl = 0;
  std::string cls;
  for (size_t k = 0; k < v.PhasesList.size(); k++)
  {
    auto &p        = v.PhasesList[k];
    auto &l        = p.MinimumPhaseVector;
    std::string id = "phase " + std::to_string(k) + " [" + str(p.T_low) + "," + str(p.T_high) + "]";
    if (!h.check(l.size() >= 2, id + " has minima")) continue;
    h.check(p.T_low == l.front().temp && p.T_high == l.back().temp, id + " ends at its first and last minimum");
    h.check(p.T_low >= 0 && p.T_high <= TH, id + " inside the scan");
    for (size_t i = 0; i < l.size(); i++)
    {
      auto &q = l[i];
      h.transitions++;
      double pot = f.V(q.point, q.temp);
      maxpot     = std::max(maxpot, std::abs(pot - q.potential) / (1e3 + std::abs(pot)));
      h.check(std::abs(pot - q.potential) <= 1e-9 * std::abs(pot) + 1e-2, id + " stores the potential of the minimum at T=" + str(q.temp) + ": " + str(q.potential) + ", potential there " + str(pot));
      auto ms  = f.mins(q.temp);
      double d = 1e9;
      for (auto &a : ms) d = std::min(d, dist(a.x, q.point));
      if (edge(q.temp) < 0.05) // within the accuracy of the end points
        for (double t : {q.temp - 0.05, q.temp + 0.05, q.temp - 0.01, q.temp + 0.01, q.temp - 1e-3, q.temp + 1e-3, q.temp - 1e-4, q.temp + 1e-4})
          for (auto &a : f.mins(std::max(0., t))) d = std::min(d, dist(a.x, q.point));
      double e = edge(q.temp);
      if (e > 0.5) maxerr = std::max(maxerr, d);
      h.check(d < (e > 0.5 ? 0.5 : 6), id + " contains true minima: " + str(q.point) + " at T=" + str(q.temp) + " is " + str(d) + " away from the nearest one");
      if (i && !h.check(l[i].temp > l[i - 1].temp, id + " sorted in temperature")) break;
      if (i && !h.check(l[i].temp - l[i - 1].temp <= 1.0 + 1e-9, id + " has no gap: from T=" + str(l[i - 1].temp) + " to " + str(l[i].temp))) break;
      if (i && !h.check(dist(l[i].point, l[i - 1].point) <= (edge(l[i].temp) < 0.5 ? 4 : 1.05) * f.n + 0.01, id + " is continuous between T=" + str(l[i - 1].temp) + " and " + str(l[i].temp) + ": moves by " + str(dist(l[i].point, l[i - 1].point)))) break;
    }
    for (double T : {p.T_low, p.T_high})
    {
      double e = std::min({edge(T), std::abs(T), std::abs(T - TH)});
      maxend   = std::max(maxend, e);
      h.check(e < 0.05, id + " ends where the minimum ceases to exist: " + str(T) + ", nearest such temperature " + str(e) + " away");
    }
    // no phase is listed twice
    for (size_t j = 0; j < k; j++)
    {
      auto &o   = v.PhasesList[j];
      double lo = std::max(o.T_low, p.T_low), hi = std::min(o.T_high, p.T_high);
      if (hi - lo < 2) continue;
      double far = 0;
      for (int q = 1; q < 8; q++) far = std::max(far, dist(o.Get(lo + (hi - lo) * q / 8).point, p.Get(lo + (hi - lo) * q / 8).point));
      h.check(far > 0.9, id + " differs from phase " + std::to_string(j));
    }
    if (v.status_vacuum != StatusTracing::Success) continue;
    h.check(k == 0 || v.PhasesList[k - 1].T_high >= p.T_high, "phases are ordered by their upper end");
    h.check(p.id == (int)k, "phases are numbered in this order");
  }
  if (!f.narrow && !v.PhasesList.empty())
  { // the electroweak vacuum of T = 0, global or not, is part of a phase
    double d = 1e9;
    for (auto &p : v.PhasesList)
      if (p.T_low == 0) d = std::min(d, dist(p.MinimumPhaseVector.front().point, tree->x));
    h.check(d < 0.5, "the electroweak vacuum " + str(tree->x) + " of T=0 is traced, the nearest traced minimum is " + str(d) + " away");
  }
  // coverage by the global minimum
  auto covered = [&](double T, double &miss) {
    auto ms  = f.mins(T);
    auto *b  = best(ms);
    miss     = 1e300;
    for (auto &p : v.PhasesList)
      if (T >= p.T_low && T <= p.T_high) miss = std::min(miss, p.Get(T).potential - b->V);
    return miss;
  };
  bool all = true, any = true;
  double worst = 0, worstT = 0;
  for (int i = 0; i <= 60; i++)
  {
    double T = i == 60 ? TH : TH * i / 60;
    if (edge(T) < 0.3 && T > 0 && T < TH) continue;
    double miss;
    covered(T, miss);
    double sc = 1e-6 * Dir::s;
    if (miss > sc) all = false;
    if (miss > 1e200) any = false;
    if (miss > worst) worst = miss, worstT = T;
  }
  if (v.status_vacuum == StatusTracing::Success)
  {
    maxgl = std::max(maxgl, worst);
    if (mode == -1)
    { // the default mode looks at the upper end of the scan, the lower ends of the phases and a grid
      for (int i = 0; i <= 11; i++)
      {
        double T = i == 11 ? TH : TH * i / 11, miss;
        if (edge(T) < 0.3 && i > 0 && i < 11) continue;
        covered(T, miss);
        h.check(miss <= 1e-6 * Dir::s, "the lowest traced phase is the global minimum at T=" + str(T) + ": too high by " + str(miss));
      }
      h.check(any, "every temperature is covered by a phase");
    }
    else h.check(all, "success: the lowest traced phase is the global minimum everywhere; at T=" + str(worstT) + " it is too high by " + str(worst));
  }
  else if (!f.narrow)
  {
    h.check(mode == 0 || mode == 1, "tracing succeeds in mode " + std::to_string(mode) + ": " + st);
    // mode 0 judges the coverage by the phases of the lowest and of the highest temperature only
    bool meet = false;
    auto ms0 = f.mins(0), msH = f.mins(TH);
    for (auto &r : ranges[best(ms0)->branch])
      for (auto &q : ranges[best(msH)->branch])
        if (r.first <= 0 && q.second >= TH && q.first < r.second + 0.1) meet = true;
    // mode 1 judges by pairs of phases only: three phases at one temperature may be judged wrongly
    h.check(!all || (mode == 0 && !meet) || (mode == 1 && f.n > 2), "without success (" + st + ") something is missing");
    if (v.status_vacuum == StatusTracing::NoGlobMinCoverage) h.check(any, "only the coverage by the global minimum is missing");
  }
  // critical temperatures: crossings of the true branches
  for (auto &c : v.CoexPhasesList)
    if (c.crit_status == StatusCrit::Success)
    {
      double T = c.crit_temp;
      auto ms  = f.mins(T);
      double gap = 1e300;
      auto tp = c.true_phase.Get(T).point, fp = c.false_phase.Get(T).point;
      double Vt = 0, Vf = 0, dt = 1e9, df = 1e9;
      for (auto &q : ms)
      {
        if (dist(q.x, tp) < dt) dt = dist(q.x, tp), Vt = q.V;
        if (dist(q.x, fp) < df) df = dist(q.x, fp), Vf = q.V;
      }
      if (dist(tp, fp) < 1) continue;
      h.check(std::abs(Vt - Vf) < 2e-6 * Dir::s, "at the critical temperature " + str(T) + " the two true minima have the same depth: difference " + str(Vt - Vf));
    }
  if (!h.only.empty())
    for (auto &p : v.PhasesList) printf("%s: phase %d [%.6f,%.6f] %s .. %s n=%zu\n", st.c_str(), p.id, p.T_low, p.T_high, str(p.MinimumPhaseVector.front().point).c_str(), str(p.MinimumPhaseVector.back().point).c_str(), p.MinimumPhaseVector.size());
  h.notes["max_distance_to_minimum"] = std::max(h.notes["max_distance_to_minimum"], maxerr);
  h.notes["max_error_of_end"]        = std::max(h.notes["max_error_of_end"], maxend);
  h.outcome(f.name.substr(0, 2) + " n" + std::to_string(f.n) + " mode " + std::to_string(mode) + " " + st + " phases " + std::to_string(v.PhasesList.size()));
  h.sample(f.name + " mode " + std::to_string(mode) + ": " + std::to_string(v.PhasesList.size()) + " phases, " + st);
}

void run_all()
{
  std::vector<Fam> fs;
  std::vector<Dir> ds;
  for (double T0 : {40., 90., 151.3})
    for (double b : {0.3, 0.8}) ds.push_back({1, T0, b, 0.5});
  ds.push_back({1, 120, -0.4, 0.5});   // second order
  ds.push_back({0.6, 70, 1.5, 0.7});   // strongly first order
  ds.push_back({-1, 150, 0.6, 0.5});   // broken at high temperature only
  ds.push_back({-0.5, 120, 1.6, 0.5}); // broken minimum exists at all temperatures
  auto nm = [](const Dir &d) { return str(d.al) + "," + str(d.T0) + "," + str(d.b); };
  for (auto &d : ds) fs.push_back(sextic({d}, "s1:" + nm(d)));
  for (size_t i = 0; i < ds.size(); i++)
    for (size_t j = 0; j < ds.size(); j++)
    {
      if (i == j) continue;
      if (!h.thorough && (i * 7 + j * 3) % 4) continue;
      fs.push_back(sextic({ds[i], ds[j]}, "s2:" + nm(ds[i]) + ";" + nm(ds[j])));
    }
  // two weak transitions close to each other: the phase in between lives in a narrow window
  for (double w : {0.6, 1., 1.5, 4.})
    for (double g : {0.1, 0.2, 0.3, 0.5})
    {
      auto dir = [](double T0, double T1) { return Dir{1, T0, std::sqrt(2 * (T1 * T1 - T0 * T0) / 1e4), 0.5}; };
      fs.push_back(sextic({dir(100, 100 + g * w), dir(100 + 1.5 * g * w, 100 + w)}, "n2:" + str(w) + "," + str(g)));
      fs.back().narrow = true;
    }
  for (double mu1 : {80., 100.})
    for (double c1 : {0.3, 0.6})
      for (double mu2 : {60., 90.})
        for (double c2 : {0.15, 0.4})
          for (double l12 : {0.02, 0.1, 0.35})
            if (h.thorough || (int(mu1 / 20) + int(c1 * 10) + int(mu2 / 30) + int(c2 * 20)) % 2 == 0)
              fs.push_back(portal(mu1, c1, 0.2, mu2, c2, 0.25, l12, "p:" + str(mu1) + "," + str(c1) + ";" + str(mu2) + "," + str(c2) + ";" + str(l12)));
  // the phases of the lowest and of the highest temperature overlap, but others are deeper in between
  std::vector<Dir> ms = {{1, 60, 1.4, 0.5}, {1, 90, 1.2, 0.5}, {1, 100, 1.0, 0.5}, {1, 80, 1.6, 0.5}, {1, 75, 1.1, 0.5}};
  for (size_t i = 0; i < ms.size(); i++)
    for (size_t j = 0; j < ms.size(); j++)
      if (i != j) fs.push_back(sextic({ms[i], ms[j]}, "m2:" + nm(ms[i]) + ";" + nm(ms[j])));
  fs.push_back(sextic({ms[0], ms[1], ms[2]}, "m3:"));
  for (auto &d : std::vector<Dir>{{1, 150, 0.3, 0.5}, {1, 50, 0.5, 0.5}}) // another transition above or below
    for (int k : {1, 2}) fs.push_back(sextic({ms[0], ms[k], d}, "m4:" + nm(d) + ";" + std::to_string(k)));
  if (h.thorough)
    for (size_t i = 0; i + 2 < ds.size(); i++) fs.push_back(sextic({ds[i], ds[i + 1], ds[(i + 5) % ds.size()]}, "s3:" + std::to_string(i)));
  for (auto &f : fs)
    for (int mode : {-1, 0, 1, 2, 3})
      for (double TH : {300., 200.})
      {
        if (TH == 200 && !h.thorough && f.n > 1) continue;
        bool moved = mode % 2 != 0;
        h.run(f.name + "/" + std::to_string(mode) + "/" + str(TH), [=] { trace(f, mode, TH, moved); });
        // an electroweak vacuum that is not the global minimum of T = 0
        auto m0 = f.mins(0);
        if (f.narrow || TH == 200) continue;
        for (auto &q : m0)
          if (&q != best(m0) && q.branch) h.run(f.name + "/" + std::to_string(mode) + "/" + str(TH) + "/ew" + std::to_string(q.branch), [=] { trace(f, mode, TH, moved, q.branch); });
      }
}
HARNESS_MAIN
