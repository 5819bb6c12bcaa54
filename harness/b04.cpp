// B04: the set of bounce solutions of a pair of phases: symmetry images, temperatures, interpolation.
#include "bounce1d.h"
#include "toy.h"
#include <BSMPT/bounce_solution/bounce_solution.h>
#include <BSMPT/minimum_tracer/minimum_tracer.h>
using namespace BSMPT;

static double dot(const Vec &a, const Vec &b)
{
  double r = 0;
  for (size_t i = 0; i < a.size(); i++) r += a[i] * b[i];
  return r;
}
static Vec sub(const Vec &a, const Vec &b)
{
  Vec r(a);
  for (size_t i = 0; i < a.size(); i++) r[i] -= b[i];
  return r;
}
static double nrm(const Vec &a) { return std::sqrt(dot(a, a)); }
static Vec img(const Eigen::MatrixXd &g, const Vec &a)
{
  Vec r(a.size(), 0);
  for (size_t i = 0; i < a.size(); i++)
    for (size_t j = 0; j < a.size(); j++) r[i] += g(i, j) * a[j];
  return r;
}
typedef std::vector<Eigen::MatrixXd> Group;
// straight bounces from F to T and all their images; b runs linearly from blo (at Tlo) to bhi (at Thi)
struct Pot
{
  Vec F, T;
  Group G;
  double k, Tlo, Thi, blo, bhi;
  double b(double t) const { return blo + (bhi - blo) * (t - Tlo) / (Thi - Tlo); }
  double temp(double q) const { return Tlo + (Thi - Tlo) * (q - blo) / (bhi - blo); }
  double one(const Vec &x, double t) const
  {
    Vec e   = sub(T, F);
    double v = nrm(e), p = dot(sub(x, F), e) / v, q = dot(sub(x, F), sub(x, F)) - p * p;
    return k * v * v * v * v * Bounce1D::V1(p / v, b(t)) + 0.5 * k * v * v * std::max(0., q);
  }
  double V(const Vec &x, double t) const
  {
    double r = 1e300;
    for (auto &g : G) r = std::min(r, one(img(g, x), t));
    return r;
  }
  double v() const { return nrm(sub(T, F)); }
  double S(double t) const { return unitAction(b(t)) * v() / std::sqrt(k); }
};
struct Setup
{
  std::shared_ptr<Class_Potential_Origin> model;
  std::shared_ptr<MinimumTracer> mt;
};
static Setup setup(const Pot &p)
{
  Setup s;
  s.model = std::make_shared<toy::Model>(p.F.size(), [p](const Vec &x, double t) { return p.V(x, t); }, p.T);
  s.mt    = std::make_shared<MinimumTracer>(s.model, 1, false);
  s.mt->GroupElements = p.G;
  return s;
}
static CoexPhases mkpair(const Setup &s, const Pot &p, const Vec &F, const Vec &T, double tc)
{
  Phase f, t;
  f.MinTracer = t.MinTracer = s.mt;
  f.id = 0, t.id = 1;
  for (int i = 0; i <= 20; i++)
  {
    double q = p.Tlo + (p.Thi - p.Tlo) * i / 20;
    Minimum a, b;
    a.point = F, a.temp = q, a.potential = p.V(F, q);
    b.point = T, b.temp = q, b.potential = p.V(T, q);
    f.Add(a), t.Add(b);
  }
  f.T_low = t.T_low = p.Tlo, f.T_high = t.T_high = p.Thi;
  CoexPhases c;
  c.coex_pair_id = 0, c.T_low = p.Tlo, c.T_high = p.Thi, c.false_phase = f, c.true_phase = t, c.crit_temp = tc;
  return c;
}
static Group signs(int n, const std::vector<int> &gens)
{ // group generated by sign flips (bit masks)
  std::set<int> e{0};
  for (int g : gens)
  {
    auto c = e;
    for (int a : c) e.insert(a ^ g);
  }
  Group r;
  for (int a : e)
  {
    Eigen::MatrixXd m = Eigen::MatrixXd::Identity(n, n);
    for (int i = 0; i < n; i++)
      if (a >> i & 1) m(i, i) = -1;
    r.push_back(m);
  }
  return r;
}
static void checkSolutions(BounceSolution &bs, const Pot &p, const Vec &F, const Vec &Timg, double lo, double hi)
{
  auto &l = bs.SolutionList;
  for (size_t i = 0; i < l.size(); i++)
  {
    auto &x = l[i];
    h.transitions++;
    if (i) h.check(x.T > l[i - 1].T, "solutions sorted by temperature: " + str(l[i - 1].T) + " before " + str(x.T));
    if (i) h.check(x.T - l[i - 1].T >= 0.001 * 0.999, "solutions at T=" + str(x.T) + " repeated");
    h.check(x.T >= lo && x.T <= hi, "solution at T=" + str(x.T) + " in the coexistence range");
    h.check(p.b(x.T) < 0.5, "solution at T=" + str(x.T) + " where the true vacuum is not favoured");
    h.check(x.Action > 0, "positive action");
    h.check(nrm(sub(x.TrueVacuum, Timg)) < 0.1 && nrm(sub(x.FalseVacuum, F)) < 0.1, "bounce from " + str(x.FalseVacuum) + " to " + str(x.TrueVacuum) + " instead of " + str(F) + " to " + str(Timg));
    double b = p.b(x.T);
    if (b < 0.42 && b > 0.03)
    {
      double want = p.S(x.T);
      h.notes["max_relative_error_action"] = std::max(h.notes["max_relative_error_action"], std::abs(x.Action / want - 1));
      h.close(x.Action, want, 1e-3, 0, "action at T=" + str(x.T) + " (b=" + str(b) + ")");
    }
  }
  if (bs.status_bounce_sol == StatusGW::Success)
  {
    h.check(l.size() >= 4, "enough solutions");
    for (size_t i = 0; i < l.size(); i++)
    {
      h.close(bs.GetBounceSol(l[i].T), l[i].Action, 1e-9, 0, "action curve at a solution");
      if (i + 1 < l.size() && p.b(l[i + 1].T) < 0.42 && p.b(l[i].T) > 0.03 && i > 0 && i + 2 < l.size() && p.S(l[i + 1].T) / p.S(l[i].T) < 1.5 && p.b(l[i + 2].T) < 0.42)
      {
        double T = (l[i].T + l[i + 1].T) / 2;
        h.notes["max_relative_error_curve"] = std::max(h.notes["max_relative_error_curve"], std::abs(bs.GetBounceSol(T) / p.S(T) - 1));
        h.close(bs.GetBounceSol(T), p.S(T), 0.01, 0, "action curve between solutions, b=" + str(p.b(T)));
      }
    }
  }
  else h.check(l.size() < 4, "failure only with too few solutions");
}
static Eigen::MatrixXd closest(const Group &G, const Vec &F, const Vec &T, double &d)
{
  Eigen::MatrixXd r = G[0];
  d                 = 1e300;
  for (auto &g : G)
    if (nrm(sub(F, img(g, T))) < d - 1e-9) d = nrm(sub(F, img(g, T))), r = g;
  return r;
}
// group, placements of the two vacua; only the choice of the image
static void choose(int n, const Group &G, const Vec &F, const Vec &T)
{
  Pot p{F, T, G, 0.01, 60, 120, 0.1, 0.6};
  auto s = setup(p);
  BounceSolution b(s.model);
  b.MinTracer  = s.mt;
  b.phase_pair = mkpair(s, p, F, T, 108);
  b.Tc         = 108; // a knot
  b.GroupElements = G;
  b.CalculateOptimalDiscreteSymmetry();
  double d;
  closest(G, F, T, d);
  auto &o = b.OptimalDiscreteSymmetry;
  bool in = false;
  for (auto &g : G) in |= (g - o).norm() < 1e-12;
  h.check(in, "the chosen symmetry belongs to the group");
  h.close(nrm(sub(F, img(o, T))), d, 1e-9, 1e-9, "distance of the chosen image");
  for (auto &x : {F, T}) h.check(nrm(sub(b.TransformIntoOptimalDiscreteSymmetry(x), img(o, x))) < 1e-9, "transformation of a point with the chosen symmetry");
  h.states++;
  h.outcome("choose n" + std::to_string(n) + " group" + std::to_string(G.size()) + " " + ((o - Eigen::MatrixXd::Identity(n, n)).norm() == 0 ? "identity" : "other"));
}
// complete scan: stored representatives F, T of the phases; bounce between F and the closest image
static void scan(const std::string &name, const Group &G, Vec F, Vec T, double bstar, double blo, int N, bool cut)
{
  { // the tracer keeps one representative of every phase
    Pot q{F, T, G, 1, 40, 130, blo, 0.55};
    auto s = setup(q);
    s.mt->ReduceVEV(F), s.mt->ReduceVEV(T);
  }
  double d;
  auto g   = closest(G, F, T, d);
  Vec Timg = img(g, T);
  Pot p{F, Timg, G, 1, 40, 130, blo, 0.55};
  double ts = p.temp(bstar);
  p.k       = std::pow(unitAction(bstar) * p.v() / (140 * ts), 2); // S3/T = 140 at b = bstar
  auto s    = setup(p);
  double tc = p.temp(0.5);
  // coexistence may begin below (cut: above) the temperature of interest
  auto pr = mkpair(s, p, F, T, tc);
  if (cut) pr.T_low = p.temp(0.5 * (bstar + 0.5));
  BounceSolution b(s.model, s.mt, pr, 0.95, 0.1, 7, N, G);
  h.states++;
  checkSolutions(b, p, F, Timg, pr.T_low, tc);
  b.CalculateNucleationTempApprox();
  std::string st = StatusTemperatureToString.at(b.status_nucl_approx);
  if (cut) h.check(b.status_nucl_approx != StatusTemperature::Success, "no nucleation above S3/T = 140");
  else
  {
    // low enough actions are reached if the range allows it
    double smin = p.S(p.temp(std::max(0.031, p.b(p.Tlo + 1.5 * (tc - p.Tlo) / N)))) / p.temp(std::max(0.031, p.b(p.Tlo + 1.5 * (tc - p.Tlo) / N)));
    if (smin < 120) h.check(b.status_nucl_approx == StatusTemperature::Success, "S3/T = 140 is found: " + st);
    if (b.status_nucl_approx == StatusTemperature::Success)
    {
      h.notes["max_relative_error_T140"] = std::max(h.notes["max_relative_error_T140"], std::abs(b.GetNucleationTempApprox() / ts - 1));
      h.close(b.GetNucleationTempApprox(), ts, 1e-4, 0, "temperature with S3/T = 140");
    }
  }
  // later stages may refine the set of solutions
  b.CalculateNucleationTemp();
  b.CalculatePercolationTemp(0.71);
  checkSolutions(b, p, F, Timg, pr.T_low, tc);
  b.CalculateCompletionTemp(0.01);
  b.SetBounceSol(); // the completion stage does not rebuild the curve
  checkSolutions(b, p, F, Timg, pr.T_low, tc);
  h.outcome("scan " + name + " n" + std::to_string(F.size()) + " " + st + (cut ? " cut" : "") + " sol" + std::to_string(b.SolutionList.size() / 5));
  h.sample(h.cur + ": " + std::to_string(b.SolutionList.size()) + " solutions, " + st);
}
// histories of single calculations
static void history(const std::vector<int> &ops, bool early)
{
  Pot p{{20}, {120}, signs(1, {1}), 1, 40, 130, 0.05, 0.6};
  p.k    = std::pow(unitAction(0.25) * 100 / (140 * p.temp(0.25)), 2);
  auto s = setup(p);
  BounceSolution b(s.model);
  b.MinTracer  = s.mt;
  // the upper limit lies above the true critical temperature, or (early) below it
  double btop  = early ? 0.35 : 0.58;
  b.phase_pair = mkpair(s, p, {20}, {-120}, p.temp(btop));
  b.Tc = p.temp(btop), b.Tm = p.temp(0.1);
  b.GroupElements = p.G;
  b.CalculateOptimalDiscreteSymmetry();
  Vec timg = {120.};
  std::vector<double> want;
  Vec Ts = {p.temp(0.05), p.temp(0.1), p.temp(0.2), p.temp(0.2) + 0.0005, p.temp(0.2) - 0.002, p.temp(0.3), p.temp(0.4), p.temp(0.53), p.temp(0.59)};
  for (int o : ops)
  {
    double T = Ts[o / 2];
    b.CalculateActionAt(T, o % 2);
    h.transitions++;
    bool ok = T >= b.Tm && T <= b.Tc && p.b(T) < 0.5;
    for (double w : want) ok &= std::abs(w - T) >= 0.001;
    if (ok) want.push_back(T);
    std::sort(want.begin(), want.end());
    bool same = want.size() == b.SolutionList.size();
    for (size_t i = 0; same && i < want.size(); i++) same &= want[i] == b.SolutionList[i].T;
    Vec have;
    for (auto &x : b.SolutionList) have.push_back(x.T);
    if (!h.check(same, "solutions at temperatures " + str(have) + ", expected " + str(want))) return;
  }
  h.states++;
  b.SetBounceSol();
  h.check((b.status_bounce_sol == StatusGW::Success) == (want.size() >= 4), "status with " + std::to_string(want.size()) + " solutions");
  checkSolutions(b, p, {20}, timg, b.Tm, b.Tc);
  h.outcome("history len" + std::to_string(ops.size()) + " sol" + std::to_string(want.size()));
}

void run_all()
{
  h.assumptions = {"straight bounces of the family V1'=k x(x-b)(x-v) and their images; actions compared for b in (0.03,0.42)"};
  // choice of the image: all sign groups and signed permutations, lattice of placements
  for (int n = 1; n <= 3; n++)
  {
    std::vector<std::pair<std::string, Group>> gs;
    std::set<std::set<int>> seen;
    for (int a = 0; a < 1 << n; a++)
      for (int b = a; b < 1 << n; b++)
        for (int c = b; c < 1 << n; c++)
        {
          std::set<int> e{0};
          for (int g : {a, b, c})
          {
            auto q = e;
            for (int x : q) e.insert(x ^ g);
          }
          if (!seen.insert(e).second) continue;
          gs.push_back({"s" + std::to_string(a) + std::to_string(b) + std::to_string(c), signs(n, {a, b, c})});
        }
    if (n == 2)
      for (int full : {0, 1})
      { // exchange of the two directions, rotations by 90 degrees
        Group g = full ? signs(2, {1, 2}) : signs(2, {});
        Eigen::MatrixXd P(2, 2);
        P << 0, 1, 1, 0;
        auto c = g;
        for (auto &x : c) g.push_back(P * x);
        gs.push_back({"x" + std::to_string(full), g});
      }
    if (n == 2)
    {
      Eigen::MatrixXd R(2, 2);
      R << 0, -1, 1, 0;
      gs.push_back({"rot", {Eigen::MatrixXd::Identity(2, 2), R, R * R, R * R * R}});
    }
    if (n == 3)
    {
      Eigen::MatrixXd R(3, 3);
      R << 0, 1, 0, 0, 0, 1, 1, 0, 0;
      gs.push_back({"cyc", {Eigen::MatrixXd::Identity(3, 3), R, R * R}});
    }
    Vec lat = n < 3 ? Vec{-100, -20, 0, 50} : h.thorough ? Vec{-100, -20, 0, 50} : Vec{-100, 0, 50};
    int tot = std::lround(std::pow(lat.size(), n));
    auto at = [&](int i) {
      Vec r;
      for (int k = 0; k < n; k++) r.push_back(lat[i % lat.size()]), i /= lat.size();
      return r;
    };
    for (auto &g : gs)
      for (int i = 0; i < tot; i++)
      {
        if (n == 3 && !h.thorough && i % 2) continue;
        h.run("choose/" + std::to_string(n) + g.first + "/" + std::to_string(i), [&] {
          for (int j = 0; j < tot; j++)
            if (i != j) choose(n, g.second, at(i), at(j));
        });
      }
  }
  // complete scans
  struct Sc
  {
    std::string name;
    int n;
    std::vector<int> gens;
    Vec F, T;
  };
  std::vector<Sc> scs = {{"1d", 1, {}, {0}, {150}},
                         {"1d flip", 1, {1}, {0}, {150}},
                         {"1d flip other side", 1, {1}, {30}, {-180}},
                         {"2d none", 2, {}, {0, 80}, {120, -60}},
                         {"2d both", 2, {3}, {0, 80}, {120, -60}},
                         {"2d both near", 2, {3}, {10, 90}, {60, -150}},
                         {"2d each", 2, {1, 2}, {0, 80}, {120, -20}},
                         {"2d first", 2, {1}, {-40, 80}, {120, 20}},
                         {"3d pair", 3, {3, 4}, {0, 80, 10}, {100, -40, -60}},
                         {"3d all", 3, {7}, {20, 50, 10}, {60, -90, -40}}};
  for (auto &s : scs)
    for (double bs : h.thorough ? Vec{0.08, 0.15, 0.25, 0.33, 0.4} : Vec{0.12, 0.25, 0.38})
      for (double blo : h.thorough ? Vec{0.02, 0.06} : Vec{0.04})
        for (int N : h.thorough ? std::vector<int>{10, 25, 40} : std::vector<int>{25})
          for (bool cut : {false, true})
          {
            if (s.n == 3 && !h.thorough && bs != 0.25) continue;
            h.run("scan/" + s.name + "/" + str(bs) + "/" + str(blo) + "/" + std::to_string(N) + (cut ? "/cut" : ""), [&] { scan(s.name, signs(s.n, s.gens), s.F, s.T, bs, blo, N, cut); });
          }
  // histories
  int nop = 18, depth = h.thorough ? 3 : 2;
  std::function<void(std::vector<int>)> rec = [&](std::vector<int> ops) {
    if ((int)ops.size() == depth)
    {
      std::string nm;
      for (int o : ops) nm += " " + std::to_string(o);
      for (bool early : {false, true}) h.run((early ? "early history" : "history") + nm, [&] { history(ops, early); });
      return;
    }
    for (int o = 0; o < nop; o++)
    {
      auto q = ops;
      q.push_back(o);
      rec(q);
    }
  };
  rec({});
  // all orders of five distinct temperatures
  std::vector<int> perm = {2, 4, 10, 12, 8};
  std::sort(perm.begin(), perm.end());
  do
  {
    std::string nm;
    for (int o : perm) nm += " " + std::to_string(o);
    h.run("order" + nm, [&] { history(perm, false); });
  } while (std::next_permutation(perm.begin(), perm.end()));
}
HARNESS_MAIN
