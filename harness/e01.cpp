// E01: search for the critical temperature over scripted histories of the global minimum.
#include "toy.h"
#include <BSMPT/minimizer/Minimizer.h>
using namespace BSMPT;
using MS = Minimizer::MinimizerStatus;

// history of the minimum: electroweak VEV as a function of the temperature (0: symmetric)
struct Script
{
  std::string name;
  std::function<double(double)> v;
  bool smooth; // continuous: the same well moves
  double tree; // electroweak VEV of the tree-level vacuum
};
struct Conf
{
  int n;                // coordinates
  std::vector<double> dir; // direction of the VEV in the doublet coordinates (norm 1)
  std::vector<size_t> dbl; // doublet coordinates
  double s0, s1;        // value of the other coordinates in the broken / symmetric phase
  int sign;             // sign of the broken minimum
};
static Vec place(const Conf &c, double v, bool broken)
{
  Vec x(c.n, broken ? c.s0 : c.s1);
  for (auto d : c.dbl) x[d] = 0;
  for (size_t k = 0; k < c.dbl.size(); k++) x[c.dbl[k]] = broken ? c.sign * v * c.dir[k] : 0;
  return x;
}
static std::shared_ptr<toy::Model> model(const Script &s, const Conf &c, long *calls)
{
  bool sm = s.smooth;
  auto v  = s.v;
  auto m  = std::make_shared<toy::Model>(
      c.n,
      [=](const Vec &x, double T) {
        if (calls) __atomic_add_fetch(calls, 1, __ATOMIC_RELAXED);
        double w = v(T);
        if (sm)
        {
          double p = 0, r2 = 0, o = 0;
          for (size_t k = 0; k < c.dbl.size(); k++) p += x[c.dbl[k]] * c.dir[k] * c.sign, r2 += x[c.dbl[k]] * x[c.dbl[k]];
          for (int i = 0; i < c.n; i++)
            if (std::find(c.dbl.begin(), c.dbl.end(), (size_t)i) == c.dbl.end()) o += std::pow(x[i] - c.s0, 2);
          // p: along the VEV (the other direction of the doublets is massive); the tilt selects the sign
          return 0.1 * std::pow(p * p - w * std::abs(w), 2) + 1e3 * (r2 - p * p) + 1e3 * o - 1e-3 * (w > 0 ? w * w * p : 0) ;
        }
        double a = 0, b = 0;
        auto A = place(c, w, true), B = place(c, 0, false);
        for (int i = 0; i < c.n; i++) a += std::pow(x[i] - A[i], 2), b += std::pow(x[i] - B[i], 2);
        // depth of the broken well follows the script, both wells exist everywhere
        double gap = w > 0 ? 0.15 : -0.15, d = std::max(1., c.s0 == c.s1 ? w * w : w * w + std::pow(c.s0 - c.s1, 2));
        if (w <= 0) return 1e3 * b;
        return 1e3 * std::min(a - gap * d, b);
      },
      place(c, s.tree, true), c.n);
  m->doublet = c.dbl;
  return m;
}
static const char *sname(MS s)
{
  switch (s)
  {
  case MS::SUCCESS: return "success";
  case MS::NOTVANISHINGATFINALTEMP: return "not vanishing at the final temperature";
  case MS::NOTNLOSTABLE: return "not stable";
  case MS::NUMERICALLYUNSTABLE: return "numerically unstable";
  case MS::BELOWTHRESHOLD: return "below threshold";
  case MS::NLOVEVZEROORINF: return "VEV zero or infinite";
  }
  return "?";
}
static void one(const Script &s, const Conf &c, double T0, double T1, int which, bool mt)
{
  auto m = model(s, c, nullptr);
  std::shared_ptr<Class_Potential_Origin> mp = m;
  auto r = Minimizer::PTFinder_gen_all(mp, T0, T1, which, mt);
  auto eff = [&](double T) { double v = s.v(T); return v > 0.5 ? v : 0; };
  h.states++;
  h.outcome(std::string(sname(r.StatusFlag)) + " n" + std::to_string(c.n) + (s.smooth ? " smooth" : " jump"));
  std::string at = std::string(" (status ") + sname(r.StatusFlag) + ", Tc " + str(r.Tc) + ", vc " + str(r.vc) + ")";
  h.check(r.EWMinimum.size() == (size_t)c.n, "size of the reported minimum" + at);
  if (r.EWMinimum.size() != (size_t)c.n) return;
  auto minimum = [&](double T, double tol) {
    auto x = place(c, eff(T), eff(T) > 0);
    double dp = 0; // the two signs are degenerate when the minimum moves continuously
    for (int i = 0; i < c.n; i++) dp += x[i] * r.EWMinimum[i];
    if (s.smooth && dp < 0)
      for (auto d : c.dbl) x[d] = -x[d];
    for (int i = 0; i < c.n; i++) h.close(r.EWMinimum[i], x[i], 1e-4, tol, "coordinate " + std::to_string(i) + " of the reported minimum" + at);
  };
  double slope = 0; // of the VEV close to the critical temperature
  if (eff(T1) > 0)
  {
    h.check(r.StatusFlag == MS::NOTVANISHINGATFINALTEMP, "broken at the upper temperature" + at);
    h.same(r.Tc, T1, "temperature" + at);
    h.close(r.vc, eff(T1), 1e-4, 0.05, "strength" + at);
    minimum(T1, 0.1);
    return;
  }
  if (eff(T0) <= 0 || eff(T0) >= 255)
  {
    h.check(r.StatusFlag == MS::NLOVEVZEROORINF, "VEV zero or too large at the lower temperature" + at);
    h.same(r.vc, 0, "strength" + at);
    return;
  }
  // vacuum at the lower temperature compared with the tree-level one
  auto a = place(c, s.tree, true), b = place(c, eff(T0), true);
  bool stable = true;
  for (int i = 0; i < c.n; i++)
    if (std::abs(std::abs(a[i]) - std::abs(b[i])) >= 1) stable = false;
  if (T0 == 0 && !stable)
  {
    h.check(r.StatusFlag == MS::NOTNLOSTABLE, "not the electroweak vacuum at T=0" + at);
    h.close(r.vc, eff(T0), 1e-4, 0.05, "strength" + at);
    minimum(T0, 0.1);
    return;
  }
  if (r.StatusFlag == MS::NUMERICALLYUNSTABLE)
  {
    h.check(r.Tc >= T0 && r.Tc <= T1 && eff(r.Tc) > 254.9, "VEV of at least 255 GeV at the reported temperature" + at);
    h.close(r.vc, eff(r.Tc), 1e-4, 0.05, "strength" + at);
    minimum(r.Tc, 0.1);
    return;
  }
  bool unst = false;
  for (int i = 0; i <= 30000; i++)
    if (eff(T0 + (T1 - T0) * i / 30000) >= 255) unst = true;
  h.check(r.StatusFlag == MS::SUCCESS, "the symmetric phase is reached from the electroweak vacuum" + at);
  if (r.StatusFlag != MS::SUCCESS) return;
  h.check(unst || true, "");
  // a temperature at which the minimum becomes symmetric
  h.check(r.Tc >= T0 && r.Tc <= T1, "critical temperature in the range" + at);
  bool sym = false;
  for (int i = 1; i <= 200; i++)
    if (eff(r.Tc + 0.011 * i / 200) == 0) sym = true;
  slope = std::abs(s.v(r.Tc + 1e-6) - s.v(r.Tc)) / 1e-6;
  bool edge = s.smooth && s.v(r.Tc) > -1e300 && std::abs(s.v(r.Tc) - 0.5) < 0.3 + 1e-5 * slope;
  h.check(eff(r.Tc) > 0 || edge, "broken at the critical temperature" + at);
  h.check(sym || edge, "symmetric just above the critical temperature" + at);
  if (!edge)
  {
    h.close(r.vc, eff(r.Tc), 1e-4, 0.05, "strength" + at);
    minimum(r.Tc, 0.1);
  }
}

void run_all()
{
  Logger::Disable();
  std::vector<Script> S;
  for (double Tc : {0.004, 0.3, 37.5, 75., 140.37, 150., 211.11, 250., 299.97, 299.995, 340.})
    for (double v0 : {30., 180., 246.22, 254., 256., 320.})
    {
      if (!h.thorough && v0 != 246.22 && Tc != 140.37 && Tc != 75. && Tc != 340.) continue;
      S.push_back({"jump" + str(Tc) + "v" + str(v0), [=](double T) { return T < Tc ? v0 : 0.; }, false, 246.22});
      S.push_back({"fall" + str(Tc) + "v" + str(v0), [=](double T) { return T < Tc ? v0 * (1 - 0.4 * T / Tc) : 0.; }, false, 246.22});
      S.push_back({"cont" + str(Tc) + "v" + str(v0), [=](double T) { return T < Tc ? v0 * std::sqrt(1 - T * T / (Tc * Tc)) : -1.; }, true, 246.22});
      // temporary symmetric window, and symmetric start
      S.push_back({"gap" + str(Tc) + "v" + str(v0), [=](double T) { return T < 0.3 * Tc || (T > 0.6 * Tc && T < Tc) ? v0 : 0.; }, false, 246.22});
      S.push_back({"late" + str(Tc) + "v" + str(v0), [=](double T) { return T > 0.5 * Tc && T < Tc ? v0 : 0.; }, false, 246.22});
      // VEV growing beyond the perturbative limit in between
      S.push_back({"grow" + str(Tc) + "v" + str(v0), [=](double T) { return T < Tc ? v0 + 60 * std::sin(M_PI * T / Tc) : 0.; }, false, 246.22});
      // weak transition: v/T small at the end
      S.push_back({"weak" + str(Tc) + "v" + str(v0), [=](double T) { return T < Tc ? v0 * (1 - T / Tc) + 12. : 0.; }, false, 246.22});
    }
  for (double tree : {246.22, 245.6, 244.9, 247.5, 200.}) S.push_back({"tree" + str(tree), [=](double T) { return T < 120.5 ? 246.22 : 0.; }, false, tree});
  std::vector<Conf> C{{1, {1}, {0}, 0, 0, 1}, {1, {1}, {0}, 0, 0, -1}, {2, {1}, {0}, 50, 50, 1}, {2, {1}, {1}, -40, 30, -1}, {2, {0.6, 0.8}, {0, 1}, 0, 0, 1}, {3, {0.8, 0.6}, {0, 2}, 60, 10, 1}, {3, {0.28, -0.96}, {1, 2}, 0, 80, -1}, {4, {0.6, 0.8}, {1, 2}, 20, 20, 1}};
  int k = 0;
  for (auto &s : S)
    for (size_t ci = 0; ci < C.size(); ci++)
      for (auto [T0, T1] : std::vector<std::pair<double, double>>{{0, 300}, {60, 300}, {0, 200}})
      {
        k++;
        if (!h.thorough && ci >= 2 && (k + ci) % 5) continue;
        if (s.smooth && C[ci].s0 != C[ci].s1) continue;
        int which = C[ci].n >= 3 ? (k % 2 ? 2 : 6) : k % 3 == 0 ? 2 : k % 3 == 1 ? 4 : 6;
        h.run(s.name + ":" + std::to_string(ci) + ":" + str(T0) + ":" + str(T1), [=] { one(s, C[ci], T0, T1, which, false); });
      }
}
HARNESS_MAIN
