// B03: transition strength, beta/H and wall velocity follow their definitions.
#include "toy.h"
#include <BSMPT/bounce_solution/bounce_solution.h>
#include <BSMPT/minimum_tracer/minimum_tracer.h>
using namespace BSMPT;

static const double CS = 1 / std::sqrt(3.);
// V(x,T) = U(x - c T, T), U = D (T^2-T0^2) y^2 - (E T + e) y^3 + lam/4 y^4 + A T^4: the phases are y=0 and the broken minimum
struct Pot1
{
  double D, T0, E, lam, A, e = 0, c = 0;
  double V(double y, double T) const { return D * (T * T - T0 * T0) * y * y - (E * T + e) * y * y * y + lam / 4 * y * y * y * y + A * T * T * T * T; }
  double dT(double y, double T) const { return 2 * D * T * y * y - E * y * y * y + 4 * A * T * T * T; }
  double dy(double y, double T) const { return 2 * D * (T * T - T0 * T0) * y - 3 * (E * T + e) * y * y + lam * y * y * y; }
  double broken(double T) const // the larger root of dU/dy = 0
  {
    double b = 3 * (E * T + e), q = 2 * D * (T * T - T0 * T0);
    return (b + std::sqrt(b * b - 4 * lam * q)) / (2 * lam);
  }
  double root(double f) const // f (E T + e)^2 = lam D (T^2 - T0^2) above T0
  {
    double lo = T0, hi = 1e4;
    for (int i = 0; i < 200; i++)
    {
      double m = (lo + hi) / 2;
      (f * std::pow(E * m + e, 2) > lam * D * (m * m - T0 * T0) ? lo : hi) = m;
    }
    return lo;
  }
  double Tspin() const { return root(9. / 8); }
  double Tc() const { return root(1); }
};
struct Act // S3/T = a + b (T - Tm), quadratic S3
{
  double T1, T2, a, b, gs;
  double S(double T) const { return T * (a + b * (T - T1)); }
  double dr(double) const { return b; }
  double H(double T) const { return M_PI * std::sqrt(gs / 90) * T * T / 2.4e18; }
  double I(double T, double vw) const
  {
    double C = H(1), sum = 0;
    static const double x[4] = {0.1834346424956498, 0.5255324099163290, 0.7966664774136267, 0.9602898564975363};
    static const double w[4] = {0.3626837833783620, 0.3137066458778873, 0.2223810344533745, 0.1012285362903763};
    const int N = 200;
    for (int i = 0; i < N; i++)
      for (int k = 0; k < 4; k++)
        for (int sg = -1; sg <= 1; sg += 2)
        {
          double u = (i + 0.5 + 0.5 * sg * x[k]) / N, t = T + (T2 - T) * u * u * u, s = S(t);
          sum += w[k] / 2 / N * 3 * (T2 - T) * u * u * std::pow(s / (2 * M_PI * t), 1.5) * std::exp(-s / t) / H(t) * std::pow((1 / T - 1 / t) / C, 3);
        }
    return 4 * M_PI / 3 * vw * vw * vw * sum;
  }
  double Tp(double vw) const
  {
    double want = -std::log(0.71), lo = T1, hi = T2;
    if (I(lo, vw) < want) return -1;
    for (int i = 0; i < 48; i++) (I((lo + hi) / 2, vw) > want ? lo : hi) = (lo + hi) / 2;
    return (lo + hi) / 2;
  }
};

static double alphaAt(const Pot1 &p, double gs, double T)
{
  double v = p.broken(T), rho = gs * M_PI * M_PI / 30 * std::pow(T, 4);
  return ((p.V(0, T) - p.V(v, T)) - T / 4 * (p.dT(0, T) - p.dT(v, T))) / rho;
}
static double vwAt(const Pot1 &p, double gs, double T, double al, double mode)
{
  if (mode >= 0) return mode;
  double v = p.broken(T), rho = gs * M_PI * M_PI / 30 * std::pow(T, 4);
  double vJ = (CS + std::sqrt(al * al + 2 * al / 3)) / (1 + al);
  if (mode == -1)
  {
    double w = std::sqrt((p.V(0, T) - p.V(v, T)) / (al * rho));
    return w > vJ ? 1 : w;
  }
  double psi = p.dT(v, T) / p.dT(0, T), a = 0.2233, b = 1.704, q = -3.433;
  double f1 = std::abs((3 * al + psi - 1) / (2 * (2 - 3 * psi + psi * psi * psi)));
  double f2 = std::abs(vJ * (1 - a * std::pow(1 - psi, b) / al));
  return std::pow(std::pow(f1, q / 2) + std::pow(f2, q / 2), 1 / q);
}

struct Setup
{
  std::shared_ptr<Class_Potential_Origin> model;
  std::shared_ptr<MinimumTracer> mt;
};
static Setup setup(const Pot1 &p)
{
  Setup s;
  auto m = std::make_shared<toy::Model>(1, [p](const Vec &x, double T) { return p.V(x[0] - p.c * T, T); }, Vec{246});
  m->dTV = [p](const Vec &x, double T) { return p.dT(x[0] - p.c * T, T) - p.c * p.dy(x[0] - p.c * T, T); };
  s.model = m;
  s.mt    = std::make_shared<MinimumTracer>(s.model, 1, false);
  return s;
}
static CoexPhases mkpair(const Setup &s, const Pot1 &p, double lo, double hi)
{
  Phase f, t;
  f.MinTracer = t.MinTracer = s.mt;
  f.id = 0, t.id = 1;
  for (int i = 0; i <= 4; i++)
  {
    double T = lo + (hi - lo) * i / 4;
    Minimum a, b;
    a.point = {p.c * T}, a.temp = T, a.potential = p.V(0, T);
    b.point = {p.broken(T) + p.c * T}, b.temp = T, b.potential = p.V(p.broken(T), T);
    f.Add(a), t.Add(b);
  }
  f.T_low = t.T_low = lo, f.T_high = t.T_high = hi;
  CoexPhases c;
  c.coex_pair_id = 0, c.T_low = lo, c.T_high = hi, c.false_phase = f, c.true_phase = t, c.crit_temp = p.Tc();
  return c;
}

static std::string ids(const Pot1 &p, const Act &a)
{
  return "D" + str(p.D) + "T0" + str(p.T0) + "E" + str(p.E) + "l" + str(p.lam) + "A" + str(p.A) + ":" + str(a.a) + "+" + str(a.b) + "g" + str(a.gs);
}

static void one(const Pot1 &p, const Act &a, double mode, const std::vector<int> &hist)
{
  // 0: percolation 1: strength 2: beta/H (only once the strength is fixed) 4: completion 5: beta/H again 6: nucleation
  if (a.I(a.T1, mode >= 0 ? mode : 0.3) < -std::log(0.71) * 1.05) return; // no percolation
  auto s = setup(p);
  BounceSolution b(s.model);
  b.MinTracer = s.mt;
  b.SetGstar(a.gs);
  b.phase_pair = mkpair(s, p, p.T0 + 0.02 * (p.Tc() - p.T0), p.Tspin() - 0.02 * (p.Tspin() - p.Tc()));
  b.Tc = p.Tc(), b.Tm = 1e9;
  b.UserDefined_vwall = mode;
  b.vwall = mode >= 0 ? mode : 0.95;
  for (int i = 0; i < 12; i++)
  {
    BounceActionInt x;
    x.T = a.T1 + (a.T2 - a.T1) * i / 11;
    x.Action = a.S(x.T);
    b.SolutionList.push_back(x);
  }
  b.SetBounceSol();
  bool strength = false, perc = false;
  h.traces++;
  for (int o : hist)
  {
    h.transitions++;
    if (o == 0) b.CalculatePercolationTemp(), perc = true;
    if (o == 4) b.CalculateCompletionTemp();
    if (o == 6) b.CalculateNucleationTempApprox(), b.CalculateNucleationTemp();
    if (o == 1)
    {
      bool threw = false;
      try { b.CalculatePTStrength(); } catch (std::runtime_error &) { threw = true; }
      h.check(threw == !perc, "strength needs a percolation temperature");
      strength |= perc;
    }
    if (o == 5)
    {
      bool threw = false;
      try { b.CalculateInvTimeScale(); } catch (std::runtime_error &) { threw = true; }
      h.check(threw == !perc, "beta/H needs a percolation temperature");
    }
    double Tp = b.GetPercolationTemp();
    if (o == 5 && strength) h.close(b.betaH, Tp * a.dr(Tp), 2e-4, 0, "beta/H after its calculation");
    if (o == 2) h.close(b.GetInvTimeScale(), Tp * a.dr(Tp), 2e-4, 0, "beta/H");
    if (!perc) continue;
    double vw = b.GetWallVelocity();
    if (!strength) { h.close(Tp, a.Tp(mode >= 0 ? mode : 0.95), 1e-6, 0, "percolation temperature"); continue; }
    double eff = b.UserDefined_vwall; // falls back to 0.95 if the iteration does not converge
    h.check(eff == mode || eff == 0.95, "wall velocity setting");
    double al = alphaAt(p, a.gs, Tp);
    h.close(b.GetPTStrength(), al, 2e-5, 1e-9, "strength");
    h.close(vw, vwAt(p, a.gs, Tp, al, eff), 1e-4, 0, "wall velocity (mode " + str(mode) + ")");
    h.close(Tp, a.Tp(vw), 1e-5, 0, "percolation temperature with the final wall velocity");
    h.check(vw > 0 && (mode == -2 || vw <= 1), "wall velocity range");
    h.outcome("mode" + str(mode) + (eff != mode ? "fallback" : "") + (vw == 1 ? "det" : "") + "p" + str(p.A) + "a" + str(a.a));
    if (mode < 0 && h.cases < 400) h.notes[eff == mode ? "self_consistent_walls" : "fallback_walls"]++;
  }
  h.states++;
  h.sample(ids(p, a) + " mode " + str(mode) + ": alpha " + str(b.GetPTStrength()) + " vw " + str(b.GetWallVelocity()));
}

void run_all()
{
  h.assumptions = {"phases are x=0 and the broken minimum of a quartic potential with closed-form position; the action curve is injected", "v_wall=-1: arXiv:2210.16305, -2: arXiv:2305.02357"};
  std::vector<Pot1> pots{{0.2, 100, 0.02, 0.04, -35}, {0.15, 50, 0.03, 0.08, -30}, {0.3, 100, 0.06, 0.06, -35}, {0.1, 20, 0.05, 0.12, -5}, {0.25, 140, 0.05, 0.05, -20}, {0.6, 100, 0.09, 0.06, -35}, {0.5, 20, 0, 1, -35, 40, 0.2}, {0.5, 30, 0.01, 1.2, -30, 55, -0.1}};
  if (h.thorough)
    for (double D : {0.1, 0.2, 0.4})
      for (double E : {0.01, 0.03, 0.05})
        for (double lam : {0.03, 0.06, 0.1})
          if (9 * E * E / (8 * lam * D) < 0.8) pots.push_back({D, 90, E, lam, -30});
  std::vector<std::vector<int>> hist{{0, 1, 2}, {1, 5, 0, 1, 2, 4}, {6, 0, 4, 1, 1, 2, 2}, {4, 0, 0, 5, 6, 1, 5, 2, 1, 5}};
  if (h.thorough)
  {
    // every history up to length 5 in which beta/H comes after the strength
    hist.clear();
    for (int n = 1; n <= 5; n++)
    {
      long N = 1;
      for (int i = 0; i < n; i++) N *= 5;
      for (long c = 0; c < N; c++)
      {
        std::vector<int> s;
        long q = c;
        int alph[5] = {0, 1, 2, 4, 5};
        bool st = false, pe = false, bad = false;
        for (int i = 0; i < n; i++, q /= 5)
        {
          int o = alph[q % 5];
          if (o == 2 || o == 5) bad |= pe && !st;
          if (o == 2 && !pe) bad = true;
          if (o == 0) pe = true;
          if (o == 1 && pe) st = true;
          s.push_back(o);
        }
        if (!bad) hist.push_back(s);
      }
    }
  }
  for (size_t ip = 0; ip < pots.size(); ip++)
    for (double a0 : {40., 100., 138.})
      for (double slope : {0.5, 3., 20.})
        for (double mode : {0.95, 0.3, 1., 0., -1., -2.})
          for (double gs : {106.75, 120.})
          {
            auto p = pots[ip];
            Act a;
            a.gs = gs;
            a.T1 = p.T0 + 0.1 * (p.Tc() - p.T0);
            a.T2 = p.Tc() - 1e-3 * (p.Tc() - p.T0);
            // S3/T from a0 to about 400 with a fraction of the slope
            a.a = a0;
            a.b = slope * 200 / (a.T2 - a.T1);
            if (mode == 0) continue;
            size_t nh = h.thorough ? (ip < 2 && slope == 3 && gs == 120 ? hist.size() : 40) : hist.size();
            for (size_t k = 0; k < nh && k < hist.size(); k++)
              {
              size_t kk = h.thorough && nh == 40 ? (k * 37) % hist.size() : k;
              h.run("p" + std::to_string(ip) + ":a" + str(a0) + "s" + str(slope) + "m" + str(mode) + "g" + str(gs) + "h" + std::to_string(kk), [&] { one(p, a, mode, hist[kk]); });
              }
          }
}
HARNESS_MAIN
