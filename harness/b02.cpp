// B02: transition temperatures solve their defining equations.
#include "toy.h"
#include <BSMPT/bounce_solution/bounce_solution.h>
using namespace BSMPT;

// S3(T) cubic in T (so that the action curve is determined by >= 4 of its points)
struct Curve
{
  double T1, T2; // computed range
  double c[4];   // S3 = sum c_i t^i, t = (T-T1)/(T2-T1)
  int n;         // number of points
  double skew;   // spacing of the points
  double Tc, gs;
  double S(double T) const
  {
    double t = (T - T1) / (T2 - T1);
    return c[0] + t * (c[1] + t * (c[2] + t * c[3]));
  }
  Vec knots() const
  {
    Vec r(n);
    for (int i = 0; i < n; i++) r[i] = T1 + (T2 - T1) * std::pow(double(i) / (n - 1), skew);
    return r;
  }
  double H(double T) const { return M_PI * std::sqrt(gs / 90) * T * T / 2.4e18; }
  double G(double T) const // tunnelling rate
  {
    if (T < T1 || T > T2) return 0;
    double s = S(T);
    return std::pow(T, 4) * std::pow(s / (2 * M_PI * T), 1.5) * std::exp(-s / T);
  }
  double lnGH(double T) const
  {
    double s = S(T);
    return 4 * std::log(T) + 1.5 * std::log(s / (2 * M_PI * T)) - s / T - 4 * std::log(H(T));
  }
  double I(double T, double vw) const // exponent of the false-vacuum fraction
  {
    double C = H(1);
    // composite 8-point Gauss rule
    static const double x[4] = {0.1834346424956498, 0.5255324099163290, 0.7966664774136267, 0.9602898564975363};
    static const double w[4] = {0.3626837833783620, 0.3137066458778873, 0.2223810344533745, 0.1012285362903763};
    const int N = 250;
    double a = std::max(T, T1), sum = 0;
    if (a >= T2) return 0;
    for (int i = 0; i < N; i++)
      for (int k = 0; k < 4; k++)
        for (int sg = -1; sg <= 1; sg += 2)
        {
          double u = (i + 0.5 + 0.5 * sg * x[k]) / N, t = a + (T2 - a) * u * u * u; // refined towards T
          double g = std::exp(lnGH(t)) * std::pow(H(t), 3) / std::pow(t, 4); // G/(t^4 H)
          sum += w[k] / 2 / N * 3 * (T2 - a) * u * u * g * std::pow((1 / T - 1 / t) / C, 3);
        }
    return 4 * M_PI / 3 * vw * vw * vw * sum;
  }
  // highest root of f in [T1,T2] bracketed by neighbouring computed points; -1: none; ok=false if the curve
  // crosses between two points without being visible at them (out of the property's resolution)
  template <class F> double highest(F f, bool &ok) const
  {
    auto k = knots();
    ok     = true;
    double res = -1;
    for (int i = n - 2; i >= 0; i--)
    {
      int ch = 0;
      double prev = f(k[i + 1]);
      for (int j = 1; j <= 60; j++)
      {
        double v = f(k[i + 1] + (k[i] - k[i + 1]) * j / 60.);
        if ((v > 0) != (prev > 0)) ch++;
        prev = v;
      }
      bool vis = (f(k[i]) > 0) != (f(k[i + 1]) > 0);
      if (ch != (vis ? 1 : 0)) { if (res < 0) ok = false; return res; }
      if (vis && res < 0)
      {
        double lo = k[i], hi = k[i + 1];
        bool sl = f(lo) > 0;
        for (int it = 0; it < 200; it++)
        {
          double m = (lo + hi) / 2;
          ((f(m) > 0) == sl ? lo : hi) = m;
        }
        res = (lo + hi) / 2;
      }
    }
    return res;
  }
  double fracT(double frac, double vw) const
  {
    double want = -std::log(frac);
    if (I(T1, vw) <= want) return -1;
    double lo = T1, hi = T2;
    for (int it = 0; it < 48; it++)
    {
      double m = (lo + hi) / 2;
      (I(m, vw) > want ? lo : hi) = m;
    }
    return (lo + hi) / 2;
  }
};

static std::shared_ptr<Class_Potential_Origin> model;

static BounceSolution mk(const Curve &c, double vw)
{
  BounceSolution b(model);
  b.SetGstar(c.gs);
  b.Tc    = c.Tc;
  b.Tm    = 1e9; // the action curve is given: no further action may be computed
  b.vwall = vw;
  b.UserDefined_vwall = vw;
  for (double T : c.knots())
  {
    BounceActionInt a;
    a.T      = T;
    a.Action = c.S(T);
    b.SolutionList.push_back(a);
  }
  b.SetBounceSol();
  return b;
}

struct Want
{
  double Ta, Tn, Tp, Tf;
  bool oka, okn;
  double Ip1; // exponent at the lowest temperature
};

static double want_frac(const Curve &c, double frac, double vw) { return c.fracT(frac, vw); }

static void cmpT(const Curve &c, double got, StatusTemperature st, double want, const std::string &what, double tol)
{
  h.check((st == StatusTemperature::Success) == (want > 0), what + ": status " + std::to_string((int)st) + " but the defining equation has " + (want > 0 ? "the solution T=" + str(want) : "no solution"));
  h.check(st == StatusTemperature::Success || st == StatusTemperature::NotMet, what + ": status after a calculation");
  if (want > 0)
    h.close(got, want, tol, 0, what);
  else
    h.same(got, -1, what + " when it does not exist");
  (void)c;
}

static std::string id(const Curve &c)
{
  std::ostringstream o;
  o << c.T1 << "-" << c.T2 << ":" << c.c[0] << "," << c.c[1] << "," << c.c[2] << "," << c.c[3] << ";n" << c.n << "s" << c.skew << "g" << c.gs << "Tc" << c.Tc;
  return o.str();
}

static void one(const Curve &c, double vw, const std::vector<std::vector<int>> &histories)
{
  Want w;
  w.Ta = c.highest([&](double T) { return c.S(T) / T - 140; }, w.oka);
  w.Tn = c.highest([&](double T) { return c.lnGH(T); }, w.okn);
  w.Tp = want_frac(c, 0.71, vw);
  w.Tf = want_frac(c, 0.01, vw);
  double I1 = c.I(c.T1, vw);
  bool amb = false; // existence within the tolerance of the quadrature
  for (double f : {0.71, 0.01, 0.9})
    if (std::abs(I1 / -std::log(f) - 1) < 1e-2) amb = true;
  if (amb) return;
  double T09 = want_frac(c, 0.9, vw);
  for (double t : {w.Tp, w.Tf, T09})
    if (t > c.T2 * (1 - 1e-6)) return;
  if (w.Tp > 0 && c.lnGH(c.T2) > -3) return; // curve cut off while tunnelling is already fast: no resolution
  for (auto &hist : histories)
  {
    auto b = mk(c, vw);
    h.check(b.status_bounce_sol == StatusGW::Success, "action curve with >=4 points");
    h.traces++;
    double lastperc = 0.71, lastcompl = 0.01;
    bool done[4] = {false, false, false, false};
    for (int o : hist)
    {
      h.transitions++;
      if (o == 0) b.CalculateNucleationTempApprox(), done[0] = true;
      if (o == 1) b.CalculateNucleationTemp(), done[1] = true;
      if (o == 2) b.CalculatePercolationTemp(), done[2] = true, lastperc = 0.71;
      if (o == 3) b.CalculateCompletionTemp(), done[3] = true, lastcompl = 0.01;
      if (o == 4) b.CalculatePercolationTemp(0.9), done[2] = true, lastperc = 0.9;
      if (o == 5)
      {
        double Tq = (c.T1 + c.T2) / 2;
        h.close(-std::log(std::max(b.CalcFalseVacFraction(Tq), 1e-300)), std::min(c.I(Tq, vw), -std::log(1e-300)), 2e-3, 1e-9, "exponent of the false-vacuum fraction at T=" + str(Tq));
      }
      if (w.oka)
        done[0] ? cmpT(c, b.GetNucleationTempApprox(), b.status_nucl_approx, w.Ta, "approximate nucleation temperature", 1e-8)
                : (void)h.check(b.status_nucl_approx == StatusTemperature::NotSet && b.GetNucleationTempApprox() == -1, "approximate nucleation temperature not requested");
      if (w.okn)
        done[1] ? cmpT(c, b.GetNucleationTemp(), b.status_nucl, w.Tn, "nucleation temperature", 1e-8)
                : (void)h.check(b.status_nucl == StatusTemperature::NotSet && b.GetNucleationTemp() == -1, "nucleation temperature not requested");
      done[2] ? cmpT(c, b.GetPercolationTemp(), b.status_perc, lastperc == 0.71 ? w.Tp : T09, "percolation temperature (fraction " + str(lastperc) + ")", 2e-6)
              : (void)h.check(b.status_perc == StatusTemperature::NotSet && b.GetPercolationTemp() == -1, "percolation temperature not requested");
      done[3] ? cmpT(c, b.GetCompletionTemp(), b.status_compl, w.Tf, "completion temperature", 2e-6)
              : (void)h.check(b.status_compl == StatusTemperature::NotSet && b.GetCompletionTemp() == -1, "completion temperature not requested");
      if (done[2] && done[3] && b.GetCompletionTemp() > 0) h.check(b.GetCompletionTemp() <= b.GetPercolationTemp(), "completion not above percolation");
      double sel[4]          = {b.GetNucleationTempApprox(), b.GetNucleationTemp(), b.GetPercolationTemp(), b.GetCompletionTemp()};
      StatusTemperature s[4] = {b.status_nucl_approx, b.status_nucl, b.status_perc, b.status_compl};
      for (int k = 0; k < 4; k++) h.same(b.CalcTransitionTemp(k + 1), s[k] == StatusTemperature::Success ? sel[k] : -1, "selected transition temperature " + std::to_string(k + 1));
    }
    h.states++;
  }
  for (double f : {0., 0.13, 0.5, 0.77, 1.})
  {
    auto b   = mk(c, vw);
    double T = c.T1 + f * (c.T2 - c.T1);
    h.close(b.HubbleRate(T), c.H(T), 1e-9, 0, "Hubble rate");
    h.close(b.TunnelingRate(T), c.G(T), 1e-6, 1e-300, "tunnelling rate at T=" + str(T));
    h.close(b.GetBounceSol(T), c.S(T), 1e-8, 1e-8, "interpolated action");
    h.same(b.TunnelingRate(c.T1 * 0.999), 0, "no extrapolation below the range");
    h.same(b.TunnelingRate(c.T2 * 1.001), 0, "no extrapolation above the range");
  }
  h.outcome(std::string(w.oka ? (w.Ta > 0 ? "a" : "-") : "?") + (w.okn ? (w.Tn > 0 ? "n" : "-") : "?") + (w.Tp > 0 ? "p" : "-") + (w.Tf > 0 ? "f" : "-") + "n" + std::to_string(c.n));
  if (w.Tp > 0) h.sample(id(c) + " vw=" + str(vw) + " -> " + str(w.Ta) + " " + str(w.Tn) + " " + str(w.Tp) + " " + str(w.Tf));
}

void run_all()
{
  h.assumptions = {"S3(T) is a cubic polynomial, which any cubic interpolation of >= 4 points must reproduce", "percolation is decided for action curves that reach up to temperatures where tunnelling is slow (Gamma/H^4 < e^-3)", "existence within 1% of the threshold at the lowest temperature is not decided",
                   "crossings not visible at the computed points are outside the property (resolution of the action curve)"};
  model = std::make_shared<toy::Model>(1, [](const Vec &x, double) { return x[0] * x[0]; }, Vec{246});
  // S3/T at the two ends and a bend
  std::vector<std::pair<double, double>> ranges{{55, 65}, {20, 62}, {99, 99.5}, {4, 9}, {150, 210}};
  Vec lows{-30, 20, 60, 100, 135, 139.5, 145, 170, 400}, highs{60, 120, 139, 141, 180, 220, 320, 3000};
  Vec bends{-1.6, -0.5, 0, 0.8, 1.7}, vws{0.95, 0.1}, gss{106.75, 112.5};
  std::vector<int> ns{4, 6, 15};
  Vec skews{1, 1.5};
  if (h.thorough)
  {
    lows = {-60, -30, 5, 20, 45, 60, 80, 100, 120, 135, 139.5, 140.5, 145, 155, 170, 250, 400};
    highs = {30, 60, 100, 120, 136, 139, 141, 145, 160, 180, 220, 320, 700, 3000};
    vws = {0.95, 0.5, 0.1, 0.01, 1};
    ns = {4, 5, 6, 9, 15, 31};
    skews = {0.7, 1, 1.5};
    bends = {-1.6, -1, -0.5, -0.2, 0, 0.4, 0.8, 1.2, 1.7};
  }
  std::vector<std::vector<int>> H1{{0, 1, 2, 3}}, HA;
  // all orders of the four calculations, plus repetitions and other fractions
  std::vector<int> perm{0, 1, 2, 3};
  do
    HA.push_back(perm);
  while (std::next_permutation(perm.begin(), perm.end()));
  for (auto &x : std::vector<std::vector<int>>{{2, 2, 2}, {3, 3}, {4, 2, 3}, {2, 4, 3}, {4, 4, 2, 2}, {5, 2, 5, 3, 5}, {3, 2, 3, 2}, {0, 0, 1, 1}, {1, 2, 1, 0}, {3, 4, 3}, {5}}) HA.push_back(x);
  int idx = 0;
  for (auto &r : ranges)
    for (double lo : lows)
      for (double hi : highs)
        for (double bd : bends)
          for (int n : ns)
            for (double sk : skews)
            {
              Curve c;
              c.T1 = r.first, c.T2 = r.second;
              c.n = n, c.skew = sk;
              idx++;
              if (!h.thorough && (n != 15) && (idx % 3)) continue;
              c.gs = gss[idx % 2];
              c.Tc = c.T2 + (idx % 4 == 0 ? 1e-3 : 0.05) * (c.T2 - c.T1);
              double s0 = lo * c.T1, s1 = hi * c.T2; // ends
              double sc = bd * 0.5 * std::abs(s1 - s0);
              // S3 = s0 + (s1-s0) t + sc t (t-1) + a small cubic part vanishing at the ends
              double cu = 0.1 * std::abs(s1 - s0) * (idx % 3 - 1);
              c.c[0] = s0;
              c.c[1] = (s1 - s0) - sc + cu;
              c.c[2] = sc - 3 * cu;
              c.c[3] = 2 * cu;
              bool neg = false;
              for (double t = 0; t <= 1; t += 0.01) neg |= c.S(c.T1 + t * (c.T2 - c.T1)) <= 0;
              if (neg) continue; // an action is positive
              for (double vw : vws)
              {
                std::string key = "curve:" + id(c) + ":vw" + str(vw);
                bool all = h.thorough ? idx % 11 == 0 : idx % 97 == 0;
                h.run(key, [&] { one(c, vw, all ? HA : H1); });
              }
            }
  // fewer than four points: no curve, nothing may be set
  for (int n = 0; n < 8; n++)
    h.run("points:" + std::to_string(n), [&] {
      Curve c{50, 60, {5000, 4000, 0, 0}, n, 1, 61, 106.75};
      auto b = mk(c, 0.95);
      h.check((b.status_bounce_sol == StatusGW::Success) == (n >= 4), "four points are needed");
      h.states++;
      h.transitions++;
      if (n >= 4) return;
      b.CalculateNucleationTemp();
      b.CalculateNucleationTempApprox();
      b.CalculatePercolationTemp();
      b.CalculateCompletionTemp();
      h.check(b.GetNucleationTemp() == -1 && b.GetNucleationTempApprox() == -1 && b.GetPercolationTemp() == -1 && b.GetCompletionTemp() == -1, "no temperature without an action curve");
      h.check(b.status_nucl == StatusTemperature::NotSet && b.status_nucl_approx == StatusTemperature::NotSet && b.status_perc == StatusTemperature::NotSet && b.status_compl == StatusTemperature::NotSet,
              "statuses stay 'not set' without an action curve");
    });
  for (double gs : {10., 80., 106.75})
    h.run("gstar:" + str(gs), [&] {
      BounceSolution b(model);
      b.SetGstar(gs);
      for (double T : {0.1, 10., 100., 500.}) h.close(b.HubbleRate(T), M_PI * std::sqrt(gs / 90) * T * T / 2.4e18, 1e-9, 0, "Hubble rate");
      h.states++;
    });
}
HARNESS_MAIN
