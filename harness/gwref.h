// Reference formulae of the gravitational-wave spectra, shared by G01 and R01.
#pragma once
#include <algorithm>
#include <cmath>
namespace gwref
{
struct P
{
  double al, bH, vw, gs, T, eps;
};
static const double CS = 1 / std::sqrt(3.);
struct Ref
{
  double kappa, K, HR, epst, Kt, Hs, fs, As, ft, At;
};
static double kap(double a, double v)
{
  double kA = std::pow(v, 1.2) * 6.9 * a / (1.36 - 0.037 * std::sqrt(a) + a);
  double kB = std::pow(a, 0.4) / (0.017 + std::pow(0.997 + a, 0.4));
  double kC = std::sqrt(a) / (0.135 + std::sqrt(0.98 + a));
  double kD = a / (0.73 + 0.083 * std::sqrt(a) + a);
  double xJ = (std::sqrt(2. / 3 * a + a * a) + CS) / (1 + a);
  double dk = -0.9 * std::log(std::sqrt(a) / (1 + std::sqrt(a)));
  if (v < CS) return std::pow(CS, 2.2) * kA * kB / ((std::pow(CS, 2.2) - std::pow(v, 2.2)) * kB + v * std::pow(CS, 1.2) * kA);
  if (v > xJ)
    return std::pow(xJ - 1, 3) * std::pow(xJ, 2.5) * std::pow(v, -2.5) * kC * kD /
           ((std::pow(xJ - 1, 3) - std::pow(v - 1, 3)) * std::pow(xJ, 2.5) * kC + std::pow(v - 1, 3) * kD);
  return kB + (v - CS) * dk + std::pow((v - CS) / (xJ - CS), 3) * (kC - kB - (xJ - CS) * dk);
}
static Ref mkref(const P &p)
{
  Ref r;
  r.kappa  = kap(p.al, p.vw);
  r.K      = r.kappa * p.al / (1 + p.al);
  r.HR     = std::cbrt(8 * M_PI) * std::max(p.vw, CS) / p.bH;
  double H = 2 * r.HR / std::sqrt(3 * r.K);
  r.epst   = p.eps == -1 ? std::pow(1 - std::min(H, 1.), 2. / 3) : p.eps;
  r.Kt     = r.epst * r.K;
  r.Hs     = M_PI * std::sqrt(p.gs / 90) * p.T * p.T / 2.4e18;
  double g = std::pow(p.gs / 100, 1. / 6);
  r.fs     = 26e-6 / r.HR * p.T / 100 * g;
  r.ft     = 7.909e-5 / r.HR * p.T / 100 * g;
  // fluid turnover: suppressed by H tau when H tau < 1
  r.As = 0.674 * 0.674 * 2.061 * 0.012 * 3.57e-5 * std::cbrt(100 / p.gs) * r.HR * r.K * r.K * std::min(1., H);
  r.At = 1.144e-4 * std::cbrt(100 / p.gs) * r.HR * std::pow(r.Kt, 1.5);
  return r;
}
static double amp(const Ref &r, double f, bool sw, bool tb)
{
  double x = f / r.fs, y = f / r.ft, a = 0;
  if (sw) a += r.As * x * x * x * std::pow(7. / (4 + 3 * x * x), 3.5);
  if (tb) a += r.At * y * y * y / std::pow(1 + y, 11. / 3) / (1 + 8 * M_PI * f / r.Hs);
  return a;
}
static double sens(double f)
{
  double SI = 5.76e-48 * (1 + std::pow(0.4e-3 / f, 2)), R = 1 + std::pow(f / 25e-3, 2);
  double S = 10. / 3 * (SI / std::pow(2 * M_PI * f, 4) + 3.6e-41) * R, H0 = 100 / 3.09e19;
  return 4 * M_PI * M_PI / (3 * H0 * H0) * f * f * f * S;
}
static double snr(const Ref &r, double lo, double hi, double T, bool sw, bool tb)
{
  int n = 20000; // Simpson in log f
  double a = std::log(lo), b = std::log(hi), s = 0;
  for (int i = 0; i <= n; i++)
  {
    double f = std::exp(a + (b - a) * i / n), y = std::pow(amp(r, f, sw, tb) / sens(f), 2) * f;
    s += y * (i == 0 || i == n ? 1 : i % 2 ? 4 : 2);
  }
  s *= (b - a) / n / 3;
  return std::sqrt(86400 * 365.25 * T * s);
}

} // namespace gwref
