// M07: thermal functions, their expansions and derivatives equal the defining integrals
#include "common.h"
#include <BSMPT/ThermalFunctions/ThermalFunctions.h>
#include <BSMPT/ThermalFunctions/NegativeBosonSpline.h>
HARNESS_MAIN
using namespace BSMPT::ThermalFunctions;
namespace
{
// tanh-sinh quadrature; handles integrable end-point singularities
double tanhsinh(const std::function<double(double)> &f, double a, double b)
{
  double c = (b - a) / 2, hh = 1. / 64, r = 0;
  for (int k = -260; k <= 260; k++)
  {
    double t = k * hh, s = M_PI / 2 * std::sinh(t);
    double ch = std::cosh(s);
    if (!(ch < 1e150)) continue;
    double w = M_PI / 2 * std::cosh(t) / (ch * ch);
    // distance to the nearer end computed without cancellation
    double d = c / (std::exp(std::abs(s)) * ch); // (1 - tanh|s|) c
    double x = s < 0 ? a + d : b - d;
    if (x <= a || x >= b) continue;
    double y = f(x);
    if (std::isfinite(y)) r += w * y;
  }
  return r * c * hh;
}
// J(x) = int k^2 log(1 -+ exp(-sqrt(k^2+x)))
double J(double x, bool bos)
{
  auto f = [&](double k) {
    double e2 = k * k + x;
    if (e2 >= 0)
    {
      double e = std::exp(-std::sqrt(e2));
      return k * k * (bos ? (e > 0.5 ? std::log(-std::expm1(-std::sqrt(e2))) : std::log1p(-e)) : std::log1p(e));
    }
    double y = std::sqrt(-e2);
    return k * k * std::log(std::abs(2 * (bos ? std::sin(y / 2) : std::cos(y / 2))));
  };
  std::vector<double> cut{0};
  if (x < 0)
  {
    double q = std::sqrt(-x);
    std::vector<double> c{q};
    for (int n = 0; n <= 40; n++)
    {
      double s = bos ? 2 * M_PI * n : M_PI * (2 * n + 1);
      if (s < q) c.push_back(std::sqrt(-x - s * s));
    }
    std::sort(c.begin(), c.end());
    for (double v : c)
      if (v > cut.back() + 1e-12) cut.push_back(v);
  }
  double last = cut.back();
  for (double d : {2., 6., 14., 30., 60.}) cut.push_back(last + d);
  double r = 0;
  for (size_t i = 0; i + 1 < cut.size(); i++) r += tanhsinh(f, cut[i], cut[i + 1]);
  return r;
}
double dJ(double x, bool bos)
{ // x > 0
  auto f = [&](double k) {
    double e = std::sqrt(k * k + x);
    return bos ? k * k / (2 * e * std::expm1(e)) : -k * k / (2 * e * (std::exp(e) + 1));
  };
  double r = 0;
  std::vector<double> cut{0, 2, 6, 14, 30, 60};
  for (size_t i = 0; i + 1 < cut.size(); i++) r += tanhsinh(f, cut[i], cut[i + 1]);
  return r;
}
// Riemann zeta at odd integers by direct summation with tail correction
double zeta(int s)
{
  double r = 0;
  int N = 2000;
  for (int n = 1; n <= N; n++) r += std::pow(n, -s);
  return r + std::pow(N, 1 - s) / (s - 1) - 0.5 * std::pow(N, -s);
}
double Klow(int l, bool bos)
{ // (2l-3)!! zeta(2l-1) / ((2l)!! (l+1))
  double a = 1;
  for (int i = 2 * l - 3; i > 1; i -= 2) a *= i;
  for (int i = 2 * l; i > 1; i -= 2) a /= i;
  return a * zeta(2 * l - 1) / (l + 1) * (bos ? 1 : std::pow(2, 2 * l - 1) - 1);
}
// high-temperature expansion of J up to order n
double low(double x, int n, bool bos)
{
  double g = 0.57721566490153286060651209, c = bos ? 1.5 + 2 * std::log(4 * M_PI) - 2 * g : 1.5 + 2 * std::log(M_PI) - 2 * g;
  if (x == 0) return bos ? -std::pow(M_PI, 4) / 45 : -7 * std::pow(M_PI, 4) / 360;
  double r = bos ? -std::pow(M_PI, 4) / 45 + M_PI * M_PI / 12 * x - M_PI / 6 * std::pow(x, 1.5) - x * x / 32 * (std::log(x) - c)
                 : -7 * std::pow(M_PI, 4) / 360 + M_PI * M_PI / 24 * x + x * x / 32 * (std::log(x) - c);
  double s = 0;
  for (int l = 2; l <= n; l++) s += std::pow(-x / (4 * M_PI * M_PI), l) * Klow(l, bos);
  return r + (bos ? 1 : -1) * M_PI * M_PI * x * s;
}
double high(double x, int n)
{ // low-temperature expansion
  double s = 0, K = 1;
  for (int l = 0; l <= n; l++)
  {
    if (l) K *= (4 * 4 - (2. * l - 1) * (2. * l - 1)) / (8. * l); // Bessel K_2 asymptotic coefficients
    s += K * std::pow(x, -l / 2.);
  }
  return -std::exp(-std::sqrt(x)) * std::sqrt(M_PI / 2) * std::pow(x, 0.75) * s;
}
double slope(const std::function<double(double)> &f, double x, double e)
{
  return (8 * (f(x + e) - f(x - e)) - (f(x + 2 * e) - f(x - 2 * e))) / (12 * e);
}
double mxv[6], mxp[6];
void track(int i, double d, double x)
{
  if (std::abs(d) > mxv[i]) { mxv[i] = std::abs(d); mxp[i] = x; }
}
void positive(double x)
{
  h.states++;
  std::string at = " at x=" + str(x);
  for (bool bos : {true, false})
  {
    std::string nm = bos ? "boson" : "fermion";
    double j = J(x, bos), dj = x > 0 ? dJ(x, bos) : bos ? M_PI * M_PI / 12 : -M_PI * M_PI / 24;
    double in = bos ? JbosonNumericalIntegration(x, 0) : JfermionNumericalIntegration(x, 0);
    // the tail above k = 30 is left out
    h.close(in, j, 1e-5, 1e-9, nm + " integral" + at);
    double din = x > 0 ? (bos ? JbosonNumericalIntegration(x, 1) : JfermionNumericalIntegration(x, 1)) : dj;
    h.close(din, dj, 1e-4, 1e-9, nm + " derivative of the integral" + at);
    double ip = bos ? JbosonInterpolated(x) : JfermionInterpolated(x);
    double dp = bos ? JbosonInterpolated(x, 1) : JfermionInterpolated(x, 1);
    track(bos ? 0 : 1, ip - j, x);
    track(bos ? 2 : 3, dp - dj, x);
    // accuracy of the matched expansions
    h.close(ip, j, 0, bos ? 6.5e-3 : 1.6e-2, nm + " interpolated" + at);
    h.close(dp, dj, 0, bos ? 1.2e-3 : 3.3e-3, nm + " derivative of interpolated" + at);
    double th = bos ? C_BosonTheta : C_FermionTheta;
    double e = std::min(x / 60, 1e-3 * (1 + x));
    if (x > 1e-6 && std::abs(x - th) > 3 * e)
    {
      auto f = [&](double y) { return bos ? JbosonInterpolated(y) : JfermionInterpolated(y); };
      h.close(dp, slope(f, x, e), 1e-4, 1e-8, nm + " derivative equals the slope" + at);
    }
    for (int n = 0; n <= 8; n++)
    {
      h.transitions++;
      double lo = bos ? JbosonInterpolatedLow(x, n) : JfermionInterpolatedLow(x, n);
      h.close(lo, low(x, n, bos), 1e-9, 1e-10, nm + " high-temperature expansion order " + std::to_string(n) + at);
      auto f = [&](double y) { return bos ? JbosonInterpolatedLow(y, n) : JfermionInterpolatedLow(y, n); };
      if (x > 1e-6) h.close(bos ? JbosonInterpolatedLow(x, n, 1) : JfermionInterpolatedLow(x, n, 1), slope(f, x, e), 1e-4, 1e-7 * (1 + std::abs(lo)), nm + " derivative of the expansion order " + std::to_string(n) + at);
    }
  }
  if (x > 0.3)
    for (int n = 0; n <= 8; n++)
    {
      double hi = JInterpolatedHigh(x, n), e = std::min(x / 60, 1e-3 * (1 + x));
      h.close(hi, high(x, n), 1e-9, 1e-300, "low-temperature expansion order " + std::to_string(n) + at);
      h.close(JInterpolatedHigh(x, n, 1), slope([&](double y) { return JInterpolatedHigh(y, n); }, x, e), 1e-3, 1e-6 * std::abs(hi) + 1e-300, "derivative of the low-temperature expansion order " + std::to_string(n) + at);
    }
  h.traces++;
}
void negative(double x)
{
  h.states++;
  std::string at = " at x=" + str(x);
  double j = J(x, true);
  double ip = JbosonInterpolated(x);
  track(4, (ip - j) / (1 + std::abs(j)), x);
  h.close(ip, j, 1e-3, x > -41 && x < -38 ? 8e-2 : 2e-2, "boson interpolated" + at);
  h.same(JbosonInterpolatedNegative(x), ip, "negative branch" + at);
  double e = 1e-3;
  if (std::abs(x) > 1e-2)
    h.close(JbosonInterpolated(x, 1), slope([](double y) { return JbosonInterpolated(y); }, x, e), 1e-4, 1e-5, "boson derivative equals the slope" + at);
  h.traces++;
}
} // namespace
void run_all()
{
  BSMPT::ThermalFunctions::JbosonInterpolated(0);
  int step = h.thorough ? 16 : 4;
  for (int k = 0; k <= 240 * step; k++)
  {
    double x = std::pow(10., -6 + 9.2 * k / (240. * step));
    h.run("pos:" + std::to_string(k) + "/" + std::to_string(step), [&] { positive(x); h.outcome("positive decade " + std::to_string((int)std::floor(std::log10(x)))); });
  }
  for (double x : {0., C_BosonTheta, C_FermionTheta})
    for (int d = -3; d <= 3; d++)
      h.run("match:" + str(x) + ":" + std::to_string(d), [&] {
        double y = x + d * 1e-6;
        if (y >= 0) positive(y);
        else negative(y);
        h.outcome("matching point " + str(x));
      });
  // continuity of values and derivatives across every matching point
  h.run("continuity", [&] {
    for (double x : {0., C_BosonTheta})
      for (int d : {0, 1})
        h.close(JbosonInterpolated(x - 1e-9, d), JbosonInterpolated(x + 1e-9, d), 0, d ? (x ? 5e-4 : 4e-3) : 2e-5, "boson continuity at " + str(x) + " derivative " + std::to_string(d));
    for (int d : {0, 1})
      h.close(JfermionInterpolated(C_FermionTheta - 1e-9, d), JfermionInterpolated(C_FermionTheta + 1e-9, d), 0, d ? 5e-4 : 1e-6, "fermion continuity derivative " + std::to_string(d));
    h.outcome("continuity");
  });
  for (int k = 1; k <= 3000; k++)
  {
    if (!h.thorough && k > 150 && k % 5) continue;
    for (int f = 0; f < (h.thorough ? 4 : 2); f++)
    {
      double x = -(k - f / (h.thorough ? 4. : 2.));
      h.run("neg:" + str(x), [&] { negative(x); h.outcome("negative " + std::to_string((int)(-x / 500))); });
    }
  }
  h.assumptions = {"argument m^2/T^2 from -3000 to 1500; expansions of order 0 to 8"};
  if (getenv("M07_DEBUG"))
    for (int i = 0; i < 5; i++) printf("max %d %g at %g\n", i, mxv[i], mxp[i]);
}
