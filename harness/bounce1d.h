// Independent 1D bounce: V1(x) with V1' = x (x-b) (x-1), false vacuum 0, true vacuum 1.
#pragma once
#include "common.h"
#include <BSMPT/utility/spline/spline.h>
struct Bounce1D
{
  double b; int al;
  double S = 0;              // dimensionless action
  Vec xs, v2;                // velocity^2 as function of the field (sorted in x)
  static double V1(double x, double b) { return x * x * x * x / 4 - (1 + b) * x * x * x / 3 + b * x * x / 2; }
  static double d1(double x, double b) { return x * (x - b) * (x - 1); }
  Bounce1D(double b_, int al_) : b(b_), al(al_)
  {
    double ulo = -60, uhi = std::log(1 - b);
    for (int it = 0; it < 110; it++)
    {
      double u = (ulo + uhi) / 2, e = std::exp(u), w = std::sqrt(1 - b), r = 1e-3, y = e, v;
      if (e < 1e-5)
      {
        auto f = [&](double q) { return al == 2 ? std::sinh(w * q) / (w * q) : 2 * std::cyl_bessel_i(1, w * q) / (w * q); };
        double a = 1e-3, c = al == 3 ? 600 : 2000;
        for (int k = 0; k < 100; k++) { double m = (a + c) / 2, fm = w * m > 600 ? 1e300 : f(m); (e * fm < 1e-5 ? a : c) = m; }
        r = (a + c) / 2;
        y = e * f(r);
        double hh = 1e-4;
        v = -(e * f(r + hh) - e * f(r - hh)) / (2 * hh);
      }
      else
        v = r * d1(1 - y, b) / (al + 1);
      double x = 1 - y, Om = al == 2 ? 4 * M_PI : 2 * M_PI * M_PI, SV = Om * std::pow(r, al + 1) / (al + 1) * V1(1 - y, b), SK = 0, hst = 2e-3;
      int res = 0;
      Vec X, W;
      auto acc = [&](double q, double z, double s) { return d1(z, b) - al / q * s; };
      while (true)
      {
        double k1x = v, k1v = acc(r, x, v), k2x = v + hst / 2 * k1v, k2v = acc(r + hst / 2, x + hst / 2 * k1x, v + hst / 2 * k1v), k3x = v + hst / 2 * k2v, k3v = acc(r + hst / 2, x + hst / 2 * k2x, v + hst / 2 * k2v), k4x = v + hst * k3v, k4v = acc(r + hst, x + hst * k3x, v + hst * k3v);
        double xn = x + hst / 6 * (k1x + 2 * k2x + 2 * k3x + k4x), vn = v + hst / 6 * (k1v + 2 * k2v + 2 * k3v + k4v), rm = r + hst / 2, xm = (x + xn) / 2 + hst / 8 * (v - vn), vm = (xn - x) * 1.5 / hst - (v + vn) / 4;
        double p0 = std::pow(r, al), p1 = std::pow(rm, al), p2 = std::pow(r + hst, al);
        SK += Om * hst / 6 * .5 * (p0 * v * v + 4 * p1 * vm * vm + p2 * vn * vn);
        SV += Om * hst / 6 * (p0 * V1(x, b) + 4 * p1 * V1(xm, b) + p2 * V1(xn, b));
        X.push_back(x);
        W.push_back(v * v);
        x = xn; v = vn; r += hst;
        if (x < 0) { res = 1; break; }
        if (v > 0 || r > 3000) { res = -1; break; }
      }
      S = SK + SV;
      xs = X;
      v2 = W;
      (res == 1 ? ulo : uhi) = u;
    }
    std::reverse(xs.begin(), xs.end());
    std::reverse(v2.begin(), v2.end());
  }
  double vel2(double x) const
  {
    if (std::isnan(x)) return x;
    if (x <= xs.front() || x >= xs.back())
    {
      if (x >= xs.back() || x <= 0) return 0;
      return v2.front() * x * x / (xs.front() * xs.front());
    }
    size_t i = std::upper_bound(xs.begin(), xs.end(), x) - xs.begin();
    double t = (x - xs[i - 1]) / (xs[i] - xs[i - 1]);
    return v2[i - 1] * (1 - t) + v2[i] * t;
  }
};
// O(3) action of the unit potential as a function of the position b of the barrier
inline double unitAction(double b)
{
  static tk::spline s;
  static bool ready = false;
  if (!ready)
  {
    Vec X, Y;
    for (double q : {0.01, 0.016, 0.025, 0.04, 0.06, 0.08, 0.11, 0.14, 0.18, 0.22, 0.26, 0.3, 0.33, 0.36, 0.39, 0.42, 0.44}) X.push_back(std::log(q)), Y.push_back(std::log(Bounce1D(q, 2).S * (0.5 - q) * (0.5 - q)));
    s.set_points(X, Y);
    ready = true;
  }
  return std::exp(s(std::log(b))) / (0.5 - b) / (0.5 - b);
}
