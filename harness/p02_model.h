// The model of the program runs: sums of cubic-quartic potentials read from the input line.
#pragma once
#include "toy.h"
namespace p02
{
using namespace BSMPT;
struct M : public toy::Model
{
  Vec p; // per direction D, t0, E, e, lam; then a shift of the tree-level VEV
  static double v(const double *q, double T)
  {
    double be = 3 * (q[2] * T + q[3]), c = 2 * q[0] * (T * T - q[1]), d = be * be - 4 * q[4] * c;
    double r = d > 0 ? (be + std::sqrt(d)) / 2 / q[4] : 0;
    return r > 0 && pot(q, r, T) < 0 ? r : 0;
  }
  static double pot(const double *q, double x, double T) { return (q[0] * (T * T - q[1]) - (q[2] * T + q[3]) * std::abs(x) + q[4] / 4 * x * x) * x * x; }
  M(size_t n) : toy::Model(n, nullptr, Vec(n, 0))
  {
    nPar = 5 * n + 1, nParCT = 2;
    p = Vec(nPar, 1);
    V = [this](const Vec &x, double T) {
      double r = 0;
      for (size_t i = 0; i < nVEV; i++) r += pot(&p[5 * i], x[i], T);
      return r;
    };
    dTV = [this](const Vec &x, double T) {
      double r = 0;
      for (size_t i = 0; i < nVEV; i++) r += 2 * p[5 * i] * T * x[i] * x[i] - p[5 * i + 2] * std::abs(x[i] * x[i] * x[i]);
      return r;
    };
  }
  void ReadAndSet(const std::string &l, Vec &par) override
  {
    std::stringstream s(l);
    double t;
    if (UseIndexCol) s >> t;
    for (size_t i = 0; i < nPar; i++) s >> t, par[i] = t;
  }
  void set_gen(const Vec &par) override
  {
    p = par;
    for (size_t i = 0; i < nVEV; i++) vevTreeMin[i] = v(&p[5 * i], 0);
    vevTreeMin[0] += p[5 * nVEV];
    vevTree = MinimizeOrderVEV(vevTreeMin);
  }
  void SetCurvatureArrays() override { SetCurvatureDone = true; }
  Vec calc_CT() const override { return {p[0] + 7, 3 * p[4]}; }
  std::vector<std::string> addLegendCT() const override { return {"dA", "dB"}; }
};
} // namespace p02
