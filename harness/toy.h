// User-defined models whose effective potential is an explicit function: the
// "environment" that drives the real minimiser/tracer/bounce code.
#pragma once
#include "common.h"
#include <BSMPT/models/ClassPotentialOrigin.h>
#include <BSMPT/models/IncludeAllModels.h>
#include <BSMPT/models/SMparam.h>
#include <BSMPT/utility/Logger.h>

namespace toy
{
using namespace BSMPT;
using Pot = std::function<double(const Vec &, double)>;

struct Model : public Class_Potential_Origin
{
  Pot V;   // potential in the nVEV minimiser coordinates
  Pot dTV; // optional analytic temperature derivative
  std::vector<size_t> doublet; // which VEV coordinates enter the EW VEV
  Model(size_t nvev, Pot v, Vec treemin, size_t nhiggs = 0)
      : Class_Potential_Origin(GetSMConstants())
  {
    V             = v;
    Model_init(nvev, nhiggs ? nhiggs : nvev, treemin);
  }
  void Model_init(size_t nvev, size_t nhiggs, Vec treemin)
  {
    Class_Potential_Origin::Model = ModelID::ModelIDs::NotSet;
    NNeutralHiggs = nhiggs;
    NChargedHiggs = 0;
    NHiggs        = nhiggs;
    nPar          = 0;
    nParCT        = 0;
    nVEV          = nvev;
    VevOrder.resize(nvev);
    for (size_t i = 0; i < nvev; i++) VevOrder[i] = i;
    for (size_t i = 0; i < nvev; i++) doublet.push_back(i);
    UseVTreeSimplified    = true;
    UseVCounterSimplified = true;
    scale                 = SMConstants.C_vev0;
    initVectors();
    SetCurvatureDone = true;
    vevTreeMin       = treemin;
    vevTree          = Vec(NHiggs, 0);
    for (size_t i = 0; i < nvev; i++) vevTree[VevOrder[i]] = treemin[i];
  }
  double VEff(const Vec &v, double T = 0, int diff = 0, int = 1) const override
  {
    Vec x(nVEV);
    if (v.size() == nVEV && NHiggs != nVEV)
      x = v;
    else
      for (size_t i = 0; i < nVEV; i++) x[i] = v[VevOrder[i]];
    if (diff == 0) return V(x, T);
    if (diff == -1)
    {
      if (dTV) return dTV(x, T);
      double e = 1e-3;
      return (V(x, T + e) - V(x, T - e)) / (2 * e);
    }
    auto xp = x, xm = x;
    for (size_t i = 0; i < nVEV; i++)
      if ((int)VevOrder[i] == diff - 1)
      {
        xp[i] += 1e-3;
        xm[i] -= 1e-3;
        return (V(xp, T) - V(xm, T)) / 2e-3;
      }
    return 0;
  }
  double EWSBVEV(const Vec &v) const override
  {
    double r = 0;
    for (auto i : doublet) r += v[VevOrder[i]] * v[VevOrder[i]];
    return std::sqrt(r);
  }
  void SetEWVEVZero(Vec &sol) const override
  {
    for (auto i : doublet) sol[i] = 0;
  }
  void ReadAndSet(const std::string &, Vec &) override {}
  std::vector<std::string> addLegendCT() const override { return {}; }
  std::vector<std::string> addLegendTemp() const override
  {
    std::vector<std::string> r{"T_c", "v_c", "v_c/T_c"};
    for (auto &x : addLegendVEV()) r.push_back(x);
    return r;
  }
  std::vector<std::string> addLegendTripleCouplings() const override { return {}; }
  std::vector<std::string> addLegendVEV() const override
  {
    std::vector<std::string> r;
    for (size_t i = 0; i < nVEV; i++) r.push_back("w" + std::to_string(i));
    return r;
  }
  void set_gen(const Vec &) override {}
  void set_CT_Pot_Par(const Vec &) override {}
  void write() const override {}
  void SetCurvatureArrays() override {}
  bool CalculateDebyeSimplified() override { return false; }
  bool CalculateDebyeGaugeSimplified() override { return false; }
  double VTreeSimplified(const Vec &) const override { return 0; }
  double VCounterSimplified(const Vec &) const override { return 0; }
  void TripleHiggsCouplings() override {}
  Vec calc_CT() const override { return {}; }
  void Debugging(const Vec &, Vec &) const override {}
};
} // namespace toy
