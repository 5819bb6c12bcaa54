// Independent specification of the shipped models at the level of their
// Lagrangians: potentials in terms of SU(2) doublets and singlets, covariant
// derivative for gauge masses, Yukawa terms for fermion masses.  Nothing here
// uses the tensors or simplified expressions of the implementation.
#pragma once
#include "common.h"
#include <BSMPT/models/ClassPotentialOrigin.h>
#include <BSMPT/models/IncludeAllModels.h>
#include <BSMPT/models/SMparam.h>
#include <BSMPT/utility/Logger.h>
#include <Eigen/Dense>

namespace mo
{
using namespace BSMPT;
using C  = std::complex<double>;
using ID = ModelID::ModelIDs;
using D2 = std::array<C, 2>; // (phi+, phi0)
using Mat = Eigen::MatrixXd;

struct Fields
{
  std::vector<D2> d;
  Vec s;
};
inline double abs2(const D2 &a) { return std::norm(a[0]) + std::norm(a[1]); }
inline C dot(const D2 &a, const D2 &b) { return std::conj(a[0]) * b[0] + std::conj(a[1]) * b[1]; }

struct Spec
{
  ID id;
  std::string name;
  size_t nH, nPar, nCT, nVEV;
  std::vector<size_t> order;                   // VEV direction -> field
  std::vector<std::string> legCT;              // meaning of the counterterm parameters
  std::function<Fields(const Vec &)> fields;   // real fields -> multiplets
  std::function<Vec(const Vec &)> full;        // input parameters -> full Lagrangian parameters
  std::function<double(const Vec &, const Fields &)> tree; // of the full Lagrangian parameters
  std::function<double(const Vec &, const Fields &, const Vec &)> ct; // CT potential (parameters, fields, real fields)
  std::function<Vec(const Vec &)> vev;         // input parameters -> tree VEV (nVEV)
  std::function<int(const Vec &)> type;        // Yukawa type
};

inline double v0() { return GetSMConstants().C_vev0; }
inline Vec rs(const Vec &v) { return v; }

inline double thdm(double m11, double m22, C m12, double l1, double l2, double l3, double l4, C l5, const Fields &f)
{
  double a = abs2(f.d[0]), b = abs2(f.d[1]);
  C c = dot(f.d[0], f.d[1]);
  return m11 * a + m22 * b - 2 * (m12 * c).real() + 0.5 * l1 * a * a + 0.5 * l2 * b * b + l3 * a * b + l4 * std::norm(c) + (l5 * c * c).real();
}

// solves for the parameters `unk` of the full parameter vector such that `tree` is stationary at `vev` in the field directions `dirs`
inline void stationary(const Spec &s, Vec &full, const std::vector<size_t> &unk, const std::vector<size_t> &dirs, const Vec &vfull)
{
  auto grad = [&](const Vec &p) {
    Vec g;
    for (auto d : dirs)
    {
      auto f = [&](double x) { auto v = vfull; v[d] += x; return s.tree(p, s.fields(v)); };
      double e = 40;
      g.push_back((8 * (f(e) - f(-e)) - (f(2 * e) - f(-2 * e))) / (12 * e));
    }
    return g;
  };
  auto p0 = full;
  for (auto u : unk) p0[u] = 0;
  auto g0 = grad(p0);
  Mat A(dirs.size(), unk.size());
  Eigen::VectorXd b(dirs.size());
  for (size_t j = 0; j < unk.size(); j++)
  {
    auto p = p0;
    double unit = 1e4;
    p[unk[j]]   = unit;
    auto g      = grad(p);
    for (size_t i = 0; i < dirs.size(); i++) A(i, j) = (g[i] - g0[i]) / unit;
  }
  for (size_t i = 0; i < dirs.size(); i++) b(i) = -g0[i];
  Eigen::VectorXd x = A.fullPivLu().solve(b);
  for (size_t j = 0; j < unk.size(); j++) full[unk[j]] = x(j);
}

inline std::vector<Spec> &specs()
{
  static std::vector<Spec> S;
  if (!S.empty()) return S;
  const double r2 = 1 / std::sqrt(2.);
  auto f8 = [r2](const Vec &v) {
    Fields f;
    f.d.push_back({C(v[0], v[1]) * r2, C(v[4], v[5]) * r2});
    f.d.push_back({C(v[2], v[3]) * r2, C(v[6], v[7]) * r2});
    return f;
  };
  {
    Spec s;
    s.id = ID::SM; s.name = "SM"; s.nH = 4; s.nPar = 2; s.nCT = 6; s.nVEV = 1; s.order = {2};
    s.legCT  = {"dmuSq", "dlambda", "dT1", "dT2", "dT3", "dT4"};
    s.fields = [r2](const Vec &v) { Fields f; f.d.push_back({C(v[0], v[1]) * r2, C(v[2], v[3]) * r2}); return f; };
    s.full = [](const Vec &) { double m2 = std::pow(GetSMConstants().C_MassSMHiggs, 2) / 2; return Vec{-m2, m2 / (v0() * v0())}; };
    s.tree = [](const Vec &p, const Fields &f) { double a = abs2(f.d[0]); return p[0] * a + p[1] * a * a; };
    s.ct   = [s](const Vec &p, const Fields &f, const Vec &x) { double r = s.tree(p, f); for (int i = 0; i < 4; i++) r += p[2 + i] * x[i]; return r; };
    s.vev  = [](const Vec &) { return Vec{v0()}; };
    s.type = [](const Vec &) { return 0; };
    S.push_back(s);
  }
  {
    Spec s; // par: L1 L2 L3 L4 L5 m12 tanbeta type
    s.id = ID::R2HDM; s.name = "R2HDM"; s.nH = 8; s.nPar = 8; s.nCT = 11; s.nVEV = 4; s.order = {2, 4, 6, 7};
    s.legCT  = {"Dm11sq", "Dm22sq", "Dm12sq", "DL1", "DL2", "DL3", "DL4", "DL5", "DT1", "DT2", "DT3"};
    s.fields = f8;
    s.vev  = [](const Vec &p) { double b = std::atan(p[6]); return Vec{0, v0() * std::cos(b), v0() * std::sin(b), 0}; };
    // full: m11 m22 m12 L1..L5
    s.tree = [](const Vec &p, const Fields &f) { return thdm(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], f); };
    s.ct   = [s](const Vec &p, const Fields &f, const Vec &x) { return s.tree(p, f) + p[8] * x[4] + p[9] * x[6] + p[10] * x[7]; };
    s.full = [s](const Vec &p) {
      Vec q{0, 0, p[5], p[0], p[1], p[2], p[3], p[4]};
      auto w = s.vev(p);
      stationary(s, q, {0, 1}, {4, 6}, {0, 0, 0, 0, w[1], 0, w[2], 0});
      return q;
    };
    s.type = [](const Vec &p) { return (int)p[7]; };
    S.push_back(s);
  }
  {
    Spec s; // par: L1 L2 L3 L4 ReL5 ImL5 Rem12 tanbeta type
    s.id = ID::C2HDM; s.name = "C2HDM"; s.nH = 8; s.nPar = 9; s.nCT = 15; s.nVEV = 4; s.order = {2, 4, 6, 7};
    s.legCT  = {"Dm11sq", "Dm22sq", "Dim_m12sq", "Dre_m12sq", "DL1", "DL2", "DL3", "DL4", "Dre_L5", "Dim_L5", "DTCharged", "DT1", "DT2", "DT3", "Dim_L6"};
    s.fields = f8;
    s.vev  = [](const Vec &p) { double b = std::atan(p[7]); return Vec{0, v0() * std::cos(b), v0() * std::sin(b), 0}; };
    // full: m11 m22 Rem12 Imm12 L1..L4 ReL5 ImL5
    s.tree = [](const Vec &p, const Fields &f) { return thdm(p[0], p[1], C(p[2], p[3]), p[4], p[5], p[6], p[7], C(p[8], p[9]), f); };
    s.ct   = [s](const Vec &p, const Fields &f, const Vec &x) {
      Vec q{p[0], p[1], p[3], p[2], p[4], p[5], p[6], p[7], p[8], p[9]};
      double l6 = (C(0, p[14]) * abs2(f.d[0]) * dot(f.d[0], f.d[1])).real() * 2;
      return s.tree(q, f) + l6 + p[10] * x[2] + p[11] * x[4] + p[12] * x[6] + p[13] * x[7];
    };
    s.full = [s](const Vec &p) {
      Vec q{0, 0, p[6], 0, p[0], p[1], p[2], p[3], p[4], p[5]};
      auto w = s.vev(p);
      stationary(s, q, {0, 1, 3}, {4, 6, 7}, {0, 0, 0, 0, w[1], 0, w[2], 0});
      return q;
    };
    s.type = [](const Vec &p) { return (int)p[8]; };
    S.push_back(s);
  }
  {
    Spec s; // par: L1 L2 L3 L4 L5 L6 L7 L8 tanbeta vs m12 type
    s.id = ID::N2HDM; s.name = "N2HDM"; s.nH = 9; s.nPar = 12; s.nCT = 15; s.nVEV = 5; s.order = {1, 5, 6, 7, 8};
    s.legCT  = {"Du11sq", "Du22sq", "Dm12sq", "DL1", "DL2", "DL3", "DL4", "DL5", "Dussq", "DL6", "DL7", "DL8", "DT1", "DT2", "DTs"};
    s.fields = [r2](const Vec &v) {
      Fields f;
      f.d.push_back({C(v[0], v[2]) * r2, C(v[6], v[4]) * r2});
      f.d.push_back({C(v[1], v[3]) * r2, C(v[7], v[5]) * r2});
      f.s = {v[8]};
      return f;
    };
    s.vev = [](const Vec &p) { double b = std::atan(p[8]); return Vec{0, 0, v0() * std::cos(b), v0() * std::sin(b), p[9]}; };
    // full: m11 m22 m12 L1..L5 us L6 L7 L8
    s.tree = [](const Vec &p, const Fields &f) {
      double S2 = f.s[0] * f.s[0];
      return thdm(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], f) + 0.5 * p[8] * S2 + p[9] / 8 * S2 * S2 + 0.5 * p[10] * abs2(f.d[0]) * S2 + 0.5 * p[11] * abs2(f.d[1]) * S2;
    };
    s.ct   = [s](const Vec &p, const Fields &f, const Vec &x) { return s.tree(p, f) + p[12] * x[6] + p[13] * x[7] + p[14] * x[8]; };
    s.full = [s](const Vec &p) {
      Vec q{0, 0, p[10], p[0], p[1], p[2], p[3], p[4], 0, p[5], p[6], p[7]};
      auto w = s.vev(p);
      stationary(s, q, {0, 1, 8}, {6, 7, 8}, {0, 0, 0, 0, 0, 0, w[2], w[3], w[4]});
      return q;
    };
    s.type = [](const Vec &p) { return (int)p[11]; };
    S.push_back(s);
  }
  {
    Spec s; // par: vh vs va msq lambda delta2 b2 d2 Reb1 Imb1 Rea1 Ima1
    s.id = ID::CXSM; s.name = "CxSM"; s.nH = 6; s.nPar = 12; s.nCT = 15; s.nVEV = 3; s.order = {3, 4, 5};
    s.legCT  = {"dms", "dlambda", "ddelta2", "db2", "dd2", "dReb1", "dImb1", "dRea1", "dIma1", "dT1", "dT2", "dT3", "dT4", "dT5", "dT6"};
    s.fields = [r2](const Vec &v) { Fields f; f.d.push_back({C(v[0], v[1]) * r2, C(v[3], v[2]) * r2}); f.s = {v[4], v[5]}; return f; };
    s.vev    = [](const Vec &p) { return Vec{p[0], p[1], p[2]}; };
    // full: msq lambda delta2 b2 d2 Reb1 Imb1 Rea1 Ima1
    s.tree = [r2](const Vec &p, const Fields &f) {
      double a = abs2(f.d[0]);
      C s0 = C(f.s[0], f.s[1]) * r2, b1(p[5], p[6]), a1(p[7], p[8]);
      double n = std::norm(s0);
      return p[0] / 2 * a + p[1] / 4 * a * a + p[2] / 2 * a * n + p[3] / 2 * n + p[4] / 4 * n * n + 2 * (b1 / 4. * s0 * s0 + a1 * s0).real();
    };
    s.ct   = [s](const Vec &p, const Fields &f, const Vec &x) { double r = s.tree(p, f); for (int i = 0; i < 6; i++) r += p[9 + i] * x[i]; return r; };
    s.full = [s](const Vec &p) {
      Vec q{p[3], p[4], p[5], p[6], p[7], p[8], p[9], p[10], p[11]};
      Vec w{0, 0, 0, p[0], p[1], p[2]};
      bool vs = p[1] != 0, va = p[2] != 0;
      if (va) stationary(s, q, {0, 7, 5}, {3, 4, 5}, w);
      else if (vs) stationary(s, q, {0, 8, 5}, {3, 4, 5}, w);
      else { q[7] = q[8] = 0; stationary(s, q, {0}, {3}, w); }
      return q;
    };
    s.type = [](const Vec &) { return 0; };
    S.push_back(s);
  }
  {
    Spec s; // par: m11 m22 mS ReA ImA L1..L8
    s.id = ID::CPINTHEDARK; s.name = "CPINTHEDARK"; s.nH = 9; s.nPar = 13; s.nCT = 19; s.nVEV = 5; s.order = {2, 4, 6, 7, 8};
    s.legCT  = {"dm11s", "dm22s", "dmSs", "dReA", "dImA", "dL1", "dL2", "dL3", "dL4", "dL5", "dL6", "dL7", "dL8", "dTCB", "dT1", "dT2", "dTCP", "dTS", "dImL5"};
    s.fields = [f8](const Vec &v) { auto f = f8(v); f.s = {v[8]}; return f; };
    s.vev    = [](const Vec &) { return Vec{0, v0(), 0, 0, 0}; };
    s.tree   = [](const Vec &p, const Fields &f) {
      double S2 = f.s[0] * f.s[0];
      return thdm(p[0], p[1], 0, p[5], p[6], p[7], p[8], p[9], f) + 0.5 * p[2] * S2 + 2 * (C(p[3], p[4]) * dot(f.d[0], f.d[1])).real() * f.s[0] + p[10] / 4 * S2 * S2 +
             0.5 * p[11] * abs2(f.d[0]) * S2 + 0.5 * p[12] * abs2(f.d[1]) * S2;
    };
    s.ct = [s](const Vec &p, const Fields &f, const Vec &x) {
      C c = dot(f.d[0], f.d[1]);
      return s.tree(p, f) + (C(0, p[18]) * c * c).real() + p[13] * x[2] + p[14] * x[4] + p[15] * x[6] + p[16] * x[7] + p[17] * x[8];
    };
    s.full = rs;
    s.type = [](const Vec &) { return 0; };
    S.push_back(s);
  }
  return S;
}
inline const Spec &spec(const std::string &n)
{
  for (auto &s : specs())
    if (s.name == n) return s;
  abort();
}

struct Point
{
  const Spec *s;
  std::string key;
  Vec par;  // input parameters in the order of set_gen
};

// --- oracle quantities -------------------------------------------------------
struct Oracle
{
  const Spec &s;
  Vec par, full, pct;
  Vec w; // VEV in all fields
  int type;
  Oracle(const Point &p) : s(*p.s), par(p.par), full(p.s->full(p.par)), pct(p.s->nCT, 0.)
  {
    type = s.type(par);
    w    = expand(s.vev(par));
  }
  Vec expand(const Vec &v) const
  {
    Vec r(s.nH, 0.);
    for (size_t i = 0; i < s.nVEV; i++) r[s.order[i]] = v[i];
    return r;
  }
  double tree(const Vec &x) const { return s.tree(full, s.fields(x)); }
  double ct(const Vec &x) const { return s.ct(pct, s.fields(x), x); }
  // exact derivatives of polynomials of degree <= 4 by central differences
  static double d1(const std::function<double(const Vec &)> &f, Vec x, size_t i, double e = 50)
  {
    auto g = [&](double t) { auto y = x; y[i] += t; return f(y); };
    return (8 * (g(e) - g(-e)) - (g(2 * e) - g(-2 * e))) / (12 * e);
  }
  static double d2(const std::function<double(const Vec &)> &f, Vec x, size_t i, size_t j, double e = 50)
  {
    auto g = [&](double a, double b) { auto y = x; y[i] += a; y[j] += b; return f(y); };
    if (i == j) return (16 * (g(e, 0) + g(-e, 0)) - (g(2 * e, 0) + g(-2 * e, 0)) - 30 * g(0, 0)) / (12 * e * e);
    auto m = [&](double h) { return (g(h, h) - g(h, -h) - g(-h, h) + g(-h, -h)) / (4 * h * h); };
    return (4 * m(e) - m(2 * e)) / 3;
  }
  Mat hess(const std::function<double(const Vec &)> &f, const Vec &x) const
  {
    Mat H(s.nH, s.nH);
    for (size_t i = 0; i < s.nH; i++)
      for (size_t j = i; j < s.nH; j++) H(i, j) = H(j, i) = d2(f, x, i, j);
    return H;
  }
  Mat higgsM(const Vec &x) const { return hess([&](const Vec &y) { return tree(y); }, x); }
  Mat gaugeM(const Vec &x) const
  {
    auto sm  = GetSMConstants();
    double g = sm.C_g, gs = sm.C_gs;
    Mat M    = Mat::Zero(4, 4);
    const C I(0, 1);
    for (auto &d : s.fields(x).d)
    {
      D2 t[4] = {{g / 2 * d[1], g / 2 * d[0]}, {-I * g / 2. * d[1], I * g / 2. * d[0]}, {g / 2 * d[0], -g / 2 * d[1]}, {gs / 2 * d[0], gs / 2 * d[1]}};
      for (int a = 0; a < 4; a++)
        for (int b = 0; b < 4; b++) M(a, b) += 2 * dot(t[a], t[b]).real();
    }
    return M;
  }
  // which doublet gives mass to up quarks, down quarks, leptons
  std::array<size_t, 3> yuk() const
  {
    if (s.name == "SM" || s.name == "CxSM" || s.name == "CPINTHEDARK") return {0, 0, 0};
    switch (type)
    {
    case 1: return {1, 1, 1};
    case 2: return {1, 0, 0};
    case 3: return {1, 1, 0};
    default: return {1, 0, 1};
    }
  }
  double vdoub(size_t d) const { return std::sqrt(2.) * std::abs(s.fields(w).d[d][1]); }
  C v0doub(size_t d) const { return s.fields(w).d[d][1] * std::sqrt(2.); }
  Eigen::MatrixXcd quarkDirac(const Vec &x) const
  {
    auto sm = GetSMConstants();
    auto y  = yuk();
    auto f  = s.fields(x);
    Eigen::Matrix3cd V;
    V << sm.C_Vud, sm.C_Vus, sm.C_Vub, sm.C_Vcd, sm.C_Vcs, sm.C_Vcb, sm.C_Vtd, sm.C_Vts, sm.C_Vtb;
    double mu[3] = {sm.C_MassUp, sm.C_MassCharm, sm.C_MassTop}, md[3] = {sm.C_MassDown, sm.C_MassStrange, sm.C_MassBottom};
    double s2 = std::sqrt(2.);
    // signed VEVs: a negative doublet VEV flips the sign of its Yukawa coupling
    double vu = v0doub(y[0]).real(), vd = v0doub(y[1]).real();
    Eigen::Matrix3cd Yu = Eigen::Matrix3cd::Zero(), Yd = Eigen::Matrix3cd::Zero();
    for (int i = 0; i < 3; i++) { Yu(i, i) = s2 * mu[i] / vu; Yd(i, i) = s2 * md[i] / vd; }
    Eigen::MatrixXcd M = Eigen::MatrixXcd::Zero(6, 6);
    M.block(0, 0, 3, 3) = Yu * std::conj(f.d[y[0]][1]);
    M.block(3, 0, 3, 3) = -V.adjoint() * Yu * std::conj(f.d[y[0]][0]);
    M.block(0, 3, 3, 3) = V * Yd * f.d[y[1]][0];
    M.block(3, 3, 3, 3) = Yd * f.d[y[1]][1];
    return M;
  }
  Vec quark2(const Vec &x) const
  {
    auto M  = quarkDirac(x);
    Eigen::SelfAdjointEigenSolver<Eigen::MatrixXcd> es(M.adjoint() * M, Eigen::EigenvaluesOnly);
    Vec r;
    for (int i = 0; i < 6; i++) { r.push_back(es.eigenvalues()[i]); r.push_back(es.eigenvalues()[i]); }
    return r;
  }
  Vec lepton2(const Vec &x) const
  {
    auto sm = GetSMConstants();
    auto d  = yuk()[2];
    double a = abs2(s.fields(x).d[d]), v = vdoub(d);
    Vec r{0, 0, 0};
    for (double m : {sm.C_MassElectron, sm.C_MassMu, sm.C_MassTau}) { double q = 2 * m * m / (v * v) * a; r.push_back(q); r.push_back(q); }
    std::sort(r.begin(), r.end());
    return r;
  }
  // thermal masses / T^2
  mutable bool haveD = false;
  mutable Mat Dh, Dg;
  // with heavyOnly the thermal scalar masses keep only the top and bottom Yukawa
  // couplings (the approximation the hand-written expressions make)
  mutable Mat DhHeavy;
  void debye() const
  {
    if (haveD) return;
    haveD  = true;
    bool heavy = false;
    auto F = [&](const Vec &x) {
      double q = 0, l = 0;
      for (double m : quark2(x)) q += m;
      for (double m : lepton2(x)) l += m;
      if (heavy)
      {
        auto sm = GetSMConstants();
        auto y  = yuk();
        auto f  = s.fields(x);
        q = 4 * (std::pow(sm.C_MassTop / vdoub(y[0]), 2) * abs2(f.d[y[0]]) + std::pow(sm.C_MassBottom / vdoub(y[1]), 2) * abs2(f.d[y[1]]));
        l = 0;
      }
      return (higgsM(x).trace() + 3 * gaugeM(x).trace() + 0.5 * (2 * 3 * q + 2 * l)) / 24;
    };
    for (int k = 0; k < 2; k++)
    {
    heavy = k == 0;
    Dh = Mat(s.nH, s.nH);
    Vec z(s.nH, 0.);
    double F0 = F(z);
    for (size_t i = 0; i < s.nH; i++)
      for (size_t j = i; j < s.nH; j++)
      {
        double e = 100;
        auto g = [&](double a, double b) { auto y = z; y[i] += a; y[j] += b; return F(y); };
        Dh(i, j) = i == j ? (g(e, 0) - 2 * F0 + g(-e, 0)) / (e * e) : (g(e, e) - g(e, -e) - g(-e, e) + g(-e, -e)) / (4 * e * e);
        Dh(j, i) = Dh(i, j);
      }
    if (heavy) DhHeavy = Dh;
    }
    auto sm  = GetSMConstants();
    double n = s.fields(Vec(s.nH, 0.)).d.size(); // scalar doublets: Pi_W = g^2 (5/3 + n/6), Pi_B = g'^2 (5/3 + n/6)
    Dg       = Mat::Zero(4, 4);
    for (int a = 0; a < 4; a++) Dg(a, a) = (a < 3 ? sm.C_g * sm.C_g : sm.C_gs * sm.C_gs) * (5. / 3 + n / 6);
  }
};
inline Vec eig(const Mat &M)
{
  Eigen::SelfAdjointEigenSolver<Mat> es(M, Eigen::EigenvaluesOnly);
  return Vec(es.eigenvalues().data(), es.eigenvalues().data() + M.rows());
}

// --- points ------------------------------------------------------------------
// lattice of input points per model; invalid ones (tachyonic at the tree vacuum) removed
inline std::vector<Point> points(const std::string &name, bool thorough)
{
  const Spec &s = spec(name);
  std::vector<Point> r;
  std::vector<std::pair<std::string, Vec>> c;
  auto add = [&](const std::string &k, const Vec &p) { c.push_back({k, p}); };
  if (name == "SM") { add("a", {-7823.75, 0.129}); add("b", {1, 2}); }
  if (name == "R2HDM")
  {
    for (int t = 1; t <= 4; t++)
    {
      add("ex-t" + std::to_string(t), {2.740594787, 0.2423556498, 5.534491052, -2.585467181, -2.225991025, 7738.56, 4.63286, (double)t});
      add("neg-t" + std::to_string(t), {2.740594787, 0.2423556498, 5.534491052, -2.585467181, -2.225991025, -7738.56, -4.63286, (double)t});
      // from physical masses: mh=125.09, cos(beta-alpha)=c
      for (double tb : {1.0, 3.0, 12.0})
        for (double cba : {0., 0.1})
          for (double mH : {200., 500.})
          {
            double mA = mH + 60, mC = mH + 25, mh = 125.09, be = std::atan(tb), al = be - std::acos(cba), v = v0(), sb = std::sin(be), cb = std::cos(be), sa = std::sin(al), ca = std::cos(al);
            double m12 = 0.7 * mH * mH * sb * cb;
            double M2  = m12 / (sb * cb);
            double l1 = (mH * mH * ca * ca + mh * mh * sa * sa - M2 * sb * sb) / (v * v * cb * cb), l2 = (mH * mH * sa * sa + mh * mh * ca * ca - M2 * cb * cb) / (v * v * sb * sb);
            double l3 = ((mH * mH - mh * mh) * sa * ca / (sb * cb) + 2 * mC * mC - M2) / (v * v), l4 = (mA * mA - 2 * mC * mC + M2) / (v * v), l5 = (M2 - mA * mA) / (v * v);
            add("m" + str(tb) + "_" + str(cba) + "_" + str(mH) + "-t" + std::to_string(t), {l1, l2, l3, l4, l5, m12, tb, (double)t});
          }
    }
  }
  if (name == "C2HDM")
    for (int t = 1; t <= 4; t++)
      for (double im : {0.124948, -0.4, 0., 0.9})
        for (double tb : {4.64487, 1.5})
          for (double k : {1., 0.6})
            add("i" + str(im) + "_" + str(tb) + "_" + str(k) + "-t" + std::to_string(t), {3.29771 * k, 0.274365, 4.71019 * k, -2.23056, -2.43487 * k, im, 2706.86 * (tb < 2 ? 8 : 1), tb, (double)t});
  if (name == "N2HDM")
    for (int t = 1; t <= 4; t++)
      for (double vs : {293.035, 120., -200.})
        for (double tb : {5.91129, 1.3})
          for (double k : {1., 0.3})
            add("s" + str(vs) + "_" + str(tb) + "_" + str(k) + "-t" + std::to_string(t),
                {0.300812, 0.321809, -0.133425, 4.11105, -3.84178, 9.46329, -0.750455 * k, 0.743982 * k, tb, vs, 4842.28 * (tb < 2 ? 10 : 1), (double)t});
  if (name == "N2HDM")
    // from physical masses and mixing angles, the SM-like state being the lightest, middle or heaviest
    for (int t = 1; t <= 4; t++)
      for (double tb : {1.7, 6.})
        for (auto mm : {std::array<double, 3>{125.09, 260, 410}, std::array<double, 3>{95, 125.09, 350}, std::array<double, 3>{60, 95, 125.09}})
          for (double vs : {320., -90.})
          {
            double v = v0(), be = std::atan(tb), sb = std::sin(be), cb = std::cos(be), a1 = be - 0.1, a2 = 0.2, a3 = -0.3;
            double m12 = 300. * 300. * sb * cb, M2 = m12 / (sb * cb), mA = 340, mC = 330;
            Mat R1 = Mat::Identity(3, 3), R2 = R1, R3 = R1;
            R1 << std::cos(a1), std::sin(a1), 0, -std::sin(a1), std::cos(a1), 0, 0, 0, 1;
            R2 << std::cos(a2), 0, std::sin(a2), 0, 1, 0, -std::sin(a2), 0, std::cos(a2);
            R3 << 1, 0, 0, 0, std::cos(a3), std::sin(a3), 0, -std::sin(a3), std::cos(a3);
            Mat R = R3 * R2 * R1, D = Mat::Zero(3, 3);
            // the SM-like state is the doublet-like first row
            std::vector<double> ms{125.09};
            for (double x : mm) if (x != 125.09) ms.push_back(x);
            for (int i = 0; i < 3; i++) D(i, i) = ms[i] * ms[i];
            Mat M = R.transpose() * D * R;
            double l1 = (M(0, 0) - m12 * tb) / (v * v * cb * cb), l2 = (M(1, 1) - m12 / tb) / (v * v * sb * sb), l345 = (M(0, 1) + m12) / (v * v * sb * cb);
            double l4 = (M2 + mA * mA - 2 * mC * mC) / (v * v), l5 = (M2 - mA * mA) / (v * v), l3 = l345 - l4 - l5;
            add("m" + str(mm[0]) + "_" + str(tb) + "_" + str(vs) + "-t" + std::to_string(t), {l1, l2, l3, l4, l5, M(2, 2) / (vs * vs), M(0, 2) / (v * vs * cb), M(1, 2) / (v * vs * sb), tb, vs, m12, (double)t});
          }
  if (name == "CxSM")
  {
    double v = v0();
    add("ex", {246.21965079413738, 540.511520403913, 0, -10201.70799694716, 0.5167818216911827, -0.037398337235829006, -370585.4070395325, 2.570175395366164, -3722.817740930477, 0, 0, 0});
    for (double vs : {0., 200., 540., -150.})
      for (double va : {0., 90., -60.})
        for (double d2 : {0.5, 2.57})
          for (double del : {-0.3, 0.4})
            for (double im : {0., -4000.})
              add("v" + str(vs) + "_" + str(va) + "_" + str(d2) + "_" + str(del) + "_" + str(im),
                  {v, vs, va, -1e4, 0.5168, del, vs || va ? -3e4 : 9e4, d2, -4e4, im, vs ? 2e6 : 0, va ? -1e6 : 0});
  }
  if (name == "CPINTHEDARK")
  {
    Vec b{-7823.7540500000005, 242571.64899822656, 109399.20176343, 93.784159581909734, 126.30387933116994, 0.25810698810286969, 4.6911643599657609, -0.21517372505705856, -0.42508424793839744, -0.13790431680607695, 15.075540949860104, 6.7788372529237835, -1.8651245632976341};
    b[5] = -2 * b[0] / (v0() * v0());
    for (double a : {1., -1., 0., 2.})
      for (double k : {1., 0.3})
        for (double m : {1., 0.25})
          for (double l5 : {1., -4.})
          {
            auto p = b;
            p[3] *= a; p[4] *= a * k; p[10] *= k; p[11] *= k; p[12] *= k; p[1] *= m; p[2] *= m; p[9] *= l5; p[7] *= k;
            add("a" + str(a) + "_" + str(k) + "_" + str(m) + "_" + str(l5), p);
          }
  }
  int n = 0;
  for (auto &x : c)
  {
    Point p{&s, name + ":" + x.first, x.second};
    Oracle o(p);
    auto e = eig(o.higgsM(o.w));
    bool ok = std::abs(e[0]) < 0.1 && std::abs(e[1]) < 0.1 && std::abs(e[2]) < 0.1;
    for (size_t i = 3; i < e.size(); i++) ok = ok && e[i] > 100; // no tachyons or light states besides the Goldstone bosons
    if (!ok) continue;
    r.push_back(p);
    (void)n;
  }
  if (!thorough && r.size() > 24)
  { // quick tier: keep the first and last of each Yukawa type and every third other
    std::vector<Point> q;
    for (size_t i = 0; i < r.size(); i++)
      if (i < 2 || i + 1 == r.size() || i % (r.size() / 16 + 1) == 0 || (r[i].key.find("N2HDM:m") == 0 && r[i].key.find("_6_320-t2") != std::string::npos)) q.push_back(r[i]);
    return q;
  }
  return r;
}
inline std::vector<Point> all_points(bool thorough)
{
  std::vector<Point> r;
  for (auto &s : specs())
    for (auto &p : points(s.name, thorough)) r.push_back(p);
  return r;
}
inline std::shared_ptr<Class_Potential_Origin> make(const Point &p, bool init = true)
{
  auto sm = GetSMConstants();
  std::shared_ptr<Class_Potential_Origin> m = ModelID::FChoose(p.s->id, sm);
  if (init) m->initModel(p.par);
  return m;
}

// the line of an input file that describes the point, in the documented column order of the model (header of example/*.dat);
// columns that the model does not read are filled with 'x<k>' style numbers
inline std::vector<std::string> columns(const Spec &s, const Vec &p, const std::function<std::string(double)> &fmt)
{
  std::vector<std::string> c;
  auto a = [&](std::initializer_list<size_t> l) { for (auto i : l) c.push_back(fmt(p[i])); };
  if (s.name == "SM") a({0, 1});
  if (s.name == "R2HDM") a({7, 0, 1, 2, 3, 4, 5, 6});
  if (s.name == "C2HDM") a({8, 0, 1, 2, 3, 4, 5, 6, 7});
  if (s.name == "N2HDM") a({11, 0, 1, 2, 3, 4, 5, 6, 7, 9, 8, 10});
  if (s.name == "CxSM") a({0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11});
  if (s.name == "CPINTHEDARK")
  {
    for (int i = 0; i < 14; i++) c.push_back(fmt(1000.5 + i));
    a({5, 6, 7, 8, 9, 10, 11, 12, 3, 4, 0, 1, 2});
  }
  return c;
}
inline std::string fmt17(double d)
{
  char b[64];
  snprintf(b, 64, "%.17g", d);
  return b;
}
inline std::string join(const std::vector<std::string> &c, const std::string &sep)
{
  std::string r;
  for (size_t i = 0; i < c.size(); i++) r += (i ? sep : "") + c[i];
  return r;
}
// all integer vectors of length n with entries >=0 and sum <= d
inline void simplex(size_t n, int d, const std::function<void(const std::vector<int> &)> &f)
{
  std::vector<int> k(n, 0);
  std::function<void(size_t, int)> rec = [&](size_t i, int left) {
    if (i == n) { f(k); return; }
    for (int a = 0; a <= left; a++) { k[i] = a; rec(i + 1, left - a); }
    k[i] = 0;
  };
  rec(0, d);
}
} // namespace mo
