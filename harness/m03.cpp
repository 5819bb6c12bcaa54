// M03: tree-level minimum, masses and mixing survive one loop
#include "cw.h"
HARNESS_MAIN
using namespace mo;

// the CT potential is linear in its parameters: does any of them move this derivative?
static void one(const Point &p)
{
  auto m = make(p);
  Oracle o(p);
  auto &s  = *p.s;
  size_t N = s.nH;
  // the CxSM with both singlet VEVs: one counterterm moves both doublet-singlet entries, the scheme fixes that of field 5
  bool both = s.name == "CxSM" && o.w[4] != 0 && o.w[5] != 0;
  std::vector<double> sens1(N, 0.);
  std::vector<Vec> sens2(N, Vec(N, 0.));
  auto ct = [&](const Vec &x) { return o.ct(x); };
  for (size_t k = 0; k < s.nCT; k++)
  {
    o.pct.assign(s.nCT, 0.);
    o.pct[k] = 1;
    for (size_t i = 0; i < N; i++)
    {
      sens1[i] += std::abs(Oracle::d1(ct, o.w, i));
      for (size_t j = 0; j < N; j++) sens2[i][j] += std::abs(Oracle::d2(ct, o.w, i, j));
    }
  }
  for (double q : {1., 0.5, 2.})
  {
    auto pct = q == 1 ? m->get_parCTStored() : m->resetScale(v0() * q);
    h.check(pct == m->get_parCTStored(), "stored counterterms are the returned ones");
    o.pct = pct;
    CWOracle c(o, o.w, v0() * q);
    h.states++;
    std::string at = q == 1 ? "" : " at scale factor " + str(q);
    int fixed = 0;
    double maxg = 0;
    for (size_t i = 0; i < N; i++)
    {
      h.transitions++;
      double g = Oracle::d1(ct, o.w, i), w = c.d1(i);
      maxg     = std::max(maxg, std::abs(w));
      if (sens1[i] > 1e-6) h.close(g, -w, 1e-9, 2e-2, "counterterm tadpole of field " + std::to_string(i) + at);
      else h.close(w, 0, 0, 1e-3, "one-loop tadpole of the unrenormalised field " + std::to_string(i) + at);
      for (size_t j = 0; j < N; j++)
      {
        h.transitions++;
        double H = Oracle::d2(ct, o.w, i, j), W = c.d2(i, j);
        if (sens2[i][j] > 1e-6 && !(both && std::min(i, j) == 3 && std::max(i, j) == 4)) { h.close(H, -W, 1e-8, 2e-3, "counterterm mass matrix " + std::to_string(i) + "," + std::to_string(j) + at); fixed++; }
      }
    }
    // the same through the potential of the implementation: slope of the T=0 one-loop potential at the vacuum
    for (size_t d = 0; d < s.nVEV; d++)
    {
      auto i = s.order[d];
      auto V = [&](double t) { auto x = o.w; x[i] += t; return m->VEff(x, 0, 0); };
      auto f = [&](double e) { return (8 * (V(e) - V(-e)) - (V(2 * e) - V(-2 * e))) / (12 * e); };
      double a = f(0.5), b = f(1.0);
      h.close(a, 0, 0, 3 * std::abs(a - b) + 200 + 1e-4 * maxg, "slope of the one-loop potential at the vacuum, field " + std::to_string(i) + at);
    }
    h.outcome(s.name + " type " + std::to_string(o.type) + " " + std::to_string(fixed) + " mass entries" + at);
    if (h.samples.size() < 3) h.sample(p.key + at + " counterterms " + str(pct));
  }
  h.traces++;
}
void run_all()
{
  Logger::Disable();
  for (auto &p : all_points(h.thorough)) h.run(p.key, [&] { one(p); });
  h.assumptions = {"infrared-divergent Goldstone logarithms are dropped, as in the scheme", "mass-matrix entries that no counterterm can move are excluded, and the (h,s) entry of the CxSM with both singlet VEVs, which shares its only counterterm with the (h,a) entry"};
}
