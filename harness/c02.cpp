// C02: combination of minimisers.
#include "models.h"
#include "toy.h"
#include <BSMPT/minimizer/LibNLOPT/MinimizeNLOPT.h>
#include <BSMPT/minimizer/MinimizeGSL.h>
#include <BSMPT/minimizer/Minimizer.h>
using namespace BSMPT;
namespace Mi = BSMPT::Minimizer;

// V = sum_i k (x_i^2 - v_i^2)^2 + tilt_i x_i + c x_i x_{i+1}, or a bowl around the origin
struct Pot
{
  Vec v, tilt;
  double k, c;
  int kind; // 0: wells, 1: bowl at the origin, 2: bowl at a small VEV, 3: deep narrow-ish well next to a broad one
  double operator()(const Vec &x, double T) const
  {
    double r = 0;
    int n = v.size();
    for (int i = 0; i < n; i++)
    {
      if (kind == 1) r += 30 * x[i] * x[i];
      else if (kind == 2) r += 30 * std::pow(x[i] - v[i], 2);
      else
      {
        double w = v[i] * v[i] - 0.3 * T * T;
        r += k * std::pow(x[i] * x[i] - w, 2) + tilt[i] * x[i];
        if (i + 1 < n) r += c * x[i] * x[i + 1];
      }
    }
    return r;
  }
};
static Vec polish(const std::function<double(const Vec &)> &f, Vec x)
{
  int n = x.size();
  double s = 8;
  double b = f(x);
  while (s > 1e-7)
  {
    bool moved = false;
    for (int i = 0; i < n; i++)
      for (int sg = -1; sg <= 1; sg += 2)
      {
        auto y = x;
        y[i] += sg * s;
        double w = f(y);
        if (w < b) b = w, x = y, moved = true;
      }
    if (!moved) s /= 2;
  }
  return x;
}
static std::shared_ptr<toy::Model> mk(const Pot &p, const Vec &tree, bool big, const std::vector<size_t> &dbl)
{
  auto m = std::make_shared<toy::Model>(tree.size(), [p](const Vec &x, double T) { return p(x, T); }, tree, tree.size() + (big ? 3 : 0));
  if (big) // VEV directions not the first fields
  {
    for (size_t i = 0; i < tree.size(); i++) m->VevOrder[i] = i + 1 + (i > 1 ? 1 : 0);
    m->vevTree = Vec(m->NHiggs, 0);
    for (size_t i = 0; i < tree.size(); i++) m->vevTree[m->VevOrder[i]] = tree[i];
  }
  m->doublet = dbl;
  return m;
}
static void combo(const Pot &p, const Vec &tree, int which, double T, bool big, const std::vector<size_t> &dbl, bool mt)
{
  auto m = mk(p, tree, big, dbl);
  std::shared_ptr<Class_Potential_Origin> mp = m;
  int n = tree.size();
  Vec check;
  auto sol = Mi::Minimize_gen_all(mp, T, check, tree, which, mt);
  h.states++;
  h.transitions++;
  if (!h.check(sol.size() == (size_t)n, "the result has one entry per VEV: " + std::to_string(sol.size()))) return;
  auto V = [&](const Vec &x) { return p(x, T); };
  double got = V(sol);
  // size of the change when a VEV below the threshold is reported as zero
  double ew = 0;
  for (auto d : dbl) ew += sol[d] * sol[d];
  ew = std::sqrt(ew);
  h.check(ew == 0 || ew > 0.5, "a VEV below the threshold is reported as zero: " + str(sol));
  double slack = 0;
  if (ew == 0)
    for (int i = 0; i < (1 << n) * 0 + 64; i++)
    {
      auto y = sol;
      double a = 0.5 * 2 * M_PI / 64 * i;
      for (size_t k = 0; k < dbl.size(); k++) y[dbl[k]] += 0.5 * (dbl.size() == 1 ? (i % 2 ? 1 : -1) : k == 0 ? std::cos(2 * a) : k == 1 ? std::sin(2 * a) : 0);
      slack = std::max(slack, std::abs(V(y) - got));
    }
  double scale = 1e-9 * (1 + std::abs(got)) + slack;
  h.check(got <= V(Vec(n, 0)) + scale, "not higher than the potential at the origin");
  bool gsl = n <= 2 || (which & 2), nl = which & 4;
  if (nl)
  {
    auto r = Mi::LibNLOPT::MinimizeUsingNLOPT(*m, T);
    if (r.Success)
    {
      h.check(got <= V(r.Minimum) + scale, "not higher than the result of NLopt " + str(r.Minimum) + ": " + str(sol));
      h.close(r.PotVal, V(r.Minimum), 1e-12, 1e-12, "potential value of the NLopt result");
      for (int i = 0; i < n; i++)
      {
        double b = std::max(300., 1.5 * std::abs(tree[i]));
        h.check(std::abs(r.Minimum[i]) <= b * 1.0001, "NLopt stays inside its box");
      }
      if (p.kind == 2 && n <= 2) // a bowl anywhere inside the box is found
        for (int i = 0; i < n; i++) h.close(r.Minimum[i], p.v[i], 0.02, 12, "coordinate " + std::to_string(i) + " of the NLopt result");
    }
  }
  if (gsl && !mt)
  {
    auto r = Mi::GSL_Minimize_gen_all(*m, T, 5, false);
    h.check(r.second, "GSL finds a solution");
    if (r.second && r.first.size() == (size_t)n) h.check(got <= V(r.first) + scale, "not higher than the result of GSL " + str(r.first) + ": " + str(sol));
    h.check(!check.empty() && check.back() == 1, "the success of GSL is reported");
    // the deepest of all wells
    Vec best(n, 0);
    double bv = V(best);
    for (int c = 0; c < (p.kind ? 1 : 1 << n); c++)
    {
      Vec x(n);
      for (int i = 0; i < n; i++) x[i] = p.kind == 1 ? 0.01 : p.v[i] * (c >> i & 1 ? -1 : 1);
      x = polish(V, x);
      if (V(x) < bv) bv = V(x), best = x;
    }
    if (n <= 3) h.check(got <= bv + scale + 1e-6 * std::abs(bv) + 1e-2, "the deepest well " + str(best) + " is found: " + str(sol) + ", higher by " + str(got - bv));
  }
  if (!gsl) h.check(!check.empty() && check.back() == -1, "a disabled GSL is reported");
  h.outcome("n" + std::to_string(n) + " which" + std::to_string(which) + " kind" + std::to_string(p.kind) + (ew == 0 ? " symmetric" : " broken"));
}
static void local(const Pot &p, const Vec &tree, const Vec &start, int which, double T)
{
  auto m = mk(p, tree, true, {0});
  std::shared_ptr<Class_Potential_Origin> mp = m;
  auto V = [&](const Vec &x) { return p(x, T); };
  auto res = Mi::FindNextLocalMinima(mp, start, T, which);
  size_t want = (which & 2 ? 1 : 0) + (which & 4 ? 1 : 0);
  h.check(res.size() <= want && res.size() >= (which & 2 ? 1u : 0u), "one local minimum per enabled minimiser: " + std::to_string(res.size()));
  for (auto &r : res)
  {
    h.transitions++;
    if (!h.check(r.size() == tree.size(), "dimension of a local minimum")) continue;
    h.check(V(r) <= V(start) + 1e-9 * std::abs(V(start)), "a local minimum is not above the starting point: " + str(start) + " -> " + str(r));
    if ((which == 4 || &r != &res[0]) && T > 0) continue; // COBYLA stops early where the potential is flat
    auto q = polish(V, r);
    double d = 0;
    for (size_t i = 0; i < q.size(); i++) d = std::max(d, std::abs(q[i] - r[i]));
    h.check(d < (res.size() > 1 && &r == &res[1] ? 5 : which == 4 ? 5 : 0.5), "the result is a local minimum: " + str(r) + ", minimum at " + str(q));
  }
  h.states++;
  h.outcome("local n" + std::to_string(tree.size()) + " which" + std::to_string(which));
}
static void development(int n, double T0, double T1, double dT, int npts, int which)
{
  // a single moving well per sign: follow it
  Pot p{Vec(n, 200), Vec(n, 0), 1e-3, 0, 0};
  auto m = mk(p, Vec(n, 200), false, {0});
  std::shared_ptr<Class_Potential_Origin> mp = m;
  std::vector<std::pair<double, double>> rng;
  for (int i = 0; i < n; i++) rng.push_back(i % 2 ? std::make_pair(-260., -90.) : std::make_pair(90., 260.));
  auto res = Mi::MinimaDevelopmentWithTemperature(mp, T0, T1, dT, rng, 7, npts, which);
  int steps = (int)std::llround(std::floor(std::abs((T1 - T0) / dT) + 1e-6));
  h.check((int)res.size() == npts, "one history per starting point: " + std::to_string(res.size()));
  for (auto &hist : res)
  {
    h.traces++;
    h.check((int)hist.size() == steps + 1, "one entry per temperature: " + std::to_string(hist.size()) + " instead of " + std::to_string(steps + 1));
    for (size_t k = 0; k < hist.size(); k++)
    {
      h.transitions++;
      double T = T0 + k * dT, w = std::sqrt(200. * 200. - 0.3 * T * T);
      h.close(hist[k].first, T, 1e-9, 1e-6, "temperature of an entry");
      for (int i = 0; i < n; i++) h.close(hist[k].second[i], (i % 2 ? -1 : 1) * w, 0, which == 4 ? 2 : 0.1, "coordinate " + std::to_string(i) + " of the followed minimum");
    }
  }
  h.states++;
  h.outcome("development n" + std::to_string(n));
}
static void treelevel(const mo::Point &pt, int which)
{
  auto m = mo::make(pt);
  Vec check;
  auto start = m->get_vevTreeMin();
  auto sol = Mi::Minimize_gen_all_tree_level(pt.s->id, m->get_parStored(), m->get_parCTStored(), GetSMConstants(), check, start, which, false);
  if (!h.check(sol.size() == m->get_nVEV(), "dimension")) return;
  double V = m->VTree(m->MinimizeOrderVEV(sol)), V0 = m->VTree(m->MinimizeOrderVEV(start)), Vz = m->VTree(Vec(m->get_NHiggs(), 0));
  h.check(V <= V0 + 1e-6 * std::abs(V0) || !(which & 2), "the tree-level minimum " + str(sol) + " is not above the vacuum " + str(start) + ": " + str(V) + " > " + str(V0));
  h.check(V <= Vz + 1e-9 * std::abs(Vz), "the tree-level minimum is not above the origin");
  h.states++;
  h.transitions++;
}

void run_all()
{
  Logger::Disable();
  // switches
  h.run("switches", [] {
    for (int w = 0; w < 8; w++)
    {
      bool g = w & 1, c = w & 2, n = w & 4;
      int code = Mi::CalcWhichMinimizer(g, c, n);
      h.same(code, (c ? 1 : 0) + (g ? 2 : 0) + (n ? 4 : 0), "code of the minimisers");
      auto u = Mi::GetMinimizers(code);
      bool cm = false;
#ifdef libcmaes_FOUND
      cm = true;
#endif
      h.check(u.UseGSL == g, "GSL switch");
      h.check(u.UseNLopt == n, "NLopt switch");
      h.check(u.UseCMAES == (c && cm), "CMAES switch");
      auto r = Mi::GetMinimizers(Mi::CalcWhichMinimizer(u.UseGSL, u.UseCMAES, u.UseNLopt));
      h.check(r.UseGSL == u.UseGSL && r.UseNLopt == u.UseNLopt && r.UseCMAES == u.UseCMAES, "round trip of the switches");
      h.states++, h.transitions++;
    }
    for (int w = 8; w < 32; w++)
    {
      auto a = Mi::GetMinimizers(w), b = Mi::GetMinimizers(w % 8);
      h.check(a.UseGSL == b.UseGSL && a.UseNLopt == b.UseNLopt && a.UseCMAES == b.UseCMAES, "only the documented bits count");
    }
  });
  for (int n = 1; n <= 4; n++)
    for (int which : {0, 2, 4, 6, 7})
      for (int sg = 0; sg < (1 << n); sg++)
        for (int kind = 0; kind < 3; kind++)
          for (int var = 0; var < 4; var++)
          {
            if (kind == 1 && sg) continue;
            if (!h.thorough && n >= 3 && (sg + var + kind) % 3) continue;
            if (!h.thorough && n == 4 && (sg + var) % 4) continue;
            Pot p;
            p.kind = kind, p.k = var & 1 ? 3e-3 : 5e-4, p.c = kind == 0 && (var & 2) ? 3 : 0;
            Vec tree;
            for (int i = 0; i < n; i++)
            {
              double s = sg >> i & 1 ? -1 : 1;
              if (kind == 2) p.v.push_back(s * (var == 0 ? 0.2 / n : var == 1 ? 0.7 : var == 2 ? 210. - 60 * i : 440. - 90 * i));
              else p.v.push_back(190. - 45 * i);
              p.tilt.push_back(-s * (2e3 + 500 * i));
              tree.push_back(p.v.back() * (kind == 2 ? 1 : s));
            }
            std::vector<size_t> dbl;
            for (int i = 0; i < n; i++)
              if (var < 2 || i != 1) dbl.push_back(i);
            for (double T : {0., 120.})
            {
              if (kind && T > 0) continue;
              h.run("c:" + std::to_string(n) + ":" + std::to_string(which) + ":" + std::to_string(sg) + ":" + std::to_string(kind) + ":" + std::to_string(var) + ":" + str(T), [=] { combo(p, tree, which, T, sg % 2 || var % 2, dbl, false); });
            }
          }
  // with threads: same guarantees relative to deterministic candidates
  for (int n = 1; n <= 3; n++)
    for (int which : {2, 4, 6})
      h.run("mt:" + std::to_string(n) + ":" + std::to_string(which), [=] {
        Pot p;
        p.kind = 0, p.k = 1e-3, p.c = 1;
        for (int i = 0; i < n; i++) p.v.push_back(170), p.tilt.push_back(-1e3);
        std::vector<size_t> d;
        for (int i = 0; i < n; i++) d.push_back(i);
        combo(p, p.v, which, 0, false, d, true);
      });
  for (int n = 1; n <= 3; n++)
    for (int which : {0, 2, 4, 6})
      for (int c = 0; c < (int)std::pow(4, n); c++)
        for (double T : {0., 200.})
        {
          Pot p;
          p.kind = 0, p.k = 1e-3, p.c = 2;
          Vec st;
          for (int i = 0, k = c; i < n; i++, k /= 4) p.v.push_back(190 - 30 * i), p.tilt.push_back(700), st.push_back(k % 4 == 0 ? 260. : k % 4 == 1 ? 40. : k % 4 == 2 ? -35. : -300.);
          h.run("l:" + std::to_string(n) + ":" + std::to_string(which) + ":" + std::to_string(c) + ":" + str(T), [=] { local(p, p.v, st, which, T); });
        }
  for (int n = 1; n <= 3; n++)
    for (int which : {2, 4})
      for (auto [a, b, d] : std::vector<std::tuple<double, double, double>>{{0, 100, 10}, {0, 100, 30}, {100, 0, -10}, {150, 20, -13}, {0, 7, 1}, {0, 0.7, 0.1}, {50, 50, 1}, {0, 250, 2.5}, {0, 200, 0.5}, {180, 0, -0.75}, {30, 29, -2}, {10, 12, 5}})
        if (which == 2 || std::max(a, b) <= 150) h.run("d:" + std::to_string(n) + ":" + std::to_string(which) + ":" + str(a) + ":" + str(b) + ":" + str(d), [=, a = a, b = b, d = d] { development(n, a, b, d, 3, which); });
  std::map<std::string, int> seen;
  for (auto &p : mo::all_points(false))
    if (h.thorough ? seen[p.s->name]++ < 6 : seen[p.s->name]++ < 1)
    for (int which : {2, 6}) h.run("t:" + p.key + ":" + std::to_string(which), [&p, which] { treelevel(p, which); });
}
HARNESS_MAIN
