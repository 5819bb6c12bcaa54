// M05: the hand-simplified expressions, the tensor expressions and the Lagrangian agree
#include "models.h"
HARNESS_MAIN
using namespace mo;

static void one(const Point &p)
{
  auto m = make(p);
  Oracle o(p);
  h.states++;
  auto &s = *p.s;
  // tree-level potential: simplified = tensor = Lagrangian in all VEV directions
  long nfail = 0;
  simplex(s.nVEV, 4, [&](const std::vector<int> &k) {
    if (nfail > 3) return;
    Vec v(s.nVEV);
    for (size_t i = 0; i < v.size(); i++) v[i] = 90. * k[i] - 75 - 7. * i;
    auto x = o.expand(v);
    h.transitions++;
    double a = o.tree(x), b = m->VTree(x, 0, false), c = m->VTree(x, 0, true);
    if (!h.close(b, a, 1e-9, 100, "tree-level potential at " + str(v))) nfail++;
    if (!h.close(c, b, 1e-9, 100, "tensor tree-level potential at " + str(v))) nfail++;
    // via the effective potential (Order 0)
    if (!h.close(m->VEff(x, 50, 0, 0), a, 1e-9, 100, "VEff of order 0 at " + str(v))) nfail++;
  });
  // gradient of both contributions, all fields
  auto grads = [&](const std::string &what, std::function<double(const Vec &)> f, std::function<double(const Vec &, int, bool)> g) {
    for (size_t a = 0; a < s.nH && nfail < 4; a++)
      for (size_t b = a; b < s.nH && nfail < 4; b++)
      {
        Vec x = o.w;
        x[a] += 55;
        x[b] -= 120;
        for (size_t i = 0; i < s.nH; i++)
          for (bool force : {false, true})
          {
            h.transitions++;
            if (!h.close(g(x, (int)i + 1, force), Oracle::d1(f, x, i), 1e-8, 1, what + " derivative " + std::to_string(i) + " at " + str(x))) { nfail++; break; }
          }
      }
  };
  grads("tree-level", [&](const Vec &x) { return o.tree(x); }, [&](const Vec &x, int d, bool f) { return m->VTree(x, d, f); });
  // counterterm potential is linear in its parameters: unit vectors and the computed ones
  auto calc = m->calc_CT();
  h.check(calc.size() == s.nCT, "number of counterterm parameters");
  for (int k = -1; k < (int)s.nCT && nfail < 4; k++)
  {
    Vec pct = calc;
    if (k >= 0)
    {
      pct.assign(s.nCT, 0.);
      pct[k] = 1;
    }
    m->set_CT_Pot_Par(pct);
    o.pct   = pct;
    double sc = 0;
    if (k < 0)
      for (size_t i = 0; i < s.nCT; i++) sc = std::max(sc, std::abs(pct[i]));
    std::string nm = k < 0 ? "computed counterterms" : s.legCT[k];
    auto cmp = [&](const Vec &x, bool force) {
      h.transitions++;
      double a = o.ct(x);
      if (!h.close(m->CounterTerm(x, 0, force), a, 1e-8, k < 0 ? 1e3 : 1e-3, "counterterm potential (" + nm + ") at " + str(x))) nfail++;
    };
    simplex(s.nVEV, 4, [&](const std::vector<int> &kk) {
      if (nfail > 3) return;
      Vec v(s.nVEV);
      for (size_t i = 0; i < v.size(); i++) v[i] = 90. * kk[i] - 75 - 7. * i;
      cmp(o.expand(v), false);
      cmp(o.expand(v), true);
    });
    if (k < 0 || h.thorough || s.nH <= 6) simplex(s.nH, 4, [&](const std::vector<int> &kk) {
      if (nfail > 3) return;
      Vec x(s.nH);
      for (size_t i = 0; i < x.size(); i++) x[i] = 70. * kk[i] - 45 - 3. * i;
      cmp(x, true);
    });
    if (k < 0) grads("counterterm", [&](const Vec &x) { return o.ct(x); }, [&](const Vec &x, int d, bool f) { return m->CounterTerm(x, d, f); });
  }
  // thermal masses: simplified (what the model uses) and general
  o.debye();
  auto use = [&](const std::string &what, bool exact) {
    Mat a = m->HiggsMassMatrix(o.w, 100), b = m->HiggsMassMatrix(o.w, 0);
    for (size_t i = 0; i < s.nH; i++)
      for (size_t j = 0; j < s.nH; j++)
      {
        double d = (a(i, j) - b(i, j)) / 1e4;
        h.close(d, o.Dh(i, j), 1e-8, 1.1e-5 + (exact ? 0 : 1.01 * std::abs(o.Dh(i, j) - o.DhHeavy(i, j))), what + " thermal mass " + std::to_string(i) + "," + std::to_string(j));
      }
  };
  use("model's", false);
  m->CalculateDebye(true);
  use("general", true);
  m->CalculateDebye();
  use("recomputed", false);
  h.traces++;
  h.outcome(s.name + " type " + std::to_string(o.type) + (m->UseVTreeSimplified ? " simplified" : " tensor"));
  if (h.samples.size() < 3) h.sample(p.key + " counterterms " + str(calc));
}
void run_all()
{
  Logger::Disable();
  for (auto &p : all_points(h.thorough)) h.run(p.key, [&] { one(p); });
  h.assumptions = {"polynomials of degree at most 4 that agree on a unisolvent simplex lattice are equal", "the counterterm potential is linear in its parameters"};
}
