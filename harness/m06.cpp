// M06: the effective potential is the sum of its defining parts; its derivative modes are its slopes
#include "models.h"
#include <BSMPT/ThermalFunctions/ThermalFunctions.h>
HARNESS_MAIN
using namespace mo;
namespace TF = BSMPT::ThermalFunctions;

static double cw(double m2, double c, double mu)
{
  if (std::abs(m2) < 1e-4) return 0;
  return m2 * m2 / (64 * M_PI * M_PI) * (std::log(std::abs(m2)) - 2 * std::log(mu) - c);
}
static Vec cut(Vec m, double z)
{
  for (double &x : m)
    if (std::abs(x) < z) x = 0;
  return m;
}
// one-loop part from the Lagrangian-level masses
static double oneLoop(const Oracle &o, const Vec &x, double T, double mu, const Mat &Dh)
{
  auto H = o.higgsM(x), G = o.gaugeM(x);
  auto mh = cut(eig(H), 1e-5), mg = cut(eig(G), 1e-5), mq = o.quark2(x), ml = o.lepton2(x);
  double r = 0, k = std::pow(T, 4) / (2 * M_PI * M_PI);
  auto B = [&](double m) { return T > 0 ? k * TF::JbosonInterpolated(m / (T * T)) : 0.; };
  auto F = [&](double m) { return T > 0 ? k * TF::JfermionInterpolated(std::max(m, 0.) / (T * T)) : 0.; };
  for (double m : mh) r += cw(m, 1.5, mu) + B(m);
  for (double m : mg) r += 3 * (cw(m, 5. / 6, mu) + B(m));
  for (double m : mq) r += -6 * (cw(m, 1.5, mu) + F(m)); // 12 Weyl entries x 3 colours x 2 helicities
  for (double m : ml) r += -2 * (cw(m, 1.5, mu) + F(m));
  if (T > 0)
  {
    auto th = eig(H + T * T * Dh), tg = eig(G + T * T * o.Dg);
    double d = 0;
    auto c3  = [](double m) { return m > 0 ? std::pow(m, 1.5) : 0.; };
    for (double m : th) d += c3(m);
    for (double m : mh) d -= c3(m);
    for (double m : tg) d += c3(m);
    for (double m : mg) d -= c3(m);
    r += -T / (12 * M_PI) * d;
  }
  return r;
}
static Vec rotate(const Spec &s, const Vec &x, double th, double ph, double al)
{ // common U(2) rotation of all doublets
  auto f = s.fields(x);
  C a = std::polar(std::cos(th), al + ph), b = std::polar(std::sin(th), al - ph);
  // numerical inverse of the (linear) field map
  Mat A(4 * f.d.size(), s.nH);
  for (size_t i = 0; i < s.nH; i++)
  {
    Vec e(s.nH, 0.);
    e[i] = 1;
    auto g = s.fields(e);
    for (size_t d = 0; d < g.d.size(); d++)
      for (int c = 0; c < 2; c++) { A(4 * d + 2 * c, i) = g.d[d][c].real(); A(4 * d + 2 * c + 1, i) = g.d[d][c].imag(); }
  }
  Eigen::VectorXd t(4 * f.d.size());
  for (size_t d = 0; d < f.d.size(); d++)
  {
    C p = std::polar(1., 0.) * (a * f.d[d][0] + b * f.d[d][1]), q = std::polar(1., 2 * al) * (-std::conj(b) * f.d[d][0] + std::conj(a) * f.d[d][1]);
    t(4 * d) = p.real(); t(4 * d + 1) = p.imag(); t(4 * d + 2) = q.real(); t(4 * d + 3) = q.imag();
  }
  Eigen::VectorXd y = A.completeOrthogonalDecomposition().solve(t);
  Vec r(y.data(), y.data() + s.nH);
  // singlets are unchanged
  auto g = s.fields(r);
  for (size_t k = 0; k < f.s.size(); k++) r[s.nH - f.s.size() + k] = x[s.nH - f.s.size() + k];
  return r;
}
static void one(const Point &p)
{
  auto m = make(p);
  Oracle o(p);
  o.debye();
  auto &s = *p.s;
  o.pct   = m->get_parCTStored();
  double mu = v0();
  h.close(m->get_scale(), mu, 1e-12, 0, "renormalisation scale");
  h.states++;
  std::vector<Vec> xs{o.w, Vec(s.nH, 0.)};
  // vacuum plus displacements in the VEV directions, and a few in all fields
  for (size_t a = 0; a < s.nVEV; a++)
  {
    Vec v(s.nVEV, 11.);
    v[a] = 160;
    if (a + 1 < s.nVEV) v[a + 1] = -70;
    xs.push_back(o.expand(v));
    Vec u = s.vev(p.par);
    for (size_t i = 0; i < u.size(); i++) u[i] *= 0.6;
    u[a] += 35;
    xs.push_back(o.expand(u));
  }
  for (size_t a = 0; a < s.nH; a += h.thorough ? 1 : 3)
  {
    Vec x(s.nH);
    for (size_t i = 0; i < s.nH; i++) x[i] = o.w[i] * 0.8 + 9. + 5 * i;
    x[a] += 90;
    xs.push_back(x);
  }
  int nf = 0;
  // the hand-simplified potentials only know the VEV directions: elsewhere sum the explicit parts
  auto pot = [&](const Vec &y, double T) {
    for (size_t i = 0; i < s.nH; i++)
      if (y[i] != 0 && std::find(s.order.begin(), s.order.end(), i) == s.order.end())
        return m->VTree(y, 0, true) + m->CounterTerm(y, 0, true) + m->V1Loop(y, T, 0);
    return m->VEff(y, T, 0);
  };
  for (size_t ix = 0; ix < xs.size() && nf < 4; ix++)
    for (double T : h.thorough ? Vec{0, 3, 20, 60, 90, 150, 230, 400} : Vec{0, 20, 90, 230})
    {
      auto &x = xs[ix];
      h.transitions++;
      std::string at = " at T=" + str(T) + " " + str(x);
      double tr = o.tree(x), ct = o.ct(x), a = oneLoop(o, x, T, mu, o.Dh), b = oneLoop(o, x, T, mu, o.DhHeavy);
      double ref = tr + ct + a, tol = 5 + 1.05 * std::abs(a - b) + 2e-8 * T * T * T * T + 1e-9 * (std::abs(tr) + std::abs(ct));
      bool allf = ix >= 2 + 2 * s.nVEV;
      double V = pot(x, T);
      if (!h.close(V, ref, 1e-8, tol, "effective potential" + at)) nf++;
      if (!allf && !h.close(m->VEff(x, T, 0, 1), V, 0, 0, "effective potential of order 1" + at)) nf++;
      if (!h.close(m->V1Loop(x, T, 0), a, 1e-8, tol, "one-loop part" + at)) nf++;
      if (!allf && !h.close(m->VEff(x, T, 0, 0), tr, 1e-9, 100, "effective potential of order 0" + at)) nf++;
      if (ix >= 2 && ix < 2 + 2 * s.nVEV)
      { // minimiser-sized argument
        Vec v(s.nVEV);
        for (size_t i = 0; i < s.nVEV; i++) v[i] = x[s.order[i]];
        for (int ord : {0, 1})
          if (!h.close(m->VEff(v, T, 0, ord), m->VEff(x, T, 0, ord), 0, 0, "effective potential of order " + std::to_string(ord) + " for a minimiser-sized argument" + at)) nf++;
        if (!h.close(m->VEff(v, T, 1 + (int)s.order[0]), m->VEff(x, T, 1 + (int)s.order[0]), 0, 0, "derivative for a minimiser-sized argument" + at)) nf++;
      }
      if (ix >= 1 && T > 0)
      { // the one-loop part is gauge invariant
        double v1 = m->V1Loop(x, T, 0);
        for (auto &r : std::vector<std::array<double, 3>>{{0.7, 0.3, 0}, {0, 0, 0.9}, {1.2, -0.4, 0.5}})
        {
          auto y = rotate(s, x, r[0], r[1], r[2]);
          if (!h.close(m->V1Loop(y, T, 0), v1, 1e-7, 50, "gauge invariance of the one-loop part" + at + " -> " + str(y))) nf++;
        }
      }
      // temperature derivative
      if (T > 10) // below, m^2/T^2 leaves the tabulated range
      {
        double e = 0.02 * T / 20;
        auto f = [&](double t) { return pot(x, t); };
        auto sl = [&](double d) { return (8 * (f(T + d) - f(T - d)) - (f(T + 2 * d) - f(T - 2 * d))) / (12 * d); };
        double n1 = sl(e), n2 = sl(2 * e), g = m->VEff(x, T, -1);
        for (double d : {1e-3, 4e-3}) // closer than the nearest matching point of the thermal functions
          if (std::abs(sl(d) - g) < std::abs(n1 - g)) n1 = sl(d);
        // the matching points of the thermal functions have slightly different slopes on both sides
        if (!h.close(g, n1, 2e-5, 2e-3 * T * T * T * 0.5 / 20 + 4 * std::min(std::abs(n1 - n2), 1e-5 * std::abs(n1)) + 2, "temperature derivative" + at)) nf++;
        h.close(m->VEff(x, T, -1, 0), 0, 0, 0, "temperature derivative of order 0" + at);
      }
      // field derivatives (away from the vacuum and the origin, where massless states make the potential non-analytic)
      if (ix >= 2)
        for (size_t i = 0; i < s.nH; i++)
        {
          auto f = [&](double t) { auto y = x; y[i] += t; return pot(y, T); };
          auto sl = [&](double d) { return (8 * (f(d) - f(-d)) - (f(2 * d) - f(-2 * d))) / (12 * d); };
          double n1 = sl(0.05), n2 = sl(0.1), g = m->VEff(x, T, (int)i + 1);
          if (std::abs(g - n1) > 1 + 1e-6 * std::abs(n1))
            for (double d : {1e-3, 4e-3, 1.5e-2})
              if (std::abs(sl(d) - g) < std::abs(n1 - g)) n1 = sl(d);
          if (!h.close(g, n1, 2e-5, 20 + 1e-3 * T * T * 10 + 4 * std::min(std::abs(n1 - n2), 1e-5 * std::abs(n1)), "field derivative " + std::to_string(i) + at)) nf++;
        }
    }
  // large field values: no light state's rounding error makes the potential undefined
  for (size_t i = 0; i < s.nVEV && nf < 4; i++)
    for (size_t j = i; j < s.nVEV && nf < 4; j++)
      for (int k = 1; k <= (h.thorough ? 24 : 12) && nf < 4; k++)
      {
        Vec v(s.nVEV, 0.);
        v[i] = 137 * k + 11.3, v[j] = (k % 2 ? 1 : -1) * (91.7 * k + 3);
        auto x = o.expand(v);
        for (double T : {0., 170., 900. * k})
        {
          h.transitions++;
          double V = m->VEff(x, T, 0);
          if (!h.check(std::isfinite(V), "effective potential is finite at T=" + str(T) + " " + str(x))) nf++;
          if (k % 4 == 1 && i == j && T < 200)
          {
            double a = oneLoop(o, x, T, mu, o.Dh), b = oneLoop(o, x, T, mu, o.DhHeavy), ref = o.tree(x) + o.ct(x) + a;
            if (!h.close(V, ref, 1e-7, 1e3 + 1.05 * std::abs(a - b) + 2e-8 * T * T * T * T, "effective potential at large fields, T=" + str(T) + " " + str(x))) nf++;
          }
        }
      }
  // switch to the tree level and back
  auto &x = xs[2];
  m->SetUseTreeLevel(true);
  h.close(m->VEff(x, 120, 0), o.tree(x), 1e-9, 100, "tree-level switch");
  m->SetUseTreeLevel(false);
  // other renormalisation scales: only the Coleman-Weinberg part and the counterterms change
  for (double q : {0.5, 2.})
  {
    o.pct = m->resetScale(mu * q);
    h.close(m->get_scale(), mu * q, 1e-12, 0, "renormalisation scale after resetScale");
    double a = oneLoop(o, x, 90, mu * q, o.Dh), b = oneLoop(o, x, 90, mu * q, o.DhHeavy);
    h.close(m->VEff(x, 90, 0), o.tree(x) + o.ct(x) + a, 1e-8, 10 + 1.05 * std::abs(a - b) + 2e-8 * std::pow(90., 4), "effective potential at scale factor " + str(q));
  }
  h.traces++;
  h.outcome(s.name + " type " + std::to_string(o.type));
}
void run_all()
{
  Logger::Disable();
  for (auto &p : all_points(h.thorough)) h.run(p.key, [&] { one(p); });
  h.assumptions = {"thermal functions as decided by M07", "field derivatives are compared away from configurations with massless scalars"};
}
