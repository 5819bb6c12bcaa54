// E02: vacuum-stability and symmetry-restoration verdicts.
#include "models.h"
#include "toy.h"
#include <BSMPT/minimum_tracer/minimum_tracer.h>
using namespace BSMPT;
using Mat = Eigen::MatrixXd;

// V = T^2 (x^T M x/2 + c.x) + x^T A x/2 + lam |x|^4/4 + T d.x/... (+ rad T^4)
struct Shape
{
  Mat M, A;
  Eigen::VectorXd c;
  double lam, lin, rad;
};
static Mat rot(int n, int k)
{
  Mat R = Mat::Identity(n, n);
  if (k == 0 || n == 1) return R;
  auto giv = [&](int i, int j, double a) {
    Mat G = Mat::Identity(n, n);
    G(i, i) = G(j, j) = std::cos(a), G(i, j) = -std::sin(a), G(j, i) = std::sin(a);
    R = R * G;
  };
  for (int i = 0; i < n; i++)
    for (int j = i + 1; j < n; j++) giv(i, j, k == 1 ? 0.6 + 0.3 * i + 0.2 * j : M_PI / 4);
  return R;
}
static void restoration(int n, const Vec &ev, int rk, const Vec &xs, const std::vector<size_t> &doublet, int variant)
{
  Shape s;
  Mat R = rot(n, rk), D = Mat::Zero(n, n);
  for (int i = 0; i < n; i++) D(i, i) = ev[i];
  s.M = R * D * R.transpose();
  s.M = (s.M + s.M.transpose()).eval() / 2;
  Eigen::VectorXd x(n);
  for (int i = 0; i < n; i++) x(i) = xs[i];
  s.c   = -s.M * x; // stationary point at x
  s.A   = Mat::Zero(n, n);
  s.lam = s.lin = s.rad = 0;
  double mn = *std::min_element(ev.begin(), ev.end());
  bool flat = mn == 0;
  if (variant & 1) s.A = Mat::Identity(n, n) * -1e4, s.lam = 0.3;
  if (variant & 2) s.lin = 5;
  if ((variant & 4) && mn >= 0.4) s.rad = -30; // radiation
  auto m = std::make_shared<toy::Model>(
      n,
      [s, n](const Vec &v, double T) {
        Eigen::VectorXd y(n);
        for (int i = 0; i < n; i++) y(i) = v[i];
        double r = T * T * (0.5 * y.dot(s.M * y) + s.c.dot(y)) + 0.5 * y.dot(s.A * y) + s.lam / 4 * y.squaredNorm() * y.squaredNorm() + s.rad * T * T * T * T;
        return r + s.lin * T * y.dot(s.M * y) / 2;
      },
      Vec(n, 100), n + (variant & 4 ? 2 : 0));
  m->doublet = doublet;
  std::shared_ptr<Class_Potential_Origin> mp = m;
  MinimumTracer mt(mp, 4, false);
  int got = mt.IsThereEWSymmetryRestoration();
  double ew = 0;
  for (auto d : doublet) ew += x(d) * x(d);
  ew = std::sqrt(ew);
  int want = mn < 0 ? -1 : flat ? 1 : ew <= 0.5 ? 3 : 2;
  h.same(got, want, "verdict on symmetry restoration at high temperature");
  if (want >= 2)
  {
    h.check(mt.HighTemperatureVEV.size() == (size_t)n, "high-temperature vacuum not stored");
    for (int i = 0; i < n && i < (int)mt.HighTemperatureVEV.size(); i++)
      h.close(mt.HighTemperatureVEV[i], x(i), 0, 2e-3 + 1e-3 * x.norm(), "component " + std::to_string(i) + " of the high-temperature vacuum");
  }
  StatusEWSR st = mt.GetStatusEWSR(got);
  StatusEWSR ws = want == -1 ? StatusEWSR::NotBFB : want == 1 ? StatusEWSR::FlatRegion : want == 2 ? StatusEWSR::EWSymNonRes : StatusEWSR::EWSymRes;
  h.check(st == ws, "status of the symmetry-restoration verdict");
  h.states++;
  h.transitions++;
  h.outcome("n" + std::to_string(n) + " verdict " + std::to_string(want) + " d" + std::to_string(doublet.size()));
}

// exhaustive placement of a reported minimum around the tree-level one
static void acceptance(const Vec &tree, const std::vector<int> &idx, bool bigger)
{
  static const double dl[] = {0, 0.5, 0.98, -0.98, 1.02, -1.02, 30};
  int n = tree.size();
  auto m = std::make_shared<toy::Model>(n, [](const Vec &x, double) { double r = 0; for (auto y : x) r += y * y; return r; }, tree, n + (bigger ? 3 : 0));
  Vec v(n);
  bool want = true;
  for (int i = 0; i < n; i++)
  {
    double d = dl[idx[i] % 7];
    v[i] = (std::abs(tree[i]) + d) * (idx[i] / 7 ? -1 : 1);
    if (std::abs(std::abs(v[i]) - std::abs(tree[i])) >= 1) want = false;
  }
  bool got = m->CheckNLOVEV(v);
  h.check(got == want, "vacuum " + str(v) + " compared with the tree-level vacuum " + str(tree) + ": accepted " + (got ? "yes" : "no"));
  std::shared_ptr<Class_Potential_Origin> mp = m;
  h.states++;
  h.transitions++;
}

// two wells: the tree vacuum and a competitor, with a given difference of depth
static void wells(int n, const Vec &tree, const Vec &comp, double gap, int which, bool mt_, bool big)
{
  auto m = std::make_shared<toy::Model>(
      n,
      [=](const Vec &x, double) {
        double a = 0, b = 0;
        for (int i = 0; i < n; i++) a += std::pow(x[i] - tree[i], 2), b += std::pow(x[i] - comp[i], 2);
        return std::min(1e3 * a, 1e3 * b - gap) + 0.0;
      },
      tree, n + (big ? 2 : 0));
  std::shared_ptr<Class_Potential_Origin> mp = m;
  MinimumTracer mt(mp, which, mt_);
  auto g  = mt.ConvertToVEVDim(mt.GetGlobalMinimum(0));
  auto st = mt.GetStatusNLOVEV(mp->CheckNLOVEV(g));
  bool coincide = true;
  for (int i = 0; i < n; i++)
    if (std::abs(std::abs(tree[i]) - std::abs(comp[i])) >= 1) coincide = false;
  bool want = gap < 0 || coincide;
  h.check((st == StatusNLOStability::Success) == want, "verdict on the vacuum at T=0 (global minimum found " + str(g) + ")");
  h.check(st == StatusNLOStability::Success || st == StatusNLOStability::NoNLOStability, "status of the verdict");
  h.states++;
  h.transitions++;
  h.outcome("wells n" + std::to_string(n) + (want ? " stable" : " unstable"));
}

// shipped models: shape of V/T^2 at high temperature, measured with steps of the order of T
static void shipped(const mo::Point &p)
{
  auto mp = mo::make(p);
  int n = mp->get_nVEV();
  auto shape = [&](double T, Mat &Hs, Eigen::VectorXd &g) {
    double e = 3e-4 * T;
    auto f = [&](int i, double a, int j, double b) {
      Vec v(n, 0);
      v[i] += a, v[j] += b;
      return mp->VEff(mp->MinimizeOrderVEV(v), T) / (T * T);
    };
    Hs = Mat(n, n), g = Eigen::VectorXd(n);
    for (int i = 0; i < n; i++)
    {
      g(i) = (f(i, e, i, 0) - f(i, -e, i, 0)) / (2 * e);
      for (int j = 0; j < n; j++) Hs(i, j) = (f(i, e, j, e) - f(i, e, j, -e) - f(i, -e, j, e) + f(i, -e, j, -e)) / (4 * e * e);
    }
  };
  MinimumTracer mt(mp, 4, false);
  int got = mt.IsThereEWSymmetryRestoration();
  Mat Hs;
  Eigen::VectorXd g;
  shape(2e4, Hs, g);
  double mn = Eigen::SelfAdjointEigenSolver<Mat>(Hs).eigenvalues()(0);
  h.outcome("model verdict " + std::to_string(got) + (mn > 0 ? " convex" : " concave"));
  Eigen::VectorXd x = Hs.colPivHouseholderQr().solve(-g);
  Vec xv(x.data(), x.data() + n);
  double ew = mp->EWSBVEV(mp->MinimizeOrderVEV(xv));
  h.states++, h.transitions++;
  h.notes["inconclusive_models"] += got == 0;
  if (mn < -2e-3 && got) h.same(got, -1, "verdict for a model whose potential falls in some direction at high temperature, lowest curvature of V/T^2 " + str(mn));
  if (mn > 2e-3 && got) h.same(got, ew <= 0.5 ? 3 : 2, "verdict for a model with a convex potential at high temperature, lowest curvature of V/T^2 " + str(mn));
}

void run_all()
{
  Logger::Disable();
  for (auto &p : mo::all_points(h.thorough)) h.run("m:" + p.key, [&] { shipped(p); });
  // 1. eigenvalue patterns x orientation x stationary point x doublet subset x corrections
  std::vector<double> E{-0.3, 0, 0.4, 2, 3e-3, -3e-3}, X{0, 0.4, -60};
  for (int n = 1; n <= 3; n++)
  {
    int be = n < 3 || h.thorough ? 6 : 4; // weakly coupled directions have small curvatures
    int ne = std::pow(be, n), nx = std::pow(3, n);
    for (int e = 0; e < ne; e++)
    {
      Vec ev;
      for (int i = 0, k = e; i < n; i++, k /= be) ev.push_back(E[k % be]);
      if (!h.thorough && n == 3 && !std::is_sorted(ev.begin(), ev.end())) continue;
      for (int rk = 0; rk < (n == 1 ? 1 : 3); rk++)
        for (int xi = 0; xi < nx; xi++)
        {
          Vec x;
          for (int i = 0, k = xi; i < n; i++, k /= 3) x.push_back(X[k % 3]);
          if (!h.thorough && n == 3 && xi % 2 && rk) continue;
          for (int sub = 1; sub < (1 << n); sub++)
          {
            std::vector<size_t> d;
            for (int i = 0; i < n; i++)
              if (sub >> i & 1) d.push_back(i);
            for (int var = 0; var < 8; var++)
            {
              if (!h.thorough && n == 3 && var != (sub + xi) % 8) continue;
              h.run("r:" + std::to_string(n) + ":" + std::to_string(e) + ":" + std::to_string(rk) + ":" + std::to_string(xi) + ":" + std::to_string(sub) + ":" + std::to_string(var),
                    [=] { restoration(n, ev, rk, x, d, var); });
            }
          }
        }
    }
  }
  // 2. acceptance of a given minimum: all placements of every component
  for (int n = 1; n <= (h.thorough ? 4 : 3); n++)
    for (int t = 0; t < 3; t++)
      for (int big = 0; big < 2; big++)
        h.run("a:" + std::to_string(n) + ":" + std::to_string(t) + ":" + std::to_string(big), [=] {
          Vec tree;
          for (int i = 0; i < n; i++) tree.push_back(t == 0 ? 246.22 - 40 * i : t == 1 ? (i == 1 ? 0. : 120. + 30 * i) : -80. + 70 * i);
          int tot = std::pow(14, n);
          for (int k = 0; k < tot; k++)
          {
            std::vector<int> idx;
            for (int i = 0, q = k; i < n; i++, q /= 14) idx.push_back(q % 14);
            acceptance(tree, idx, big);
          }
          h.outcome("acceptance n" + std::to_string(n));
        });
  // 3. end to end with a competing vacuum
  for (int n = 1; n <= 4; n++)
  {
    Vec tree;
    for (int i = 0; i < n; i++) tree.push_back(i == 0 ? 180. : i == 1 ? 140. : i == 2 ? 0. : -60.);
    int nc = std::pow(3, n);
    for (int c = 0; c < nc; c++)
    {
      if (n == 4 && !h.thorough && c % 3) continue;
      Vec comp;
      for (int i = 0, k = c; i < n; i++, k /= 3) comp.push_back(k % 3 == 0 ? tree[i] : k % 3 == 1 ? -tree[i] : tree[i] * 0.3 - 70);
      if (comp == tree) continue;
      for (double gap : {-2e6, -1e5, 1e5, 2e6})
      {
        if (std::abs(gap) < 1e6 && !h.thorough && n > 2) continue;
        double dist = 0;
        for (int i = 0; i < n; i++) dist += std::pow(comp[i] - tree[i], 2);
        if (1e3 * dist < 4 * std::abs(gap)) continue; // not a separate minimum
        h.run("w:" + std::to_string(n) + ":" + std::to_string(c) + ":" + str(gap), [=] { wells(n, tree, comp, gap, n <= 2 && c % 2 ? 2 : 4, false, c % 2); });
      }
    }
  }
}
HARNESS_MAIN
