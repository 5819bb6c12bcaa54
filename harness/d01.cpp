// D01: minimisation restricted to the plane between two minima.
#include "models.h"
#include "toy.h"
#include <BSMPT/minimizer/MinimizePlane.h>
#include <BSMPT/minimizer/Minimizer.h>
using namespace BSMPT;
namespace Mi = BSMPT::Minimizer;
using Mat = Eigen::MatrixXd;
using EV  = Eigen::VectorXd;

struct Well
{
  EV a;
  Mat A;
  double off;
};
static EV ev(const Vec &x)
{
  EV r(x.size());
  for (size_t i = 0; i < x.size(); i++) r(i) = x[i];
  return r;
}
static double val(const std::vector<Well> &w, const EV &x)
{
  double r = 1e300;
  for (auto &k : w) r = std::min(r, k.off + 0.5 * (x - k.a).dot(k.A * (x - k.a)));
  return r;
}
// lowest value on the plane n.(x-p)=0
static double restricted(const std::vector<Well> &w, const EV &n, const EV &p, EV &at)
{
  double r = 1e300;
  for (auto &k : w)
  {
    EV An = k.A.ldlt().solve(n);
    EV x  = k.a - An * (n.dot(k.a - p) / n.dot(An));
    double v = k.off + 0.5 * (x - k.a).dot(k.A * (x - k.a));
    if (v < r) r = v, at = x;
  }
  return r;
}
static std::vector<Well> wells(int n, int kind)
{
  std::vector<Well> w;
  auto add = [&](Vec a, double s, double skew, double off) {
    Mat A = Mat::Identity(n, n) * s;
    for (int i = 0; i < n; i++)
    {
      A(i, i) *= 1 + 0.5 * i;
      for (int j = 0; j < n; j++)
        if (i != j) A(i, j) = skew * s / (1 + std::abs(i - j));
    }
    a.resize(n, 20);
    w.push_back({ev(a), A, off});
  };
  if (kind == 0) add({0, 0, 0, 0}, 8, 0, 0);
  if (kind == 1) add({60, -45, 30, 12}, 8, 0.25, 0);
  if (kind == 2) add({0, 0, 0, 0}, 8, 0, 0), add({170, 130, -90, 60}, 12, 0.2, -3e4);
  if (kind == 3) add({-120, 110, 0, 40}, 10, -0.2, 100), add({140, 90, 70, -30}, 10, 0.2, -100);
  return w;
}
static void plane(int n, int kind, const Vec &sym, const Vec &brk, double frac, int which, bool big)
{
  auto w = wells(n, kind);
  auto m = std::make_shared<toy::Model>(n, [w](const Vec &x, double T) { return val(w, ev(x)) + 0.01 * T; }, Vec(n, 100), n + (big ? 2 : 0));
  if (big)
  {
    for (int i = 0; i < n; i++) m->VevOrder[i] = i + 1;
    m->vevTree = Vec(m->NHiggs, 0);
    for (int i = 0; i < n; i++) m->vevTree[i + 1] = 100;
  }
  std::shared_ptr<Class_Potential_Origin> mp = m;
  Vec base(n);
  EV nv(n), p(n);
  for (int i = 0; i < n; i++) base[i] = sym[i] + frac * (brk[i] - sym[i]), nv(i) = brk[i] - sym[i], p(i) = base[i];
  double T = 7;
  bool threw = false;
  Mi::MinimizePlaneReturn r;
  try
  {
    r = Mi::MinimizePlane(base, sym, brk, mp, T, which);
  }
  catch (const std::runtime_error &)
  {
    threw = true;
  }
  h.states++, h.transitions++;
  if (nv.cwiseAbs().maxCoeff() < 1e-3)
  {
    h.check(threw, "identical end points are refused");
    h.outcome("refused");
    return;
  }
  if (!h.check(!threw, "plane is minimised") || !h.check(r.Minimum.size() == (size_t)n, "dimension of the minimum")) return;
  EV x = ev(r.Minimum);
  h.check(std::abs(nv.normalized().dot(x - p)) < 1e-6 * (1 + x.norm() + p.norm()), "the point lies on the plane: distance " + str(nv.normalized().dot(x - p)));
  h.close(r.PotVal, val(w, x) + 0.01 * T, 1e-9, 1e-6, "reported value is the potential of the reported point");
  EV at(n);
  double want = restricted(w, nv, p, at) + 0.01 * T;
  std::ostringstream o;
  o << at.transpose();
  h.check(r.PotVal >= want - 1e-6 * (1 + std::abs(want)), "value not below the lowest one on the plane");
  if (which & 2) h.check(r.PotVal <= want + 1e-3 + 1e-6 * std::abs(want), "deepest point of the plane (" + o.str() + ") found: " + str(r.Minimum) + ", higher by " + str(r.PotVal - want));
  else if (n <= 3 && nv.cwiseAbs().maxCoeff() > 1) // the box search is coarse and bounded
  {
    bool in = true;
    for (int i = 0; i < n; i++) in = in && std::abs(at(i)) < 290;
    if (in) h.check(r.PotVal <= want + 2 + 0.02 * std::abs(want), "deepest point of the plane (" + o.str() + ") found by NLopt: " + str(r.Minimum) + ", higher by " + str(r.PotVal - want));
  }
  h.outcome("n" + std::to_string(n) + " which" + std::to_string(which) + " kind" + std::to_string(kind));
}
static void coords(int n, int idx, const Vec &nrm)
{
  auto m = std::make_shared<toy::Model>(n, [](const Vec &, double) { return 0.; }, Vec(n, 100));
  Mi::PointerContainerMinPlane q;
  q.modelPointer = m;
  q.nVEV = n, q.Index = idx, q.Temp = 0, q.normalvector = nrm;
  for (int i = 0; i < n; i++) q.Point.push_back(13. - 7 * i);
  for (int c = 0; c < (int)std::pow(3, n - 1); c++)
  {
    Vec t;
    for (int i = 0, k = c; i < n - 1; i++, k /= 3) t.push_back((k % 3 - 1) * (50. + i));
    auto x = Mi::TransformCoordinates(t, q);
    h.transitions++;
    if (!h.check(x.size() == (size_t)n, "dimension after the transformation")) return;
    double d = 0;
    for (int i = 0; i < n; i++) d += nrm[i] * (x[i] - q.Point[i]);
    h.close(d, 0, 0, 1e-9 * 1e4, "transformed point lies on the plane");
    for (int i = 0, k = 0; i < n; i++)
      if (i != idx) h.same(x[i], t[k++], "coordinate " + std::to_string(i) + " is kept");
  }
  for (int bad : {0, n, n + 1})
    if (bad != n - 1)
    {
      bool threw = false;
      try { Mi::TransformCoordinates(Vec(bad, 1.), q); } catch (const std::runtime_error &) { threw = true; }
      h.check(threw, "wrong number of coordinates is refused");
    }
  h.states++;
}
void run_all()
{
  Logger::Disable();
  for (int n = 2; n <= 4; n++)
  {
    // end points: every pattern of {0, tiny, +, -} for the difference
    double D[] = {0, 160, -110, 4e-3, 1e-4};
    int tot = std::pow(5, n);
    for (int c = 0; c < tot; c++)
    {
      Vec sym(n), brk(n);
      int tiny = 0, nz = 0;
      for (int i = 0, k = c; i < n; i++, k /= 5) sym[i] = i == 1 ? 15 : 0, brk[i] = sym[i] + D[k % 5], tiny += k % 5 >= 3, nz += k % 5 == 1 || k % 5 == 2;
      if (tiny > 1 && nz && !h.thorough) continue;
      int q = 0;
      for (int kind = 0; kind < 4; kind++)
        for (double f : {0., 0.3, 0.5, 1., 1.2})
          for (int which : {2, 4, 6})
          {
            q++;
            if (!h.thorough && (n == 4 ? (q + c) % 23 : n == 3 ? (q + c) % 5 : 0)) continue;
            if (n == 4 && which == 4) continue;
            if (n == 4 && h.thorough && (q + c) % 4) continue;
            h.run("p:" + std::to_string(n) + ":" + std::to_string(c) + ":" + std::to_string(kind) + ":" + str(f) + ":" + std::to_string(which), [=] { plane(n, kind, sym, brk, f, which, q % 2); });
          }
    }
    for (int idx = 0; idx < n; idx++)
      for (int c = 0; c < (int)std::pow(3, n); c++)
      {
        Vec nr;
        for (int i = 0, k = c; i < n; i++, k /= 3) nr.push_back(k % 3 == 0 ? 0. : k % 3 == 1 ? 2.5 : -140.);
        if (nr[idx] == 0) continue;
        h.run("x:" + std::to_string(n) + ":" + std::to_string(idx) + ":" + std::to_string(c), [=] { coords(n, idx, nr); });
      }
  }
}
HARNESS_MAIN
