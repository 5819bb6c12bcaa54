// U03: the numerical building blocks against their definitions: derivatives
// on all monomials, splines of every type x boundary x data of a lattice
// (against an independent dense solution of the defining equations), special
// functions against series and quadrature, grids, vector algebra, strings and
// comparisons on all small arguments.
#include "common.h"
#include <BSMPT/minimum_tracer/minimum_tracer.h>
#include <BSMPT/models/IncludeAllModels.h>
#include <BSMPT/utility/NumericalDerivatives.h>
#include <BSMPT/utility/spline/spline.h>
#include <BSMPT/utility/utility.h>
HARNESS_MAIN
using namespace BSMPT;
namespace
{
// ---------------------------------------------------------------- derivatives
double ipow(double x, int n) { return n < 0 ? 0 : n == 0 ? 1 : x * ipow(x, n - 1); }
double mono(const Vec &x, const std::vector<int> &e)
{
  double r = 1;
  for (size_t i = 0; i < x.size(); i++) r *= ipow(x[i], e[i]);
  return r;
}
double dmono(const Vec &x, std::vector<int> e, const std::vector<int> &by)
{
  double f = 1;
  for (int i : by)
  {
    f *= e[i];
    e[i]--;
    if (e[i] < 0) return 0;
  }
  return f * mono(x, e);
}
void exponents(int dim, int max, std::vector<int> e, const std::function<void(const std::vector<int> &)> &f)
{
  if ((int)e.size() == dim) { f(e); return; }
  int s = 0;
  for (int i : e) s += i;
  for (int k = 0; k + s <= max; k++)
  {
    auto g = e;
    g.push_back(k);
    exponents(dim, max, g, f);
  }
}
void derivatives(int dim, const std::vector<int> &e)
{
  int total = 0;
  for (int i : e) total += i;
  std::string name;
  for (int i : e) name += std::to_string(i);
  for (double off : {0., 1., -2.5, 40.})
    for (double eps : {1. / 1024, 1. / 64, 0.5})
    {
      Vec x(dim);
      for (int i = 0; i < dim; i++) x[i] = off + 0.75 * i * (i % 2 ? -1 : 1);
      h.states++;
      std::string at = " of the monomial " + name + " at " + str(x) + " with step " + str(eps);
      double scale = 0;
      auto f = [&](Vec p) {
        double v = mono(p, e);
        scale    = std::max(scale, std::abs(v));
        return v;
      };
      std::function<double(Vec)> F = f;
      Vec keep = x;
      auto g   = NablaNumerical(x, F, eps);
      h.check(x == keep, "argument changed");
      h.check((int)g.size() == dim, "size of the gradient");
      double tol = 1e-14 * scale / eps;
      if (total <= 4)
        for (int i = 0; i < dim; i++) h.close(g[i], dmono(x, e, {i}), 1e-12, tol * 10, "gradient component " + std::to_string(i) + at);
      auto H = HessianNumerical(x, F, eps);
      h.check((int)H.size() == dim, "size of the Hessian");
      double tol2 = 4e-15 * scale / (eps * eps);
      bool exact  = true; // at most cubic in each direction, quadratic mixed
      for (int i = 0; i < dim; i++) exact &= e[i] <= 3;
      if (total <= 3 && exact)
        for (int i = 0; i < dim; i++)
          for (int j = 0; j < dim; j++)
          {
            h.same(H[i][j], H[j][i], "symmetry of the Hessian" + at);
            h.close(H[i][j], dmono(x, e, {i, j}), 1e-12, tol2, "Hessian " + std::to_string(i) + std::to_string(j) + at);
          }
      else if (eps < 0.01)
        for (int i = 0; i < dim; i++)
          for (int j = 0; j < dim; j++)
          {
            std::vector<int> by = {i, j};
            double err = 60 * eps * eps * (1 + scale); // second order accurate
            h.close(H[i][j], dmono(x, e, by), 1e-12, tol2 + err, "Hessian " + std::to_string(i) + std::to_string(j) + at);
          }
      h.traces++;
    }
  h.outcome("derivatives in " + std::to_string(dim) + " dimensions");
}
// --------------------------------------------------------------------- splines
// cubic pieces a+b t+c t^2+d t^3 from the defining equations, solved densely
using LD = long double;
std::vector<LD> solve(std::vector<std::vector<LD>> A, std::vector<LD> b, bool &ok)
{
  size_t n = b.size();
  ok       = true;
  for (size_t k = 0; k < n; k++)
  {
    size_t p = k;
    for (size_t i = k; i < n; i++)
      if (std::fabs((double)A[i][k]) > std::fabs((double)A[p][k])) p = i;
    if (std::fabs((double)A[p][k]) < 1e-12) { ok = false; return b; }
    std::swap(A[k], A[p]);
    std::swap(b[k], b[p]);
    for (size_t i = 0; i < n; i++)
      if (i != k)
      {
        LD m = A[i][k] / A[k][k];
        for (size_t j = k; j < n; j++) A[i][j] -= m * A[k][j];
        b[i] -= m * b[k];
      }
  }
  for (size_t k = 0; k < n; k++) b[k] /= A[k][k];
  return b;
}
struct Piece { double x0, x1; LD c[4]; };
using B = tk::spline::bd_type;
std::vector<Piece> reference(const Vec &x, const Vec &y, tk::spline::spline_type type, B lb, double lv, B rb, double rv, bool &ok)
{
  size_t n = x.size(), m = n - 1;
  ok = true;
  std::vector<Piece> r(m);
  for (size_t i = 0; i < m; i++) r[i] = {x[i], x[i + 1], {(LD)y[i], 0, 0, 0}};
  if (type == tk::spline::linear)
  {
    for (size_t i = 0; i < m; i++) r[i].c[1] = (y[i + 1] - y[i]) / (x[i + 1] - x[i]);
    return r;
  }
  // unknowns: 4 per piece
  std::vector<std::vector<LD>> A;
  std::vector<LD> b;
  auto row = [&]() { A.push_back(std::vector<LD>(4 * m, 0)); b.push_back(0); return A.size() - 1; };
  auto put = [&](size_t q, size_t piece, LD t, int der, LD f) {
    LD p[4] = {1, t, t * t, t * t * t}, d1[4] = {0, 1, 2 * t, 3 * t * t}, d2[4] = {0, 0, 2, 6 * t}, d3[4] = {0, 0, 0, 6};
    LD *w[4] = {p, d1, d2, d3};
    for (int k = 0; k < 4; k++) A[q][4 * piece + k] += f * w[der][k];
  };
  for (size_t i = 0; i < m; i++)
  {
    LD hh = (LD)x[i + 1] - x[i];
    size_t q = row();
    put(q, i, 0, 0, 1);
    b[q] = y[i];
    q    = row();
    put(q, i, hh, 0, 1);
    b[q] = y[i + 1];
    if (i + 1 < m)
    {
      q = row(); // continuous slope
      put(q, i, hh, 1, 1);
      put(q, i + 1, 0, 1, -1);
      q = row();
      if (type == tk::spline::cspline)
      { // continuous curvature
        put(q, i, hh, 2, 1);
        put(q, i + 1, 0, 2, -1);
      }
      else
      { // slope of the parabola through three neighbours
        LD h0 = hh, h1 = (LD)x[i + 2] - x[i + 1];
        put(q, i, hh, 1, 1);
        b[q] = (((LD)y[i + 2] - y[i + 1]) / h1 * h0 + ((LD)y[i + 1] - y[i]) / h0 * h1) / (h0 + h1);
      }
    }
  }
  LD hl = (LD)x[n - 1] - x[n - 2], hl1 = m > 1 ? (LD)x[n - 2] - x[n - 3] : 0;
  size_t q = row();
  if (lb == tk::spline::not_a_knot) put(q, 0, 0, 3, 1), put(q, 1, 0, 3, -1);
  else put(q, 0, 0, lb == tk::spline::first_deriv ? 1 : 2, 1), b[q] = lv;
  q = row();
  if (rb == tk::spline::not_a_knot) put(q, m - 2, hl1, 3, 1), put(q, m - 1, 0, 3, -1);
  else put(q, m - 1, hl, rb == tk::spline::first_deriv ? 1 : 2, 1), b[q] = rv;
  auto s = solve(A, b, ok);
  for (size_t i = 0; i < m; i++)
    for (int k = 0; k < 4; k++) r[i].c[k] = s[4 * i + k];
  return r;
}
double value(const Piece &p, double x, int der)
{
  LD t = x - p.x0;
  switch (der)
  {
  case 0: return ((p.c[3] * t + p.c[2]) * t + p.c[1]) * t + p.c[0];
  case 1: return (3 * p.c[3] * t + 2 * p.c[2]) * t + p.c[1];
  case 2: return 6 * p.c[3] * t + 2 * p.c[2];
  case 3: return 6 * p.c[3];
  }
  return 0;
}
void one_spline(const Vec &x, const Vec &y, tk::spline::spline_type type, B lb, double lv, B rb, double rv)
{
  static const char *tn[] = {"linear", "cubic", "Hermite"};
  static const char *bn[] = {"", "slope", "curvature", "not-a-knot"};
  size_t ti = type == tk::spline::linear ? 0 : type == tk::spline::cspline ? 1 : 2;
  std::string at = " of the " + std::string(tn[ti]) + " spline, " + bn[lb] + " " + str(lv) + ", " + bn[rb] + " " + str(rv) + " through x=" + str(x) + " y=" + str(y);
  bool ok;
  auto ref = reference(x, y, type, lb, lv, rb, rv, ok);
  if (!ok) return;
  h.states++;
  tk::spline s(x, y, type, false, lb, lv, rb, rv);
  tk::spline two;
  two.set_boundary(lb, lv, rb, rv);
  two.set_points(x, y, type);
  double sc = 1;
  for (double v : y) sc = std::max(sc, std::abs(v));
  sc = std::max({sc, std::abs(lv), std::abs(rv)});
  size_t bad = h.violations.size();
  for (size_t i = 0; i < ref.size(); i++)
    for (int k = 0; k <= 8; k++)
    {
      double t = k == 0 ? 0 : k == 8 ? 1 : (k + 0.13) / 8.3, X = ref[i].x0 + t * (ref[i].x1 - ref[i].x0);
      if (h.violations.size() > bad) return;
      if (k == 8 && i + 1 < ref.size()) continue; // belongs to the next piece
      h.close(s(X), value(ref[i], X, 0), 1e-10, 1e-10 * sc, "value at " + str(X) + at);
      h.same(two(X), s(X), "set_boundary and set_points at " + str(X) + at);
      if (k == 8) continue;
      for (int d = 1; d <= 3; d++) h.close(s.deriv(d, X), value(ref[i], X, d), 1e-9, 1e-9 * sc, "derivative " + std::to_string(d) + " at " + str(X) + at);
      h.same(s.deriv(4, X), 0, "fourth derivative" + at);
    }
  // continuation beyond the ends: value and slope continue, at most quadratic
  double a = x.front(), b = x.back(), e = 1e-7, keep = sc;
  sc += std::abs(value(ref.front(), a, 1)) + std::abs(value(ref.back(), b, 1)) + std::abs(value(ref.front(), a, 2)) + std::abs(value(ref.back(), b, 2));
  h.close(s(a - e), value(ref.front(), a, 0), 0, 1e-4 * sc, "continuation to the left" + at);
  h.close(s.deriv(1, a - e), value(ref.front(), a, 1), 0, 1e-4 * sc, "slope continued to the left" + at);
  h.close(s(b + e), value(ref.back(), b, 0), 0, 1e-4 * sc, "continuation to the right" + at);
  h.close(s.deriv(1, b + e), value(ref.back(), b, 1), 0, 1e-4 * sc, "slope continued to the right" + at);
  for (double d : {0.25, 1., 3.})
  {
    double cl = s.deriv(2, a - d), cr = s.deriv(2, b + d);
    h.close(s(a - d), y.front() - d * value(ref.front(), a, 1) + cl * d * d / 2, 1e-9, 1e-9 * sc, "parabola to the left" + at);
    h.close(s(b + d), y.back() + d * value(ref.back(), b, 1) + cr * d * d / 2, 1e-9, 1e-9 * sc, "parabola to the right" + at);
    if (lb == tk::spline::first_deriv || type == tk::spline::linear) h.same(cl, 0, "straight to the left" + at);
    else h.close(cl, value(ref.front(), a, 2), 1e-9, 1e-9 * sc, "curvature to the left" + at);
    if (rb == tk::spline::first_deriv || type == tk::spline::linear) h.same(cr, 0, "straight to the right" + at);
    else h.close(cr, value(ref.back(), b, 2), 1e-9, 1e-9 * sc, "curvature to the right" + at);
  }
  sc = keep;
  // all solutions of spline = y0: none missing, none spurious
  // (the library's cubic solver documents that it is naive: pieces whose cubic
  // coefficient is pure rounding are left out)
  bool naive = false;
  for (size_t i = 0; i + 1 < x.size(); i++)
  {
    double d = s.deriv(3, x[i]) * std::pow(x[i + 1] - x[i], 3);
    naive |= d != 0 && std::abs(d) < 1e-6 * sc;
  }
  for (double y0 : {0.3, -0.45, 1.37})
  {
    if (naive) break;
    auto roots = s.solve(y0);
    for (size_t i = 0; i < roots.size(); i++)
    {
      h.close(s(roots[i]), y0, 0, 1e-7 * sc, "solution x=" + str(roots[i]) + at);
      h.check(roots[i] >= a - 1e-9 && roots[i] <= b + 1e-9 && (!i || roots[i] > roots[i - 1]), "solutions in order and inside" + at);
    }
    double prev = s(a) - y0, xp = a;
    size_t found = 0;
    for (int k = 1; k <= 400; k++)
    {
      double X = a + (b - a) * k / 400, v = s(X) - y0;
      if ((v > 0) != (prev > 0))
      {
        bool hit = false;
        for (double q : roots) hit |= q > xp - 1e-9 && q < X + 1e-9;
        found++;
        if (!h.check(hit, "no solution of spline=" + str(y0) + " reported between " + str(xp) + " and " + str(X) + at)) break;
      }
      prev = v;
      xp   = X;
    }
    h.check(found <= roots.size(), "number of solutions" + at);
  }
  // monotone version
  tk::spline m(x, y, type, true, lb, lv, rb, rv);
  if (type != tk::spline::linear)
  {
    for (size_t i = 0; i + 1 < x.size(); i++)
    {
      double prev = m(x[i]);
      h.close(prev, y[i], 1e-12, 1e-12, "monotone spline at its points" + at);
      // where the slopes at both ends agree with the data the piece is monotone
      double sl = y[i + 1] - y[i], b0 = m.deriv(1, x[i]), b1 = i + 2 < x.size() ? m.deriv(1, x[i + 1]) : sl;
      bool left = i == 0 || (y[i] - y[i - 1]) * sl >= 0, right = i + 2 >= x.size() || (y[i + 2] - y[i + 1]) * sl >= 0;
      if (!left || !right) continue; // next to a turning point it may overshoot
      (void)b0, (void)b1;
      for (int k = 1; k <= 40; k++)
      {
        double v = m(k == 40 ? std::nextafter(x[i + 1], a) : x[i] + (x[i + 1] - x[i]) * k / 40.);
        if (!h.check((v - prev) * (sl > 0 ? 1 : -1) >= -1e-9 * sc || (sl == 0 && std::abs(v - prev) < 1e-9 * sc), "monotone spline is not monotone between " + str(x[i]) + " and " + str(x[i + 1]) + at)) break;
        prev = v;
      }
    }
  }
  h.check(s.get_x() == x && s.get_y() == y && s.get_x_min() == a && s.get_x_max() == b, "stored data" + at);
  h.traces++;
  h.outcome(std::string("spline ") + tn[ti] + " " + bn[lb] + "/" + bn[rb]);
}
// --------------------------------------------------------- special functions
LD li2_ref(LD x)
{ // series after an inversion/reflection chosen independently: integral -log(1-t)/t
  auto series = [](LD z) {
    LD s = 0, p = 1;
    for (int k = 1; k < 4000; k++)
    {
      p *= z;
      s += p / ((LD)k * k);
      if (std::abs(p) < 1e-22L) break;
    }
    return s;
  };
  const LD pi = acosl(-1.L);
  if (x < -1) return -pi * pi / 6 - logl(-x) * logl(-x) / 2 - li2_ref(1 / x);
  if (x < 0) return -li2_ref(x / (x - 1)) - logl(1 - x) * logl(1 - x) / 2; // Landen
  if (x == 1) return pi * pi / 6;
  if (x > 0.5L) return pi * pi / 6 - logl(x) * logl(1 - x) - series(1 - x);
  return series(x);
}
LD ellip_ref(LD x)
{
  int n = std::max(200, (int)(std::abs(x) * 200));
  n += n % 2;
  LD s = 0, e = x / n;
  for (int i = 0; i <= n; i++)
  {
    LD w = i == 0 || i == n ? 1 : i % 2 ? 4 : 2, t = i * e;
    s += w * sqrtl(1 + 2 * sinhl(t) * sinhl(t));
  }
  return s * e / 3;
}
// ------------------------------------------------------------- vector algebra
void strings(const std::string &alphabet, size_t n, const std::string &p, const std::function<void(const std::string &)> &f)
{
  f(p);
  if (p.size() < n)
    for (char c : alphabet) strings(alphabet, n, p + c, f);
}
template <class F> bool rejects(F f)
{
  try { f(); return false; }
  catch (const std::exception &) { return true; }
  catch (const char *) { return true; }
}
void vectors(const Vec &vals, size_t n, Vec p, const std::function<void(const Vec &)> &f)
{
  if (p.size() == n) { f(p); return; }
  for (double v : vals)
  {
    auto q = p;
    q.push_back(v);
    vectors(vals, n, q, f);
  }
}
void algebra(const Vec &a)
{
  size_t n = a.size();
  h.states++;
  double l2 = 0;
  for (double v : a) l2 += v * v;
  h.close(L2NormVector(a), std::sqrt(l2), 1e-15, 0, "norm of " + str(a));
  for (double f : {-2., 0., 0.5})
    for (size_t i = 0; i < n; i++)
    {
      h.same((f * a)[i], f * a[i], "scaling");
      if (f != 0) h.same((a / f)[i], a[i] / f, "division");
    }
  for (size_t m = 0; m <= 3; m++)
    vectors({-1.5, 0., 4.}, m, {}, [&](const Vec &b) {
      if (m != n)
      {
        h.check(rejects([&] { (void)(a + b); }) && rejects([&] { (void)(a - b); }) && rejects([&] { (void)(a * b); }), "vectors of different size combined");
        return;
      }
      double d = 0;
      auto s = a + b, t = a - b;
      h.check(s.size() == n && t.size() == n, "size");
      for (size_t i = 0; i < n; i++)
      {
        d += a[i] * b[i];
        h.same(s[i], a[i] + b[i], "sum");
        h.same(t[i], a[i] - b[i], "difference");
      }
      h.close(a * b, d, 1e-15, 1e-15, "scalar product of " + str(a) + str(b));
    });
  // square matrices built from shifted copies
  if (n)
  {
    std::vector<Vec> M(n, Vec(n));
    for (size_t i = 0; i < n; i++)
      for (size_t j = 0; j < n; j++) M[i][j] = a[(i + 2 * j) % n] + i - 0.5 * j;
    Vec r = M * a;
    for (size_t i = 0; i < n; i++)
    {
      double d = 0;
      for (size_t j = 0; j < n; j++) d += M[i][j] * a[j];
      h.close(r[i], d, 1e-14, 1e-14, "matrix times vector");
    }
    for (size_t rows = 1; rows <= 3; rows++)
    {
      std::vector<Vec> R(rows, a);
      for (size_t i = 0; i < rows; i++) R[i][0] += i;
      auto T = Transpose(R);
      h.check(T.size() == n && T[0].size() == rows, "shape of the transpose");
      for (size_t i = 0; i < rows; i++)
        for (size_t j = 0; j < n; j++) h.same(T[j][i], R[i][j], "transpose");
      auto F = flatten(R);
      h.check(F.size() == rows * n, "size of the flattened matrix");
      for (size_t i = 0; i < rows * n; i++) h.same(F[i], R[i / n][i % n], "flattened matrix");
    }
  }
  std::ostringstream o;
  o << a;
  std::string want, want2;
  for (size_t i = 0; i < n; i++)
  {
    std::ostringstream q;
    q << a[i];
    want += (i ? "\t" : "") + q.str();
    want2 += (i ? "\t" : "") + std::to_string(a[i]);
  }
  h.check(o.str() == want, "printed vector");
  h.check(vec_to_string(a) == want2, "vector as text");
  h.traces++;
}
bool near(double a, double b, double rel, double zero)
{
  if (std::abs(a) < zero && std::abs(b) < zero) return true;
  return std::abs(a - b) < rel * std::abs(a + b) / 2;
}
} // namespace
void run_all()
{
  for (int dim = 1; dim <= (h.thorough ? 5 : 4); dim++)
    exponents(dim, dim > 3 ? 4 : 5, {}, [&](const std::vector<int> &e) {
      std::string k;
      for (int i : e) k += std::to_string(i);
      h.run("derivatives:" + k, [&] { derivatives(dim, e); });
    });
  std::vector<Vec> knots = {{0, 1, 2}, {-1, 0.5, 1}, {0, 1, 2, 3}, {0, 0.25, 1, 3}, {-2, -1.5, 0, 0.1, 4}};
  if (h.thorough) knots.push_back({0, 1, 1.5, 1.75, 2, 5}), knots.push_back({0, 1, 2, 3, 4, 5, 6});
  const B bd[] = {tk::spline::first_deriv, tk::spline::second_deriv, tk::spline::not_a_knot};
  for (auto &x : knots)
    vectors(x.size() > 6 ? Vec{0, 1} : x.size() > 4 && !h.thorough ? Vec{0, 2} : Vec{-1, 0, 2}, x.size(), {}, [&](const Vec &y) {
      h.run("spline:" + str(x) + str(y), [&] {
        for (auto type : {tk::spline::linear, tk::spline::cspline, tk::spline::cspline_hermite})
          for (B l : bd)
            for (B r : bd)
            {
              if (type == tk::spline::linear && (l != tk::spline::second_deriv || r != l)) continue;
              if ((l == tk::spline::not_a_knot || r == tk::spline::not_a_knot) && x.size() < 4) continue;
              for (double lv : l == tk::spline::not_a_knot ? Vec{0} : Vec{0, 1.5})
                for (double rv : r == tk::spline::not_a_knot ? Vec{0} : Vec{0, -2})
                  if (type != tk::spline::linear || (lv == 0 && rv == 0)) one_spline(x, y, type, l, lv, r, rv);
            }
      });
    });
  h.run("dilogarithm", [&] {
    int n = h.thorough ? 40000 : 8000;
    auto one = [&](double x) {
      h.states++;
      h.close(Li2(x), (double)li2_ref(x), 2e-9, 2e-9, "Li2 at " + str(x));
    };
    for (int k = 0; k <= n; k++)
    {
      one(-3 + 4. * k / n); // up to 1
      double x = std::pow(10., -8 + 14. * k / n);
      one(-x);
      if (x <= 1) one(x), one(1 - x);
    }
    for (double x : {-1., 0., 0.5, 1., -0.5}) one(x), one(std::nextafter(x, -10)), one(x < 1 ? std::nextafter(x, 10) : x);
    h.outcome("dilogarithm");
  });
  h.run("elliptic", [&] {
    for (int k = 0; k <= (h.thorough ? 2000 : 400); k++)
    {
      double x = 20. * k / (h.thorough ? 2000 : 400);
      h.states++;
      h.close(EllipIntSecond(x), (double)ellip_ref(x), 1e-6, 1e-9, "elliptic integral at " + str(x));
      h.close(EllipIntSecond(-x), -(double)ellip_ref(x), 1e-6, 1e-9, "elliptic integral at " + str(-x));
    }
    h.outcome("elliptic integral");
  });
  h.run("factorial", [&] {
    long f = 1;
    for (int n = 0; n <= 12; n++)
    {
      if (n) f *= n;
      h.check(factorial(n) == f, "factorial of " + std::to_string(n));
      h.states++;
    }
    h.outcome("factorial");
  });
  for (size_t n = 0; n <= 3; n++)
    vectors({-1.5, 0., 4., 1e-3}, n, {}, [&](const Vec &a) { h.run("algebra:" + str(a), [&] { algebra(a); h.outcome("algebra of size " + std::to_string(n)); }); });
  h.run("strings", [&] {
    strings("ab,", h.thorough ? 6 : 5, "", [&](const std::string &s) {
      h.states++;
      auto p = split(s, ',');
      std::string back;
      for (size_t i = 0; i < p.size(); i++)
      {
        h.check(p[i].find(',') == std::string::npos, "part contains the delimiter");
        back += (i ? "," : "") + p[i];
      }
      // a trailing delimiter ends the last part
      h.check(back == s || back + "," == s, "parts of \"" + s + "\" give \"" + back + "\"");
      strings("ab", 3, "", [&](const std::string &q) {
        h.check(StringStartsWith(s, q) == (s.compare(0, q.size(), q) == 0), "prefix " + q + " of " + s);
        h.check(StringEndsWith(s, q) == (s.size() >= q.size() && s.compare(s.size() - q.size(), q.size(), q) == 0), "suffix " + q + " of " + s);
        h.evaluations += 2;
      });
    });
    h.outcome("strings");
  });
  h.run("comparison", [&] {
    Vec vals = {0, 1e-12, -1e-12, 9.9e-11, 1.1e-10, 1, -1, 1.009, 1.011, -1.009, 100, 100.9, 101.1, -100.9, 246, 0.5};
    for (double a : vals)
      for (double b : vals)
        for (double rel : {0.01, 1e-8, 0.1})
          for (double zero : {1e-10, 0., 1e-5})
          {
            h.states++;
            h.check(almost_the_same(a, b, rel, zero) == near(a, b, rel, zero), "comparison of " + str(a) + " and " + str(b) + " within " + str(rel));
            h.check(almost_the_same(a, b, rel, zero) == almost_the_same(b, a, rel, zero), "symmetric comparison");
            for (double c : {1., -246., 0.})
              for (double d : {1., 246., -1., 0.})
                for (bool flip : {false, true})
                {
                  auto f = [&](double x, double y) { return flip ? near(std::abs(x), std::abs(y), rel, zero) : near(x, y, rel, zero); };
                  h.check(almost_the_same(Vec{a, c}, Vec{b, d}, flip, rel, zero) == (f(a, b) && f(c, d)), "comparison of " + str(Vec{a, c}) + " and " + str(Vec{b, d}) + (flip ? " up to signs" : ""));
                }
          }
    h.check(rejects([] { (void)almost_the_same(Vec{1}, Vec{1, 2}); }), "vectors of different length compared");
    h.outcome("comparison");
  });
  h.run("grid", [&] {
    vectors({0., -3., 246.}, 3, {}, [&](const Vec &p) {
      for (int n = 0; n <= 7; n++)
      {
        for (int k = 0; k < 3; k++)
          for (double lo : {-10., 0., 5.})
            for (double hi : {-20., 0., 5., 300.})
            {
              auto g = Create1DimGrid(p, k, lo, hi, n);
              h.states++;
              h.check((int)g.size() == n + 1, "number of grid points");
              for (int i = 0; i <= n && n > 0; i++)
                for (int j = 0; j < 3; j++) h.close(g[i][j], j == k ? lo + (hi - lo) * i / n : p[j], 1e-14, 1e-12, "grid along direction " + std::to_string(k));
              if (n == 0) h.check(g[0] == p, "grid of one point");
            }
        vectors({1., 0., -246.}, 3, {}, [&](const Vec &q) {
          auto g = Create1DimGrid(p, q, n);
          h.states++;
          h.check((int)g.size() == n + 1, "number of points on the line");
          for (int i = 0; i <= n; i++)
            for (int j = 0; j < 3; j++) h.close(g[i][j], n ? p[j] + (q[j] - p[j]) * i / n : p[j], 1e-13, 1e-12, "grid between two points");
        });
      }
    });
    h.outcome("grids");
  });
  h.run("names", [&] {
    std::set<std::string> seen;
    for (auto &x : ModelID::ModelNames)
    {
      h.check(ModelIDToString(x.second) == x.first && ModelID::getModel(x.first) == x.second, "name of model " + x.first);
      h.states++;
    }
    h.check(ModelID::InvertModelNames().size() == ModelID::ModelNames.size(), "model names are unique");
    h.outcome("names");
  });
  h.assumptions = {"monomials up to total degree 5 in up to 4 (5) dimensions; splines through 3 to 5 (7) points; dilogarithm up to argument 1"};
}
