// U02: every tunnelling path of a lattice and every short editing history of
// it: the curve passes through its knots in order, is parametrised by its arc
// length, and follows the geometry of its knots (reversal, translation,
// rotation, straight lines); add_point and save_path keep that.
#include "common.h"
#include <BSMPT/utility/const_velocity_spline.h>
HARNESS_MAIN
namespace
{
using Path = std::vector<Vec>;
double dist(const Vec &a, const Vec &b)
{
  double r = 0;
  for (size_t i = 0; i < a.size(); i++) r += (a[i] - b[i]) * (a[i] - b[i]);
  return std::sqrt(r);
}
double chord(const Path &p)
{
  double r = 0;
  for (size_t i = 1; i < p.size(); i++) r += dist(p[i], p[i - 1]);
  return r;
}
std::string str(const Path &p)
{
  std::string r;
  for (auto &x : p) r += ::str(x);
  return r;
}
double mx[8];
std::string mw[8];
void track(int i, double v, const std::string &w)
{
  if (v > mx[i]) mx[i] = v, mw[i] = w;
}
// slowest point of the curve in its own (chord) parameter: near a cusp the arc
// length is not a smooth parameter and only the ends and the order are judged
double slowest(cvspline &s)
{
  double m = 1e9, T = s.lin_lengths.back();
  for (int k = 0; k <= 2000; k++)
  {
    auto d = s.deriv(1, T * k / 2000);
    m      = std::min(m, dist(d, Vec(d.size(), 0)));
  }
  return m;
}
// the knots a path built from p has: a straight two-point path gets two more
Path knots(const Path &p)
{
  if (p.size() > 2) return p;
  Path r = {p[0], p[0], p[1], p[1]};
  for (size_t i = 0; i < p[0].size(); i++)
  {
    r[1][i] = (2 * p[0][i] + p[1][i]) / 3;
    r[2][i] = (p[0][i] + 2 * p[1][i]) / 3;
  }
  return r;
}
bool curve(cvspline &s, const Path &want, const std::string &at, bool deep)
{
  h.states++;
  double scale = chord(want);
  size_t nd    = want[0].size();
  if (!h.check(s.phipath.size() == want.size() && s.vev_position.size() == want.size() && (size_t)s.num_points == want.size() && (size_t)s.dim == nd, "number of knots" + at)) return false;
  bool ok = true;
  double slow = slowest(s);
  bool smooth = slow > 0.15;
  double tol  = smooth ? 1e-6 : 2e-3;
  for (size_t i = 0; i < want.size(); i++)
  {
    ok &= h.check(dist(s.phipath[i], want[i]) < 1e-12 * scale, "knot " + std::to_string(i) + " is " + ::str(s.phipath[i]) + " instead of " + ::str(want[i]) + at);
    if (i) ok &= h.check(s.vev_position[i] - s.vev_position[i - 1] >= dist(want[i], want[i - 1]) - tol * scale, "knot " + std::to_string(i) + " is closer along the curve than the straight line to its predecessor" + at);
  }
  ok &= h.check(std::abs(s.vev_position[0]) < 1e-9 * scale, "first knot at 0" + at);
  ok &= h.close(s.L, s.vev_position.back(), 1e-6, 0, "length of the path" + at);
  for (size_t i = 0; i < want.size(); i++)
  {
    double d = dist(s(s.vev_position[i]), want[i]) / scale;
    track(smooth ? 0 : 1, d, at);
    ok &= h.check(d < tol, "the curve misses knot " + std::to_string(i) + " by " + ::str(d) + " of the path" + at);
  }
  ok &= h.check(dist(s(0), want[0]) < tol * scale && dist(s(s.L), want.back()) < tol * scale, "ends of the path" + at);
  if (!ok) return false;
  // arc length: the polyline through many points of the curve, stretch by stretch
  int N = deep ? 4000 : 1600;
  double total = 0, L = s.L;
  Vec prev = s(0);
  double worst = 0;
  for (int k = 1; k <= N; k++)
  {
    Vec q    = s(L * k / N);
    double d = dist(q, prev);
    total += d;
    worst = std::max(worst, std::abs(d * N / L - 1));
    prev  = q;
  }
  h.evaluations += N;
  track(smooth ? 2 : 3, std::abs(total / L - 1), at);
  if (smooth) track(4, worst, at);
  ok &= h.check(std::abs(total / L - 1) < (smooth ? 2e-4 : 5e-3), "length " + ::str(L) + " but the curve is " + ::str(total) + " long" + at);
  if (smooth)
  {
    ok &= h.check(worst < 0.15, "speed differs from 1 by " + ::str(worst) + at);
    for (int k = 1; k < 40; k++)
    {
      double l = L * (k + 0.37) / 40.7, e = 1e-4 * L;
      auto a = s(l - e), b = s(l + e), t = s.dl(l), c = s.d2l(l), t0 = s.dl(l - e), t1 = s.dl(l + e);
      double n = 0, dot = 0, dev = 0, dev2 = 0, c2 = 0;
      for (size_t i = 0; i < nd; i++)
      {
        n += t[i] * t[i];
        dot += t[i] * c[i];
        dev  = std::max(dev, std::abs((b[i] - a[i]) / (2 * e) - t[i]));
        dev2 = std::max(dev2, std::abs((t1[i] - t0[i]) / (2 * e) - c[i]));
        c2 += c[i] * c[i];
      }
      bool knot = false;
      for (double v : s.vev_position) knot |= std::abs(v - l) < 2 * e;
      track(5, dev, at);
      c2 = std::sqrt(c2);
      if (!knot) track(6, dev2 / (1 / L + c2), at), track(7, std::abs(dot) / (1 / L + c2), at);
      ok &= h.close(n, 1, 0, 1e-9, "unit tangent" + at);
      ok &= h.check(dev < 2e-3, "tangent differs from the slope of the curve by " + ::str(dev) + at);
      if (!knot)
      {
        ok &= h.check(dev2 < 2e-2 * (1 / L + c2), "curvature differs from the slope of the tangent by " + ::str(dev2) + " (curvature " + ::str(c2) + ")" + at);
        ok &= h.check(std::abs(dot) < 2e-2 * (1 / L + c2), "acceleration along the path " + ::str(dot) + " (curvature " + ::str(c2) + ")" + at);
      }
      if (!ok) break;
    }
  }
  h.traces++;
  return ok;
}
void single(const Path &p, bool deep)
{
  std::string at = " for " + str(p);
  cvspline s(p);
  Path k = knots(p);
  if (!curve(s, k, at, deep)) return;
  bool smooth = slowest(s) > 0.15;
  double tol = smooth ? 1e-6 : 5e-3, L = s.L, sc = chord(p);
  // the geometry decides the curve
  Path r(p.rbegin(), p.rend());
  cvspline b(r);
  h.close(b.L, L, smooth ? 1e-6 : 5e-3, 0, "length of the reversed path" + at);
  Path m = p;
  for (auto &x : m)
    for (size_t i = 0; i < x.size(); i++) x[i] = 246 * x[i] + 50. * (i + 1);
  cvspline t(m);
  h.close(t.L, 246 * L, smooth ? 1e-6 : 5e-3, 0, "length of the scaled path" + at);
  Path g = p; // rotation by a 3-4-5 angle
  if (p[0].size() > 1)
    for (auto &x : g)
    {
      double a = x[0], c = x[1];
      x[0] = 0.6 * a - 0.8 * c;
      x[1] = 0.8 * a + 0.6 * c;
    }
  cvspline u(g);
  double off = 0;
  for (int i = 0; i <= 20; i++)
  {
    auto x = s(L * i / 20), y = b(b.L - b.L * i / 20), z = t(t.L * i / 20), w = u(u.L * i / 20);
    if (smooth) h.check(dist(x, y) < 2e-5 * sc, "reversing the path changes the curve at " + std::to_string(i) + "/20" + at);
    for (size_t j = 0; j < z.size(); j++) z[j] = (z[j] - 50. * (j + 1)) / 246;
    if (smooth) h.check(dist(x, z) < tol * sc, "scaling and moving the path changes the curve at " + std::to_string(i) + "/20" + at);
    if (x.size() > 1)
    {
      Vec v = w;
      v[0]  = 0.6 * w[0] + 0.8 * w[1];
      v[1]  = -0.8 * w[0] + 0.6 * w[1];
      if (smooth) h.check(dist(x, v) < tol * sc, "rotating the path changes the curve at " + std::to_string(i) + "/20" + at);
    }
    Vec on = p[0]; // straight line from the first to the last knot
    for (size_t j = 0; j < x.size(); j++) on[j] += (p.back()[j] - p[0][j]) * i / 20.;
    off = std::max(off, dist(x, on));
  }
  if (std::abs(dist(p[0], p.back()) - sc) < 1e-12)
    h.check(off < 1e-6 * sc, "a straight path bends by " + ::str(off) + at);
  h.outcome(std::to_string(p[0].size()) + "D, " + std::to_string(p.size()) + " points, " + (smooth ? "smooth" : "cusp"));
}
// lattices of path points
Path lattice(int dim)
{
  Path r;
  if (dim == 1)
    for (double x : {0., 1., 2.5}) r.push_back({x});
  if (dim == 2)
    for (double x : {0., 1., 2.})
      for (double y : {0., 1., 2.}) r.push_back({x, y});
  if (dim == 3)
    for (double x : {0., 1.})
      for (double y : {0., 1.})
        for (double z : {0., 2.}) r.push_back({x, y, z});
  return r;
}
void sequences(const Path &lat, size_t n, Path p, const std::function<void(const Path &)> &f)
{
  if (p.size() == n) { f(p); return; }
  for (auto &x : lat)
  {
    if (!p.empty() && dist(p.back(), x) < 1e-9) continue;
    Path q = p;
    q.push_back(x);
    sequences(lat, n, q, f);
  }
}
// editing: the reference keeps knots with their positions along the curve
struct Ref
{
  std::vector<std::pair<double, Vec>> k;
};
void edit(const cvspline &s0, const Ref &r0, int depth, const std::string &hist, bool fresh)
{
  // all insertions possible now
  struct Op { double p; std::string name; };
  std::vector<Op> ops;
  size_t n = r0.k.size();
  ops.push_back({std::min(0., r0.k.front().first) - 0.5, "before the first"});
  ops.push_back({r0.k.back().first + 1, "after the last"});
  for (size_t i = 1; i < n; i++)
    ops.push_back({0.6 * r0.k[i - 1].first + 0.4 * r0.k[i].first, "between " + std::to_string(i - 1) + " and " + std::to_string(i)});
  for (size_t i = 0; i < n; i += std::max<size_t>(1, n / 2)) ops.push_back({r0.k[i].first, "onto " + std::to_string(i)});
  for (auto &op : ops)
    for (bool compile : {true, false})
    {
      if (h.violations.size() >= 5) return;
      cvspline s = s0;
      Ref r      = r0;
      h.transitions++;
      std::string at = hist + " add " + op.name + (compile ? "" : " (pending)");
      // the new point: beside the curve where it is inserted
      Vec v;
      size_t pos = 0;
      while (pos < r.k.size() && r.k[pos].first < op.p) pos++;
      const Vec &A = r.k[pos ? pos - 1 : 0].second, &B = r.k[std::min(pos, n - 1)].second;
      v = A;
      for (size_t j = 0; j < v.size(); j++) v[j] = 0.5 * (A[j] + B[j]) + (pos == 0 ? -0.7 : pos == n ? 0.7 : 0.1) * (j + 1);
      bool exists = pos < n && r.k[pos].first == op.p;
      s.add_point(op.p, v, compile);
      if (!exists) r.k.insert(r.k.begin() + pos, {op.p, v});
      Path want;
      for (auto &x : r.k) want.push_back(x.second);
      if (compile && (!exists || fresh))
      {
        if (!curve(s, want, " after" + at, false)) return;
        for (size_t i = 0; i < want.size(); i++) r.k[i].first = s.vev_position[i];
      }
      else
      {
        bool same = s.phipath.size() == want.size();
        for (size_t i = 0; same && i < want.size(); i++) same = s.phipath[i] == want[i];
        if (!h.check(same, "knots after" + at + " are " + str(s.phipath) + " instead of " + str(want))) return;
      }
      h.outcome(std::string("edit ") + (exists ? "existing" : pos == 0 ? "front" : pos == n ? "back" : "middle") + (compile ? "" : " pending"));
      bool f = compile && !exists ? true : exists ? fresh : false;
      if (depth > 1) edit(s, r, depth - 1, at, f);
      if (!f)
      {
        cvspline t = s;
        t.initialize();
        curve(t, want, " after" + at + " initialize", false);
      }
    }
}
void saved(const Path &p, bool header)
{
  cvspline s(p);
  std::string f = std::string(getenv("CHK_WORK") ? getenv("CHK_WORK") : "/tmp") + "/u02_" + std::to_string(getpid()) + ".tsv";
  s.save_path(f, header);
  std::ifstream in(f);
  std::string line;
  Path k = knots(p);
  if (header)
  {
    std::getline(in, line);
    std::istringstream l(line);
    std::string field;
    size_t n = 0;
    while (std::getline(l, field, '\t')) n++;
    h.check(n == p[0].size(), "header of a saved path names every direction");
  }
  for (auto &x : k)
  {
    Vec got;
    double d;
    if (!h.check((bool)std::getline(in, line), "saved path is too short")) break;
    std::istringstream l(line);
    while (l >> d) got.push_back(d);
    h.check(got.size() == x.size() && dist(got, x) < 1e-5 * (1 + chord(k)), "saved knot \"" + line + "\" instead of " + ::str(x));
  }
  h.check(!std::getline(in, line), "saved path is too long");
  unlink(f.c_str());
  h.outcome(header ? "saved with header" : "saved");
}
} // namespace
void run_all()
{
  for (int dim = 1; dim <= 3; dim++)
  {
    Path lat = lattice(dim);
    size_t top = h.thorough ? (dim == 1 ? 7 : dim == 2 ? 5 : 5) : dim == 1 ? 6 : 4;
    for (size_t n = 2; n <= top; n++)
      sequences(lat, n, {}, [&](const Path &p) {
        // quick: without loss up to a translation and a reflection of the lattice
        if (!h.thorough && dim > 1 && n == 4 && (p[0][0] > 1 || (dim == 2 ? p[0][1] > p[0][0] : p[0] != lat[0]))) return;
        h.run("path:" + str(p), [&] { single(p, h.thorough); });
      });
  }
  for (Path p : {Path{{0.}, {2.}}, Path{{0., 0.}, {2., 1.}}, Path{{0., 0.}, {1., 0.}, {1.5, 1.}}, Path{{0., 0., 0.}, {1., 0., 0.5}, {2., 1., 0.}, {3., 1., 1.}}, Path{{246., 0.}, {200., 50.}, {100., 150.}, {50., 150.}, {0., 0.}}})
    h.run("edit:" + str(p), [&] {
      cvspline s(p);
      Ref r;
      Path k = knots(p);
      for (size_t i = 0; i < k.size(); i++) r.k.push_back({s.vev_position.at(i), k[i]});
      edit(s, r, h.thorough ? 3 : 2, "", true);
    });
  for (int dim = 1; dim <= 3; dim++)
    for (size_t n = 2; n <= 3; n++)
      for (bool header : {false, true})
        h.run("save:" + std::to_string(dim) + ":" + std::to_string(n) + (header ? ":header" : ""), [&] { sequences(lattice(dim), n, {}, [&](const Path &p) { if (p[0] == lattice(dim)[1]) saved(p, header); }); });
  h.assumptions = {"consecutive knots differ; where a curve nearly stops in its chord parameter (a cusp) the arc length is not smooth and only the knots, their order and the total length are judged"};
  if (getenv("U02_DEBUG"))
    for (int i = 0; i < 8; i++) printf("%d %g %s\n", i, mx[i], mw[i].c_str());
}
