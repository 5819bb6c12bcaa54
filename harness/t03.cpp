// T03: discrete symmetries, flat directions, identification of equivalent minima.
#include "models.h"
#include "toy.h"
#include <BSMPT/minimizer/Minimizer.h>
#include <BSMPT/minimum_tracer/minimum_tracer.h>
using namespace BSMPT;

// the random test points become a parameter of the case
static unsigned long long rng = 1;
extern "C" int __wrap_rand()
{
  rng = rng * 6364136223846793005ULL + 1442695040888963407ULL;
  return (int)(rng >> 34);
}
extern "C" void __wrap_srand(unsigned) {}

using Mask = unsigned;
// all subgroups of Z2^n, as sets of masks of flipped directions
static std::vector<std::vector<Mask>> subgroups(int n)
{
  std::set<std::set<Mask>> all;
  std::function<void(std::set<Mask>, Mask)> rec = [&](std::set<Mask> s, Mask from) {
    all.insert(s);
    for (Mask g = from; g < (1u << n); g++)
    {
      if (s.count(g)) continue;
      auto t = s;
      for (auto e : s) t.insert(e ^ g);
      rec(t, g + 1);
    }
  };
  rec({0u}, 1);
  std::vector<std::vector<Mask>> r;
  for (auto &s : all) r.push_back(std::vector<Mask>(s.begin(), s.end()));
  return r;
}
static Vec flip(const Vec &v, Mask m)
{
  auto r = v;
  for (size_t i = 0; i < v.size(); i++)
    if (m >> i & 1) r[i] = -r[i];
  return r;
}
// potential whose sign-flip symmetries are exactly `s`
static std::function<double(const Vec &, double)> potential(int n, const std::vector<Mask> &s)
{
  std::vector<std::pair<Mask, double>> mono;
  int k = 0;
  for (Mask c = 1; c < (1u << n); c++)
  {
    bool inv = true;
    for (auto g : s) inv &= __builtin_popcount(c & g) % 2 == 0;
    if (inv) mono.push_back({c, 0.11 + 0.017 * ++k});
  }
  return [n, mono](const Vec &x, double T) {
    double r = 0;
    for (int i = 0; i < n; i++)
    {
      double y = x[i] / 100;
      r += (0.7 + 0.31 * i) * std::pow(y * y - 1.3 - 0.4 * i + 0.1 * T * T / 1e4, 2);
      r += 0.05 * y * y * std::pow(x[(i + 1) % n] / 100, 2);
    }
    for (auto &m : mono)
    {
      double t = m.second;
      for (int i = 0; i < n; i++)
        if (m.first >> i & 1) t *= x[i] / 100;
      r += t;
    }
    return 1e8 * r;
  };
}
static std::shared_ptr<toy::Model> mk(int n, std::function<double(const Vec &, double)> V, bool big, const Vec &tree)
{
  auto m = std::make_shared<toy::Model>(n, V, tree, n + (big ? 3 : 0));
  if (big)
  {
    for (int i = 0; i < n; i++) m->VevOrder[i] = i + 1 + (i > 1 ? 1 : 0);
    m->vevTree = Vec(m->NHiggs, 0);
    for (int i = 0; i < n; i++) m->vevTree[m->VevOrder[i]] = tree[i];
  }
  return m;
}
static std::string sname(const std::vector<Mask> &s)
{
  std::string r;
  for (auto g : s) r += (r.empty() ? "" : ".") + std::to_string(g);
  return r;
}
static std::multiset<Mask> found(const MinimumTracer &t, int n, bool &diag)
{
  std::multiset<Mask> r;
  diag = true;
  for (auto &g : t.GroupElements)
  {
    Mask m = 0;
    if (g.rows() != n || g.cols() != n) { diag = false; continue; }
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++)
      {
        if (i != j && g(i, j) != 0) diag = false;
        if (i == j && g(i, j) == -1) m |= 1u << i;
        else if (i == j && g(i, j) != 1) diag = false;
      }
    r.insert(m);
  }
  return r;
}
static void lattice(int n, const Vec &vals, const std::function<void(const Vec &)> &f)
{
  std::vector<size_t> c(n, 0);
  while (true)
  {
    Vec v(n);
    for (int i = 0; i < n; i++) v[i] = vals[c[i]] * (1 + 0.1 * i);
    f(v);
    int k = 0;
    while (k < n && ++c[k] == vals.size()) c[k++] = 0;
    if (k == n) break;
  }
}
static void reduction(MinimumTracer &t, int n, const std::vector<Mask> &s, const std::function<double(const Vec &)> &V)
{
  Vec vals = n <= 3 ? Vec{-200, -30, -0.1, 0, 0.1, 30, 200} : Vec{-200, -30, 0, 30, 200};
  lattice(n, vals, [&](const Vec &v) {
    auto r = v;
    t.ReduceVEV(r);
    h.transitions++;
    // the result is one of the images, so potential and distances are unchanged
    bool image = false;
    for (auto g : s)
    {
      auto w = flip(v, g);
      bool e = true;
      for (int i = 0; i < n; i++) e &= w[i] == r[i]; // -0 equals 0
      image |= e;
    }
    if (!h.check(image, "reduction of " + str(v) + " is one of its symmetry images: " + str(r))) return;
    h.check(std::abs(V(r) - V(v)) <= 1e-12 * (std::abs(V(v)) + 1e8), "reduction of " + str(v) + " keeps the potential");
    // every image of the configuration reduces to the same representative
    for (auto g : s)
    {
      auto w = flip(v, g);
      auto w0 = w;
      t.ReduceVEV(w);
      bool e = true;
      for (int i = 0; i < n; i++) e &= w[i] == r[i];
      if (!h.check(e, "equivalent configurations " + str(v) + " and " + str(w0) + " have one representative: " + str(r) + " and " + str(w))) return;
    }
    auto r2 = r;
    t.ReduceVEV(r2);
    bool e = true;
    for (int i = 0; i < n; i++) e &= r2[i] == r[i];
    h.check(e, "reduction is idempotent at " + str(r));
    // inequivalent configurations stay apart: all sign patterns outside the orbit
    for (Mask m = 0; m < (1u << n); m++)
    {
      auto w = flip(v, m);
      bool inorbit = false;
      for (auto g : s)
      {
        auto u = flip(v, g);
        bool q = true;
        for (int i = 0; i < n; i++) q &= u[i] == w[i];
        inorbit |= q;
      }
      if (inorbit) continue;
      auto w0 = w;
      t.ReduceVEV(w);
      bool q = true;
      for (int i = 0; i < n; i++) q &= w[i] == r[i];
      h.check(!q, "inequivalent configurations " + str(v) + " and " + str(w0) + " stay different");
    }
  });
}
static void symcase(int n, const std::vector<Mask> &s, bool big, int stream)
{
  rng    = 12345 + 977 * stream;
  auto V = potential(n, s);
  Vec tree;
  for (int i = 0; i < n; i++) tree.push_back(150);
  std::shared_ptr<Class_Potential_Origin> m = mk(n, V, big, tree);
  MinimumTracer t(m, 1, false);
  h.states++;
  bool diag;
  auto got = found(t, n, diag);
  h.check(diag, "the symmetries found are sign flips");
  std::multiset<Mask> want(s.begin(), s.end());
  std::string g;
  for (auto x : got) g += " " + std::to_string(x);
  if (!h.check(got == want, "symmetries found are exactly those of the potential: found" + g + ", expected " + sname(s))) return;
  reduction(t, n, s, [&](const Vec &x) { return V(x, 0); });
  h.outcome("n" + std::to_string(n) + " order " + std::to_string(s.size()));
}
// ---- recognising the global minimum up to symmetry
static void globcase(int n, const std::vector<Mask> &s, double T)
{
  rng    = 999;
  auto V = potential(n, s);
  // oracle: descend from every sign pattern and from the axes
  std::vector<std::pair<double, Vec>> mins;
  std::vector<size_t> c(n, 0);
  lattice(n, {-150, 0, 150}, [&](const Vec &x0) {
    Vec x = x0;
    double st = 16, b = V(x, T);
    while (st > 1e-5)
    {
      bool mv = false;
      for (int i = 0; i < n; i++)
        for (int sg = -1; sg <= 1; sg += 2)
        {
          auto y = x;
          y[i] += sg * st;
          double w = V(y, T);
          if (w < b) b = w, x = y, mv = true;
        }
      if (!mv) st /= 2;
    }
    for (auto &m : mins)
    {
      double d = 0;
      for (int i = 0; i < n; i++) d += std::pow(m.second[i] - x[i], 2);
      if (d < 1) return;
    }
    mins.push_back({b, x});
  });
  std::sort(mins.begin(), mins.end(), [](auto &a, auto &b) { return a.first < b.first; });
  double best = mins[0].first, depth = 0;
  for (auto &m : mins) depth = std::max(depth, std::abs(m.first - best));
  std::shared_ptr<Class_Potential_Origin> m = mk(n, V, false, mins[0].second);
  MinimumTracer t(m, 6, false);
  h.states++;
  int yes = 0, no = 0;
  for (auto &q : mins)
  {
    double gap = q.first - best;
    bool equiv = false;
    for (auto g : s)
    {
      auto w   = flip(mins[0].second, g);
      double d = 0;
      for (int i = 0; i < n; i++) d += std::pow(w[i] - q.second[i], 2);
      equiv |= d < 0.01;
    }
    if (!equiv && gap < 1e-6 * 1e8) continue; // degenerate but inequivalent: either is the global minimum
    Minimum mm;
    mm.point = q.second;
    mm.temp  = T;
    t.IsGlobMin(mm);
    h.transitions++;
    (equiv ? yes : no)++;
    h.check(mm.is_glob_min == equiv, std::string("minimum ") + str(q.second) + (equiv ? " is an image of the global one and is recognised" : " is not the global one and is told apart") +
                                         " (gap " + str(gap) + ")");
    h.check(mm.point == q.second && mm.temp == T, "asking does not change the minimum");
  }
  h.outcome("global n" + std::to_string(n) + " images " + std::to_string(yes) + " others " + std::to_string(std::min(no, 3)));
}
// ---- flat directions
// block structure: kind of each coordinate pair comes from the blocks; 'r': rotation invariant block, 'x': exchange symmetric block
struct Block
{
  char kind; // 'r' rotation, 'x' exchange only, 's' single, 'f' flat single
  std::vector<int> idx;
};
static double fpot(const std::vector<Block> &bl, const Vec &x)
{
  double r = 0, all = 0;
  int k = 0;
  for (auto &b : bl)
  {
    k++;
    double q = 0, qq = 0;
    for (auto i : b.idx)
    {
      double y = x[i] / 100;
      q += y * y;
      qq += y * y * y * y;
    }
    if (b.kind == 'f') continue;
    r += (0.6 + 0.23 * k) * std::pow(q - 0.9 - 0.35 * k, 2);
    if (b.kind == 'x') r += 0.5 * qq;
    all += (1 + 0.37 * k) * q;
  }
  r += 0.03 * all * all;
  return 1e8 * r;
}
static void flatcase(int n, const std::vector<Block> &bl, const std::string &name)
{
  rng = 4242;
  Vec tree(n, 120);
  std::shared_ptr<Class_Potential_Origin> m = mk(n, [bl](const Vec &x, double) { return fpot(bl, x); }, false, tree);
  MinimumTracer t(m, 1, false);
  h.states++;
  auto blockof = [&](int i) {
    for (auto &b : bl)
      for (auto k : b.idx)
        if (k == i) return &b;
    return (const Block *)nullptr;
  };
  // reported directions are those along which the potential is really constant, and none is missing
  std::set<size_t> f1(t.flat_1D_dirs.begin(), t.flat_1D_dirs.end());
  for (int i = 0; i < n; i++) h.check((f1.count(i) == 1) == (blockof(i)->kind == 'f'), "direction " + std::to_string(i) + (blockof(i)->kind == 'f' ? " is flat" : " is not flat"));
  for (int i = 0; i < n; i++)
    for (int j = i + 1; j < n; j++)
    {
      bool flat = (blockof(i) == blockof(j) && blockof(i)->kind == 'r') || (blockof(i)->kind == 'f' && blockof(j)->kind == 'f');
      bool got  = false;
      for (auto &p : t.flat_2D_dirs) got |= p.size() == 2 && p[0] == (size_t)i && p[1] == (size_t)j;
      h.check(got == flat, "plane (" + std::to_string(i) + "," + std::to_string(j) + ") is " + (flat ? "" : "not ") + "rotation invariant, reported " + (got ? "flat" : "not flat"));
    }
  for (int i = 0; i < n; i++)
    for (int j = i + 1; j < n; j++)
      for (int k = j + 1; k < n; k++)
      {
        auto *a = blockof(i), *b = blockof(j), *c = blockof(k);
        bool flat = ((a == b && b == c && a->kind == 'r') || (a->kind == 'f' && b->kind == 'f' && c->kind == 'f'));
        bool got  = false;
        for (auto &p : t.flat_3D_dirs) got |= p.size() == 3 && p[0] == (size_t)i && p[1] == (size_t)j && p[2] == (size_t)k;
        h.check(got == flat, "space (" + std::to_string(i) + "," + std::to_string(j) + "," + std::to_string(k) + ") is " + (flat ? "" : "not ") + "rotation invariant, reported " + (got ? "flat" : "not flat"));
      }
  bool any = false;
  for (auto &b : bl) any |= b.kind == 'r' || b.kind == 'f';
  h.check(t.flat_dirs_found == any, "flat directions announced exactly when there are some");
  // removing flat directions stays on the orbit
  lattice(n, n <= 3 ? Vec{-200, -40, 0, 15, 120} : Vec{-150, 0, 70}, [&](const Vec &v) {
    auto w = v;
    t.ConvertToNonFlatDirections(w);
    h.transitions++;
    double a = fpot(bl, v), b = fpot(bl, w);
    h.check(std::abs(a - b) <= 1e-9 * (std::abs(a) + 1e8), "removing flat directions keeps the potential of " + str(v) + " -> " + str(w));
    double na = 0, nb = 0;
    for (auto x : v) na += x * x;
    for (auto x : w) nb += x * x;
    h.close(std::sqrt(nb), std::sqrt(na), 1e-12, 1e-9, "removing flat directions keeps the length of " + str(v));
    auto w2 = w;
    t.ConvertToNonFlatDirections(w2);
    bool e = true;
    for (int i = 0; i < n; i++) e &= std::abs(w2[i] - w[i]) < 1e-9;
    h.check(e, "removing flat directions is idempotent at " + str(v));
    // the rotations of a block lead to one representative
    for (auto &bk : bl)
      if (bk.kind == 'r')
        for (double ang : {0.4, 1.3, 2.9})
          for (size_t p = 0; p + 1 < bk.idx.size(); p++)
          {
            auto u = v;
            int i = bk.idx[p], j = bk.idx[p + 1];
            u[i] = std::cos(ang) * v[i] - std::sin(ang) * v[j];
            u[j] = std::sin(ang) * v[i] + std::cos(ang) * v[j];
            t.ConvertToNonFlatDirections(u);
            bool q = true;
            for (int k = 0; k < n; k++) q &= std::abs(u[k] - w[k]) < 1e-6;
            h.check(q, "rotated copies of " + str(v) + " have one representative: " + str(u) + " and " + str(w));
          }
  });
  h.outcome("flat " + name.substr(0, 12));
}
// all set partitions of {0..n-1} into blocks, all kinds per block
static void flatcases(int n)
{
  std::vector<int> a(n, 0);
  std::function<void(int, int)> rec = [&](int i, int k) {
    if (i == n)
    {
      std::vector<Block> bl(k);
      for (int j = 0; j < n; j++) bl[a[j]].idx.push_back(j);
      std::function<void(int)> kinds = [&](int b) {
        if (b == k)
        {
          std::string nm = "flat/" + std::to_string(n) + "/";
          int flats = 0;
          for (auto &x : bl)
          {
            nm += x.kind;
            for (auto y : x.idx) nm += std::to_string(y);
            flats += x.kind == 'f';
          }
          if (flats == k) return; // nothing left
          auto copy = bl;
          h.run(nm, [=] { flatcase(n, copy, nm); });
          return;
        }
        for (char c : std::string(bl[b].idx.size() == 1 ? "sf" : "rx"))
        {
          bl[b].kind = c;
          kinds(b + 1);
        }
      };
      kinds(0);
      return;
    }
    for (int b = 0; b <= k; b++)
    {
      a[i] = b;
      rec(i + 1, std::max(k, b + 1));
    }
  };
  rec(0, 0);
}
// ---- shipped models: the symmetries found at tree level are those of the full effective potential
static void modelcase(const mo::Point &pt)
{
  auto p = mo::make(pt);
  int n  = p->get_nVEV();
  rng    = 77;
  MinimumTracer t(p, 1, false);
  h.states++;
  bool diag;
  auto got = found(t, n, diag);
  h.check(diag, "the symmetries found are sign flips");
  std::set<Mask> want;
  for (Mask m = 0; m < (1u << n); m++)
  {
    bool tree = true, full = true;
    for (int k = 0; k < 3; k++)
    {
      Vec v(n);
      for (int i = 0; i < n; i++) v[i] = 37 + 41 * ((i * 3 + k * 2 + 1) % 5) + 7.3 * i;
      auto w = flip(v, m);
      auto V = [&](const Vec &x, double T, int o) { return p->VEff(p->MinimizeOrderVEV(x), T, 0, o); };
      auto eq = [&](double a, double b, double tol) { return std::abs(a - b) <= tol * (std::abs(a) + std::abs(b)) + 1e-3; };
      tree &= eq(V(v, 0, 0), V(w, 0, 0), 1e-9);
      for (double T : {0., 120.})
        full &= eq(V(v, T, 1), V(w, T, 1), 1e-7);
      h.transitions++;
    }
    if (full) want.insert(m);
    h.check(tree == full, "sign flip " + std::to_string(m) + " is a symmetry of the tree-level potential exactly if it is one of the effective potential (" + std::to_string(tree) + "," + std::to_string(full) + ")");
  }
  std::string g, w;
  for (auto x : got) g += " " + std::to_string(x);
  for (auto x : want) w += " " + std::to_string(x);
  h.check(got == std::multiset<Mask>(want.begin(), want.end()), "symmetries found are exactly those of the effective potential: found" + g + ", expected" + w);
  std::vector<Mask> ws(want.begin(), want.end());
  reduction(t, n, ws, [&](const Vec &x) { return 0.; });
  // flat directions keep the potential
  lattice(n, {-60, 25, 110}, [&](const Vec &v) {
    auto q = v;
    t.ConvertToNonFlatDirections(q);
    for (int o = 0; o < 2; o++)
    {
      double a = p->VEff(p->MinimizeOrderVEV(v), 100, 0, o), b = p->VEff(p->MinimizeOrderVEV(q), 100, 0, o);
      h.check(std::abs(a - b) <= 1e-6 * (std::abs(a) + std::abs(b)), "removing flat directions keeps the potential of " + str(v) + " -> " + str(q) + ": " + str(a) + " and " + str(b));
    }
  });
  h.outcome(pt.s->name + " order " + std::to_string(got.size()) + " flat " + std::to_string(t.flat_2D_dirs.size()));
}
// ---- is a minimum on an already known phase?
static void knowncase(int n, int nph)
{
  // wells moving linearly with temperature, one per phase: known positions at every temperature
  auto pos = [n](int k, double T) {
    Vec r(n);
    for (int i = 0; i < n; i++) r[i] = 100. * (k == 0 ? 1 : k == 1 ? (i ? 2 : -1) : 3 - i) + (k + 1) * 0.05 * T * (i % 2 ? -1 : 1) + 10 * i;
    return r;
  };
  auto V = [n, nph, pos](const Vec &x, double T) {
    double best = 1e300;
    for (int k = 0; k < nph; k++)
    {
      auto c = pos(k, T);
      double d = 0;
      for (int i = 0; i < n; i++) d += std::pow(x[i] - c[i], 2);
      best = std::min(best, 40 * d * (1 + T * T / 1e4) - 1e5 * k);
    }
    return best;
  };
  std::shared_ptr<Class_Potential_Origin> m = mk(n, V, false, pos(0, 0));
  rng      = 5;
  auto t   = std::make_shared<MinimumTracer>(m, 1, false);
  Vacuum v(0, 200, t, m, 99, 1, true);
  v.PhasesList.clear();
  std::vector<std::pair<double, double>> ran{{0, 120}, {60, 200}, {20, 90}};
  for (int k = 0; k < nph; k++)
  {
    Phase ph;
    ph.MinTracer = t;
    for (double T = ran[k].first; T <= ran[k].second; T += 10)
    {
      Minimum q;
      q.temp      = T;
      q.point     = pos(k, T);
      q.potential = V(q.point, T);
      ph.MinimumPhaseVector.push_back(q);
    }
    ph.T_low  = ran[k].first;
    ph.T_high = ran[k].second;
    v.PhasesList.push_back(ph);
  }
  h.states++;
  for (double T = 0; T <= 200; T += 7.5)
    for (int k = 0; k < nph; k++)
      for (double off : {0., 0.05, -0.1, 4., -9., 60.})
        for (int i = 0; i < n; i++)
        {
          Minimum q;
          q.temp  = T;
          q.point = pos(k, T);
          q.point[i] += off * n;
          int want = -1;
          for (int j = 0; j < nph && want < 0; j++)
          {
            double d = 0;
            auto c   = pos(j, T);
            for (int a = 0; a < n; a++) d += std::pow(c[a] - q.point[a], 2);
            if (T >= ran[j].first && T <= ran[j].second && std::sqrt(d) / n < 1) want = j;
          }
          h.transitions++;
          int got = v.MinimumFoundAlready(q);
          h.check(got == want, "minimum " + str(q.point) + " at T=" + str(T) + " belongs to phase " + std::to_string(want) + ", reported " + std::to_string(got));
        }
  h.outcome("known n" + std::to_string(n));
}

void run_all()
{
  for (int n = 1; n <= (h.thorough ? 5 : 4); n++)
    for (auto &s : subgroups(n))
      for (int big = 0; big < 2; big++)
        for (int st = 0; st < (h.thorough ? 4 : 1); st++)
          h.run("sym/" + std::to_string(n) + "/" + sname(s) + "/" + (big ? "moved" : "plain") + "/" + std::to_string(st), [=] { symcase(n, s, big, st); });
  for (int n = 1; n <= 3; n++)
    for (auto &s : subgroups(n))
      for (double T : {0., 60.})
        h.run("glob/" + std::to_string(n) + "/" + sname(s) + "/" + str(T), [=] { globcase(n, s, T); });
  for (int n = 1; n <= (h.thorough ? 5 : 4); n++) flatcases(n);
  for (int n = 1; n <= 3; n++)
    for (int k = 1; k <= 3; k++) h.run("known/" + std::to_string(n) + "/" + std::to_string(k), [=] { knowncase(n, k); });
  for (auto &p : mo::all_points(h.thorough)) h.run("model/" + p.key, [&] { modelcase(p); });
}
HARNESS_MAIN
