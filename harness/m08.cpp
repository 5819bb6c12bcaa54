// M08: one-loop trilinear couplings are third derivatives of the potential in the mass basis
#include "cw.h"
#include <set>
HARNESS_MAIN
using namespace mo;
typedef std::vector<std::vector<Vec>> T3;
// documented order of the mass eigenstates: (fields they are made of, massless?, rank by mass among those)
struct Row { std::vector<size_t> f; bool gold; int rank; };
static std::vector<Row> rows(const std::string &n)
{
  if (n == "R2HDM") return {{{0, 2}, 1, 0}, {{1, 3}, 1, 0}, {{0, 2}, 0, 0}, {{1, 3}, 0, 0}, {{5, 7}, 1, 0}, {{5, 7}, 0, 0}, {{4, 6}, 0, 0}, {{4, 6}, 0, 1}};
  if (n == "C2HDM") return {{{0, 2}, 1, 0}, {{1, 3}, 1, 0}, {{0, 2}, 0, 0}, {{1, 3}, 0, 0}, {{4, 5, 6, 7}, 1, 0}, {{4, 5, 6, 7}, 0, 0}, {{4, 5, 6, 7}, 0, 1}, {{4, 5, 6, 7}, 0, 2}};
  if (n == "N2HDM") return {{{0, 1}, 1, 0}, {{2, 3}, 1, 0}, {{0, 1}, 0, 0}, {{2, 3}, 0, 0}, {{4, 5}, 1, 0}, {{4, 5}, 0, 0}, {{6, 7, 8}, 0, -1}, {{6, 7, 8}, 0, -2}, {{6, 7, 8}, 0, -3}};
  if (n == "CxSM") return {{{0}, 1, 0}, {{1}, 1, 0}, {{2}, 1, 0}, {{3, 4, 5}, 0, 0}, {{3, 4, 5}, 0, 1}, {{3, 4, 5}, 0, 2}};
  if (n == "CPINTHEDARK") return {{{0}, 1, 0}, {{1}, 1, 0}, {{2}, 0, 0}, {{3}, 0, 0}, {{4}, 0, 0}, {{5}, 1, 0}, {{6, 7, 8}, 0, 0}, {{6, 7, 8}, 0, 1}, {{6, 7, 8}, 0, 2}};
  return {};
}
static T3 make3(size_t N) { return T3(N, std::vector<Vec>(N, Vec(N, 0.))); }
static double d3poly(const std::function<double(const Vec &)> &f, const Vec &w, size_t i, size_t j, size_t k)
{
  auto g = [&](double t) { auto x = w; x[k] += t; return Oracle::d2(f, x, i, j); };
  return (g(30) - g(-30)) / 60;
}
static void one(const Point &p)
{
  auto m = make(p);
  Oracle o(p);
  auto &s  = *p.s;
  size_t N = s.nH;
  o.pct    = m->get_parCTStored();
  CWOracle c(o, o.w, v0());
  h.states++;
  m->Prepare_Triple();
  m->TripleHiggsCouplings();
  T3 tree = make3(N), ct = make3(N), cw = make3(N);
  for (size_t i = 0; i < N; i++)
    for (size_t j = i; j < N; j++)
      for (size_t k = j; k < N; k++)
      {
        double a = d3poly([&](const Vec &x) { return o.tree(x); }, o.w, i, j, k), b = d3poly([&](const Vec &x) { return o.ct(x); }, o.w, i, j, k), d = c.d3(i, j, k);
        size_t q[3] = {i, j, k};
        do tree[q[0]][q[1]][q[2]] = a, ct[q[0]][q[1]][q[2]] = b, cw[q[0]][q[1]][q[2]] = d;
        while (std::next_permutation(q, q + 3));
      }
  // mass basis: eigenvectors within every block
  Mat H = o.higgsM(o.w), R = Mat::Zero(N, N);
  auto rw = rows(s.name);
  if (rw.empty())
  { // SM: sorted by mass, Goldstone bosons may be mixed
    Eigen::SelfAdjointEigenSolver<Mat> es(H);
    R.row(3) = es.eigenvectors().col(3).transpose();
  }
  bool blocks = true;
  for (size_t r = 0; r < rw.size(); r++)
  {
    auto &f = rw[r].f;
    Mat B(f.size(), f.size());
    for (size_t a = 0; a < f.size(); a++)
    {
      for (size_t b = 0; b < f.size(); b++) B(a, b) = H(f[a], f[b]);
      for (size_t b = 0; b < N; b++)
        if (std::find(f.begin(), f.end(), b) == f.end() && std::abs(H(f[a], b)) > 1) blocks = false;
    }
    Eigen::SelfAdjointEigenSolver<Mat> es(B);
    std::vector<int> id;
    for (int a = 0; a < (int)f.size(); a++)
      if ((std::abs(es.eigenvalues()[a]) < 0.1) == rw[r].gold) id.push_back(a);
    int rank = rw[r].rank;
    if (rank < 0)
    { // N2HDM: SM-like state (closest to 125 GeV) first, the other two by mass
      int sm = 0;
      for (int a = 0; a < (int)id.size(); a++)
        if (std::abs(std::sqrt(es.eigenvalues()[id[a]]) - GetSMConstants().C_MassSMHiggs) < std::abs(std::sqrt(es.eigenvalues()[id[sm]]) - GetSMConstants().C_MassSMHiggs)) sm = a;
      std::vector<int> ord{sm};
      for (int a = 0; a < (int)id.size(); a++)
        if (a != sm) ord.push_back(a);
      rank = ord[-rank - 1];
    }
    h.check(rank < (int)id.size(), "number of states in a block");
    auto v = es.eigenvectors().col(id.at(rank));
    for (size_t a = 0; a < f.size(); a++) R(r, f[a]) = v[a];
  }
  if (!blocks) { h.outcome(s.name + " mixed blocks (skipped)"); return; }
  auto rot = [&](const T3 &t) {
    T3 a = make3(N), b = make3(N), d = make3(N);
    for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) for (size_t k = 0; k < N; k++) for (size_t l = 0; l < N; l++) a[i][j][k] += R(i, l) * t[l][j][k];
    for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) for (size_t k = 0; k < N; k++) for (size_t l = 0; l < N; l++) b[i][j][k] += R(j, l) * a[i][l][k];
    for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) for (size_t k = 0; k < N; k++) for (size_t l = 0; l < N; l++) d[i][j][k] += R(k, l) * b[i][j][l];
    return d;
  };
  T3 ph[3] = {rot(tree), rot(ct), rot(cw)};
  const char *nm[3] = {"tree-level", "counterterm", "Coleman-Weinberg"};
  auto get = [&](int w, size_t i, size_t j, size_t k) {
    return w == 0 ? m->get_TripleHiggsCorrectionsTreePhysical(i, j, k) : w == 1 ? m->get_TripleHiggsCorrectionsCTPhysical(i, j, k) : m->get_TripleHiggsCorrectionsCWPhysical(i, j, k);
  };
  // phases of the eigenstates: the assignment that fits the tree-level couplings best
  double best = 1e300, sc[3] = {1e-3, 1e-3, 1e-3};
  for (int w = 0; w < 3; w++)
    for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) for (size_t k = 0; k < N; k++) sc[w] = std::max(sc[w], std::abs(ph[w][i][j][k]));
  std::vector<int> sg(N, 1);
  for (int mask = 0; mask < (1 << N); mask++)
  {
    double e = 0;
    for (int w = 0; w < 3 && e < best; w++)
      for (size_t i = rw.empty() ? 3 : 0; i < N && e < best; i++) for (size_t j = i; j < N; j++) for (size_t k = j; k < N; k++)
      {
        int sign = (mask >> i & 1) ^ (mask >> j & 1) ^ (mask >> k & 1);
        double d = (get(w, i, j, k) - (sign ? -1 : 1) * ph[w][i][j][k]) / sc[w];
        e += d * d;
      }
    if (e < best)
    {
      best = e;
      for (size_t i = 0; i < N; i++) sg[i] = mask >> i & 1 ? -1 : 1;
    }
  }
  for (int w = 0; w < 3; w++)
    for (size_t i = rw.empty() ? 3 : 0; i < N; i++) for (size_t j = rw.empty() ? 3 : 0; j < N; j++) for (size_t k = rw.empty() ? 3 : 0; k < N; k++)
    {
      h.transitions++;
      if (h.violations.size() > 3) return;
      h.close(get(w, i, j, k), sg[i] * sg[j] * sg[k] * ph[w][i][j][k], 1e-6, 1e-7 * sc[w] + 1e-8, std::string(nm[w]) + " coupling " + std::to_string(i) + "," + std::to_string(j) + "," + std::to_string(k));
      h.close(get(w, i, j, k), get(w, k, i, j), 1e-9, 1e-9 * sc[w] + 1e-9, std::string(nm[w]) + " coupling symmetric");
    }
  // derivatives in the gauge basis, of all orders
  auto W1 = m->WeinbergFirstDerivative(), W2 = m->WeinbergSecondDerivative(), W3 = m->WeinbergThirdDerivative();
  h.check(W1.size() == N && W2.size() == N * N && W3.size() == N * N * N, "size of the derivative vectors");
  for (size_t i = 0; i < N; i++)
  {
    h.close(W1[i], c.d1(i), 1e-9, 1e-3, "first derivative " + std::to_string(i));
    for (size_t j = 0; j < N; j++)
    {
      h.close(W2[i * N + j], c.d2(i, j), 1e-9, 1e-4, "second derivative");
      for (size_t k = 0; k < N; k++) h.close(W3[(i * N + j) * N + k], cw[i][j][k], 1e-8, 1e-7, "third derivative");
    }
  }
  if (s.nH <= 4 || h.thorough || (p.key.find("ex") != std::string::npos && (s.name == "CxSM" || s.name == "R2HDM")))
  {
    auto W4 = m->WeinbergForthDerivative();
    h.check(W4.size() == N * N * N * N, "size of the fourth derivative");
    for (size_t i = 0; i < N; i++) for (size_t j = i; j < N; j++) for (size_t k = j; k < N; k++) for (size_t l = k; l < N; l++)
    {
      if ((i + 2 * j + 3 * k + 5 * l) % (N > 4 ? 7 : 1)) continue;
      h.transitions++;
      h.close(W4[((i * N + j) * N + k) * N + l], c.d4({i, j, k, l}), 1e-6, 1e-7, "fourth derivative " + std::to_string(i) + std::to_string(j) + std::to_string(k) + std::to_string(l));
    }
  }
  // calling again or after other calculations changes nothing
  double before = get(2, N - 1, N - 1, N - 1), bt = get(0, N - 1, N - 1, N - 1);
  m->Prepare_Triple();
  m->TripleHiggsCouplings();
  h.close(get(2, N - 1, N - 1, N - 1), before, 0, 0, "second call");
  h.close(get(0, N - 1, N - 1, N - 1), bt, 0, 0, "second call, tree level");
  h.traces++;
  h.outcome(s.name + " type " + std::to_string(o.type));
  if (h.samples.size() < 3) h.sample(p.key + " h h h: tree " + str(get(0, N - 1, N - 1, N - 1)) + " CW " + str(before));
}
// loop functions: all orders and degeneracies of the masses
static void loops(const std::vector<double> &M, double mu)
{
  auto p = all_points(false)[0];
  auto m = make(p);
  Oracle o(p);
  CWOracle c(o, o.w, mu);
  m->resetScale(mu);
  for (double a : M) for (double b : M)
  {
    h.states++;
    h.transitions++;
    h.close(m->fbase(a, b) + (a == b ? 0. : 0.), (double)c.dd({a, b}, 0.5), 1e-9, 1e-9, "fbase " + str(a) + " " + str(b));
    for (double d : M)
    {
      h.transitions++;
      auto t = (double)c.dd({a, b, d}, 0.5);
      h.close(m->fbaseTri(a, b, d), t, 1e-8, 1e-18, "fbaseTri " + str(a) + " " + str(b) + " " + str(d));
      for (double e : M)
      {
        h.transitions++;
        auto f = (double)c.dd({a, b, d, e}, 0.5);
        h.close(m->fbaseFour(a, b, d, e), f, 1e-6, 1e-18, "fbaseFour " + str(a) + " " + str(b) + " " + str(d) + " " + str(e));
        h.outcome("loop function " + std::to_string((int)std::set<double>{a, b, d, e}.size()) + " different masses, " + std::to_string((a == 0) + (b == 0) + (d == 0) + (e == 0)) + " massless");
      }
    }
  }
  h.traces++;
}
void run_all()
{
  Logger::Disable();
  for (double mu : {246.22, 100., 500.}) h.run("loops:" + str(mu), [&] { loops({0, 900, 5000, 23000, 160000}, mu); });
  for (auto &p : all_points(h.thorough)) h.run(p.key, [&] { one(p); });
  h.assumptions = {"infrared-divergent Goldstone logarithms are dropped, as in the scheme", "points whose scalar mass matrix has the documented block structure"};
}
