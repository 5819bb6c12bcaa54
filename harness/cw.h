// Independent derivatives of the Coleman-Weinberg potential at a point, from the
// Lagrangian-level mass matrices of models.h (divided differences of m^2 log m^2,
// infrared-divergent logarithms dropped: log 0 -> 0).
#pragma once
#include "models.h"
#include <quadmath.h>
namespace mo
{
using Q   = __float128;
using CM  = Eigen::MatrixXcd;
struct CWOracle
{
  struct Sec { Vec m; std::vector<CM> A; std::vector<std::vector<CM>> B; double n, c; };
  std::vector<Sec> secs;
  size_t N;
  Q lmu2;
  CWOracle(const Oracle &o, const Vec &w, double mu) : N(o.s.nH)
  {
    lmu2 = 2 * logq((Q)mu);
    auto add = [&](std::function<CM(const Vec &)> X, double n, double c) {
      Sec S;
      S.n = n; S.c = c;
      Eigen::SelfAdjointEigenSolver<CM> es(X(w));
      CM U = es.eigenvectors();
      for (int i = 0; i < U.rows(); i++) { double x = es.eigenvalues()[i]; S.m.push_back(std::abs(x) < 1e-5 ? 0 : x); }
      double e = 60;
      auto sh = [&](size_t i, double a, size_t j, double b) { auto y = w; y[i] += a; y[j] += b; return X(y); };
      CM X0 = X(w);
      for (size_t i = 0; i < N; i++) S.A.push_back(U.adjoint() * ((sh(i, e, i, 0) - sh(i, -e, i, 0)) / (2 * e)) * U);
      S.B.resize(N, std::vector<CM>(N));
      for (size_t i = 0; i < N; i++)
        for (size_t j = i; j < N; j++)
        {
          CM d = i == j ? CM((sh(i, e, i, 0) + sh(i, -e, i, 0) - 2. * X0) / (e * e)) : CM((sh(i, e, j, e) - sh(i, e, j, -e) - sh(i, -e, j, e) + sh(i, -e, j, -e)) / (4 * e * e));
          S.B[i][j] = S.B[j][i] = U.adjoint() * d * U;
        }
      secs.push_back(S);
    };
    add([&](const Vec &x) { return CM(o.higgsM(x).cast<C>()); }, 1, 1.5);
    add([&](const Vec &x) { return CM(o.gaugeM(x).cast<C>()); }, 3, 5. / 6);
    add([&](const Vec &x) { auto M = o.quarkDirac(x); return CM(M.adjoint() * M); }, -12, 1.5);
    add([&](const Vec &x) { auto l = o.lepton2(x); CM M = CM::Zero(3, 3); for (int i = 0; i < 3; i++) M(i, i) = l[3 + 2 * i]; return M; }, -4, 1.5);
  }
  // divided differences of m (log m - c + 1/2)
  Q dd(std::vector<double> z, double c) const
  {
    std::sort(z.begin(), z.end());
    for (size_t i = 1; i < z.size(); i++)
      if (z[i] - z[i - 1] < 1e-6) z[i] = z[i - 1];
    std::function<Q(int, int)> f = [&](int a, int b) -> Q {
      int k = b - a;
      // three massless states: the finite part left by a power divergence is a convention, log m^2/m^4 here
      if (k == 3 && z[a] == 0 && z[a + 2] == 0 && z[b] > 0) return (logq((Q)z[b]) - lmu2) / ((Q)z[b] * (Q)z[b]);
      if (z[a] == z[b])
      {
        Q m = z[a], L = m == 0 ? (Q)0 : logq(m) - lmu2;
        if (k == 0) return m * (L - c + (Q)0.5);
        if (k == 1) return L + 1 - c + (Q)0.5;
        if (m == 0) return 0;
        if (k == 2) return 1 / (2 * m);
        return -1 / (6 * m * m); // f'''/3!
      }
      return (f(a + 1, b) - f(a, b - 1)) / ((Q)z[b] - (Q)z[a]);
    };
    return f(0, (int)z.size() - 1);
  }
  static constexpr double K = 1 / (32 * M_PI * M_PI);
  double d1(size_t i) const
  {
    double r = 0;
    for (auto &S : secs)
      for (size_t a = 0; a < S.m.size(); a++) r += S.n * K * (double)dd({S.m[a]}, S.c) * S.A[i](a, a).real();
    return r;
  }
  struct Tab { std::vector<double> f1, f2, f3; };
  mutable std::vector<Tab> tab;
  void tables() const
  {
    if (!tab.empty()) return;
    for (auto &S : secs)
    {
      size_t n = S.m.size();
      Tab t;
      for (size_t a = 0; a < n; a++) t.f1.push_back((double)dd({S.m[a]}, S.c));
      for (size_t a = 0; a < n; a++) for (size_t b = 0; b < n; b++) t.f2.push_back((double)dd({S.m[a], S.m[b]}, S.c));
      for (size_t a = 0; a < n; a++) for (size_t b = 0; b < n; b++) for (size_t c = 0; c < n; c++) t.f3.push_back((double)dd({S.m[a], S.m[b], S.m[c]}, S.c));
      tab.push_back(t);
    }
  }
  double d2(size_t i, size_t j) const
  {
    tables();
    double r = 0;
    for (size_t s = 0; s < secs.size(); s++)
    {
      auto &S = secs[s]; auto &t = tab[s]; size_t n = S.m.size();
      C x = 0;
      for (size_t a = 0; a < n; a++)
      {
        x += t.f1[a] * S.B[i][j](a, a);
        for (size_t b = 0; b < n; b++) x += t.f2[a * n + b] * S.A[i](a, b) * S.A[j](b, a);
      }
      r += S.n * K * x.real();
    }
    return r;
  }
  double d3(size_t i, size_t j, size_t k) const
  {
    tables();
    double r = 0;
    for (size_t s = 0; s < secs.size(); s++)
    {
      auto &S = secs[s]; auto &t = tab[s]; size_t n = S.m.size();
      C x = 0;
      for (size_t a = 0; a < n; a++)
        for (size_t b = 0; b < n; b++)
        {
          x += t.f2[a * n + b] * (S.B[i][j](a, b) * S.A[k](b, a) + S.B[i][k](a, b) * S.A[j](b, a) + S.B[j][k](a, b) * S.A[i](b, a));
          for (size_t c = 0; c < n; c++)
            x += t.f3[(a * n + b) * n + c] * S.A[i](a, b) * (S.A[j](b, c) * S.A[k](c, a) + S.A[k](b, c) * S.A[j](c, a));
        }
      r += S.n * K * x.real();
    }
    return r;
  }
  double d4(std::array<size_t, 4> q) const
  {
    tables();
    double r = 0;
    for (size_t s = 0; s < secs.size(); s++)
    {
      auto &S = secs[s]; auto &t = tab[s]; int n = S.m.size();
      C x = 0;
      auto two = [&](const CM &P, const CM &R) { C y = 0; for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) y += t.f2[a * n + b] * P(a, b) * R(b, a); return y; };
      auto three = [&](const CM &P, const CM &R, const CM &W) { C y = 0; for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) for (int c = 0; c < n; c++) y += t.f3[(a * n + b) * n + c] * P(a, b) * R(b, c) * W(c, a); return y; };
      int pr[3][4] = {{0, 1, 2, 3}, {0, 2, 1, 3}, {0, 3, 1, 2}};
      for (auto &p : pr)
      {
        auto i = q[p[0]], j = q[p[1]], k = q[p[2]], l = q[p[3]];
        x += two(S.B[i][j], S.B[k][l]);
        x += three(S.B[i][j], S.A[k], S.A[l]) + three(S.B[i][j], S.A[l], S.A[k]);
        x += three(S.B[k][l], S.A[i], S.A[j]) + three(S.B[k][l], S.A[j], S.A[i]);
      }
      std::array<int, 4> p{0, 1, 2, 3};
      C y = 0;
      do
      {
        if (p[0] != 0) break; // cyclic invariance: 4 x the permutations that start with the first index
        auto &P = S.A[q[p[0]]]; auto &R = S.A[q[p[1]]]; auto &W = S.A[q[p[2]]]; auto &Z = S.A[q[p[3]]];
        for (int a = 0; a < n; a++)
          for (int b = 0; b < n; b++)
          {
            if (std::abs(P(a, b)) < 1e-14) continue;
            for (int c = 0; c < n; c++)
            {
              C pr2 = P(a, b) * R(b, c);
              if (std::abs(pr2) < 1e-14) continue;
              for (int d = 0; d < n; d++)
              {
                C pr4 = pr2 * W(c, d) * Z(d, a);
                if (std::abs(pr4) < 1e-14) continue;
                y += (double)dd({S.m[a], S.m[b], S.m[c], S.m[d]}, S.c) * pr4;
              }
            }
          }
      } while (std::next_permutation(p.begin(), p.end()));
      x += y;
      r += S.n * K * x.real();
    }
    return r;
  }
};
} // namespace mo
