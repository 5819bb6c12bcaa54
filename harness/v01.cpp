// V01: the self tests of a model implementation accept exactly the consistent models
#include "models.h"
#include <BSMPT/minimizer/Minimizer.h>
#include <BSMPT/models/ClassPotentialC2HDM.h>
#include <BSMPT/models/ClassPotentialCPintheDark.h>
#include <BSMPT/models/ClassPotentialCxSM.h>
#include <BSMPT/models/ClassPotentialN2HDM.h>
#include <BSMPT/models/ClassPotentialR2HDM.h>
#include <BSMPT/models/ClassPotentialSM.h>
#include <BSMPT/models/ModelTestfunctions.h>
HARNESS_MAIN
using namespace mo;
namespace MT = BSMPT::ModelTests;
using TR     = MT::TestResults;
using S      = std::string;
using CC     = std::complex<double>;
template <class T> using V1 = std::vector<T>;
template <class T> using V2 = V1<V1<T>>;
template <class T> using V3 = V1<V2<T>>;
template <class T> using V4 = V1<V3<T>>;

// ---------------------------------------------------------------- tensors: every tensor of a small size, every subset of an orbit, every shape
// verdict of a test; an argument that is refused with an exception is not accepted either
template <class F> static bool passes(const F &f)
{
  h.transitions++;
  try
  {
    return f() == TR::Pass;
  }
  catch (const std::out_of_range &)
  {
    return false;
  }
}
static bool verdict(bool got, bool want, const S &what)
{
  h.evaluations++;
  h.states++;
  h.outcome(h.cur.substr(0, h.cur.find('/')) + (want ? " accepts" : " rejects"));
  if (got != want) h.fail(what + ": the test " + (got ? "accepts" : "rejects") + " it");
  return got == want;
}
static bool bad() { return (int)h.violations.size() > 3; }
template <class T> static T val(int k) { return T(k); }
template <> CC val<CC>(int k) { return k == 2 ? CC(0, 1) : k == 3 ? CC(1, 1) : CC(k, 0); }

template <class T, class F> static void second(const S &name, const F &test, int alphabet)
{
  for (int n = 0; n <= 3; n++)
    h.run(name + "/entries " + std::to_string(n), [=] {
      int a = n == 3 ? 2 : alphabet, N = 1;
      for (int i = 0; i < n * n; i++) N *= a;
      for (int c = 0; c < N && !bad(); c++)
      {
        V2<T> t(n, V1<T>(n));
        int x = c;
        S txt;
        for (auto &r : t)
          for (auto &e : r) e = val<T>(x % a), txt += std::to_string(x % a), x /= a;
        bool want = true;
        for (int i = 0; i < n; i++)
          for (int j = 0; j < n; j++) want = want && t[i][j] == t[j][i];
        verdict(passes([&] { return test(t); }), want, "matrix " + txt);
      }
      h.traces++;
    });
  h.run(name + "/shapes", [=] {
    for (int n = 1; n <= 3; n++)
      for (int c = 0; c < std::pow(5, n) && !bad(); c++)
      {
        V2<T> t(n);
        int x     = c;
        bool want = true;
        S txt;
        for (auto &r : t) r.resize(x % 5), txt += " " + std::to_string(x % 5), want = want && x % 5 == n, x /= 5;
        verdict(passes([&] { return test(t); }), want, std::to_string(n) + " rows of lengths" + txt);
      }
    h.traces++;
  });
}
// all arrays index -> value over dims; orbit(idx) gives the representative
using Ix = std::vector<int>;
static std::vector<Ix> indices(const Ix &dims)
{
  std::vector<Ix> r{{}};
  for (int d : dims)
  {
    std::vector<Ix> q;
    for (auto &x : r)
      for (int i = 0; i < d; i++) { auto y = x; y.push_back(i); q.push_back(y); }
    r = q;
  }
  return r;
}
template <class T> static T &at(V3<T> &t, const Ix &i) { return t[i[0]][i[1]][i[2]]; }
template <class T> static T &at(V4<T> &t, const Ix &i) { return t[i[0]][i[1]][i[2]][i[3]]; }
template <class T> static void shape(V3<T> &t, const Ix &d) { t.assign(d[0], V2<T>(d[1], V1<T>(d[2]))); }
template <class T> static void shape(V4<T> &t, const Ix &d) { t.assign(d[0], V3<T>(d[1], V2<T>(d[2], V1<T>(d[3])))); }
static S txt(const Ix &i)
{
  S r;
  for (int x : i) r += std::to_string(x);
  return r;
}
// exhaustive: every 0/1 tensor of the given dimensions; orbits: symmetric tensor with different values per orbit, every subset of one orbit raised
template <class Ten, class F> static void tensors(const S &name, const F &test, const std::function<Ix(Ix)> &orbit, const std::vector<Ix> &full, const std::vector<Ix> &sizes)
{
  for (auto &d : full)
  {
    auto ix = indices(d);
    int parts = ix.size() > 12 ? 8 : 1;
    for (int part = 0; part < parts; part++)
      h.run(name + "/entries " + txt(d) + "/" + std::to_string(part), [=] {
        std::vector<int> rep(ix.size());
        for (size_t i = 0; i < ix.size(); i++)
        {
          auto o = orbit(ix[i]);
          rep[i] = std::find(ix.begin(), ix.end(), o) - ix.begin();
        }
        Ten t;
        shape(t, d);
        for (long c = part; c < (1L << ix.size()) && !bad(); c += parts)
        {
          bool want = true;
          for (size_t i = 0; i < ix.size(); i++) at(t, ix[i]) = (c >> i) & 1, want = want && ((c >> i) & 1) == ((c >> rep[i]) & 1);
          if (!verdict(passes([&] { return test(t); }), want, "tensor " + std::to_string(c))) h.sample(name);
        }
        h.traces++;
      });
  }
  for (auto &d : sizes)
    h.run(name + "/orbits " + txt(d), [=] {
      auto ix = indices(d);
      std::map<Ix, std::vector<Ix>> orb;
      for (auto &i : ix) orb[orbit(i)].push_back(i);
      Ten t;
      shape(t, d);
      int k = 1;
      for (auto &o : orb)
      {
        for (auto &i : o.second) at(t, i) = k;
        k += 2;
      }
      verdict(passes([&] { return test(t); }), true, "symmetric tensor");
      for (auto &o : orb)
      {
        size_t n = o.second.size();
        auto t0  = at(t, o.second[0]);
        // every subset of the orbit (of the large orbits: every subset of at most three entries)
        for (long c = 1; c < (1L << n) && !bad(); c++)
        {
          if (n > 12)
          {
            int b = 0;
            for (size_t i = 0; i < n; i++) b += (c >> i) & 1;
            if (b > 3) { c |= c - 1; continue; } // skip to the next number with fewer bits below the lowest set bit
          }
          for (size_t i = 0; i < n; i++) at(t, o.second[i]) = t0 + ((c >> i) & 1 ? 1. : 0.);
          verdict(passes([&] { return test(t); }), c == (1L << n) - 1, "orbit of " + txt(o.first) + ", subset " + std::to_string(c));
        }
        for (auto &i : o.second) at(t, i) = t0;
      }
      h.traces++;
    });
}
static Ix sorted(Ix i)
{
  std::sort(i.begin(), i.end());
  return i;
}
static Ix pairs(Ix i) // (ab)(ij)
{
  std::sort(i.begin(), i.begin() + 2);
  std::sort(i.begin() + 2, i.end());
  return i;
}
static Ix firsttwo(Ix i)
{
  std::sort(i.begin(), i.begin() + 2);
  return i;
}
static void shapes()
{
  // cubes with one row of another length, on every level
  for (int n = 1; n <= 3; n++)
    for (int m = 0; m <= 4; m++)
      h.run("shapes/" + std::to_string(n) + "-" + std::to_string(m), [=] {
        bool same = n == m;
        for (int i = 0; i < n; i++)
        {
          V3<double> t;
          shape(t, {n, n, n});
          t[i].resize(m, V1<double>(n));
          verdict(passes([&] { return MT::CheckSymmetricTensorScalarThird(t); }), same, "third-rank tensor, second level");
          V4<double> f;
          shape(f, {n, n, n, n});
          f[i].resize(m, V2<double>(n, V1<double>(n)));
          verdict(passes([&] { return MT::CheckSymmetricTensorScalarFourth(f); }), same, "fourth-rank tensor, second level");
          V3<CC> l;
          shape(l, {n, n, 2});
          l[i].resize(m, V1<CC>(2));
          verdict(passes([&] { return MT::CheckSymmetricTensorLeptonsThird(l); }), same, "lepton tensor, second level");
          verdict(passes([&] { return MT::CheckSymmetricTensorQuarksThird(l); }), same, "quark tensor, second level");
          V4<double> g;
          shape(g, {n, n, 2, 2});
          g[i].resize(m, V2<double>(2, V1<double>(2)));
          verdict(passes([&] { return MT::CheckSymmetricTensorGauge(g); }), same, "gauge tensor, second level");
          for (int j = 0; j < n; j++)
          {
            shape(t, {n, n, n});
            t[i][j].resize(m);
            verdict(passes([&] { return MT::CheckSymmetricTensorScalarThird(t); }), same, "third-rank tensor, third level");
            shape(f, {n, n, n, n});
            f[i][j].resize(m, V1<double>(n));
            verdict(passes([&] { return MT::CheckSymmetricTensorScalarFourth(f); }), same, "fourth-rank tensor, third level");
            for (int k = 0; k < n; k++)
            {
              shape(f, {n, n, n, n});
              f[i][j][k].resize(m);
              verdict(passes([&] { return MT::CheckSymmetricTensorScalarFourth(f); }), same, "fourth-rank tensor, fourth level");
            }
            // Higgs dimensions of the gauge tensor
            shape(g, {n, n, 2, 2});
            g[i][j].resize(m, V1<double>(2));
            verdict(passes([&] { return MT::CheckSymmetricTensorGauge(g); }), m == 2, "gauge tensor, third level");
            for (int k = 0; k < 2; k++)
            {
              shape(g, {n, n, 2, 2});
              g[i][j][k].resize(m);
              verdict(passes([&] { return MT::CheckSymmetricTensorGauge(g); }), m == 2, "gauge tensor, fourth level");
            }
          }
        }
        V4<double> g;
        shape(g, {n, n, m, m});
        verdict(passes([&] { return MT::CheckSymmetricTensorGauge(g); }), m != 0, "gauge tensor for " + std::to_string(m) + " scalars");
        h.traces++;
      });
  h.run("shapes/empty", [] {
    verdict(passes([&] { return MT::CheckSymmetricTensorScalarThird({}); }), true, "empty third-rank tensor");
    verdict(passes([&] { return MT::CheckSymmetricTensorScalarFourth({}); }), true, "empty fourth-rank tensor");
    verdict(passes([&] { return MT::CheckSymmetricTensorLeptonsThird({}); }), true, "empty lepton tensor");
    verdict(passes([&] { return MT::CheckSymmetricTensorQuarksThird({}); }), true, "empty quark tensor");
    verdict(passes([&] { return MT::CheckSymmetricTensorGauge({}); }), true, "empty gauge tensor");
    h.traces++;
  });
  h.run("names", [] {
    h.check(MT::TestResultsToString(TR::Pass) == "Pass" && MT::TestResultsToString(TR::Fail) == "Fail", "names of the results");
    h.traces++;
  });
  h.run("ckm", [] {
    // every entry scaled or turned; any common unitary factor keeps the matrix unitary
    for (int e = -1; e < 9; e++)
      for (CC f : {CC(1), CC(1.001), CC(0.5), CC(0), CC(-1), std::polar(1., 0.01), CC(1 + 1e-8)})
        for (int row = 0; row < 2; row++)
        {
          auto sm = GetSMConstants();
          CC *v[9] = {&sm.C_Vud, &sm.C_Vus, &sm.C_Vub, &sm.C_Vcd, &sm.C_Vcs, &sm.C_Vcb, &sm.C_Vtd, &sm.C_Vts, &sm.C_Vtb};
          if (e >= 0 && row) // whole row
            for (int k = 0; k < 3; k++) *v[e / 3 * 3 + k] *= f;
          else if (e >= 0)
            *v[e] *= f;
          double dev = 0;
          for (int a = 0; a < 3; a++)
            for (int b = 0; b < 3; b++)
            {
              CC s = a == b ? -1 : 0;
              for (int k = 0; k < 3; k++) s += std::conj(*v[3 * k + a]) * *v[3 * k + b];
              dev += std::norm(s);
            }
          dev = std::sqrt(dev);
          if (dev > 3e-6 && dev < 3e-5) continue;
          verdict(MT::CheckCKMUnitarity(sm) == TR::Pass, dev < 1e-5, "CKM entry " + std::to_string(e) + " times (" + str(f.real()) + "," + str(f.imag()) + ")" + (row ? " with its row" : "") + ", |V+V-1| = " + str(dev));
        }
    h.traces++;
  });
}

// ---------------------------------------------------------------- models
struct Knobs
{
  int ct = 0, vev = 0, temp = 0, tri = 0, nct = 0;
  double tree = 1, counter = 1;
  bool simpT = false, simpC = false;
  Vec ident;
};
struct Handle
{
  virtual ~Handle() {}
  virtual Class_Potential_Origin &m() = 0;
  virtual Knobs &k()                  = 0;
  virtual V4<double> &gauge()         = 0;
  virtual V3<CC> &quark()             = 0;
  virtual V3<CC> &lepton()            = 0;
  virtual V2<CC> &quark2()            = 0;
  virtual V2<CC> &lepton2()           = 0;
  virtual Vec &l1()                   = 0;
  virtual V2<double> &l2()            = 0;
  virtual V3<double> &l3()            = 0;
  virtual V4<double> &l4()            = 0;
  virtual Vec &vmin()                 = 0;
  virtual bool useT()                 = 0;
  virtual bool useC()                 = 0;
};
static std::vector<S> resize(std::vector<S> v, int d)
{
  if (d < 0) v.resize(v.size() + d);
  for (int i = 0; i < d; i++) v.push_back("extra" + std::to_string(i));
  return v;
}
template <class B> struct Bad : B
{
  Knobs kn;
  Bad() : B(GetSMConstants()) {}
  std::vector<S> addLegendCT() const override { return resize(B::addLegendCT(), kn.ct); }
  std::vector<S> addLegendVEV() const override { return resize(B::addLegendVEV(), kn.vev); }
  std::vector<S> addLegendTemp() const override { return resize(B::addLegendTemp(), kn.temp); }
  std::vector<S> addLegendTripleCouplings() const override { return resize(B::addLegendTripleCouplings(), kn.tri); }
  std::vector<double> calc_CT() const override
  {
    auto r = B::calc_CT();
    r.resize(r.size() + kn.nct);
    return r;
  }
  double VTreeSimplified(const std::vector<double> &v) const override { return kn.tree * B::VTreeSimplified(v); }
  double VCounterSimplified(const std::vector<double> &v) const override { return kn.counter * B::VCounterSimplified(v); }
  std::vector<double> GetCTIdentities() const override { return kn.ident.empty() ? B::GetCTIdentities() : kn.ident; }
};
template <class B> struct HandleT : Handle
{
  struct Open : Bad<B>
  {
    Class_Potential_Origin *base() { return this; }
    V4<double> &g() { return this->Curvature_Gauge_G2H2; }
    V3<CC> &q() { return this->Curvature_Quark_F2H1; }
    V3<CC> &l() { return this->Curvature_Lepton_F2H1; }
    V2<CC> &q2() { return this->Curvature_Quark_F2; }
    V2<CC> &le2() { return this->Curvature_Lepton_F2; }
    Vec &h1() { return this->Curvature_Higgs_L1; }
    V2<double> &h2() { return this->Curvature_Higgs_L2; }
    V3<double> &h3() { return this->Curvature_Higgs_L3; }
    V4<double> &h4() { return this->Curvature_Higgs_L4; }
    Vec &vm() { return this->vevTreeMin; }
    bool ut() { return this->UseVTreeSimplified; }
    bool uc() { return this->UseVCounterSimplified; }
  } o;
  Class_Potential_Origin &m() override { return *o.base(); }
  Knobs &k() override { return o.kn; }
  V4<double> &gauge() override { return o.g(); }
  V3<CC> &quark() override { return o.q(); }
  V3<CC> &lepton() override { return o.l(); }
  V2<CC> &quark2() override { return o.q2(); }
  V2<CC> &lepton2() override { return o.le2(); }
  Vec &l1() override { return o.h1(); }
  V2<double> &l2() override { return o.h2(); }
  V3<double> &l3() override { return o.h3(); }
  V4<double> &l4() override { return o.h4(); }
  Vec &vmin() override { return o.vm(); }
  bool useT() override { return o.ut(); }
  bool useC() override { return o.uc(); }
};
static std::shared_ptr<Handle> handle(const Point &p)
{
  std::shared_ptr<Handle> r;
  const S &n = p.s->name;
  if (n == "SM") r = std::make_shared<HandleT<Models::Class_SM>>();
  if (n == "R2HDM") r = std::make_shared<HandleT<Models::Class_Potential_R2HDM>>();
  if (n == "C2HDM") r = std::make_shared<HandleT<Models::Class_Potential_C2HDM>>();
  if (n == "N2HDM") r = std::make_shared<HandleT<Models::Class_Potential_N2HDM>>();
  if (n == "CxSM") r = std::make_shared<HandleT<Models::Class_CxSM>>();
  if (n == "CPINTHEDARK") r = std::make_shared<HandleT<Models::Class_Potential_CPintheDark>>();
  r->m().initModel(p.par);
  return r;
}
struct Defect
{
  S name;
  std::function<void(Handle &)> f;
};
static std::vector<Defect> defects(size_t nVEV)
{
  std::vector<Defect> d;
  auto add = [&](const S &n, const std::function<void(Handle &)> &f) { d.push_back({n, f}); };
  for (int s : {1, -1})
  {
    S t = s > 0 ? "+1" : "-1";
    add("names of counterterms" + t, [s](Handle &x) { x.k().ct = s; });
    add("names of VEVs" + t, [s](Handle &x) { x.k().vev = s; });
    add("names of results" + t, [s](Handle &x) { x.k().temp = s; });
    add("names of couplings" + t, [s](Handle &x) { x.k().tri = s; });
    add("number of counterterms" + t, [s](Handle &x) { x.k().nct = s; });
    add("identity" + t, [s](Handle &x) { x.k().ident = {0, s * 1e-3, 0}; });
  }
  add("small identity", [](Handle &x) { x.k().ident = {1e-9, -1e-9}; });
  add("gauge coupling", [](Handle &x) { for (auto &a : x.gauge()) for (auto &b : a) for (auto &c : b) for (auto &e : c) e *= 1.001; });
  add("W coupling", [](Handle &x) { for (auto &c : x.gauge()[0][0]) for (auto &e : c) e *= 1.01; });
  add("top coupling", [](Handle &x) { for (auto &a : x.quark()) for (auto &b : a) for (auto &c : b) c *= 1.001; });
  add("tau coupling", [](Handle &x) { for (auto &a : x.lepton()) for (auto &b : a) for (auto &c : b) c *= 1.01; });
  add("lepton phase", [](Handle &x) { for (auto &a : x.lepton()) for (auto &b : a) for (auto &c : b) c *= std::polar(1., 0.7); });
  add("mass parameter", [](Handle &x) { for (size_t i = 0; i < x.l2().size(); i++) x.l2()[i][i] += 200; });
  add("quartic coupling", [](Handle &x) { for (auto &a : x.l4()) for (auto &b : a) for (auto &c : b) for (auto &e : c) e *= 1.05; });
  add("tadpole", [](Handle &x) { for (auto &a : x.l1()) a += 7; });
  add("simplified potential", [](Handle &x) { x.k().tree = 1.01; });
  add("sign of simplified potential", [](Handle &x) { x.k().tree = -1; });
  add("simplified counterterms", [](Handle &x) { x.k().counter = 3; });
  add("counterterms", [](Handle &x) { auto c = x.m().get_parCTStored(); for (auto &e : c) e *= 1.1; x.m().set_CT_Pot_Par(c); });
  for (size_t k = 0; k < 3; k++)
    add("counterterm " + std::to_string(k), [k](Handle &x) { auto c = x.m().get_parCTStored(); c[k] += k == 2 && x.m().get_NHiggs() == 4 ? 50 : c[k] != 0 ? 0.3 * c[k] : 1; x.m().set_CT_Pot_Par(c); });
  add("asymmetric l2", [](Handle &x) { x.l2()[0][1] += 1e-3; });
  add("asymmetric l3", [](Handle &x) { x.l3()[0][1][2] += 1e-6; });
  add("asymmetric l4", [](Handle &x) { x.l4()[3][1][2][0] += 1e-6; });
  add("asymmetric gauge", [](Handle &x) { x.gauge()[1][2][0][3] += 1e-9; });
  add("asymmetric quarks", [](Handle &x) { x.quark()[1][2][0] += CC(0, 1e-9); });
  add("asymmetric leptons", [](Handle &x) { x.lepton()[1][2][0] += CC(0, 1e-9); });
  add("asymmetric quark masses", [](Handle &x) { x.quark2()[1][2] += CC(0, 1e-9); });
  add("asymmetric lepton masses", [](Handle &x) { x.lepton2()[1][2] += CC(1e-9, 0); });
  for (size_t i = 0; i < nVEV; i++)
  {
    add("VEV " + std::to_string(i), [i](Handle &x) { x.vmin()[i] += x.vmin()[i] < 0 ? -3 : 3; });
    add("VEV " + std::to_string(i) + " sign", [i](Handle &x) { x.vmin()[i] *= -1; });
  }
  return d;
}
// what each test claims, evaluated from the definition: 1 holds, 0 violated, -1 too close to call
static int within(double x, double lo, double hi) { return !(x == x) ? -1 : x < lo ? 1 : x > hi ? 0 : -1; }
static bool sym2(const V2<CC> &t)
{
  for (size_t i = 0; i < t.size(); i++)
    for (size_t j = 0; j < t.size(); j++)
      if (t[i][j] != t[j][i]) return false;
  return true;
}
static std::map<S, int> claims(Handle &x, const Vec &trueVEV)
{
  auto &m = x.m();
  std::map<S, int> r;
  size_t n = m.get_NHiggs();
  r["CT number/label match"]                            = m.addLegendCT().size() == m.get_nParCT();
  r["VEV number/label match"]                           = m.addLegendVEV().size() == m.get_nVEV();
  r["addLegendTemp number/label match"]                 = m.addLegendTemp().size() == m.get_nVEV() + 3;
  r["addLegendTripleCouplings number/label match"]      = m.addLegendTripleCouplings().size() == n * (n + 1) * (n + 2) / 2;
  r["CKM matrix unitarity"]                             = 1;
  r["number"]                                           = m.calc_CT().size() == m.get_nParCT();
  double id = 0;
  for (double y : m.GetCTIdentities()) id = std::max(id, std::abs(y));
  r["identities"] = within(id, 1e-6, 1e-4);
  Vec w(n, 0.);
  auto ord = m.Get_VevOrder();
  for (size_t i = 0; i < ord.size(); i++) w[ord[i]] = x.vmin()[i];
  const auto &sm = m.SMConstants;
  auto sq        = [](double a) { return a * a; };
  {
    Mat g = Mat::Zero(4, 4);
    for (int a = 0; a < 4; a++)
      for (int b = 0; b < 4; b++)
        for (size_t i = 0; i < n; i++)
          for (size_t j = 0; j < n; j++) g(a, b) += 0.5 * x.gauge()[a][b][i][j] * w[i] * w[j];
    Eigen::SelfAdjointEigenSolver<Mat> es((g + g.transpose()) / 2);
    Vec want{0, sq(sm.C_MassW), sq(sm.C_MassW), sq(sm.C_MassZ)};
    double d = std::abs(es.eigenvalues()[0]) > 1e-5 ? std::abs(es.eigenvalues()[0]) : 0;
    for (int i = 1; i < 4; i++) d += std::abs(es.eigenvalues()[i] - want[i]) / want[i];
    r["Matching gauge boson masses with SMparam.h"] = within(d, 1e-6, 1e-4);
  }
  auto fermions = [&](const V3<CC> &y, const V2<CC> &y0, Vec want) {
    size_t N = y.size();
    Eigen::MatrixXcd M(N, N);
    for (size_t a = 0; a < N; a++)
      for (size_t b = 0; b < N; b++)
      {
        M(a, b) = y0[a][b];
        for (size_t k = 0; k < n; k++) M(a, b) += y[a][b][k] * w[k];
      }
    Eigen::SelfAdjointEigenSolver<Eigen::MatrixXcd> es(M * M.adjoint());
    std::sort(want.begin(), want.end());
    double d = 0;
    for (size_t a = 0; a < N; a++) d += std::abs(es.eigenvalues()[a] - want[a]);
    return within(d, 1e-6, 1e-4);
  };
  Vec le{0, 0, 0}, qu;
  for (double q : {sm.C_MassElectron, sm.C_MassMu, sm.C_MassTau}) le.push_back(q * q), le.push_back(q * q);
  for (double q : {sm.C_MassUp, sm.C_MassCharm, sm.C_MassTop, sm.C_MassDown, sm.C_MassStrange, sm.C_MassBottom}) qu.push_back(q * q), qu.push_back(q * q);
  r["Matching lepton masses with SMparam.h"] = fermions(x.lepton(), x.lepton2(), le);
  r["Matching quark masses with SMparam.h"]  = fermions(x.quark(), x.quark2(), qu);
  double vd = 0;
  for (size_t i = 0; i < trueVEV.size(); i++) vd += std::abs(std::abs(trueVEV[i]) - std::abs(x.vmin()[i]));
  r["Correct EW Minimum"] = within(vd, 0.05, 2);
  Mat M(n, n);
  double tad = 0;
  for (size_t i = 0; i < n; i++)
  {
    double t = x.l1()[i];
    for (size_t j = 0; j < n; j++)
    {
      t += x.l2()[i][j] * w[j];
      M(i, j) = x.l2()[i][j];
      for (size_t k = 0; k < n; k++)
      {
        t += x.l3()[i][j][k] * w[j] * w[k] / 2;
        M(i, j) += x.l3()[i][j][k] * w[k];
        for (size_t l = 0; l < n; l++) t += x.l4()[i][j][k][l] * w[j] * w[k] * w[l] / 6, M(i, j) += x.l4()[i][j][k][l] * w[k] * w[l] / 2;
      }
    }
    tad += std::abs(t);
  }
  r["Tadpole relations fullfilled"] = within(tad, 5e-6, 1e-4);
  auto g1 = m.WeinbergFirstDerivative();
  Mat g2  = m.WeinbergSecondDerivativeAsMatrixXd();
  auto c1 = m.NablaVCT(w);
  Mat c2  = m.HessianCT(w);
  double d1 = 0, d2 = 0;
  for (size_t i = 0; i < n; i++)
  {
    d1 = std::max(d1, std::abs(g1[i] + c1(i)));
    for (size_t j = 0; j < n; j++) d2 = std::max(d2, std::abs(g2(i, j) + c2(i, j)));
  }
  r["Checking first derivative of CW+CT"]  = within(d1, 8e-6, 1.2e-5);
  r["Checking second derivative of CW+CT"] = within(d2, 8e-6, 1.2e-5);
  {
    Eigen::SelfAdjointEigenSolver<Mat> a(M), b(M + c2 + g2);
    double d = 0;
    for (size_t i = 0; i < n; i++)
    {
      double p = a.eigenvalues()[i], q = b.eigenvalues()[i];
      if (std::abs(p) < 1e-5) p = 0;
      if (std::abs(q) < 1e-5) q = 0;
      if ((p == 0) != (q == 0) && std::max(std::abs(p), std::abs(q)) < 1e-4) { d = NAN; break; }
      if (p != 0 || q != 0) d += std::abs(std::abs(q) - p) / std::max(std::abs(p), std::abs(q));
    }
    bool clean = (M - M.transpose()).norm() < 1e-12;
    r["Matching Masses between NLO and tree-level"] = clean ? within(d, 0.45, 0.55) : -1;
  }
  // the simplified expressions are those of the model times a known factor
  r["Checking VTreeSimplified"]    = -1;
  r["Checking VCounterSimplified"] = -1;
  bool s3 = true, s4 = true, s2 = true, sg = true, sl = true, sq3 = true;
  for (size_t i = 0; i < n; i++)
    for (size_t j = 0; j < n; j++)
    {
      s2 = s2 && x.l2()[i][j] == x.l2()[j][i];
      for (size_t k = 0; k < n; k++)
      {
        s3 = s3 && x.l3()[i][j][k] == x.l3()[j][i][k] && x.l3()[i][j][k] == x.l3()[i][k][j];
        for (size_t l = 0; l < n; l++) s4 = s4 && x.l4()[i][j][k][l] == x.l4()[j][i][k][l] && x.l4()[i][j][k][l] == x.l4()[i][k][j][l] && x.l4()[i][j][k][l] == x.l4()[i][j][l][k];
      }
      for (int a = 0; a < 4; a++)
        for (int b = 0; b < 4; b++) sg = sg && x.gauge()[a][b][i][j] == x.gauge()[b][a][i][j] && x.gauge()[a][b][i][j] == x.gauge()[a][b][j][i];
    }
  for (size_t a = 0; a < x.lepton().size(); a++)
    for (size_t b = 0; b < x.lepton().size(); b++) sl = sl && x.lepton()[a][b] == x.lepton()[b][a];
  for (size_t a = 0; a < x.quark().size(); a++)
    for (size_t b = 0; b < x.quark().size(); b++) sq3 = sq3 && x.quark()[a][b] == x.quark()[b][a];
  r["Check symmetric properties of the scalar tensor Lij"]              = s2;
  r["Check symmetric properties of the scalar tensor Lijk"]             = s3;
  r["Check symmetric properties of the scalar tensor Lijkl"]            = s4;
  r["Check symmetric properties of the gauge tensor in the C2HDM"]      = sg;
  r["Check symmetric properties of the Lepton tensor in the C2HDM"]     = sl;
  r["Check symmetric properties of the mass Lepton tensor in the C2HDM"] = sym2(x.lepton2());
  r["Check symmetric properties of the Quark tensor in the C2HDM"]      = sq3;
  r["Check symmetric properties of the mass Quark tensor in the C2HDM"] = sym2(x.quark2());
  return r;
}
static std::map<S, int> verdicts(Handle &x)
{
  auto &m = x.m();
  std::map<S, int> r;
  auto b = [](TR t) { h.transitions++; return t == TR::Pass ? 1 : 0; };
  r["CT number/label match"]                       = b(MT::CheckNumberOfCTParameters(m));
  r["VEV number/label match"]                      = b(MT::CheckNumberOfVEVLabels(m));
  r["addLegendTemp number/label match"]            = b(MT::CheckLegendTemp(m));
  r["addLegendTripleCouplings number/label match"] = b(MT::CheckNumberOfTripleCouplings(m));
  r["number"]                                      = b(MT::CheckCTNumber(m));
  r["identities"]                                  = b(MT::CheckCTIdentities(m));
  r["Matching gauge boson masses with SMparam.h"]  = b(MT::CheckGaugeBosonMasses(m));
  auto f                                           = MT::CheckFermionicMasses(m);
  r["Matching lepton masses with SMparam.h"]       = b(f.first);
  r["Matching quark masses with SMparam.h"]        = b(f.second);
  r["Tadpole relations fullfilled"]                = b(MT::CheckTadpoleRelations(m));
  r["Matching Masses between NLO and tree-level"]  = b(MT::CheckNLOMasses(m));
  r["Checking first derivative of CW+CT"]          = b(MT::CheckCTConditionsFirstDerivative(m));
  r["Checking second derivative of CW+CT"]         = b(MT::CheckCTConditionsSecondDerivative(m));
  r["Checking VTreeSimplified"]                    = b(MT::CheckVTreeSimplified(m));
  r["Checking VCounterSimplified"]                 = b(MT::CheckVCounterSimplified(m));
  return r;
}
static void simplified(Handle &x, std::map<S, int> &want, bool tensors, bool counters)
{
  // a simplified potential that is the model's is accepted, one that is off is rejected -- as long as the tensors are untouched
  if (!tensors) want["Checking VTreeSimplified"] = !x.useT() || x.k().tree == 1;
  if (!counters) want["Checking VCounterSimplified"] = !x.useC() || x.k().counter == 1;
}
static void compare(const std::map<S, int> &got, const std::map<S, int> &want, const S &what)
{
  for (auto &g : got)
  {
    auto w = want.find(g.first);
    if (w == want.end() || w->second < 0) continue;
    h.evaluations++;
    h.outcome(g.first + (w->second ? " holds" : " violated"));
    if (w->second != g.second) h.fail(what + ": the self test '" + g.first + "' says " + (g.second ? "Pass" : "Fail") + ", the claim is " + (w->second ? "true" : "false"));
  }
}
// the printed table
static std::map<S, int> table(Handle &x)
{
  std::stringstream ss;
  Logger::SetOStream(ss);
  h.transitions++;
  x.m().CheckImplementation(Minimizer::WhichMinimizerDefault);
  Logger::SetOStream(std::cout);
  std::map<S, int> r;
  S l;
  int pass = 0, all = 0;
  bool sum = false, good = false, failed = false;
  while (std::getline(ss, l))
  {
    auto b = l.find("| ");
    if (b != S::npos && (l.substr(b + 2) == "Pass" || l.substr(b + 2) == "Fail"))
    {
      S n = l.substr(0, b);
      while (n.size() && n.back() == ' ') n.pop_back();
      h.check(!r.count(n), "test '" + n + "' is listed once");
      r[n] = l.substr(b + 2) == "Pass";
      pass += r[n];
      all++;
    }
    if (l == std::to_string(pass) + " tests out of " + std::to_string(all) + " passed." && all) sum = true;
    if (l.find("good to go") != S::npos) good = true;
    if (l == std::to_string(all - pass) + " tests failed. Please check and try again.") failed = true;
  }
  h.check(all >= 20, "the table lists the tests");
  h.check(sum, "the number of passed tests is printed (" + std::to_string(pass) + " of " + std::to_string(all) + ")");
  h.check(good == (pass == all) && failed == (pass != all), "the summary agrees with the table: " + std::to_string(pass) + " of " + std::to_string(all));
  return r;
}
static const std::set<S> touchesTree{"mass parameter", "quartic coupling", "tadpole", "asymmetric l2", "asymmetric l3", "asymmetric l4"};
static bool isCT(const S &n) { return n.find("counterterm") == 0 && n.find("names") == S::npos; }
static void model(const Point &p, const std::vector<int> &which, const S &what, bool full)
{
  auto x   = handle(p);
  auto d   = defects(p.s->nVEV);
  Vec vt   = x->vmin();
  bool tensors = false, counters = false, zeroct = true;
  for (double c : x->m().get_parCTStored()) zeroct = zeroct && c == 0;
  for (int i : which)
  {
    d[i].f(*x);
    tensors  = tensors || touchesTree.count(d[i].name);
    counters = counters || isCT(d[i].name) || zeroct;
  }
  h.states++;
  auto want = claims(*x, vt);
  simplified(*x, want, tensors, counters);
  auto got = verdicts(*x);
  compare(got, want, what);
  if (full)
  {
    auto t = table(*x);
    compare(t, want, what + " (table)");
    for (auto &g : got)
      if (t.count(g.first)) h.check(t[g.first] == g.second, what + ": table and test '" + g.first + "' disagree");
  }
  h.traces++;
}

void run_all()
{
  Logger::Disable();
  Logger::SetLevel(LoggingLevel::Default, true);
  static std::ostringstream sink;
  Logger::SetOStream(sink);
  using CT3 = V3<CC>;
  second<double>("second", [](const V2<double> &t) { return MT::CheckSymmetricTensorScalarSecond(t); }, 4);
  second<CC>("leptons", [](const V2<CC> &t) { return MT::CheckSymmetricTensorLeptons(t); }, 4);
  second<CC>("quarks", [](const V2<CC> &t) { return MT::CheckSymmetricTensorQuarks(t); }, 4);
  tensors<V3<double>>("third", [](const V3<double> &t) { return MT::CheckSymmetricTensorScalarThird(t); }, sorted, {{1, 1, 1}, {2, 2, 2}}, {{3, 3, 3}, {4, 4, 4}});
  tensors<V4<double>>("fourth", [](const V4<double> &t) { return MT::CheckSymmetricTensorScalarFourth(t); }, sorted, {{1, 1, 1, 1}, {2, 2, 2, 2}}, {{3, 3, 3, 3}, {4, 4, 4, 4}});
  for (int q = 0; q < 2; q++)
    tensors<CT3>(q ? "quark couplings" : "lepton couplings", [q](const CT3 &t) { return q ? MT::CheckSymmetricTensorQuarksThird(t) : MT::CheckSymmetricTensorLeptonsThird(t); }, firsttwo, {{1, 1, 2}, {2, 2, 1}, {2, 2, 2}, {3, 3, 1}}, {{3, 3, 3}, {4, 4, 2}, {2, 2, 5}});
  tensors<V4<double>>("gauge", [](const V4<double> &t) { return MT::CheckSymmetricTensorGauge(t); }, pairs, {{1, 1, 2, 2}, {2, 2, 1, 1}, {2, 2, 2, 2}}, {{3, 3, 2, 2}, {2, 2, 3, 3}, {4, 4, 4, 4}});
  shapes();
  // every model and point without a defect
  int np = 0;
  for (auto &p : all_points(h.thorough))
    if (h.thorough || p.s->nH <= 6 || np++ % 2 == 0) h.run("model/" + p.key, [=] { model(p, {}, p.key, false); });
  // defects, one and two at a time
  std::map<S, int> seen;
  for (auto &p : all_points(h.thorough))
  {
    int nth = seen[p.s->name]++;
    if (nth >= (h.thorough ? 3 : 1)) continue;
    auto d = defects(p.s->nVEV);
    for (int i = -1; i < (int)d.size(); i++) h.run("table/" + p.key + "/" + (i < 0 ? S("none") : d[i].name), [=] { model(p, i < 0 ? std::vector<int>{} : std::vector<int>{i}, p.key + " with defect: " + (i < 0 ? S("none") : defects(p.s->nVEV)[i].name), true); });
    for (int i = 0; i < (int)d.size(); i++)
      for (int j = i + 1; j < (int)d.size(); j++)
        if (h.thorough || (p.s->nH <= 6 && (i + j) % 2 == 0)) h.run("two/" + p.key + "/" + d[i].name + "+" + d[j].name, [=] { auto d = defects(p.s->nVEV); model(p, {i, j}, p.key + " with defects: " + d[i].name + ", " + d[j].name, false); });
  }
  h.assumptions = {"thresholds of the self tests (1e-5 relative mass deviation, 0.5 GeV for the vacuum, 0.5 for the sum of relative mass shifts) are part of the specification; quantities within a band around a threshold are not judged", "an argument refused with an exception counts as rejected"};
}
