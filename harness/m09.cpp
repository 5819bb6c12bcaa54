// M09: VEV ordering and legends are consistent; symmetric-limit operations act on exactly the electroweak components
#include "models.h"
#include "toy.h"
HARNESS_MAIN
using namespace mo;

static std::string low(std::string s)
{
  std::string r;
  for (char c : s)
    if (c != '{' && c != '}' && c != '_') r += tolower(c);
  return r;
}
// which physical direction a VEV coordinate is
static std::string role(const Spec &s, size_t i)
{
  Vec x(s.nH, 0.);
  x[s.order[i]] = std::sqrt(2.);
  auto f = s.fields(x);
  for (size_t d = 0; d < f.d.size(); d++)
  {
    if (std::abs(f.d[d][0]) > 0.5) return "cb";
    if (std::abs(f.d[d][1].imag()) > 0.5) return "cp";
    if (std::abs(f.d[d][1].real()) > 0.5) return f.d.size() == 1 ? "" : std::to_string(d + 1);
  }
  if (f.s.size() > 1 && std::abs(f.s[1]) > 0.5) return "a";
  return "s";
}
static void legends(const Spec &s, const Point &p)
{
  auto m = make(p);
  h.states++;
  h.check(m->get_nVEV() == s.nVEV && m->get_NHiggs() == s.nH && m->get_nPar() == s.nPar && m->get_nParCT() == s.nCT, "dimensions of the model");
  h.check(m->Get_VevOrder() == s.order, "VEV directions");
  // counterterms: the k-th name belongs to the k-th number.  The meaning of the numbers follows from the counterterm potential.
  auto ct = m->addLegendCT();
  h.check(ct.size() == s.nCT, "number of counterterm names");
  Oracle o(p);
  for (size_t k = 0; k < s.nCT && k < ct.size(); k++)
  {
    h.transitions++;
    h.check(low(ct[k]) == low(s.legCT[k]), "counterterm column " + std::to_string(k) + " holds " + s.legCT[k] + " but is called " + ct[k]);
    Vec u(s.nCT, 0.);
    u[k]  = 1;
    o.pct = u;
    m->set_CT_Pot_Par(u);
    for (size_t a = 0; a < s.nH; a++)
      for (size_t b = a; b < s.nH; b++)
      {
        Vec x(s.nH, 0.);
        x[a] += 3;
        x[b] += 5;
        for (size_t c = 0; c < s.nH; c++) x[c] += 0.01 * (c + 1);
        if (!h.close(m->CounterTerm(x, 0, true), o.ct(x), 1e-9, 1e-9, "counterterm " + ct[k] + " contributes to the potential as")) { a = s.nH; break; }
      }
  }
  m->set_CT_Pot_Par(m->get_parCTStored());
  // VEVs
  auto lv = m->addLegendVEV(), lt = m->addLegendTemp();
  h.check(lv.size() == s.nVEV, "number of VEV names");
  h.check(lt.size() == s.nVEV + 3, "number of columns for the critical temperature");
  std::set<std::string> seen;
  for (size_t i = 0; i < s.nVEV && i < lv.size() && i + 3 < lt.size(); i++)
  {
    h.transitions++;
    auto r = role(s, i);
    h.check(low(lv[i]) == "omega" + r, "VEV column " + std::to_string(i) + " is the direction '" + r + "' but is called " + lv[i]);
    auto t = low(lt[i + 3]);
    if (t.size() > 5 && t.substr(t.size() - 4) == "(tc)") t = t.substr(0, t.size() - 4);
    else if (t.back() == 'c') t = t.substr(0, t.size() - 1);
    h.check(t == "omega" + r, "column of the VEV at Tc " + std::to_string(i) + " is the direction '" + r + "' but is called " + lt[i + 3]);
    h.check(seen.insert(lv[i]).second, "VEV name used twice");
  }
  h.check(low(lt[0]) == "tc", "critical temperature first");
  h.check(low(lt[1]).back() == 'c' && lt[1].find("/") == std::string::npos && lt[2].find("/T_c") != std::string::npos, "critical VEV and its ratio to the critical temperature");
  // trilinear couplings
  static const std::map<std::string, std::vector<std::string>> parts{
      {"SM", {"G+", "G-", "G0", "H"}}, {"R2HDM", {"G^+", "G^-", "H^+", "H^-", "G^0", "A", "h", "H"}}, {"C2HDM", {"G^+", "G^-", "H^+", "H^-", "G^0", "h_1", "h_2", "h_3"}},
      {"N2HDM", {"G^+", "G^-", "H^+", "H^-", "G^0", "A", "h_SM", "h_l", "h_H"}}, {"CxSM", {"G+", "G-", "G0", "H1", "H2", "H3"}},
      {"CPINTHEDARK", {"G^+", "G^-", "H^+", "H^-", "h", "G^0", "h_1", "h_2", "h_3"}}};
  auto strip = [](std::string x) { x.erase(std::remove_if(x.begin(), x.end(), [](char c) { return c == '^' || c == '_'; }), x.end()); return x; };
  auto tr = m->addLegendTripleCouplings();
  size_t n = 0;
  auto &q = parts.at(s.name);
  for (size_t i = 0; i < s.nH; i++)
    for (size_t j = i; j < s.nH; j++)
      for (size_t k = j; k < s.nH; k++)
        for (std::string w : {"Tree_", "CT_", "CW_"})
        {
          h.transitions++;
          h.check(n < tr.size() && strip(tr[n]) == strip(w + q[i] + q[j] + q[k]), "name of the trilinear coupling column " + std::to_string(n) + " should be " + w + q[i] + q[j] + q[k]);
          n++;
        }
  h.check(tr.size() == n, "number of trilinear coupling columns");
  h.traces++;
  h.outcome(s.name + " legends");
  if (h.samples.size() < 3) h.sample(s.name + " " + join(lv, " ") + " | " + join(ct, " "));
}
static void order(const Spec &s, const Point &p)
{
  auto m = make(p);
  h.states++;
  int lev = s.nVEV <= 3 ? 5 : 3;
  const double val[5] = {0, 150, -33, 0.2, -0.4};
  std::vector<int> k(s.nVEV, 0);
  while (true)
  {
    Vec v(s.nVEV);
    for (size_t i = 0; i < v.size(); i++) v[i] = val[k[i]] * (1 + 0.01 * i);
    h.transitions++;
    auto x = m->MinimizeOrderVEV(v);
    h.check(x.size() == s.nH, "length of the field configuration");
    Vec back;
    double ew = 0;
    for (size_t i = 0; i < s.nH; i++)
    {
      auto it = std::find(s.order.begin(), s.order.end(), i);
      h.same(x[i], it == s.order.end() ? 0. : v[it - s.order.begin()], "field " + std::to_string(i) + " of the configuration " + str(v));
    }
    auto f = s.fields(x);
    for (auto &d : f.d) ew += 2 * abs2(d);
    ew = std::sqrt(ew);
    if (std::abs(ew - 0.5) > 1e-6) h.close(m->EWSBVEV(x), ew <= 0.5 ? 0. : ew, 1e-12, 1e-12, "electroweak VEV of " + str(v));
    auto z = v;
    m->SetEWVEVZero(z);
    for (size_t i = 0; i < s.nVEV; i++) h.same(z[i], role(s, i)[0] == 's' || role(s, i)[0] == 'a' ? v[i] : 0., "symmetric limit of entry " + std::to_string(i) + " of " + str(v));
    // distance from the tree-level minimum, up to signs
    bool near = true;
    auto w    = s.vev(p.par);
    for (double eps : {0., 0.9, -0.9, 1.1, -1.1})
      for (size_t i = 0; i < s.nVEV; i++)
        for (int sg = 0; sg < 2; sg++)
        {
          auto u = w;
          if (sg) for (auto &a : u) a = -a;
          u[i] += (u[i] < 0 ? -1 : 1) * eps;
          if (u[i] * (sg ? -w[i] : w[i]) < 0 && std::abs(eps) > 1 && std::abs(w[i]) < 3) continue;
          h.check(m->CheckNLOVEV(u) == (std::abs(std::abs(u[i]) - std::abs(w[i])) < 1), "vacuum recognised at a distance " + str(eps));
        }
    (void)near;
    size_t i = 0;
    while (i < s.nVEV && ++k[i] == lev) k[i++] = 0;
    if (i == s.nVEV || h.violations.size() > 10) break;
  }
  h.traces++;
  h.outcome(s.name + " order");
}
// user models: every arrangement of doublet/singlet fields and VEV directions
static void user(size_t n)
{
  for (int ew = 0; ew < (1 << n); ew++)
    for (int vv = 1; vv < (1 << n); vv++)
    {
      std::vector<size_t> ord;
      for (size_t i = 0; i < n; i++)
        if (vv >> i & 1) ord.push_back(i);
      toy::Model m(ord.size(), [](const Vec &, double) { return 0.; }, Vec(ord.size(), 0.), n);
      m.VevOrder = ord;
      m.NGauge   = 4;
      m.initVectors();
      for (size_t i = 0; i < n; i++)
        for (size_t j = 0; j < 4; j++) m.Curvature_Gauge_G2H2[j][j][i][i] = ew >> i & 1 ? (j == 3 ? 0.06 : 0.2) : 0;
      h.states++;
      Vec v(ord.size());
      for (size_t i = 0; i < v.size(); i++) v[i] = 10. * (i + 1) * (i % 2 ? -1 : 1);
      auto x = m.MinimizeOrderVEV(v);
      double e = 0;
      Vec want(n, 0.), z = v;
      for (size_t i = 0; i < ord.size(); i++) want[ord[i]] = v[i];
      for (size_t i = 0; i < n; i++)
        if (ew >> i & 1) e += want[i] * want[i];
      h.transitions += 3;
      std::string nm = "doublet fields " + std::to_string(ew) + ", VEV fields " + std::to_string(vv) + " of " + std::to_string(n);
      if (!h.check(x == want, "configuration for " + nm)) return;
      m.Class_Potential_Origin::SetEWVEVZero(z);
      for (size_t i = 0; i < ord.size(); i++)
        if (!h.same(z[i], ew >> ord[i] & 1 ? 0. : v[i], "symmetric limit, entry " + std::to_string(i) + ", " + nm)) return;
      if (!h.close(m.Class_Potential_Origin::EWSBVEV(x), std::sqrt(e), 1e-12, 1e-12, "electroweak VEV, " + nm)) return;
      h.traces++;
    }
  h.outcome("user models " + std::to_string(n));
}
void run_all()
{
  Logger::Disable();
  for (auto &s : specs())
  {
    auto ps = points(s.name, h.thorough);
    for (size_t i = 0; i < ps.size(); i += h.thorough ? 3 : 8)
    {
      h.run("legend:" + ps[i].key, [&] { legends(s, ps[i]); });
      h.run("order:" + ps[i].key, [&] { order(s, ps[i]); });
    }
  }
  for (size_t n = 1; n <= (h.thorough ? 7 : 6); n++) h.run("user:" + std::to_string(n), [n] { user(n); });
  h.assumptions = {"VEV directions are declared in ascending field order, as all shipped models do and the template asks for"};
}
