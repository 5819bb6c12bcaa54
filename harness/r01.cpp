// R01: the report of the transition tracer.
#include "bounce1d.h"
#include "toy.h"
#include "gwref.h"
#include <BSMPT/transition_tracer/transition_tracer.h>
using namespace BSMPT;

// V = D (T^2 - t0) x^2 - (E T + e) |x|^3 + lam/4 x^4: straight bounces between 0 and the broken minimum
struct Cub
{
  double D, t0, E, e, lam;
  double be(double T) const { return 3 * (E * T + e); }
  double c(double T) const { return 2 * D * (T * T - t0); }
  double V(double x, double T) const { return (c(T) / 2 - be(T) / 3 * std::abs(x) + lam / 4 * x * x) * x * x; }
  double dT(double x, double T) const { return 2 * D * T * x * x - E * std::abs(x * x * x); }
  double disc(double T) const { return be(T) * be(T) - 4 * lam * c(T); }
  bool sym(double T) const { return c(T) > 0; }
  bool bro(double T) const { return disc(T) > 0 && be(T) + std::sqrt(disc(T)) > 1e-9; }
  double v(double T) const { return (be(T) + std::sqrt(std::max(0., disc(T)))) / 2 / lam; }
  double b(double T) const { return (be(T) - std::sqrt(std::max(0., disc(T)))) / 2 / lam / v(T); }
  double S(double T) const
  {
    double q = b(T);
    if (!(q > 0)) return 0;
    if (q >= 0.5) return 1e300;
    if (q < 0.01) return unitAction(0.01) * std::sqrt(q / 0.01) * v(T) / std::sqrt(lam);
    return unitAction(std::min(q, 0.49999)) * v(T) / std::sqrt(lam);
  }
};
struct Fam
{
  std::string name;
  std::vector<Cub> d;
  double V(const Vec &x, double T) const
  {
    double r = 0;
    for (size_t i = 0; i < d.size(); i++) r += d[i].V(x[i], T);
    return r;
  }
  double dT(const Vec &x, double T) const
  {
    double r = 0;
    for (size_t i = 0; i < d.size(); i++) r += d[i].dT(x[i], T);
    return r;
  }
  // the minimum of the same branch (which directions are broken)
  Vec at(int m, double T) const
  {
    Vec r;
    for (size_t i = 0; i < d.size(); i++) r.push_back(m >> i & 1 ? d[i].v(T) : 0);
    return r;
  }
  bool exists(int m, double T) const
  {
    for (size_t i = 0; i < d.size(); i++)
      if (!(m >> i & 1 ? d[i].bro(T) : d[i].sym(T))) return false;
    return true;
  }
  Vec tree() const
  {
    Vec r;
    for (auto &q : d)
    {
      bool b = q.bro(0) && (!q.sym(0) || q.V(q.v(0), 0) < 0);
      r.push_back(b ? q.v(0) : 0);
    }
    return r;
  }
  int branch(const Vec &x) const
  {
    int m = 0;
    for (size_t i = 0; i < d.size(); i++)
      if (std::abs(x[i]) > 1) m |= 1 << i;
    return m;
  }
};
static double dist(const Vec &a, const Vec &b)
{
  double r = 0;
  for (size_t i = 0; i < a.size(); i++) r += std::pow(std::abs(a[i]) - std::abs(b[i]), 2);
  return std::sqrt(r);
}
struct Opt
{
  double vwall = 0.95, perc = 0.71, compl_ = 0.01, eps = 0.1;
  int mode = -1, ewsr = 0, nlo = 1, which = 3;
  bool gw = true;
  std::string str_() const { return "vw" + str(vwall) + "p" + str(perc) + "c" + str(compl_) + "m" + std::to_string(mode) + "e" + std::to_string(ewsr) + "n" + std::to_string(nlo) + "w" + std::to_string(which) + (gw ? "g" : ""); }
};
static std::vector<std::string> legend(const std::vector<std::string> &vev, int pairs, bool gw)
{
  std::vector<std::string> r = {"status_nlo_stability", "status_ewsr", "status_tracing", "status_coex_pairs", "runtime"};
  for (int i = 0; i < pairs; i++)
  {
    std::string s = "_" + std::to_string(i);
    auto block    = [&](const std::string &n) {
      r.push_back("T_" + n + s);
      for (std::string k : {"_false", "_true"})
        for (auto &v : vev) r.push_back(v + "_" + n + k + s);
    };
    r.push_back("status_crit" + s);
    block("crit");
    r.push_back("status_bounce_sol" + s);
    for (std::string n : {"nucl_approx", "nucl", "perc", "compl"}) r.push_back("status_" + n + s), block(n);
    if (gw)
      for (std::string n : {"status_gw", "trans_temp", "v_wall", "alpha_PT", "beta/H", "K_sw", "fpeak_sw", "h2OmegaPeak_sw", "SNR(LISA-3yrs)_sw", "K_turb", "fpeak_turb", "h2OmegaPeak_turb", "SNR(LISA-3yrs)_turb", "SNR(LISA-3yrs)"}) r.push_back(n + s);
  }
  r.push_back("transition_history");
  return r;
}
// independent characteristic temperatures of a transition in one direction
struct Char
{
  const Cub &q;
  double gs, lo, hi; // range of temperatures with 0 < b < 1/2
  double H(double T) const { return M_PI * std::sqrt(gs / 90) * T * T / 2.4e18; }
  double lnGH(double T) const
  {
    double s = q.S(T);
    return 1.5 * std::log(s / (2 * M_PI * T)) - s / T + 4 * std::log(T) - 4 * std::log(H(T));
  }
  template <class F> double highest(F f) const // highest temperature where f changes sign
  {
    double p = f(hi * (1 - 1e-9));
    int N    = 3000;
    for (int i = 1; i <= N; i++)
    {
      double T = hi - (hi - lo) * i / N, x = f(std::max(T, lo + 1e-6));
      if ((x > 0) != (p > 0))
      {
        double a = T, b = T + (hi - lo) / N;
        for (int k = 0; k < 60; k++)
        {
          double m = (a + b) / 2;
          ((f(m) > 0) == (x > 0) ? a : b) = m;
        }
        return (a + b) / 2;
      }
    }
    return -1;
  }
  double I(double T, double vw) const
  {
    double C = H(1), sum = 0;
    int N    = 600;
    for (int i = 0; i < N; i++)
    {
      double u = (i + 0.5) / N, t = T + (hi - T) * u * u, s = q.S(t);
      if (s / t > 600) continue;
      sum += 2 * (hi - T) * u / N * std::pow(s / (2 * M_PI * t), 1.5) * std::exp(-s / t) / H(t) * std::pow((1 / T - 1 / t) / C, 3);
    }
    return 4 * M_PI / 3 * vw * vw * vw * sum;
  }
};
static void report(const Fam &f, const Opt &o, double shift)
{
  size_t n = f.d.size();
  auto tree = f.tree();
  if (shift) tree[0] += shift;
  auto tm = std::make_shared<toy::Model>(n, [f](const Vec &x, double T) { return f.V(x, T); }, tree);
  tm->dTV = [f](const Vec &x, double T) { return f.dT(x, T); };
  std::shared_ptr<Class_Potential_Origin> m = tm;
  user_input in;
  in.modelPointer = m;
  in.vwall = o.vwall, in.perc_prbl = o.perc, in.compl_prbl = o.compl_, in.epsturb = o.eps, in.multistepmode = o.mode, in.ewsr_check = o.ewsr, in.nlo_check = o.nlo, in.which_transition_temp = o.which, in.gw_calculation = o.gw;
  in.which_minimizer = 1;
  TransitionTracer t(in);
  auto &r = t.output_store;
  auto &s = r.status;
  h.states++;
  // gates
  bool stable = !shift;
  h.check(s.status_nlo_stability == (o.nlo ? stable ? StatusNLOStability::Success : StatusNLOStability::NoNLOStability : StatusNLOStability::Off), "NLO stability: " + StatusNLOStabilityToString.at(s.status_nlo_stability));
  bool go = !o.nlo || stable;
  std::string cls;
  if (!go)
    h.check(s.status_ewsr == StatusEWSR::NotSet, "nothing is calculated for unstable points");
  else if (!o.ewsr)
    h.check(s.status_ewsr == StatusEWSR::Off, "restoration check is off");
  else
  {
    MinimumTracer mt(m, 1, false);
    int v = mt.IsThereEWSymmetryRestoration();
    h.check(s.status_ewsr == mt.GetStatusEWSR(v), "status of the restoration");
    if (o.ewsr == 2 && v < 2) go = false;
    if (o.ewsr == 3 && v < 3) go = false;
    cls += " ewsr" + std::to_string(v);
  }
  auto vevs = m->addLegendVEV();
  bool done = s.status_tracing == StatusTracing::Success && s.status_coex_pairs == StatusCoexPair::Success;
  h.check(go || (s.status_tracing == StatusTracing::NotSet && s.status_coex_pairs == StatusCoexPair::NotSet), "tracing without passing the checks");
  h.check(!go || (s.status_tracing != StatusTracing::NotSet), "tracing missing: " + StatusTracingToString.at(s.status_tracing));
  size_t np = done ? t.vec_coex.size() : 0;
  if (done) h.check(np > 0 && r.num_coex_phase_pairs == np, "number of pairs");
  h.check(r.legend == legend(vevs, np, o.gw), "legend");
  for (size_t k : {s.status_crit.size(), s.status_bounce_sol.size(), s.status_nucl_approx.size(), s.status_nucl.size(), s.status_perc.size(), s.status_compl.size(), r.vec_trans_data.size(), r.vec_gw_data.size()})
    if (!h.check(k == np, "one entry per pair: " + std::to_string(k) + " of " + std::to_string(np))) return;
  if (!done)
  {
    h.check(r.transition_history == "not_set", "history without pairs: " + r.transition_history);
    h.outcome("n" + std::to_string(n) + cls + " " + StatusNLOStabilityToString.at(s.status_nlo_stability) + " " + StatusTracingToString.at(s.status_tracing) + " " + StatusCoexPairToString.at(s.status_coex_pairs));
    return;
  }
  auto nanvec = [&](const Vec &v) {
    bool ok = v.size() == n;
    for (double x : v) ok &= std::isnan(x);
    return ok;
  };
  size_t nb = 0; // pairs with a bounce solution object
  std::map<int, std::vector<std::pair<double, std::pair<int, int>>>> next;
  for (size_t i = 0; i < np; i++)
  {
    h.transitions++;
    auto &p = t.vec_coex[i];
    auto &d = r.vec_trans_data[i];
    auto &g = r.vec_gw_data[i];
    std::string id = "pair " + std::to_string(i);
    h.check(p.coex_pair_id == (int)i, id + " id");
    h.check(s.status_crit[i] == p.crit_status, id + " status of the critical temperature");
    bool crit = s.status_crit[i] == StatusCrit::Success || s.status_crit[i] == StatusCrit::TrueLower;
    h.check(crit == (d.crit_temp.value_or(-1) > 0), id + " critical temperature " + str(d.crit_temp.value_or(NAN)) + " with status " + StatusCritToString.at(s.status_crit[i]));
    // which branches
    Vec fv = p.false_phase.MinimumPhaseVector[p.false_phase.MinimumPhaseVector.size() / 2].point, tv = p.true_phase.MinimumPhaseVector[p.true_phase.MinimumPhaseVector.size() / 2].point;
    int bf = f.branch(fv), bt = f.branch(tv), diff = bf ^ bt, dir = -1;
    for (size_t k = 0; k < n; k++)
      if (diff == 1 << k) dir = k;
    auto stage = [&](const std::string &nm, bool has, const std::optional<double> &T, const Vec &F, const Vec &Tr) {
      if (!has)
      {
        if (nm != "crit") h.check(!T, id + " " + nm + ": temperature without success");
        h.check(nanvec(F) && nanvec(Tr), id + " " + nm + ": VEVs without success");
        return;
      }
      if (!h.check(T && *T > 0, id + " " + nm + ": temperature missing")) return;
      h.check(*T >= p.T_low - 1e-9 && *T <= p.T_high + 1e-9, id + " " + nm + ": temperature " + str(*T) + " outside of the coexistence range");
      if (!h.check(F.size() == n && Tr.size() == n, id + " " + nm + ": VEVs missing")) return;
      auto near = [&](const Phase &ph) { // phases may pass second-order transitions
        const Minimum *b = &ph.MinimumPhaseVector[0];
        for (auto &x : ph.MinimumPhaseVector)
          if (std::abs(x.temp - *T) < std::abs(b->temp - *T)) b = &x;
        return f.branch(b->point);
      };
      int bf = near(p.false_phase), bt = near(p.true_phase);
      bool edge = std::abs(*T - p.T_low) < 0.1 || std::abs(*T - p.T_high) < 0.1 || !f.exists(bf, *T) || !f.exists(bt, *T);
      h.check(dist(F, f.at(bf, *T)) < (edge ? 6 : 0.3), id + " " + nm + ": false vacuum " + str(F) + ", expected " + str(f.at(bf, *T)) + " at T=" + str(*T));
      h.check(dist(Tr, f.at(bt, *T)) < (edge ? 6 : 0.3), id + " " + nm + ": true vacuum " + str(Tr) + ", expected " + str(f.at(bt, *T)) + " at T=" + str(*T));
    };
    stage("crit", crit, d.crit_temp, d.crit_false_vev, d.crit_true_vev);
    auto bsol = s.status_bounce_sol[i];
    h.check(crit ? bsol == StatusGW::Success || bsol == StatusGW::Failure : bsol == StatusGW::NotSet, id + " status of the bounce: " + StatusGWToString.at(bsol));
    bool bs = bsol == StatusGW::Success;
    struct
    {
      std::string nm;
      StatusTemperature st;
      std::optional<double> &T;
      Vec &F, &Tr;
    } st[4] = {{"nucl_approx", s.status_nucl_approx[i], d.nucl_approx_temp, d.nucl_approx_false_vev, d.nucl_approx_true_vev},
               {"nucl", s.status_nucl[i], d.nucl_temp, d.nucl_false_vev, d.nucl_true_vev},
               {"perc", s.status_perc[i], d.perc_temp, d.perc_false_vev, d.perc_true_vev},
               {"compl", s.status_compl[i], d.compl_temp, d.compl_false_vev, d.compl_true_vev}};
    std::string tag;
    for (auto &q : st)
    {
      h.check(bs ? q.st == StatusTemperature::Success || q.st == StatusTemperature::NotMet : q.st == StatusTemperature::NaN, id + " status of " + q.nm + ": " + StatusTemperatureToString.at(q.st) + ", bounce " + StatusGWToString.at(bsol));
      stage(q.nm, q.st == StatusTemperature::Success, q.T, q.F, q.Tr);
      tag += StatusTemperatureToString.at(q.st).substr(0, 2);
    }
    if (d.perc_temp && d.compl_temp && o.compl_ < o.perc) h.check(*d.perc_temp >= *d.compl_temp, id + " completion above percolation");
    if (d.nucl_temp) h.check(*d.nucl_temp <= *d.crit_temp + 1e-6, id + " nucleation above the critical temperature");
    // values from the closed-form potential (transition in one direction, from its origin)
    BounceSolution *bo = crit ? &t.ListBounceSolution[nb] : nullptr;
    if (crit) nb++;
    double gs = bo ? bo->GetGstar() : 0;
    bool fwd  = dir >= 0 && !(bf >> dir & 1);
    if (crit && fwd)
    {
      auto &q  = f.d[dir];
      double T = *d.crit_temp;
      if (s.status_crit[i] == StatusCrit::Success) h.close(q.b(T), 0.5, 1e-3, 0, id + " critical temperature " + str(T) + ": position of the barrier");
      // range of the transition
      double lo = p.T_low, hi = *d.crit_temp;
      Char c{q, gs, lo, hi};
      auto cmp = [&](const std::string &nm, StatusTemperature st_, double got, double want, double margin, double tol) {
        // margin > 0: the condition is clearly met inside the range, < 0: clearly not
        if (margin > 0 && want > 0 && want > lo + 0.05 * (hi - lo)) h.check(st_ == StatusTemperature::Success, id + " " + nm + " exists at " + str(want) + " but status " + StatusTemperatureToString.at(st_));
        if (margin < 0) h.check(st_ != StatusTemperature::Success, id + " " + nm + " does not exist but is reported at " + str(got));
        if (st_ == StatusTemperature::Success && want > 0)
        {
          h.notes["max_relative_error_" + nm] = std::max(h.notes["max_relative_error_" + nm], std::abs(got / want - 1));
          h.close(got, want, tol, 0, id + " " + nm);
        }
      };
      if (bs && s.status_crit[i] == StatusCrit::Success)
      {
        double smin = 1e300, gmax = -1e300, Imax = 0;
        for (int k = 0; k <= 400; k++)
        {
          double x = lo + (hi - lo) * (0.02 + 0.97 * k / 400);
          smin     = std::min(smin, q.S(x) / x);
          if (q.S(x) > 0) gmax = std::max(gmax, c.lnGH(x));
        }
        for (int k = 0; k <= 60; k++) Imax = std::max(Imax, c.I(lo + (hi - lo) * (0.02 + 0.9 * k / 60), bo->vwall));
        auto frac = [&](double fr) { return c.highest([&](double x) { return c.I(x, o.vwall >= 0 ? o.vwall : 0.95) + std::log(fr); }); };
        cmp("nucl_approx", st[0].st, d.nucl_approx_temp.value_or(-1), c.highest([&](double x) { return q.S(x) / x - 140; }), smin < 130 ? 1 : smin > 141 ? -1 : 0, 1e-3);
        cmp("nucl", st[1].st, d.nucl_temp.value_or(-1), c.highest([&](double x) { return c.lnGH(x); }), gmax > 3 ? 1 : gmax < -1 ? -1 : 0, 1e-3);
        if (Imax > 1e-12)
        {
          // the bisection of the oracle is cheap only where the exponent matters
          double Ip = -std::log(o.perc), Ic = -std::log(o.compl_);
          cmp("perc", st[2].st, d.perc_temp.value_or(-1), Imax > Ip ? frac(o.perc) : -1, Imax > 5 * Ip ? 1 : Imax < 0.5 * Ip ? -1 : 0, 1e-3);
          cmp("compl", st[3].st, d.compl_temp.value_or(-1), Imax > Ic ? frac(o.compl_) : -1, Imax > 5 * Ic ? 1 : Imax < 0.5 * Ic ? -1 : 0, 1e-3);
        }
        else
          cmp("perc", st[2].st, d.perc_temp.value_or(-1), -1, -1, 1e-3), cmp("compl", st[3].st, d.compl_temp.value_or(-1), -1, -1, 1e-3);
      }
    }
    // gravitational waves
    StatusTemperature chosen = o.which >= 1 && o.which <= 4 ? st[o.which - 1].st : StatusTemperature::NotSet;
    bool gw                  = o.gw && bs && chosen == StatusTemperature::Success && st[2].st == StatusTemperature::Success;
    bool full                = gw && g.status_gw != StatusGW::Failure;
    h.check(gw == (g.status_gw != StatusGW::NotSet || g.vwall) , id + " gravitational waves " + (gw ? "missing" : "although not requested or possible"));
    int cnt = 0, cntp = 0;
    for (auto *x : {&g.vwall, &g.alpha, &g.beta_over_H, &g.trans_temp}) cnt += x->has_value();
    for (auto *x : {&g.K_sw, &g.K_turb, &g.fpeak_sw, &g.fpeak_turb, &g.h2Omega_sw, &g.h2Omega_turb, &g.SNR_sw, &g.SNR_turb, &g.SNR}) cntp += x->has_value();
    h.check(cnt == (gw ? 4 : 0), id + " transition parameters: " + std::to_string(cnt));
    h.check(cntp == (full ? 9 : 0), id + " spectrum parameters: " + std::to_string(cntp));
    if (gw && cnt == 4)
    {
      tag += "gw" + StatusGWToString.at(g.status_gw);
      if (o.vwall >= 0) h.same(*g.vwall, o.vwall, id + " wall velocity set by the user");
      else h.check(*g.vwall > 0 && (o.vwall == -2 || *g.vwall <= 1), id + " wall velocity " + str(*g.vwall) + " for strength " + str(*g.alpha));
      if (o.which != 3 || o.vwall >= 0) h.close(*g.trans_temp, *st[o.which - 1].T, 1e-6, 0, id + " transition temperature");
      h.check((*g.beta_over_H < 1) == (g.status_gw == StatusGW::Failure), id + " status " + StatusGWToString.at(g.status_gw) + " for beta/H=" + str(*g.beta_over_H) + " at T=" + str(*g.trans_temp));
      if (fwd && o.vwall >= 0)
      {
        auto &q    = f.d[dir];
        double T   = *d.perc_temp, rho = gs * M_PI * M_PI / 30 * std::pow(T, 4), v = q.v(T);
        double al  = (-q.V(v, T) + T / 4 * q.dT(v, T)) / rho;
        h.close(*g.alpha, al, 1e-3, 1e-6, id + " strength");
        double e = 2e-4 * (p.T_high - p.T_low), be = T * (q.S(T + e) / (T + e) - q.S(T - e) / (T - e)) / 2 / e;
        h.notes["max_relative_error_betaH"] = std::max(h.notes["max_relative_error_betaH"], std::abs(*g.beta_over_H / be - 1));
        h.close(*g.beta_over_H, be, 0.02, 0.5, id + " beta/H at T=" + str(T) + " in [" + str(p.T_low) + "," + str(p.T_high) + "]");
      }
      if (full)
      {
        // combined signal: the noise integral adds the spectra
        h.check(*g.SNR <= *g.SNR_sw + *g.SNR_turb + 1e-9 + 1e-6 * *g.SNR && *g.SNR >= std::max(*g.SNR_sw, *g.SNR_turb) * (1 - 1e-4), id + " combined signal-to-noise " + str(*g.SNR) + " of " + str(*g.SNR_sw) + " and " + str(*g.SNR_turb));
        gwref::Ref q = gwref::mkref({*g.alpha, *g.beta_over_H, *g.vwall, gs, *g.trans_temp, o.eps});
        std::string w = " of strength " + str(*g.alpha) + ", beta/H " + str(*g.beta_over_H) + ", wall velocity " + str(*g.vwall) + " at T=" + str(*g.trans_temp);
        h.close(*g.K_sw, q.K, 1e-8, 0, id + " K_sw" + w), h.close(*g.K_turb, q.Kt, 1e-8, 1e-14, id + " K_turb" + w);
        h.close(*g.fpeak_sw, q.fs, 1e-8, 0, id + " fpeak_sw" + w), h.close(*g.fpeak_turb, q.ft, 1e-8, 0, id + " fpeak_turb" + w);
        h.close(*g.h2Omega_sw, q.As, 1e-8, 0, id + " h2OmegaPeak_sw" + w), h.close(*g.h2Omega_turb, q.At, 1e-8, 1e-300, id + " h2OmegaPeak_turb" + w);
        h.close(*g.SNR_sw, gwref::snr(q, 1e-6, 10, 3, true, false), 1e-3, 1e-30, id + " SNR of sound waves" + w);
        h.close(*g.SNR_turb, gwref::snr(q, 1e-6, 10, 3, false, true), 1e-3, 1e-30, id + " SNR of turbulence" + w);
        h.close(*g.SNR, gwref::snr(q, 1e-6, 10, 3, true, true), 1e-3, 1e-30, id + " SNR" + w);
        h.check(*g.K_sw > 0 && *g.fpeak_sw > 0 && *g.fpeak_turb > 0, id + " spectrum");
      }
    }
    if (d.compl_temp) next[p.false_phase.id].push_back({*d.compl_temp, {p.true_phase.id, (int)i}});
    if (dir >= 0) tag += fwd ? "" : "back";
    else tag += "multi";
    cls += " " + StatusCritToString.at(s.status_crit[i]).substr(0, 4) + tag;
  }
  // history
  std::string hist = "0";
  int at = 0, steps = 0;
  while (next.count(at) && steps++ < 50)
  {
    auto b = *std::max_element(next[at].begin(), next[at].end());
    hist += "-(" + std::to_string(b.second.second) + ")->" + std::to_string(b.second.first);
    at = b.second.first;
  }
  h.check(r.transition_history == hist, "history " + r.transition_history + ", expected " + hist);
  h.outcome("n" + std::to_string(n) + " pairs" + std::to_string(np) + (np > 1 ? cls.substr(0, 40) : cls) + " steps" + std::to_string(steps));
  h.sample(h.cur + ": " + hist + cls);
}

// straight bounce between F and the closest image of T, barrier position b = b1 + (b2 - b1) T/300
static void images(Vec F, Vec T, double bstar, bool sym)
{
  size_t n = F.size();
  Vec e(n);
  double v = 0;
  for (size_t i = 0; i < n; i++) e[i] = T[i] - F[i], v += e[i] * e[i];
  v         = std::sqrt(v);
  double b1 = 0.02, b2 = 0.9, ts = 300 * (bstar - b1) / (b2 - b1), k = std::pow(unitAction(bstar) * v / (140 * ts), 2);
  auto one = [=](const Vec &x, double t, double sg) {
    double p = 0, q = 0;
    for (size_t i = 0; i < n; i++) p += (sg * x[i] - F[i]) * e[i] / v, q += (sg * x[i] - F[i]) * (sg * x[i] - F[i]);
    return k * std::pow(v, 4) * Bounce1D::V1(p / v, b1 + (b2 - b1) * t / 300) + 0.5 * k * v * v * std::max(0., q - p * p);
  };
  auto V = [=](const Vec &x, double t) { return sym ? std::min(one(x, t, 1), one(x, t, -1)) : one(x, t, 1); };
  std::shared_ptr<Class_Potential_Origin> m = std::make_shared<toy::Model>(n, V, T);
  user_input in;
  in.modelPointer = m, in.which_minimizer = 1, in.nlo_check = 0;
  TransitionTracer t(in);
  auto &r = t.output_store;
  h.states++;
  h.transitions++;
  if (!h.check(r.status.status_coex_pairs == StatusCoexPair::Success && r.num_coex_phase_pairs == 1, "one pair of phases: " + std::to_string(r.num_coex_phase_pairs) + " " + StatusTracingToString.at(r.status.status_tracing))) return;
  h.close(r.vec_trans_data[0].crit_temp.value_or(-1), 300 * (0.5 - b1) / (b2 - b1), 1e-4, 0, "critical temperature");
  if (!h.check(r.status.status_nucl_approx[0] == StatusTemperature::Success, "S3/T = 140 is reached")) return;
  h.close(*r.vec_trans_data[0].nucl_approx_temp, ts, 1e-3, 0, "temperature with S3/T = 140");
  for (auto &x : t.ListBounceSolution[0].SolutionList)
  {
    double d = 0;
    for (size_t i = 0; i < n; i++) d += std::pow(x.TrueVacuum[i] - x.FalseVacuum[i], 2);
    h.close(std::sqrt(d), v, 1e-3, 0, "distance of the two vacua of the bounce");
  }
  h.outcome("images n" + std::to_string(n) + (sym ? " sym" : ""));
}

void run_all()
{
  h.assumptions = {"sums of one-dimensional cubic-quartic potentials; values compared for transitions in a single direction",
                   "percolation and completion with the approximated wall velocities (-1, -2) are reported for the initial guess 0.95"};
  std::vector<Fam> fs;
  auto nm = [](const Cub &q) { return str(q.D) + "," + str(q.t0) + "," + str(q.E) + "," + str(q.e) + "," + str(q.lam); };
  std::vector<Cub> base;
  for (double D : {0.15, 0.3})
    for (double t0 : {60. * 60, 100. * 100})
      for (double E : {0., 0.03, 0.1, 0.16})
        for (double lam : {0.06, 0.13}) base.push_back({D, t0, E, 0, lam});
  for (double e : {4., 7., 8., 9., 10., 11., 12., 13., 14., 16., 20.}) base.push_back({0.2, -40 * 40, 0.06, e, 0.12}); // barrier at T=0
  if (h.thorough)
    for (double e = 6; e < 14; e += 0.25) base.push_back({0.2, -40 * 40, 0.05, e, 0.1});
  base.push_back({0.1, 80 * 80, 0.3, 0, 0.1});    // broken at all temperatures
  base.push_back({-0.1, -80 * 80, 0.05, 0, 0.1}); // broken at high temperature
  for (auto &q : base) fs.push_back({"c1:" + nm(q), {q}});
  std::vector<Cub> d2 = {{0.2, 60. * 60, 0.08, 0, 0.1}, {0.15, 90. * 90, 0.1, 0, 0.1}, {0.3, 120. * 120, 0.05, 0, 0.13}, {0.2, -40 * 40, 0.06, 9, 0.12}, {0.2, 100 * 100, 0, 0, 0.1}};
  for (size_t i = 0; i < d2.size(); i++)
    for (size_t j = 0; j < d2.size(); j++)
      if (i != j && (h.thorough || i < j)) fs.push_back({"c2:" + nm(d2[i]) + ";" + nm(d2[j]), {d2[i], d2[j]}});
  auto go = [&](const Fam &f, const Opt &o, double shift) { h.run(f.name + "/" + o.str_() + (shift ? "/shifted" : ""), [=] { report(f, o, shift); }); };
  for (auto &f : fs)
  {
    go(f, Opt{}, 0);
    for (int w : {1, 2, 4})
    {
      Opt o;
      o.which = w;
      if (w == 4) o.vwall = 0.3, o.perc = 0.5, o.compl_ = 0.2;
      if (w == 2) o.mode = 2;
      if (f.d.size() == 1 || h.thorough) go(f, o, 0);
    }
  }
  // slow walls: nucleation is reached, percolation or completion not
  for (double e : {8., 9., 10., 11.})
    for (double vw : {1e-2, 1e-3, 1e-5})
      for (int w : {1, 2, 3, 4})
      {
        Opt o;
        o.vwall = vw, o.which = w;
        Cub q{0.2, -40 * 40, 0.06, e, 0.12};
        go({"c1:" + nm(q), {q}}, o, 0);
      }
  for (double bs : {0.2, 0.35})
    for (bool sym : {true, false})
    {
      std::vector<std::pair<Vec, Vec>> ft = {{{10, 90}, {-100, 70}}, {{10, -90}, {60, -150}}, {{5, 100}, {-5, 300}}, {{0, 0}, {100, -100}}, {{20, 60}, {-140, 130}}, {{-20, 60}, {-70, 150}}, {{-40, 30}, {-60, 130}}};
      for (size_t i = 0; i < ft.size(); i++) h.run("images/" + str(bs) + "/" + std::to_string(i) + (sym ? "s" : ""), [=] { images(ft[i].first, ft[i].second, bs, sym); });
    }
  // all settings on a few potentials
  for (size_t k = 0; k < fs.size(); k += h.thorough ? 4 : 9)
  {
    auto &f = fs[k];
    if (f.d.size() > 1 && !h.thorough) continue;
    for (double vw : {0.95, 0.2, -1., -2.})
      for (bool gw : {false, true})
      {
        Opt o;
        o.vwall = vw, o.gw = gw;
        go(f, o, 0);
        o.perc = 0.4, o.compl_ = 0.05, o.eps = -1;
        go(f, o, 0);
      }
    for (int e : {0, 1, 2, 3})
      for (int nl : {0, 1})
        for (double sh : {0., 7.})
        {
          Opt o;
          o.ewsr = e, o.nlo = nl, o.gw = false;
          go(f, o, sh);
        }
    for (int md : {0, 1, 2, 3})
      for (int w : {0, 5, 3})
      {
        Opt o;
        o.mode = md, o.which = w;
        go(f, o, 0);
      }
  }
}
HARNESS_MAIN
