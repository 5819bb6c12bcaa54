// G01: gravitational-wave data of a transition are a pure function of
// (alpha, beta/H, v_wall, g*, T*, eps_turb), for every call history.
#include "toy.h"
#include "gwref.h"
#include <BSMPT/gravitational_waves/gw.h>
using namespace BSMPT;
using namespace gwref;

static std::shared_ptr<Class_Potential_Origin> model;
static BounceSolution mk(const P &p, int which)
{
  BounceSolution b(model);
  b.SetGstar(p.gs);
  b.alpha = p.al;
  b.betaH = p.bH;
  b.vwall = p.vw;
  b.epsturb = p.eps;
  b.Tnucl_approx = which == 1 ? p.T : p.T * 1.3;
  b.Tnucl = which == 2 ? p.T : p.T * 1.2;
  b.Tperc = which == 3 ? p.T : p.T * 1.1;
  b.Tcompl = which == 4 ? p.T : p.T * 0.9;
  b.status_nucl_approx = b.status_nucl = b.status_perc = b.status_compl = StatusTemperature::Success;
  return b;
}

static void data(const GravitationalWave &g, const P &p, const Ref &r)
{
  h.close(g.data.transitionTemp, p.T, 1e-12, 0, "transition temperature");
  h.close(g.data.PTStrength, p.al, 1e-12, 0, "alpha");
  h.close(g.data.InvTimeScale, p.bH, 1e-12, 0, "beta/H");
  h.close(g.data.vb, p.vw, 1e-12, 0, "v_wall");
  h.close(g.data.gstar, p.gs, 1e-12, 0, "g*");
  h.close(g.data.kappa_sw, r.kappa, 1e-9, 0, "kappa_sw");
  h.close(g.data.K_sw, r.K, 1e-9, 0, "K_sw");
  h.close(g.data.HR, r.HR, 1e-9, 0, "H*R");
  h.close(g.data.K_turb, r.Kt, 1e-9, 1e-14, "K_turb");
  h.close(g.data.kappa_turb, r.epst * r.kappa, 1e-9, 1e-14, "kappa_turb");
}

static std::string ks(const P &p)
{
  return "al=" + str(p.al) + ",bH=" + str(p.bH) + ",vw=" + str(p.vw) + ",g=" + str(p.gs) + ",T=" + str(p.T) + ",eps=" + str(p.eps);
}

// operations on one object
static const int NOP = 9;
static const double FQ[2] = {3e-3, 2e-5};
static void op(GravitationalWave &g, const Ref &r, int o)
{
  auto A = [&](double f, bool s, bool t) {
    double want = amp(r, f, s, t);
    h.close(g.CalcGWAmplitude(f, s, t), want, 1e-8, 1e-300, "h2Omega(f=" + str(f) + (s ? ",sw" : "") + (t ? ",turb" : "") + ")");
  };
  h.transitions++;
  switch (o)
  {
  case 0: g.CalcPeakFrequencySoundWave(); h.close(g.data.fPeakSoundWave, r.fs, 1e-9, 0, "peak frequency (sound waves)"); break;
  case 1: g.CalcPeakAmplitudeSoundWave(); h.close(g.data.h2OmegaPeakSoundWave, r.As, 1e-9, 0, "peak amplitude (sound waves)"); break;
  case 2: g.CalcPeakFrequencyTurbulence(); h.close(g.data.fPeakTurbulence, r.ft, 1e-9, 0, "peak frequency (turbulence)"); break;
  case 3: g.CalcPeakAmplitudeTurbulence(); h.close(g.data.h2OmegaPeakTurbulence, r.At, 1e-9, 1e-300, "peak amplitude (turbulence)"); break;
  case 4: A(FQ[0], true, false); break;
  case 5: A(FQ[0], false, true); break;
  case 6: A(FQ[1], true, true); break;
  case 7: A(FQ[1], false, false); break;
  case 8:
    g.data.swON = true, g.data.turbON = false;
    h.close(g.GetSNR(1e-6, 10), snr(r, 1e-6, 10, 3, true, false), 1e-4, 1e-300, "SNR (sound waves, 3 years)");
    break;
  }
}

void run_all()
{
  h.assumptions = {"formulas: arXiv:1004.4187 (efficiency), 1704.05871 incl. erratum (peaks, shapes), the Hubble rate of the turbulence spectrum as the code has it, in GeV (see the known finding), LISA science requirements (sensitivity) as re-derived in the oracle",
                   "the transition's (alpha, beta/H, v_wall, g*, T*) are injected through the public members of BounceSolution"};
  model = std::make_shared<toy::Model>(1, [](const Vec &x, double) { return x[0] * x[0]; }, Vec{246});
  std::vector<double> als{1e-3, 0.012, 0.1, 0.6, 3, 30}, bHs{1, 1.7, 30, 250, 1e4}, vws{0.05, 0.3, CS - 1e-6, CS + 1e-6, 0.62, 0.75, 0.93, 0.99}, gss{80, 106.75, 112.5},
      Ts{0.7, 35, 130}, epss{-1, 0, 0.1, 1};
  if (h.thorough)
  {
    als = {1e-4, 1e-3, 3e-3, 0.012, 0.05, 0.1, 0.3, 0.6, 1, 3, 10, 30, 100};
    bHs = {1, 1.1, 1.7, 4, 10, 30, 100, 250, 1000, 1e4, 1e6};
    vws = {0.01, 0.05, 0.1, 0.2, 0.3, 0.4, 0.5, CS - 1e-6, CS + 1e-6, 0.6, 0.62, 0.66, 0.7, 0.75, 0.8, 0.85, 0.9, 0.93, 0.95, 0.97, 0.99};
  }
  // (a) every point of the grid: data, peaks, spectrum on a frequency lattice
  for (double al : als)
    for (double bH : bHs)
      h.run("grid:al=" + str(al) + ",bH=" + str(bH), [&] {
        for (double vw : vws)
          for (double gs : gss)
            for (double T : Ts)
              for (double eps : epss)
              {
                P p{al, bH, vw, gs, T, eps};
                h.cur = "grid:al=" + str(al) + ",bH=" + str(bH);
                Ref r = mkref(p);
                h.states++;
                h.traces++;
                int which = 1 + (h.states % 4);
                auto b    = mk(p, which);
                GravitationalWave g(b, which);
                size_t nv = h.violations.size();
                data(g, p, r);
                h.check(g.data.status != StatusGW::Failure, "status must not be a failure");
                for (int o = 0; o < 4; o++) op(g, r, o);
                for (double lf = -6; lf <= 1; lf += 1)
                {
                  double f = std::pow(10, lf);
                  for (int m = 0; m < 4; m++) h.close(g.CalcGWAmplitude(f, m & 1, m & 2), amp(r, f, m & 1, m & 2), 1e-8, 1e-300, "h2Omega at " + str(f));
                }
                // the sound-wave spectrum peaks at the peak frequency with the peak amplitude
                h.close(g.CalcGWAmplitude(g.data.fPeakSoundWave, true, false), g.data.h2OmegaPeakSoundWave, 1e-8, 0, "spectrum at its peak");
                h.outcome(std::string(vw < CS ? "sub" : vw > (std::sqrt(2. / 3 * al + al * al) + CS) / (1 + al) ? "super" : "hybrid") +
                          (2 * r.HR / std::sqrt(3 * r.K) < 1 ? "short" : "long") + "eps" + str(eps) + "a" + str(al));
                if (h.violations.size() > nv) { h.violations.back().second += " @ " + ks(p); return; }
              }
      });
  // (b) SNR, additivity in observation time, interval
  for (double al : als)
    for (double bH : bHs)
      h.run("snr:al=" + str(al) + ",bH=" + str(bH), [&] {
        for (double vw : {0.3, 0.7, 0.95})
          for (double eps : {-1., 0.1})
            for (int m = 1; m < 4; m++)
            {
              P p{al, bH, vw, 106.75, 60, eps};
              Ref r = mkref(p);
              if ((m & 1) == 0 && r.At == 0) continue;
              auto b = mk(p, 3);
              GravitationalWave g(b);
              g.data.swON = m & 1, g.data.turbON = m & 2;
              double s = g.GetSNR(1e-6, 10);
              h.states++;
              h.traces++;
              h.close(s, snr(r, 1e-6, 10, 3, m & 1, m & 2), 1e-4, 1e-300, "SNR " + ks(p));
              h.close(g.GetSNR(1e-6, 10, 12), 2 * s, 1e-8, 1e-300, "SNR grows with the square root of the observation time");
              double s1 = g.GetSNR(1e-6, 1e-3), s2 = g.GetSNR(1e-3, 10);
              h.close(std::hypot(s1, s2), s, 1e-4, 1e-300, "SNR^2 is additive over frequency intervals");
              h.check(g.data.status == StatusGW::Success, "status after a successful SNR");
              h.sample(ks(p) + " -> SNR " + str(s));
            }
      });
  // (c) every call history up to a depth on one object
  int depth = h.thorough ? 5 : 4;
  std::vector<P> hp{{0.1, 250, 0.95, 106.75, 60, 0.1}, {0.6, 1.7, 0.3, 112.5, 35, 0.1}, {0.012, 1e4, 0.62, 80, 130, -1}};
  for (size_t ip = 0; ip < hp.size(); ip++)
    for (int o0 = 0; o0 < NOP; o0++)
      for (int o1 = 0; o1 < NOP; o1++)
      h.run("history:" + str((double)ip) + ":" + str((double)o0) + str((double)o1), [&] {
        Ref r   = mkref(hp[ip]);
        std::vector<int> seq(depth);
        long n = 1;
        for (int i = 2; i < depth; i++) n *= NOP;
        for (long c = 0; c < n; c++)
        {
          long q = c;
          seq[0] = o0;
          seq[1] = o1;
          int ns = (o0 == 8) + (o1 == 8);
          for (int i = 2; i < depth; i++) { seq[i] = q % NOP; q /= NOP; ns += seq[i] == 8; }
          if (ns > 1) continue; // one SNR per history
          auto b = mk(hp[ip], 3);
          GravitationalWave g(b);
          h.traces++;
          size_t nv = h.violations.size();
          for (int o : seq) op(g, r, o);
          data(g, hp[ip], r);
          if (h.violations.size() > nv)
          {
            std::string s;
            for (int o : seq) s += std::to_string(o) + " ";
            h.violations.back().second += " in history " + s + "@ " + ks(hp[ip]);
            return;
          }
          h.states++;
        }
      });
  // (e) the Hubble rate in the turbulence spectrum is the red-shifted one, 16.5 muHz (T*/100 GeV) (g*/100)^(1/6)
  h.run("turbulence-hubble-rate", [&] {
    double worst = 0;
    for (double T : Ts)
      for (double gs : gss)
        for (double f : {1e-6, 1e-4, 1e-2})
        {
          P p{0.1, 250, 0.95, gs, T, 0.1};
          Ref r  = mkref(p);
          r.Hs   = 1.65e-5 * T / 100 * std::pow(gs / 100, 1. / 6);
          auto b = mk(p, 3);
          GravitationalWave g(b, 3);
          worst = std::max(worst, std::abs(std::log10(g.CalcGWAmplitude(f, false, true) / amp(r, f, false, true))));
          h.states++;
        }
    h.check(worst < 0.05, "turbulence spectrum with the red-shifted Hubble rate: off by up to 10^" + str(std::round(worst * 10) / 10));
  });
  // (d) statuses: no transition temperature or beta/H < 1 is a failure, for every combination of statuses
  for (int which = 1; which <= 4; which++)
    h.run("status:" + std::to_string(which), [&] {
      StatusTemperature all[] = {StatusTemperature::Success, StatusTemperature::NotMet, StatusTemperature::NotSet};
      for (int c = 0; c < 81; c++)
        for (double bH : {-3., 0.3, 0.999, 1., 1.001, 50.})
        {
          P p{0.1, bH, 0.9, 106.75, 70, 0.1};
          auto b               = mk(p, which);
          int s[4]             = {c % 3, c / 3 % 3, c / 9 % 3, c / 27};
          b.status_nucl_approx = all[s[0]], b.status_nucl = all[s[1]], b.status_perc = all[s[2]], b.status_compl = all[s[3]];
          GravitationalWave g(b, which);
          bool ok = s[which - 1] == 0;
          h.states++;
          h.transitions++;
          h.same(g.data.transitionTemp, ok ? 70 : -1, "transition temperature chosen");
          h.check((g.data.status == StatusGW::Failure) == (!ok || bH < 1), "failure iff beta/H<1 or no transition temperature; bH=" + str(bH));
        }
    });
  // (e) the exported ingredient functions
  h.run("sensitivity", [&] {
    for (double lf = -6; lf < 1.01; lf += 0.125)
    {
      double f = std::pow(10, lf);
      h.close(h2OmSens(f), sens(f), 1e-9, 0, "LISA sensitivity at " + str(f));
      h.states++;
    }
  });
}
HARNESS_MAIN
