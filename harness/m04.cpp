// M04: tree-level potential, spectrum and thermal masses are those of the Lagrangian
#include "models.h"
HARNESS_MAIN
using namespace mo;

static void one(const Point &p)
{
  auto m = make(p);
  Oracle o(p);
  h.states++;
  auto w = o.w;
  auto wm = m->MinimizeOrderVEV(m->get_vevTreeMin());
  if (!h.check(wm.size() == p.s->nH && m->get_nVEV() == p.s->nVEV && m->get_NHiggs() == p.s->nH && m->get_nPar() == p.s->nPar && m->get_nParCT() == p.s->nCT, "field content")) return;
  for (size_t i = 0; i < p.s->nH; i++) h.close(wm[i], w[i], 1e-9, 1e-9, "tree-level VEV component " + std::to_string(i));
  // the whole potential: equality on a unisolvent set for degree 4 means equality of the polynomials
  long nfail = 0;
  simplex(p.s->nH, 4, [&](const std::vector<int> &k) {
    if (nfail > 3) return;
    Vec x(p.s->nH);
    for (size_t i = 0; i < x.size(); i++) x[i] = 70. * k[i] - 45 - 3. * i;
    h.transitions++;
    double a = o.tree(x), sc = 1e8;
    if (!h.close(m->VTree(x, 0, true), a, 1e-9, sc * 1e-6, "tree-level potential at " + str(x))) nfail++;
  });
  // spectrum at the vacuum
  auto H  = o.higgsM(w);
  auto em = m->HiggsMassesSquared(w, 0), eo = eig(H);
  h.check(em.size() == eo.size(), "number of scalars");
  std::sort(em.begin(), em.end());
  for (size_t i = 0; i < em.size(); i++) h.close(em[i], i < 3 ? 0 : eo[i], 1e-8, 1e-2, "scalar mass squared " + std::to_string(i));
  for (size_t i = 0; i < p.s->nH; i++) h.close(m->VTree(w, (int)i + 1, true), 0, 0, 1, "tree-level tadpole " + std::to_string(i));
  auto sm = GetSMConstants();
  auto g  = m->GaugeMassesSquared(w, 0);
  std::sort(g.begin(), g.end());
  double k = p.s->name == "CxSM" ? w[3] * w[3] / (sm.C_vev0 * sm.C_vev0) : 1;
  Vec gm{0, sm.C_MassW * sm.C_MassW * k, sm.C_MassW * sm.C_MassW * k, sm.C_MassZ * sm.C_MassZ * k};
  h.check(g.size() == 4, "number of gauge bosons");
  for (int i = 0; i < 4; i++) h.close(g[i], gm[i], 1e-9, 1e-4, "gauge boson mass squared " + std::to_string(i));
  Vec qm{sm.C_MassUp, sm.C_MassCharm, sm.C_MassTop, sm.C_MassDown, sm.C_MassStrange, sm.C_MassBottom}, lm{0, sm.C_MassElectron, sm.C_MassMu, sm.C_MassTau};
  Vec q2, l2{0, 0, 0};
  for (double x : qm) q2.insert(q2.end(), 2, x * x);
  for (int i = 1; i < 4; i++) l2.insert(l2.end(), 2, lm[i] * lm[i]);
  std::sort(q2.begin(), q2.end());
  std::sort(l2.begin(), l2.end());
  auto mq = m->QuarkMassesSquared(w), ml = m->LeptonMassesSquared(w);
  std::sort(mq.begin(), mq.end());
  std::sort(ml.begin(), ml.end());
  h.check(mq.size() == 12 && ml.size() == 9, "number of fermions");
  for (int i = 0; i < 12; i++) h.close(mq[i], q2[i], 1e-8, 1e-9, "quark mass squared " + std::to_string(i));
  for (int i = 0; i < 9; i++) h.close(ml[i], l2[i], 1e-8, 1e-9, "lepton mass squared " + std::to_string(i));
  // masses at every configuration of a lattice of field directions (pairs of fields)
  o.debye();
  nfail = 0;
  for (size_t a = 0; a < p.s->nH && nfail < 4; a++)
    for (size_t b = a; b < p.s->nH && nfail < 4; b++)
      for (int base = 0; base < 2; base++)
      {
        Vec x = base ? w : Vec(p.s->nH, 0.);
        x[a] += 83;
        x[b] -= 37;
        h.transitions++;
        std::string at = " at " + str(x);
        auto cmp = [&](Vec u, Vec v, double tol, const std::string &what) {
          std::sort(u.begin(), u.end());
          std::sort(v.begin(), v.end());
          if (!h.check(u.size() == v.size(), what + " count")) { nfail++; return; }
          for (size_t i = 0; i < u.size(); i++)
            if (!h.close(u[i], v[i], 1e-7, tol, what + " " + std::to_string(i) + at)) { nfail++; return; }
        };
        cmp(m->HiggsMassesSquared(x, 0), eig(o.higgsM(x)), 1e-2, "scalar mass squared");
        { // light fermions may or may not be kept in the thermal masses
          auto u = m->HiggsMassesSquared(x, 130), a = eig(o.higgsM(x) + 16900. * o.Dh), b = eig(o.higgsM(x) + 16900. * o.DhHeavy);
          std::sort(u.begin(), u.end());
          if (!h.check(u.size() == a.size(), "thermal scalar mass count")) nfail++;
          else
            for (size_t i = 0; i < u.size(); i++)
              if (!h.close(u[i], a[i], 1e-7, 2e-2 + 1.01 * std::abs(a[i] - b[i]), "thermal scalar mass squared " + std::to_string(i) + at)) { nfail++; break; }
        }
        cmp(m->GaugeMassesSquared(x, 0), eig(o.gaugeM(x)), 1e-4, "gauge mass squared");
        cmp(m->GaugeMassesSquared(x, 130), eig(o.gaugeM(x) + 130. * 130. * o.Dg), 1e-3, "thermal gauge mass squared");
        cmp(m->QuarkMassesSquared(x), o.quark2(x), 1e-7, "quark mass squared");
        cmp(m->LeptonMassesSquared(x), o.lepton2(x), 1e-7, "lepton mass squared");
      }
  h.traces++;
  h.outcome(p.s->name + " type " + std::to_string(o.type) + " lightest " + std::to_string((int)std::sqrt(em[3]) / 20));
  if (h.samples.size() < 3) h.sample(p.key + " scalar masses squared " + str(em));
}
void run_all()
{
  Logger::Disable();
  for (auto &p : all_points(h.thorough)) h.run(p.key, [&] { one(p); });
  h.assumptions = {"two potentials of degree at most 4 that agree on the unisolvent simplex lattice agree everywhere", "points whose tree-level vacuum is a minimum with three Goldstone bosons"};
}
