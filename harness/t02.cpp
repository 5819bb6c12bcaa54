// T02: coexisting phase pairs and critical temperatures.
#include "toy.h"
#include <BSMPT/minimum_tracer/minimum_tracer.h>
using namespace BSMPT;

// a phase: a well whose position and depth are known functions of temperature
struct Ph
{
  double lo, hi;  // range of existence
  Vec depth;      // polynomial in (T/100), units 1e6 GeV^4
};
static double dep(const Ph &p, double T)
{
  double r = 0, t = T / 100, q = 1;
  for (auto c : p.depth) r += c * q, q *= t;
  return 1e6 * r;
}
static Vec pos(int n, int k, double T)
{
  Vec r(n);
  for (int i = 0; i < n; i++) r[i] = 400. * k - 250. * (i % 2) * k + (k + 1) * 0.1 * T;
  return r;
}
static std::shared_ptr<Vacuum> world(int n, const std::vector<Ph> &ph, double step, std::shared_ptr<Class_Potential_Origin> &m)
{
  auto V = [n, ph](const Vec &x, double T) {
    double best = 1e300;
    for (size_t k = 0; k < ph.size(); k++)
    {
      auto c   = pos(n, k, T);
      double d = 0;
      for (int i = 0; i < n; i++) d += (1 + 0.3 * i) * std::pow(x[i] - c[i], 2);
      double w = 2000 * d + dep(ph[k], T);
      if (std::sqrt(d) < 60) return w;
      best = std::min(best, w);
    }
    return best;
  };
  m      = std::make_shared<toy::Model>(n, V, pos(n, 0, 0));
  auto t = std::make_shared<MinimumTracer>(m, 2, false);
  t->GroupElements.clear();
  auto v    = std::make_shared<Vacuum>(0, 300, t, m, 99, 1, true);
  v->PhasesList.clear();
  v->CoexPhasesList.clear();
  v->status_vacuum     = StatusTracing::Success;
  v->status_coex_pairs = StatusCoexPair::NoCoexPairs;
  for (size_t k = 0; k < ph.size(); k++)
  {
    Phase p;
    p.MinTracer = t;
    int ns      = std::max(3, (int)((ph[k].hi - ph[k].lo) / step));
    for (int i = 0; i <= ns; i++)
    {
      Minimum q;
      q.temp      = i == ns ? ph[k].hi : ph[k].lo + (ph[k].hi - ph[k].lo) * i / ns;
      q.point     = pos(n, k, q.temp);
      q.potential = dep(ph[k], q.temp);
      p.MinimumPhaseVector.push_back(q);
    }
    p.MinimumPhaseVector.front().EdgeOfPhase = -1;
    p.MinimumPhaseVector.back().EdgeOfPhase  = 1;
    p.T_low  = ph[k].lo;
    p.T_high = ph[k].hi;
    p.id     = k;
    v->PhasesList.push_back(p);
  }
  return v;
}
static void pairs(int n, const std::vector<Ph> &ph, double step)
{
  std::shared_ptr<Class_Potential_Origin> m;
  auto v = world(n, ph, step, m);
  h.states++;
  v->setCoexPhases();
  struct W
  {
    size_t f, t;
    double lo, hi;
  };
  std::vector<W> want;
  for (size_t i = 0; i < ph.size(); i++)
    for (size_t j = i + 1; j < ph.size(); j++)
    {
      double lo = std::max(ph[i].lo, ph[j].lo), hi = std::min(ph[i].hi, ph[j].hi);
      if (hi > lo) want.push_back({i, j, lo, hi});
    }
  auto &got = v->CoexPhasesList;
  if (!h.check(got.size() == want.size(), "number of coexisting pairs: " + std::to_string(got.size()) + ", expected " + std::to_string(want.size()))) return;
  for (size_t q = 0; q < want.size(); q++)
  {
    auto &c = got[q];
    auto &w = want[q];
    h.transitions++;
    std::string id = "pair (" + std::to_string(w.f) + "," + std::to_string(w.t) + ")";
    h.check(c.coex_pair_id == (int)q, id + " is numbered in sequence: " + std::to_string(c.coex_pair_id));
    h.check(c.false_phase.id == (int)w.f && c.true_phase.id == (int)w.t, id + " has the phase that reaches higher temperatures as false one");
    h.same(c.T_low, w.lo, id + " lower end of the overlap");
    h.same(c.T_high, w.hi, id + " upper end of the overlap");
    auto d = [&](double T) { return dep(ph[w.t], T) - dep(ph[w.f], T); };
    double dh = d(w.hi), dl = d(w.lo);
    std::string st;
    if (dh > 0 && dl > 0)
    {
      st = "false lower";
      h.check(c.crit_status == StatusCrit::FalseLower && c.crit_temp < 0, id + " never favours the true phase at the ends: status " + StatusCritToString.at(c.crit_status) + " Tc " + str(c.crit_temp));
    }
    else if (dh < 0 && dl < 0)
    {
      st = "true lower";
      h.check(c.crit_status == StatusCrit::TrueLower, id + " always favours the true phase: status " + StatusCritToString.at(c.crit_status));
      h.same(c.crit_temp, w.hi, id + " critical temperature is the upper end of the overlap");
    }
    else if (dh > 0 && dl < 0)
    {
      st = "crossing";
      if (!h.check(c.crit_status == StatusCrit::Success, id + " crosses: status " + StatusCritToString.at(c.crit_status))) continue;
      double T = c.crit_temp, e = 0.01;
      h.check(T >= w.lo && T <= w.hi, id + " critical temperature inside the overlap: " + str(T));
      double slope = (d(std::min(w.hi, T + e)) - d(std::max(w.lo, T - e))) / (2 * e);
      h.check(std::abs(d(T)) <= 1e-5 * std::abs(slope) + 1e-3, id + " potentials are equal at the critical temperature " + str(T) + ": difference " + str(d(T)));
      h.check(d(std::min(w.hi, T + 0.05)) > 0 && d(std::max(w.lo, T - 0.05)) < 0, id + " true phase is favoured below and disfavoured above Tc=" + str(T));
    }
    else if (dh < 0 && dl > 0)
    {
      st = "inverted";
      h.check(c.crit_status == StatusCrit::Failure && c.crit_temp < 0, id + " has the inverted order: status " + StatusCritToString.at(c.crit_status) + " Tc " + str(c.crit_temp));
    }
    h.outcome("n" + std::to_string(n) + " " + st);
    // the phases stored with the pair are those of the list
    for (double T : {w.lo, 0.37 * w.lo + 0.63 * w.hi, w.hi})
    {
      h.close(c.true_phase.Get(T).potential, dep(ph[w.t], T), 1e-7, 10, id + " potential of the true phase at T=" + str(T));
      h.close(c.false_phase.Get(T).potential, dep(ph[w.f], T), 1e-7, 10, id + " potential of the false phase at T=" + str(T));
      h.check(std::abs(c.true_phase.Get(T).temp - T) < 1e-9 && std::abs(c.false_phase.Get(T).temp - T) < 1e-9, id + " minimum is given at the requested temperature " + str(T) + ": " + str(c.true_phase.Get(T).temp) + " " + str(c.false_phase.Get(T).temp));
    }
  }
  h.sample(std::to_string(ph.size()) + " phases, " + std::to_string(want.size()) + " pairs");
}
// coverage of the temperature range by the phases
static void region(const std::vector<Ph> &ph)
{
  std::shared_ptr<Class_Potential_Origin> m;
  auto v = world(1, ph, 50, m);
  h.states++;
  std::set<double> e;
  for (auto &p : ph) e.insert(p.lo), e.insert(p.hi);
  std::vector<double> ed(e.begin(), e.end());
  bool pair = false, gap = false;
  for (size_t i = 0; i + 1 < ed.size(); i++)
  {
    int c = 0;
    for (auto &p : ph) c += p.lo <= ed[i] && p.hi >= ed[i + 1];
    pair |= c > 1;
    gap |= c == 0;
  }
  v->setCoexRegion(0);
  h.check((v->status_coex_pairs == StatusCoexPair::Success) == pair, std::string("pairs exist: ") + (pair ? "yes" : "no"));
  h.check((v->status_vacuum == StatusTracing::NoCoverage) == gap && (gap || v->status_vacuum == StatusTracing::Success), std::string("temperature range is covered: ") + (gap ? "no" : "yes"));
  h.outcome(std::string("region ") + (pair ? "pair " : "") + (gap ? "gap" : ""));
}
// a phase keeps its minima sorted and unique, whatever the order in which they arrive
static void addcase(const std::vector<int> &order)
{
  Phase p;
  std::set<int> s;
  for (auto t : order)
  {
    Minimum q;
    q.temp      = 10. * t;
    q.point     = {1. * t};
    q.potential = -t;
    p.Add(q);
    h.transitions++;
    s.insert(t);
    std::vector<int> want(s.begin(), s.end());
    bool ok = p.MinimumPhaseVector.size() == want.size();
    for (size_t i = 0; ok && i < want.size(); i++)
      ok = p.MinimumPhaseVector[i].temp == 10. * want[i] && p.MinimumPhaseVector[i].point[0] == want[i] && p.MinimumPhaseVector[i].potential == -want[i];
    if (!h.check(ok, "minima are stored sorted in temperature without duplicates")) return;
    if (want.size() > 1)
    {
      int edges = 0;
      for (size_t i = 1; i + 1 < want.size(); i++) edges += p.MinimumPhaseVector[i].EdgeOfPhase != 0;
      h.check(edges == 0, "no edge inside the phase");
    }
  }
  h.states++;
}
// the whole pipeline: two wells, both existing over the whole scan, that cross at a known temperature
static void tiecase(int mode, double Tc, bool swap, double slope)
{
  // V = k (x^2-v^2)^2 - odd tilt, tilt changes sign at Tc; the deeper well at high temperature must be the false phase
  auto V = [=](const Vec &x, double T) {
    double y = x[0] / 100;
    double s = (swap ? -1 : 1) * slope * (T - Tc) / 100;
    return 1e8 * (0.25 * std::pow(y * y - 1.2, 2) + s * (y - y * y * y / 3.6 / 1.2 * 1.0) / 10);
  };
  auto well = [&](double sgn, double T) {
    double x = sgn * 109, b = V({x}, T);
    for (double st = 4; st > 1e-9; )
    {
      double a = V({x + st}, T), c = V({x - st}, T);
      if (a < b) b = a, x += st;
      else if (c < b) b = c, x -= st;
      else st /= 2;
    }
    return std::make_pair(x, b);
  };
  std::shared_ptr<Class_Potential_Origin> m = std::make_shared<toy::Model>(1, V, Vec{well(well(1, 0).second < well(-1, 0).second ? 1 : -1, 0).first});
  auto t = std::make_shared<MinimumTracer>(m, 6, false);
  Vacuum v(0, 300, t, m, mode, 10, false);
  h.states++;
  double sh = well(1, 300).second < well(-1, 300).second ? 1 : -1; // sign of the field in the well that dominates at high temperature
  if (!h.check(v.status_vacuum == StatusTracing::Success, "tracing succeeds")) return;
  if (!h.check(v.PhasesList.size() == 2, "two phases: " + std::to_string(v.PhasesList.size()))) return;
  if (!h.check(v.CoexPhasesList.size() == 1, "one pair: " + std::to_string(v.CoexPhasesList.size()))) return;
  auto &c = v.CoexPhasesList[0];
  h.check(c.T_low == 0 && c.T_high == 300, "overlap is the whole range");
  h.check(c.false_phase.Get(300).point[0] * sh > 0, "the false phase is the one that dominates at high temperature");
  h.check(c.crit_status == StatusCrit::Success, "the crossing is found: " + StatusCritToString.at(c.crit_status));
  h.close(c.crit_temp, Tc, 1e-4, 1e-3, "critical temperature");
  h.outcome("pipeline mode " + std::to_string(mode));
}

void run_all()
{
  std::vector<std::pair<double, double>> iv{{0, 300}, {0, 120}, {60, 200}, {120, 300}, {150, 300}, {0, 150}};
  if (h.thorough) iv.insert(iv.end(), {{40, 80}, {200, 299.5}, {119.99, 240}});
  // depth curves: constants, lines of both slopes, parabola, cubic (several crossings)
  std::vector<Vec> dc{{-1}, {-4, 2}, {1.3, -2.2}, {-2, 0, 0.61}, {-0.7, 2.1, -1.9, 0.41}};
  for (size_t a = 0; a < iv.size(); a++)
    for (size_t b = 0; b < iv.size(); b++)
    {
      if (iv[b].second > iv[a].second) continue; // the list is sorted by the upper end
      for (size_t x = 0; x < dc.size(); x++)
        for (size_t y = 0; y < dc.size(); y++)
        {
          if (x == y) continue;
          for (int n = 1; n <= (h.thorough ? 3 : 2); n++)
            h.run("pair/" + std::to_string(n) + "/" + std::to_string(a) + std::to_string(b) + "/" + std::to_string(x) + std::to_string(y),
                  [=] { pairs(n, {{iv[a].first, iv[a].second, dc[x]}, {iv[b].first, iv[b].second, dc[y]}}, 20); });
        }
    }
  // the depths cross just inside or just outside an end of the overlap
  for (size_t a = 0; a < iv.size(); a++)
    for (size_t b = 0; b < iv.size(); b++)
    {
      double lo = std::max(iv[a].first, iv[b].first), hi = std::min(iv[a].second, iv[b].second);
      if (iv[b].second > iv[a].second || hi - lo < 5) continue;
      for (double e : {0.03, 0.3, 3., -0.03, -0.3, -3.})
        for (double sl : {1., -1., 0.3, -0.3})
          for (int end = 0; end < 2; end++)
          {
            double T0 = (end ? hi - e : lo + e) / 100; // true - false = sl (T/100 - T0)
            h.run("edge/" + std::to_string(a) + std::to_string(b) + "/" + str(e) + "/" + str(sl) + "/" + std::to_string(end),
                  [=] { pairs(1, {{iv[a].first, iv[a].second, {-1.3, 0.4}}, {iv[b].first, iv[b].second, {-1.3 - sl * T0, 0.4 + sl}}}, 20); });
          }
    }
  // three and four phases
  for (size_t a = 0; a < iv.size(); a++)
    for (size_t b = 0; b < iv.size(); b++)
      for (size_t c = 0; c < iv.size(); c++)
      {
        if (iv[b].second > iv[a].second || iv[c].second > iv[b].second) continue;
        for (int r = 0; r < (h.thorough ? 5 : 2); r++)
        {
          std::vector<Ph> p{{iv[a].first, iv[a].second, dc[r % 5]}, {iv[b].first, iv[b].second, dc[(r + 1) % 5]}, {iv[c].first, iv[c].second, dc[(r + 2) % 5]}};
          h.run("triple/" + std::to_string(a) + std::to_string(b) + std::to_string(c) + "/" + std::to_string(r), [=] { pairs(1, p, 40); });
          if (r == 0)
          {
            h.run("region/" + std::to_string(a) + std::to_string(b) + std::to_string(c), [=] { region(p); });
            h.run("region2/" + std::to_string(a) + std::to_string(c), [=] { region({p[0], p[2]}); });
            auto q = p;
            q.push_back({20, 50, dc[3]});
            h.run("region4/" + std::to_string(a) + std::to_string(b) + std::to_string(c), [=] { region(q); });
          }
        }
      }
  // insertion histories: all sequences over 4 temperatures of length 5
  int L = h.thorough ? 6 : 5;
  for (int code = 0; code < std::pow(4, L); code++)
  {
    std::vector<int> o;
    for (int i = 0, c = code; i < L; i++, c /= 4) o.push_back(c % 4 + 1);
    h.run("add/" + std::to_string(code), [=] { addcase(o); });
  }
  for (int mode : {-1, 0, 1, 2, 3})
    for (double Tc : {80., 150., 220.})
      for (int sw = 0; sw < 2; sw++)
        for (double sl : {0.3, 0.8})
          h.run("tie/" + std::to_string(mode) + "/" + str(Tc) + "/" + std::to_string(sw) + "/" + str(sl), [=] { tiecase(mode, Tc, sw, sl); });
}
HARNESS_MAIN
