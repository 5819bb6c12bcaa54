// C01: every interleaving of the multi-threaded minimum search.
#include "toy.h"
#include "../sched/sched.h"
#include <BSMPT/minimizer/MinimizeGSL.h>
#include <BSMPT/minimizer/Minimizer.h>
#include <BSMPT/models/ClassPotentialR2HDM.h>
#include <gsl/gsl_multimin.h>
#include <sys/wait.h>
#include <thread>
HARNESS_MAIN
using namespace BSMPT;
using namespace BSMPT::Minimizer;

// the number of workers is the number of processors: chosen by the harness
static int wantThreads()
{
  static int t = -1;
  if (t >= 0) return t;
  char b[8192];
  int fd = open("/proc/self/cmdline", O_RDONLY), n = fd < 0 ? 0 : (int)read(fd, b, sizeof b - 1);
  if (fd >= 0) close(fd);
  std::vector<std::string> a;
  for (int i = 0; i < n; i += (int)strlen(b + i) + 1) { b[n] = 0; a.push_back(b + i); }
  t = 2;
  for (size_t i = 0; i + 1 < a.size(); i++)
  {
    if (a[i] == "--only" && a[i + 1].size() > 1 && a[i + 1][0] == 'T') { t = a[i + 1][1] - '0'; break; }
    if (a[i] == "--shard") { int s = atoi(a[i + 1].c_str()); t = s < 3 ? 2 : s < 7 ? 3 : 1; }
  }
  return t;
}
unsigned std::thread::hardware_concurrency() noexcept { return (unsigned)wantThreads(); }

// starting points from which the local minimiser makes no progress
static std::function<bool(double, double)> noProgress;
static thread_local bool failing = false;
static std::vector<Vec> tried;
static bool recording = false;
extern "C" int __real_gsl_multimin_fminimizer_set(gsl_multimin_fminimizer *, gsl_multimin_function *, const gsl_vector *, const gsl_vector *);
extern "C" int __wrap_gsl_multimin_fminimizer_set(gsl_multimin_fminimizer *s, gsl_multimin_function *f, const gsl_vector *x, const gsl_vector *st)
{
  failing = noProgress && noProgress(gsl_vector_get(x, 0), x->size > 1 ? gsl_vector_get(x, 1) : 0);
  if (recording)
  {
    Vec v;
    for (size_t i = 0; i < x->size; i++) v.push_back(gsl_vector_get(x, i));
    tried.push_back(v);
  }
  return __real_gsl_multimin_fminimizer_set(s, f, x, st);
}
extern "C" int __real_gsl_multimin_fminimizer_iterate(gsl_multimin_fminimizer *);
extern "C" int __wrap_gsl_multimin_fminimizer_iterate(gsl_multimin_fminimizer *s)
{
  if (failing) return GSL_ENOPROG;
  return __real_gsl_multimin_fminimizer_iterate(s);
}

struct Scen
{
  std::string name;
  std::shared_ptr<Class_Potential_Origin> m;
  double temp;
  size_t maxsol;
  sched::Opt o;
};

static std::shared_ptr<Class_Potential_Origin> dw1()
{
  return std::make_shared<toy::Model>(1, [](const Vec &x, double) { double a = x[0] * x[0] / 1e4 - 2.25; return 1e6 * (a * a + 0.003 * x[0]); }, Vec{150});
}
static std::shared_ptr<Class_Potential_Origin> part2()
{
  return std::make_shared<toy::Model>(2,
    [](const Vec &x, double) {
      double a = x[0] * x[0] / 1e4 - 2.25, b = x[1] / 100 - 0.5;
      return 1e6 * (a * a + b * b + 0.003 * x[0]);
    },
    Vec{150, 50});
}
static std::shared_ptr<Class_Potential_Origin> r2hdm()
{
  auto m = ModelID::FChoose(ModelID::ModelIDs::R2HDM, GetSMConstants());
  m->initModel(Vec{2.740595, 0.2423556, 5.534491, -2.585467, -2.225991, 7738.56, 4.63286, 1});
  return m;
}

static void gsl(const Scen &s, int T)
{
  // sequential reference
  std::map<Vec, std::pair<int, Vec>> memo;
  GSL_params par(*s.m, s.temp);
  auto seq = [&](const Vec &x) -> std::pair<int, Vec> & {
    auto it = memo.find(x);
    if (it != memo.end()) return it->second;
    Vec sol;
    int st = GSL_Minimize_From_S_gen_all(par, sol, x);
    return memo[x] = {st, sol};
  };
  std::vector<Vec> all, rows;
  tried.clear();
  recording = true;
  std::set<Vec> prepared;
  size_t nprep = 0;
  if (s.name.find("real") == std::string::npos)
  {
    std::vector<Vec> r0;
    GSL_Minimize_gen_all(*s.m, s.temp, 5, r0, 100000, false);
    prepared.insert(tried.begin(), tried.end());
    nprep = tried.size();
    h.check(prepared.size() == nprep, "sequential search: a starting point is tried twice");
    h.check(nprep >= 100, "sequential search gives up after " + std::to_string(nprep) + " starting points");
  }
  std::pair<Vec, bool> res;
  auto st = sched::explore(
      s.o,
      [&] {
        tried.clear();
        rows.clear();
        tried.reserve(1000);
        res = GSL_Minimize_gen_all(*s.m, s.temp, 5, rows, s.maxsol, true);
      },
      [&]() -> bool {
        recording  = false;
        auto where = " [" + sched::schedule() + "]";
        for (auto &r : sched::races()) h.check(false, r + where);
        std::multiset<Vec> want, got;
        std::set<Vec> uniq;
        size_t ok = 0;
        for (auto &x : tried)
        {
          h.check(uniq.insert(x).second, "starting point " + str(x) + " tried twice" + where);
          if (nprep) h.check(prepared.count(x) == 1, "tried starting point " + str(x) + " is not a prepared one" + where);
          auto &q = seq(x);
          if (q.first == GSL_SUCCESS) { want.insert(q.second); ok++; }
        }
        size_t dim = s.m->get_nVEV();
        for (auto &r : rows)
        {
          if (!h.check(r.size() == dim + 2, "solution row has wrong size" + where)) return false;
          got.insert(Vec(r.begin(), r.begin() + dim));
        }
        h.check(want == got, "solutions returned are not those reached: " + std::to_string(got.size()) + " returned, " + std::to_string(want.size()) + " reached" + where);
        h.check(ok >= s.maxsol || (nprep && tried.size() == nprep),
                "search stopped with " + std::to_string(ok) + " of " + std::to_string(s.maxsol) + " solutions after " + std::to_string(tried.size()) + " starting points" + where);
        h.check(ok <= s.maxsol + T - 1, "search found " + std::to_string(ok) + " solutions though " + std::to_string(s.maxsol) + " were wanted" + where);
        h.check(res.second == (ok > 0), "success flag wrong" + where);
        if (ok && res.second && res.first.size() == dim)
        {
          double best = 1e300;
          for (auto &g : got) best = std::min(best, s.m->VEff(s.m->MinimizeOrderVEV(g), s.temp));
          double v = s.m->VEff(s.m->MinimizeOrderVEV(res.first), s.temp);
          h.check(v <= best, "returned minimum (V=" + str(v) + ") is not the deepest found (" + str(best) + ")" + where);
          h.check(got.count(res.first) > 0, "returned minimum is not one of the solutions" + where);
        }
        h.outcome(s.name + " found " + std::to_string(ok) + " tried " + std::to_string(tried.size()) + " best " + (res.second ? str(res.first) : "none"));
        recording = true;
        h.traces++;
        return h.violations.size() < 3;
      });
  recording = false;
  h.states += st.points;
  h.transitions += st.schedules;
  h.capped |= st.capped;
  h.notes["schedules"] += st.schedules;
  h.notes["max_points_per_execution"] = std::max<double>(h.notes["max_points_per_execution"], st.maxpoints);
  h.notes["context_switches"] += st.switches;
  h.sample(s.name + ": " + std::to_string(st.schedules) + " schedules, last " + sched::schedule());
}

// the combination of the minimisers running in parallel
static void combo(const Scen &s, int which, double vmin)
{
  Vec sol, check;
  std::shared_ptr<Class_Potential_Origin> m = s.m;
  auto st = sched::explore(
      s.o,
      [&] {
        check.clear();
        sol = Minimize_gen_all(m, s.temp, check, Vec(m->get_nVEV(), 0), which, true);
      },
      [&]() -> bool {
        auto where = " [" + sched::schedule() + "]";
        for (auto &r : sched::races()) h.check(false, r + where);
        if (h.check(sol.size() == m->get_nVEV(), "result has dimension " + std::to_string(sol.size()) + where))
        {
          double v = m->VEff(m->MinimizeOrderVEV(sol), s.temp);
          h.check(std::isfinite(v) && v <= vmin + 1e-4 * (1 + std::abs(vmin)), "result V=" + str(v) + " is above the deepest minimum " + str(vmin) + where);
        }
        h.check(!check.empty() && check.back() == 1, "GSL verdict missing" + where);
        std::string o = s.name;
        for (auto x : sol) o += " " + std::to_string((long)std::lround(x));
        h.outcome(o);
        h.traces++;
        return h.violations.size() < 3;
      });
  h.states += st.points;
  h.transitions += st.schedules;
  h.capped |= st.capped;
  h.notes["schedules"] += st.schedules;
  h.notes["max_points_per_execution"] = std::max<double>(h.notes["max_points_per_execution"], st.maxpoints);
  h.sample(s.name + ": " + std::to_string(st.schedules) + " schedules");
}

void run_all()
{
  int T = wantThreads();
  int lanes = 1, lane = 0;
  if (h.only.empty())
  {
    lanes    = T == 2 ? 3 : T == 3 ? 4 : 1;
    lane     = T == 2 ? h.shard : T == 3 ? h.shard - 3 : 0;
    h.shard  = 0;
    h.nshards = 1;
  }
  h.assumptions = {"sequentially consistent execution; scheduling points at synchronisation operations (sufficient when no data race exists, which is checked on every execution)",
                   "GSL and NLopt are treated as thread-safe libraries", "preemption bound as in the case names"};
  std::string t = "T" + std::to_string(T) + "/";
  std::function<bool(double, double)> fails;
  auto go = [&](const std::string &name, int parts, const std::function<void(Scen &)> &f, std::shared_ptr<Class_Potential_Origin> m, double temp, size_t maxsol, int pb, long first = 1L << 60, long last = 0) {
    for (int p = 0; p < parts; p++)
    {
      if (h.only.empty() && p % lanes != lane) continue;
      Scen s;
      s.name = t + name + "/pb" + std::to_string(pb) + "/part" + std::to_string(p);
      s.m = m; s.temp = temp; s.maxsol = maxsol;
      s.o.pb = pb; s.o.part = p; s.o.nparts = parts; s.o.first = first; s.o.last = last;
      double t0 = (double)clock() / CLOCKS_PER_SEC;
      noProgress = fails;
      h.run(s.name, [&] { f(s); });
      noProgress = nullptr;
      if (getenv("CHK_VERBOSE")) fprintf(stderr, "%s %.1fs %s\n", s.name.c_str(), (double)clock() / CLOCKS_PER_SEC - t0, h.samples.empty() ? "" : h.samples.back().c_str()), h.samples.clear();
    }
  };
  auto g = [T](Scen &s) { gsl(s, T); };
  auto rare = [](double r) { return [r](double x, double y) { return std::hypot(x - 300, y - 200) > r; }; };
  if (T == 0)
  {
    // a platform that cannot tell its number of processors reports 0
    go("unknown-cpus", 1, [](Scen &s) { gsl(s, 1); }, dw1(), 0, 2, 1);
    return;
  }
  int parts = T == 2 ? 12 : T == 3 ? 24 : 1;
  int q = h.thorough ? 1 : 0;
  for (size_t ms : {1, 2, 3, 5})
  {
    if (T == 3 && ms == 5 && !h.thorough) continue;
    go("early-stop/double-well/max" + std::to_string(ms), parts, g, dw1(), 0, ms, 2 + q + (T == 2 && ms <= 3));
    fails = [](double x, double y) { return x > 100 && y > -200; };
    if (ms <= 3) go("early-stop/partial/max" + std::to_string(ms), parts, g, part2(), 0, ms, 2 + (ms <= 2 ? q : 0));
    fails = nullptr;
  }
  int parts0 = parts;
  parts      = lanes;
  if (!h.only.empty()) parts = T == 2 ? 3 : T == 3 ? 4 : 1;
  fails = [](double, double) { return true; };
  go("exhaust/never", parts, g, part2(), 0, 3, 1 + q, 8, 24);
  fails = rare(40);
  go("exhaust/rare", parts, g, part2(), 0, 1000, 1 + q, 8, 24);
  fails = rare(30);
  go("exhaust/exact", parts, g, part2(), 0, 4, 1 + q, 8, 24);
  fails = nullptr;
  parts = parts0;
  go("minimizers/double-well", parts, [](Scen &s) { combo(s, 6, s.m->VEff({-150.75}, 0)); }, dw1(), 0, 20, 1, T == 3 && !q ? 12 : 1L << 60, T == 3 && !q ? 12 : 0);
  go("minimizers/gsl-only", 1, [](Scen &s) { combo(s, 2, s.m->VEff({-150.75}, 0)); }, dw1(), 0, 50, 0);
  if (T == 2) go("real/R2HDM", 3, g, r2hdm(), 100, 1, q, 6, 6);
  if (T == 1 && h.only.empty())
    h.run("T0/unknown-cpus", [&] {
      const char *w = getenv("CHK_WORK");
      std::string o = std::string(w ? w : "/tmp") + "/t0.json";
      pid_t p = fork();
      if (!p)
      {
        execl("/proc/self/exe", "c01", "--tier", h.tier.c_str(), "--only", "T0/unknown-cpus/pb1/part0", "--out", o.c_str(), (char *)0);
        _exit(99);
      }
      int s = -1;
      waitpid(p, &s, 0);
      std::ifstream in(o);
      std::string j((std::istreambuf_iterator<char>(in)), {});
      h.check(s == 0 && j.find("\"violations\":[]") != std::string::npos, "with an unknown number of processors: status " + std::to_string(s) + " " + j.substr(j.find("\"viol") == std::string::npos ? 0 : j.find("\"viol")));
    });
}
