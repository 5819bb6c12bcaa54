// P02: the programs.  Every run starts the real program (src/prog/*.cpp) in a scratch directory.
#include "models.h"
#include "p02_model.h"
#include <BSMPT/minimizer/Minimizer.h>
#include <BSMPT/minimum_tracer/minimum_tracer.h>
#include <BSMPT/transition_tracer/transition_tracer.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
using namespace BSMPT;
using S  = std::string;
using VS = std::vector<S>;
using KV = std::vector<std::pair<S, S>>;

static S dir; // scratch directory of this process
static S file(const S &n) { return dir + "/" + n; }
static S slurp(const S &f)
{
  std::ifstream i(f);
  std::stringstream s;
  s << i.rdbuf();
  return s.str();
}
static VS cells(const S &s, char c)
{
  VS r(1);
  for (char x : s)
    if (x == c)
      r.emplace_back();
    else
      r.back() += x;
  return r;
}
struct Table
{
  bool exists = false;
  VS lines;
};
static Table table(const S &n)
{
  Table t;
  struct stat st;
  if (stat(file(n).c_str(), &st) != 0) return t;
  t.exists = true;
  S s      = slurp(file(n));
  if (s.size() && s.back() == '\n') s.pop_back();
  if (s.size()) t.lines = cells(s, '\n');
  return t;
}
static int start(const S &prog, const VS &args, int toy)
{
  S bin = S(getenv("CHK_BIN")) + "/prog_" + prog;
  pid_t p = fork();
  if (p == 0)
  {
    if (chdir(dir.c_str()) != 0) _exit(99);
    int fd = open("log", O_WRONLY | O_CREAT | O_TRUNC, 0644), nul = open("/dev/null", O_RDONLY);
    dup2(fd, 1), dup2(fd, 2), dup2(nul, 0);
    if (toy)
      setenv("P02_TOY", std::to_string(toy).c_str(), 1);
    else
      unsetenv("P02_TOY");
    std::vector<char *> a{(char *)bin.c_str()};
    for (auto &x : args) a.push_back((char *)x.c_str());
    a.push_back(nullptr);
    alarm(h.casetimeout);
    execv(bin.c_str(), a.data());
    _exit(98);
  }
  int st = 0;
  waitpid(p, &st, 0);
  return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
}
// notations of the same settings: --key=value, bare values in the documented order, a JSON file
static VS arguments(const KV &kv, int notation)
{
  VS r;
  if (notation == 0)
    for (auto &x : kv) r.push_back("--" + x.first + "=" + x.second);
  else if (notation == 1)
    for (auto &x : kv) r.push_back(x.second);
  else
  {
    std::ofstream o(file("set.json"));
    o << "{\n";
    for (size_t i = 0; i < kv.size(); i++) o << "  \"" << kv[i].first << "\": \"" << kv[i].second << "\"" << (i + 1 < kv.size() ? "," : "") << "\n";
    o << "}\n";
    r.push_back("--json=" + file("set.json"));
  }
  return r;
}
static const char *NOT[] = {"named", "bare", "json"};

static S fmt(double d)
{
  char b[64];
  snprintf(b, 64, "%.17g", d);
  return b;
}
// one expected value: a text (compared literally), a number, or anything
struct E
{
  int kind; // 0 text, 1 number, 2 any number, 3 magnitude
  S t;
  double x;
  E(const S &s) : kind(0), t(s) {}
  E(const char *s) : kind(0), t(s) {}
  E(double d) : kind(1), x(d) {}
  E(int k, int) : kind(k) {}
};
using Row = std::vector<E>;
static const E ANY(2, 0);
static void put(Row &r, const Vec &v)
{
  for (double d : v) r.push_back(d);
}
static void put_abs(Row &r, const Vec &v) // the potentials are symmetric under reflections
{
  for (double d : v)
  {
    E e(std::abs(d));
    e.kind = 3;
    r.push_back(e);
  }
}
static bool cmp(const S &line, const Row &want, double rel, double abs, const S &what, const VS &names)
{
  auto c = cells(line, '\t');
  if (!h.check(c.size() == want.size(), what + ": " + std::to_string(c.size()) + " columns, expected " + std::to_string(want.size()) + ": " + line.substr(0, 200))) return false;
  for (size_t i = 0; i < c.size(); i++)
  {
    auto &w = want[i];
    S nm    = what + " column " + (i < names.size() ? names[i] : std::to_string(i));
    if (w.kind == 0)
    {
      if (!h.check(c[i] == w.t, nm + ": got '" + c[i] + "', expected '" + w.t + "'")) return false;
      continue;
    }
    char *e;
    double g = std::strtod(c[i].c_str(), &e);
    if (!h.check(!c[i].empty() && *e == 0, nm + ": not a number: '" + c[i] + "'")) return false;
    if (w.kind == 3) g = std::abs(g);
    if (w.kind & 1)
    {
      bool ok = std::isnan(w.x) ? std::isnan(g) : std::abs(g - w.x) <= abs + rel * std::abs(w.x);
      if (!h.check(ok, nm + ": got " + str(g) + ", expected " + str(w.x))) return false;
    }
  }
  return true;
}
static VS cat(std::initializer_list<VS> l)
{
  VS r;
  for (auto &x : l) r.insert(r.end(), x.begin(), x.end());
  return r;
}
static Row texts(const VS &v) { return Row(v.begin(), v.end()); }

// an input file
struct In
{
  S name;
  VS head, rows; // columns of the header; complete lines
  bool index;
  void write(bool newline = true) const
  {
    std::ofstream o(file(name));
    o << (index ? "\t" : "");
    for (size_t i = 0; i < head.size(); i++) o << (i ? "\t" : "") << head[i];
    for (auto &r : rows) o << "\n" << r;
    if (newline) o << "\n";
  }
  VS legend() const { return index ? cat({VS{""}, head}) : head; }
};

// ---- input-driven potentials
static const std::vector<Vec> DIRS = {{0.15, 3600, 0.1, 0, 0.06}, {0.2, -1600, 0.06, 9, 0.12}, {0.2, -1600, 0.06, 20, 0.12}, {0.2, 8100, 0, 0, 0.1}, {0.3, -100, 0, 0, 0.1}, {0.2, 60 * 60, 0.08, 0, 0.1}, {0.15, 90 * 90, 0.1, 0, 0.1}, {0.2, 14400, 0.1, 0, 0.12}};
static std::vector<Vec> toy_points(size_t n)
{
  std::vector<Vec> r;
  auto add = [&](const std::vector<int> &k, double s) {
    Vec p;
    for (size_t i = 0; i < n; i++) p.insert(p.end(), DIRS[k[i % k.size()]].begin(), DIRS[k[i % k.size()]].end());
    p.push_back(s);
    r.push_back(p);
  };
  if (n == 1)
    add({0}, 0), add({3}, 0), add({1}, 0), add({0}, 9), add({2}, 0), add({7}, 0);
  else
    add({5, 6}, 0), add({3, 4}, 0), add({0, 4}, 0), add({5, 6}, 11), add({4, 7}, 0);
  return r;
}
static In toy_in(size_t n, bool index, int rot = 0)
{
  In in;
  in.name = "in.tsv", in.index = index;
  for (size_t i = 0; i < n; i++)
    for (S c : {"D", "t0", "E", "e", "lam"}) in.head.push_back(c + std::to_string(i));
  in.head.push_back("shift");
  in.head.push_back("comment");
  auto pts = toy_points(n);
  for (size_t k = 0; k < pts.size(); k++)
  {
    auto &p = pts[(k + rot) % pts.size()];
    VS c;
    if (index) c.push_back(std::to_string(k + 3));
    for (double d : p) c.push_back(fmt(d));
    c.push_back("12.5");
    in.rows.push_back(mo::join(c, "\t"));
  }
  return in;
}
static std::shared_ptr<Class_Potential_Origin> toy_model(size_t n, const Vec &p)
{
  auto m = std::make_shared<p02::M>(n);
  m->initModel(p);
  return m;
}

// settings of the transition programs
struct Opt
{
  double thigh = 300, vwall = 0.95, perc = 0.71, comp = 0.01, eps = 0.1;
  int mode = -1, pts = 10, ewsr = 1, nlo = 1, mpi = 7, which = 3, mini = Minimizer::WhichMinimizerDefault;
  bool mt = false;
};
static const VS &vev(size_t n)
{
  static std::map<size_t, VS> m;
  auto &r = m[n];
  if (r.empty())
    for (size_t i = 0; i < n; i++) r.push_back("w" + std::to_string(i));
  return r;
}
static VS tlegend(size_t n, size_t pairs, bool gw)
{
  VS r = {"status_nlo_stability", "status_ewsr", "status_tracing", "status_coex_pairs", "runtime"};
  for (size_t i = 0; i < pairs; i++)
  {
    S s        = "_" + std::to_string(i);
    auto block = [&](const S &nm) {
      r.push_back("T_" + nm + s);
      for (S k : {"_false", "_true"})
        for (auto &v : vev(n)) r.push_back(v + "_" + nm + k + s);
    };
    r.push_back("status_crit" + s);
    block("crit");
    r.push_back("status_bounce_sol" + s);
    for (S nm : {"nucl_approx", "nucl", "perc", "compl"}) r.push_back("status_" + nm + s), block(nm);
    if (gw)
      for (S nm : {"status_gw", "trans_temp", "v_wall", "alpha_PT", "beta/H", "K_sw", "fpeak_sw", "h2OmegaPeak_sw", "SNR(LISA-3yrs)_sw", "K_turb", "fpeak_turb", "h2OmegaPeak_turb", "SNR(LISA-3yrs)_turb", "SNR(LISA-3yrs)"}) r.push_back(nm + s);
  }
  return r;
}
struct Trans
{
  Row row; // without the input line and without the history
  size_t pairs;
  S history;
};
static const Trans &trans(size_t n, const Vec &p, const Opt &o, bool gw)
{
  static std::map<S, Trans> memo;
  Vec id = p;
  for (double d : {o.thigh, o.vwall, o.perc, o.comp, gw ? o.eps : 0.1}) id.push_back(d);
  for (int d : {o.mode, o.pts, o.ewsr, o.nlo, o.mpi, gw ? o.which : 0, o.mini, (int)gw, (int)n}) id.push_back(d);
  S key;
  for (double d : id) key += fmt(d) + ",";
  auto it = memo.find(key);
  if (it != memo.end()) return it->second;
  user_input in;
  in.modelPointer = toy_model(n, p);
  in.T_low = 0, in.T_high = o.thigh, in.vwall = o.vwall, in.perc_prbl = o.perc, in.compl_prbl = o.comp, in.epsturb = gw ? o.eps : 0.1, in.maxpathintegrations = o.mpi, in.multistepmode = o.mode;
  in.num_points = o.pts, in.ewsr_check = o.ewsr, in.nlo_check = o.nlo, in.which_minimizer = o.mini, in.use_multithreading = false, in.gw_calculation = gw, in.which_transition_temp = o.which;
  TransitionTracer t(in);
  auto &r = t.output_store;
  auto &s = r.status;
  Trans x;
  Row &w  = x.row;
  double NaN = std::nan("");
  put(w, dynamic_cast<p02::M &>(*in.modelPointer).calc_CT());
  w.push_back(StatusNLOStabilityToString.at(s.status_nlo_stability));
  w.push_back(StatusEWSRToString.at(s.status_ewsr));
  w.push_back(StatusTracingToString.at(s.status_tracing));
  w.push_back(StatusCoexPairToString.at(s.status_coex_pairs));
  w.push_back(ANY);
  bool done = s.status_tracing == StatusTracing::Success && s.status_coex_pairs == StatusCoexPair::Success;
  x.pairs   = done ? r.num_coex_phase_pairs : 0;
  for (size_t i = 0; i < x.pairs; i++)
  {
    auto &d = r.vec_trans_data[i];
    auto &g = r.vec_gw_data[i];
    auto bl = [&](const std::optional<double> &T, const Vec &f, const Vec &tr) { w.push_back(T.value_or(NaN)), put(w, f), put(w, tr); };
    w.push_back(StatusCritToString.at(s.status_crit[i]));
    bl(d.crit_temp, d.crit_false_vev, d.crit_true_vev);
    w.push_back(StatusGWToString.at(s.status_bounce_sol[i]));
    w.push_back(StatusTemperatureToString.at(s.status_nucl_approx[i])), bl(d.nucl_approx_temp, d.nucl_approx_false_vev, d.nucl_approx_true_vev);
    w.push_back(StatusTemperatureToString.at(s.status_nucl[i])), bl(d.nucl_temp, d.nucl_false_vev, d.nucl_true_vev);
    w.push_back(StatusTemperatureToString.at(s.status_perc[i])), bl(d.perc_temp, d.perc_false_vev, d.perc_true_vev);
    w.push_back(StatusTemperatureToString.at(s.status_compl[i])), bl(d.compl_temp, d.compl_false_vev, d.compl_true_vev);
    if (gw)
    {
      w.push_back(StatusGWToString.at(g.status_gw));
      for (auto &v : {g.trans_temp, g.vwall, g.alpha, g.beta_over_H, g.K_sw, g.fpeak_sw, g.h2Omega_sw, g.SNR_sw, g.K_turb, g.fpeak_turb, g.h2Omega_turb, g.SNR_turb, g.SNR}) w.push_back(v.value_or(NaN));
    }
  }
  x.history = r.transition_history;
  return memo[key] = x;
}

static void transition(bool gw, size_t n, int i, int j, int notation, bool index, const KV &extra, const Opt &o, int rot, bool newline)
{
  In in = toy_in(n, index, rot);
  in.write(newline);
  S out = file("out.tsv");
  unlink(out.c_str());
  KV kv = {{"model", "sm"}, {"input", file("in.tsv")}, {"output", out}, {"firstline", std::to_string(i)}, {"lastline", std::to_string(j)}};
  kv.insert(kv.end(), extra.begin(), extra.end());
  S prog = gw ? "CalcGW" : "CalcTemps";
  int rc = start(prog, arguments(kv, notation), n);
  h.transitions++;
  if (!h.check(rc == 0, "exit status " + std::to_string(rc) + ": " + slurp(file("log")).substr(0, 300))) return;
  auto pts   = toy_points(n);
  auto t     = table("out.tsv");
  int lo     = std::max(2, i), hi = std::min<int>(j, pts.size() + 1);
  size_t mx  = 0;
  for (int k = lo; k <= hi; k++) mx = std::max(mx, trans(n, pts[(k - 2 + rot) % pts.size()], o, gw).pairs);
  if (lo > hi)
  {
    h.check(!t.exists || t.lines.size() <= 1, "output without a selected line: " + (t.lines.empty() ? S() : t.lines.back().substr(0, 200)));
    h.outcome(prog + " empty range");
    return;
  }
  VS leg = cat({in.legend(), VS{"dA", "dB"}, tlegend(n, mx, gw), VS{"transition_history"}});
  if (!h.check(t.exists && (int)t.lines.size() == hi - lo + 2, prog + " " + std::to_string(t.lines.size()) + " lines for the input lines " + std::to_string(lo) + " to " + std::to_string(hi))) return;
  cmp(t.lines[0], texts(leg), 0, 0, "header", {});
  S cls;
  for (int k = lo; k <= hi; k++)
  {
    h.states++;
    auto &x = trans(n, pts[(k - 2 + rot) % pts.size()], o, gw);
    Row w   = texts(cells(in.rows[k - 2], '\t'));
    w.insert(w.end(), x.row.begin(), x.row.end());
    size_t fill = tlegend(n, mx, gw).size() - tlegend(n, x.pairs, gw).size();
    for (size_t q = 0; q < fill; q++) w.push_back(std::nan(""));
    w.push_back(x.history);
    cmp(t.lines[k - lo + 1], w, 1e-9, 1e-12, "line " + std::to_string(k), leg);
    cls += " " + std::to_string(x.pairs);
  }
  h.outcome(prog + " n" + std::to_string(n) + (hi - lo > 1 ? " several" : cls) + (index ? " index" : ""));
}

static void minima(size_t n, int i, int j, int notation, bool index, const KV &extra, const Opt &o)
{
  In in = toy_in(n, index);
  in.write();
  for (int k = 0; k < 12; k++) unlink(file("out_" + std::to_string(k) + ".tsv").c_str());
  KV kv = {{"model", "sm"}, {"input", file("in.tsv")}, {"output", file("out")}, {"firstline", std::to_string(i)}, {"lastline", std::to_string(j)}};
  kv.insert(kv.end(), extra.begin(), extra.end());
  int rc = start("MinimaTracer", arguments(kv, notation), n);
  h.transitions++;
  if (!h.check(rc == 0, "exit status " + std::to_string(rc) + ": " + slurp(file("log")).substr(0, 300))) return;
  auto pts = toy_points(n);
  int lo = std::max(2, i), hi = std::min<int>(j, pts.size() + 1), nf = 0;
  for (int k = 0; k < 12; k++) nf += table("out_" + std::to_string(k) + ".tsv").exists;
  h.check(nf == std::max(0, hi - lo + 1), std::to_string(nf) + " files for the input lines " + std::to_string(lo) + " to " + std::to_string(hi));
  for (int k = lo; k <= hi; k++)
  {
    h.states++;
    auto t = table("out_" + std::to_string(k - lo + 1) + ".tsv");
    S id   = "line " + std::to_string(k);
    if (!h.check(t.exists && t.lines.size() > 1, id + ": output missing")) return;
    auto m = toy_model(n, pts[k - 2]);
    auto mt = std::make_shared<MinimumTracer>(m, o.mini, false);
    auto nlo = mt->GetStatusNLOVEV(m->CheckNLOVEV(mt->ConvertToVEVDim(mt->GetGlobalMinimum(0))));
    auto ew  = o.ewsr ? mt->GetStatusEWSR(mt->IsThereEWSymmetryRestoration()) : StatusEWSR::Off;
    double thigh = o.thigh;
    Vacuum v(0, thigh, mt, m, o.mode, o.pts, true);
    VS leg = cat({in.legend(), VS{"dA", "dB", "status_nlo_stability", "status_ewsr", "status_tracing"}});
    size_t len = 1;
    for (size_t q = 0; q < v.PhasesList.size(); q++)
    {
      S s = "Temp_" + std::to_string(q);
      leg.push_back(s);
      for (auto &x : vev(n)) leg.push_back(x + "(" + s + ")");
      leg.push_back("Veff(" + s + ")");
      len = std::max(len, v.PhasesList[q].MinimumPhaseVector.size());
    }
    leg.push_back("runtime");
    cmp(t.lines[0], texts(leg), 0, 0, id + " header", {});
    if (!h.check(t.lines.size() == len + 1, id + ": " + std::to_string(t.lines.size() - 1) + " points, expected " + std::to_string(len))) return;
    for (size_t a = 0; a < len; a++)
    {
      Row w = texts(cells(in.rows[k - 2], '\t'));
      put(w, m->calc_CT());
      w.push_back(StatusNLOStabilityToString.at(nlo)), w.push_back(StatusEWSRToString.at(ew)), w.push_back(StatusTracingToString.at(v.status_vacuum));
      for (auto &ph : v.PhasesList)
        if (a < ph.MinimumPhaseVector.size())
        {
          auto &x = ph.MinimumPhaseVector[a];
          w.push_back(x.temp), put(w, x.point), w.push_back(x.potential);
        }
        else
          for (size_t q = 0; q < n + 2; q++) w.push_back(std::nan(""));
      w.push_back(ANY);
      if (!cmp(t.lines[a + 1], w, 1e-9, 1e-9, id + " point " + std::to_string(a), leg)) return;
    }
    h.outcome("MinimaTracer n" + std::to_string(n) + " " + StatusTracingToString.at(v.status_vacuum) + " phases" + std::to_string(v.PhasesList.size()));
  }
}

// programs that write one line per input line: BSMPT, NLOVEV, CalcCT, TripleHiggsNLO
struct Src
{
  int toy = 0;        // number of directions, or
  const mo::Spec *s = nullptr; // a shipped model
  std::vector<Vec> pts;
  In in;
};
static Src source(int toy, const S &model, bool index, size_t npts)
{
  Src r;
  r.toy = toy;
  if (toy)
  {
    r.in  = toy_in(toy, index);
    r.pts = toy_points(toy);
    return r;
  }
  r.s     = &mo::spec(model);
  auto ps = mo::points(model, false);
  for (size_t k = 0; k < npts && k < ps.size(); k++) r.pts.push_back(ps[k * std::max<size_t>(1, ps.size() / npts)].par);
  r.in.name = "in.tsv", r.in.index = index;
  size_t nc = 0;
  for (size_t k = 0; k < r.pts.size(); k++)
  {
    VS c = mo::columns(*r.s, r.pts[k], mo::fmt17);
    nc   = c.size();
    if (index) c.insert(c.begin(), std::to_string(k + 1));
    c.push_back("0.25");
    r.in.rows.push_back(mo::join(c, "\t"));
  }
  for (size_t k = 0; k < nc; k++) r.in.head.push_back("par" + std::to_string(k));
  r.in.head.push_back("comment");
  return r;
}
static std::shared_ptr<Class_Potential_Origin> model_of(const Src &s, size_t k)
{
  if (s.toy) return toy_model(s.toy, s.pts[k]);
  auto sm = GetSMConstants();
  std::shared_ptr<Class_Potential_Origin> m = ModelID::FChoose(s.s->id, sm);
  m->initModel(s.pts[k]);
  return m;
}
static S lower(S s)
{
  for (auto &c : s) c = tolower(c);
  return s;
}
static const Row &expected(const S &prog, const Src &s, size_t k, int mini)
{
  static std::map<S, Row> memo;
  S key = prog + std::to_string(mini) + (s.toy ? std::to_string(s.toy) : s.s->name);
  for (double d : s.pts[k]) key += "," + fmt(d);
  auto it = memo.find(key);
  if (it != memo.end()) return it->second;
  Row w;
  auto m = model_of(s, k);
  put(w, m->get_parCTStored());
  if (prog == "NLOVEV")
  {
    Vec chk;
    Vec sol = Minimizer::Minimize_gen_all(m, 0, chk, m->get_vevTreeMin(), mini, false);
    (s.toy ? put_abs : put)(w, sol), w.push_back(m->EWSBVEV(m->MinimizeOrderVEV(sol)));
  }
  else if (prog == "BSMPT")
  {
    auto r = Minimizer::PTFinder_gen_all(m, 0, 300, mini, false);
    w.push_back(r.Tc), w.push_back(r.vc);
    w.push_back(r.StatusFlag == Minimizer::MinimizerStatus::SUCCESS && r.vc > C_PT * r.Tc ? r.vc / r.Tc : (double)(int)r.StatusFlag);
    (s.toy ? put_abs : put)(w, r.EWMinimum);
  }
  else if (prog == "TripleHiggsNLO")
  {
    m->Prepare_Triple();
    m->TripleHiggsCouplings();
    size_t N = m->get_NHiggs();
    for (size_t i = 0; i < N; i++)
      for (size_t j = i; j < N; j++)
        for (size_t l = j; l < N; l++) w.push_back(-m->get_TripleHiggsCorrectionsTreePhysical(i, j, l)), w.push_back(-m->get_TripleHiggsCorrectionsCTPhysical(i, j, l)), w.push_back(-m->get_TripleHiggsCorrectionsCWPhysical(i, j, l));
  }
  return memo[key] = w;
}
static void lines(const S &prog, const Src &s, int i, int j, int notation, const KV &extra, int mini, bool newline)
{
  s.in.write(newline);
  unlink(file("out.tsv").c_str());
  KV kv = {{"model", s.toy ? "sm" : lower(s.s->name)}, {"input", file("in.tsv")}, {"output", file("out.tsv")}, {"firstLine", std::to_string(i)}, {"lastLine", std::to_string(j)}};
  kv.insert(kv.end(), extra.begin(), extra.end());
  int rc = start(prog, arguments(kv, notation), s.toy);
  h.transitions++;
  if (!h.check(rc == 0, "exit status " + std::to_string(rc) + ": " + slurp(file("log")).substr(0, 300))) return;
  auto t = table("out.tsv");
  int lo = std::max(2, i), hi = std::min<int>(j, s.pts.size() + 1);
  static std::map<S, std::shared_ptr<Class_Potential_Origin>> first;
  auto &m = first[s.toy ? std::to_string(s.toy) : s.s->name];
  if (!m) m = model_of(s, 0);
  VS leg = cat({s.in.legend(), m->addLegendCT()});
  if (prog == "NLOVEV") leg = cat({leg, m->addLegendVEV(), VS{"v_NLO"}});
  if (prog == "BSMPT") leg = cat({leg, m->addLegendTemp()});
  if (prog == "TripleHiggsNLO") leg = cat({leg, m->addLegendTripleCouplings()});
  if (!h.check(t.exists && (int)t.lines.size() == 1 + std::max(0, hi - lo + 1), std::to_string(t.lines.size()) + " lines for the input lines " + std::to_string(lo) + " to " + std::to_string(hi) + (t.lines.empty() ? "" : ", last one: " + t.lines.back().substr(0, 120)))) return;
  cmp(t.lines[0], texts(leg), 0, 0, "header", {});
  for (int k = lo; k <= hi; k++)
  {
    h.states++;
    Row w   = texts(cells(s.in.rows[k - 2], '\t'));
    auto &x = expected(prog, s, k - 2, mini);
    w.insert(w.end(), x.begin(), x.end());
    cmp(t.lines[k - lo + 1], w, 6e-6, s.toy ? 1e-3 : 1e-9, "line " + std::to_string(k), leg);
  }
  h.outcome(prog + " " + (s.toy ? "n" + std::to_string(s.toy) : s.s->name) + " rows" + std::to_string(std::max(0, hi - lo + 1)) + (s.in.index ? " index" : ""));
}

static void vevevo(size_t n, int line, double a, double d, double b, int notation, bool index, bool newline)
{
  In in = toy_in(n, index);
  in.write(newline);
  unlink(file("out.tsv").c_str());
  KV kv = {{"model", "sm"}, {"input", file("in.tsv")}, {"output", file("out.tsv")}, {"line", std::to_string(line)}, {"temperatureStart", str(a)}, {"temperatureStep", str(d)}, {"temperatureEnd", str(b)}};
  if (notation != 1) kv.push_back({"useMultithreading", "false"});
  int rc   = start("VEVEVO", arguments(kv, notation), n);
  auto pts = toy_points(n);
  h.transitions++;
  if (line < 2 || line > (int)pts.size() + 1)
  {
    h.check(rc != 0 && rc < 1000, "line " + std::to_string(line) + " does not hold a point, exit status " + std::to_string(rc));
    h.outcome("VEVEVO no point");
    return;
  }
  if (!h.check(rc == 0, "exit status " + std::to_string(rc) + ": " + slurp(file("log")).substr(0, 300))) return;
  auto t  = table("out.tsv");
  size_t N = (size_t)std::floor((b - a) / d + 1e-9) + 1;
  if (!h.check(t.exists && t.lines.size() == N + 1, std::to_string(t.lines.size()) + " lines, expected " + std::to_string(N + 1))) return;
  VS leg = cat({VS{"T", "v"}, vev(n), VS{"Veff(v,T)"}});
  cmp(t.lines[0], texts(leg), 0, 0, "header", {});
  auto m = toy_model(n, pts[line - 2]);
  Vec sol = m->get_vevTreeMin();
  for (size_t k = 0; k < N; k++)
  {
    h.states++;
    double T = a + k * d;
    Vec chk;
    sol = Minimizer::Minimize_gen_all(m, T, chk, sol, Minimizer::WhichMinimizerDefault, false);
    Row w{T, m->EWSBVEV(m->MinimizeOrderVEV(sol))};
    put_abs(w, sol), w.push_back(m->VEff(m->MinimizeOrderVEV(sol), T, 0));
    cmp(t.lines[k + 1], w, 1e-6, 1e-3, "T=" + str(T), leg);
  }
  h.outcome("VEVEVO n" + std::to_string(n));
}

// PotPlotter: potential on a grid (all subsets of the directions) or on a straight slice
static void grid(size_t n, int line, double T, const std::vector<int> &np, bool point, bool index, int notation)
{
  In in = toy_in(n, index);
  in.write();
  unlink(file("out.tsv").c_str());
  KV kv = {{"model", "sm"}, {"input", file("in.tsv")}, {"output", file("out.tsv")}, {"line", std::to_string(line)}, {"temperature", str(T)}};
  Vec pt(n, 0), lo(n), hi(n);
  S ps;
  for (size_t i = 0; i < n; i++)
  {
    if (point) pt[i] = 11 + 7 * i;
    ps += (i ? "," : "") + str(pt[i]);
    lo[i] = -10. * (i + 1), hi[i] = 30. * (i + 1);
    if (np[i]) kv.push_back({"npoints" + std::to_string(i + 1), std::to_string(np[i])}), kv.push_back({"low" + std::to_string(i + 1), str(lo[i])}), kv.push_back({"high" + std::to_string(i + 1), str(hi[i])});
  }
  if (point) kv.push_back({"point", ps});
  int rc   = start("PotPlotter", arguments(kv, notation), n);
  auto pts = toy_points(n);
  h.transitions++;
  if (line < 2 || line > (int)pts.size() + 1)
  {
    h.check(rc != 0 && rc < 1000, "line " + std::to_string(line) + " does not hold a point, exit status " + std::to_string(rc));
    return;
  }
  if (!h.check(rc == 0, "exit status " + std::to_string(rc) + ": " + slurp(file("log")).substr(0, 300))) return;
  auto t = table("out.tsv");
  VS leg = vev(n);
  for (auto &v : vev(n)) leg.push_back(v + "_point");
  leg = cat({leg, VS{"Veff(v,T)", "Veff(point,T)", "T"}});
  auto m = toy_model(n, pts[line - 2]);
  // every point of the product grid, in lexicographic order; directions without points stay at the reference point
  std::vector<Vec> g{{}};
  for (size_t i = 0; i < n; i++)
  {
    std::vector<Vec> q;
    for (auto &x : g)
    {
      Vec y = x;
      y.push_back(0);
      if (np[i] == 0) y.back() = pt[i], q.push_back(y);
      for (int k = 0; k <= np[i] && np[i]; k++) y.back() = lo[i] + k * (hi[i] - lo[i]) / np[i], q.push_back(y);
    }
    g = q;
  }
  if (!h.check(t.exists && t.lines.size() == g.size() + 1, std::to_string(t.lines.size()) + " lines, expected " + std::to_string(g.size() + 1))) return;
  cmp(t.lines[0], texts(leg), 0, 0, "header", {});
  for (size_t k = 0; k < g.size(); k++)
  {
    h.states++;
    Row w;
    put(w, g[k]), put(w, pt);
    w.push_back(m->VEff(m->MinimizeOrderVEV(g[k]), T)), w.push_back(m->VEff(m->MinimizeOrderVEV(pt), T)), w.push_back(T);
    if (!cmp(t.lines[k + 1], w, 1e-9, 1e-7, "grid point " + std::to_string(k), leg)) return;
  }
  h.outcome("PotPlotter grid n" + std::to_string(n));
}
static void slice(size_t n, double T, int np, int notation)
{
  In in = toy_in(n, false);
  in.write();
  unlink(file("out.tsv").c_str());
  Vec a(n), b(n);
  S sa, sb;
  for (size_t i = 0; i < n; i++) a[i] = 3. * i - 5, b[i] = 50. + 20 * i, sa += (i ? "," : "") + str(a[i]), sb += (i ? "," : "") + str(b[i]);
  KV kv = {{"model", "sm"}, {"input", file("in.tsv")}, {"output", file("out.tsv")}, {"line", "3"}, {"temperature", str(T)}, {"slice", "true"}, {"min_start", sa}, {"min_end", sb}, {"npoints", std::to_string(np)}};
  int rc = start("PotPlotter", arguments(kv, notation), n);
  h.transitions++;
  if (!h.check(rc == 0, "exit status " + std::to_string(rc) + ": " + slurp(file("log")).substr(0, 300))) return;
  auto t = table("out.tsv");
  VS leg = cat({vev(n), VS{"Veff(v,T)", "T"}});
  if (!h.check(t.exists && (int)t.lines.size() == np + 2, std::to_string(t.lines.size()) + " lines, expected " + std::to_string(np + 2))) return;
  cmp(t.lines[0], texts(leg), 0, 0, "header", {});
  auto m = toy_model(n, toy_points(n)[1]);
  for (int k = 0; k <= np; k++)
  {
    h.states++;
    Vec x(n);
    for (size_t i = 0; i < n; i++) x[i] = a[i] + k * (b[i] - a[i]) / np;
    Row w;
    put(w, x), w.push_back(m->VEff(m->MinimizeOrderVEV(x), T)), w.push_back(T);
    if (!cmp(t.lines[k + 1], w, 1e-9, 1e-7, "slice point " + std::to_string(k), leg)) return;
  }
  h.outcome("PotPlotter slice n" + std::to_string(n));
}
// wrong calls are refused: no crash, no success
static void refused(const S &prog, const KV &kv, int notation, const S &what)
{
  toy_in(1, false).write();
  int rc = start(prog, arguments(kv, notation), 1);
  h.transitions++;
  h.states++;
  h.check(rc != 0 && rc < 1000, prog + " " + what + ": exit status " + std::to_string(rc) + " " + slurp(file("log")).substr(0, 200));
  h.outcome(prog + " refuses");
}

void run_all()
{
  char tmp[] = "/tmp/p02.XXXXXX";
  S base = getenv("CHK_WORK") ? S(getenv("CHK_WORK")) + "/p02.XXXXXX" : S(tmp);
  std::vector<char> b(base.begin(), base.end());
  b.push_back(0);
  dir = mkdtemp(b.data());
  h.assumptions = {"the temperature, bounce and minimum programs run with the real library on an input-driven model substituted at link time for the model factory; shipped models are used with CalcCT, TripleHiggsNLO and NLOVEV",
                   "single-threaded minimisation; the column 'runtime' may hold any number"};
  // --- CalcTemps, CalcGW: ranges of lines
  for (bool gw : {false, true})
  {
    S prog = gw ? "CalcGW" : "CalcTemps";
    for (size_t n : {1, 2})
    {
      int N = toy_points(n).size() + 3, c = 0;
      for (int i = 1; i <= N; i++)
        for (int j = i; j <= N; j++)
          for (int nt = 0; nt < 3; nt++)
          {
            bool index = (c++ / 3) % 2;
            if (!h.thorough && (nt != (i + j) % 3 || (j - i > 2 && i > 1 && j != N))) continue;
            for (int rot : {0, 2})
            {
              if (!h.thorough && (n == 2 ? rot != i % 2 * 2 : (rot || nt == 2) && (i + j) % 2)) continue;
              h.run(prog + "/n" + std::to_string(n) + "/" + std::to_string(i) + "-" + std::to_string(j) + "/" + NOT[nt] + (index ? "/index" : "") + "/rot" + std::to_string(rot),
                    [=] { transition(gw, n, i, j, nt, index, {}, Opt{}, rot, i % 2); });
            }
          }
    }
    // settings
    std::vector<std::tuple<S, S, std::function<void(Opt &)>>> st = {
        {"thigh", "200", [](Opt &o) { o.thigh = 200; }}, {"thigh", "130", [](Opt &o) { o.thigh = 130; }}, {"multistepmode", "default", [](Opt &) {}}, {"multistepmode", "auto", [](Opt &o) { o.mode = 3; }}, {"multistepmode", "0", [](Opt &o) { o.mode = 0; }}, {"multistepmode", "1", [](Opt &o) { o.mode = 1; }}, {"multistepmode", "2", [](Opt &o) { o.mode = 2; }}, {"num_pts", "3", [](Opt &o) { o.pts = 3; }}, {"vwall", "0.3", [](Opt &o) { o.vwall = 0.3; }}, {"vwall", "-1", [](Opt &o) { o.vwall = -1; }}, {"vwall", "-2", [](Opt &o) { o.vwall = -2; }}, {"perc_prbl", "0.4", [](Opt &o) { o.perc = 0.4; }}, {"compl_prbl", "0.2", [](Opt &o) { o.comp = 0.2; }}, {"checknlo", "on", [](Opt &) {}}, {"checknlo", "off", [](Opt &o) { o.nlo = 0; }}, {"checkewsr", "on", [](Opt &) {}}, {"checkewsr", "off", [](Opt &o) { o.ewsr = 0; }}, {"checkewsr", "keep_bfb", [](Opt &o) { o.ewsr = 2; }}, {"checkewsr", "keep_ewsr", [](Opt &o) { o.ewsr = 3; }}, {"maxpathintegrations", "3", [](Opt &o) { o.mpi = 3; }}, {"usegsl", "false", [](Opt &o) { o.mini = Minimizer::CalcWhichMinimizer(false, false, true); }}, {"usenlopt", "false", [](Opt &o) { o.mini = Minimizer::CalcWhichMinimizer(true, false, false); }}, {"usemultithreading", "false", [](Opt &) {}}};
    if (gw)
      for (auto &x : std::vector<std::tuple<S, S, std::function<void(Opt &)>>>{{"trans_temp", "nucl_approx", [](Opt &o) { o.which = 1; }}, {"trans_temp", "nucl", [](Opt &o) { o.which = 2; }}, {"trans_temp", "perc", [](Opt &) {}}, {"trans_temp", "compl", [](Opt &o) { o.which = 4; }}, {"epsturb", "0.3", [](Opt &o) { o.eps = 0.3; }}, {"epsturb", "-1", [](Opt &o) { o.eps = -1; }}}) st.push_back(x);
    for (size_t a = 0; a < st.size(); a++)
      for (int nt : {0, 2})
        for (size_t n : {1, 2})
        {
          if (n == 2 && !h.thorough && nt) continue;
          auto &[k, v, f] = st[a];
          Opt o;
          f(o);
          h.run(prog + "/" + k + "=" + v + "/" + NOT[nt] + "/n" + std::to_string(n), [=, k = k, v = v] { transition(gw, n, 2, n == 1 ? 5 : 4, nt, false, {{k, v}}, o, 0, true); });
          if (h.thorough && n == 1)
            for (size_t c = a + 1; c < st.size(); c++)
              if (std::get<0>(st[c]) != k)
              {
                Opt o2 = o;
                std::get<2>(st[c])(o2);
                auto &[k2, v2, f2] = st[c];
                if (k == "usegsl" && k2 == "usenlopt") continue;
                h.run(prog + "/" + k + "=" + v + "," + k2 + "=" + v2 + "/" + NOT[nt], [=, k = k, v = v, k2 = k2, v2 = v2] { transition(gw, n, 2, 3, nt, false, {{k, v}, {k2, v2}}, o2, 0, true); });
              }
        }
  }
  // --- MinimaTracer
  for (size_t n : {1, 2})
  {
    int N = toy_points(n).size() + 3;
    for (int i = 1; i <= N; i++)
      for (int j = i; j <= N; j++)
      {
        if (!h.thorough && j - i > 2) continue;
        h.run("MinimaTracer/n" + std::to_string(n) + "/" + std::to_string(i) + "-" + std::to_string(j), [=] { minima(n, i, j, (i + j) % 3, i % 2, {}, Opt{}); });
      }
    for (auto &x : std::vector<std::tuple<S, S, std::function<void(Opt &)>>>{{"thigh", "150", [](Opt &o) { o.thigh = 150; }}, {"multistepmode", "auto", [](Opt &o) { o.mode = 3; }}, {"multistepmode", "0", [](Opt &o) { o.mode = 0; }}, {"multistepmode", "1", [](Opt &o) { o.mode = 1; }}, {"multistepmode", "2", [](Opt &o) { o.mode = 2; }}, {"num_pts", "4", [](Opt &o) { o.pts = 4; }}, {"checkewsr", "off", [](Opt &o) { o.ewsr = 0; }}, {"checkewsr", "on", [](Opt &) {}}})
    {
      auto [k, v, f] = x;
      Opt o;
      f(o);
      for (int nt : {0, 2}) h.run("MinimaTracer/" + k + "=" + v + "/n" + std::to_string(n) + "/" + NOT[nt], [=, k = k, v = v] { minima(n, 2, 5, nt, false, {{k, v}}, o); });
    }
  }
  // --- one line per input line
  struct Job
  {
    S prog;
    int toy;
    S model;
    size_t npts;
  };
  std::vector<Job> jobs = {{"BSMPT", 1, "", 0}, {"BSMPT", 2, "", 0}, {"NLOVEV", 1, "", 0}, {"NLOVEV", 2, "", 0}};
  size_t nmod = h.thorough ? 4 : 3;
  for (auto &s : mo::specs())
  {
    jobs.push_back({"CalcCT", 0, s.name, h.thorough ? 4 : 2});
    if (s.name != "CxSM" && s.name != "SM") jobs.push_back({"TripleHiggsNLO", 0, s.name, nmod});
    if (h.thorough || s.name == "SM" || s.name == "CxSM") jobs.push_back({"NLOVEV", 0, s.name, 2});
  }
  jobs.push_back({"TripleHiggsNLO", 0, "CxSM", nmod});
  jobs.push_back({"TripleHiggsNLO", 0, "SM", nmod});
  for (auto &J : jobs)
    for (bool index : {false, true})
    {
      size_t np = J.toy ? toy_points(J.toy).size() : J.npts;
      for (int i = 1; i <= (int)np + 3; i++)
        for (int j = i; j <= (int)np + 3; j++)
          for (int nt = 0; nt < 3; nt++)
          {
            bool cheap = J.prog == "CalcCT" || J.prog == "NLOVEV";
            if (!h.thorough && J.toy && !cheap && nt != (i + j + index) % 3) continue;
            if (!h.thorough && J.prog == "BSMPT" && index != (i % 2)) continue;
            if (!h.thorough && !J.toy && (index != (i % 2) || nt != (i + j) % 3 || (i > 1 ? j - i > 1 || i > (int)np + 1 : j % 2))) continue;
            h.run(J.prog + "/" + (J.toy ? "n" + std::to_string(J.toy) : J.model) + "/" + std::to_string(i) + "-" + std::to_string(j) + "/" + NOT[nt] + (index ? "/index" : ""), [=] {
              KV x;
              bool mini = J.prog == "BSMPT" || J.prog == "NLOVEV";
              if (mini && nt != 1) x = {{"useMultithreading", "false"}};
              lines(J.prog, source(J.toy, J.model, index, J.npts), i, j, nt, x, Minimizer::WhichMinimizerDefault, j % 2);
            });
          }
      for (auto &x : std::vector<std::pair<KV, int>>{{{{"useGSL", "false"}, {"useMultithreading", "false"}}, Minimizer::CalcWhichMinimizer(false, false, true)}, {{{"useNLopt", "false"}, {"useMultithreading", "false"}}, Minimizer::CalcWhichMinimizer(true, false, false)}, {{{"terminalOutput", "true"}}, Minimizer::WhichMinimizerDefault}})
        if (J.toy)
          for (int nt : {0, 2}) h.run(J.prog + "/n" + std::to_string(J.toy) + "/" + x.first[0].first + "=" + x.first[0].second + "/" + NOT[nt] + (index ? "/index" : ""), [=] { lines(J.prog, source(J.toy, J.model, index, J.npts), 2, 4, nt, x.first, x.second, true); });
    }
  // --- VEVEVO
  for (size_t n : {1, 2})
    for (int line = 1; line <= (int)toy_points(n).size() + 3; line++)
      for (int nt = 0; nt < 3; nt++)
        for (bool nl : {true, false})
          for (Vec r : std::vector<Vec>{{0, 25, 100}, {10, 8, 60}, {40, 5, 40}})
            h.run("VEVEVO/n" + std::to_string(n) + "/" + std::to_string(line) + "/" + NOT[nt] + (nl ? "" : "/nonewline") + "/" + str(r), [=] { vevevo(n, line, r[0], r[1], r[2], nt, (line + nt) % 2, nl); });
  // --- PotPlotter
  for (size_t n : {1, 2, 3, 4, 5, 6})
  {
    for (size_t mask = 0; mask < (1u << n); mask++)
      for (bool point : {false, true})
        for (int nt : {0, 2})
        {
          if (!h.thorough && n > 3 && ((nt == 2) != (int)(mask + point) % 2 || (mask % 4 && mask != (1u << n) - 1))) continue;
          h.run("PotPlotter/n" + std::to_string(n) + "/" + std::to_string(mask) + (point ? "/point" : "") + "/" + NOT[nt], [=] {
            std::vector<int> np(n);
            for (size_t i = 0; i < n; i++) np[i] = mask >> i & 1 ? 1 + (i + mask) % 3 : 0;
            grid(n, 2 + mask % 3, mask % 2 ? 50 : 0, np, point, mask % 2, nt);
          });
        }
    for (int np : {1, 2, 7})
      for (int nt : {0, 2}) h.run("PotPlotter/slice/n" + std::to_string(n) + "/" + std::to_string(np) + "/" + NOT[nt], [=] { slice(n, 30, np, nt); });
  }
  for (int line = 1; line < 10; line++) h.run("PotPlotter/line" + std::to_string(line), [=] { grid(1, line, 10, {2}, false, false, 0); });
  // --- refused calls
  struct Pr
  {
    S p, first, last, out;
    KV more;
  };
  for (auto &P : std::vector<Pr>{{"CalcTemps", "firstline", "lastline", "out.tsv", {}}, {"CalcGW", "firstline", "lastline", "out.tsv", {}}, {"MinimaTracer", "firstline", "lastline", "out", {}}, {"BSMPT", "firstLine", "lastLine", "out.tsv", {}}, {"NLOVEV", "firstLine", "lastLine", "out.tsv", {}}, {"CalcCT", "firstLine", "lastLine", "out.tsv", {}}, {"TripleHiggsNLO", "firstLine", "lastLine", "out.tsv", {}}, {"VEVEVO", "line", "", "out.tsv", {{"temperatureStart", "0"}, {"temperatureStep", "50"}, {"temperatureEnd", "100"}}}, {"PotPlotter", "line", "", "out.tsv", {{"temperature", "10"}}}})
  {
    KV ok = {{"model", "sm"}, {"input", file("in.tsv")}, {"output", file(P.out)}, {P.first, "2"}};
    if (P.last.size()) ok.push_back({P.last, "2"});
    ok.insert(ok.end(), P.more.begin(), P.more.end());
    for (size_t k = 0; k < ok.size(); k++)
      for (int nt : {0, 2})
      {
        KV q = ok;
        q.erase(q.begin() + k);
        h.run(P.p + "/without " + ok[k].first + "/" + NOT[nt], [=] { refused(P.p, q, nt, "without " + ok[k].first); });
      }
    auto bad = [&](const S &key, const S &val) {
      KV q = ok;
      bool f = false;
      for (auto &x : q)
        if (x.first == key) x.second = val, f = true;
      if (!f) q.push_back({key, val});
      for (int nt : {0, 2}) h.run(P.p + "/" + key + "=" + val + "/" + NOT[nt], [=] { refused(P.p, q, nt, key + "=" + val); });
    };
    bad("model", "nosuchmodel");
    bad("input", "/nonexistent/in.tsv");
    bad("output", "/nonexistent/dir/out");
    bad("no_such_option", "1");
    if (P.last.size()) bad(P.last, "1"), bad(P.first, "3");
    if (P.last.size()) bad(P.first, "0");
    bool tr = P.p == "CalcTemps" || P.p == "CalcGW";
    if (tr) bad("vwall", "1.5"), bad("vwall", "0"), bad("vwall", "-0.5"), bad("perc_prbl", "1.2"), bad("perc_prbl", "-0.1"), bad("compl_prbl", "2"), bad("compl_prbl", "-1");
    if (P.p == "CalcGW") bad("epsturb", "1.1"), bad("epsturb", "-0.5");
    if (tr || P.p == "MinimaTracer") bad("multistepmode", "4"), bad("multistepmode", "-2"), bad("num_pts", "-1"), bad("thigh", "-10");
    if (P.p == "VEVEVO") bad("temperatureStep", "0"), bad("temperatureStep", "-5"), bad("temperatureStart", "-1");
  }
  S cmd = "rm -rf -- '" + dir + "'";
  if (system(cmd.c_str())) {}
}
HARNESS_MAIN
