// Shared case enumerator of the BSMPT model-checking harnesses.
#pragma once
#include <algorithm>
#include <chrono>
#include <cmath>
#include <complex>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <gsl/gsl_errno.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <signal.h>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <vector>

using Vec = std::vector<double>;

inline std::string str(const Vec &v)
{
  std::ostringstream o;
  o.precision(10);
  o << "(";
  for (size_t i = 0; i < v.size(); i++) o << (i ? "," : "") << v[i];
  o << ")";
  return o.str();
}
inline std::string str(double d)
{
  std::ostringstream o;
  o.precision(15);
  o << d;
  return o.str();
}

struct H
{
  std::string tier = "quick", only, out, casefile;
  bool thorough   = false;
  int shard = 0, nshards = 1, casetimeout = 120;
  long index = 0;
  long cases = 0, states = 0, transitions = 0, traces = 0, evaluations = 0;
  std::set<std::string> distinct;
  std::vector<std::string> samples, assumptions;
  std::vector<std::pair<std::string, std::string>> violations;
  std::map<std::string, double> notes;
  std::string cur;
  char *shm   = nullptr;
  bool capped = false;
  int maxfail = 20;

  static void on_alarm(int) { _exit(97); }

  void setcase(const std::string &k)
  {
    if (shm)
    {
      size_t n = std::min<size_t>(k.size(), 4000);
      std::memcpy(shm, k.data(), n);
      shm[n] = 0;
    }
  }
  // runs f as case `key` if it belongs to this shard
  void run(const std::string &key, const std::function<void()> &f)
  {
    long i = index++;
    if (!only.empty())
    {
      if (key != only) return;
    }
    else if (i % nshards != shard)
      return;
    if ((int)violations.size() >= maxfail) { capped = true; return; }
    cur = key;
    setcase(key);
    cases++;
    alarm(casetimeout);
    try
    {
      f();
    }
    catch (const std::exception &e)
    {
      fail(std::string("unexpected exception: ") + e.what());
    }
    catch (const char *e)
    {
      fail(std::string("unexpected exception (text): ") + e);
    }
    catch (...)
    {
      fail("unexpected exception of unknown type");
    }
    alarm(0);
    setcase("(between cases)");
  }
  void fail(const std::string &what)
  {
    if ((int)violations.size() < maxfail) violations.push_back({cur, what});
  }
  // assertion helpers; true when ok
  bool check(bool ok, const std::string &what)
  {
    evaluations++;
    if (!ok) fail(what);
    return ok;
  }
  bool close(double got, double want, double rel, double abs, const std::string &what)
  {
    evaluations++;
    bool ok = std::isfinite(got) && std::isfinite(want) && std::abs(got - want) <= abs + rel * std::max(std::abs(got), std::abs(want));
    if (!ok) fail(what + ": got " + str(got) + ", expected " + str(want));
    return ok;
  }
  bool same(double got, double want, const std::string &what)
  {
    evaluations++;
    bool ok = got == want || (std::isnan(got) && std::isnan(want));
    if (!ok) fail(what + ": got " + str(got) + ", expected " + str(want));
    return ok;
  }
  void outcome(const std::string &o)
  {
    if (distinct.size() < 5000) distinct.insert(o);
  }
  void sample(const std::string &s)
  {
    if (samples.size() < 6) samples.push_back(s);
  }
};
extern H h;
void run_all();

inline std::string jesc(const std::string &s)
{
  std::string r;
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c == '\t') r += "\\t";
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r;
}

inline int harness_main(int argc, char **argv)
{
  for (int i = 1; i + 1 < argc; i += 2)
  {
    std::string a = argv[i], v = argv[i + 1];
    if (a == "--tier") h.tier = v;
    if (a == "--only") h.only = v;
    if (a == "--out") h.out = v;
    if (a == "--casefile") h.casefile = v;
    if (a == "--casetimeout") h.casetimeout = atoi(v.c_str());
    if (a == "--shard") sscanf(v.c_str(), "%d/%d", &h.shard, &h.nshards);
  }
  h.thorough = h.tier == "thorough";
  if (!h.casefile.empty())
  {
    int fd = open(h.casefile.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0 && ftruncate(fd, 4096) == 0) h.shm = (char *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (h.shm == MAP_FAILED) h.shm = nullptr;
  }
  signal(SIGALRM, H::on_alarm);
  gsl_set_error_handler_off(); // as every program has done once its first minimisation ran
  run_all();
  if (!h.out.empty())
  {
    std::ofstream o(h.out);
    auto list = [&](const char *n, auto &c) {
      o << "\"" << n << "\":[";
      bool first = true;
      for (auto &x : c) { o << (first ? "" : ",") << "\"" << jesc(x) << "\""; first = false; }
      o << "],\n";
    };
    o << "{\"cases\":" << h.cases << ",\"states\":" << h.states << ",\"transitions\":" << h.transitions << ",\"traces\":" << h.traces
      << ",\"evaluations\":" << h.evaluations << ",\"capped\":" << (h.capped ? "true" : "false") << ",\n";
    list("distinct", h.distinct);
    list("samples", h.samples);
    list("assumptions", h.assumptions);
    o << "\"notes\":{";
    bool f = true;
    for (auto &x : h.notes) { o << (f ? "" : ",") << "\"" << jesc(x.first) << "\":" << (std::isfinite(x.second) ? x.second : -1); f = false; }
    o << "},\n\"violations\":[";
    f = true;
    for (auto &x : h.violations) { o << (f ? "" : ",") << "{\"key\":\"" << jesc(x.first) << "\",\"what\":\"" << jesc(x.second) << "\"}"; f = false; }
    o << "]}\n";
  }
  return 0;
}
#define HARNESS_MAIN \
  H h;               \
  int main(int argc, char **argv) { return harness_main(argc, argv); }
