// Controlled scheduler + happens-before race detector for the real
// multi-threaded code (compiled with -fsanitize=thread instrumentation; this
// file and sched.cpp supply the instrumentation's runtime).
#pragma once
#include <functional>
#include <string>
#include <vector>
namespace sched
{
struct Opt
{
  int pb       = 2;             // preemption bound
  long first   = 1L << 60;      // preemptions only at the first `first` ...
  long last    = 0;             // ... and the last `last` scheduling points (0: everywhere)
  int part = 0, nparts = 1;     // this part of the schedule tree (by first deviation)
  long maxexec = 1L << 60;
};
struct Stats
{
  long schedules = 0, points = 0, maxpoints = 0, switches = 0;
  bool capped = false;
};
// runs body under every schedule; after each execution `after` is called
// (no other thread runs); returns false if `after` asked to stop.
Stats explore(const Opt &o, const std::function<void()> &body, const std::function<bool()> &after);
std::string schedule();            // description of the current/last schedule
const std::vector<std::string> &races(); // races seen in the current/last execution
int tid();                         // controlled id of the calling thread (-1: not controlled)
} // namespace sched
