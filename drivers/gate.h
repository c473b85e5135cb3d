// children that run in threads of the library and finish only when the driver lets them
#pragma once
#include "lib.h"
namespace lib
{
struct Gate
{
  std::mutex m;
  std::condition_variable cv;
  std::deque<ES> out;     // outcomes let through
  int inside = 0, most = 0, runs = 0, left = 0;
  bool halted = false;
  ES Pass()
  {
    std::unique_lock<std::mutex> l(m);
    ++runs;
    ++inside;
    if (inside > most) most = inside;
    cv.notify_all();
    cv.wait(l, [this] { return !out.empty() || halted; });
    ES r = ES::FAILURE;
    if (!out.empty()) { r = out.front(); out.pop_front(); }
    --inside;
    ++left;
    cv.notify_all();
    return r;
  }
  void Let(ES r) { std::lock_guard<std::mutex> l(m); out.push_back(r); cv.notify_all(); }
  void Halt() { std::lock_guard<std::mutex> l(m); halted = true; cv.notify_all(); }
  void Again() { std::lock_guard<std::mutex> l(m); halted = false; out.clear(); most = 0; }
  int Runs() { std::lock_guard<std::mutex> l(m); return runs; }
  int Left() { std::lock_guard<std::mutex> l(m); return left; }
  int Inside() { std::lock_guard<std::mutex> l(m); return inside; }
  int Most() { std::lock_guard<std::mutex> l(m); return most; }
  bool Halted() { std::lock_guard<std::mutex> l(m); return halted; }
};
inline void Hook(Kid& k, Gate& g)
{
  k.run = [&g](Kid&) { return g.Pass(); };
  k.on_halt = [&g](Kid&) { g.Halt(); };
  k.on_reset = [&g](Kid&) { if (g.Inside()) Fail("a child is reset while it is being executed"); };
}
// repeats a step until the condition holds; false when it does not within the given number of seconds
template <typename F, typename C>
bool Until(double secs, F step, C cond)
{
  double end = drv::Now() + secs;
  for (int i = 0;; ++i)
  {
    if (cond()) return true;
    if (drv::Now() > end) return false;
    step();
    if (i > 3) ::usleep(i > 200 ? 1000 : 30);
  }
}
}  // namespace lib
