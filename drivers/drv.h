// common part of the replay drivers: argument parsing, reporting, watchdog
#pragma once
#include <atomic>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <iostream>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>

namespace drv
{
struct State
{
  uint64_t seed = 1;
  bool deep = false;
  std::atomic<uint64_t> cases{0};
  std::atomic<uint64_t> checks{0};
  int fails = 0;
  std::string group;
  std::set<std::string> distinct;
  std::map<std::string, uint64_t> groups;
  std::vector<std::string> samples;
  std::string text;
  std::atomic<double> deadline{0};
  std::mt19937_64 rng;
};
inline State& S()
{
  static State s;
  return s;
}
inline double Now()
{
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
inline void Emit(const std::string& s)
{
  std::string l = s;
  for (auto& c : l) if (c == '\n') c = ' ';
  l += '\n';
  ssize_t r = ::write(1, l.data(), l.size());
  (void)r;
}
// one input or history that is about to run
inline void Case(const std::string& text)
{
  auto& s = S();
  ++s.cases;
  ++s.groups[s.group];
  s.text = text;
  if (s.distinct.size() < 200000) s.distinct.insert(s.group + "|" + text);
  if (s.samples.size() < 6 && (s.cases & (s.cases - 1)) == 0) s.samples.push_back(s.group + ": " + text);
}
inline void Fail(const std::string& what)
{
  auto& s = S();
  if (++s.fails <= 10) Emit("FAIL " + s.group + ": " + s.text + ": " + what);
}
inline void Known(const std::string& id, const std::string& what)
{
  static std::set<std::string> once;
  if (once.insert(id).second) Emit("KNOWN " + id + " " + S().group + ": " + S().text + ": " + what);
}
inline bool Check(bool ok, const std::string& what)
{
  ++S().checks;
  if (!ok) Fail(what);
  return ok;
}
template <typename A, typename B>
bool Equal(const A& got, const B& want, const std::string& what)
{
  ++S().checks;
  if (got == want) return true;
  std::ostringstream o;
  o << what << ": got " << got << ", expected " << want;
  Fail(o.str());
  return false;
}
inline std::string Json(const std::string& s)
{
  std::string o = "\"";
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += char(c);
  }
  return o + "\"";
}
inline uint64_t Rnd(uint64_t n) { return n ? S().rng() % n : 0; }
// a step that must end within the given number of seconds
template <typename F>
void Within(double secs, const std::string& what, F f)
{
  S().deadline = Now() + secs;
  f();
  S().deadline = 0;
  (void)what;
}
inline int Main(int argc, char** argv, const std::function<void()>& body)
{
  auto& s = S();
  for (int i = 1; i < argc; ++i)
  {
    std::string a = argv[i];
    if (a == "--seed" && i + 1 < argc) s.seed = std::strtoull(argv[++i], nullptr, 10);
    else if (a == "--mode" && i + 1 < argc) s.deep = std::string(argv[++i]) == "deep";
  }
  s.rng.seed(s.seed);
  std::thread([] {
    for (;;)
    {
      ::usleep(50000);
      double d = S().deadline;
      if (d != 0 && Now() > d)
      {
        Emit("FAIL " + S().group + ": " + S().text + ": no progress in bounded time");
        _exit(3);
      }
    }
  }).detach();
  std::set_terminate([] {
    std::string w = "std::terminate";
    if (auto e = std::current_exception())
    {
      try { std::rethrow_exception(e); }
      catch (const std::exception& x) { w += std::string(": ") + x.what(); }
      catch (...) { w += ": unknown exception"; }
    }
    Emit("FAIL " + S().group + ": " + S().text + ": " + w);
    _exit(3);
  });
  try
  {
    body();
  }
  catch (const std::exception& e)
  {
    Fail(std::string("unexpected exception: ") + e.what());
  }
  std::string o = "STATS {\"cases\": " + std::to_string(s.cases) + ", \"distinct\": " + std::to_string(s.distinct.size())
                  + ", \"checks\": " + std::to_string(s.checks) + ", \"fails\": " + std::to_string(s.fails) + ", \"groups\": {";
  bool first = true;
  for (auto& g : s.groups) { o += (first ? "" : ", ") + Json(g.first) + ": " + std::to_string(g.second); first = false; }
  o += "}, \"samples\": [";
  first = true;
  for (auto& x : s.samples) { o += (first ? "" : ", ") + Json(x); first = false; }
  Emit(o + "]}");
  std::fflush(stdout);
  _exit(s.fails ? 1 : 0);
}
}  // namespace drv
