// C17: workspace setup and teardown against a plain model of what must run when
#include "lib.h"
#include <sup/oac-tree/exceptions.h>
#include <algorithm>
using namespace lib;

struct Plan
{
  std::string id;
  bool has_setup = false, has_teardown = false;
};
static std::vector<std::string> log_;
static std::string Join(const std::vector<std::string>& v)
{
  std::string o = "{";
  for (auto& s : v) o += (o.size() > 1 ? " " : "") + s;
  return o + "}";
}
static void SameLog(const std::vector<std::string>& got, const std::vector<std::string>& want, const std::string& what)
{
  Check(got == want, what + ": got " + Join(got) + ", expected " + Join(want));
}
struct Wk
{
  std::unique_ptr<Workspace> ws = std::make_unique<Workspace>();
  std::vector<Plan> plans;
  std::vector<std::string> pending;   // teardown actions still to run
  bool up = false;
  int throw_at = -1;                  // variable whose setup fails
  void Add(const Plan& p)
  {
    int id = static_cast<int>(plans.size());
    plans.push_back(p);
    auto v = std::make_unique<Var>(id);
    v->on_setup = [this, id]() -> SetupTeardownActions
    {
      log_.push_back("v" + std::to_string(id));
      if (throw_at == id) throw VariableSetupException("scripted");
      auto& q = plans[static_cast<size_t>(id)];
      SetupTeardownActions a;
      a.m_identifier = q.id;
      auto name = q.id;
      if (q.has_setup) a.m_setup = [name] { log_.push_back("+" + name); };
      if (q.has_teardown) a.m_teardown = [name] { log_.push_back("-" + name); };
      return a;
    };
    v->on_teardown = [id] { log_.push_back("t" + std::to_string(id)); };
    static const char* names = "qzamxbypcwdo";
    ws->AddVariable(std::string(1, names[Rnd(12)]) + std::to_string(id), std::move(v));
  }
  std::vector<std::string> All(char c) const
  {
    std::vector<std::string> o;
    for (size_t i = 0; i < plans.size(); ++i) o.push_back(c + std::to_string(i));
    return o;
  }
  void Setup()
  {
    log_.clear();
    bool was = up, thrown = false;
    try { ws->Setup(); } catch (const VariableSetupException&) { thrown = true; }
    if (was)
    {
      SameLog(log_, {}, "setup of a workspace that is set up does nothing");
      Check(!thrown && ws->IsSuccessfullySetup(), "setting up again succeeds");
      return;
    }
    if (throw_at >= 0)
    {
      Check(thrown, "a failing variable makes the setup fail");
      Check(!ws->IsSuccessfullySetup(), "a failed setup does not count as set up");
      for (auto& e : log_) Check(e[0] == 'v', "no action runs when a variable could not be set up: " + e);
      return;
    }
    up = true;
    Check(!thrown && ws->IsSuccessfullySetup(), "the setup succeeds");
    size_t n = plans.size();
    if (!Check(log_.size() >= n, "every variable is set up: " + Join(log_))) return;
    std::vector<std::string> head(log_.begin(), log_.begin() + static_cast<long>(n)), tail(log_.begin() + static_cast<long>(n), log_.end());
    auto sorted = head, all = All('v');
    std::sort(sorted.begin(), sorted.end());
    std::sort(all.begin(), all.end());
    SameLog(sorted, all, "first every variable is set up, once");
    if (sorted != all) return;
    std::vector<std::string> want, later;
    std::set<std::string> s1, s2;
    for (auto& e : head)
    {
      auto& p = plans[static_cast<size_t>(std::stoi(e.substr(1)))];
      if (p.id.empty()) continue;
      if (p.has_setup && s1.insert(p.id).second) want.push_back("+" + p.id);
      if (p.has_teardown && s2.insert(p.id).second) later.push_back("-" + p.id);
    }
    SameLog(tail, want, "then every distinct setup action runs once, in the order asked for");
    pending = later;
  }
  void Teardown()
  {
    log_.clear();
    ws->Teardown();
    up = false;
    Check(!ws->IsSuccessfullySetup(), "not set up after teardown");
    size_t k = pending.size();
    std::vector<std::string> head(log_.begin(), log_.begin() + static_cast<long>(std::min(k, log_.size()))),
        tail(log_.begin() + static_cast<long>(std::min(k, log_.size())), log_.end());
    SameLog(head, pending, "every distinct teardown action runs once, in the order registered");
    std::sort(tail.begin(), tail.end());
    auto all = All('t');
    std::sort(all.begin(), all.end());
    SameLog(tail, all, "then every variable is torn down, once");
    pending.clear();
  }
  void Destroy()
  {
    log_.clear();
    ws.reset();
    std::vector<std::string> acts;
    for (auto& e : log_) if (e[0] == '-') acts.push_back(e);
    SameLog(acts, pending, "destruction runs every pending teardown action once, in the order registered");
    for (auto& e : log_) Check(e[0] == '-' || e[0] == 't', "destruction sets nothing up: " + e);
  }
};
static void One()
{
  Wk w;
  static const std::vector<std::string> ids = {"", "a", "b", "ab", "A", "c"};
  auto plan = [] { Plan p; p.id = ids[Rnd(ids.size())]; p.has_setup = Rnd(3) != 0; p.has_teardown = Rnd(3) != 0; return p; };
  size_t n = Rnd(7);
  std::string t = std::to_string(n) + " variables (";
  for (size_t i = 0; i < n; ++i)
  {
    auto p = plan();
    t += (i ? "," : "") + p.id + (p.has_setup ? "+" : "") + (p.has_teardown ? "-" : "");
    w.Add(p);
  }
  t += "), ";
  std::string ops;
  size_t m = 1 + Rnd(7);
  for (size_t i = 0; i < m; ++i) ops += "SSSTTTFA"[Rnd(8)];
  Case(t + "operations " + ops + " (S setup, T teardown, F failing setup, A another variable)");
  for (char o : ops)
  {
    if (o == 'S') w.Setup();
    else if (o == 'T') w.Teardown();
    else if (o == 'F')
    {
      if (w.plans.empty() || w.up || !w.pending.empty()) continue;
      w.throw_at = static_cast<int>(Rnd(w.plans.size()));
      w.Setup();
      w.throw_at = -1;
    }
    else if (!w.up) w.Add(plan());
  }
  w.Destroy();
}
int main(int argc, char** argv)
{
  return drv::Main(argc, argv, [] {
    S().group = "setup and teardown";
    Within(120, "workspace", [] { for (int i = 0; i < (S().deep ? 60000 : 4000); ++i) One(); });
  });
}
