// C19: histories of breakpoint operations against a model, alone and inside a runner
#include "lib.h"
#include <sup/oac-tree/breakpoint.h>
#include <sup/oac-tree/runner.h>
#include <sup/oac-tree/async_runner.h>
#include <sup/oac-tree/job_state_monitor.h>
#include <sup/oac-tree/runner/breakpoint_manager.h>
#include <sup/oac-tree/exceptions.h>
#include <algorithm>
using namespace lib;
using P = const Instruction*;

struct Model
{
  struct E { P i; Breakpoint::Status s; };
  std::vector<E> v;
  std::vector<E>::iterator Find(P i) { return std::find_if(v.begin(), v.end(), [i](const E& e) { return e.i == i; }); }
  bool Set(P i)
  {
    if (Find(i) != v.end()) return false;
    v.push_back({i, Breakpoint::kSet});
    return true;
  }
  bool Remove(P i)
  {
    auto it = Find(i);
    if (it == v.end()) return false;
    v.erase(it);
    return true;
  }
  std::vector<P> Handle(const std::vector<P>& next)
  {
    std::vector<P> o;
    for (auto& e : v)
      if (e.s == Breakpoint::kSet && std::find(next.begin(), next.end(), e.i) != next.end())
      {
        o.push_back(e.i);
        e.s = Breakpoint::kReleased;
      }
    return o;
  }
  void Reset()
  {
    for (auto& e : v) if (e.s == Breakpoint::kReleased) e.s = Breakpoint::kSet;
  }
};

static std::vector<P> All(const Instruction* i)
{
  std::vector<P> o{i};
  for (auto c : i->ChildInstructions())
  {
    auto sub = All(c);
    o.insert(o.end(), sub.begin(), sub.end());
  }
  return o;
}
static std::vector<int> Nrs(const std::vector<P>& all, const std::vector<P>& v)
{
  std::vector<int> o;
  for (auto i : v) o.push_back(int(std::find(all.begin(), all.end(), i) - all.begin()));
  return o;
}
static std::unique_ptr<Instruction> RandomTree(int depth, int& id)
{
  if (depth == 0 || Rnd(3) == 0)
  {
    auto k = std::make_unique<Kid>(id++, [](Kid&) { return ES::SUCCESS; });
    return k;
  }
  static const char* types[] = {"Sequence", "Fallback", "ParallelSequence"};
  auto r = Make(types[Rnd(2)]);
  int n = 1 + int(Rnd(3));
  for (int i = 0; i < n; ++i) r->InsertInstruction(RandomTree(depth - 1, id), i);
  return r;
}
static void Compare(const std::list<Breakpoint>& got, Model& m, const std::vector<P>& all)
{
  Equal(got.size(), m.v.size(), "number of breakpoints");
  size_t j = 0;
  for (auto& b : got)
  {
    if (j >= m.v.size()) break;
    Equal(Nrs(all, {b.GetInstruction()})[0], Nrs(all, {m.v[j].i})[0], "instruction of breakpoint " + std::to_string(j));
    Equal(int(b.GetStatus()), int(m.v[j].s), "state of breakpoint " + std::to_string(j));
    ++j;
  }
}

static void Managers(int steps)
{
  Procedure proc;
  int id = 0;
  proc.PushInstruction(RandomTree(3, id));
  Kid stranger(99);
  auto all = All(proc.RootInstruction());
  BreakpointManager bm(proc);
  Model m;
  std::string text = std::to_string(all.size()) + " instructions: ";
  for (int s = 0; s < steps && !S().fails; ++s)
  {
    P i = all[Rnd(all.size())];
    int nr = Nrs(all, {i})[0];
    int op = int(Rnd(12));
    if (op < 4)
    {
      text += "set " + std::to_string(nr) + "; ";
      Case(text);
      Equal(bm.SetBreakpoint(i), m.Set(i), "breakpoint is new");
    }
    else if (op < 6)
    {
      text += "remove " + std::to_string(nr) + "; ";
      Case(text);
      Equal(bm.RemoveBreakpoint(i), m.Remove(i), "there was a breakpoint");
    }
    else if (op == 6)
    {
      P bad = Rnd(2) ? &stranger : nullptr;
      text += bad ? "set on a stranger; " : "set on nothing; ";
      Case(text);
      bool thrown = false;
      try { bm.SetBreakpoint(bad); } catch (const InvalidOperationException&) { thrown = true; }
      Check(thrown, "an unknown instruction is an error");
      Equal(bm.RemoveBreakpoint(bad), false, "removal on an unknown instruction");
    }
    else if (op < 10)
    {
      std::vector<P> next;
      for (auto x : all) if (Rnd(3) == 0) next.push_back(x);
      if (Rnd(2)) std::reverse(next.begin(), next.end());
      text += "handle " + Text(Nrs(all, next)) + "; ";
      Case(text);
      Same(Nrs(all, bm.HandleBreakpoints(next)), Nrs(all, m.Handle(next)), "reported");
    }
    else
    {
      text += "rearm; ";
      Case(text);
      bm.ResetBreakpoints();
      m.Reset();
    }
    Compare(bm.GetBreakpoints(), m, all);
  }
}

// a sequence of n instructions, run to the end with breakpoints: stops before each marked one, each time it comes up
static void Runs(int n)
{
  Procedure proc;
  auto seq = Make("Sequence");
  auto root = seq.get();
  std::vector<Kid*> kids;
  std::vector<int> ticks;
  for (int i = 0; i < n; ++i)
  {
    int left = int(Rnd(3));
    auto k = std::make_unique<Kid>(i, [left](Kid&) mutable { return left-- > 0 ? ES::NOT_FINISHED : ES::SUCCESS; });
    ticks.push_back(left + 1);
    kids.push_back(k.get());
    seq->InsertInstruction(std::move(k), i);
  }
  proc.PushInstruction(std::move(seq));
  UI ui;
  Runner runner(ui);
  runner.SetProcedure(&proc);
  std::vector<bool> marked(size_t(n), false);
  std::vector<int> order;
  std::string text;
  for (int i = 0; i < n; ++i)
    if (Rnd(2)) { marked[size_t(i)] = true; text += " " + std::to_string(i); }
  for (int i = n; i-- > 0;)
    if (marked[size_t(i)]) Equal(runner.SetBreakpoint(kids[size_t(i)]), true, "new breakpoint");
  bool onroot = Rnd(3) == 0;
  if (onroot) runner.SetBreakpoint(root);
  Case(std::to_string(n) + " children with ticks " + Text(ticks) + ", breakpoints on" + text + (onroot ? " root" : ""));
  R().Clear();
  std::vector<int> want, got;
  for (int i = 0; i < n; ++i)
    for (int t = 0; t < ticks[size_t(i)]; ++t)
    {
      if (marked[size_t(i)]) want.push_back(-1);
      want.push_back(i);
    }
  (void)onroot;
  for (int rounds = 0; rounds < 200 && !runner.IsFinished(); ++rounds)
  {
    runner.ExecuteProcedure();
    auto hit = runner.GetCurrentBreakpointInstructions();
    if (!hit.empty()) R().Put('t', -1);
    bool r = hit.size() == 1 && hit[0] == root;
    if (hit.empty()) continue;
    auto done = R().Of('t');
    (void)r;
    for (auto h : hit)
    {
      bool next = h == root;
      for (auto k : kids) if (h == k) next = marked[size_t(k->id)] && !Fin(k->GetStatus());
      Check(next, "stopped only on an unfinished marked instruction");
    }
    for (auto& b : runner.GetBreakpoints())
    {
      bool rep = std::find(hit.begin(), hit.end(), b.GetInstruction()) != hit.end();
      Equal(b.GetStatus() == Breakpoint::kReleased, rep, "released exactly when reported");
    }
  }
  Check(runner.IsFinished(), "the procedure ends");
  got = R().Of('t');
  if (!onroot) Same(got, want, "ticks and stops");
  for (auto& b : runner.GetBreakpoints()) Equal(int(b.GetStatus()), int(Breakpoint::kSet), "armed again");
  auto ok = Make("Sequence");
  bool thrown = false;
  try { runner.SetBreakpoint(ok.get()); } catch (const InvalidOperationException&) { thrown = true; }
  Check(thrown, "an unknown instruction is an error");
}

static void Threads()
{
  Procedure proc;
  auto seq = Make("Sequence");
  std::vector<Kid*> kids;
  for (int i = 0; i < 6; ++i)
  {
    auto k = std::make_unique<Kid>(i);
    kids.push_back(k.get());
    seq->InsertInstruction(std::move(k), i);
  }
  proc.PushInstruction(std::move(seq));
  BreakpointManager bm(proc);
  Case("four threads set and remove breakpoints");
  std::atomic<int> added{0}, removed{0};
  std::vector<std::thread> t;
  for (int j = 0; j < 4; ++j)
    t.emplace_back([&, j] {
      for (int r = 0; r < 300; ++r)
      {
        if (bm.SetBreakpoint(kids[size_t(r + j) % 6])) ++added;
        bm.HandleBreakpoints({kids[size_t(r) % 6]});
        if (bm.RemoveBreakpoint(kids[size_t(r + j + 3) % 6])) ++removed;
        bm.ResetBreakpoints();
        if (bm.GetBreakpoints().size() > 6) Fail("more than one breakpoint per instruction");
      }
    });
  for (auto& x : t) x.join();
  Equal(int(bm.GetBreakpoints().size()), added - removed, "breakpoints left");
}

// breakpoints of a job that is not started: each change is reported once, everything else is not
struct Heard : JobStateMonitor
{
  std::vector<std::pair<P, bool>> bps;
  void OnStateChange(JobState) noexcept override {}
  void OnBreakpointChange(P i, bool b) noexcept override { bps.push_back({i, b}); }
  void OnProcedureTick(const Procedure&) override {}
};
static void Jobs()
{
  Procedure proc;
  int id = 0;
  proc.PushInstruction(RandomTree(2, id));
  UI ui;
  Heard heard;
  auto all = All(proc.RootInstruction());
  Kid stranger(1000);
  AsyncRunner r(proc, ui, heard);
  std::set<P> armed;
  std::vector<std::pair<P, bool>> want;
  std::string text;
  for (int s = 1 + int(Rnd(12)); s > 0; --s)
  {
    P i = Rnd(6) ? all[Rnd(all.size())] : Rnd(2) ? &stranger : nullptr;
    bool known = i && i != &stranger;
    if (Rnd(2))
    {
      text += " set(" + (known ? std::to_string(std::find(all.begin(), all.end(), i) - all.begin()) : "none of its own") + ")";
      Case("job:" + text);
      r.SetBreakpoint(i);
      if (known && armed.insert(i).second) want.push_back({i, true});
    }
    else
    {
      text += " remove(" + (known ? std::to_string(std::find(all.begin(), all.end(), i) - all.begin()) : "none of its own") + ")";
      Case("job:" + text);
      r.RemoveBreakpoint(i);
      if (armed.erase(i)) want.push_back({i, false});
    }
    Check(heard.bps == want, "each change of a breakpoint of a job is reported once");
  }
}

int main(int argc, char** argv)
{
  return drv::Main(argc, argv, [] {
    int f = S().deep ? 10 : 1;
    S().group = "breakpoint manager";
    for (int i = 0; i < 400 * f && !S().fails; ++i) Managers(1 + int(Rnd(20)));
    S().group = "runner";
    for (int i = 0; i < 300 * f && !S().fails; ++i) Runs(1 + int(Rnd(5)));
    S().group = "jobs";
    for (int i = 0; i < 200 * f && !S().fails; ++i) Within(60, "jobs", Jobs);
    S().group = "threads";
    Within(60, "threads", Threads);
  });
}
