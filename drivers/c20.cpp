// C20: histories of continuous runs and single steps of one procedure against a model
#include "lib.h"
#include <sup/oac-tree/breakpoint.h>
#include <sup/oac-tree/runner.h>
#include <algorithm>
using namespace lib;

// one child per position, each with its own outcomes and a request made during its tick
struct Script
{
  std::vector<ES> out;      // outcome per tick
  std::vector<int> ask;     // 0 nothing, 1 pause during the tick, 2 halt during the tick, 3 pause in the tick callback, 4 halt in it
};

static void Empty()
{
  UI ui;
  Case("no procedure");
  Runner r(ui);
  int ticks = 0;
  r.SetTickCallback([&](const Procedure&) { ++ticks; });
  r.ExecuteProcedure();
  r.ExecuteSingle();
  r.Halt();
  r.Pause();
  Equal(ticks, 0, "tick callbacks");
  Equal(r.GetCurrentBreakpointInstructions().size(), size_t(0), "reported breakpoints");
  Equal(r.IsFinished(), true, "finished");
  Equal(r.IsRunning(), false, "running");
}

static void Run(int steps)
{
  Procedure proc;
  UI ui;
  bool fallback = Rnd(2);
  auto seq = Make(fallback ? "Fallback" : "Sequence");
  auto root = seq.get();
  int n = 1 + int(Rnd(4));
  std::vector<Script> sc;
  std::vector<Kid*> kids;
  Runner runner(ui);
  std::vector<size_t> pos(size_t(n), 0);
  int asked = 0;
  int callback_ask = 0;
  std::string text = std::string(fallback ? "fallback" : "sequence") + " of";
  ES good = fallback ? ES::FAILURE : ES::SUCCESS;
  for (int i = 0; i < n; ++i)
  {
    Script s;
    int len = 1 + int(Rnd(4));
    text += " (";
    for (int j = 0; j < len; ++j)
    {
      bool end = j == len - 1;
      s.out.push_back(end ? (Rnd(5) ? good : good == ES::SUCCESS ? ES::FAILURE : ES::SUCCESS) : Rnd(2) ? ES::NOT_FINISHED : ES::RUNNING);
      s.ask.push_back(Rnd(8) == 0 ? 1 + int(Rnd(4)) : 0);
      static const char* a[] = {"", " pause", " halt", " pause after", " halt after"};
      text += std::string(j ? ", " : "") + N(s.out.back()) + a[s.ask.back()];
    }
    text += ")";
    sc.push_back(s);
    auto k = std::make_unique<Kid>(i);
    k->run = [&, i](Kid&) {
      auto& s = sc[size_t(i)];
      size_t p = pos[size_t(i)]++;
      if (p >= s.out.size()) { Fail("a finished child is ticked"); return ES::FAILURE; }
      asked = s.ask[p];
      if (asked == 1) runner.Pause();
      if (asked == 2) runner.Halt();
      callback_ask = asked;
      return s.out[p];
    };
    kids.push_back(k.get());
    seq->InsertInstruction(std::move(k), i);
  }
  proc.PushInstruction(std::move(seq));
  runner.SetProcedure(&proc);
  int calls = 0;
  runner.SetTickCallback([&](const Procedure& p) {
    ++calls;
    if (&p != &proc) Fail("the tick callback gets another procedure");
    if (callback_ask == 3) runner.Pause();
    if (callback_ask == 4) runner.Halt();
    callback_ask = 0;
  });
  // model
  std::vector<ES> st(size_t(n), ES::NOT_STARTED);
  std::vector<int> bp(size_t(n) + 1, 0);      // 0 none, 1 armed, 2 released; the last one is the root
  std::vector<size_t> mp(size_t(n), 0);
  ES rs = ES::NOT_STARTED;
  bool halted = false;
  text += ": ";
  auto model_tick = [&]() -> int {
    if (Fin(rs)) return 0;
    if (halted)
    {
      if (rs == ES::NOT_STARTED) rs = ES::NOT_FINISHED;   // started, not executed
      return 0;
    }
    int ask = 0;
    size_t i = 0;
    while (i < size_t(n) && st[i] == good) ++i;
    if (i == size_t(n)) { rs = good; return 0; }
    if (!Fin(st[i]))
    {
      ask = sc[i].ask[mp[i]];
      st[i] = sc[i].out[mp[i]++];
    }
    if (st[i] == good) rs = i + 1 == size_t(n) ? good : ES::NOT_FINISHED;
    else if (Fin(st[i])) rs = st[i];
    else rs = st[i];
    if (ask == 2 || ask == 4) halted = true;
    return ask;
  };
  auto total = [&](const std::vector<size_t>& v) { size_t t = 0; for (auto x : v) t += x; return t; };
  for (int s = 0; s < steps && !S().fails; ++s)
  {
    int op = int(Rnd(10));
    int before = calls;
    if (op < 2)
    {
      int j = int(Rnd(uint64_t(n) + 1));
      bool rm = Rnd(3) == 0;
      text += std::string(rm ? "clear" : "break") + " " + std::to_string(j) + "; ";
      Case(text);
      const Instruction* x = j == n ? root : kids[size_t(j)];
      if (rm) { Equal(runner.RemoveBreakpoint(x), bp[size_t(j)] != 0, "there was a breakpoint"); bp[size_t(j)] = 0; }
      else { Equal(runner.SetBreakpoint(x), bp[size_t(j)] == 0, "new breakpoint"); if (!bp[size_t(j)]) bp[size_t(j)] = 1; }
    }
    else if (op < 5)
    {
      text += "step; ";
      Case(text);
      runner.ExecuteSingle();
      callback_ask = 0;
      model_tick();
      for (auto& b : bp) if (b == 2) b = 1;
      Equal(calls - before, 1, "tick callbacks of one step");
    }
    else if (op == 5 && Rnd(3) == 0)
    {
      text += "halt; ";
      Case(text);
      runner.Halt();
      halted = true;
    }
    else if (op == 6 && Rnd(3) == 0)
    {
      text += "reset; ";
      Case(text);
      proc.Reset(ui);
      halted = false;
      rs = ES::NOT_STARTED;
      for (auto& x : st) x = ES::NOT_STARTED;
      std::fill(mp.begin(), mp.end(), 0);
      std::fill(pos.begin(), pos.end(), 0);
    }
    else
    {
      text += "run; ";
      Case(text);
      std::vector<const Instruction*> hit;
      int ticks = 0;
      bool stop = false;
      while (!stop && !Fin(rs) && !halted && ticks < 100)
      {
        // next instructions: the root and the child that would be ticked
        if (Ready(rs))
        {
          size_t i = 0;
          while (i < size_t(n) && st[i] == good) ++i;
          std::vector<size_t> next{size_t(n)};
          if (i < size_t(n) && Ready(st[i])) next.push_back(i);
          for (auto x : next)
            if (bp[x] == 1) { bp[x] = 2; hit.push_back(x == size_t(n) ? root : kids[x]); }
          if (!hit.empty()) break;
        }
        int ask = model_tick();
        ++ticks;
        for (auto& b : bp) if (b == 2) b = 1;
        stop = ask != 0;
      }
      Within(30, "run", [&] { runner.ExecuteProcedure(); });
      Equal(calls - before, ticks, "tick callbacks of this run");
      auto got = runner.GetCurrentBreakpointInstructions();
      Equal(got.size(), hit.size(), "number of breakpoint instructions reported after the run");
      for (auto h : hit) Check(std::find(got.begin(), got.end(), h) != got.end(), "a breakpoint that stopped the run is reported");
    }
    Equal(total(pos), total(mp), "ticks of children so far");
    for (int i = 0; i < n; ++i) Status(kids[size_t(i)]->GetStatus(), st[size_t(i)], "status of child " + std::to_string(i));
    Status(proc.GetStatus(), rs, "status of the procedure");
    Equal(runner.IsFinished(), Fin(rs) || halted, "finished");
    Equal(runner.IsRunning(), rs == ES::RUNNING, "running");
    for (auto& b : runner.GetBreakpoints())
    {
      size_t x = size_t(n);
      for (size_t i = 0; i < size_t(n); ++i) if (b.GetInstruction() == kids[i]) x = i;
      Equal(b.GetStatus() == Breakpoint::kReleased, bp[x] == 2, "breakpoint " + std::to_string(x) + " is released");
    }
  }
}

// a pause or a halt from another thread ends the run
static void Threads()
{
  for (int i = 0; i < 40 && !S().fails; ++i)
  {
    bool halt = i & 1;
    Case(halt ? "halt from another thread" : "pause from another thread");
    Procedure proc;
    UI ui;
    std::atomic<int> ticks{0}, asked{-1};
    auto k = std::make_unique<Kid>(0, [&](Kid&) { ++ticks; return Rnd(2) ? ES::RUNNING : ES::NOT_FINISHED; });
    proc.PushInstruction(std::move(k));
    Runner runner(ui);
    runner.SetProcedure(&proc);
    std::atomic<bool> done{false};
    Within(30, "run", [&] {
      std::thread t([&] { runner.ExecuteProcedure(); done = true; });
      while (ticks < 3) std::this_thread::yield();
      if (halt) runner.Halt(); else runner.Pause();
      asked = ticks.load();
      t.join();
    });
    Check(ticks - asked <= 2, "no tick after the request");
    Equal(runner.IsFinished(), halt, "finished");
  }
}

int main(int argc, char** argv)
{
  return drv::Main(argc, argv, [] {
    int f = S().deep ? 10 : 1;
    S().group = "empty";
    Empty();
    S().group = "histories";
    for (int i = 0; i < 1500 * f && !S().fails; ++i) Run(1 + int(Rnd(14)));
    S().group = "threads";
    Threads();
  });
}
