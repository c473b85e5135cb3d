// C12: asynchronous children with gated executions
#include "gate.h"
#include <sup/oac-tree/instructions/async_wrapper.h>
using namespace lib;

// kind 0: the wrapper itself; 1: an Async instruction; 2: a parallel instruction with one child
static void Run(int kind, int steps)
{
  static const char* name[] = {"wrapper", "Async", "ParallelSequence with one child"};
  UI ui;
  Workspace ws;
  Gate g;
  std::unique_ptr<Instruction> root;
  std::unique_ptr<Kid> own;
  std::vector<AsyncWrapper> w;
  Kid* k;
  auto fresh = std::make_unique<Kid>(0);
  k = fresh.get();
  Hook(*k, g);
  if (kind)
  {
    root = Make(kind == 1 ? "Async" : "ParallelSequence");
    root->InsertInstruction(std::move(fresh), 0);
  }
  else
  {
    own = std::move(fresh);
    w.emplace_back(own.get());
  }
  auto status = [&] { return kind ? root->GetStatus() : w[0].GetStatus(); };
  auto tick = [&] { if (kind) root->ExecuteSingle(ui, ws); else w[0].Tick(ui, ws); };
  std::string text = std::string(name[kind]) + ": ";
  int runs = 0;
  bool open = false;        // an execution is outstanding
  ES last = ES::NOT_STARTED;
  for (int j = 0; j < steps && !S().fails; ++j)
  {
    if (!open && !Fin(last))
    {
      text += "tick; ";
      Case(text);
      if (last != ES::RUNNING || j == 0) tick();
      if (!Check(Until(5, tick, [&] { return g.Runs() > runs; }), "the child is not executed again")) break;
      ++runs;
      open = true;
      Status(status(), ES::RUNNING, "status while an execution is outstanding");
    }
    if (open && Rnd(3) == 0)
    {
      int n = 1 + int(Rnd(4));
      text += std::to_string(n) + " ticks; ";
      Case(text);
      for (int i = 0; i < n; ++i)
      {
        tick();
        Status(status(), ES::RUNNING, "status while an execution is outstanding");
      }
      Equal(g.Runs(), runs, "executions started");
      Equal(g.Inside(), 1, "executions in progress");
      Equal(g.Most(), 1, "executions in progress at the same time");
      continue;
    }
    if (!open) // finished
    {
      text += "ticks; ";
      Case(text);
      for (int i = 0; i < 3; ++i) tick();
      ::usleep(100);
      Equal(g.Runs(), runs, "executions of a finished child");
      Status(status(), last, "status");
      break;
    }
    if (kind && Rnd(6) == 0)
    {
      text += "reset; ";
      Case(text);
      std::atomic<bool> freed{false};
      k->on_halt = [](Kid&) {};
      bool late = Rnd(2);
      std::thread t([&] { ::usleep(late ? 1500 : 0); freed = true; g.Let(ES::FAILURE); });
      root->Reset(ui);
      Check(freed, "the reset does not wait for the execution");
      Equal(g.Inside(), 0, "executions in progress after the reset");
      Check(!k->IsHaltRequested(), "the halt request survives the reset");
      Status(k->GetStatus(), ES::NOT_STARTED, "status of the child after reset");
      t.join();
      open = false;
      last = ES::NOT_STARTED;
      g.Again();
      k->on_halt = [&g](Kid&) { g.Halt(); };
      continue;
    }
    ES out = Outcome(int(Rnd(6) + 2));
    text += std::string("child returns ") + N(out) + "; ";
    Case(text);
    int left = g.Left();
    g.Let(out);
    Until(5, [] {}, [&] { return g.Left() > left && k->GetStatus() == out; });
    open = false;
    if (out == ES::RUNNING) { last = out; continue; }
    // the result must be observed before anything else is launched
    if (!Check(Until(5, tick, [&] { return status() != ES::RUNNING; }), "the result of the child is not observed")) break;
    Status(status(), out, "status");
    Equal(g.Runs(), runs, "executions started before the result is observed");
    Equal(g.Most(), 1, "executions in progress at the same time");
    last = out;
  }
  g.Halt();
  Equal(g.Most() <= 1, true, "one execution at a time");
}

int main(int argc, char** argv)
{
  return drv::Main(argc, argv, [] {
    for (int kind = 0; kind < 3; ++kind)
    {
      static const char* name[] = {"wrapper", "async", "parallel"};
      S().group = name[kind];
      for (int i = 0; i < (S().deep ? 3000 : 500) && !S().fails; ++i) Run(kind, 2 + int(Rnd(14)));
    }
  });
}
