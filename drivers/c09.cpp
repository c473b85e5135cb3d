// C09: parallel instructions with gated children that finish one at a time, for all small thresholds
#include "gate.h"
using namespace lib;

static std::string Num(long long x) { return x < 0 ? "(none)" : std::to_string(x); }

// sth, fth: -1 when absent
static void Run(int n, long long sth, long long fth, const std::function<int(int)>& pick)
{
  Procedure proc;
  Workspace& ws = proc.GetWorkspace();
  UI ui;
  auto root = Make("ParallelSequence");
  std::vector<std::unique_ptr<Gate>> g;
  std::vector<Kid*> kids;
  for (int i = 0; i < n; ++i)
  {
    auto k = std::make_unique<Kid>(i);
    kids.push_back(k.get());
    g.push_back(std::make_unique<Gate>());
    Hook(*k, *g.back());
    root->InsertInstruction(std::move(k), i);
  }
  ws.Setup();
  if (sth >= 0) root->AddAttribute("successThreshold", std::to_string(sth));
  if (fth >= 0) root->AddAttribute("failureThreshold", std::to_string(fth));
  std::string head = "Parallel of " + std::to_string(n) + ", success threshold " + Num(sth) + ", failure threshold " + Num(fth) + ": ";
  root->Setup(proc);
  long long s = n, f = 1;
  if (sth >= 0) s = std::min<long long>(n, sth);
  if (fth >= 0) f = fth;
  f = std::min<long long>(n, f);
  if (sth >= 0) f = std::min(f, n - s + 1);
  else if (fth >= 0) s = n + 1 - f;
  auto tick = [&] { root->ExecuteSingle(ui, ws); };
  for (int round = 0; round < 2 && !S().fails; ++round)
  {
    std::string text = head + (round ? "after reset: " : "");
    Case(text);
    int ns = 0, nf = 0;
    auto want = [&] { return ns >= s ? ES::SUCCESS : nf >= f ? ES::FAILURE : ES::RUNNING; };
    std::vector<int> open;
    std::vector<int> base;
    for (int i = 0; i < n; ++i) { open.push_back(i); base.push_back(g[i]->Runs()); }
    Equal(root->NextInstructions().size(), size_t(n), "number of instructions announced before the first tick");
    tick();
    if (!Fin(want()))
      for (int i = 0; i < n; ++i)
        if (!Check(Until(5, [] {}, [&] { return g[i]->Runs() > base[i]; }), "a child is not started by the first tick")) break;
    int step = 0;
    while (!open.empty() && !Fin(want()) && !S().fails)
    {
      int p = pick(step++);
      size_t at = size_t(p / 8) % open.size();
      int i = open[at];
      ES out = p % 8 == 7 ? ES::NOT_FINISHED : p % 2 ? ES::FAILURE : ES::SUCCESS;
      text += "child " + std::to_string(i) + " returns " + N(out) + "; ";
      Case(text);
      Check(!Fin(root->GetStatus()), std::string("decided early: ") + N(root->GetStatus()));
      int runs = g[i]->Runs();
      g[i]->Let(out);
      if (out == ES::NOT_FINISHED)
      {
        Check(Until(5, tick, [&] { return g[i]->Runs() > runs || Fin(root->GetStatus()); }), "a child that is not finished is not executed again");
        Check(!Fin(root->GetStatus()), std::string("decided by a child that is not finished: ") + N(root->GetStatus()));
        continue;
      }
      open.erase(open.begin() + long(at));
      (out == ES::SUCCESS ? ns : nf)++;
      Until(5, [] {}, [&] { return kids[i]->GetStatus() == out; });
      if (!Fin(want()))
      {
        for (int j = 0; j < 3; ++j) { tick(); ::usleep(40); }
        Check(!Fin(root->GetStatus()), std::string("decided early: ") + N(root->GetStatus()));
      }
      for (int x : open) Check(!kids[x]->IsHaltRequested() || Fin(root->GetStatus()), "a child is asked to halt before the decision");
    }
    if (S().fails) break;
    if (!Until(5, tick, [&] { return Fin(root->GetStatus()); }))
      Fail(std::string("not decided: ") + N(root->GetStatus()) + ", expected " + N(want()));
    Status(root->GetStatus(), want(), "status");
    for (int x : open) Check(kids[x]->IsHaltRequested() && g[x]->Halted(), "an unfinished child is not asked to halt");
    if (S().fails) for (auto& x : g) x->Halt();
    R().Clear();
    root->Reset(ui);
    for (auto& x : g) Equal(x->Inside(), 0, "children still being executed after the reset");
    std::vector<int> all;
    for (int i = 0; i < n; ++i) all.push_back(i);
    Same(R().Of('r'), all, "children reset");
    Status(root->GetStatus(), ES::NOT_STARTED, "status after reset");
    for (auto k : kids) Status(k->GetStatus(), ES::NOT_STARTED, "status of a child after reset");
    for (auto& x : g) { Equal(x->Most() > 1, false, "a child is executed twice at the same time"); x->Again(); }
  }
  for (auto& x : g) x->Halt();
  if (S().fails) { root->Halt(); root->Reset(ui); }
}

static void Broken()
{
  for (const char* a : {"successThreshold", "failureThreshold"})
    for (const char* v : {"-1", "-4294967295", "4294967296", "many"})
    {
      Case(std::string("setup with ") + a + "=" + v);
      Procedure proc;
      auto root = Make("ParallelSequence");
      root->InsertInstruction(std::make_unique<Kid>(0), 0);
      root->AddAttribute(a, v);
      bool thrown = false;
      try { root->Setup(proc); } catch (const std::exception&) { thrown = true; }
      Check(thrown, "not a setup error");
    }
}

static void Halted(int rounds)
{
  for (int r = 0; r < rounds && !S().fails; ++r)
  {
    int n = 1 + r % 3;
    Case("reset of an undecided parallel instruction with " + std::to_string(n) + " children");
    UI ui;
    Workspace ws;
    auto root = Make("ParallelSequence");
    std::vector<std::unique_ptr<Gate>> g;
    for (int i = 0; i < n; ++i)
    {
      auto k = std::make_unique<Kid>(i);
      g.push_back(std::make_unique<Gate>());
      Hook(*k, *g.back());
      root->InsertInstruction(std::move(k), i);
    }
    root->ExecuteSingle(ui, ws);
    for (int i = 0; i < r % 5; ++i) ::usleep(20);
    Within(10, "reset", [&] { root->Reset(ui); });
    for (auto& x : g) { Equal(x->Inside(), 0, "children still being executed after the reset"); Check(x->Halted(), "a running child is not asked to halt"); }
  }
}

int main(int argc, char** argv)
{
  return drv::Main(argc, argv, [] {
    S().group = "setup";
    Broken();
    S().group = "all thresholds";
    for (int n = 1; n <= 4; ++n)
      for (long long s = -1; s <= n + 1; ++s)
        for (long long f = -1; f <= n + 1; ++f)
          for (int b = 0; b < (S().deep ? 6 : 2) && !S().fails; ++b)
          {
            int bias = int(Rnd(3));
            Run(n, s, f, [bias](int) { return int(Rnd(8) * 8) + (Rnd(8) == 0 ? 7 : bias == 0 ? int(Rnd(2)) : bias == 1 ? (Rnd(4) ? 0 : 1) : (Rnd(4) ? 1 : 0)); });
          }
    S().group = "large thresholds";
    for (long long s : {-1LL, 0LL, 1LL, 4294967295LL, 2147483648LL})
      for (long long f : {-1LL, 1LL, 65535LL})
        if (!S().fails) Run(3, s, f, [](int) { return int(Rnd(8) * 8) + int(Rnd(2)); });
    S().group = "reset while running";
    Halted(S().deep ? 100 : 30);
  });
}
