// C06: histories of ticks, halts and resets of one instruction and of small trees against the documented life cycle
#include "lib.h"
using namespace lib;

struct Model { ES st = ES::NOT_STARTED; bool halt = false; };

static void Single(int n)
{
  Kid k(1);
  UI ui;
  Workspace ws;
  Model m;
  std::string text;
  for (int j = 0; j < n && !S().fails; ++j)
  {
    int op = int(Rnd(8));
    bool ok = Rnd(6) != 0;
    ES out = Outcome(int(Rnd(4)));
    if (Rnd(9) == 0) out = ES::NOT_STARTED;
    bool halt_inside = Rnd(12) == 0;
    bool reset_inside_halt = Rnd(4) == 0;
    ui.notes.clear();
    R().Clear();
    std::vector<ES> notes;
    std::vector<Ev> want;
    if (op < 5)
    {
      text += std::string("tick(init ") + (ok ? "ok" : "fails") + (halt_inside ? ", halted during it" : "") + ", returns " + N(out) + "); ";
      Case(text);
      k.init_ok = ok;
      bool in_init = halt_inside && m.st == ES::NOT_STARTED;
      k.on_init = [&](Kid& x) { Status(x.GetStatus(), ES::NOT_STARTED, "status during initialisation"); if (in_init) x.Halt(); };
      k.run = [&](Kid& x) {
        Status(x.GetStatus(), m.st == ES::NOT_STARTED ? ES::NOT_FINISHED : m.st, "status during execution");
        if (halt_inside && !in_init) x.Halt();
        return out;
      };
      k.ExecuteSingle(ui, ws);
      ES now = m.st;
      if (now == ES::NOT_STARTED)
      {
        want.push_back({'i', 1});
        if (in_init) { want.push_back({'h', 1}); m.halt = true; }
        now = ok ? ES::NOT_FINISHED : ES::FAILURE;
        notes.push_back(now);
      }
      if (!Fin(now) && !m.halt)
      {
        want.push_back({'t', 1});
        if (halt_inside && !in_init) { want.push_back({'h', 1}); m.halt = true; }
        if (out != now) notes.push_back(out);
        now = out;
      }
      m.st = now;
    }
    else if (op == 5)
    {
      text += "halt; ";
      Case(text);
      k.Halt();
      want.push_back({'h', 1});
      m.halt = true;
    }
    else
    {
      text += reset_inside_halt ? "reset(hook halts); " : "reset; ";
      Case(text);
      k.on_reset = [&](Kid& x) {
        Status(x.GetStatus(), m.st, "status during the reset hook");
        if (m.halt) Check(x.IsHaltRequested(), "the halt request is gone before the reset hook");
        if (reset_inside_halt) x.Halt();
      };
      k.Reset(ui);
      want.push_back({'r', 1});
      if (reset_inside_halt) want.push_back({'h', 1});
      if (m.st != ES::NOT_STARTED) notes.push_back(ES::NOT_STARTED);
      m.st = ES::NOT_STARTED;
      m.halt = false;
    }
    Check(R().Get() == want, "the initialisations, executions, resets and halts made are not the documented ones");
    Status(k.GetStatus(), m.st, "status");
    Equal(k.IsHaltRequested(), m.halt, "halt requested");
    Equal(ui.notes.size(), notes.size(), "number of status reports");
    for (size_t i = 0; i < notes.size() && i < ui.notes.size(); ++i)
    {
      Status(ui.notes[i].s, notes[i], "status visible when reported");
      Check(ui.notes[i].i == &k, "another instruction is reported");
    }
  }
}

static void Trees()
{
  for (const char* type : {"Sequence", "Fallback", "ReactiveSequence", "ReactiveFallback", "Choice", "Inverter", "ForceSuccess", "Repeat", "UserChoice"})
  {
    for (int n = 0; n <= 4; ++n)
    {
      bool deco = std::string(type) == "Inverter" || std::string(type) == "ForceSuccess" || std::string(type) == "Repeat";
      if (deco && n > 1) continue;
      Case(std::string(type) + " with " + std::to_string(n) + " children: halt and reset");
      Tree t(type, n);
      for (auto k : t.kids) { k->run = [](Kid& x) { return Outcome(x.id); }; k->ExecuteSingle(t.ui, t.ws); }
      std::vector<int> all;
      for (int i = 0; i < n; ++i) all.push_back(i);
      R().Clear();
      t.root->Halt();
      Same(R().Of('h'), all, "children halted");
      Check(t.root->IsHaltRequested(), "the halt request is lost");
      for (auto k : t.kids) Check(k->IsHaltRequested(), "a child is not asked to halt");
      R().Clear();
      t.root->Reset(t.ui);
      Same(R().Of('r'), all, "children reset");
      Same(R().Of('t'), {}, "children ticked by a reset");
      for (auto k : t.kids) { Status(k->GetStatus(), ES::NOT_STARTED, "status of a child after reset"); Check(!k->IsHaltRequested(), "halt request of a child survives the reset"); }
      Status(t.root->GetStatus(), ES::NOT_STARTED, "status after reset");
      Check(!t.root->IsHaltRequested(), "the halt request survives the reset");
    }
  }
}

static void Threads(int rounds)
{
  for (int r = 0; r < rounds && !S().fails; ++r)
  {
    Case("halt by another thread during ticks, round " + std::to_string(r));
    Kid k(1, [](Kid&) { return ES::NOT_FINISHED; });
    UI ui;
    Workspace ws;
    std::atomic<bool> halted{false};
    std::thread h([&] { for (int i = 0; i < r % 7; ++i) std::this_thread::yield(); k.Halt(); halted = true; });
    std::thread q([&] { for (int i = 0; i < 20; ++i) { auto s = k.GetStatus(); if (s != ES::NOT_STARTED && s != ES::NOT_FINISHED) Fail("status that was never set"); } });
    for (int i = 0; i < 20; ++i)
    {
      bool h0 = halted;
      R().Clear();
      k.ExecuteSingle(ui, ws);
      if (h0) Check(R().Of('t').empty(), "executed after a halt request");
      if (h0) Check(k.IsHaltRequested(), "the halt request is lost");
    }
    h.join();
    q.join();
    Check(k.IsHaltRequested(), "the halt request is lost");
  }
}

int main(int argc, char** argv)
{
  return drv::Main(argc, argv, [] {
    S().group = "one instruction";
    for (int i = 0; i < (S().deep ? 20000 : 4000) && !S().fails; ++i) Single(3 + int(Rnd(12)));
    S().group = "trees";
    Trees();
    S().group = "threads";
    Threads(S().deep ? 400 : 60);
  });
}
