// C32: what a job reports to the outside, against a model
#include "lib.h"
#include <sup/oac-tree/exceptions.h>
#include <sup/oac-tree/i_job_info_io.h>
#include <sup/oac-tree/instruction_tree.h>
#include <sup/oac-tree/job_info.h>
#include <sup/oac-tree/job_interface_adapter.h>
#include <sup/oac-tree/job_states.h>
#include <sup/oac-tree/local_job.h>
#include <algorithm>
using namespace lib;
using P = const Instruction*;

struct Outside : IJobInfoIO
{
  mutable std::mutex m;
  std::condition_variable cv;
  std::vector<std::string> said;
  JobState now = JobState::kInitial;
  void Say(const std::string& s) { std::lock_guard<std::mutex> l(m); said.push_back(s); }
  std::vector<std::string> Take() { std::lock_guard<std::mutex> l(m); std::vector<std::string> o; o.swap(said); return o; }
  void InitNumberOfInstructions(sup::dto::uint32 n) override { Say("number " + std::to_string(n)); }
  void InstructionStateUpdated(sup::dto::uint32 i, InstructionState s) override
  {
    Say("instruction " + std::to_string(i) + (s.m_breakpoint_set ? " breakpoint " : " ") + N(s.m_execution_status));
  }
  void VariableUpdated(sup::dto::uint32 i, const sup::dto::AnyValue& v, bool c) override
  {
    Say("variable " + std::to_string(i) + " " + std::to_string(v.As<sup::dto::int32>()) + (c ? " connected" : ""));
  }
  void JobStateUpdated(JobState s) override
  {
    Say("state " + std::to_string(int(s)));
    std::lock_guard<std::mutex> l(m);
    now = s;
    cv.notify_all();
  }
  bool Wait(JobState s)
  {
    std::unique_lock<std::mutex> l(m);
    return cv.wait_for(l, std::chrono::seconds(10), [&] { return now == s; });
  }
  void PutValue(const sup::dto::AnyValue& v, const std::string& d) override { Say("put " + std::to_string(v.As<sup::dto::int32>()) + " " + d); }
  bool GetUserValue(sup::dto::uint64, sup::dto::AnyValue&, const std::string&) override { return false; }
  int GetUserChoice(sup::dto::uint64, const std::vector<std::string>&, const sup::dto::AnyValue&) override { return -1; }
  void Interrupt(sup::dto::uint64) override {}
  void Message(const std::string& s) override { Say("message " + s); }
  void Log(int v, const std::string& s) override { Say("log " + std::to_string(v) + " " + s); }
  void NextInstructionsUpdated(const std::vector<sup::dto::uint32>& v) override
  {
    std::string o = "next";
    for (auto i : v) o += " " + std::to_string(i);
    Say(o);
  }
};
static std::string Show(const std::vector<std::string>& v)
{
  std::string o;
  for (auto& s : v) o += "[" + s + "]";
  return o;
}
static std::unique_ptr<Instruction> RandomTree(int depth, int& id)
{
  if (depth == 0 || Rnd(3) == 0) return std::make_unique<Kid>(id++, [](Kid&) { return Outcome(int(Rnd(3))); });
  static const char* types[] = {"Sequence", "Fallback", "ReactiveSequence", "Inverter"};
  auto type = types[Rnd(4)];
  auto r = Make(type);
  int n = std::string(type) == "Inverter" ? 1 : 1 + int(Rnd(3));
  for (int i = 0; i < n; ++i) r->InsertInstruction(RandomTree(depth - 1, id), i);
  return r;
}
static std::vector<P> Breadth(P root)
{
  std::vector<P> o{root};
  for (size_t i = 0; i < o.size(); ++i)
    for (auto c : static_cast<const Instruction*>(o[i])->ChildInstructions()) o.push_back(c);
  return o;
}
static void Leaves(const InstructionTree& t, std::vector<P>& o)
{
  if (t.GetChildren().empty()) { if (t.GetInstruction()) o.push_back(t.GetInstruction()); return; }
  for (auto c : t.GetChildren()) Leaves(*c, o);
}

static void Adapter(int steps)
{
  UI ui;
  auto proc = std::make_unique<Procedure>();
  int id = 0;
  proc->PushInstruction(RandomTree(1 + int(Rnd(3)), id));
  std::vector<std::string> vars;
  for (int i = int(Rnd(4)); i > 0; --i)
  {
    vars.push_back("v" + std::to_string(Rnd(100) * 4 + i));
    proc->AddVariable(vars.back(), LocalVar("{\"type\":\"int32\"}"));
  }
  proc->Setup();
  auto names = proc->VariableNames();
  auto root = proc->RootInstruction();
  auto all = Breadth(root);
  Outside out;
  JobInterfaceAdapter a(*proc, out);
  std::string text = std::to_string(all.size()) + " instructions:";
  std::vector<std::string> want;
  Kid stranger(1000);
  std::vector<bool> bp(all.size());
  std::vector<ES> known(all.size(), ES::NOT_STARTED);
  a.InitializeInstructionTree(root);
  Case(text + " initialise");
  auto expect = [&](const std::string& s) {
    auto got = out.Take();
    Check(got == std::vector<std::string>{s}, "reports exactly [" + s + "], got " + Show(got));
  };
  auto state = [&](size_t k) { return "instruction " + std::to_string(k) + (bp[k] ? " breakpoint " : " ") + N(known[k]); };
  expect("number " + std::to_string(all.size()));
  for (; steps > 0; --steps)
  {
    size_t k = Rnd(all.size());
    switch (Rnd(10))
    {
    case 0: case 1:
      text += " status " + std::to_string(k); Case(text);
      a.UpdateInstructionStatus(all[k]); known[k] = all[k]->GetStatus(); expect(state(k));
      break;
    case 2: case 3:
    {
      bool on = Rnd(2);
      text += (on ? " set " : " clear ") + std::to_string(k); Case(text);
      a.OnBreakpointChange(all[k], on); bp[k] = on; expect(state(k));
      break;
    }
    case 4:
    {
      bool known_name = !names.empty() && Rnd(4), c = Rnd(2), thrown = false;
      size_t v = names.empty() ? 0 : Rnd(names.size());
      int x = int(Rnd(100));
      text += " variable"; Case(text);
      try { a.VariableUpdated(known_name ? names[v] : "unknown", sup::dto::AnyValue(sup::dto::int32(x)), c); }
      catch (const InvalidOperationException&) { thrown = true; }
      Equal(thrown, !known_name, "an unknown variable is an error");
      if (known_name)
      {
        auto got = out.Take();
        std::string tail = " " + std::to_string(x) + (c ? " connected" : "");
        std::set<std::string> may;
        for (size_t i = 0; i < names.size(); ++i) may.insert("variable " + std::to_string(i) + tail);
        Check(got.size() == 1 && may.count(got[0]), "reports one variable" + tail + ", got " + Show(got));
      }
      break;
    }
    case 5:
      text += " put"; Case(text);
      Check(a.PutValue(sup::dto::AnyValue(sup::dto::int32(int(k))), "some text"), "is taken"); expect("put " + std::to_string(k) + " some text");
      break;
    case 6:
      text += " message and log"; Case(text);
      a.Message("hello"); expect("message hello");
      for (int v = 0; v < 9; ++v) { a.Log(v, "line"); expect("log " + std::to_string(v) + " line"); }
      break;
    case 7:
      for (int v = 0; v < 7; ++v) { Case(text + " state"); a.OnStateChange(static_cast<JobState>(v)); expect("state " + std::to_string(v)); }
      break;
    case 8:
    {
      text += " tick"; Case(text);
      if (!IsFinishedStatus(proc->GetStatus())) proc->ExecuteSingle(ui);
      std::vector<P> l;
      auto t = proc->GetNextInstructionTree();
      Leaves(t, l);
      std::string s = "next";
      for (auto i : l) s += " " + std::to_string(std::find(all.begin(), all.end(), i) - all.begin());
      a.OnProcedureTick(*proc); expect(s);
      break;
    }
    default:
    {
      bool thrown = false;
      text += " stranger"; Case(text);
      try { a.UpdateInstructionStatus(&stranger); } catch (const InvalidOperationException&) { thrown = true; }
      Check(thrown && out.Take().empty(), "an unknown instruction is an error and nothing is reported");
      if (!Rnd(6))
      {
        a.InitializeInstructionTree(root); bp.assign(all.size(), false); known.assign(all.size(), ES::NOT_STARTED);
        expect("number " + std::to_string(all.size()));
      }
    }
    }
  }
}

static void Jobs()
{
  auto proc = std::make_unique<Procedure>();
  int id = 0;
  auto seq = Make("Sequence");
  int n = 1 + int(Rnd(4));
  for (int i = 0; i < n; ++i) seq->InsertInstruction(std::make_unique<Kid>(id++), i);
  proc->PushInstruction(std::move(seq));
  proc->AddAttribute("tickTimeout", "0.0001");
  proc->Setup();
  Outside out;
  LocalJob job(std::move(proc), out);
  std::string text = std::to_string(n + 1) + " instructions, job:";
  out.Take();
  std::vector<bool> bp(size_t(n) + 1);
  for (int s = int(Rnd(10)); s > 0; --s)
  {
    size_t k = Rnd(size_t(n) + 3);
    bool on = Rnd(2), change = k <= size_t(n) && bp[k] != on;
    text += (on ? " set " : " clear ") + std::to_string(k); Case(text);
    if (on) job.SetBreakpoint(sup::dto::uint32(k)); else job.RemoveBreakpoint(sup::dto::uint32(k));
    if (change) bp[k] = on;
    auto got = out.Take();
    std::vector<std::string> want;
    if (change) want.push_back("instruction " + std::to_string(k) + (on ? " breakpoint " : " ") + N(ES::NOT_STARTED));
    Check(got == want, "reports " + Show(want) + ", got " + Show(got));
  }
  for (size_t k = 0; k <= size_t(n); ++k) if (bp[k]) job.RemoveBreakpoint(sup::dto::uint32(k));
  out.Take();
  text += " start"; Case(text);
  job.Start();
  if (!Check(out.Wait(JobState::kSucceeded), "the job finishes")) return;
  auto got = out.Take();
  for (int k = 0; k <= n; ++k)
    Equal(int(std::count(got.begin(), got.end(), "instruction " + std::to_string(k) + " " + N(ES::SUCCESS))), 1, "success of instruction " + std::to_string(k) + " reported");
  Equal(int(std::count(got.begin(), got.end(), "state " + std::to_string(int(JobState::kSucceeded)))), 1, "reports of success of the job");
}

static void Commands()
{
  auto proc = std::make_unique<Procedure>();
  std::atomic<int> ticks{0};
  proc->PushInstruction(std::make_unique<Kid>(0, [&](Kid&) { ++ticks; return ES::RUNNING; }));
  proc->AddAttribute("tickTimeout", "0.0001");
  proc->Setup();
  Outside out;
  LocalJob job(std::move(proc), out);
  std::string text = "a job that goes on for ever:";
  auto reach = [&](JobState s, const std::string& what) { text += " " + what; Case(text); return Check(out.Wait(s), "reaches the state"); };
  for (int s = 1 + int(Rnd(6)); s > 0; --s)
  {
    int before = ticks;
    switch (Rnd(4))
    {
    case 0:
      job.Step();
      text += " step"; Case(text);
      for (int w = 0; w < 10000 && ticks == before; ++w) ::usleep(1000);
      ::usleep(2000);
      Equal(int(ticks), before + 1, "ticks of a step");
      if (!Check(out.Wait(JobState::kPaused), "a step ends in paused")) return;
      break;
    case 1:
      job.Start();
      if (!reach(JobState::kRunning, "start")) return;
      job.Pause();
      if (!reach(JobState::kPaused, "pause")) return;
      break;
    case 2:
      job.Halt();
      if (!reach(JobState::kHalted, "halt")) return;
      job.Reset();
      if (!reach(JobState::kInitial, "reset")) return;
      break;
    default:
      job.Start();
      if (!reach(JobState::kRunning, "start")) return;
      job.Halt();
      if (!reach(JobState::kHalted, "halt")) return;
      job.Reset();
      if (!reach(JobState::kInitial, "reset")) return;
    }
  }
}

int main(int argc, char** argv)
{
  return drv::Main(argc, argv, [] {
    int f = S().deep ? 10 : 1;
    S().group = "reports";
    for (int i = 0; i < 600 * f && !S().fails; ++i) Adapter(1 + int(Rnd(25)));
    S().group = "jobs";
    for (int i = 0; i < 100 * f && !S().fails; ++i) Within(60, "jobs", Jobs);
    S().group = "commands";
    for (int i = 0; i < 60 * f && !S().fails; ++i) Within(100, "commands", Commands);
  });
}
