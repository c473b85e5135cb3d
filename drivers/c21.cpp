// C21: job control of an AsyncRunner, one command at a time and in bursts, against the state machine
#include "lib.h"
#include <sup/oac-tree/async_runner.h>
#include <sup/oac-tree/job_interface.h>
#include <algorithm>
using namespace lib;
using J = JobState;

struct Job : public JobInterface
{
  std::mutex m;
  std::condition_variable cv;
  std::vector<J> states;
  std::vector<std::pair<const Instruction*, bool>> bps;
  int ticks = 0;
  void OnStateChange(J s) noexcept override { std::lock_guard<std::mutex> l(m); states.push_back(s); cv.notify_all(); }
  void OnBreakpointChange(const Instruction* i, bool b) noexcept override { std::lock_guard<std::mutex> l(m); bps.push_back({i, b}); }
  void OnProcedureTick(const Procedure&) override { std::lock_guard<std::mutex> l(m); ++ticks; cv.notify_all(); }
  bool WaitFor(size_t n)
  {
    std::unique_lock<std::mutex> l(m);
    return cv.wait_for(l, std::chrono::seconds(20), [&] { return states.size() >= n; });
  }
  std::vector<J> States() { std::lock_guard<std::mutex> l(m); return states; }
  int Ticks() { std::lock_guard<std::mutex> l(m); return ticks; }
  void UpdateInstructionStatus(const Instruction*) override {}
  void VariableUpdated(const std::string&, const sup::dto::AnyValue&, bool) override {}
  bool PutValue(const sup::dto::AnyValue&, const std::string&) override { return true; }
  std::unique_ptr<IUserInputFuture> RequestUserInput(const UserInputRequest&) override { return {}; }
  void Message(const std::string&) override {}
  void Log(int, const std::string&) override {}
};

static std::string Text(const std::vector<J>& v)
{
  std::string o = "[";
  for (auto s : v) o += (o.size() > 1 ? ", " : "") + std::to_string(int(s)) + " " + ToString(s);
  return o + "]";
}

static void Run(int steps, bool twochild)
{
  Procedure proc;
  proc.AddAttribute("tickTimeout", "0.0001");
  std::atomic<int> outcome{-1};      // what the child returns: -1 goes on
  std::atomic<int> halted{0}, resets{0}, ticks{0};
  auto k = std::make_unique<Kid>(0);
  Kid* kid = k.get();
  bool running = Rnd(2);
  k->run = [&](Kid&) {
    ++ticks;
    int o = outcome;
    if (o < 0)
    {
      ::usleep(20);
      return running ? ES::RUNNING : ES::NOT_FINISHED;
    }
    return o ? ES::SUCCESS : ES::FAILURE;
  };
  k->on_halt = [&](Kid&) { ++halted; };
  k->on_reset = [&](Kid&) { ++resets; };
  if (twochild)
  {
    auto s = Make("Sequence");
    s->InsertInstruction(std::move(k), 0);
    proc.PushInstruction(std::move(s));
  }
  else proc.PushInstruction(std::move(k));
  auto root = proc.RootInstruction();
  Job job;
  std::vector<J> want{J::kInitial};
  J st = J::kInitial;
  std::string text = std::string(running ? "running" : "stepwise") + (twochild ? " in a sequence: " : ": ");
  {
    AsyncRunner r(proc, job);
    bool stale = false;              // an ignored command may still be queued
    bool bp = false, bp_released = false;
    auto expect = [&](std::vector<J> more) {
      for (auto s : more) want.push_back(s);
      st = want.back();
      stale = false;
      if (!job.WaitFor(want.size())) Fail("expected states " + Text(want) + ", reported " + Text(job.States()));
      else if (job.States() != want) Fail("expected states " + Text(want) + ", reported " + Text(job.States()));
    };
    auto fin = [&] { return st == J::kSucceeded || st == J::kFailed || st == J::kHalted; };
    for (int j = 0; j < steps && !S().fails; ++j)
    {
      int op = int(Rnd(9));
      bool can_run = st == J::kInitial || st == J::kPaused;
      if (op == 5 && (stale || fin())) op = 4;
      switch (op)
      {
      case 0:
      case 1:
      {
        text += "start; ";
        Case(text);
        if (can_run)
        {
          bool stops = bp && !bp_released && (!running || Ready(proc.GetStatus()));
          int o = outcome;
          r.Start();
          if (stops) { expect({J::kRunning, J::kPaused}); bp_released = true; }
          else if (o >= 0) { expect({J::kRunning, o ? J::kSucceeded : J::kFailed}); bp_released = false; }
          else if (bp && !running)
          {
            // one tick, then the breakpoint that was armed again stops it
            expect({J::kRunning, J::kPaused});
            bp_released = true;
          }
          else
          {
            expect({J::kRunning});
            bp_released = false;
            int t = job.Ticks();
            std::unique_lock<std::mutex> l(job.m);
            if (!job.cv.wait_for(l, std::chrono::seconds(20), [&] { return job.ticks > t + 1 || job.states.size() > want.size(); }))
              Fail("a started job does not tick");
          }
        }
        else { r.Start(); stale = true; }
        break;
      }
      case 2:
        text += "step; ";
        Case(text);
        if (can_run)
        {
          int t = ticks, o = outcome;
          r.Step();
          expect(o >= 0 ? std::vector<J>{J::kStepping, o ? J::kSucceeded : J::kFailed} : std::vector<J>{J::kStepping, J::kPaused});
          bp_released = false;
          Equal(ticks - t, 1, "ticks of one step");
        }
        else if (st == J::kRunning) { r.Step(); expect({J::kPaused}); }
        else { r.Step(); stale = true; }
        break;
      case 3:
        text += "pause; ";
        Case(text);
        r.Pause();
        if (st == J::kRunning) expect({J::kPaused});
        else stale = true;
        break;
      case 4:
      {
        text += "reset; ";
        Case(text);
        bool f = fin();
        r.Reset();
        if (f)
        {
          outcome = -1;
          expect({J::kInitial});
          Status(proc.GetStatus(), ES::NOT_STARTED, "status after a reset");
          Check(!kid->IsHaltRequested(), "no halt request after a reset");
        }
        else stale = true;
        break;
      }
      case 5:
      {
        text += "halt; ";
        Case(text);
        r.Halt();
        expect({J::kHalted});
        Check(root->IsHaltRequested() && kid->IsHaltRequested(), "a halt request was passed on");
        int t = ticks;
        ::usleep(200);
        Equal(ticks - t, 0, "ticks after the halt");
        break;
      }
      case 6:
        if (fin() || stale || outcome >= 0) break;
        {
          bool ok = Rnd(2);
          text += ok ? "child succeeds; " : "child fails; ";
          Case(text);
          outcome = ok;
          if (st == J::kRunning) { expect({ok ? J::kSucceeded : J::kFailed}); bp_released = false; }
        }
        break;
      case 7:
        if (st != J::kInitial && st != J::kPaused) break;
        if (stale) break;
        if (!bp)
        {
          text += "set breakpoint; ";
          Case(text);
          r.SetBreakpoint(kid);
          r.SetBreakpoint(kid);
          r.SetBreakpoint(nullptr);
          bp = true;
          bp_released = false;
        }
        else
        {
          text += "remove breakpoint; ";
          Case(text);
          r.RemoveBreakpoint(kid);
          r.RemoveBreakpoint(kid);
          bp = false;
          bp_released = false;
        }
        break;
      default:
        if (stale && !fin())
        {
          // let the ignored ones be handled: a command that has an effect goes behind them
          text += "pause and step; ";
          Case(text);
          if (st == J::kRunning) { r.Pause(); expect({J::kPaused}); }
          else if (outcome < 0) { r.Step(); expect({J::kStepping, J::kPaused}); bp_released = false; }
        }
        break;
      }
    }
    bool good = true;
    for (size_t i = 0; i < job.bps.size(); ++i) good = good && job.bps[i].first == kid && job.bps[i].second == (i % 2 == 0);
    Check(good, "each change of a breakpoint is reported once");
  }
  auto end = job.States();
  if (!S().fails && end != want) Fail("expected states " + Text(want) + ", reported " + Text(end));
}

// all commands are queued at once; the reported states follow from handling them in order
static void Burst()
{
  Procedure proc;
  std::atomic<bool> go{false};
  auto k = std::make_unique<Kid>(0, [&](Kid&) { while (!go) ::usleep(10); return ES::NOT_FINISHED; });
  proc.PushInstruction(std::move(k));
  Job job;
  std::vector<J> want{J::kInitial, J::kStepping, J::kPaused};
  std::string text = "behind a step in progress: ";
  AsyncRunner r(proc, job);
  r.Step();
  if (!job.WaitFor(2)) { Fail("a step is never taken"); go = true; return; }
  J st = J::kPaused;
  int n = 1 + int(Rnd(10));
  for (int i = 0; i < n; ++i)
  {
    int op = int(Rnd(4));
    text += std::string(op == 0 ? "start; " : op == 1 ? "step; " : op == 2 ? "pause; " : "reset; ");
    if (op == 0)
    {
      r.Start();
      if (st == J::kPaused) { st = J::kRunning; want.push_back(st); }
    }
    else if (op == 1)
    {
      r.Step();
      if (st == J::kRunning) { st = J::kPaused; want.push_back(st); }
      else { want.push_back(J::kStepping); want.push_back(J::kPaused); }
    }
    else if (op == 2)
    {
      r.Pause();
      if (st == J::kRunning) { st = J::kPaused; want.push_back(st); }
    }
    else r.Reset();
  }
  Case(text);
  go = true;
  job.WaitFor(want.size());
  if (job.States() != want) Fail("expected states " + Text(want) + ", reported " + Text(job.States()));
}

// a step, a run over the last tick and the breakpoint of an earlier stop
static void StaleBreakpoint()
{
  Procedure proc;
  std::atomic<int> left{2};
  auto k = std::make_unique<Kid>(0, [&](Kid&) { return --left > 0 ? ES::RUNNING : ES::SUCCESS; });
  Kid* kid = k.get();
  proc.PushInstruction(std::move(k));
  Job job;
  Case("breakpoint, start, step to running, start");
  AsyncRunner r(proc, job);
  r.SetBreakpoint(kid);
  r.Start();
  job.WaitFor(3);
  r.Step();
  job.WaitFor(5);
  r.Start();
  std::vector<J> want{J::kInitial, J::kRunning, J::kPaused, J::kStepping, J::kPaused, J::kRunning, J::kSucceeded};
  job.WaitFor(7);
  r.Pause();
  r.Start();
  ::usleep(20000);
  if (job.States() != want) Fail("expected states " + Text(want) + ", reported " + Text(job.States()));
}

int main(int argc, char** argv)
{
  return drv::Main(argc, argv, [] {
    int f = S().deep ? 10 : 1;
    S().group = "stale breakpoint";
    Within(100, "stale", StaleBreakpoint);
    S().group = "one command at a time";
    for (int i = 0; i < 250 * f && !S().fails; ++i) Within(100, "run", [] { Run(1 + int(Rnd(24)), Rnd(2)); });
    S().group = "bursts";
    for (int i = 0; i < 200 * f && !S().fails; ++i) Within(100, "burst", Burst);
  });
}
