// C02: the command queue against a sequential model and under concurrent producers and consumers
#include "drv.h"
#include <sup/oac-tree/job_command_queue.h>
#include <condition_variable>
#include <deque>
#include <mutex>
#include <pthread.h>
using namespace sup::oac_tree;
using drv::Case; using drv::Check; using drv::Equal; using drv::Fail; using drv::S; using drv::Rnd;

// mutex operations of the real code pass through here: random delays widen the windows between sections
static std::atomic<int> g_perturb{0};
extern "C" int __real_pthread_mutex_lock(pthread_mutex_t*);
extern "C" int __real_pthread_mutex_unlock(pthread_mutex_t*);
static void perturb()
{
  int p = g_perturb.load(std::memory_order_relaxed);
  if (p == 0) return;
  static thread_local unsigned st = unsigned(std::hash<std::thread::id>()(std::this_thread::get_id())) | 1u;
  st = st * 1664525u + 1013904223u;
  if ((st >> 16) % 4 == 0) ::usleep((st >> 20) % unsigned(p));
}
extern "C" int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { perturb(); return __real_pthread_mutex_lock(m); }
extern "C" int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
  int r = __real_pthread_mutex_unlock(m);
  perturb();
  return r;
}

struct Model
{
  std::deque<int> q;
};
// operations: 0..5 push c; 6..11 priority push c with hook; 12..17 priority push c without hook; 18 trypop; 19 wait (if not empty)
static std::string OpName(int op)
{
  if (op < 6) return "Push(" + std::to_string(op) + ")";
  if (op < 12) return "PriorityPush(" + std::to_string(op - 6) + ",hook)";
  if (op < 18) return "PriorityPush(" + std::to_string(op - 12) + ")";
  return op == 18 ? "TryPop" : "Wait";
}
static std::string Text(const std::vector<int>& ops)
{
  std::string t;
  for (int o : ops) t += OpName(o) + " ";
  if (t.size() > 400) t = "... " + t.substr(t.size() - 400);
  return t;
}
static bool Apply(JobCommandQueue& Q, Model& m, int op)
{
  bool ok = true;
  if (op < 6) { Q.Push(JobCommand(op)); m.q.push_back(op); }
  else if (op < 18)
  {
    int c = op < 12 ? op - 6 : op - 12;
    int hooks = 0;
    bool want = m.q.empty() || c > m.q.front();
    bool got = op < 12 ? Q.PriorityPush(JobCommand(c), [&hooks] { ++hooks; }) : Q.PriorityPush(JobCommand(c), {});
    ok &= Equal(got, want, "result of " + OpName(op));
    if (op < 12) ok &= Equal(hooks, want ? 1 : 0, "runs of the hook of " + OpName(op));
    if (want) m.q.push_front(c);
  }
  else if (op == 18)
  {
    for (int init = 0; init < 1; ++init)
    {
      int keep = 3 - (m.q.empty() ? 0 : m.q.front() == 3);
      JobCommand out = JobCommand(keep);
      bool got = Q.TryPop(out);
      ok &= Equal(got, !m.q.empty(), "result of TryPop");
      ok &= Equal(int(out), m.q.empty() ? keep : m.q.front(), "output of TryPop");
      if (!m.q.empty()) m.q.pop_front();
    }
  }
  else if (!m.q.empty())
  {
    ok &= Equal(int(Q.WaitForNextCommand()), m.q.front(), "WaitForNextCommand");
    m.q.pop_front();
  }
  ok &= Equal(Q.GetSize(), m.q.size(), "GetSize");
  ok &= Equal(Q.IsEmpty(), m.q.empty(), "IsEmpty");
  return ok;
}
static void Drain(JobCommandQueue& Q, Model& m)
{
  while (!m.q.empty() && Apply(Q, m, 18)) {}
  if (m.q.empty()) Apply(Q, m, 18);
}
static bool Sequence(const std::vector<int>& ops)
{
  Case(Text(ops));
  JobCommandQueue Q;
  Model m;
  for (int o : ops)
    if (!Apply(Q, m, o)) return false;
  Drain(Q, m);
  return S().fails == 0;
}
static void Sequential()
{
  S().group = "sequences";
  S().deadline = drv::Now() + 60;
  std::vector<int> alpha = {0, 2, 5, 6, 8, 11, 14, 18, 19};
  const int len = S().deep ? 6 : 5;
  std::vector<int> cur;
  std::function<void(int)> rec = [&](int n) {
    if (S().fails) return;
    if (n == 0) { Sequence(cur); return; }
    for (int a : alpha) { cur.push_back(a); rec(n - 1); cur.pop_back(); }
  };
  for (int n = 1; n <= 3; ++n)
  {
    std::vector<int> all;
    for (int i = 0; i < 20; ++i) all.push_back(i);
    std::swap(alpha, all);
    rec(n);
    std::swap(alpha, all);
  }
  rec(len);
  S().group = "long random sequences";
  for (int i = 0; i < (S().deep ? 400 : 60) && !S().fails; ++i)
  {
    S().deadline = drv::Now() + 60;
    std::vector<int> ops;
    int bias = int(Rnd(3));
    for (auto n = 20 + Rnd(i % 10 == 0 ? 3000 : 200); n > 0; --n)
      ops.push_back(int(bias == 0 ? Rnd(20) : bias == 1 ? Rnd(18) : (Rnd(2) ? 18 : Rnd(20))));
    Sequence(ops);
  }
  S().deadline = drv::Now() + 60;
  for (int op : {1, 9, 15})     // many commands at once
  {
    std::vector<int> ops;
    for (int i = 0; i < 2500; ++i) ops.push_back(i % 500 == 7 ? op : int(Rnd(6)));
    Sequence(ops);
    if (S().fails) return;
  }
  S().deadline = 0;
}
// the hook of an accepted push has run before any consumer or query can see the command
static void HookBeforeVisible(int consumer, int prefill)
{
  S().group = "hook before visible";
  Case("consumer kind " + std::to_string(consumer) + ", queued before: " + std::to_string(prefill));
  JobCommandQueue Q;
  for (int i = 0; i < prefill; ++i) Q.Push(JobCommand::kStart);
  std::atomic<bool> hook_done{false}, early{false}, started{false};
  std::atomic<int> got{-1};
  S().deadline = drv::Now() + 15;
  std::thread c([&] {
    started = true;
    for (;;)
    {
      if (consumer == 0) { auto x = Q.WaitForNextCommand(); if (x != JobCommand::kStart) { got = int(x); early = !hook_done; return; } }
      else if (consumer == 1)
      {
        JobCommand x = JobCommand::kPause;
        if (Q.TryPop(x) && x != JobCommand::kStart) { got = int(x); early = !hook_done; return; }
      }
      else if (consumer == 2)
      {
        if (Q.GetSize() > size_t(prefill)) { early = !hook_done; return; }
      }
      else if (!Q.IsEmpty()) { early = !hook_done; return; }
    }
  });
  while (!started) std::this_thread::yield();
  ::usleep(3000);
  Q.PriorityPush(JobCommand::kHalt, [&] { ::usleep(15000); hook_done = true; });
  c.join();
  S().deadline = 0;
  Check(!early, "a consumer saw the command before its hook had run");
  if (consumer < 2) Equal(got.load(), int(JobCommand::kHalt), "command obtained");
}
// check and insertion are one step: of two racing urgent pushes of equal rank on an empty queue one is refused
static void AtomicPriority(int i)
{
  S().group = "racing urgent pushes";
  Case("round " + std::to_string(i));
  JobCommandQueue Q;
  std::atomic<int> go{0}, hooks{0}, acc{0};
  S().deadline = drv::Now() + 15;
  auto f = [&] {
    ++go;
    while (go < 2) {}
    if (Q.PriorityPush(JobCommand::kHalt, [&] { ++hooks; if (i % 2) ::usleep(2000); })) ++acc;
  };
  std::thread a(f), b(f);
  a.join();
  b.join();
  S().deadline = 0;
  Equal(acc.load(), 1, "accepted pushes");
  Equal(hooks.load(), 1, "hook runs");
  Equal(Q.GetSize(), size_t(1), "queued commands");
}
// every waiting consumer is woken when there is a command for it
static void Wakeups(int waiters, bool urgent, int i)
{
  S().group = "wake-ups";
  Case(std::to_string(waiters) + " waiters, " + (urgent ? "urgent" : "ordinary") + " pushes, round " + std::to_string(i));
  JobCommandQueue Q;
  std::atomic<int> in{0};
  std::vector<std::thread> t;
  std::atomic<int> sum{0};
  S().deadline = drv::Now() + 15;
  for (int k = 0; k < waiters; ++k)
    t.emplace_back([&] { ++in; sum += int(Q.WaitForNextCommand()); });
  while (in < waiters) std::this_thread::yield();
  ::usleep(i % 3 == 0 ? 0 : 4000);
  int want = 0;
  for (int k = 0; k < waiters; ++k)
  {
    int c = urgent ? k % 6 : (k * 2 + 1) % 6;
    if (urgent)
      while (!Q.PriorityPush(JobCommand(c), {})) { ::usleep(100); }
    else
      Q.Push(JobCommand(c));
    want += c;
  }
  for (auto& x : t) x.join();
  S().deadline = 0;
  Equal(sum.load(), want, "sum of the commands obtained");
  Check(Q.IsEmpty(), "the queue is empty again");
}
// an operation that finds the queue busy waits for it instead of giving up: the accepted hook holds the queue
static void Contention(int kind, int prefill)
{
  static const char* const names[] = {"TryPop", "IsEmpty", "GetSize", "Push", "PriorityPush", "WaitForNextCommand"};
  S().group = "operations on a busy queue";
  Case(std::string(names[kind]) + " while a hook runs, queued before: " + std::to_string(prefill));
  JobCommandQueue Q;
  for (int i = 0; i < prefill; ++i) Q.Push(JobCommand::kStart);
  std::atomic<bool> in_hook{false};
  S().deadline = drv::Now() + 15;
  std::thread t([&] {
    while (!in_hook) std::this_thread::yield();
    JobCommand x = JobCommand::kPause;
    switch (kind)
    {
    case 0:
      if (Check(Q.TryPop(x), "taking from a queue that is not empty failed")) Equal(int(x), int(JobCommand::kHalt), "command taken");
      break;
    case 1: Check(!Q.IsEmpty(), "IsEmpty after an accepted push"); break;
    case 2: Equal(Q.GetSize(), size_t(prefill + 1), "GetSize after an accepted push"); break;
    case 3: Q.Push(JobCommand::kPause); break;
    case 4: Check(Q.PriorityPush(JobCommand::kTerminate, {}), "a more urgent push was refused"); break;
    default: Equal(int(Q.WaitForNextCommand()), int(JobCommand::kHalt), "command obtained"); break;
    }
  });
  Check(Q.PriorityPush(JobCommand::kHalt, [&] { in_hook = true; ::usleep(20000); }), "an urgent push was refused");
  t.join();
  std::deque<int> want;
  if (kind == 4) want.push_back(int(JobCommand::kTerminate));
  if (kind != 0 && kind != 5) want.push_back(int(JobCommand::kHalt));
  for (int i = 0; i < prefill; ++i) want.push_back(int(JobCommand::kStart));
  if (kind == 3) want.push_back(int(JobCommand::kPause));
  Equal(Q.GetSize(), want.size(), "commands left");
  for (int w : want)
  {
    JobCommand x = JobCommand::kReset;
    if (!Q.TryPop(x)) { Check(false, "a queued command is missing"); break; }
    Equal(int(x), w, "commands left in order");
  }
  S().deadline = 0;
}
// the fixed ranking of the commands and what it means for an urgent push
static void Ranks()
{
  S().group = "ranking of commands";
  const JobCommand order[] = {JobCommand::kStart, JobCommand::kStep, JobCommand::kPause,
                              JobCommand::kReset, JobCommand::kHalt, JobCommand::kTerminate};
  for (int i = 0; i < 6; ++i)
    for (int j = 0; j < 6; ++j)
    {
      Case("commands ranked " + std::to_string(i) + " and " + std::to_string(j));
      Equal(order[i] <= order[j], i <= j, "operator<=");
      JobCommandQueue Q;
      Q.Push(order[j]);
      Q.Push(order[i]);
      Equal(Q.PriorityPush(order[i], {}), i > j, "acceptance of an urgent push");
      Equal(Q.GetSize(), size_t(i > j ? 3 : 2), "queued commands");
    }
}
// several producers and consumers: delivered once each, in order per producer
static void Stress(int prods, int cons, int n)
{
  S().group = "producers and consumers";
  Case(std::to_string(prods) + " producers, " + std::to_string(cons) + " consumers");
  JobCommandQueue Q;
  std::atomic<int> taken{0};
  std::atomic<int> count[6] = {};
  std::vector<std::thread> t;
  const int total = prods * n;
  S().deadline = drv::Now() + 40;
  for (int p = 0; p < prods; ++p)
    t.emplace_back([&, p] { for (int i = 0; i < n; ++i) Q.Push(JobCommand((i + p) % 5)); });
  for (int c = 0; c < cons; ++c)
    t.emplace_back([&, c] {
      for (;;)
      {
        if (c % 2 == 0)
        {
          auto x = Q.WaitForNextCommand();
          if (x == JobCommand::kTerminate) return;
          ++count[int(x)];
          ++taken;
        }
        else
        {
          JobCommand x = JobCommand::kTerminate;
          if (!Q.TryPop(x)) { if (x != JobCommand::kTerminate) Fail("a failed TryPop changed its output"); std::this_thread::yield(); continue; }
          if (x == JobCommand::kTerminate) return;
          ++count[int(x)];
          ++taken;
        }
      }
    });
  for (int p = 0; p < prods; ++p) t[size_t(p)].join();
  for (int c = 0; c < cons; ++c) Q.Push(JobCommand::kTerminate);
  for (size_t k = size_t(prods); k < t.size(); ++k) t[k].join();
  S().deadline = 0;
  Equal(taken.load(), total, "commands delivered");
  for (int v = 0; v < 5; ++v)
  {
    int want = 0;
    for (int p = 0; p < prods; ++p)
      for (int i = 0; i < n; ++i) want += (i + p) % 5 == v;
    Equal(count[v].load(), want, "deliveries of command " + std::to_string(v));
  }
  Check(Q.IsEmpty(), "the queue is empty at the end");
}
// one producer, one consumer: the order is exactly the order of pushing
static void Order(int n)
{
  S().group = "order across threads";
  Case("one producer, one consumer");
  JobCommandQueue Q;
  std::vector<int> sent, got;
  for (int i = 0; i < n; ++i) sent.push_back(int(Rnd(6)));
  S().deadline = drv::Now() + 40;
  std::thread p([&] { for (int c : sent) Q.Push(JobCommand(c)); });
  for (int i = 0; i < n; ++i) got.push_back(int(Q.WaitForNextCommand()));
  p.join();
  S().deadline = 0;
  Check(got == sent, "commands arrive in another order than they were pushed");
}

int main(int argc, char** argv)
{
  return drv::Main(argc, argv, [] {
    const int k = S().deep ? 4 : 1;
    Ranks();
    Sequential();
    if (S().fails) return;
    for (int kind = 0; kind < 6; ++kind)
      for (int pre : {0, 1, 4}) Contention(kind, pre);
    for (int c = 0; c < 4; ++c)
      for (int pre = 0; pre < (c == 3 ? 1 : 2); ++pre) HookBeforeVisible(c, pre);
    for (int p : {0, 300})
    {
      g_perturb = p;
      for (int i = 0; i < 20 * k; ++i) AtomicPriority(i);
      for (int i = 0; i < 8 * k; ++i)
        for (int w = 1; w <= 4; ++w) { Wakeups(w, false, i); if (w < 3) Wakeups(w, true, i); }
      Order(p ? 300 * k : 3000 * k);
      Stress(1, 1, p ? 150 : 1500);
      Stress(3, 3, (p ? 100 : 800) * k);
      Stress(2, 5, (p ? 100 : 800) * k);
      if (S().fails) return;
    }
  });
}
