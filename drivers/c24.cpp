// C24: requests for user input against a plain model of what is queued, in progress and answered
#include "gate.h"
#include "asking.h"
#include <thread>
#include <sup/oac-tree/async_input_adapter.h>
using namespace lib;
using sup::dto::AnyValue;
using Fut = std::unique_ptr<IUserInputFuture>;

static UserInputRequest Ask(int n) { return CreateUserValueRequest(AnyValue(sup::dto::int32(n)), "request " + std::to_string(n)); }
static UserInputReply Answer(const UserInputRequest& r, uint64_t id)
{
  UserInputReply a;
  a.m_request_type = r.m_request_type;
  a.m_result = id % 3 != 0;
  a.m_payload = AnyValue{{{"id", AnyValue(sup::dto::uint64(id))}, {"asked", r.m_meta_data}}};
  return a;
}
// an operator that answers when told to
struct Operator
{
  std::mutex m;
  std::condition_variable cv;
  std::vector<std::pair<uint64_t, UserInputRequest>> asked;
  std::vector<uint64_t> interrupted;
  bool free = false;            // answer at once
  bool obey = false;            // an interrupt makes it answer
  int inside = 0, most = 0, let = 0, left = 0;
  UserInputReply In(const UserInputRequest& r, uint64_t id)
  {
    std::unique_lock<std::mutex> l(m);
    asked.push_back({id, r});
    if (++inside > most) most = inside;
    cv.notify_all();
    cv.wait(l, [&] { return free || let > 0 || (obey && std::count(interrupted.begin(), interrupted.end(), id)); });
    if (!free && let > 0) --let;
    --inside;
    ++left;
    cv.notify_all();
    return Answer(r, id);
  }
  void Interrupt(uint64_t id)
  {
    std::lock_guard<std::mutex> l(m);
    interrupted.push_back(id);
    cv.notify_all();
  }
  bool Reach(size_t n)
  {
    std::unique_lock<std::mutex> l(m);
    return cv.wait_for(l, std::chrono::seconds(20), [&] { return asked.size() >= n; });
  }
  void Let()
  {
    std::unique_lock<std::mutex> l(m);
    int want = left + 1;
    ++let;
    cv.notify_all();
    cv.wait_for(l, std::chrono::seconds(20), [&] { return left >= want; });
  }
  size_t Asked() { std::lock_guard<std::mutex> l(m); return asked.size(); }
  std::vector<uint64_t> Interrupted() { std::lock_guard<std::mutex> l(m); return interrupted; }
  AsyncInputAdapter::InputFunction Input() { return [this](const UserInputRequest& r, uint64_t id) { return In(r, id); }; }
  AsyncInputAdapter::InterruptFunction Break() { return [this](uint64_t id) { Interrupt(id); }; }
};

struct Held
{
  Fut f;
  uint64_t id;
  int n;
};
static std::vector<Fut> g_kept;  // futures that outlive their adapter on purpose

static bool Refuses(IUserInputFuture& f)
{
  try { f.GetValue(); }
  catch (const InvalidOperationException&) { return true; }
  return false;
}

static void History()
{
  Operator op;
  auto ad = std::make_unique<AsyncInputAdapter>(op.Input(), op.Break());
  std::vector<Held> held;
  std::deque<Held*> dummy;
  std::deque<std::pair<uint64_t, int>> queue;   // not yet asked
  std::pair<uint64_t, int> cur{0, 0};           // in the input function
  bool wanted = false;
  std::set<uint64_t> there;                     // answered
  size_t asked = 0;
  std::vector<uint64_t> breaks;
  uint64_t last = 0;
  int n = 3 + int(Rnd(18)), serial = 0;
  std::string text;
  bool bad = false;
  auto next = [&] {
    if (cur.first || queue.empty()) return;
    cur = queue.front();
    queue.pop_front();
    wanted = true;
    ++asked;
    if (!op.Reach(asked)) { Fail(text + ": the next request is never handed to the input function"); bad = true; return; }
    std::lock_guard<std::mutex> l(op.m);
    auto& got = op.asked[asked - 1];
    Check(got.first == cur.first, "the input function is asked for request " + std::to_string(got.first) + ", expected " + std::to_string(cur.first));
    Check(got.second == Ask(cur.second), "the input function gets another request than the one queued");
  };
  for (int i = 0; i < n && !bad; ++i)
  {
    int what = int(Rnd(10));
    size_t at = held.empty() ? 0 : Rnd(held.size());
    if (what < 3 || held.empty())
    {
      text += " add";
      Case(text);
      int s = ++serial;
      Fut f = ad->AddUserInputRequest(Ask(s));
      uint64_t id = f->GetId();
      Check(id > last, "the identifier of a new request was used before");
      last = id;
      Check(f->IsValid(), "the future of a new request is not valid");
      queue.push_back({id, s});
      held.push_back({std::move(f), id, s});
      next();
    }
    else if (what < 5 && cur.first)
    {
      text += " answer" + std::to_string(cur.second);
      Case(text);
      uint64_t id = cur.first;
      bool w = wanted;
      op.Let();
      if (w)
      {
        there.insert(id);
        for (auto& h : held)
          if (h.id == id) Check(h.f->WaitFor(20.0), "the answer of a request that nobody abandoned never arrives");
      }
      cur = {0, 0};
      next();
    }
    else if (what < 7)
    {
      auto& h = held[at];
      text += " abandon" + std::to_string(h.n);
      Case(text);
      if (there.count(h.id)) there.erase(h.id);
      else if (cur.first == h.id && wanted) { breaks.push_back(h.id); wanted = false; }
      else
        for (auto it = queue.begin(); it != queue.end(); ++it)
          if (it->first == h.id) { queue.erase(it); break; }
      held.erase(held.begin() + long(at));
    }
    else if (what < 9)
    {
      auto& h = held[at];
      text += " take" + std::to_string(h.n);
      Case(text);
      bool ready = there.count(h.id);
      if (!ready)
      {
        Check(!h.f->IsReady(), "ready without a reply");
        Check(!h.f->WaitFor(0.0), "waiting reports a reply that is not there");
        Check(Refuses(*h.f), "a reply that is not there is handed out");
        Check(h.f->IsValid() && h.f->GetId() == h.id, "a refused reply changes the future");
      }
      else
      {
        if (Rnd(2)) Check(h.f->IsReady(), "not ready although the reply is there");
        if (Rnd(2)) Check(h.f->WaitFor(0.0), "waiting does not see the reply that is there");
        bool same = false;
        try { same = h.f->GetValue() == Answer(Ask(h.n), h.id); }
        catch (const std::exception& e) { Fail(std::string("the reply that is there is refused: ") + e.what()); }
        Check(same, "the reply is not the one given to this request");
        there.erase(h.id);
        Check(!h.f->IsValid() && !h.f->IsReady() && !h.f->WaitFor(0.0), "a reply can be taken twice");
        Check(Refuses(*h.f), "a reply is handed out twice");
        held.erase(held.begin() + long(at));
      }
    }
    else
    {
      for (auto& h : held) Check(h.f->IsReady() == bool(there.count(h.id)), "readiness differs from the replies given");
    }
    Check(op.Asked() == asked, "more requests are handed to the input function than were due");
    Check(op.Interrupted() == breaks, "the input function is interrupted for other requests than the abandoned one in progress");
  }
  if (bad) std::_Exit(0);
  text += " destroy";
  Case(text);
  // the end: interrupts exactly a request in progress, asks for nothing more
  if (cur.first && wanted) breaks.push_back(cur.first);
  bool stuck = cur.first && !wanted;
  if (stuck) op.Let();
  {
    std::lock_guard<std::mutex> l(op.m);
    op.obey = true;
    op.cv.notify_all();
  }
  // requests behind an abandoned one are taken up when that one returns
  if (stuck && !queue.empty())
  {
    cur = {0, 0};
    next();
    breaks.push_back(cur.first);
  }
  for (auto& h : held) g_kept.push_back(std::move(h.f));
  ad.reset();
  Check(op.Asked() == asked, "a queued request is asked although the adapter is destroyed");
  Check(op.Interrupted() == breaks, "destruction does not interrupt exactly the request in progress");
  Check(op.most <= 1, "two requests are in the input function at once");
}

// several threads wait, each for its own reply
static void Waiters(int n)
{
  Case(std::to_string(n) + " threads wait for their replies");
  Operator op;
  AsyncInputAdapter ad(op.Input(), op.Break());
  std::vector<Fut> fs;
  for (int i = 0; i < n; ++i) fs.push_back(ad.AddUserInputRequest(Ask(i)));
  std::vector<double> when(size_t(n), 0);
  std::vector<char> ok(size_t(n), 0);
  std::atomic<int> up{0};
  std::vector<std::thread> ts;
  for (int i = 0; i < n; ++i)
    ts.emplace_back([&, i] {
      ++up;
      ok[size_t(i)] = fs[size_t(i)]->WaitFor(8.0);
      when[size_t(i)] = drv::Now();
    });
  while (up < n) ::usleep(100);
  ::usleep(3000);
  std::vector<double> given;
  for (int i = 0; i < n; ++i)
  {
    op.Reach(size_t(i) + 1);
    given.push_back(drv::Now());
    op.Let();
    ::usleep(500);
  }
  for (auto& t : ts) t.join();
  for (size_t i = 0; i < size_t(n); ++i)
  {
    Check(ok[i], "a wait that spans the arrival of the reply reports no reply");
    Check(when[i] - given[i] < 6.0, "a thread waiting for a reply sleeps on after it arrived");
  }
}

// threads add, wait, take and abandon while the operator answers at once
static void Stress(int threads, int each)
{
  Case(std::to_string(threads) + " threads, " + std::to_string(each) + " requests each");
  Operator op;
  op.free = true;
  std::mutex m;
  std::set<uint64_t> ids;
  std::string wrong;
  auto say = [&](const std::string& s) { std::lock_guard<std::mutex> l(m); if (wrong.empty()) wrong = s; };
  std::set<uint64_t> started_bad;
  {
    AsyncInputAdapter ad(op.Input(), [&](uint64_t id) {
      std::lock_guard<std::mutex> l(op.m);
      bool seen = !op.asked.empty() && op.asked.back().first == id;
      op.interrupted.push_back(id);
      if (!seen && op.asked.size() && std::any_of(op.asked.begin(), op.asked.end(), [&](auto& a) { return a.first == id; })) say("an earlier request is interrupted");
    });
    std::vector<std::thread> ts;
    for (int t = 0; t < threads; ++t)
    {
      uint64_t seed = Rnd(1u << 30);
      ts.emplace_back([&, t, seed] {
        std::mt19937_64 r(seed);
        for (int i = 0; i < each; ++i)
        {
          int n = t * 1000 + i;
          Fut f = ad.AddUserInputRequest(Ask(n));
          uint64_t id = f->GetId();
          {
            std::lock_guard<std::mutex> l(m);
            if (!ids.insert(id).second && wrong.empty()) wrong = "an identifier is given to two requests";
          }
          switch (r() % 4)
          {
          case 0: break;
          case 1: if (f->IsReady()) { if (f->GetValue() != Answer(Ask(n), id)) say("a reply of another request is handed out"); } break;
          default:
            double start = drv::Now();
            if (!f->WaitFor(30.0)) { say("the reply of a request never arrives"); break; }
            if (drv::Now() - start > 29.0) say("a thread waiting for a reply sleeps on after it arrived");
            if (f->GetValue() != Answer(Ask(n), id)) say("a reply of another request is handed out");
          }
        }
      });
    }
    for (auto& t : ts) t.join();
  }
  std::set<uint64_t> once;
  for (auto& a : op.asked) if (!once.insert(a.first).second) wrong = "a request is asked twice";
  for (size_t i = 1; i < op.asked.size(); ++i) if (op.asked[i].first <= op.asked[i - 1].first) wrong = "requests are not asked in the order in which they were made";
  std::set<uint64_t> br;
  for (auto id : op.interrupted) if (!br.insert(id).second) wrong = "a request is interrupted twice";
  Check(op.most <= 1, "two requests are in the input function at once");
  if (!wrong.empty()) Fail(wrong);
  else Check(true, "");
}

// destroyed right after, or while, the handler works
static void End(int kind)
{
  static const char* kinds[] = {"idle", "right after construction", "with a request queued", "with a request in progress", "right after an answer"};
  Case(std::string("destruction ") + kinds[kind]);
  Operator op;
  op.obey = true;
  op.free = kind == 4;
  {
    AsyncInputAdapter ad(op.Input(), op.Break());
    if (kind == 0) ::usleep(200);
    if (kind >= 2)
    {
      Fut f = ad.AddUserInputRequest(Ask(1));
      if (kind == 3) op.Reach(1);
      if (kind == 4) f->WaitFor(20.0);
      if (kind != 2) g_kept.push_back(std::move(f));
    }
  }
  std::lock_guard<std::mutex> l(op.m);
  Check(op.inside == 0, "the input function still runs after the destruction");
  if (kind == 3) Check(op.interrupted.size() == 1 && op.interrupted[0] == op.asked[0].first, "the request in progress is not interrupted exactly once");
  if (kind < 2) Check(op.interrupted.empty(), "an interrupt without a request in progress");
}

static void Unsupported()
{
  Case("a user interface without user input");
  UnsupportedInputFuture f;
  Check(!f.IsValid() && !f.IsReady() && !f.WaitFor(0.0) && f.GetId() == 0, "an unsupported request claims a reply");
  Check(Refuses(f), "an unsupported request hands out a reply");
}

int main(int argc, char** argv)
{
  return drv::Main(argc, argv, [] {
    int f = S().deep ? 10 : 1;
    S().group = "unsupported";
    Unsupported();
    for (const char* type : {"Input", "UserChoice", "UserConfirmation"})
    {
      S().group = std::string("asking: ") + type;
      for (int i = 0; i < 400 * f && !S().fails; ++i) Within(100, "asking", [type] { AskHistory(type); });
      S().group = "asking: halted while polled";
      for (int i = 0; i < 3 * f && !S().fails; ++i) Within(100, "asking", [type, i] { AskHalted(type, i % 3 == 1); });
      for (int i = 0; i < f && !S().fails; ++i) Within(100, "asking", [type] { AskRace(type, 20); });
    }
    S().group = "asking: in one call";
    for (int i = 0; i < 300 * f && !S().fails; ++i) Within(100, "asking", AskBlocking);
    S().group = "history";
    for (int i = 0; i < 250 * f && !S().fails; ++i) Within(100, "history", History);
    S().group = "waiters";
    for (int i = 0; i < 3 * f && !S().fails; ++i) Within(100, "waiters", [] { Waiters(2 + int(Rnd(6))); });
    S().group = "threads";
    for (int i = 0; i < 4 * f && !S().fails; ++i) Within(200, "threads", [] { Stress(4, 60); });
    S().group = "destruction";
    for (int i = 0; i < 60 * f && !S().fails; ++i) Within(100, "destruction", [i] { End(i % 5); });
  });
}
