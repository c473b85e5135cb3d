// the instructions that ask the user: against a plain model, and halted by another thread while they are ticked
#pragma once
#include "gate.h"
#include <thread>
namespace lib
{
// what the user interface knows about one request
struct Desk
{
  std::mutex m;
  std::condition_variable cv;
  UserInputRequest asked;
  bool ready = false, hold = false, held = false;
  UserInputReply reply;
  int skip = 0, inside = 0, taken = 0, dropped = 0, waits = -1;
  Instruction* halts = nullptr;  // halted when the waits are over, instead of a reply
};
class DeskFuture : public IUserInputFuture
{
  std::shared_ptr<Desk> d;
  struct In
  {
    Desk& d;
    explicit In(Desk& x) : d{x}
    {
      std::unique_lock<std::mutex> l(d.m);
      ++d.inside;
      if (d.hold && --d.skip < 0) { d.held = true; d.cv.notify_all(); d.cv.wait_for(l, std::chrono::seconds(20), [this] { return !d.hold; }); }
    }
    ~In() { std::lock_guard<std::mutex> l(d.m); --d.inside; }
  };
public:
  explicit DeskFuture(std::shared_ptr<Desk> x) : d{std::move(x)} {}
  ~DeskFuture() override
  {
    auto k = d;
    std::lock_guard<std::mutex> l(k->m);
    if (k->inside) Fail("a request is dropped while its reply is being looked at");
    ++k->dropped;
  }
  sup::dto::uint64 GetId() const override { return 1; }
  bool IsValid() const override { return true; }
  bool IsReady() const override { auto k = d; In in(*k); std::lock_guard<std::mutex> l(k->m); return k->ready; }
  bool WaitFor(double) const override
  {
    auto k = d;
    if (k->waits < 0) return IsReady();
    In in(*k);
    std::lock_guard<std::mutex> l(k->m);
    if (k->waits > 0) { --k->waits; return false; }
    if (k->halts) { k->halts->Halt(); return k->ready; }
    return k->ready = true;
  }
  UserInputReply GetValue() override
  {
    auto k = d;
    In in(*k);
    std::lock_guard<std::mutex> l(k->m);
    if (!k->ready) throw InvalidOperationException("no reply");
    if (++k->taken > 1) Fail("a reply is taken twice");
    return k->reply;
  }
};
class DeadFuture : public DeskFuture
{
public:
  using DeskFuture::DeskFuture;
  bool IsValid() const override { return false; }
};
class DeskUI : public UI
{
public:
  std::vector<std::shared_ptr<Desk>> desks;
  bool refuse = false;
  std::function<void(Desk&)> onAsk;
  std::unique_ptr<IUserInputFuture> RequestUserInput(const UserInputRequest& r) override
  {
    auto d = std::make_shared<Desk>();
    d->asked = r;
    if (onAsk) onAsk(*d);
    desks.push_back(d);
    if (refuse) return std::make_unique<DeadFuture>(d);
    return std::make_unique<DeskFuture>(d);
  }
};
struct Asking
{
  std::string type;
  DeskUI ui;
  Workspace ws;
  Procedure proc;
  std::unique_ptr<Instruction> root;
  std::vector<Kid*> kids;
  Asking(const std::string& t, int n) : type{t}, root{Make(t)}
  {
    ws.AddVariable("v", LocalVar("{\"type\":\"int32\"}", "-1"));
    ws.Setup();
    if (t == "Input") root->AddAttribute("outputVar", "v");
    root->AddAttribute("description", "why");
    for (int i = 0; t == "UserChoice" && i < n; ++i)
    {
      auto k = std::make_unique<Kid>(i);
      k->SetName(i == 1 ? std::string() : "kid" + std::to_string(i));
      kids.push_back(k.get());
      root->InsertInstruction(std::move(k), i);
    }
    root->Setup(proc);
  }
  Desk& Last() { return *ui.desks.back(); }
  int V() { sup::dto::AnyValue x; return ws.GetValue("v", x) ? x.As<sup::dto::int32>() : -999; }
};

// kinds of replies: 0.. choices / values, then failures
static std::vector<std::pair<std::string, UserInputReply>> Replies()
{
  using sup::dto::AnyValue;
  std::vector<std::pair<std::string, UserInputReply>> r;
  for (int c : {0, 1, 2, 3, -1, 2147483647, -2147483647 - 1})
    r.push_back({"choice " + std::to_string(c), CreateUserChoiceReply(true, c)});
  r.push_back({"cancelled choice", CreateUserChoiceReply(false, 0)});
  r.push_back({"value 7", CreateUserValueReply(true, AnyValue(sup::dto::int32(7)))});
  r.push_back({"value of another type", CreateUserValueReply(true, AnyValue(std::string("seven")))});
  r.push_back({"cancelled value", CreateUserValueReply(false, AnyValue(sup::dto::int32(7)))});
  r.push_back({"choice that is no integer", UserInputReply{InputRequestType::kUserChoice, true, AnyValue(std::string("1"))}});
  r.push_back({"invalid", kInvalidUserInputReply});
  return r;
}

static void AskHistory(const std::string& type)
{
  static const auto replies = Replies();
  int n = type == "UserChoice" ? 1 + int(Rnd(3)) : 0;
  Asking a(type, n);
  std::string text = type + (n ? " with " + std::to_string(n) + " children" : "") + ": ";
  ES last = ES::NOT_STARTED;
  bool started = false, halted = false, ready = false, open = false;
  int chosen = -1, value = a.V();
  size_t requests = 0;
  const UserInputReply* rep = nullptr;
  for (int step = 0; step < 12 && !S().fails; ++step)
  {
    R().Clear();
    switch (Rnd(8))
    {
    case 0:
      text += "halt; ";
      Case(text);
      a.root->Halt();
      halted = true;
      open = false;
      Equal(R().Of('h').size(), size_t(n), "children halted");
      break;
    case 1:
      text += "reset; ";
      Case(text);
      a.root->Reset(a.ui);
      halted = started = ready = open = false;
      chosen = -1;
      last = ES::NOT_STARTED;
      break;
    case 2: case 3:
      if (!open || ready) continue;
      rep = &replies[Rnd(unsigned(replies.size()))].second;
      text += "the user replies ";
      for (auto& q : replies) if (&q.second == rep) text += q.first + "; ";
      Case(text);
      { std::lock_guard<std::mutex> l(a.Last().m); a.Last().ready = true; a.Last().reply = *rep; }
      ready = true;
      break;
    default:
    {
      bool refuse = !started && Rnd(5) == 0;
      a.ui.refuse = refuse;
      text += refuse ? "tick, the user interface refuses; " : "tick; ";
      Case(text);
      a.root->ExecuteSingle(a.ui, a.ws);
      ES want = last;
      std::vector<int> ticks;
      if (!started)
      {
        // the first tick asks
        started = true;
        ++requests;
        if (refuse) { want = ES::FAILURE; open = false; ready = false; Equal(a.ui.desks.size(), requests, "requests made"); Status(a.root->GetStatus(), want, "status"); last = want; break; }
        open = true;
        ready = false;
        want = ES::NOT_FINISHED;
      }
      if (!Fin(want) && !halted)
      {
        if (chosen >= 0) { ticks.push_back(chosen); want = ES::SUCCESS; }
        else if (!open) want = ES::FAILURE;
        else if (!ready) want = ES::RUNNING;
        else if (type == "Input")
        {
          bool ok = rep->m_request_type == InputRequestType::kUserValue && rep->m_result && rep->m_payload.GetType() == sup::dto::SignedInteger32Type;
          want = ok ? ES::SUCCESS : ES::FAILURE;
          if (ok) value = rep->m_payload.As<sup::dto::int32>();
        }
        else
        {
          bool ok = rep->m_request_type == InputRequestType::kUserChoice && rep->m_result && rep->m_payload.GetType() == sup::dto::SignedInteger32Type;
          int c = ok ? rep->m_payload.As<sup::dto::int32>() : -1;
          if (type == "UserConfirmation") want = ok && c == 0 ? ES::SUCCESS : ES::FAILURE;
          else if (ok && c >= 0 && c < n) { chosen = c; want = ES::NOT_FINISHED; }
          else want = ES::FAILURE;
        }
      }
      Status(a.root->GetStatus(), want, "status");
      Equal(R().Of('t') == ticks, true, "children executed");
      last = a.root->GetStatus();
    }
    }
    Equal(a.ui.desks.size(), requests, "requests made");
    for (size_t i = 0; i < a.ui.desks.size(); ++i)
    {
      std::lock_guard<std::mutex> l(a.ui.desks[i]->m);
      bool kept = i + 1 == a.ui.desks.size() && open;
      Equal(a.ui.desks[i]->dropped, kept ? 0 : 1, "a request is ended exactly when it is answered, halted or reset");
    }
    Equal(a.V(), value, "value of the variable");
    if (n)
    {
      std::vector<const Instruction*> next;
      if (chosen >= 0)
      {
        auto k = a.kids[size_t(chosen)]->GetStatus();
        if (k == ES::NOT_STARTED || k == ES::NOT_FINISHED) next.push_back(a.kids[size_t(chosen)]);
      }
      Equal(a.root->NextInstructions() == next, true, "announces exactly the chosen child while it is unfinished");
    }
    if (requests && type != "Input")
    {
      std::vector<std::string> options;
      sup::dto::AnyValue meta;
      Check(ParseUserChoiceRequest(a.Last().asked, options, meta), "asks for a choice");
      Equal(GetMainTextFromMetadata(meta), std::string("why"), "text of the question");
      Equal(options.size(), size_t(n ? n : 2), "options offered");
      for (int i = 0; i < n && !S().fails; ++i)
        Check(options[size_t(i)].rfind(a.kids[size_t(i)]->GetName(), 0) == 0, "options in the order of the children");
      if (!n && !S().fails) { Equal(options[0], std::string("Ok"), "first option"); Equal(options[1], std::string("Cancel"), "second option"); }
    }
    else if (requests)
    {
      sup::dto::AnyValue was;
      std::string why;
      Check(ParseUserValueRequest(a.Last().asked, was, why), "asks for a value");
      Equal(why, std::string("why"), "text of the question");
    }
  }
}

static void AskHalted(const std::string& type, bool taking)
{
  Case(type + ": halted by another thread while it looks for the reply");
  if (taking) Case(type + ": halted by another thread while it takes the reply");
  Asking a(type, 2);
  a.root->ExecuteSingle(a.ui, a.ws);
  Status(a.root->GetStatus(), ES::RUNNING, "status while waiting for the user");
  Desk& d = a.Last();
  {
    std::lock_guard<std::mutex> l(d.m);
    d.hold = true;
    d.skip = taking ? 1 : 0;
    if (taking) { d.ready = true; d.reply = CreateUserChoiceReply(true, 0); }
  }
  std::thread ticker([&] { a.root->ExecuteSingle(a.ui, a.ws); });
  { std::unique_lock<std::mutex> l(d.m); d.cv.wait_for(l, std::chrono::seconds(20), [&] { return d.held; }); }
  std::thread halter([&] { a.root->Halt(); });
  ::usleep(5000);
  { std::lock_guard<std::mutex> l(d.m); d.hold = false; }
  d.cv.notify_all();
  ticker.join();
  halter.join();
  Check(a.root->IsHaltRequested(), "the halt request is lost");
  std::lock_guard<std::mutex> l(d.m);
  Equal(d.dropped, 1, "the halted request is ended");
}

static void AskRace(const std::string& type, int rounds)
{
  Case(type + ": ticks in one thread, halt in another");
  for (int i = 0; i < rounds && !S().fails; ++i)
  {
    Asking a(type, 2);
    a.root->ExecuteSingle(a.ui, a.ws);
    std::thread ticker([&] { for (int j = 0; j < 20; ++j) a.root->ExecuteSingle(a.ui, a.ws); });
    a.root->Halt();
    ticker.join();
    ES s = a.root->GetStatus();
    Check(s == ES::RUNNING || s == ES::FAILURE, "status after a halt");
    Equal(a.Last().dropped, 1, "the halted request is ended");
  }
}

// requests that wait for their reply in the call itself
static void AskBlocking()
{
  int how = Rnd(3), waits = Rnd(4), kind = Rnd(4), v = int(Rnd(5)) - 1;
  bool refuse = Rnd(5) == 0, halt = how == 2 && Rnd(3) == 0;
  Case(std::string(how == 0 ? "GetBlockingUserValue" : how == 1 ? "GetBlockingUserChoice" : "GetInterruptableUserChoice") + ": " + std::to_string(waits)
       + " waits, " + (refuse ? "refused" : halt ? "halted" : "reply " + std::to_string(kind) + " with " + std::to_string(v)));
  DeskUI ui;
  auto instr = Make("UserConfirmation");
  ui.refuse = refuse;
  ui.onAsk = [&](Desk& d) {
    d.waits = waits;
    if (halt) d.halts = instr.get();
    if (kind < 2) d.reply = CreateUserValueReply(kind == 0, sup::dto::AnyValue(sup::dto::int32(v)));
    else d.reply = CreateUserChoiceReply(kind == 2, v);
  };
  bool ok;
  int got = -77;
  if (how == 0)
  {
    auto r = GetBlockingUserValue(ui, sup::dto::AnyValue(sup::dto::int32(0)), "why");
    ok = r.first;
    if (ok) got = r.second.As<sup::dto::int32>();
  }
  else
  {
    auto r = how == 1 ? GetBlockingUserChoice(ui, {"a", "b"}, CreateUserChoiceMetadata())
                      : GetInterruptableUserChoice(ui, *instr, {"a", "b"}, CreateUserChoiceMetadata());
    ok = r.first;
    got = r.second;
  }
  bool want = !refuse && !halt && kind == (how == 0 ? 0 : 2);
  Equal(ok, want, "succeeds");
  if (want) Equal(got, v, "what was replied");
  Equal(ui.desks.size(), size_t(1), "requests made");
  if (ui.desks.size() != 1) return;
  Equal(ui.desks[0]->taken, refuse || halt ? 0 : 1, "replies taken");
  Equal(ui.desks[0]->dropped, 1, "the request is ended");
}
}  // namespace lib
