// C10: decorators with a scripted child, each tick against the documented transformation
#include "lib.h"
using namespace lib;
namespace dto = sup::dto;

static void Simple(const std::string& type, const std::vector<int>& script)
{
  Tree t(type, 1);
  std::string text = type + ": ";
  ES last = ES::NOT_STARTED;
  for (int o : script)
  {
    bool fail_init = o >= 4 && t.kids[0]->GetStatus() == ES::NOT_STARTED;
    ES out = fail_init ? ES::FAILURE : Outcome(o);
    ES before = t.kids[0]->GetStatus();
    text += std::string("child ") + (fail_init ? "fails to start; " : std::string("returns ") + N(out) + "; ");
    Case(text);
    t.kids[0]->run = [out](Kid&) { return out; };
    t.kids[0]->init_ok = !fail_init;
    R().Clear();
    t.root->ExecuteSingle(t.ui, t.ws);
    bool tick = !Fin(last) && !Fin(before);
    Same(R().Of('t'), tick && !fail_init ? std::vector<int>{0} : std::vector<int>{}, "child executed");
    Same(R().Of('r'), {}, "child reset");
    Same(R().Of('h'), {}, "child halted");
    ES want = out;
    if (type == "Inverter") want = out == ES::SUCCESS ? ES::FAILURE : out == ES::FAILURE ? ES::SUCCESS : out;
    else want = Fin(out) ? ES::SUCCESS : out;
    if (Fin(last)) want = last;
    Status(t.root->GetStatus(), want, "status");
    last = t.root->GetStatus();
    if (Fin(last) ? Rnd(2) : !Rnd(6))
    {
      text += "reset; ";
      t.root->Reset(t.ui);
      last = ES::NOT_STARTED;
      Status(t.root->GetStatus(), last, "status after reset");
    }
  }
}

// count: "" none, literal, or "@var" read from the workspace
static void Repeat(const std::string& attr, long long max, bool readable, int ticks)
{
  Procedure proc;
  Workspace& ws = proc.GetWorkspace();
  UI ui;
  if (!attr.empty() && attr[0] == '@' && readable)
    ws.AddVariable("n", LocalVar("{\"type\":\"int64\"}", std::to_string(max)));
  ws.Setup();
  auto root = Make("Repeat");
  auto kid = std::make_unique<Kid>(0);
  Kid* k = kid.get();
  root->InsertInstruction(std::move(kid), 0);
  std::string text = "Repeat count=" + (attr.empty() ? "(default)" : attr) + (attr[0] == '@' ? "=" + (readable ? std::to_string(max) : "(missing)") : "") + ": ";
  if (!attr.empty()) root->AddAttribute("maxCount", attr);
  root->Setup(proc);
  ES last = ES::NOT_STARTED;
  long long done = 0;
  for (int j = 0; j < ticks && !S().fails; ++j)
  {
    int o = max > 3 ? (Rnd(8) ? 0 : int(Rnd(5))) : int(Rnd(5)) % (Rnd(2) ? 5 : 1);
    ES before = k->GetStatus();
    bool restart = before == ES::SUCCESS;
    bool fail_init = o >= 4 && (before == ES::NOT_STARTED || restart);
    ES out = fail_init ? ES::FAILURE : Outcome(o);
    bool active = !Fin(last) && readable && max != 0;
    if (active) text += std::string("child ") + (fail_init ? "fails to start; " : std::string("returns ") + N(out) + "; ");
    Case(text);
    k->run = [out](Kid&) { return out; };
    k->init_ok = !fail_init;
    R().Clear();
    root->ExecuteSingle(ui, ws);
    ES want;
    if (Fin(last)) want = last;
    else if (!readable) want = ES::FAILURE;
    else if (max == 0) want = ES::SUCCESS;
    else
    {
      if (out == ES::SUCCESS) ++done;
      want = out == ES::SUCCESS ? (max > 0 && done == max ? ES::SUCCESS : ES::NOT_FINISHED) : out;
    }
    std::vector<int> one{0};
    Same(R().Of('t'), active && !fail_init ? one : std::vector<int>{}, "child executed");
    Same(R().Of('r'), active && restart ? one : std::vector<int>{}, "child reset");
    Status(root->GetStatus(), want, "status");
    last = root->GetStatus();
    if (Fin(last) ? Rnd(2) : !Rnd(6))
    {
      text += "reset; ";
      root->Reset(ui);
      Status(k->GetStatus(), ES::NOT_STARTED, "status of the child after reset");
      last = ES::NOT_STARTED;
      done = 0;
    }
  }
}

struct Spy : public Variable
{
  Spy(dto::AnyValue v) : Variable("Spy"), value{std::move(v)} {}
  dto::AnyValue value;
  bool can_read = true, can_write = true;
  std::vector<dto::AnyValue> written;
  bool GetValueImpl(dto::AnyValue& v) const override { if (!can_read) return false; return dto::TryAssign(v, value); }
  bool SetValueImpl(const dto::AnyValue& v) override { if (!can_write) return false; written.push_back(v); value = v; return true; }
  SetupTeardownActions SetupImpl(const Workspace&) override { return {}; }
};

static void For(int n, const dto::AnyValue& array, bool is_array, bool same_type, bool can_read, bool can_write, int ticks)
{
  Procedure proc;
  Workspace& ws = proc.GetWorkspace();
  UI ui;
  auto ev = std::make_unique<Spy>(same_type ? dto::AnyValue(dto::int32(-1)) : dto::AnyValue(dto::float64(0)));
  Spy* e = ev.get();
  auto av = std::make_unique<Spy>(array);
  Spy* a = av.get();
  ws.AddVariable("e", std::move(ev));
  ws.AddVariable("a", std::move(av));
  ws.Setup();
  e->can_read = can_read;
  e->can_write = can_write;
  auto root = Make("For");
  auto kid = std::make_unique<Kid>(0);
  Kid* k = kid.get();
  root->InsertInstruction(std::move(kid), 0);
  root->AddAttribute("arrayVar", "a");
  root->AddAttribute("elementVar", "e");
  root->Setup(proc);
  std::string text = "For over " + std::string(is_array ? std::to_string(n) + " elements" : "a scalar") + (same_type ? "" : ", element variable of another type")
                     + (can_read ? "" : ", element variable unreadable") + (can_write ? "" : ", element variable read-only") + ": ";
  ES last = ES::NOT_STARTED;
  int done = 0;
  for (int j = 0; j < ticks && !S().fails; ++j)
  {
    int o = Rnd(3) ? 0 : int(Rnd(5));
    ES before = k->GetStatus();
    bool restart = before == ES::SUCCESS;
    bool fail_init = o >= 4 && (before == ES::NOT_STARTED || restart);
    ES out = fail_init ? ES::FAILURE : Outcome(o);
    bool fits = is_array && n > 0 && same_type && can_read;
    bool active = !Fin(last) && fits && can_write;
    if (active) text += std::string("child ") + (fail_init ? "fails to start; " : std::string("returns ") + N(out) + "; ");
    Case(text);
    e->written.clear();
    k->init_ok = !fail_init;
    auto current = [&](Kid&) {
      Check(e->value == array[size_t(done)], "the loop variable is not the current element when the child runs");
    };
    k->on_init = current;
    k->run = [&, out](Kid& x) { current(x); return out; };
    R().Clear();
    root->ExecuteSingle(ui, ws);
    std::vector<int> one{0};
    Same(R().Of('t'), active && !fail_init ? one : std::vector<int>{}, "child executed");
    Same(R().Of('r'), active && restart ? one : std::vector<int>{}, "child reset");
    Equal(e->written.size(), size_t(active ? 1 : 0), "writes of the loop variable");
    Equal(a->written.size(), size_t(0), "writes of the array");
    ES want;
    if (Fin(last)) want = last;
    else if (is_array && n == 0) want = ES::SUCCESS;
    else if (!active) want = ES::FAILURE;
    else
    {
      if (Fin(out)) ++done;
      want = out == ES::SUCCESS ? (done == n ? ES::SUCCESS : ES::NOT_FINISHED) : out;
    }
    Status(root->GetStatus(), want, "status");
    last = root->GetStatus();
    if (Fin(last) ? Rnd(2) : !Rnd(6))
    {
      text += "reset; ";
      root->Reset(ui);
      last = ES::NOT_STARTED;
      done = 0;
    }
  }
}

int main(int argc, char** argv)
{
  return drv::Main(argc, argv, [] {
    for (auto type : {"Inverter", "ForceSuccess"})
    {
      S().group = std::string("all outcomes, ") + type;
      for (int code = 0; code < 3125 && !S().fails; ++code)
      {
        std::vector<int> v;
        for (int c = code, j = 0; j < 5; ++j, c /= 5) v.push_back(c % 5);
        Simple(type, v);
      }
    }
    S().group = "Repeat";
    for (int r = 0; r < (S().deep ? 120 : 30) && !S().fails; ++r)
    {
      Repeat("", 0, true, 3);
      for (long long n : {0LL, 1LL, 2LL, 3LL, 7LL, 40LL, -1LL, -2LL, -1000LL, 2147483646LL})
      {
        int ticks = int(n < 0 || n > 100 ? 30 : 3 * n + 6);
        Repeat(std::to_string(n), n, true, ticks);
        Repeat("@n", n, true, ticks);
      }
      Repeat("@n", 1, false, 3);
    }
    S().group = "For";
    for (int r = 0; r < (S().deep ? 400 : 80) && !S().fails; ++r)
      for (int n : {0, 1, 2, 3, 4, 9})
      {
        dto::AnyValue arr(size_t(n), dto::SignedInteger32Type);
        for (int i = 0; i < n; ++i) arr[size_t(i)] = dto::AnyValue(dto::int32(Rnd(3) ? int(Rnd(1000)) : 5));
        bool odd = r % 8 == 7;
        For(n, arr, true, odd ? Rnd(2) : true, odd ? Rnd(2) : true, odd ? Rnd(2) : true, 2 * n + 5);
        if (odd) For(1, dto::AnyValue(dto::int32(3)), false, true, true, true, 3);
      }
  });
}
