// C11: choices with scripted children and all kinds of selectors
#include "lib.h"
using namespace lib;
namespace dto = sup::dto;

// sel: selected indices when valid
static void Run(int n, const dto::AnyValue& selector, const std::string& what, bool there, bool valid, std::vector<size_t> sel, int ticks)
{
  Procedure proc;
  Workspace& ws = proc.GetWorkspace();
  UI ui;
  struct Var : public Variable
  {
    Var(dto::AnyValue v) : Variable("Var"), value{std::move(v)} {}
    dto::AnyValue value;
    mutable int reads = 0;
    bool GetValueImpl(dto::AnyValue& v) const override { ++reads; return dto::TryAssign(v, value); }
    bool SetValueImpl(const dto::AnyValue& v) override { value = v; return true; }
    SetupTeardownActions SetupImpl(const Workspace&) override { return {}; }
  };
  auto pv = std::make_unique<Var>(selector);
  Var* v = pv.get();
  if (there) ws.AddVariable("sel", std::move(pv));
  ws.Setup();
  auto root = Make("Choice");
  std::vector<Kid*> kids;
  for (int i = 0; i < n; ++i)
  {
    auto k = std::make_unique<Kid>(i);
    kids.push_back(k.get());
    root->InsertInstruction(std::move(k), i);
  }
  root->AddAttribute("varName", "sel");
  root->Setup(proc);
  for (auto i : sel) if (i >= size_t(n)) valid = false;
  std::string text = "Choice of " + std::to_string(n) + ", selector " + what + ": ";
  ES last = ES::NOT_STARTED;
  bool first = true;
  for (int j = 0; j < ticks && !S().fails; ++j)
  {
    auto before = Stats(kids);
    int f = -1;
    if (!first)
      for (auto i : sel) if (before[i] != ES::SUCCESS) { f = int(i); break; }
    bool tick = !Fin(last) && !first && f >= 0 && !Fin(before[f]);
    int o = Rnd(3) ? 0 : int(Rnd(5));
    bool fail_init = tick && o >= 4 && before[f] == ES::NOT_STARTED;
    ES out = fail_init ? ES::FAILURE : Outcome(o);
    if (tick) text += "child " + std::to_string(f) + (fail_init ? " fails to start; " : std::string(" returns ") + N(out) + "; ");
    Case(text);
    for (auto k : kids) { k->run = [out](Kid&) { return out; }; k->init_ok = !fail_init; }
    auto next = root->NextInstructions();
    bool ann = !first && f >= 0 && Ready(before[f]);
    Equal(next.size(), size_t(ann ? 1 : 0), "number of instructions announced as next");
    if (ann && next.size() == 1) Check(next[0] == kids[f], "another child is announced as next");
    R().Clear();
    root->ExecuteSingle(ui, ws);
    Same(R().Of('t'), tick && !fail_init ? std::vector<int>{f} : std::vector<int>{}, "children executed");
    Same(R().Of('r'), {}, "children reset");
    auto model = before;
    if (tick) model[f] = out;
    Check(model == Stats(kids), "a child that was not to be executed changed");
    ES want;
    if (Fin(last)) want = last;
    else if (first) want = valid ? ES::NOT_FINISHED : ES::FAILURE;
    else
    {
      want = ES::SUCCESS;
      for (auto i : sel)
        if (model[i] != ES::SUCCESS) { want = Ready(model[i]) ? ES::NOT_FINISHED : model[i]; break; }
    }
    Status(root->GetStatus(), want, "status");
    if (there && !Fin(last)) Equal(v->reads, 1, "reads of the selector");
    first = false;
    last = root->GetStatus();
    if (Fin(last))
    {
      if (Rnd(3)) break;
      text += "reset; ";
      R().Clear();
      root->Reset(ui);
      Equal(R().Of('r').size(), size_t(n), "children reset");
      last = ES::NOT_STARTED;
      first = true;
      v->reads = 0;
    }
  }
}

int main(int argc, char** argv)
{
  return drv::Main(argc, argv, [] {
    S().group = "one index";
    for (int n = 1; n <= 4; ++n)
      for (int r = 0; r < 6 && !S().fails; ++r)
      {
        for (int i = 0; i <= n + 1; ++i)
        {
          size_t u = size_t(i);
          auto t = std::to_string(i);
          Run(n, dto::AnyValue(dto::int32(i)), "int32 " + t, true, true, {u}, 6);
          Run(n, dto::AnyValue(dto::uint8(i)), "uint8 " + t, true, true, {u}, 6);
          Run(n, dto::AnyValue(dto::uint64(i)), "uint64 " + t, true, true, {u}, 6);
        }
        Run(n, dto::AnyValue(dto::int32(-1)), "int32 -1", true, false, {}, 3);
        Run(n, dto::AnyValue(dto::int64(-5)), "int64 -5", true, false, {}, 3);
        Run(n, dto::AnyValue(dto::uint64(1) << 63), "uint64 2^63", true, true, {size_t(1) << 63}, 3);
        Run(n, dto::AnyValue(~dto::uint64(0)), "uint64 2^64-1", true, true, {~size_t(0)}, 3);
        Run(n, dto::AnyValue(dto::uint64(1) << 32), "uint64 2^32", true, true, {size_t(1) << 32}, 3);
        Run(n, dto::AnyValue("zero"), "a text", true, false, {}, 3);
        Run(n, dto::AnyValue({{"index", dto::AnyValue(dto::int32(0))}}), "a structure", true, false, {}, 3);
        Run(n, dto::AnyValue(dto::int32(0)), "(missing variable)", false, false, {}, 3);
      }
    S().group = "arrays of indices";
    for (int r = 0; r < (S().deep ? 8000 : 1500) && !S().fails; ++r)
    {
      int n = 1 + int(Rnd(4)), len = int(Rnd(5));
      std::vector<size_t> sel;
      std::string t = "[";
      dto::AnyValue a(size_t(len), dto::SignedInteger32Type);
      bool valid = true;
      for (int i = 0; i < len; ++i)
      {
        int x = Rnd(12) == 0 ? -1 : Rnd(10) == 0 ? n : n ? int(Rnd(n)) : 0;
        a[size_t(i)] = dto::AnyValue(dto::int32(x));
        t += (i ? ", " : "") + std::to_string(x);
        if (x < 0) valid = false; else sel.push_back(size_t(x));
      }
      if (!valid) sel.clear();
      Run(n, a, t + "]", true, valid, sel, 4 + 3 * len);
    }
    Run(3, dto::AnyValue(size_t(2), dto::StringType), "array of texts", true, false, {}, 3);
  });
}
