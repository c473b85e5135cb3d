// C18: access to variables against a plain model; overlap of accesses; torn values
#include "gate.h"
#include <sup/dto/anyvalue_operations.h>
#include <sys/stat.h>
#include <fstream>
using namespace lib;
using sup::dto::AnyValue;

static AnyValue Pair(int a, int b)
{
  return AnyValue{{{"a", AnyValue(sup::dto::int32(a))}, {"b", AnyValue(sup::dto::int32(b))}}};
}
static const char* kPair = R"({"type":"","attributes":[{"a":{"type":"int32"}},{"b":{"type":"int32"}}]})";
struct Heard { AnyValue value; bool connected; };
struct Ears
{
  std::mutex m;
  std::vector<Heard> v;
  void On(Variable& x)
  {
    x.SetNotifyCallback([this](const AnyValue& a, bool c) { std::lock_guard<std::mutex> l(m); v.push_back({a, c}); });
  }
  std::vector<Heard> Take() { std::lock_guard<std::mutex> l(m); auto r = v; v.clear(); return r; }
};
static std::string Show(const AnyValue& v) { return sup::dto::PrintAnyValue(v); }
static bool Same(const AnyValue& a, const AnyValue& b) { return a == b && a.GetType() == b.GetType(); }
static void SameValue(const AnyValue& got, const AnyValue& want, const std::string& what)
{
  Check(Same(got, want), what + ": got " + Show(got) + ", expected " + Show(want));
}

// ---- histories over one variable of each kind
static std::string g_dir;
static void History(int kind)
{
  static int serial = 0;
  Workspace ws;
  std::string file = g_dir + "/v" + std::to_string(++serial);
  std::unique_ptr<Variable> v;
  Var* scripted = nullptr;
  bool declared = false;
  if (kind == 0)
  {
    declared = true;
    v = LocalVar(kPair, R"({"a":1,"b":2})");
  }
  else if (kind == 1)
  {
    v = GlobalVariableRegistry().Create("Local");
  }
  else if (kind == 2)
  {
    v = GlobalVariableRegistry().Create("File");
    v->AddAttribute("file", file);
    if (Rnd(2)) v->AddAttribute("pretty", "true");
  }
  else
  {
    auto s = std::make_unique<Var>();
    scripted = s.get();
    scripted->value = Pair(1, 2);
    v = std::move(s);
  }
  static const char* kinds[] = {"local with a type", "local without a type", "file", "scripted"};
  Ears ears;
  ears.On(*v);
  bool up = false;
  AnyValue held = declared || kind == 3 ? Pair(1, 2) : AnyValue{};
  if (scripted) held = scripted->value;
  std::string text = kinds[kind];
  int n = 3 + static_cast<int>(Rnd(12));
  for (int i = 0; i < n; ++i)
  {
    int what = static_cast<int>(Rnd(10));
    std::string label = what < 1 ? (up ? "teardown" : "setup") : what < 2 ? (Rnd(2) ? "setup" : "reset") : what < 6 ? "set" : what < 9 ? "get" : "probe";
    if (i == 0 && Rnd(4)) label = "setup";
    if (scripted) { scripted->readable = Rnd(5) != 0; scripted->writable = Rnd(5) != 0; scripted->available = Rnd(2); }
    static const std::vector<std::string> fields = {"", "", "", "a", "b", "c", "a.x", "", "a[0]", ".", "b"};
    std::string field = fields[Rnd(fields.size())];
    text += "; " + label + ((label == "set" || label == "get") ? "(" + field + ")" : "");
    Case(text);
    ears.Take();
    int reads = scripted ? scripted->reads : 0, writes = scripted ? scripted->writes : 0;
    if (label == "setup" || label == "reset")
    {
      label == "setup" ? (void)v->Setup(ws) : v->Reset(ws);
      up = true;
      if (kind == 0) held = Pair(1, 2);
      if (kind == 1) held = AnyValue{};
      auto h = ears.Take();
      if (kind < 3 && Equal(h.size(), size_t(1), "notifications of a setup"))
      {
        SameValue(h[0].value, held, "value told by the setup");
        Check(h[0].connected == (kind != 2 || !sup::dto::IsEmptyValue(held)), "a setup tells whether there is a value to read");
      }
    }
    else if (label == "teardown")
    {
      v->Teardown();
      up = false;
    }
    else if (label == "probe")
    {
      bool want = up && (kind < 2 || (kind == 2 ? !sup::dto::IsEmptyValue(held) : scripted->available));
      Equal(v->IsAvailable(), want, "is available");
    }
    else if (label == "get")
    {
      AnyValue out, before;
      int o = static_cast<int>(Rnd(4));
      if (o == 1) out = AnyValue(sup::dto::int32(77));
      if (o == 2) out = AnyValue(std::string("text"));
      if (o == 3) out = Pair(8, 9);
      before = out;
      AnyValue want = out;
      bool ok = up && !sup::dto::IsEmptyValue(held) && (!scripted || scripted->readable) && (field.empty() || held.HasField(field));
      if (ok) ok = sup::dto::TryAssignIfEmptyOrConvert(want, field.empty() ? held : static_cast<const AnyValue&>(held)[field]);
      Equal(v->GetValue(out, field), ok, "reading succeeds");
      SameValue(out, ok ? want : before, ok ? "value read" : "output of a failed read");
      if (scripted) Equal(scripted->reads - reads, up ? 1 : 0, "reads of the variable itself");
    }
    else
    {
      int x = static_cast<int>(Rnd(100));
      AnyValue in = field.empty() ? (Rnd(4) == 0 ? AnyValue(std::string("text")) : Pair(x, x + 1))
                                  : (Rnd(4) == 0 ? Pair(x, x) : AnyValue(sup::dto::int32(x)));
      AnyValue want = held;
      bool ok = up;
      AnyValue given = in;
      if (ok && !field.empty())
      {
        ok = !sup::dto::IsEmptyValue(held) && (!scripted || scripted->readable) && held.HasField(field);
        AnyValue copy = held;
        if (ok) ok = sup::dto::TryAssign(copy[field], in);
        given = copy;
      }
      bool attempted = ok;
      if (ok)
      {
        if (kind < 2) ok = sup::dto::TryAssignIfEmptyOrConvert(want, given);
        else if (kind == 2) want = given;
        else { ok = scripted->writable; if (ok) want = given; }
      }
      Equal(v->SetValue(in, field), ok, "writing succeeds");
      if (scripted) Equal(scripted->writes - writes, attempted ? 1 : 0, "writes of the variable itself");
      auto h = ears.Take();
      if (kind < 3)
      {
        if (Equal(h.size(), size_t(ok ? 1 : 0), "notifications of a write") && ok)
        {
          SameValue(h[0].value, given, "value told by a write");
          Check(h[0].connected, "a write tells of a connected variable");
        }
      }
      if (ok) held = want;
    }
    // what it holds now
    if (scripted) { SameValue(scripted->value, held, "value held"); scripted->readable = true; }
    if (up)
    {
      AnyValue now;
      bool ok = !sup::dto::IsEmptyValue(held);
      if (Equal(v->GetValue(now), ok, "the value can be read back") && ok) SameValue(now, held, "value read back");
    }
    else
    {
      AnyValue now;
      Check(!v->GetValue(now) && sup::dto::IsEmptyValue(now), "nothing can be read when not set up");
      Check(!v->IsAvailable(), "is not available when not set up");
      Check(!v->SetValue(Pair(3, 4)), "nothing can be written when not set up");
      if (scripted) SameValue(scripted->value, held, "value after a refused write");
    }
    Check(kind == 3 || ears.Take().empty(), "looking does not notify");
  }
}

// ---- a setup that fails leaves the variable closed
static void FailedSetup()
{
  Case("setup that fails");
  Workspace ws;
  Var v;
  v.value = Pair(1, 2);
  v.on_setup = []() -> SetupTeardownActions { throw std::runtime_error("scripted"); };
  try { v.Setup(ws); Fail("the exception of the setup is swallowed"); } catch (const std::runtime_error&) {}
  AnyValue x;
  Check(!v.GetValue(x) && !v.IsAvailable() && !v.SetValue(Pair(1, 1)), "a variable whose setup failed is closed");
  v.on_setup = {};
  v.Setup(ws);
  Check(v.GetValue(x), "it opens when a later setup succeeds");
  v.Teardown();
  Check(!v.IsAvailable(), "and closes again");
}

// ---- no two operations are inside one variable at the same time
struct Slow : Variable
{
  Slow() : Variable("Slow") {}
  mutable Gate gate;
  bool Block() const { gate.Pass(); return true; }
  bool GetValueImpl(AnyValue& v) const override { Block(); v = Pair(1, 2); return true; }
  bool SetValueImpl(const AnyValue&) override { return Block(); }
  bool IsAvailableImpl() const override { return Block(); }
  SetupTeardownActions SetupImpl(const Workspace&) override { Block(); return {}; }
  void TeardownImpl() override { Block(); }
};
static const char* kOps[] = {"get", "set", "set a field", "probe", "setup", "teardown"};
static void Op(Slow& v, int op, Workspace& ws)
{
  AnyValue x;
  if (op == 0) v.GetValue(x);
  if (op == 1) v.SetValue(Pair(3, 4));
  if (op == 2) v.SetValue(AnyValue(sup::dto::int32(3)), "a");
  if (op == 3) v.IsAvailable();
  if (op == 4) v.Setup(ws);
  if (op == 5) v.Teardown();
}
static void Overlap(int first, int second)
{
  Case(std::string(kOps[second]) + " during " + kOps[first]);
  Workspace ws;
  Slow v;
  v.gate.Halt();
  v.Setup(ws);
  v.gate.Again();
  int before = v.gate.Runs();
  std::thread t1([&] { Op(v, first, ws); });
  Within(20, "first operation", [&] { while (v.gate.Runs() == before) ::usleep(100); });
  std::thread t2([&] { Op(v, second, ws); });
  double end = drv::Now() + 0.02;
  while (drv::Now() < end && v.gate.Inside() < 2) ::usleep(200);
  Check(v.gate.Inside() < 2, "one operation is inside the variable at a time");
  v.gate.Halt();
  Within(20, "operations", [&] { t1.join(); t2.join(); });
}

// ---- values are never torn, field writes are not lost
static void Threads(bool local)
{
  Case(local ? "threads over a local variable" : "threads over a file variable");
  Workspace ws;
  std::unique_ptr<Variable> v;
  if (local) v = LocalVar(kPair, R"({"a":0,"b":0})");
  else
  {
    v = GlobalVariableRegistry().Create("File");
    v->AddAttribute("file", g_dir + "/shared");
  }
  Ears ears;
  ears.On(*v);
  v->Setup(ws);
  if (!local) v->SetValue(Pair(0, 0));
  ears.Take();
  int rounds = drv::S().deep ? 400 : 60;
  if (!local) rounds /= 4;
  std::atomic<int> bad{0}, done{0}, wrong{0}, oks{0};
  std::vector<std::thread> ts;
  bool fields = Rnd(2);
  bool closing = local && Rnd(2);
  for (int w = 0; w < 2; ++w)
    ts.emplace_back([&, w] {
      for (int i = 1; i <= rounds; ++i)
      {
        bool ok = fields ? v->SetValue(AnyValue(sup::dto::int32(i)), w ? "a" : "b") : v->SetValue(Pair(2 * i + w, 2 * i + w));
        if (ok) ++oks; else if (!closing) ++wrong;
        if (fields && ok && !closing)
        {
          AnyValue x;
          if (!v->GetValue(x, w ? "a" : "b") || x.As<sup::dto::int32>() != i) ++bad;
        }
      }
      ++done;
    });
  for (int r = 0; r < 2; ++r)
    ts.emplace_back([&] {
      while (done < 2)
      {
        AnyValue x;
        bool ok = v->GetValue(x);
        if (!ok && !closing) ++wrong;
        if (ok && !fields && x["a"].As<sup::dto::int32>() != x["b"].As<sup::dto::int32>()) ++bad;
        v->IsAvailable();
      }
    });
  if (closing)
    ts.emplace_back([&] { for (int i = 0; i < rounds / 4; ++i) { v->Teardown(); v->Setup(ws); } });
  Within(60, "threads", [&] { for (auto& t : ts) t.join(); });
  Equal(bad.load(), 0, fields ? "field writes lost" : "torn values read");
  Equal(wrong.load(), 0, "operations that failed without reason");
  if (!closing) Equal(ears.Take().size(), static_cast<size_t>(oks.load()), "notifications, one per successful write");
}

int main(int argc, char** argv)
{
  char dir[] = "/tmp/c18.XXXXXX";
  if (!mkdtemp(dir)) return 2;
  g_dir = dir;
  struct Clean
  {
    static void Up() { if (!g_dir.empty()) { std::string c = "rm -rf '" + g_dir + "'"; if (system(c.c_str())) {} } }
  };
  return drv::Main(argc, argv, [] {
    int n = drv::S().deep ? 1500 : 250;
    drv::S().group = "histories";
    for (int i = 0; i < n; ++i) History(static_cast<int>(Rnd(4)));
    drv::S().group = "failed setup";
    FailedSetup();
    drv::S().group = "overlap";
    for (int a = 0; a < 6; ++a)
      for (int b = 0; b < 6; ++b) Overlap(a, b);
    drv::S().group = "threads";
    for (int i = 0; i < (drv::S().deep ? 40 : 6); ++i) Threads(i % 3 != 0);
    Clean::Up();
  });
}
