// C25: conversion of timeouts against exact arithmetic, and timed instructions against the clock they use
#include "lib.h"
#include <sup/oac-tree/instruction_utils.h>
#include <sup/oac-tree/exceptions.h>
#include <sup/dto/anyvalue.h>
#include <cmath>
#include <limits>
using namespace lib;
using sup::dto::AnyValue;
using sup::dto::int64;

static std::string Hex(double x)
{
  char b[80];
  std::snprintf(b, sizeof b, "%.17g (%a)", x, x);
  return b;
}
static const double kMax = 9.2e9;
static bool Fine(double x) { return x >= 0.0 && x <= kMax; }
static bool Near(double x, int64 got)
{
  __float128 exact = static_cast<__float128>(x) * 1000000000;
  double p = x * 1e9;
  __float128 slack = static_cast<__float128>(0.5) + static_cast<__float128>(std::nextafter(p, INFINITY) - p) / 2;
  __float128 d = static_cast<__float128>(got) - exact;
  return (d < 0 ? -d : d) <= slack;
}
static void Convert(double x)
{
  Case("convert " + Hex(x));
  int64 before = int64(Rnd(1000)) - 500, t = before;
  bool ok = instruction_utils::ConvertToTimeoutNanoseconds(x, t);
  Equal(ok, Fine(x), "accepted");
  if (!ok) Equal(t, before, "the previous value");
  else if (Fine(x)) Check(t >= 0 && Near(x, t), "the nearest number of nanoseconds: got " + std::to_string(t));
}
static double Random()
{
  double x;
  switch (Rnd(9))
  {
  case 0: { uint64_t b = S().rng(); std::memcpy(&x, &b, 8); return x; }
  case 1: return double(Rnd(2000)) / 1e9;
  case 2: return (double(Rnd(2000)) + 0.5) / 1e9;
  case 3: return std::nextafter(double(Rnd(100)) * 1e-3, Rnd(2) ? INFINITY : -INFINITY);
  case 4: return kMax * (double(Rnd(1u << 20)) / (1u << 20));
  case 5: x = kMax; for (int i = int(Rnd(4)); i > 0; --i) x = std::nextafter(x, Rnd(2) ? 0.0 : INFINITY); return x;
  case 6: return -double(Rnd(1000)) / 100;
  case 7: return std::ldexp(1.0 + double(Rnd(1u << 20)) / (1u << 20), int(Rnd(40)) - 5);
  default: return double(Rnd(100000)) / 1000;
  }
}
static void Conversions()
{
  const double inf = std::numeric_limits<double>::infinity();
  for (double x : {0.0, -0.0, 1e-9, 0.4e-9, 0.5e-9, 0.6e-9, 1.5e-9, 2.5e-9, -1e-9, -0.4e-9, -1.0, 1.0, 0.1, 0.3, 1e9, kMax, std::nextafter(kMax, inf),
                   std::nextafter(kMax, 0.0), 9.3e9, 1e10, 9223372036.854775807, 9223372036.9, 1.8446744073709552e10, 1e18, 1e308, inf, -inf, std::nan(""), -std::nan(""),
                   std::numeric_limits<double>::denorm_min(), -std::numeric_limits<double>::denorm_min(), std::numeric_limits<double>::max(), 4294967.296, 2.147483648})
    Convert(x);
  for (int i = 0; i < (S().deep ? 400000 : 60000); ++i) Convert(Random());
}

// ------------------------------------------------------------------ a variable of any type name
class Named : public Variable
{
public:
  explicit Named(const std::string& type) : Variable(type) {}
  AnyValue value;
  bool readable = true, available = true;

private:
  bool GetValueImpl(AnyValue& v) const override
  {
    if (!readable) return false;
    v = value;
    return true;
  }
  bool SetValueImpl(const AnyValue& v) override { value = v; return true; }
  bool IsAvailableImpl() const override { return available; }
};
static uint64_t Clock()
{
  return std::chrono::duration_cast<std::chrono::duration<unsigned long long, std::nano>>(std::chrono::system_clock::now().time_since_epoch()).count();
}
static std::string Digits(double x)
{
  char b[64];
  std::snprintf(b, sizeof b, "%.17g", x);
  return b;
}
// the timeout of one instruction: what its attribute says and what that means
struct Limit
{
  bool usable = true;
  double x = 0;     // seconds
  std::string text;
};
static double Interval()
{
  switch (Rnd(6))
  {
  case 0: return 0;
  case 1: return 1e-9 * double(Rnd(3000));
  case 2: return 1e-6 * double(Rnd(400));
  case 3: return 3600 + double(Rnd(100000));
  case 4: return kMax - double(Rnd(3));
  default: return 1e-6 * double(Rnd(40));
  }
}
static Limit Give(Instruction& i, Workspace& ws, bool mandatory)
{
  Limit l;
  int how = int(Rnd(12));
  if (how < 6)
  {
    l.x = Interval();
    i.AddAttribute("timeout", Digits(l.x));
    l.text = "timeout=" + Digits(l.x);
  }
  else if (how == 6 && !mandatory)
  {
    l.text = "no timeout";
  }
  else
  {
    auto v = std::make_unique<Named>("Limit");
    if (how < 9) l.x = Interval();
    else { static const double bad[] = {-1, -1e-9, 9.3e9, 1e300, INFINITY, -INFINITY, NAN}; l.x = bad[Rnd(7)]; }
    v->value = AnyValue(sup::dto::float64(l.x));
    v->readable = Rnd(6) != 0;
    bool word = Rnd(8) == 0;
    if (word) v->value = AnyValue(std::string("soon"));
    l.usable = v->readable && !word && Fine(l.x);
    l.text = "timeout=@limit " + Digits(l.x) + (v->readable ? "" : " unreadable") + (l.usable ? "" : " unusable");
    ws.AddVariable("limit", std::move(v));
    i.AddAttribute("timeout", "@limit");
  }
  return l;
}
// what one tick may answer, given the clock before and after the start and before and after this tick
struct Watch
{
  uint64_t lo = 0, hi = 0;
  void Start(uint64_t before, uint64_t after, double x)
  {
    __float128 n = static_cast<__float128>(x) * 1000000000;
    double p = x * 1e9;
    uint64_t e = uint64_t(n), u = uint64_t(std::nextafter(p, INFINITY) - p) / 2 + 1;
    lo = before + (e > u ? e - u : 0);
    hi = after + e + u;
  }
};
static void Waits()
{
  Procedure proc;
  UI ui;
  auto& ws = proc.GetWorkspace();
  auto w = Make("Wait");
  Limit l = Give(*w, ws, false);
  bool blocking = l.x < 0.01 && Rnd(3) == 0;
  if (blocking) { w->AddAttribute("blocking", "true"); proc.AddAttribute("timingAccuracy", "0.00001"); }
  else if (Rnd(3) == 0) w->AddAttribute("blocking", "false");
  Case("Wait " + l.text + (blocking ? " blocking" : ""));
  w->Setup(proc);
  ws.Setup();
  for (int round = 0; round < 2; ++round)
  {
    Watch watch;
    uint64_t b = Clock();
    int halt_at = Rnd(3) ? -1 : int(Rnd(4));
    bool halted = false;
    for (int n = 0;; ++n)
    {
      if (n == halt_at) { w->Halt(); halted = true; }
      uint64_t s = Clock();
      w->ExecuteSingle(ui, ws);
      uint64_t e = Clock();
      ES r = w->GetStatus();
      if (n == 0) watch.Start(b, e, l.x);
      if (!l.usable) { Status(r, ES::FAILURE, "a timeout that cannot be used"); break; }
      if (halted) { Status(r, n == 0 ? ES::NOT_FINISHED : ES::RUNNING, "a tick after a halt request"); break; }  // not executed any more
      if (r == ES::SUCCESS)
      {
        Check(e >= watch.lo, "finished " + std::to_string(watch.lo - e) + " ns before its deadline");
        break;
      }
      if (!Status(r, ES::RUNNING, "a wait that is neither over nor halted")) break;
      Check(s <= watch.hi, "goes on " + std::to_string(s - watch.hi) + " ns after its deadline");
      if (l.x > 1) { if (n > 3) break; }
      else if (n > 30) ::usleep(20);
      if (n > 200000) break;
    }
    w->Reset(ui);
    Status(w->GetStatus(), ES::NOT_STARTED, "after a reset");
  }
  proc.Reset(ui);
}
static void ForVariable()
{
  Procedure proc;
  UI ui;
  auto& ws = proc.GetWorkspace();
  auto w = Make("WaitForVariable");
  Limit l = Give(*w, ws, true);
  auto a = std::make_unique<Named>("A"), b = std::make_unique<Named>("B");
  auto *pa = a.get(), *pb = b.get();
  ws.AddVariable("a", std::move(a));
  ws.AddVariable("b", std::move(b));
  w->AddAttribute("varName", Rnd(12) ? "a" : "none");
  bool none = w->GetAttributeString("varName") == "none", equals = Rnd(2);
  if (equals) w->AddAttribute("equalsVar", "b");
  w->Setup(proc);
  ws.Setup();
  for (int round = 0; round < 2; ++round)
  {
    Watch watch;
    uint64_t before = Clock();
    std::string text = "WaitForVariable " + l.text + (equals ? " equals" : "") + (none ? " unknown" : "");
    int halt_at = Rnd(3) ? -1 : int(Rnd(4));
    bool halted = false;
    for (int n = 0; n < 6; ++n)
    {
      pa->readable = Rnd(4) != 0;
      pb->readable = Rnd(4) != 0;
      auto val = [&]() -> AnyValue { switch (Rnd(4)) { case 0: return {}; case 1: return AnyValue(sup::dto::int32(1)); case 2: return AnyValue(sup::dto::int32(2)); default: return AnyValue(std::string("x")); } };
      pa->value = val();
      pb->value = Rnd(3) ? pa->value : val();
      bool met = !none && pa->readable && !sup::dto::IsEmptyValue(pa->value) && (!equals || (pb->readable && pa->value == pb->value));
      if (n == halt_at) { w->Halt(); halted = true; }
      Case(text + (met ? " met" : " not met") + (halted ? " halted" : ""));
      uint64_t s = Clock();
      w->ExecuteSingle(ui, ws);
      uint64_t e = Clock();
      ES r = w->GetStatus();
      if (n == 0) watch.Start(before, e, l.x);
      if (!l.usable) { Status(r, ES::FAILURE, "a timeout that cannot be used"); break; }
      if (halted) { Status(r, n == 0 ? ES::NOT_FINISHED : ES::RUNNING, "a tick after a halt request"); break; }  // not executed any more
      if (met) { Status(r, ES::SUCCESS, "the condition holds"); break; }
      if (r == ES::FAILURE)
      {
        Check(e >= watch.lo, "timed out " + std::to_string(watch.lo - e) + " ns before its deadline");
        break;
      }
      if (!Status(r, ES::RUNNING, "neither met, halted nor over")) break;
      Check(s <= watch.hi, "goes on " + std::to_string(s - watch.hi) + " ns after its deadline");
    }
    w->Reset(ui);
  }
}
static void ForVariables()
{
  Procedure proc;
  UI ui;
  auto& ws = proc.GetWorkspace();
  auto w = Make("WaitForVariables");
  Limit l = Give(*w, ws, true);
  w->AddAttribute("varType", "Slow");
  int count = int(Rnd(5));
  std::vector<Named*> slow, other;
  for (int i = 0; i < count + 2; ++i)
  {
    bool s = int(Rnd(2)) == 0;
    auto v = std::make_unique<Named>(s ? "Slow" : "Quick");
    (s ? slow : other).push_back(v.get());
    ws.AddVariable("v" + std::to_string(i), std::move(v));
  }
  w->Setup(proc);
  ws.Setup();
  for (int round = 0; round < 2; ++round)
  {
    Watch watch;
    uint64_t before = Clock();
    int halt_at = Rnd(3) ? -1 : int(Rnd(4));
    bool halted = false;
    for (int n = 0; n < 6; ++n)
    {
      bool met = true;
      std::string text = "WaitForVariables " + l.text + " of " + std::to_string(slow.size()) + ":";
      int odds = 1 + int(Rnd(4));
      for (auto v : slow) { v->available = Rnd(4) < unsigned(odds); met = met && v->available; text += v->available ? " yes" : " no"; }
      for (auto v : other) v->available = Rnd(2);
      if (n == halt_at) { w->Halt(); halted = true; }
      Case(text + (halted ? " halted" : ""));
      uint64_t s = Clock();
      w->ExecuteSingle(ui, ws);
      uint64_t e = Clock();
      ES r = w->GetStatus();
      if (n == 0) watch.Start(before, e, l.x);
      if (!l.usable) { Status(r, ES::FAILURE, "a timeout that cannot be used"); break; }
      if (halted) { Status(r, n == 0 ? ES::NOT_FINISHED : ES::RUNNING, "a tick after a halt request"); break; }  // not executed any more
      if (met) { Status(r, ES::SUCCESS, "all variables are available"); break; }
      if (r == ES::FAILURE)
      {
        Check(e >= watch.lo, "timed out " + std::to_string(watch.lo - e) + " ns before its deadline");
        break;
      }
      if (!Status(r, ES::RUNNING, "neither met, halted nor over")) break;
      Check(s <= watch.hi, "goes on " + std::to_string(s - watch.hi) + " ns after its deadline");
    }
    w->Reset(ui);
  }
}
static void Blocked()
{
  // a blocking wait ends when it is halted from another thread
  Procedure proc;
  UI ui;
  auto& ws = proc.GetWorkspace();
  proc.AddAttribute("timingAccuracy", "0.001");
  auto w = Make("Wait");
  std::string t = Rnd(2) ? "100000" : "9.2e9";
  w->AddAttribute("timeout", t);
  w->AddAttribute("blocking", "true");
  Case("halt a blocking Wait of " + t + " s");
  w->Setup(proc);
  ws.Setup();
  std::atomic<bool> done{false};
  std::thread th([&] { w->ExecuteSingle(ui, ws); done = true; });
  for (int i = 0; i < 100000 && w->GetStatus() == ES::NOT_STARTED; ++i) ::usleep(100);
  ::usleep(unsigned(20000 + Rnd(3000)));  // inside the tick by now, as far as one can tell
  Check(!done, "it is still waiting");
  w->Halt();
  th.join();
  if (w->GetStatus() != ES::NOT_FINISHED) Status(w->GetStatus(), ES::FAILURE, "a halted wait");
}
static void Attributes()
{
  double x = Rnd(2) ? Random() : double(Rnd(1000)) / 100;
  bool has = Rnd(4) != 0;
  Procedure proc;
  std::string text = Digits(x);
  bool named = std::isnan(x) || std::isinf(x);
  if (named) return;
  if (has) { proc.AddAttribute("tickTimeout", text); proc.AddAttribute("timingAccuracy", text); }
  Case("procedure times " + (has ? text : std::string("absent")));
  int64 a = TickTimeoutNs(proc), b = TimingAccuracyNs(proc);
  if (has && Fine(x))
  {
    Check(Near(x, a), "the tick timeout: got " + std::to_string(a));
    Check(Near(x, b), "the timing accuracy: got " + std::to_string(b));
  }
  else
  {
    Equal(a, int64(100000000), "the default tick timeout");
    Equal(b, int64(50000000), "the default timing accuracy");
  }
}
int main(int argc, char** argv)
{
  return drv::Main(argc, argv, [] {
    int f = S().deep ? 8 : 1;
    Within(200, "timeouts", [&] {
      S().group = "conversion";
      Conversions();
      S().group = "procedure";
      for (int i = 0; i < 600 * f; ++i) Attributes();
      S().group = "Wait";
      for (int i = 0; i < 1500 * f; ++i) Waits();
      S().group = "WaitForVariable";
      for (int i = 0; i < 1500 * f; ++i) ForVariable();
      S().group = "WaitForVariables";
      for (int i = 0; i < 1500 * f; ++i) ForVariables();
      S().group = "halt";
      for (int i = 0; i < 20 * f; ++i) Blocked();
    });
  });
}
