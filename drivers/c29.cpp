// C29: data instructions against a model: what they read, what they write, when they succeed
#include "lib.h"
#include <sup/oac-tree/log_severity.h>
#include <sup/dto/anyvalue_operations.h>
#include <sup/dto/anyvalue_exceptions.h>
using namespace lib;
using sup::dto::AnyValue;

struct LogUI : UI
{
  std::vector<std::pair<int, std::string>> lines;
  void Log(int s, const std::string& m) override { lines.push_back({s, m}); }
};
static AnyValue Struct()
{
  AnyValue v = sup::dto::EmptyStruct();
  v.AddMember("x", AnyValue(sup::dto::int32(int(Rnd(5)) - 2)));
  v.AddMember("s", AnyValue(std::string(Rnd(2) ? "text" : "")));
  if (Rnd(2)) v.AddMember("state", AnyValue(true));
  return v;
}
static AnyValue Array(bool strings)
{
  std::vector<AnyValue> e;
  for (int i = 1 + int(Rnd(3)); i > 0; --i)
    e.push_back(strings ? AnyValue(std::string("e" + std::to_string(i))) : AnyValue(sup::dto::int32(i)));
  AnyValue v = sup::dto::ArrayValue({e[0]}); e.erase(e.begin());
  for (auto& x : e) v.AddElement(x);
  return v;
}
static AnyValue Random()
{
  switch (Rnd(14))
  {
  case 0: return AnyValue(sup::dto::int8(int(Rnd(256)) - 128));
  case 1: return AnyValue(sup::dto::uint8(Rnd(256)));
  case 2:
  case 3: return AnyValue(sup::dto::int32(int(Rnd(7)) - 3));
  case 4: return AnyValue(sup::dto::uint64(Rnd(2) ? ~0ull : Rnd(4)));
  case 5: return AnyValue(sup::dto::int64(Rnd(2) ? INT64_MIN : INT64_MAX));
  case 6: return AnyValue(sup::dto::float64((double(Rnd(9)) - 4) / 2));
  case 7: return AnyValue(bool(Rnd(2)));
  case 8: return AnyValue(std::string(Rnd(3) ? "text" : ""));
  case 9: return Struct();
  case 10: return Array(true);
  case 11: return Array(false);
  case 12: return AnyValue(sup::dto::int32(Rnd(2) ? INT32_MAX : INT32_MIN));
  default: return {};
  }
}
struct World
{
  Workspace ws;
  LogUI ui;
  std::map<std::string, Var*> v;
  std::map<std::string, AnyValue> before;
  std::string text;
  World()
  {
    for (auto n : {"a", "b", "c"})
    {
      auto u = std::make_unique<Var>();
      auto& x = *u;
      x.value = Random();
      x.readable = Rnd(10) != 0;
      x.writable = Rnd(8) != 0;
      v[n] = u.get();
      text += std::string(" ") + n + "=" + (sup::dto::IsEmptyValue(x.value) ? "empty" : x.value.GetTypeName()) + (x.readable ? "" : "!r") + (x.writable ? "" : "!w");
      ws.AddVariable(n, std::move(u));
    }
    ws.Setup();
    Mark();
  }
  void Mark()
  {
    for (auto& p : v) { p.second->writes = 0; before[p.first] = p.second->value; }
    ui.lines.clear();
    ui.puts.clear();
    ui.messages.clear();
  }
  std::string Name()
  {
    static const char* const n[] = {"a", "b", "c", "a.x", "b.s", "c.x", "d", "a.none", "", "b[0]"};
    return n[Rnd(3) ? Rnd(3) : Rnd(10)];
  }
  static std::pair<std::string, std::string> Cut(const std::string& n)
  {
    auto p = n.find_first_of(".[");
    if (p == std::string::npos) return {n, ""};
    return {n.substr(0, p), n.substr(n[p] == '.' ? p + 1 : p)};
  }
  bool Read(const std::string& n, AnyValue& out)
  {
    auto c = Cut(n);
    auto it = v.find(c.first);
    if (it == v.end() || !it->second->readable) return false;
    if (c.second.empty()) { out = it->second->value; return true; }
    if (!it->second->value.HasField(c.second)) return false;
    out = it->second->value[c.second];
    return true;
  }
  // whether a write of a value is accepted, and the new value of the whole variable
  bool Write(const std::string& n, const AnyValue& x, std::string& who, AnyValue& whole)
  {
    auto c = Cut(n);
    auto it = v.find(c.first);
    if (it == v.end()) return false;
    who = c.first;
    if (c.second.empty())
    {
      if (!it->second->writable) return false;
      whole = x;
      return true;
    }
    if (!it->second->readable || !it->second->value.HasField(c.second)) return false;
    whole = it->second->value;
    if (!sup::dto::TryAssign(whole[c.second], x)) return false;
    return it->second->writable;
  }
  void Unchanged(const std::string& but = {})
  {
    for (auto& p : v)
    {
      if (p.first == but) continue;
      Check(p.second->writes == 0 && p.second->value == before[p.first], "variable " + p.first + " is not written");
    }
  }
};
static ES Tick(Instruction& i, World& w)
{
  Procedure p;
  try
  {
    i.ExecuteSingle(w.ui, w.ws);
    return i.GetStatus();
  }
  catch (const std::exception& e)
  {
    Fail(std::string("throws ") + e.what());
  }
  catch (...)
  {
    Fail("throws");
  }
  return ES::NOT_FINISHED;
}
static ES Say(bool ok) { return ok ? ES::SUCCESS : ES::FAILURE; }
static void Expect(World& w, Instruction& i, bool ok, bool write, const std::string& out, const AnyValue& x)
{
  std::string who;
  AnyValue whole;
  bool done = ok && (!write || w.Write(out, x, who, whole));
  Status(Tick(i, w), Say(done), "the outcome");
  if (!ok || !write) { w.Unchanged(); return; }
  w.Unchanged(who);
  if (who.empty()) return;
  if (done) Check(w.v[who]->writes == 1 && w.v[who]->value == whole, "the output is written once");
  else Check(w.v[who]->value == w.before[who], "the output keeps its value");
}
static sup::dto::CompareResult Cmp(const AnyValue& a, const AnyValue& b) { return sup::dto::Compare(a, b); }

static void Once()
{
  using CR = sup::dto::CompareResult;
  static const char* const types[] = {"Copy", "Increment", "Decrement", "Equals", "LessThan", "LessThanOrEqual", "GreaterThan",
                                      "GreaterThanOrEqual", "AddElement", "AddMember", "Output", "Message", "VarExists", "ResetVariable", "Condition", "Log"};
  std::string type = types[Rnd(16)];
  World w;
  auto i = Make(type);
  if (!i) { Fail("no instruction " + type); return; }
  std::string a = w.Name(), b = w.Name();
  int rounds = 1 + int(Rnd(2));
  AnyValue va, vb;
  bool two = type == "Copy" || type == "AddElement" || type == "AddMember", cmp = type.find("Than") != std::string::npos || type == "Equals";
  static const char* const near[] = {"state", "sta", "s", "states", "xs", "X", "stat", "t"};   // beginnings, ends and extensions of names that exist
  std::string member = Rnd(6) ? (Rnd(3) ? near[Rnd(8)] : Rnd(2) ? "fresh" : "x") : (Rnd(2) ? "" : "b a d");
  std::string descr, sev;
  bool has_sev = false, has_descr = false, has_in = false;
  if (two) { i->AddAttribute("inputVar", a); i->AddAttribute("outputVar", b); }
  else if (cmp) { i->AddAttribute("leftVar", a); i->AddAttribute("rightVar", b); }
  else if (type == "Output")
  {
    i->AddAttribute("fromVar", a);
    if ((has_descr = Rnd(3) != 0)) { descr = Rnd(2) ? "some words" : "@" + b; i->AddAttribute("description", descr); }
  }
  else if (type == "Message") { descr = Rnd(3) ? "@" + b : "plain text"; i->AddAttribute("text", descr); }
  else if (type == "Log")
  {
    static const char* const s[] = {"emergency", "alert", "critical", "error", "warning", "notice", "info", "debug", "trace", "Info", "verbose", ""};
    if ((has_sev = Rnd(4) != 0)) { sev = s[Rnd(12)]; i->AddAttribute("severity", sev); }
    if ((has_descr = Rnd(3) != 0)) { descr = Rnd(2) ? "@" + b : "plain text"; i->AddAttribute("message", descr); }
    if ((has_in = Rnd(3) != 0)) i->AddAttribute("inputVar", a);
  }
  else i->AddAttribute("varName", a);
  if (type == "AddMember") i->AddAttribute("memberName", member);
  std::string what = type + " '" + a + "' '" + b + "'" + (type == "AddMember" ? " '" + member + "'" : "") + (descr.empty() ? "" : " [" + descr + "]") + (has_sev ? " <" + sev + ">" : "");
  for (int r = 0; r < rounds; ++r)
  {
    Case(what + ":" + w.text + (r ? " again" : ""));
    w.Mark();
    bool ra = w.Read(a, va), rb = w.Read(b, vb);
    if (!ra) va = AnyValue();
    if (!rb) vb = AnyValue();
    auto text = [&](const std::string& t, std::string& out) {       // the text an attribute stands for
      if (t.empty() || t[0] != '@') { out = t; return true; }
      return rb && vb.As(out);
    };
    if (type == "Copy") Expect(w, *i, ra, true, b, va);
    else if (type == "Increment" || type == "Decrement")
    {
      AnyValue x = va;
      bool ok = ra && (type == "Increment" ? sup::dto::Increment(x) : sup::dto::Decrement(x));
      Expect(w, *i, ok, true, a, x);
    }
    else if (cmp)
    {
      bool rel = false;
      if (ra && rb)
      {
        auto c = Cmp(va, vb);
        rel = type == "Equals" ? va == vb : type == "LessThan" ? c == CR::Less : type == "GreaterThan" ? c == CR::Greater
            : type == "LessThanOrEqual" ? c == CR::Less || c == CR::Equivalent : c == CR::Greater || c == CR::Equivalent;
      }
      Expect(w, *i, ra && rb && rel, false, "", {});
    }
    else if (type == "AddElement")
    {
      bool ok = ra && rb && sup::dto::IsArrayValue(vb) && vb.GetType().ElementType() == va.GetType();
      AnyValue x = vb;
      if (ok) { try { x.AddElement(va); } catch (const sup::dto::InvalidOperationException&) { ok = false; } }
      if (ok) Equal(x.NumberOfElements(), vb.NumberOfElements() + 1, "one element more");
      Expect(w, *i, ok, true, b, x);
    }
    else if (type == "AddMember")
    {
      bool ok = ra && rb && !member.empty() && sup::dto::IsStructValue(vb);
      if (ok) for (auto& n : vb.MemberNames()) ok = ok && n != member;
      AnyValue x = vb;
      if (ok) { try { x.AddMember(member, va); } catch (const sup::dto::InvalidOperationException&) { ok = false; } }
      Expect(w, *i, ok, true, b, x);
    }
    else if (type == "Output")
    {
      std::string d;
      bool ok = ra && (!has_descr || text(descr, d));
      w.ui.put_ok = Rnd(3) != 0;
      bool put_ok = w.ui.put_ok;
      Expect(w, *i, ok && put_ok, false, "", {});
      Equal(w.ui.puts.size(), size_t(ok), "how often a value is put");
      if (ok && w.ui.puts.size() == 1) Check(w.ui.puts[0].first == d && w.ui.puts[0].second == va, "the value and description put");
    }
    else if (type == "Message")
    {
      std::string d;
      bool ok = text(descr, d);
      Expect(w, *i, ok, false, "", {});
      Check(w.ui.messages == (ok ? std::vector<std::string>{d} : std::vector<std::string>{}), "the messages shown");
    }
    else if (type == "Log")
    {
      static const std::map<std::string, int> s = {{"emergency", 0}, {"alert", 1}, {"critical", 2}, {"error", 3}, {"warning", 4}, {"notice", 5}, {"info", 6}, {"debug", 7}, {"trace", 8}};
      auto it = s.find(has_sev ? sev : "info");
      std::string d;
      bool ok = it != s.end() && (!has_descr || text(descr, d)) && (!has_in || ra);
      Expect(w, *i, ok, false, "", {});
      if (ok)
      {
        if (has_in && !sup::dto::IsEmptyValue(va)) d += sup::dto::ValuesToJSONString(va);
        Check(w.ui.lines.size() == 1 && w.ui.lines[0].first == it->second && w.ui.lines[0].second == d, "the line logged");
      }
    }
    else if (type == "VarExists") Expect(w, *i, ra, false, "", {});
    else if (type == "Condition")
    {
      bool x = false, ok = ra && va.As(x);
      Expect(w, *i, ok && x, false, "", {});
    }
    else if (type == "ResetVariable")
    {
      bool ok = w.v.count(a) != 0;
      Status(Tick(*i, w), Say(ok), "the outcome");
      for (auto& p : w.v) Check(p.second->value == w.before[p.first], "no value is written");
    }
    i->Reset(w.ui);
    if (Rnd(2)) w.v[Rnd(2) ? "a" : "b"]->value = Random();
    for (auto& p : w.v) if (Rnd(6) == 0) p.second->readable = !p.second->readable;
  }
}
// resets exactly the named variable
static void Resets()
{
  Workspace ws;
  UI ui;
  std::map<std::string, int> n;
  for (std::string name : {"a", "b", "c"})
  {
    auto u = std::make_unique<ResetVar>();
    u->on_reset = [&n, name] { ++n[name]; };
    ws.AddVariable(name, std::move(u));
  }
  ws.Setup();
  for (std::string name : {"a", "b", "c", "d", ""})
  {
    Case("ResetVariable '" + name + "'");
    n.clear();
    auto i = Make("ResetVariable");
    i->AddAttribute("varName", name);
    i->ExecuteSingle(ui, ws);
    bool known = name == "a" || name == "b" || name == "c";
    Status(i->GetStatus(), Say(known), "the outcome");
    int total = 0;
    for (auto& p : n) total += p.second;
    Equal(total, int(known), "how many resets");
    if (known) Equal(n[name], 1, "resets of the named variable");
  }
}
static void Between()
{
  // native numbers, independently of the library that compares
  for (int k = 0; k < (S().deep ? 3000 : 400); ++k)
  {
    Workspace ws;
    UI ui;
    int x = int(Rnd(5)) - 2, y = int(Rnd(5)) - 2;
    auto a = std::make_unique<Var>();
    a->value = AnyValue(sup::dto::int32(x));
    auto b = std::make_unique<Var>();
    b->value = AnyValue(sup::dto::int32(y));
    auto ra = a.get(), rb = b.get();
    ws.AddVariable("a", std::move(a));
    ws.AddVariable("b", std::move(b));
    ws.Setup();
    struct { const char* t; bool r; } rel[] = {{"Equals", x == y}, {"LessThan", x < y}, {"LessThanOrEqual", x <= y}, {"GreaterThan", x > y}, {"GreaterThanOrEqual", x >= y}};
    for (auto& q : rel)
    {
      Case(std::string(q.t) + " " + std::to_string(x) + " " + std::to_string(y));
      auto i = Make(q.t);
      i->AddAttribute("leftVar", "a");
      i->AddAttribute("rightVar", "b");
      i->ExecuteSingle(ui, ws);
      Status(i->GetStatus(), Say(q.r), "the outcome");
    }
    for (int up = 0; up < 2; ++up)
    {
      Case(std::string(up ? "Increment " : "Decrement ") + std::to_string(x));
      auto i = Make(up ? "Increment" : "Decrement");
      i->AddAttribute("varName", "a");
      i->ExecuteSingle(ui, ws);
      Status(i->GetStatus(), ES::SUCCESS, "the outcome");
      x += up ? 1 : -1;
      Check(ra->value == AnyValue(sup::dto::int32(x)) && rb->value == AnyValue(sup::dto::int32(y)), "the values");
    }
  }
}
int main(int argc, char** argv)
{
  return drv::Main(argc, argv, [] {
    int f = S().deep ? 10 : 1;
    Within(140, "data instructions", [&] {
      S().group = "reset";
      Resets();
      S().group = "numbers";
      Between();
      S().group = "instructions";
      for (int i = 0; i < 6000 * f; ++i) Once();
    });
  });
}
