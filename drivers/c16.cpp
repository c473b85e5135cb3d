// C16: names, addressing and types of a workspace against a plain model
#include "lib.h"
#include <sup/dto/anytype_registry.h>
#include <sup/oac-tree/exceptions.h>
#include <algorithm>
using namespace lib;
using sup::dto::AnyValue;
using sup::dto::AnyType;

static AnyValue Content(int k)
{
  AnyValue inner{{{"x", AnyValue(k)}, {"y", AnyValue(k + 1)}}};
  AnyValue arr(3, sup::dto::SignedInteger32Type);
  for (size_t i = 0; i < 3; ++i) arr[i] = AnyValue(sup::dto::int32(k + 10 + static_cast<int>(i)));
  return AnyValue{{{"a", AnyValue(sup::dto::int32(k + 5))}, {"in", inner}, {"arr", arr}}};
}
static std::string Name()
{
  static const std::vector<std::string> n = {"v", "va", "var", "a", "in", "arr", "V", "v w", "x-1", "v]", "long_name"};
  return n[Rnd(n.size())];
}
// what the full name means: the text before the first dot or opening bracket, and the rest without that dot
static std::pair<std::string, std::string> Split(const std::string& full)
{
  for (size_t i = 0; i < full.size(); ++i)
  {
    if (full[i] == '.') return {full.substr(0, i), full.substr(i + 1)};
    if (full[i] == '[') return {full.substr(0, i), full.substr(i)};
  }
  return {full, ""};
}
static std::string Full()
{
  static const std::vector<std::string> f = {"", ".a", ".in", ".in.x", ".in.y", ".arr", ".arr[0]", ".arr[2]", ".arr[3]", ".b", "[0]",
                                             "[1]", ".", "[", "[].x", ".a.b", "[0].a", ".in.", ".arr[1].x", "..a", "].a", "[a.b]"};
  std::string r = Rnd(12) == 0 ? "" : Name();
  return r + f[Rnd(f.size())];
}
static bool Reads(const AnyValue& from, const std::string& field, AnyValue& out)
{
  try
  {
    if (!field.empty() && !from.HasField(field)) return false;
    out = field.empty() ? from : from[field];
    return true;
  }
  catch (...) { return false; }
}
static void Addressing()
{
  Workspace ws;
  std::map<std::string, Var*> model;
  std::vector<std::string> order;
  size_t n = 1 + Rnd(6);
  std::string t = "variables";
  std::vector<std::pair<std::string, int>> adds;
  for (size_t i = 0; i < n + 2; ++i) { adds.push_back({Name(), static_cast<int>(i)}); t += " " + adds.back().first; }
  Case(t);
  for (auto& [name, id] : adds)
  {
    auto v = std::make_unique<ResetVar>(id * 100);
    Var* p = v.get();
    bool array = Rnd(4) == 0;
    p->value = array ? Content(id * 100)["arr"] : Content(id * 100);
    bool thrown = false, ok = false;
    try { ok = ws.AddVariable(name, std::move(v)); } catch (const InvalidOperationException&) { thrown = true; }
    if (model.count(name))
    {
      Check(thrown, "a duplicate name is refused: " + name);
      Check(ws.GetVariable(name) == model[name], "a refused variable replaces nothing: " + name);
    }
    else
    {
      Check(!thrown && ok, "a new name is accepted: " + name);
      model[name] = p;
      order.push_back(name);
    }
    Check(ws.VariableNames() == order, "names are listed in the order added, after adding " + name);
  }
  auto vars = ws.GetVariables();
  Check(vars.size() == order.size(), "as many variables as names");
  for (size_t i = 0; i < order.size() && i < vars.size(); ++i) Check(vars[i] == model[order[i]], "variables are listed in the order added");
  ws.Setup();
  for (int k = 0; k < 24; ++k)
  {
    auto full = Full();
    auto [vn, fn] = Split(full);
    auto at = model.find(vn);
    Check(ws.HasVariable(full) == (model.count(full) == 1), "HasVariable(" + full + ")");
    Check(ws.GetVariable(full) == (model.count(full) ? model[full] : nullptr), "GetVariable(" + full + ")");
    std::map<Var*, std::pair<int, int>> before;
    std::map<Var*, AnyValue> values;
    for (auto& [x, p] : model) { before[p] = {p->reads, p->writes}; values[p] = p->value; }
    bool write = Rnd(2) == 0;
    AnyValue want, got;
    bool can = at != model.end() && Reads(at->second->value, fn, want);
    if (!write)
    {
      bool ok = ws.GetValue(full, got);
      Check(ok == can, "reading " + full + (can ? " succeeds" : " fails"));
      Check(got == want, "reading " + full + " delivers exactly the addressed value");
      for (auto& [x, p] : model)
      {
        Check(p->value == values[p], "reading " + full + " changes nothing");
        if (at == model.end() || p != at->second) Check(p->reads == before[p].first && p->writes == before[p].second, "reading " + full + " leaves variable " + x + " alone");
      }
      continue;
    }
    bool scalar = can && sup::dto::IsScalarValue(want);
    AnyValue nv = scalar ? AnyValue(sup::dto::int32(7000 + k)) : (can ? want : AnyValue(sup::dto::int32(1)));
    bool ok = ws.SetValue(full, nv);
    Check(ok == can || (at != model.end() && fn.empty()), "writing " + full + (can ? " succeeds" : " fails"));
    for (auto& [x, p] : model)
    {
      if (at == model.end() || p != at->second)
      {
        Check(p->reads == before[p].first && p->writes == before[p].second && p->value == values[p], "writing " + full + " leaves variable " + x + " alone");
        continue;
      }
      AnyValue expect = values[p];
      if (ok) { if (fn.empty()) expect = nv; else expect[fn] = nv; }
      Check(p->value == expect, "writing " + full + " changes exactly the addressed field");
    }
  }
  for (int k = 0; k < 4; ++k)
  {
    auto name = Rnd(2) ? Name() : Full();
    int hits = 0, wrong = 0;
    for (auto& [x, p] : model) { int* c = x == name ? &hits : &wrong; p->on_reset = [c] { ++*c; }; }
    bool ok = ws.ResetVariable(name);
    Check(ok == (model.count(name) == 1) && hits == (ok ? 1 : 0) && wrong == 0, "ResetVariable(" + name + ") resets exactly the variable of that name");
    for (auto& [x, p] : model) p->on_reset = nullptr;
  }
}
static void Types()
{
  Workspace ws;
  std::map<std::string, AnyType> known;
  std::string t;
  struct Step { std::string name; int shape; };
  std::vector<Step> steps;
  for (size_t i = 0; i < 2 + Rnd(6); ++i)
  {
    steps.push_back({std::string(1, static_cast<char>('A' + Rnd(3))), static_cast<int>(Rnd(3))});
    t += " " + steps.back().name + std::to_string(steps.back().shape);
  }
  Case("types (name and shape)" + t);
  auto make = [](const Step& s)
  {
    AnyType x({{"m", s.shape == 0 ? sup::dto::SignedInteger32Type : sup::dto::StringType}}, s.name);
    if (s.shape == 2) return AnyType({{"m", sup::dto::StringType}, {"n", sup::dto::StringType}}, s.name);
    return x;
  };
  for (auto& s : steps)
  {
    auto ty = make(s);
    bool ok = ws.RegisterType(ty);
    bool want = !known.count(s.name) || known[s.name] == ty;
    Check(ok == want, "registering a type under the " + std::string(known.count(s.name) ? "known" : "new") + " name " + s.name + (want ? " succeeds" : " fails"));
    known.emplace(s.name, ty);
    for (auto& [n, k] : known) Check(ws.GetTypeRegistry().HasType(n) && ws.GetTypeRegistry().GetType(n) == k, "the type first registered as " + n + " stays");
    for (auto n : {"A", "B", "C"}) if (!known.count(n)) Check(!ws.GetTypeRegistry().HasType(n), std::string("no type appears from nowhere: ") + n);
  }
}
int main(int argc, char** argv)
{
  return drv::Main(argc, argv, [] {
    Within(140, "workspace", [] {
      S().group = "addressing";
      for (int i = 0; i < (S().deep ? 6000 : 500); ++i) Addressing();
      S().group = "types";
      for (int i = 0; i < (S().deep ? 8000 : 800); ++i) Types();
    });
  });
}
