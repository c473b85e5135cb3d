// C15: constraints against truth tables of our own; validation against a count of our own
#include "lib.h"
#include <sup/oac-tree/attribute_handler.h>
#include <sup/oac-tree/attribute_utils.h>
#include <sup/oac-tree/concrete_constraints.h>
#include <sup/oac-tree/constraint.h>
#include <sup/oac-tree/exceptions.h>
#include <algorithm>
using namespace lib;
using List = StringAttributeList;

static std::string Show(const List& l)
{
  std::string o = "{";
  for (auto& [n, v] : l) o += (o.size() > 1 ? ", " : "") + n + "=" + v;
  return o + "}";
}
static const std::vector<std::string> kNames = {"a", "b", "c", "ab", "A"};
static const std::vector<std::string> kValues = {"12", "abc", "true", "YES", "", "@x", "on"};
struct Ty { sup::dto::AnyType t; int kind; const char* n; };   // 0 always parses, 1 number, 2 never
static std::vector<Ty>& Types()
{
  static std::vector<Ty> v = {
    {sup::dto::StringType, 0, "string"}, {sup::dto::BooleanType, 0, "bool"}, {sup::dto::Character8Type, 1, "char8"},
    {sup::dto::SignedInteger8Type, 1, "int8"}, {sup::dto::UnsignedInteger8Type, 1, "uint8"},
    {sup::dto::SignedInteger16Type, 1, "int16"}, {sup::dto::UnsignedInteger16Type, 1, "uint16"},
    {sup::dto::SignedInteger32Type, 1, "int32"}, {sup::dto::UnsignedInteger32Type, 1, "uint32"},
    {sup::dto::SignedInteger64Type, 1, "int64"}, {sup::dto::UnsignedInteger64Type, 1, "uint64"},
    {sup::dto::Float32Type, 1, "float32"}, {sup::dto::Float64Type, 1, "float64"},
    {sup::dto::EmptyType, 2, "empty"}, {sup::dto::AnyType({{"x", sup::dto::StringType}}), 2, "struct"}};
  return v;
}
static bool Parses(const Ty& t, const std::string& v) { return t.kind == 0 || (t.kind == 1 && v == "12"); }
static bool TrueWord(std::string s)
{
  for (auto& c : s) if (c >= 'A' && c <= 'Z') c = static_cast<char>(c - 'A' + 'a');
  return s == "true" || s == "yes" || s == "on";
}
static long Find(const List& l, const std::string& n)
{
  for (size_t i = 0; i < l.size(); ++i) if (l[i].first == n) return static_cast<long>(i);
  return -1;
}
static List Some(size_t n)
{
  List l;
  for (size_t i = 0; i < n; ++i)
  {
    auto name = kNames[Rnd(kNames.size())];
    if (Find(l, name) < 0) l.push_back({name, kValues[Rnd(kValues.size())]});
  }
  return l;
}
using Judge = std::function<bool(const List&)>;
struct Both { Constraint c; Judge j; std::string text; };
static Both Random(int depth)
{
  size_t k = depth == 0 ? Rnd(3) : Rnd(8);
  switch (k)
  {
  case 0: case 6:
  {
    auto n = kNames[Rnd(kNames.size())];
    return {MakeConstraint<Exists>(n), [n](const List& l) { return Find(l, n) >= 0; }, "exists " + n};
  }
  case 1: case 7:
  {
    auto n = kNames[Rnd(kNames.size())];
    auto& t = Types()[Rnd(Types().size())];
    return {MakeConstraint<FixedType>(n, t.t), [n, &t](const List& l) {
      long i = Find(l, n);
      return i >= 0 && Parses(t, l[static_cast<size_t>(i)].second);
    }, n + " is " + t.n};
  }
  case 2:
    return {Constraint{nullptr}, [](const List&) { return false; }, "nothing"};
  case 3:
  {
    auto a = Random(depth - 1);
    return {MakeConstraint<Not>(std::move(a.c)), [j = a.j](const List& l) { return !j(l); }, "not (" + a.text + ")"};
  }
  default:
  {
    auto a = Random(depth - 1), b = Random(depth - 1);
    auto x = a.j, y = b.j;
    size_t op = Rnd(3);
    std::string t = "(" + a.text + (op == 0 ? ") and (" : op == 1 ? ") or (" : ") xor (") + b.text + ")";
    if (op == 0) return {MakeConstraint<And>(std::move(a.c), std::move(b.c)), [x, y](const List& l) { return x(l) && y(l); }, t};
    if (op == 1) return {MakeConstraint<Or>(std::move(a.c), std::move(b.c)), [x, y](const List& l) { return x(l) || y(l); }, t};
    return {MakeConstraint<Xor>(std::move(a.c), std::move(b.c)), [x, y](const List& l) { return x(l) != y(l); }, t};
  }
  }
}
static void Trees()
{
  auto a = Random(static_cast<int>(Rnd(4)));
  Case("constraint " + a.text);
  auto test = [&](const Constraint& c, const std::string& how) {
    for (int i = 0; i < 6; ++i)
    {
      auto l = Some(Rnd(6));
      bool w = a.j(l);
      Check(c.Validate(l) == w, how + (w ? "accepts " : "refuses ") + Show(l));
    }
    Check(!c.GetRepresentation().empty(), how + "has a description");
  };
  test(a.c, "");
  {
    Constraint copy{a.c};
    test(copy, "a copy ");
    Constraint copy2{copy};
    copy = Constraint{nullptr};
    test(copy2, "a copy of a copy ");
    Constraint other = MakeConstraint<Exists>("zzz");
    other = copy2;
    test(other, "an assigned copy ");
    test(copy2, "the source of an assignment ");
    Constraint moved{std::move(copy2)};
    test(moved, "a moved one ");
    Constraint target{nullptr};
    target = std::move(moved);
    test(target, "a move assigned one ");
    auto& same = target;
    target = same;
    test(target, "a self assigned one ");
  }
  test(a.c, "the original of the copies ");
}
static const Ty& SomeType() { return Types()[Rnd(2) ? Rnd(Types().size()) : Rnd(13)]; }
struct Def { std::string n; const Ty* t; bool mandatory; AttributeCategory cat; };
static const char* Cat(AttributeCategory c) { return c == AttributeCategory::kLiteral ? "literal" : c == AttributeCategory::kBoth ? "both" : "variable"; }

class Checked : public Kid
{
public:
  using Kid::Kid;
  int setups = 0;
  using Instruction::AddAttributeDefinition;
  using Instruction::AddConstraint;
private:
  void SetupImpl(const Procedure&) override { ++setups; }
};
class CheckedVar : public Var
{
public:
  using Var::Var;
  using Variable::AddAttributeDefinition;
  using Variable::AddConstraint;
};
// what an object with these definitions, constraints and attributes is found to break
struct Plan
{
  std::vector<Def> defs;
  std::vector<Both> cons;
  List attrs;
  std::string text;
  size_t bad = 0;
  Plan()
  {
    size_t n = Rnd(5);
    for (size_t i = 0; i < n; ++i)
    {
      auto name = kNames[Rnd(kNames.size())];
      bool known = false;
      for (auto& d : defs) known = known || d.n == name;
      if (known) continue;
      AttributeCategory c[] = {AttributeCategory::kLiteral, AttributeCategory::kLiteral, AttributeCategory::kBoth, AttributeCategory::kVariableName};
      defs.push_back({name, &SomeType(), Rnd(2) == 0, c[Rnd(4)]});
      text += " " + name + ":" + defs.back().t->n + (defs.back().mandatory ? " mandatory " : " ") + Cat(defs.back().cat);
    }
    n = Rnd(4);
    for (size_t i = 0; i < n; ++i)
    {
      cons.push_back(Random(static_cast<int>(Rnd(2))));
      text += " [" + cons.back().text + "]";
    }
    attrs = Some(Rnd(6));
    text += " on " + Show(attrs);
    for (auto& d : defs)
    {
      long i = Find(attrs, d.n);
      if (i < 0) { bad += d.mandatory; continue; }
      auto& v = attrs[static_cast<size_t>(i)].second;
      if (d.cat == AttributeCategory::kVariableName || (d.cat == AttributeCategory::kBoth && !v.empty() && v[0] == '@')) continue;
      bad += !Parses(*d.t, v);
    }
    for (auto& c : cons) bad += !c.j(attrs);
  }
  template <typename T> void Define(T& x, bool rvalue)
  {
    for (auto& d : defs)
    {
      auto& e = x.AddAttributeDefinition(d.n, d.t->t);
      if (d.mandatory) e.SetMandatory();
      if (d.cat != AttributeCategory::kLiteral) e.SetCategory(d.cat);
    }
    for (auto& c : cons)
    {
      if (rvalue) x.AddConstraint(Constraint{c.c});
      else x.AddConstraint(c.c);
    }
  }
};
static void Handlers()
{
  Plan p;
  Case("validation" + p.text);
  AttributeHandler h;
  p.Define(h, Rnd(2));
  for (auto& [n, v] : p.attrs) h.AddStringAttribute(n, v);
  for (int round = 0; round < 2; ++round)
  {
    Check(h.ValidateAttributes() == (p.bad == 0), p.bad ? "a broken constraint is found" : "attributes that meet all constraints are accepted");
    Equal(h.GetFailedConstraints().size(), p.bad, "the number of failures");
    for (auto& f : h.GetFailedConstraints()) Check(!f.empty(), "a failure is described");
  }
  h.ClearFailedConstraints();
  Equal(h.GetFailedConstraints().size(), size_t{0}, "the number of failures after clearing");
  for (auto& d : p.defs)
  {
    long i = Find(p.attrs, d.n);
    sup::dto::AnyValue v;
    bool got = h.GetValue(d.n, v), want = i >= 0 && Parses(*d.t, p.attrs[static_cast<size_t>(i)].second);
    Check(got == want, "GetValue(" + d.n + ") succeeds exactly for a value that parses");
    if (got && want)
    {
      auto& s = p.attrs[static_cast<size_t>(i)].second;
      if (d.t->kind == 1) Check(v.As<sup::dto::float64>() == 12.0, "the number read");
      else if (std::string(d.t->n) == "bool") Check(v.As<bool>() == TrueWord(s), "the truth value read from " + s);
      else Equal(v.As<std::string>(), s, "the text read");
    }
  }
}
static void Instructions()
{
  Plan p;
  Case("setup of an instruction:" + p.text);
  Checked k;
  p.Define(k, Rnd(2));
  k.AddAttributes(p.attrs);
  Procedure proc;
  bool thrown = false;
  try { k.Setup(proc); }
  catch (const InstructionSetupException&) { thrown = true; }
  Check(thrown == (p.bad != 0), p.bad ? "the instruction is refused" : "the instruction is accepted");
  Equal(k.setups, p.bad ? 0 : 1, "how often its own setup ran");
}
static void Variables()
{
  Plan p;
  Case("setup of a variable:" + p.text);
  CheckedVar v;
  int setups = 0;
  v.on_setup = [&] { ++setups; return SetupTeardownActions{}; };
  p.Define(v, Rnd(2));
  v.AddAttributes(p.attrs);
  Workspace ws;
  bool thrown = false;
  try { v.Setup(ws); }
  catch (const VariableSetupException&) { thrown = true; }
  Check(thrown == (p.bad != 0), p.bad ? "the variable is refused" : "the variable is accepted");
  Equal(setups, p.bad ? 0 : 1, "how often its own setup ran");
  Check(v.IsAvailable() == (p.bad == 0), "it is available exactly after a setup");
}
static void Words()
{
  static const std::string parts[] = {"true", "TRUE", "True", "tRuE", "yes", "YES", "on", "On", "1", "", "true ", " true", "false", "off", "no", "o", "tru", "truee", "y", "yes\n"};
  for (auto& s : parts)
  {
    Case("truth value of '" + s + "'");
    auto [ok, v] = utils::ParseAttributeString(sup::dto::BooleanType, s);
    Check(ok, "it parses");
    Check(v.As<bool>() == TrueWord(s), "its value");
  }
  for (auto& t : Types())
    for (auto& s : kValues)
    {
      Case(std::string("'") + s + "' as " + t.n);
      auto [ok, v] = utils::ParseAttributeString(t.t, s);
      Check(ok == Parses(t, s), "whether it parses");
      if (ok) Check(v.GetType() == t.t, "the type of the value");
    }
}
int main(int argc, char** argv)
{
  return drv::Main(argc, argv, [] {
    int f = S().deep ? 12 : 1;
    Within(140, "validation", [&] {
      S().group = "literals";
      Words();
      S().group = "constraints";
      for (int i = 0; i < 1500 * f; ++i) Trees();
      S().group = "handlers";
      for (int i = 0; i < 1500 * f; ++i) Handlers();
      S().group = "instructions and variables";
      for (int i = 0; i < 700 * f; ++i) { Instructions(); Variables(); }
    });
  });
}
