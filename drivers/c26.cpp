// C26: registries against a plain map
#include "lib.h"
#include <sup/oac-tree/exceptions.h>
using namespace lib;

static int g_made = -1;
template <int K>
struct Ins : Instruction
{
  Ins() : Instruction("I" + std::to_string(K)) {}
  ES ExecuteSingleImpl(UserInterface&, Workspace&) override { return ES::SUCCESS; }
};
template <int K>
struct Val : Variable
{
  Val() : Variable("V" + std::to_string(K)) {}
  bool GetValueImpl(sup::dto::AnyValue&) const override { return false; }
  bool SetValueImpl(const sup::dto::AnyValue&) override { return false; }
};
template <int K> Instruction* MakeI() { g_made = K; return new Ins<K>; }
template <int K> Variable* MakeV() { g_made = K; return new Val<K>; }
struct TypedI : Instruction
{
  static const std::string Type;
  TypedI() : Instruction(Type) {}
  ES ExecuteSingleImpl(UserInterface&, Workspace&) override { return ES::SUCCESS; }
};
struct TypedV : Variable
{
  static const std::string Type;
  TypedV() : Variable(Type) {}
  bool GetValueImpl(sup::dto::AnyValue&) const override { return false; }
  bool SetValueImpl(const sup::dto::AnyValue&) override { return false; }
};
const std::string TypedI::Type = "typed";
const std::string TypedV::Type = "typed";

template <typename R> struct T;
template <> struct T<InstructionRegistry>
{
  using C = InstructionRegistry::InstructionConstructor;
  static C Make(int k) { static const C all[] = {MakeI<0>, MakeI<1>, MakeI<2>, MakeI<3>, MakeI<4>, MakeI<5>}; return all[k]; }
  static bool Reg(InstructionRegistry& r, const std::string& n, C c) { return r.RegisterInstruction(n, c); }
  static std::vector<std::string> Names(const InstructionRegistry& r) { return r.RegisteredInstructionNames(); }
  static bool Has(const InstructionRegistry& r, const std::string& n) { return r.IsRegisteredInstructionName(n); }
  static bool Typed(InstructionRegistry& r) { return RegisterInstruction<TypedI>(r); }
  static const char* Letter() { return "I"; }
};
template <> struct T<VariableRegistry>
{
  using C = VariableRegistry::VariableConstructor;
  static C Make(int k) { static const C all[] = {MakeV<0>, MakeV<1>, MakeV<2>, MakeV<3>, MakeV<4>, MakeV<5>}; return all[k]; }
  static bool Reg(VariableRegistry& r, const std::string& n, C c) { return r.RegisterVariable(n, c); }
  static std::vector<std::string> Names(const VariableRegistry& r) { return r.RegisteredVariableNames(); }
  static bool Has(const VariableRegistry& r, const std::string& n) { return r.IsRegisteredVariableName(n); }
  static bool Typed(VariableRegistry& r) { return RegisterVariable<TypedV>(r); }
  static const char* Letter() { return "V"; }
};

static std::string Word()
{
  static const std::vector<std::string> base = {"", "a", "b", "ab", "abc", "A", "aB", "typed", "typed ", "Sequence", "a b", "z", "\xc3\xa9", std::string("a\0b", 3)};
  if (Rnd(4)) return base[Rnd(base.size())];
  std::string s;
  for (size_t i = Rnd(5); i-- > 0;) s += char('a' + Rnd(3));
  return s;
}

template <typename R>
static void Random(const std::string& group)
{
  S().group = group;
  for (int round = 0; round < (S().deep ? 6000 : 800); ++round)
  {
    R reg;
    std::map<std::string, int> model;
    std::string text;
    int steps = 1 + Rnd(14);
    for (int s = 0; s < steps; ++s)
    {
      std::string n = Word();
      auto ask = [&] {
        auto names = T<R>::Names(reg);
        std::vector<std::string> want;
        for (auto& m : model) want.push_back(m.first);
        std::sort(names.begin(), names.end());
        Check(names == want, "the list of names is exactly the registered ones");
        Equal(T<R>::Has(reg, n), model.count(n) > 0, "says whether \"" + n + "\" is registered");
      };
      auto make = [&](const std::string& w) {
        g_made = -1;
        std::string type;
        bool thrown = false;
        try
        {
          auto x = reg.Create(w);
          type = x ? x->GetType() : "null";
        }
        catch (const InvalidOperationException&) { thrown = true; }
        Equal(thrown, model.count(w) == 0, "creating \"" + w + "\" is an error");
        if (!thrown && model.count(w))
        {
          int k = model[w];
          Equal(type, k < 0 ? std::string("typed") : T<R>::Letter() + std::to_string(k), "type created for \"" + w + "\"");
          Equal(g_made, k, "constructor used for \"" + w + "\"");
        }
      };
      switch (Rnd(6))
      {
      case 0: case 1: case 2:
      {
        int k = Rnd(6);
        text += " register(" + n + "," + std::to_string(k) + ")";
        Case(text);
        bool thrown = false, ok = false;
        try { ok = T<R>::Reg(reg, n, T<R>::Make(k)); }
        catch (const InvalidOperationException&) { thrown = true; }
        Equal(thrown, model.count(n) > 0, "a second registration is an error");
        if (!thrown) Check(ok, "registration reports success");
        model.emplace(n, k);
        break;
      }
      case 3:
      {
        text += " registerType";
        Case(text);
        bool thrown = false;
        try { (void)T<R>::Typed(reg); }
        catch (const InvalidOperationException&) { thrown = true; }
        Equal(thrown, model.count("typed") > 0, "a second registration is an error");
        model.emplace("typed", -1);
        break;
      }
      default:
        text += " create(" + n + ")";
        Case(text);
        make(n);
      }
      ask();
      for (auto& m : model) if (!Rnd(3)) make(m.first);
    }
    for (auto& m : model)
    {
      g_made = -1;
      try { (void)reg.Create(m.first); }
      catch (const std::exception&) { Fail("\"" + m.first + "\" can no longer be created"); }
      Equal(g_made, m.second, "constructor used for \"" + m.first + "\" at the end");
    }
  }
}

static void Global()
{
  S().group = "built-in types";
  const std::set<std::string> ins = {
    "Choice", "Fallback", "ParallelSequence", "ReactiveFallback", "ReactiveSequence", "Sequence", "UserChoice", "Async", "For",
    "ForceSuccess", "Include", "IncludeProcedure", "Inverter", "Listen", "Repeat", "AddElement", "AddMember", "Condition",
    "CopyFromProcedure", "CopyToProcedure", "Copy", "Decrement", "Equals", "Fail", "GreaterThan", "GreaterThanOrEqual",
    "Increment", "Input", "LessThan", "LessThanOrEqual", "Log", "Message", "Output", "ResetVariable", "Succeed",
    "UserConfirmation", "VarExists", "Wait", "WaitForVariable", "WaitForVariables"};
  const std::set<std::string> vars = {"Local", "File"};
  auto& ir = GlobalInstructionRegistry();
  auto& vr = GlobalVariableRegistry();
  Check(&ir == &GlobalInstructionRegistry() && &vr == &GlobalVariableRegistry(), "there is one global registry");
  for (auto& n : ins)
  {
    Case(n);
    if (!Check(ir.IsRegisteredInstructionName(n), "is registered")) continue;
    auto i = ir.Create(n);
    Equal(i->GetType(), n, "its type");
    Check(ir.Create(n) != i, "each creation makes a new object");
  }
  for (auto& n : vars)
  {
    Case(n);
    if (!Check(vr.IsRegisteredVariableName(n), "is registered")) continue;
    Equal(vr.Create(n)->GetType(), n, "its type");
  }
  for (auto& n : ir.RegisteredInstructionNames()) { Case(n); Equal(ir.Create(n)->GetType(), n, "its type"); }
  for (auto& n : vr.RegisteredVariableNames()) { Case(n); Equal(vr.Create(n)->GetType(), n, "its type"); }
}

int main(int argc, char** argv)
{
  return drv::Main(argc, argv, [] {
    Random<InstructionRegistry>("instruction registry");
    Random<VariableRegistry>("variable registry");
    Global();
  });
}
