// C13: histories of insertions, removals and setups against a list
#include "lib.h"
#include <climits>
using namespace lib;

static int g_gone;
static std::unique_ptr<Kid> New(int id)
{
  auto k = std::make_unique<Kid>(id);
  k->gone = [] { ++g_gone; };
  return k;
}
static int Id(const Instruction* i)
{
  auto k = dynamic_cast<const Kid*>(i);
  return k ? k->id : -1;
}
static std::vector<int> Ids(const std::vector<const Instruction*>& v)
{
  std::vector<int> o;
  for (auto i : v) o.push_back(Id(i));
  return o;
}
static int Index(int n)
{
  static const int odd[] = {-1, -2, INT_MIN, INT_MAX, INT_MIN + 1, -1000, 1000, 65536};
  return Rnd(5) == 0 ? odd[Rnd(8)] : int(Rnd(n + 3)) - 1;
}

static void Run(const std::string& type, int steps)
{
  int created = 0;
  g_gone = 0;
  std::vector<int> model;
  size_t replaced = 0;
  std::vector<std::unique_ptr<Instruction>> taken;
  {
    Procedure proc, other;
    bool p = type == "Procedure";
    auto root = p ? nullptr : Make(type);
    bool deco = root && root->GetCategory() == Instruction::kDecorator;
    const Instruction* croot = root.get();
    std::string text = type + ": ";
    for (int j = 0; j < steps && !S().fails; ++j)
    {
      int op = int(Rnd(10)), i = Index(int(model.size()));
      if (op < 5)
      {
        text += "insert at " + std::to_string(i) + "; ";
        Case(text);
        auto k = New(created++);
        int id = k->id;
        std::unique_ptr<Instruction> u = std::move(k);
        bool ok = p ? proc.InsertInstruction(std::move(u), i) : root->InsertInstruction(std::move(u), i);
        bool want = i >= 0 && i <= (deco ? 0 : int(model.size()));
        Equal(ok, want, "accepted");
        if (ok && deco)
        {
          if (!model.empty()) ++replaced;
          model = {id};
        }
        else if (ok) model.insert(model.begin() + i, id);
        u.reset();
      }
      else if (op < 8)
      {
        text += "take " + std::to_string(i) + "; ";
        Case(text);
        auto u = p ? proc.TakeInstruction(i) : root->TakeInstruction(i);
        bool want = i >= 0 && i < int(model.size());
        Equal(bool(u), want, "something taken");
        if (u && want)
        {
          Equal(Id(u.get()), model[size_t(i)], "instruction taken");
          model.erase(model.begin() + i);
        }
        if (u) taken.push_back(std::move(u));
      }
      else if (op == 8 && p)
      {
        text += "push; ";
        Case(text);
        model.push_back(created);
        proc.PushInstruction(New(created++));
      }
      else
      {
        text += "setup; ";
        Case(text);
        try { if (p) proc.Setup(); else root->Setup(other); } catch (const std::exception&) { }
      }
      auto got = Ids(p ? proc.GetTopInstructions() : croot->ChildInstructions());
      Same(got, model, "children");
      Equal(p ? proc.GetInstructionCount() : root->ChildrenCount(), int(model.size()), "number of children");
    }
    Equal(size_t(created) - size_t(g_gone) >= model.size() + taken.size(), true, "children still alive");
  }
  Equal(size_t(g_gone), size_t(created) - taken.size(), "children destroyed with their parent");
}

int main(int argc, char** argv)
{
  return drv::Main(argc, argv, [] {
    for (const char* t : {"Procedure", "Sequence", "Fallback", "ReactiveSequence", "ReactiveFallback", "ParallelSequence", "Choice", "UserChoice",
                          "Inverter", "ForceSuccess", "Repeat", "Async", "For", "Listen", "Include"})
    {
      S().group = t;
      bool any = false;
      for (auto& n : GlobalInstructionRegistry().RegisteredInstructionNames()) any = any || n == t;
      if (!any && S().group != "Procedure") { Fail("unknown instruction type"); continue; }
      for (int i = 0; i < (S().deep ? 1500 : 250) && !S().fails; ++i) Run(t, 1 + int(Rnd(24)));
    }
  });
}
