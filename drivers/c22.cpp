// C22: indices of instructions, variables and descriptions against a tree of our own
#include "lib.h"
#include <sup/oac-tree/exceptions.h>
#include <sup/oac-tree/instruction_info.h>
#include <sup/oac-tree/instruction_info_utils.h>
#include <sup/oac-tree/instruction_map.h>
#include <sup/oac-tree/instruction_tree.h>
#include <sup/oac-tree/job_info.h>
#include <sup/oac-tree/job_info_utils.h>
#include <sup/oac-tree/job_map.h>
#include <sup/oac-tree/variable_info.h>
#include <sup/oac-tree/variable_map.h>
#include <sup/oac-tree/variable_utils.h>
#include <sup/oac-tree/workspace_info.h>
#include <algorithm>
using namespace lib;
using IV = std::vector<const Instruction*>;

struct Node
{
  const Instruction* i = nullptr;
  std::vector<int> kids;
};
struct Shape
{
  std::vector<Node> n;
  std::unique_ptr<Instruction> root;
  std::string text;
};
// a random tree of compounds, decorators and actions
static std::unique_ptr<Instruction> Grow(Shape& s, int depth, int& budget, int me)
{
  int kind = (budget <= 0 || depth == 0) ? 0 : static_cast<int>(Rnd(4));
  if (kind == 0)
  {
    auto k = std::make_unique<Kid>(me);
    s.n[me].i = k.get();
    s.text += ".";
    return k;
  }
  bool deco = kind == 1;
  auto r = Make(deco ? "Inverter" : (Rnd(2) ? "Sequence" : "Fallback"));
  s.n[me].i = r.get();
  int n = deco ? static_cast<int>(Rnd(2)) : static_cast<int>(Rnd(5));
  s.text += deco ? "<" : "(";
  for (int j = 0; j < n; ++j)
  {
    int k = static_cast<int>(s.n.size());
    s.n.push_back({});
    s.n[me].kids.push_back(k);
    --budget;
    r->InsertInstruction(Grow(s, depth - 1, budget, k), j);
  }
  s.text += deco ? ">" : ")";
  return r;
}
static Shape RandomShape()
{
  Shape s;
  s.n.push_back({});
  int budget = static_cast<int>(Rnd(14));
  s.root = Grow(s, 1 + static_cast<int>(Rnd(5)), budget, 0);
  return s;
}
static void Order(const Shape& s, IV& bfs, IV& leaves)
{
  std::deque<int> q{0};
  while (!q.empty())
  {
    int x = q.front();
    q.pop_front();
    bfs.push_back(s.n[x].i);
    if (s.n[x].kids.empty()) leaves.push_back(s.n[x].i);
    for (int k : s.n[x].kids) q.push_back(k);
  }
}
static std::string Ids(const IV& v, const IV& all)
{
  std::string o = "{";
  for (auto p : v)
  {
    auto it = std::find(all.begin(), all.end(), p);
    o += (o.size() > 1 ? " " : "") + (it == all.end() ? std::string(p ? "?" : "null") : std::to_string(it - all.begin()));
  }
  return o + "}";
}
static void SameList(const IV& got, const IV& want, const IV& all, const std::string& what)
{
  Check(got == want, what + ": got " + Ids(got, all) + ", expected " + Ids(want, all));
}
template <typename F>
static bool Throws(F f)
{
  try { f(); }
  catch (const InvalidOperationException&) { return true; }
  return false;
}

static void Instructions(int rounds)
{
  S().group = "instruction trees";
  for (int r = 0; r < rounds; ++r)
  {
    Shape s = RandomShape();
    Case(s.text);
    IV bfs, leaves;
    Order(s, bfs, leaves);
    {
      auto t = CreateFullInstructionTree(s.root.get());
      Check(!t.IsEmpty(), "a full tree is not empty");
      Check(t.GetInstruction() == s.root.get(), "the tree starts at the root");
      SameList(FlattenBFS(t), bfs, bfs, "breadth-first list");
      SameList(GetLeaves(t), leaves, bfs, "leaves");
      IV kids;
      for (int k : s.n[0].kids) kids.push_back(s.n[k].i);
      SameList(t.GetChildInstructions(), kids, bfs, "children of the root");
      Equal(t.GetChildren().size(), kids.size(), "number of child nodes");
    }
    InstructionMap m{s.root.get()};
    Equal(m.GetNumberOfInstructions(), bfs.size(), "number of instructions");
    for (size_t i = 0; i < bfs.size(); ++i) Equal(m.FindInstructionIndex(bfs[i]), i, "index of an instruction");
    Equal(m.GetInstructionIndexMap().size(), bfs.size(), "size of the map");
    for (auto& e : m.GetInstructionIndexMap())
      Check(e.second < bfs.size() && bfs[e.second] == e.first, "an entry of the map is an instruction with its index");
    SameList(GetReverseMap(m.GetInstructionIndexMap()), bfs, bfs, "inverse map");
    Kid stranger{99};
    Check(Throws([&] { m.FindInstructionIndex(&stranger); }), "an unknown instruction is an error");
    Check(Throws([&] { m.FindInstructionIndex(nullptr); }), "no instruction is an error");
    auto info = utils::CreateInstructionInfoTree(*s.root, m);
    auto ordered = utils::CreateOrderedInstructionInfo(*info);
    Equal(ordered.size(), bfs.size(), "number of ordered descriptions");
    for (size_t i = 0; i < ordered.size() && i < bfs.size(); ++i)
    {
      Equal(ordered[i]->GetIndex(), i, "index of an ordered description");
      Equal(ordered[i]->GetType(), bfs[i]->GetType(), "type of an ordered description");
      Equal(ordered[i]->Children().size(), bfs[i]->ChildInstructions().size(), "children of an ordered description");
    }
    auto copy = utils::ToInstructionInfoTree(utils::ToAnyValueTree(*info));
    Check(*copy == *info, "a description survives its representation as a value");
    auto all = Flatten(*info);
    std::set<const InstructionInfo*> once(all.begin(), all.end());
    Check(once.size() == bfs.size() && all.size() == bfs.size(), "every description is listed once");
  }
  Case("no root");
  InstructionMap none{nullptr};
  Equal(none.GetNumberOfInstructions(), 0u, "no root, no instructions");
  Check(Throws([&] { none.FindInstructionIndex(nullptr); }), "no root: nothing is known");
  Check(Throws([&] { CreateFullInstructionTree(nullptr); }), "no tree without a root");
}

static void Next()
{
  S().group = "next instructions";
  // leaves of the next tree are what would run at the next tick
  for (const char* type : {"Sequence", "Fallback", "ReactiveSequence", "ReactiveFallback"})
  {
    Case(type);
    Tree t{type, 3};
    Procedure p; t.root->Setup(p);
    SameList(GetLeaves(CreateNextInstructionTree(t.root.get())), {t.kids[0]}, {t.kids[0], t.kids[1], t.kids[2]}, "next leaf");
  }
  Case("ParallelSequence");
  Tree t{"ParallelSequence", 3};
  Procedure p; t.root->Setup(p);
  SameList(GetLeaves(CreateNextInstructionTree(t.root.get())), {t.kids[0], t.kids[1], t.kids[2]}, {t.kids[0], t.kids[1], t.kids[2]}, "next leaves");
}

static void Reverse(int rounds)
{
  S().group = "inverse map";
  std::vector<std::unique_ptr<Kid>> k;
  IV all;
  for (int i = 0; i < 8; ++i)
  {
    k.push_back(std::make_unique<Kid>(i));
    all.push_back(k.back().get());
  }
  for (int r = 0; r < rounds; ++r)
  {
    size_t n = Rnd(7);
    std::vector<unsigned> idx(n);
    for (size_t i = 0; i < n; ++i) idx[i] = i;
    std::shuffle(idx.begin(), idx.end(), S().rng);
    if (n && Rnd(2)) idx[Rnd(n)] = Rnd(8) ? Rnd(n + 2) : 4000000000u;
    InstructionMap::InstructionIndexMap m;
    std::string t;
    for (size_t i = 0; i < n; ++i) m[all[i]] = idx[i], t += std::to_string(idx[i]) + " ";
    Case(t);
    std::set<unsigned> s(idx.begin(), idx.end());
    bool good = s.size() == n && (n == 0 || *s.rbegin() == n - 1);
    IV got;
    bool threw = Throws([&] { got = GetReverseMap(m); });
    Equal(threw, !good, "fails exactly when indices repeat or are out of range");
    if (threw || !good) continue;
    IV want(n);
    for (size_t i = 0; i < n; ++i) want[idx[i]] = all[i];
    SameList(got, want, all, "inverse map");
  }
}

static void Infos(int rounds)
{
  S().group = "indexed descriptions";
  for (int r = 0; r < rounds; ++r)
  {
    size_t n = 1 + Rnd(7);
    std::vector<unsigned> idx(n);
    for (size_t i = 0; i < n; ++i) idx[i] = i;
    std::shuffle(idx.begin(), idx.end(), S().rng);
    if (Rnd(2)) idx[Rnd(n)] = Rnd(8) ? Rnd(n + 2) : 4294967295u;
    std::string t;
    for (auto i : idx) t += std::to_string(i) + " ";
    std::vector<InstructionInfo*> nodes;
    auto node = [&](size_t i) { return std::make_unique<InstructionInfo>("T" + std::to_string(i), Instruction::kCompound, idx[i], std::vector<AttributeInfo>{}); };
    auto root = node(0);
    nodes.push_back(root.get());
    for (size_t i = 1; i < n; ++i)
    {
      size_t p = Rnd(i);
      t += "^" + std::to_string(p);
      nodes.push_back(nodes[p]->AppendChild(node(i)));
    }
    Case(t);
    std::set<unsigned> s(idx.begin(), idx.end());
    bool good = s.size() == n && *s.rbegin() == n - 1;
    std::vector<const InstructionInfo*> got;
    bool threw = Throws([&] { got = utils::CreateOrderedInstructionInfo(*root); });
    Equal(threw, !good, "fails exactly when indices repeat or are out of range");
    Equal(Throws([&] { ValidateInstructionInfoTree(*root); }), !good, "validation fails exactly when indices repeat or are out of range");
    auto av = utils::ToAnyValueTree(*root);
    Equal(Throws([&] { utils::ToInstructionInfoTree(av); }), !good, "reading fails exactly when indices repeat or are out of range");
    if (!threw && good)
    {
      Equal(got.size(), n, "number of ordered descriptions");
      for (size_t i = 0; i < n && i < got.size(); ++i) Check(got[idx[i]] == nodes[i], "a description is at its index");
    }
    Equal(Flatten(*root).size(), n, "number of listed descriptions");
  }
}

static void Variables(int rounds)
{
  S().group = "variables";
  for (int r = 0; r < rounds; ++r)
  {
    Procedure p;
    std::set<std::string> names;
    std::string t;
    size_t n = Rnd(8);
    for (size_t i = 0; i < n; ++i)
    {
      std::string nm(1 + Rnd(3), static_cast<char>('a' + Rnd(3)));
      if (!names.insert(nm).second) continue;
      t += nm + " ";
      p.AddVariable(nm, LocalVar(R"({"type":"uint32"})"));
    }
    Case(t);
    auto list = p.GetWorkspace().VariableNames();
    VariableMap m{p.GetWorkspace()};
    JobMap jm{p};
    Equal(m.GetNumberOfVariables(), names.size(), "number of variables");
    Equal(jm.GetNumberOfVariables(), names.size(), "number of variables of the job");
    std::set<unsigned> used;
    for (auto& nm : names)
    {
      auto i = m.FindVariableIndex(nm);
      Check(i < names.size() && used.insert(i).second, "each variable has its own index below their number");
      Check(i < list.size() && list[i] == nm, "the index is the place in the list of names");
      Equal(jm.GetVariableIndex(nm), i, "index in the job");
    }
    Check(Throws([&] { m.FindVariableIndex("unknown"); }), "an unknown variable is an error");
    Check(Throws([&] { jm.GetVariableIndex("unknown"); }), "an unknown variable is an error for the job");
    Check(Throws([&] { jm.GetInstructionIndex(nullptr); }), "no instruction map yet: error");
    Check(Throws([&] { jm.GetInstructionMap(); }), "no instruction map yet: error for the map");
    Check(Throws([&] { jm.GetOrderedInstructions(); }), "no instruction map yet: error for the list");
    Equal(jm.GetNumberOfInstructions(), 0u, "no instruction map yet: no instructions");
    Shape s = RandomShape();
    IV bfs, leaves;
    Order(s, bfs, leaves);
    jm.InitializeInstructionTree(s.root.get());
    Equal(jm.GetNumberOfInstructions(), bfs.size(), "number of instructions of the job");
    SameList(jm.GetOrderedInstructions(), bfs, bfs, "ordered instructions of the job");
    for (size_t i = 0; i < bfs.size(); ++i) Equal(jm.GetInstructionIndex(bfs[i]), i, "index of an instruction of the job");
    Shape s2 = RandomShape();
    IV bfs2, leaves2;
    Order(s2, bfs2, leaves2);
    jm.InitializeInstructionTree(s2.root.get());
    SameList(jm.GetOrderedInstructions(), bfs2, bfs2, "ordered instructions after a new root");
    Check(Throws([&] { jm.GetInstructionIndex(bfs[0]); }), "the old root is unknown");
    jm.InitializeInstructionTree(nullptr);
    Equal(jm.GetNumberOfInstructions(), 0u, "no root, no instructions");
    auto info = utils::CreateWorkspaceInfo(p.GetWorkspace());
    Equal(info.GetNumberOfVariables(), names.size(), "described variables");
    unsigned k = 0;
    for (auto& v : info.GetVariableInfos())
    {
      Equal(v.second.GetIndex(), k++, "a described variable is at its index");
      Equal(v.second.GetIndex(), m.FindVariableIndex(v.first), "the described index is the index of the map");
    }
  }
  S().group = "variable descriptions";
  for (int r = 0; r < rounds; ++r)
  {
    WorkspaceInfo w;
    std::vector<std::string> have;
    std::string t;
    for (int j = 0; j < 6; ++j)
    {
      std::string nm(1 + Rnd(2), static_cast<char>('a' + Rnd(3)));
      unsigned idx = Rnd(4) ? have.size() : Rnd(5);
      t += nm + std::to_string(idx) + " ";
      Case(t);
      bool good = idx == have.size() && std::find(have.begin(), have.end(), nm) == have.end();
      Equal(Throws([&] { w.AddVariableInfo(nm, VariableInfo("Local", idx, {})); }), !good, "refuses a known name or a wrong index");
      if (good) have.push_back(nm);
      Equal(w.GetNumberOfVariables(), have.size(), "number of described variables");
      for (size_t i = 0; i < have.size() && i < w.GetVariableInfos().size(); ++i)
      {
        Equal(w.GetVariableInfos()[i].first, have[i], "name of a described variable");
        Equal(w.GetVariableInfos()[i].second.GetIndex(), i, "index of a described variable");
      }
    }
  }
}

int main(int argc, char** argv)
{
  return drv::Main(argc, argv, [] {
    int k = S().deep ? 10 : 1;
    Instructions(400 * k);
    Next();
    Reverse(800 * k);
    Infos(600 * k);
    Variables(150 * k);
  });
}
