// C28: path lookup and cloning against independent models
#include "lib.h"
#include <sup/oac-tree/procedure_context.h>
#include <sup/oac-tree/instructions/instruction_helper.h>
#include <sup/oac-tree/instruction_utils.h>
using namespace lib;

static std::string Name()
{
  static const char* const n[] = {"a", "b", "", "a b", "ab", "A", "c/d", "a"};
  return n[Rnd(8)];
}
struct Model
{
  std::string type, name;
  const Instruction* node = nullptr;
  std::vector<std::pair<std::string, std::string>> attrs;
  std::vector<std::unique_ptr<Model>> kids;
};
static std::unique_ptr<Instruction> Build(Model& m, int depth, bool foreign, std::string& text)
{
  static const char* const comp[] = {"Sequence", "Fallback", "ParallelSequence"};
  static const char* const deco[] = {"Inverter", "Repeat", "ForceSuccess"};
  static const char* const leaf[] = {"Wait", "Succeed", "Message", "Copy"};
  int k = depth > 0 ? int(Rnd(6)) : 5;
  std::unique_ptr<Instruction> i;
  int n = 0;
  if (k < 3) { i = Make(comp[k]); n = int(Rnd(4)); }
  else if (k == 3) { i = Make(deco[Rnd(3)]); n = int(Rnd(2)); }
  else if (foreign && Rnd(6) == 0) i = std::make_unique<Kid>(7);
  else i = Make(leaf[Rnd(4)]);
  m.type = i->GetType();
  m.name = Name();
  i->SetName(m.name);
  m.node = i.get();
  if (!m.name.empty() || true) m.attrs.push_back({"name", m.name});
  for (int a = int(Rnd(4)); a > 0; --a)
  {
    std::string an = "attr" + std::to_string(Rnd(5)), av = Rnd(4) ? "v" + std::to_string(Rnd(9)) : "";
    bool dup = false;
    for (auto& p : m.attrs) dup = dup || p.first == an;
    i->AddAttribute(an, av);
    if (!dup) m.attrs.push_back({an, av});
  }
  text += m.type + "'" + m.name + "'";
  if (n) text += "(";
  for (int c = 0; c < n; ++c)
  {
    auto km = std::make_unique<Model>();
    auto kid = Build(*km, depth - 1, foreign, text);
    if (!i->InsertInstruction(std::move(kid), c)) { Fail("cannot build the tree"); break; }
    m.kids.push_back(std::move(km));
  }
  if (n) text += ")";
  text += " ";
  return i;
}
static const Instruction* Lookup(const std::vector<const Model*>& level, const std::string& path)
{
  std::vector<std::string> parts;
  std::string cur;
  for (char ch : path)
  {
    if (ch == '.') { parts.push_back(cur); cur.clear(); }
    else cur += ch;
  }
  parts.push_back(cur);
  if (parts.size() > 1 && parts.back().empty()) parts.pop_back();      // "a." is "a"
  std::vector<const Model*> l = level;
  for (size_t i = 0; i < parts.size(); ++i)
  {
    const Model* hit = nullptr;
    for (auto m : l) if (m->name == parts[i]) { hit = m; break; }
    if (!hit) return nullptr;
    if (i + 1 == parts.size()) return hit->node;
    l.clear();
    for (auto& k : hit->kids) l.push_back(k.get());
  }
  return nullptr;
}
static bool Cloneable(const Model& m)
{
  if (m.type == "Kid") return false;
  for (auto& k : m.kids) if (!Cloneable(*k)) return false;
  return true;
}
static bool Attrs(const Instruction& i, const Model& m)
{
  auto a = i.GetStringAttributes();
  if (a.size() != m.attrs.size()) return false;
  for (size_t n = 0; n < a.size(); ++n) if (a[n].first != m.attrs[n].first || a[n].second != m.attrs[n].second) return false;
  return true;
}
static void Collect(const Instruction* i, std::set<const Instruction*>& s)
{
  s.insert(i);
  for (auto k : i->ChildInstructions()) Collect(k, s);
}
static void Compare(const Instruction& c, const Model& m, const std::string& where)
{
  Equal(c.GetType(), m.type, "the type of " + where);
  Equal(c.GetName(), m.name, "the name of " + where);
  Check(Attrs(c, m), "the attributes of " + where + ", in order");
  Status(c.GetStatus(), ES::NOT_STARTED, "the status of " + where);
  auto k = c.ChildInstructions();
  if (!Equal(k.size(), m.kids.size(), "how many children " + where + " has")) return;
  for (size_t i = 0; i < k.size(); ++i) Compare(*k[i], *m.kids[i], where + "/" + std::to_string(i));
}
static const Model* ModelOf(const Model& m, const Instruction* i)
{
  if (m.node == i) return &m;
  for (auto& k : m.kids) if (auto r = ModelOf(*k, i)) return r;
  return nullptr;
}
static void Once()
{
  bool foreign = Rnd(3) == 0;
  Procedure proc{"file.xml"};
  std::vector<std::unique_ptr<Model>> tops;
  std::vector<const Model*> level;
  std::string text;
  for (int n = int(Rnd(4)); n > 0; --n)
  {
    auto m = std::make_unique<Model>();
    proc.PushInstruction(Build(*m, 3, foreign, text));
    level.push_back(m.get());
    tops.push_back(std::move(m));
  }
  auto all = proc.GetTopInstructions();
  for (int q = 0; q < 12; ++q)
  {
    std::string path;
    // a path that mostly exists
    std::vector<const Model*> l = level;
    for (int d = 1 + int(Rnd(4)); d > 0; --d)
    {
      if (!path.empty() || Rnd(30) == 0) path += ".";
      if (!l.empty() && Rnd(6))
      {
        auto m = l[Rnd(l.size())];
        path += m->name;
        const Model* hit = nullptr;
        for (auto x : l) if (x->name == m->name) { hit = x; break; }
        l.clear();
        for (auto& k : hit->kids) l.push_back(k.get());
      }
      else path += Name();
    }
    if (Rnd(25) == 0) path += ".";
    Case("path '" + path + "' in " + text);
    auto want = Lookup(level, path);
    Check(InstructionHelper::FindInstruction(all, path) == want, "which instruction it finds");
    // and the clone of it
    auto root = proc.RootInstruction();
    auto from = path.empty() ? root : want;
    auto clone = proc.GetContext().CloneInstructionPath("file.xml", path);
    const Model* m = nullptr;
    for (auto& t : tops) if (!m && from) m = ModelOf(*t, from);
    bool should = m && Cloneable(*m);
    if (!Check((clone != nullptr) == should, should ? "it is cloned" : "there is nothing to clone")) continue;
    if (!clone) continue;
    Compare(*clone, *m, "the clone");
    std::set<const Instruction*> a, b;
    Collect(from, a);
    Collect(clone.get(), b);
    bool shared = false;
    for (auto x : b) shared = shared || a.count(x);
    Check(!shared && a.size() == b.size(), "no instruction is shared");
    clone.reset();
    Compare(*from, *m, "the original");
  }
}
int main(int argc, char** argv)
{
  return drv::Main(argc, argv, [] {
    int f = S().deep ? 10 : 1;
    Within(140, "paths and clones", [&] {
      S().group = "paths and clones";
      for (int i = 0; i < 500 * f; ++i) Once();
      S().group = "nothing";
      Case("clone of nothing");
      Check(InstructionHelper::CloneInstruction(nullptr) == nullptr, "gives nothing");
    });
  });
}
