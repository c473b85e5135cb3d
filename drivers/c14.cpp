// C14: attribute lists against a plain list of our own
#include "lib.h"
#include <sup/oac-tree/attribute_handler.h>
#include <sup/oac-tree/exceptions.h>
#include <sup/oac-tree/instructions/instruction_helper.h>
#include <algorithm>
using namespace lib;
using List = StringAttributeList;

static std::string Show(const List& l)
{
  std::string o = "{";
  for (auto& [n, v] : l) o += (o.size() > 1 ? ", " : "") + n + "=" + v;
  return o + "}";
}
static long Find(const List& l, const std::string& n)
{
  for (size_t i = 0; i < l.size(); ++i) if (l[i].first == n) return static_cast<long>(i);
  return -1;
}
static std::string Name()
{
  static const std::vector<std::string> n = {"a", "b", "A", "ab", "", "name", "isRoot", "x y", "varName", "$a", "@b", "type"};
  return n[Rnd(n.size())];
}
static std::string Value()
{
  static const std::vector<std::string> v = {"", "1", "true", "$", "$a", "$b", "$ab", "$name", "$missing", "@a", "a$b", "$$a", " $a", "text", "$A", "$x y"};
  return v[Rnd(v.size())];
}
static List Some(size_t n)
{
  List l;
  for (size_t i = 0; i < n; ++i) l.push_back({Name(), Value()});
  return l;
}
static List Distinct(size_t n)
{
  List l;
  for (auto& e : Some(n)) if (Find(l, e.first) < 0) l.push_back(e);
  return l;
}
static void Same(const List& got, const List& want, const std::string& what)
{
  Check(got == want, what + ": got " + Show(got) + ", expected " + Show(want));
}
static bool Add(List& l, const std::string& n, const std::string& v)
{
  if (Find(l, n) >= 0) return false;
  l.push_back({n, v});
  return true;
}
static bool Fill(List& l, const List& src)
{
  bool all = true;
  for (auto& [n, v] : l)
    if (!v.empty() && v[0] == '$')
    {
      long k = Find(src, v.substr(1));
      if (k < 0) all = false;
      else v = src[static_cast<size_t>(k)].second;
    }
  return all;
}
static void Handler()
{
  AttributeHandler h;
  List m;
  size_t n = 1 + Rnd(14);
  std::string t = "handler operations";
  Case(t);
  for (size_t i = 0; i < n; ++i)
  {
    auto name = Name(), value = Value();
    switch (Rnd(4))
    {
    case 0:
    {
      S().text = (t += " add " + name + "=" + value);
      bool w = Add(m, name, value);
      Check(h.AddStringAttribute(name, value) == w, "adding " + name + (w ? " is accepted" : " is refused"));
      break;
    }
    case 1:
    {
      S().text = (t += " set " + name + "=" + value);
      long k = Find(m, name);
      if (k < 0) m.push_back({name, value});
      else m[static_cast<size_t>(k)].second = value;
      h.SetStringAttribute(name, value);
      break;
    }
    case 2:
    {
      S().text = (t += " ask " + name);
      long k = Find(m, name);
      Check(h.HasStringAttribute(name) == (k >= 0), "HasStringAttribute(" + name + ")");
      std::string want = k < 0 ? "" : m[static_cast<size_t>(k)].second;
      Equal(GetStringAttributeValue(h.GetStringAttributes(), name), want, "the value of " + name);
      sup::dto::AnyValue v;
      bool ok = h.GetValue(name, v);
      Check(ok == (k >= 0), "GetValue(" + name + ") answers whether there is one");
      if (ok && k >= 0) Equal(v.As<std::string>(), want, "GetValue(" + name + ")");
      auto it = FindStringAttribute(h.GetStringAttributes(), name);
      long at = it == h.GetStringAttributes().end() ? -1 : it - h.GetStringAttributes().begin();
      Equal(at, k, "FindStringAttribute(" + name + ")");
      break;
    }
    default:
    {
      auto src = Some(Rnd(6));
      S().text = (t += " fill from " + Show(src));
      bool w = Fill(m, src);
      Check(InstructionHelper::InitialisePlaceholderAttributes(h, src) == w, w ? "all placeholders are found" : "a missing source is reported");
    }
    }
    Same(h.GetStringAttributes(), m, "the attributes");
  }
}
template <typename T> void Carrier(T& x, const std::string& what, const std::function<bool(const std::string&, const std::string&)>& set)
{
  List m;
  std::string t = what;
  Case(t);
  for (size_t i = 0; i < 1 + Rnd(9); ++i)
  {
    auto name = Name(), value = Value();
    switch (Rnd(4))
    {
    case 0:
    {
      S().text = (t += " add " + name + "=" + value);
      bool w = Add(m, name, value);
      Check(x.AddAttribute(name, value) == w, "adding " + name + (w ? " is accepted" : " is refused"));
      break;
    }
    case 1:
    {
      auto l = Some(Rnd(6));
      S().text = (t += " add all of " + Show(l));
      bool w = true;
      for (auto& e : l) w = Add(m, e.first, e.second) && w;
      Check(x.AddAttributes(l) == w, w ? "adding new attributes is accepted" : "a refused attribute is reported");
      break;
    }
    case 2:
      if (set)
      {
        S().text = (t += " set " + name + "=" + value);
        long k = Find(m, name);
        if (k >= 0) m[static_cast<size_t>(k)].second = value;
        Check(set(name, value) == (k >= 0), "setting " + name + (k < 0 ? ", which is absent, is refused" : " is accepted"));
      }
      break;
    default:
    {
      long k = Find(m, name);
      Check(x.HasAttribute(name) == (k >= 0), "HasAttribute(" + name + ")");
      Equal(x.GetAttributeString(name), k < 0 ? std::string() : m[static_cast<size_t>(k)].second, "GetAttributeString(" + name + ")");
    }
    }
    if constexpr (!std::is_same_v<T, Procedure>) Same(x.GetStringAttributes(), m, "the attributes");
  }
}
class PostKid : public Kid
{
public:
  using Kid::Kid;
  bool post_ok = true;
  int posts = 0;
  bool PostInitialiseVariables(const StringAttributeList&) override { ++posts; return post_ok; }
};
static void WholeTree()
{
  auto src = Some(Rnd(6));
  auto root = Make("Sequence");
  std::vector<Instruction*> all{root.get()};
  std::vector<Instruction*> hold{root.get()};
  std::vector<PostKid*> posts;
  size_t n = Rnd(7);
  for (size_t i = 0; i < n; ++i)
  {
    Instruction* p = hold[Rnd(hold.size())];
    std::unique_ptr<Instruction> k;
    if (Rnd(3) == 0) k = Make("Fallback");
    else
    {
      auto q = std::make_unique<PostKid>(static_cast<int>(i));
      q->post_ok = Rnd(6) != 0;
      posts.push_back(q.get());
      k = std::move(q);
    }
    Instruction* raw = k.get();
    all.push_back(raw);
    bool compound = raw->GetType() != "Kid";
    p->InsertInstruction(std::move(k), p->ChildrenCount());
    if (compound) hold.push_back(raw);
  }
  std::vector<List> want;
  bool ok = true;
  std::string t = "tree of " + std::to_string(all.size()) + " filled from " + Show(src);
  for (auto i : all)
  {
    auto l = Distinct(Rnd(5));
    i->AddAttributes(l);
    t += " " + Show(l);
    bool mine = Fill(l, src);
    ok = ok && mine;
    for (auto p : posts) if (p == i && mine) ok = ok && p->post_ok;
    want.push_back(l);
  }
  Case(t);
  bool got = InstructionHelper::InitialisePlaceholderAttributes(*root, src);
  Check(got == ok, ok ? "all placeholders are found" : "something missing is reported");
  for (size_t i = 0; i < all.size(); ++i) Same(all[i]->GetStringAttributes(), want[i], "the attributes of instruction " + std::to_string(i));
}
class DefKid : public Kid
{
public:
  using Kid::Kid;
  AttributeDefinition& Def(const std::string& n) { return AddAttributeDefinition(n); }
};
static void Definitions()
{
  AttributeHandler h;
  std::vector<std::string> m;
  std::string t = "definitions";
  Case(t);
  for (size_t i = 0; i < 1 + Rnd(8); ++i)
  {
    auto n = Name();
    S().text = (t += " " + n);
    bool known = std::find(m.begin(), m.end(), n) != m.end(), thrown = false;
    bool str = Rnd(2) != 0;
    try
    {
      auto& d = h.AddAttributeDefinition(n, str ? sup::dto::StringType : sup::dto::Float64Type);
      Equal(d.GetName(), n, "the name of the new definition");
      Check(d.GetType() == (str ? sup::dto::StringType : sup::dto::Float64Type), "the type of the new definition");
      Check(!d.IsMandatory() && d.GetCategory() == AttributeCategory::kLiteral, "a new definition is an optional literal");
    }
    catch (const InvalidOperationException&) { thrown = true; }
    Check(thrown == known, "a definition of " + n + (known ? " again is refused" : " is accepted"));
    if (!known) m.push_back(n);
    auto& l = h.GetAttributeDefinitions();
    Equal(l.size(), m.size(), "the number of definitions");
    for (size_t j = 0; j < m.size() && j < l.size(); ++j) Equal(l[j].GetName(), m[j], "definition number " + std::to_string(j));
  }
}
int main(int argc, char** argv)
{
  return drv::Main(argc, argv, [] {
    int f = S().deep ? 12 : 1;
    Within(140, "attributes", [&] {
      S().group = "handler";
      for (int i = 0; i < 2500 * f; ++i) Handler();
      S().group = "carriers";
      for (int i = 0; i < 500 * f; ++i)
      {
        Kid k;
        Carrier(k, "instruction", [&](const std::string& n, const std::string& v) { return k.SetAttribute(n, v); });
        Var v;
        Carrier(v, "variable", {});
        Procedure p;
        Carrier(p, "procedure", {});
      }
      S().group = "whole trees";
      for (int i = 0; i < 600 * f; ++i) WholeTree();
      S().group = "definitions";
      for (int i = 0; i < 500 * f; ++i) Definitions();
    });
  });
}
