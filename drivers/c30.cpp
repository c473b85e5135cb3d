// C30: random documents are parsed and compared with the document, saved and compared, parsed again and compared
#include "lib.h"
#include <sup/oac-tree/exceptions.h>
#include <sup/oac-tree/parser/instruction_parser.h>
#include <sup/oac-tree/parser/procedure_parser.h>
#include <sup/oac-tree/parser/procedure_to_treedata_utils.h>
#include <sup/oac-tree/parser/variable_parser.h>
#include <sup/oac-tree/procedure_preamble.h>
#include <sup/xml/tree_data.h>
using namespace lib;
using sup::xml::TreeData;
using Atts = std::vector<std::pair<std::string, std::string>>;

static std::string Show(const TreeData& d)
{
  std::string o = "<" + d.GetNodeName();
  for (auto& a : d.Attributes()) o += " " + a.first + "='" + a.second + "'";
  o += ">" + d.GetContent();
  for (auto& c : d.Children()) o += Show(c);
  return o + "</>";
}
static std::string Flat(const Instruction* i)
{
  std::string o = "<" + i->GetType();
  for (auto& a : i->GetStringAttributes()) o += " " + a.first + "='" + a.second + "'";
  o += ">";
  for (auto c : i->ChildInstructions()) o += Flat(c);
  return o + "</>";
}
static std::string Flat(const Variable* v)
{
  std::string o = "<" + v->GetType();
  for (auto& a : v->GetStringAttributes()) o += " " + a.first + "='" + a.second + "'";
  return o + "></>";
}
static Atts RandomAtts(const Atts& first = {})
{
  Atts r;
  std::set<std::string> used;
  static const char* names[] = {"description", "showCollapsed", "zz", "aa", "maxCount", "timeout", "extra", "value", "isRoot", "Name"};
  static const char* values[] = {"", "0", "x y", "<&>", "@v", "$p", "true", "1.5", " lead"};
  for (auto& a : first) used.insert(a.first);
  for (int n = int(Rnd(4)); n > 0; --n)
  {
    std::string k = names[Rnd(10)];
    if (used.insert(k).second) r.push_back({k, values[Rnd(9)]});
  }
  for (auto& a : first) r.insert(r.begin() + long(Rnd(r.size() + 1)), a);
  return r;
}
static void Put(TreeData& d, const Atts& a)
{
  for (auto& x : a) d.AddAttribute(x.first, x.second);
}
static TreeData Ins(int depth, int& budget)
{
  static const char* compound[] = {"Sequence", "Fallback", "ParallelSequence", "ReactiveSequence", "ReactiveFallback", "Choice", "UserChoice"};
  static const char* deco[] = {"Inverter", "ForceSuccess", "Repeat", "Async", "Listen"};
  static const char* leaf[] = {"Wait", "Succeed", "Fail", "Copy", "Message", "Equals", "Condition", "Increment"};
  --budget;
  int kind = depth <= 0 || budget <= 0 ? 2 : int(Rnd(3));
  TreeData d(kind == 0 ? compound[Rnd(7)] : kind == 1 ? deco[Rnd(5)] : leaf[Rnd(8)]);
  Put(d, Rnd(2) ? RandomAtts({{"name", std::string("n") + std::to_string(Rnd(3))}}) : RandomAtts());
  int n = kind == 0 ? int(Rnd(4)) : kind == 1 ? int(Rnd(2)) : 0;
  for (int i = 0; i < n; ++i) d.AddChild(Ins(depth - 1, budget));
  return d;
}
struct Doc
{
  TreeData d{"Procedure"};
  Atts atts;
  std::vector<TreeData> ins, vars, regs, plugs;
};
static TreeData Reg(bool string, const std::string& s)
{
  TreeData r("RegisterType");
  r.AddAttribute(string ? "jsontype" : "jsonfile", s);
  return r;
}
static Doc Random()
{
  Doc o;
  o.atts = RandomAtts();
  Put(o.d, o.atts);
  int budget = 14, n = int(Rnd(6)), names = 0;
  static const char* libs[] = {"libm.so.6", "libdl.so.2", "libpthread.so.0", "librt.so.1"};
  for (int i = 0; i < n; ++i)
    switch (Rnd(4))
    {
    case 0:
    {
      o.regs.push_back(Reg(Rnd(2), "t" + std::to_string(Rnd(3))));
      o.d.AddChild(o.regs.back());
      break;
    }
    case 1:
    {
      TreeData p("Plugin");
      p.SetContent(libs[Rnd(4)]);
      o.plugs.push_back(p);
      o.d.AddChild(p);
      break;
    }
    case 2:
    {
      TreeData w("Workspace");
      for (int k = int(Rnd(4)); k > 0; --k)
      {
        TreeData v(Rnd(3) ? "Local" : "File");
        static const char* nm[] = {"b", "a", "z", "m", "Q", "c", "10", "9"};
        Put(v, RandomAtts({{"name", std::string(nm[names % 8]) + std::to_string(names / 8)}}));
        ++names;
        o.vars.push_back(v);
        w.AddChild(v);
      }
      o.d.AddChild(w);
      break;
    }
    default:
      o.ins.push_back(Ins(3, budget));
      o.d.AddChild(o.ins.back());
    }
  return o;
}
static std::unique_ptr<Procedure> Parse(const TreeData& d, std::string& err)
{
  try
  {
    return ParseProcedure(d, "file.xml");
  }
  catch (const ParseException& e)
  {
    err = std::string("parse error: ") + e.what();
  }
  catch (const std::exception& e)
  {
    err = std::string("exception: ") + e.what();
  }
  return {};
}
static void Compare(const Procedure& p, const Doc& o, const std::string& what)
{
  auto top = p.GetTopInstructions();
  if (Equal(top.size(), o.ins.size(), what + ": number of top instructions"))
    for (size_t i = 0; i < top.size(); ++i) Equal(Flat(top[i]), Show(o.ins[i]), what + ": instruction " + std::to_string(i));
  auto vars = p.GetWorkspace().GetVariables();
  if (Equal(vars.size(), o.vars.size(), what + ": number of variables"))
    for (size_t i = 0; i < vars.size(); ++i) Equal(Flat(vars[i]), Show(o.vars[i]), what + ": variable " + std::to_string(i));
  auto names = p.GetWorkspace().VariableNames();
  if (Equal(names.size(), o.vars.size(), what + ": number of variable names"))
    for (size_t i = 0; i < names.size(); ++i) Equal(names[i], o.vars[i].GetAttribute("name"), what + ": name of variable " + std::to_string(i));
  auto regs = p.GetPreamble().GetTypeRegistrations();
  if (Equal(regs.size(), o.regs.size(), what + ": number of type registrations"))
    for (size_t i = 0; i < regs.size(); ++i)
    {
      bool file = regs[i].GetRegistrationMode() == TypeRegistrationInfo::kJSONFile;
      Equal(Show(Reg(!file, regs[i].GetString())), Show(o.regs[i]), what + ": type registration " + std::to_string(i));
    }
  auto plugs = p.GetPreamble().GetPluginPaths();
  if (Equal(plugs.size(), o.plugs.size(), what + ": number of plugins"))
    for (size_t i = 0; i < plugs.size(); ++i) Equal(plugs[i], o.plugs[i].GetContent(), what + ": plugin " + std::to_string(i));
}
static bool Same(const Procedure& p, const Atts& a)
{
  for (auto& x : a)
    if (!p.HasAttribute(x.first) || p.GetAttributeString(x.first) != x.second) return false;
  return true;
}
static void RoundTrip(int n)
{
  S().group = "documents";
  for (int i = 0; i < n; ++i)
  {
    auto o = Random();
    Case(Show(o.d));
    std::string err;
    auto p = Parse(o.d, err);
    if (!Check(bool(p), "a correct document is refused: " + err)) continue;
    Compare(*p, o, "parsed");
    Check(Same(*p, o.atts), "parsed: the attributes of the procedure");
    Equal(p->GetFilename(), std::string("file.xml"), "parsed: the file name");
    auto t = ToTreeData(*p);
    if (!Check(bool(t), "nothing is saved")) continue;
    Doc q;
    for (auto& c : t->Children())
    {
      auto nm = c.GetNodeName();
      if (nm == "Workspace") q.vars.insert(q.vars.end(), c.Children().begin(), c.Children().end());
      else (nm == "Plugin" ? q.plugs : nm == "RegisterType" ? q.regs : q.ins).push_back(c);
    }
    auto all = [](const std::vector<TreeData>& v) {
      std::string s;
      for (auto& x : v) s += Show(x);
      return s;
    };
    Equal(t->GetNodeName(), std::string("Procedure"), "saved: root element");
    Equal(all(q.ins), all(o.ins), "saved: instructions");
    Equal(all(q.vars), all(o.vars), "saved: variables");
    Equal(all(q.regs), all(o.regs), "saved: type registrations");
    Equal(all(q.plugs), all(o.plugs), "saved: plugins");
    for (size_t k = 0; k < o.ins.size(); ++k) Equal(Show(*ToTreeData(*p->GetTopInstructions()[k])), Show(o.ins[k]), "saved: one instruction");
    for (size_t k = 0; k < o.vars.size(); ++k) Equal(Show(*ToTreeData(*p->GetWorkspace().GetVariables()[k])), Show(o.vars[k]), "saved: one variable");
    auto r = Parse(*t, err);
    if (!Check(bool(r), "the saved document is refused: " + err)) continue;
    Compare(*r, o, "parsed again");
    if (!Same(*r, o.atts)) drv::Known("procedure-attributes", "the attributes of the procedure element are not saved");
  }
}

// one place of a correct document is made wrong: a parse error, and nothing else
static void Refuse(const TreeData& d, const std::string& why, bool parse_error = true)
{
  Case(why + ": " + Show(d));
  std::string err;
  auto p = Parse(d, err);
  Check(!p, "accepted: " + why);
  if (parse_error) Check(err.rfind("parse error", 0) == 0, why + " gives " + (err.empty() ? "no error" : err));
}
static TreeData With(const TreeData& d, const TreeData& x, size_t at)
{
  TreeData o(d.GetNodeName());
  o.SetContent(d.GetContent());
  for (auto& a : d.Attributes()) o.AddAttribute(a.first, a.second);
  size_t i = 0;
  for (auto& c : d.Children())
  {
    if (i++ == at) o.AddChild(x);
    o.AddChild(c);
  }
  if (at >= i) o.AddChild(x);
  return o;
}
static TreeData Nest(const TreeData& x, int depth)
{
  if (depth == 0) return x;
  TreeData s(depth % 2 ? "Sequence" : "Inverter");
  if (depth % 2 && Rnd(2)) s.AddChild(TreeData("Wait"));
  s.AddChild(Nest(x, depth - 1));
  return s;
}
static void Errors(int n)
{
  S().group = "parse errors";
  for (int i = 0; i < n; ++i)
  {
    auto o = Random();
    size_t at = Rnd(o.d.GetNumberOfChildren() + 1);
    switch (i % 8)
    {
    case 0: Refuse(With(o.d, Nest(TreeData(Rnd(2) ? "NoSuchInstruction" : "sequence"), int(Rnd(4))), at), "unknown instruction"); break;
    case 1:
    {
      TreeData v(Rnd(2) ? "NoSuchVariable" : "Sequence"), w("Workspace");
      v.AddAttribute("name", "fresh");
      w.AddChild(v);
      Refuse(With(o.d, w, at), "unknown variable");
      break;
    }
    case 2:
    {
      TreeData v("Local"), w("Workspace");
      if (Rnd(2)) v.AddAttribute("name", "");
      v.AddAttribute("type", "x");
      w.AddChild(v);
      Refuse(With(o.d, w, at), "variable without a name");
      break;
    }
    case 3:
    {
      TreeData v("Local"), u("File"), w("Workspace");
      v.AddAttribute("name", "twice");
      u.AddAttribute("name", "twice");
      w.AddChild(v);
      w.AddChild(u);
      Refuse(With(o.d, w, at), "two variables of one name", false);
      break;
    }
    case 4:
    {
      TreeData l(Rnd(2) ? "Wait" : "Copy");
      l.AddChild(TreeData("Succeed"));
      Refuse(With(o.d, Nest(l, int(Rnd(4))), at), "leaf with a child");
      break;
    }
    case 5:
    {
      TreeData l(Rnd(2) ? "Inverter" : "Repeat");
      l.AddChild(TreeData("Succeed"));
      l.AddChild(TreeData("Fail"));
      Refuse(With(o.d, Nest(l, int(Rnd(4))), at), "decorator with two children");
      break;
    }
    case 6:
    {
      TreeData r("RegisterType");
      if (Rnd(2))
      {
        r.AddAttribute("jsonfile", "f");
        r.AddAttribute("jsontype", "t");
        if (Rnd(2)) r.AddAttribute("other", "");
      }
      else if (Rnd(2))
      {
        r.AddAttribute("json", "t");
      }
      Refuse(With(o.d, r, at), "ambiguous type registration");
      break;
    }
    default:
    {
      TreeData r(Rnd(2) ? "procedure" : "Workspace");
      for (auto& c : o.d.Children()) r.AddChild(c);
      Refuse(r, "another root element");
    }
    }
  }
}
// a plugin that cannot be loaded stops the parsing, wherever it stands, before any instruction is made
static void Plugins()
{
  S().group = "plugins";
  for (int i = 0; i < 30; ++i)
  {
    auto o = Random();
    TreeData p("Plugin");
    p.SetContent("libNoSuchPlugin" + std::to_string(i) + ".so");
    auto d = With(With(o.d, p, Rnd(o.d.GetNumberOfChildren() + 1)), TreeData("NoSuchInstruction"), 0);
    Case(Show(d));
    try
    {
      ParseProcedure(d, "file.xml");
      Fail("accepted");
    }
    catch (const ParseException& e)
    {
      Fail(std::string("the instructions are read before the plugins are loaded: ") + e.what());
    }
    catch (const std::exception&)
    {
      Check(true, "");
    }
  }
}

int main(int argc, char** argv)
{
  return drv::Main(argc, argv, [] {
    int k = S().deep ? 20 : 1;
    RoundTrip(600 * k);
    Errors(400 * k);
    Plugins();
  });
}
