// C27: root selection, driving order and path resolution of procedures, against independent models
#include "lib.h"
#include <sup/oac-tree/procedure_context.h>
#include <sup/oac-tree/procedure_preamble.h>
#include <sup/oac-tree/exceptions.h>
#include <sup/dto/anytype_registry.h>
#include <algorithm>
#include <fstream>
#include <sys/stat.h>
#include <sys/types.h>
#include <dirent.h>
using namespace lib;

// ------------------------------------------------------------------ an instruction that also records its setup
class Node : public Instruction
{
public:
  explicit Node(int id_) : Instruction("Node"), id{id_} {}
  int id;
  bool bad_setup = false;
  ES out = ES::SUCCESS;

private:
  void SetupImpl(const Procedure&) override
  {
    R().Put('s', id);
    if (bad_setup) throw InstructionSetupException("no");
  }
  ES ExecuteSingleImpl(UserInterface&, Workspace&) override { R().Put('t', id); return out; }
  void ResetHook(UserInterface&) override { R().Put('r', id); }
  void HaltImpl() override { R().Put('h', id); }
};
static bool IsTrue(std::string s)
{
  for (auto& c : s) c = char(std::tolower((unsigned char)c));
  return s == "true" || s == "yes" || s == "on" || s == "1";
}
// every accepted spelling is decided elsewhere (C15): here only texts every reading of the documentation agrees on
static const char* const kFlags[] = {"true", "false", nullptr};
static std::string Events(const std::vector<Ev>& v)
{
  std::string o;
  for (auto& e : v) o += std::string(1, e.what) + std::to_string(e.id) + " ";
  return o;
}
struct Plan
{
  std::vector<Node*> nodes;     // top instructions, in order
  std::vector<int> flag;        // by node id
  Node* Root() const
  {
    if (nodes.empty()) return nullptr;
    if (nodes.size() == 1) return nodes[0];
    for (auto n : nodes) if (flag[n->id] == 0) return n;
    return nullptr;
  }
};
static std::unique_ptr<Node> New(Plan& p, std::string& text)
{
  int id = int(p.flag.size());
  auto n = std::make_unique<Node>(id);
  int f = int(Rnd(4));
  if (f > 2) f = 2;
  p.flag.push_back(f);
  if (kFlags[f])
  {
    n->AddAttribute("isRoot", kFlags[f]);
  }
  if (Rnd(3) == 0) n->AddAttribute("name", "n" + std::to_string(Rnd(3)));
  text += " " + std::to_string(id) + (kFlags[f] ? std::string("(isRoot=") + kFlags[f] + ")" : "");
  return n;
}
static std::string Where(const Procedure& p)
{
  std::string o;
  for (auto i : p.GetTopInstructions()) o += std::to_string(dynamic_cast<const Node*>(i)->id) + " ";
  return o;
}
static std::string Where(const Plan& p)
{
  std::string o;
  for (auto i : p.nodes) o += std::to_string(i->id) + " ";
  return o;
}
static void Histories()
{
  Plan p;
  Procedure proc{"some/where/file.xml"};
  std::string text;
  std::vector<std::unique_ptr<Instruction>> out;
  int steps = 1 + int(Rnd(12));
  std::vector<std::function<void()>> acts;
  for (int s = 0; s < steps; ++s)
  {
    int k = int(Rnd(6));
    int n = int(p.nodes.size());
    int at = int(Rnd(n + 4)) - 2;
    if (Rnd(40) == 0) at = Rnd(2) ? 1 << 30 : -(1 << 30);
    if (k <= 1)
    {
      text += "; push";
      auto x = New(p, text);
      Case("history" + text);
      p.nodes.push_back(x.get());
      proc.PushInstruction(std::move(x));
    }
    else if (k <= 3)
    {
      text += "; insert at " + std::to_string(at);
      auto x = New(p, text);
      Case("history" + text);
      auto raw = x.get();
      std::unique_ptr<Instruction> u = std::move(x);
      bool ok = at >= 0 && at <= n;
      Equal(proc.InsertInstruction(std::move(u), at), ok, "whether it is inserted");
      Check((u == nullptr) == ok, "ownership moves exactly when inserted");
      if (ok) p.nodes.insert(p.nodes.begin() + at, raw);
      else { out.push_back(std::move(u)); }
    }
    else if (k == 4)
    {
      text += "; take " + std::to_string(at);
      Case("history" + text);
      auto got = proc.TakeInstruction(at);
      bool ok = at >= 0 && at < n;
      Check(got.get() == (ok ? p.nodes[at] : nullptr), "which instruction is taken");
      if (ok) p.nodes.erase(p.nodes.begin() + at);
      out.push_back(std::move(got));
    }
    else
    {
      text += "; push nothing";
      Case("history" + text);
      bool thrown = false;
      try { proc.PushInstruction({}); }
      catch (const InvalidOperationException&) { thrown = true; }
      Check(thrown, "an empty pointer is refused");
    }
    Equal(Where(proc), Where(p), "the top instructions");
    Equal(proc.GetInstructionCount(), int(p.nodes.size()), "how many there are");
    const Procedure& cp = proc;
    Check(proc.RootInstruction() == p.Root(), "the root");
    Check(cp.RootInstruction() == p.Root(), "the root of the constant procedure");
    if (!p.Root()) Status(proc.GetStatus(), ES::SUCCESS, "the status without root");
    else Status(proc.GetStatus(), p.Root()->GetStatus(), "the status is that of the root");
    if (drv::S().fails) return;
  }
}
static void Driving()
{
  Plan p;
  std::string text;
  UI ui;
  R().Clear();
  bool open = false, bad_var = Rnd(12) == 0;
  auto proc = std::make_unique<Procedure>("file.xml");
  int n = int(Rnd(5));
  for (int i = 0; i < n; ++i)
  {
    auto x = New(p, text);
    x->out = Outcome(int(Rnd(3)));
    x->bad_setup = Rnd(8) == 0;
    if (x->bad_setup) text += "!";
    p.nodes.push_back(x.get());
    proc->PushInstruction(std::move(x));
  }
  auto v = std::make_unique<ResetVar>(900);
  v->on_setup = [&]() -> SetupTeardownActions {
    R().Put('O', 900);
    open = true;
    if (bad_var) throw VariableSetupException("no");
    return {};
  };
  v->on_teardown = [&] { R().Put('C', 900); open = false; };
  proc->AddVariable("v", std::move(v));
  bool bad_attr = Rnd(10) == 0;
  if (bad_attr) proc->AddAttribute("tickTimeout", "soon");
  Case("driving:" + text + (bad_attr ? " bad attribute" : "") + (bad_var ? " bad variable" : ""));
  auto root = p.Root();
  const int id = root ? root->id : 0;
  auto want = [&](const char* evs) {
    std::string o;
    for (const char* e = evs; *e; ++e)
    {
      if (*e == 'O' || *e == 'C') o += std::string(1, *e) + "900 ";
      else if (root) o += std::string(1, *e) + std::to_string(id) + " ";
    }
    return o;
  };
  std::string thrown;
  try { proc->Setup(); }
  catch (const ProcedureSetupException&) { thrown = "procedure"; }
  catch (const VariableSetupException&) { thrown = "variable"; }
  catch (const InstructionSetupException&) { thrown = "instruction"; }
  std::string should = bad_attr ? "procedure" : bad_var ? "variable" : !root ? "procedure" : root->bad_setup ? "instruction" : "";
  Equal(thrown, should, "what setup refuses");
  Equal(Events(R().Get()), bad_attr ? "" : bad_var || !root ? want("O") : want("Os"), "what setup does");
  bool ready = thrown.empty();
  if (!ready)
  {
    R().Clear();
    proc->ExecuteSingle(ui);
    if (!root) Equal(Events(R().Get()), std::string(), "what a tick without root does");
    return;
  }
  std::string past;
  for (int s = 0, m = int(Rnd(8)); s < m; ++s)
  {
    R().Clear();
    switch (Rnd(4))
    {
    case 0:
    case 1:
    {
      if (Fin(root->GetStatus())) { past += " -"; continue; }
      past += " tick";
      Case("driving:" + text + past);
      proc->ExecuteSingle(ui);
      Equal(Events(R().Get()), want("t"), "what a tick does");
      break;
    }
    case 2:
      past += " halt";
      Case("driving:" + text + past);
      proc->Halt();
      Equal(Events(R().Get()), want("h"), "what a halt does");
      proc->Reset(ui);
      break;
    default:
    {
      past += " reset";
      Case("driving:" + text + past);
      bool fresh = root->GetStatus() == ES::NOT_STARTED;
      proc->Reset(ui);
      auto got = Events(R().Get());
      Check(got == want("CrO") || (fresh && got == want("CO")) || (got == want("ChrO")), "what a reset does: got " + got + ", expected " + want("CrO"));
      Status(proc->GetStatus(), ES::NOT_STARTED, "the status after a reset");
      break;
    }
    }
    Status(proc->GetStatus(), root->GetStatus(), "the status is that of the root");
  }
  R().Clear();
  Case("driving:" + text + past + " destruction");
  proc.reset();
  auto got = Events(R().Get());
  Check(got == want("Cr") || got == want("Chr") || got == want("C"), "what the destruction does: got " + got + ", expected " + want("Cr"));
  Check(!open, "the variable is closed");
}
// ------------------------------------------------------------------ strings
static std::string Word()
{
  static const char* const bits[] = {"/", "a", "b.xml", "..", ".", " ", "//", "dir", "\\", "\xc3\xa9"};
  std::string s;
  for (int i = int(Rnd(6)); i > 0; --i) s += bits[Rnd(10)];
  return s;
}
static std::string Directory(const std::string& s)
{
  std::string best;
  for (size_t i = 0; i < s.size(); ++i) if (s[i] == '/') best = s.substr(0, i + 1);
  return best;
}
static std::string Full(const std::string& d, const std::string& f)
{
  if (f.empty() || d.empty() || f[0] == '/') return f;
  return d[d.size() - 1] == '/' ? d + f : d + '/' + f;
}
static void Strings()
{
  auto a = Word(), b = Word();
  Case("'" + a + "' and '" + b + "'");
  Equal(GetFileDirectory(a), Directory(a), "the directory");
  Equal(GetFullPathName(a, b), Full(a, b), "the full name");
  Procedure p{a};
  Equal(p.GetFilename(), a, "the file of the procedure");
  Equal(GetProcedurePath(p), Directory(a), "the directory of the procedure");
  Equal(ResolveRelativePath(p, b), Full(Directory(a), b), "the resolved name");
  Equal(GetProcedureName(p), a, "the name of a procedure without name");
  if (Rnd(2))
  {
    p.AddAttribute("name", b);
    Equal(GetProcedureName(p), b, "the name of a procedure with a name");
  }
}
// ------------------------------------------------------------------ types of the preamble
static void Types()
{
  auto f = [](const std::string& n, int k) { return "{\"type\":\"" + n + "\",\"attributes\":[{\"x" + std::to_string(k) + "\":{\"type\":\"int32\"}}]}"; };
  Procedure p{"proc.xml"};
  std::string text, refused;
  std::vector<std::string> want;
  int n = int(Rnd(5));
  for (int i = 0; i < n; ++i)
  {
    std::string t = "t" + std::to_string(Rnd(5));
    bool broken = Rnd(8) == 0;
    text += " " + (broken ? "broken" : t);
    p.GetPreamble().AddTypeRegistration({TypeRegistrationInfo::kJSONString, broken ? "{\"type\":" : f(t, i)});
    if (!refused.empty()) continue;
    if (broken || std::count(want.begin(), want.end(), t)) refused = t;
    else want.push_back(t);
  }
  Case("types of the preamble:" + text);
  bool thrown = false;
  try { p.SetupPreamble(); }
  catch (const ProcedureSetupException&) { thrown = true; }
  Check(thrown == !refused.empty(), thrown ? "it is refused" : "it is accepted");
  for (int i = 0; i < 5; ++i)
  {
    std::string t = "t" + std::to_string(i);
    Equal(p.GetTypeRegistry().HasType(t), std::count(want.begin(), want.end(), t) != 0, "whether " + t + " is registered");
  }
}
// ------------------------------------------------------------------ shared files, in a scratch directory
struct Scratch
{
  std::string dir;
  std::vector<std::string> files;
  Scratch()
  {
    char t[] = "/tmp/c27.XXXXXX";
    dir = std::string(mkdtemp(t)) + "/";
  }
  ~Scratch()
  {
    for (auto& f : files) ::unlink((dir + f).c_str());
    ::rmdir(dir.c_str());
  }
  void Put(const std::string& f, const std::string& text)
  {
    std::ofstream(dir + f) << text;
    files.push_back(f);
  }
};
static const char* kHead = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<Procedure>\n";
static void Files()
{
  Scratch s;
  s.Put("good.xml", std::string(kHead) + "<RegisterType jsonfile=\"t.json\"/><Wait name=\"w\"/><Workspace><Local name=\"x\" type='{\"type\":\"uint8\"}'/></Workspace></Procedure>");
  s.Put("bad.xml", std::string(kHead) + "<RegisterType jsonfile=\"none.json\"/><Wait name=\"w\"/></Procedure>");
  s.Put("t.json", "{\"type\":\"shared\",\"attributes\":[{\"x\":{\"type\":\"int32\"}}]}");
  {
    Case("loading files");
    Procedure me{s.dir + "me.xml"};
    auto ctx = me.GetContext();
    auto& a = ctx.GetProcedure(s.dir + "good.xml");
    Check(&a == &ctx.GetProcedure(s.dir + "good.xml"), "a file is loaded once");
    Check(&a == &a.GetContext().GetProcedure(s.dir + "good.xml"), "a loaded procedure shares the store of its parent");
    Check(&me == &a.GetContext().GetProcedure(s.dir + "me.xml"), "the own file of the outermost is that procedure");
    Check(&me == &ctx.GetProcedure(s.dir + "me.xml"), "its own file is itself");
    Check(a.GetTypeRegistry().HasType("shared"), "the types of its preamble are registered from the file beside it");
    Equal(a.GetFilename(), s.dir + "good.xml", "the file of the loaded procedure");
    Equal(ctx.GetFilename(), s.dir + "me.xml", "the file of the context");
    Check(&ctx.GetWorkspace(s.dir + "good.xml") == &a.GetWorkspace(), "its workspace");
    for (int i = 0; i < 2; ++i)
    {
      bool thrown = false;
      try { ctx.GetProcedure(s.dir + (Rnd(2) ? "bad.xml" : "none.xml")); }
      catch (const std::exception&) { thrown = true; }
      Check(thrown, "a file that cannot be loaded stays refused");
    }
    bool thrown = false;
    try { ctx.GetProcedure(s.dir + "bad.xml"); }
    catch (const std::exception&) { thrown = true; }
    Check(thrown, "a file with a wrong preamble is refused");
    thrown = false;
    try { ctx.GetProcedure(s.dir + "bad.xml"); }
    catch (const std::exception&) { thrown = true; }
    Check(thrown, "and again: nothing of it was kept");
  }
}
int main(int argc, char** argv)
{
  return drv::Main(argc, argv, [] {
    int f = S().deep ? 4 : 1;
    Within(140, "procedures", [&] {
      S().group = "root";
      for (int i = 0; i < 700 * f; ++i) Histories();
      S().group = "driving";
      for (int i = 0; i < 700 * f; ++i) Driving();
      S().group = "paths";
      for (int i = 0; i < 1200 * f; ++i) Strings();
      S().group = "preamble";
      for (int i = 0; i < 150 * f; ++i) Types();
      S().group = "files";
      for (int i = 0; i < 3; ++i) Files();
    });
  });
}
