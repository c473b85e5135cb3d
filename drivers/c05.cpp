// C05: preamble, breakpoint and exception records against the given data
#include "drv.h"
#include <sup/oac-tree/breakpoint.h>
#include <sup/oac-tree/exceptions.h>
#include <sup/oac-tree/procedure_preamble.h>
#include <memory>
using namespace sup::oac_tree;
using drv::Case; using drv::Check; using drv::Equal; using drv::S; using drv::Rnd;

using TR = TypeRegistrationInfo;
static std::string Word()
{
  static const std::vector<std::string> w = {"", " ", "a", "b", "a ", " a", "A", "lib.so", "/x/lib.so", "lib.so\n",
    std::string("a\0b", 3), std::string(100, 'q'), "{\"type\":\"int\"}", "\xff\xfe", "./lib.so", "lib.so/", "a;b", "a,b"};
  return w[Rnd(w.size())];
}
struct M { std::vector<std::pair<int, std::string>> r; std::vector<std::string> p; };
static bool Agree(const ProcedurePreamble& x, const M& m)
{
  auto r = x.GetTypeRegistrations();
  auto p = x.GetPluginPaths();
  bool ok = Equal(r.size(), m.r.size(), "number of type registrations");
  ok &= Equal(p.size(), m.p.size(), "number of plugin paths");
  for (size_t i = 0; ok && i < r.size(); ++i)
  {
    ok &= Equal(int(r[i].GetRegistrationMode()), m.r[i].first, "mode of registration " + std::to_string(i));
    ok &= Equal(r[i].GetString(), m.r[i].second, "text of registration " + std::to_string(i));
  }
  for (size_t i = 0; ok && i < p.size(); ++i) ok &= Equal(p[i], m.p[i], "plugin path " + std::to_string(i));
  return ok;
}
template <typename E>
static void Exception(const std::string& m)
{
  std::string text = m.c_str();     // what() is a C string
  try { throw E(m); }
  catch (const std::exception& e) { Equal(std::string(e.what()), text, "what()"); }
  std::string tmp = m;
  auto e = std::make_unique<E>(tmp);
  tmp.assign(tmp.size(), '#');
  Equal(std::string(e->what()), text, "what() after the caller's string changed");
  Equal(std::string(e->what()), text, "what() again");
  E c(*e), d(*e);
  d = c;
  Equal(std::string(c.what()), text, "what() of a copy");
  e.reset();
  Equal(std::string(c.what()), text, "what() of a copy after the original is gone");
  Equal(std::string(d.what()), text, "what() of an assigned copy");
  E other(std::string("another message"));
  const char* first = c.what();
  const char* second = other.what();
  Equal(std::string(second), std::string("another message"), "what() of another error");
  Equal(std::string(first), text, "what() obtained before that of another error");
  const MessageException& b = d;
  Equal(std::string(b.what()), text, "what() through the base class");
}

int main(int argc, char** argv)
{
  return drv::Main(argc, argv, [] {
    S().group = "preamble";
    for (int i = 0; i < (S().deep ? 20000 : 3000) && !S().fails; ++i)
    {
      ProcedurePreamble x;
      M m;
      Agree(x, m);
      auto n = i % 100 == 0 ? Rnd(400) : Rnd(12);
      std::string t;
      std::vector<std::pair<ProcedurePreamble, M>> copies;
      for (; n > 0 && !S().fails; --n)
      {
        auto w = Rnd(3) == 0 && !m.p.empty() ? m.p.back() : Word();
        switch (Rnd(4))
        {
        case 0: case 1: x.AddPluginPath(w); m.p.push_back(w); t += "path '" + w + "' "; break;
        default:
        {
          auto mode = Rnd(2) ? TR::kJSONFile : TR::kJSONString;
          TR info(mode, w);
          x.AddTypeRegistration(info); m.r.push_back({int(mode), w}); t += "type(" + std::to_string(mode) + ",'" + w + "') ";
        }
        }
        S().text = t.substr(0, 400);
        if (t.size() < 2000 || n % 50 == 0) Agree(x, m);
        if (Rnd(8) == 0) copies.push_back({x, m});
      }
      Case(t.substr(0, 400));
      Agree(x, m);
      for (auto& c : copies) Agree(c.first, c.second);
    }
    S().group = "many records";
    {
      ProcedurePreamble x;
      M m;
      const int n = S().deep ? 70000 : 5000;
      for (int i = 0; i < n; ++i)
      {
        auto w = i % 3 ? "entry" + std::to_string(i / 2) : Word();
        if (i % 2) { x.AddPluginPath(w); m.p.push_back(w); }
        else { auto mode = i % 4 ? TR::kJSONFile : TR::kJSONString; x.AddTypeRegistration(TR(mode, w)); m.r.push_back({int(mode), w}); }
        if ((i & (i + 1)) == 0) { Case(std::to_string(i + 1) + " records"); if (!Agree(x, m)) break; }
      }
      Case(std::to_string(n) + " records");
      Agree(x, m);
      auto y = x;
      x.AddPluginPath("one more");
      Agree(y, m);
    }
    S().group = "type registration";
    for (int i = 0; i < 500; ++i)
    {
      auto w = Word();
      auto mode = i % 2 ? TR::kJSONFile : TR::kJSONString;
      Case(std::to_string(mode) + " '" + w + "'");
      std::string copy = w;
      TR a(mode, copy);
      copy += "changed";
      TR b = a, c(mode == TR::kJSONFile ? TR::kJSONString : TR::kJSONFile, "other");
      c = b;
      for (auto* p : {&a, &b, &c})
      {
        Equal(int(p->GetRegistrationMode()), int(mode), "mode");
        Equal(p->GetString(), w, "text");
      }
    }
    S().group = "breakpoint";
    {
      static char mem[64];
      auto I = [](int k) { return k == 0 ? nullptr : reinterpret_cast<const Instruction*>(&mem[k]); };
      for (int i = 0; i < (S().deep ? 40000 : 8000) && !S().fails; ++i)
      {
        std::vector<Breakpoint> v;
        std::vector<std::pair<int, int>> m;
        std::string t;
        for (auto n = Rnd(10) + 1; n > 0; --n)
        {
          switch (v.empty() ? 0 : Rnd(4))
          {
          case 0: { int k = int(Rnd(4)); v.emplace_back(I(k)); m.push_back({k, 0}); t += "new(i" + std::to_string(k) + ") "; break; }
          case 1: { auto j = Rnd(v.size()); auto s = Rnd(2) ? Breakpoint::kSet : Breakpoint::kReleased; v[j].SetStatus(s); m[j].second = int(s); t += "set(" + std::to_string(j) + "," + std::to_string(s) + ") "; break; }
          case 2: { auto j = Rnd(v.size()); Breakpoint c(v[j]); v.push_back(c); m.push_back(m[j]); t += "copy(" + std::to_string(j) + ") "; break; }
          default: { auto j = Rnd(v.size()), k = Rnd(v.size()); v[j] = v[k]; m[j] = m[k]; t += "assign(" + std::to_string(j) + "," + std::to_string(k) + ") "; }
          }
          S().text = t;
          for (size_t j = 0; j < v.size(); ++j)
          {
            Check(v[j].GetInstruction() == I(m[j].first), "instruction of breakpoint " + std::to_string(j));
            Equal(int(v[j].GetStatus()), m[j].second, "state of breakpoint " + std::to_string(j));
          }
        }
        Case(t);
      }
    }
    S().group = "exceptions";
    for (int i = 0; i < 400 && !S().fails; ++i)
    {
      auto w = i % 3 ? Word() : Word() + std::string(Rnd(3000), char('a' + Rnd(26)));
      Case(w.substr(0, 100));
      Exception<MessageException>(w);
      Exception<RuntimeException>(w);
      Exception<InvalidOperationException>(w);
      Exception<ParseException>(w);
      Exception<ProcedureSetupException>(w);
      Exception<InstructionSetupException>(w);
      Exception<VariableSetupException>(w);
    }
  });
}
