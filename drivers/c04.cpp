// C04: callback lists against a sequential model, for several argument lists, and under concurrency
#include "drv.h"
#include <sup/oac-tree/named_callback_manager.h>
#include <memory>
#include <optional>
using sup::oac_tree::NamedCallbackManager;
using sup::oac_tree::ScopeGuard;
using drv::Case; using drv::Check; using drv::Equal; using drv::S; using drv::Rnd;

struct Rec
{
  int id;
  std::string name;      // "*" + name for a generic callback
  std::string args;
  bool operator==(const Rec& o) const { return id == o.id && name == o.name && args == o.args; }
};
static std::vector<Rec> g_log;
template <typename T> std::string Str(const T& t) { std::ostringstream o; o << t; return o.str(); }
static std::string Join() { return ""; }
template <typename T, typename... R> std::string Join(const T& t, const R&... r) { return Str(t) + ";" + Join(r...); }

template <typename... Args>
struct Kit
{
  using Mgr = NamedCallbackManager<Args...>;
  struct E { int id; void* li; std::string name; };
  Mgr mgr;
  std::vector<E> gen, named;
  struct G { std::optional<ScopeGuard> g; void* li; };
  std::vector<G> guards;
  int next = 0;
  std::string trace;
  bool ok = true;

  void RegGeneric(void* li, bool empty)
  {
    int id = next++;
    typename std::function<void(const std::string&, Args...)> cb;
    if (!empty) cb = [id](const std::string& n, Args... a) { g_log.push_back({id, "*" + n, Join(a...)}); };
    ok &= Equal(mgr.RegisterGenericCallback(cb, li), !empty, "RegisterGenericCallback");
    if (!empty) gen.push_back({id, li, ""});
  }
  void Reg(const std::string& n, void* li, bool empty)
  {
    int id = next++;
    std::function<void(Args...)> cb;
    if (!empty) cb = [id](Args... a) { g_log.push_back({id, "", Join(a...)}); };
    ok &= Equal(mgr.RegisterCallback(n, cb, li), !empty, "RegisterCallback");
    if (!empty) named.push_back({id, li, n});
  }
  bool Drop(void* li)
  {
    bool had = false;
    for (auto* l : {&gen, &named})
      for (size_t i = 0; i < l->size();)
        if ((*l)[i].li == li) { l->erase(l->begin() + long(i)); had = true; } else ++i;
    return had;
  }
  void Unreg(void* li)
  {
    bool had = Drop(li);
    ok &= Equal(mgr.UnregisterListener(li), had, "UnregisterListener");
  }
  void Guard(void* li) { guards.push_back({mgr.GetCallbackGuard(li), li}); }
  void EndGuard()
  {
    if (guards.empty()) return;
    auto li = guards.back().li;
    guards.pop_back();
    if (li) Drop(li);
  }
  void Exec(const std::string& n, Args... a)
  {
    g_log.clear();
    mgr.ExecuteCallbacks(n, a...);
    std::vector<Rec> want;
    for (auto& e : gen) want.push_back({e.id, "*" + n, Join(a...)});
    for (auto& e : named) if (e.name == n) want.push_back({e.id, "", Join(a...)});
    if (!Check(g_log == want, "recipients, order or arguments of a notification of '" + n + "'"))
    {
      ok = false;
      std::string s = "called:";
      for (auto& r : g_log) s += " " + std::to_string(r.id) + "(" + r.name + "|" + r.args + ")";
      s += " expected:";
      for (auto& r : want) s += " " + std::to_string(r.id) + "(" + r.name + "|" + r.args + ")";
      drv::Emit("NOTE " + s);
    }
  }
};
static const std::vector<std::string> NAMES = {"", "a", "ab", "b"};
static char g_l[3];
static void* Li(int i) { return i == 0 ? nullptr : static_cast<void*>(&g_l[i]); }
static std::string OpName(int o)
{
  if (o < 3) return "RegisterGeneric(l" + std::to_string(o) + ")";
  if (o < 12) return "Register('" + NAMES[size_t((o - 3) / 3)] + "',l" + std::to_string((o - 3) % 3) + ")";
  if (o < 15) return "Unregister(l" + std::to_string(o - 12) + ")";
  if (o < 18) return "Guard(l" + std::to_string(o - 15) + ")";
  if (o == 18) return "EndGuard";
  return o == 19 ? "RegisterGeneric(empty)" : "Register(empty)";
}
template <typename K, typename F>
static bool Run(const std::vector<int>& ops, F exec)
{
  std::string t;
  for (int o : ops) t += OpName(o) + " ";
  if (t.size() > 500) t = "..." + t.substr(t.size() - 500);
  Case(t);
  K k;
  for (int o : ops)
  {
    if (o < 3) k.RegGeneric(Li(o), false);
    else if (o < 12) k.Reg(NAMES[size_t((o - 3) / 3)], Li((o - 3) % 3), false);
    else if (o < 15) k.Unreg(Li(o - 12));
    else if (o < 18) k.Guard(Li(o - 15));
    else if (o == 18) k.EndGuard();
    else if (o == 19) k.RegGeneric(Li(1), true);
    else k.Reg("a", Li(1), true);
    if (!k.ok) return false;
  }
  for (auto& n : NAMES) exec(k, n);
  exec(k, "c");
  while (!k.guards.empty() && k.ok) { k.EndGuard(); for (auto& n : NAMES) exec(k, n); }
  for (int l = 0; l < 3 && k.ok; ++l) { k.Unreg(Li(l)); for (auto& n : NAMES) exec(k, n); k.Unreg(Li(l)); }
  return k.ok;
}
static bool AnyRun(int kind, const std::vector<int>& ops)
{
  switch (kind)
  {
  case 0: return Run<Kit<>>(ops, [](Kit<>& k, const std::string& n) { k.Exec(n); });
  case 1: return Run<Kit<int>>(ops, [](Kit<int>& k, const std::string& n) { k.Exec(n, 42); k.Exec(n, -1); });
  case 2: return Run<Kit<const std::string&, bool>>(ops, [](Kit<const std::string&, bool>& k, const std::string& n) { k.Exec(n, "some rather long value, beyond small strings", true); k.Exec(n, n, false); });
  // a string by value: every recipient gets the value itself, not one that an earlier recipient was given to keep
  default: return Run<Kit<std::string, double>>(ops, [](Kit<std::string, double>& k, const std::string& n) { k.Exec(n, "some rather long value, beyond small strings", 2.5); });
  }
}
static void Concurrent(int rounds)
{
  S().group = "concurrent notifications and changes";
  for (int r = 0; r < rounds && !S().fails; ++r)
  {
    Case("round " + std::to_string(r));
    NamedCallbackManager<int> m;
    std::atomic<int> perm{0}, bad{0}, calls{0};
    std::atomic<bool> stop{false};
    int me = 0;
    m.RegisterGenericCallback([&](const std::string& n, int v) { if (v != 5 || n != "x") ++bad; ++perm; }, &me);
    m.RegisterCallback("x", [&](int v) { if (v != 5) ++bad; ++perm; }, &me);
    S().deadline = drv::Now() + 20;
    std::vector<std::thread> t;
    for (int k = 0; k < 3; ++k)
      t.emplace_back([&] { for (int i = 0; i < 200; ++i) { m.ExecuteCallbacks("x", 5); ++calls; } });
    for (int k = 0; k < 2; ++k)
      t.emplace_back([&, k] {
        int li = k;
        for (int i = 0; i < 100; ++i)
        {
          m.RegisterCallback("x", [&](int v) { if (v != 5) ++bad; }, &li);
          m.RegisterGenericCallback([&](const std::string&, int v) { if (v != 5) ++bad; }, &li);
          if (i % 2) { if (!m.UnregisterListener(&li)) ++bad; }
          else { auto g = m.GetCallbackGuard(&li); }
          if (m.UnregisterListener(&li)) ++bad;
        }
      });
    for (auto& x : t) x.join();
    S().deadline = 0;
    Equal(bad.load(), 0, "wrong arguments or wrong answers of the removal");
    Equal(perm.load(), 2 * calls.load(), "calls of the permanent callbacks");
  }
}

int main(int argc, char** argv)
{
  return drv::Main(argc, argv, [] {
    S().deadline = drv::Now() + 120;
    std::vector<int> alpha = {0, 1, 2, 4, 5, 7, 8, 9, 10, 12, 13, 14, 16, 15, 18, 19, 20};
    std::vector<int> cur;
    int kind = 0;
    std::function<void(int)> rec = [&](int n) {
      if (S().fails) return;
      if (n == 0) { AnyRun(kind, cur); return; }
      for (int a : alpha) { cur.push_back(a); rec(n - 1); cur.pop_back(); }
    };
    for (kind = 0; kind < 4; ++kind)
    {
      S().group = "all short histories, argument list " + std::to_string(kind);
      for (int n = 0; n <= (kind == 1 || S().deep ? 3 : 2); ++n) rec(n);
    }
    for (int i = 0; i < (S().deep ? 12000 : 2500) && !S().fails; ++i)
    {
      kind = i % 4;
      S().group = "random histories, argument list " + std::to_string(kind);
      cur.clear();
      for (auto n = 3 + Rnd(i % 40 == 0 ? 400 : 20); n > 0; --n) cur.push_back(int(Rnd(4) ? Rnd(12) : Rnd(21)));
      AnyRun(kind, cur);
    }
    S().deadline = drv::Now() + 60;
    S().group = "names that look alike";
    {
      const std::string big(200, 'n');
      const std::vector<std::string> names = {"", " ", "a", "A", "a ", " a", std::string("a\0", 2), std::string("a\0b", 3),
        std::string("a\0c", 3), "ab", "ba", "*", ".*", "a*", "?", "a.b", "a/b", "a.", big, big + "x", big + "y", "X" + big};
      Case("all pairs of names");
      Kit<int> k;
      for (size_t r = 0; r < 2; ++r)
        for (size_t i = 0; i < names.size(); ++i) k.Reg(names[i], Li(int(i % 3)), false);
      for (auto& n : names) k.Exec(n, 7);
      k.Unreg(Li(1));
      for (auto& n : names) k.Exec(n, 8);
    }
    S().group = "many listeners";
    {
      auto far = [](uintptr_t v) { return reinterpret_cast<void*>(v); };
      std::vector<void*> li;
      for (uintptr_t i = 1; i <= 40; ++i)
        for (uintptr_t hi : {uintptr_t(0), uintptr_t(1) << 16, uintptr_t(1) << 32, uintptr_t(1) << 48, uintptr_t(1) << 63}) li.push_back(far(hi + i));
      Case(std::to_string(li.size()) + " listeners, addresses alike in parts");
      Kit<int> k;
      const int n = S().deep ? 20000 : 3000;
      for (int i = 0; i < n; ++i)
      {
        auto l = li[Rnd(li.size())];
        if (i % 3) k.Reg(NAMES[size_t(i) % NAMES.size()], l, false);
        else k.RegGeneric(l, false);
      }
      for (int i = 0; i < 60 && k.ok; ++i)
      {
        k.Exec(NAMES[size_t(i) % NAMES.size()], i);
        k.Unreg(li[Rnd(li.size())]);
      }
      k.Exec("a", -1);
    }
    S().deadline = 0;
    Concurrent(S().deep ? 20 : 4);
  });
}
