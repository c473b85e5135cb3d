// C03: all short histories of constructions, moves, swaps and destructions of guards against an ownership model
#include "drv.h"
#include <sup/oac-tree/scope_guard.h>
#include <memory>
#include <optional>
#include <type_traits>
using sup::oac_tree::ScopeGuard;
using drv::Case; using drv::Check; using drv::Equal; using drv::S; using drv::Rnd;

static std::vector<int> g_log;
struct Ops { std::vector<int> v; };
// slots hold an optional guard; model: slot -> owned action (-1 no action, -2 no guard)
static const int SLOTS = 3;
static std::string Name(int o)
{
  int k = o / 9, a = o % 9 / 3, b = o % 3;
  switch (k)
  {
  case 0: return "slot" + std::to_string(a) + "=Guard(action)";
  case 1: return "slot" + std::to_string(a) + (b == 0 ? "=Guard()" : b == 1 ? "=Guard(empty function)" : ".destroy");
  case 2: return "slot" + std::to_string(a) + "=Guard(move(slot" + std::to_string(b) + "))";
  case 3: return "slot" + std::to_string(a) + " = move(slot" + std::to_string(b) + ")";
  default: return "slot" + std::to_string(a) + ".Swap(slot" + std::to_string(b) + ")";
  }
}
static bool Run(const std::vector<int>& ops, bool report)
{
  std::string t;
  if (report)
    for (int o : ops) t += Name(o) + "; ";
  Case(t);
  g_log.clear();
  std::vector<int> want;
  std::optional<ScopeGuard> g[SLOTS];
  int m[SLOTS];
  for (int& x : m) x = -2;
  int next = 0;
  auto end = [&](int i) {
    g[i].reset();
    if (m[i] >= 0) want.push_back(m[i]);
    m[i] = -2;
  };
  bool ok = true;
  auto agree = [&] {
    ok &= Check(g_log == want, "actions run differ from the ownership rule");
    for (int i = 0; i < SLOTS; ++i)
      if (m[i] != -2) ok &= Equal(g[i]->IsValid(), m[i] >= 0, "IsValid");
    return ok;
  };
  for (int o : ops)
  {
    int k = o / 9, a = o % 9 / 3, b = o % 3;
    if (k == 0)
    {
      end(a);
      int id = next++;
      // a small or a large closure
      if (id % 2) g[a].emplace([id] { g_log.push_back(id); });
      else { std::string big(64, 'x'); g[a].emplace([id, big] { g_log.push_back(big.size() == 64 ? id : -7); }); }
      m[a] = id;
    }
    else if (k == 1)
    {
      end(a);
      if (b == 0) { g[a].emplace(); m[a] = -1; }
      else if (b == 1) { g[a].emplace(std::function<void()>{}); m[a] = -1; }
    }
    else if (k == 2)
    {
      if (m[b] == -2 || a == b) continue;
      end(a);
      g[a].emplace(std::move(*g[b]));
      m[a] = m[b];
      m[b] = -1;
    }
    else if (k == 3)
    {
      if (m[a] == -2 || m[b] == -2) continue;
      *g[a] = std::move(*g[b]);
      if (a != b)
      {
        if (m[a] >= 0) want.push_back(m[a]);
        m[a] = m[b];
        m[b] = -1;
      }
    }
    else
    {
      if (m[a] == -2 || m[b] == -2) continue;
      g[a]->Swap(*g[b]);
      std::swap(m[a], m[b]);
    }
    if (!agree()) return false;
  }
  for (int i = 0; i < SLOTS; ++i) end(i);
  return agree();
}

int main(int argc, char** argv)
{
  return drv::Main(argc, argv, [] {
    S().group = "type";
    Case("copying");
    Check(!std::is_copy_constructible<ScopeGuard>::value, "a guard can be copied");
    Check(!std::is_copy_assignable<ScopeGuard>::value, "a guard can be copy-assigned");
    S().group = "histories";
    std::vector<int> alpha;
    for (int o = 0; o < 45; ++o)
      if (o / 9 != 0 || o % 3 == 0) alpha.push_back(o);
    std::vector<int> cur;
    std::function<void(int)> rec = [&](int n) {
      if (S().fails) return;
      if (n == 0) { if (!Run(cur, false)) { S().fails = 0; Run(cur, true); } return; }
      for (int a : alpha) { cur.push_back(a); rec(n - 1); cur.pop_back(); }
    };
    for (int n = 1; n <= (S().deep ? 4 : 3); ++n) rec(n);
    S().group = "histories from full slots";
    // three guards with actions, then every pair of steps, then random tails
    for (int a : alpha)
      for (int b : alpha)
      {
        if (S().fails) break;
        cur = {0, 3, 6, a, b};
        if (!Run(cur, false)) { S().fails = 0; Run(cur, true); }
      }
    S().group = "random histories";
    for (int i = 0; i < (S().deep ? 60000 : 12000) && !S().fails; ++i)
    {
      cur.clear();
      for (auto n = 4 + Rnd(i % 50 == 0 ? 300 : 24); n > 0; --n) cur.push_back(alpha[Rnd(alpha.size())]);
      if (!Run(cur, false)) { S().fails = 0; Run(cur, true); }
    }
    S().group = "containers and returns";
    for (int n = 0; n < 40 && !S().fails; ++n)
    {
      Case("vector of " + std::to_string(n) + " guards");
      g_log.clear();
      {
        std::vector<ScopeGuard> v;
        for (int i = 0; i < n; ++i) v.push_back(ScopeGuard([i] { g_log.push_back(i); }));
        Check(g_log.empty(), "an action ran while its guard was alive");
        if (n > 2) v.erase(v.begin() + 1);
        if (n > 2) { Equal(g_log.size(), size_t(1), "actions run by erasing one guard"); Equal(g_log.empty() ? -1 : g_log[0], 1, "action run by erasing"); }
      }
      std::multiset<int> got(g_log.begin(), g_log.end()), want;
      for (int i = 0; i < n; ++i) want.insert(i);
      Check(got == want, "each action runs exactly once");
      auto make = [](int x) { ScopeGuard g([x] { g_log.push_back(x); }); return g; };
      g_log.clear();
      { auto g = make(n); Check(g_log.empty() && g.IsValid(), "a returned guard keeps its action"); }
      Check(g_log == std::vector<int>{n}, "a returned guard runs its action once");
    }
  });
}
