// common part of the drivers that run whole instructions of the library: scripted children, a recording user interface
#pragma once
#include "drv.h"
#include <sup/oac-tree/instruction.h>
#include <sup/oac-tree/instruction_registry.h>
#include <sup/oac-tree/user_interface.h>
#include <sup/oac-tree/procedure.h>
#include <sup/oac-tree/variable.h>
#include <sup/oac-tree/variable_registry.h>
#include <sup/oac-tree/workspace.h>
#include <sup/dto/anyvalue.h>
#include <sup/dto/anyvalue_helper.h>
#include <sup/dto/anytype.h>
#include <condition_variable>
#include <deque>
#include <memory>
#include <mutex>

namespace lib
{
using namespace sup::oac_tree;
using ES = ExecutionStatus;
using drv::Case; using drv::Check; using drv::Equal; using drv::Fail; using drv::Rnd; using drv::S; using drv::Within;

inline const char* N(ES s)
{
  switch (s)
  {
  case ES::NOT_STARTED: return "not started";
  case ES::NOT_FINISHED: return "not finished";
  case ES::RUNNING: return "running";
  case ES::SUCCESS: return "success";
  case ES::FAILURE: return "failure";
  }
  return "?";
}
inline bool Fin(ES s) { return s == ES::SUCCESS || s == ES::FAILURE; }
inline bool Ready(ES s) { return s == ES::NOT_STARTED || s == ES::NOT_FINISHED; }
inline std::string Names(const std::vector<ES>& v)
{
  std::string o = "[";
  for (auto s : v) o += std::string(o.size() > 1 ? ", " : "") + N(s);
  return o + "]";
}
inline bool Status(ES got, ES want, const std::string& what)
{
  ++S().checks;
  if (got == want) return true;
  Fail(what + ": got " + N(got) + ", expected " + N(want));
  return false;
}

class UI : public UserInterface
{
public:
  struct Note { const Instruction* i; ES s; };
  std::vector<Note> notes;
  std::vector<std::string> logs;
  std::vector<std::string> messages;
  bool put_ok = true;
  std::vector<std::pair<std::string, sup::dto::AnyValue>> puts;
  mutable std::mutex mtx;
  void UpdateInstructionStatus(const Instruction* i) override
  {
    ES s = i->GetStatus();
    std::lock_guard<std::mutex> l(mtx);
    if (notes.size() < 100000) notes.push_back({i, s});
  }
  void VariableUpdated(const std::string&, const sup::dto::AnyValue&, bool) override {}
  bool PutValue(const sup::dto::AnyValue& v, const std::string& d) override
  {
    std::lock_guard<std::mutex> l(mtx);
    puts.push_back({d, v});
    return put_ok;
  }
  std::unique_ptr<IUserInputFuture> RequestUserInput(const UserInputRequest&) override { return {}; }
  void Message(const std::string& m) override { std::lock_guard<std::mutex> l(mtx); messages.push_back(m); }
  void Log(int, const std::string& m) override { std::lock_guard<std::mutex> l(mtx); if (logs.size() < 1000) logs.push_back(m); }
};

// what happened to the scripted children, in order: t tick (execution), i init, r reset hook, h halt
struct Ev { char what; int id; };
inline bool operator==(const Ev& a, const Ev& b) { return a.what == b.what && a.id == b.id; }
struct Recorder
{
  std::mutex mtx;
  std::vector<Ev> v;
  void Put(char w, int id) { std::lock_guard<std::mutex> l(mtx); v.push_back({w, id}); }
  void Clear() { std::lock_guard<std::mutex> l(mtx); v.clear(); }
  std::vector<Ev> Get() { std::lock_guard<std::mutex> l(mtx); return v; }
  std::vector<int> Of(char w)
  {
    std::lock_guard<std::mutex> l(mtx);
    std::vector<int> o;
    for (auto& e : v) if (e.what == w) o.push_back(e.id);
    return o;
  }
};
inline Recorder& R()
{
  static Recorder r;
  return r;
}
inline std::string Text(const std::vector<int>& v)
{
  std::string o = "{";
  for (int x : v) o += (o.size() > 1 ? " " : "") + std::to_string(x);
  return o + "}";
}
inline bool Same(const std::vector<int>& got, const std::vector<int>& want, const std::string& what)
{
  ++S().checks;
  if (got == want) return true;
  Fail(what + ": got " + Text(got) + ", expected " + Text(want));
  return false;
}

class Kid : public Instruction
{
public:
  explicit Kid(int id_ = 0, std::function<ES(Kid&)> r = {}) : Instruction("Kid"), id{id_}, run{std::move(r)} {}
  ~Kid() override { if (gone) gone(); }
  int id;
  bool init_ok = true;
  std::function<ES(Kid&)> run;
  std::function<void(Kid&)> on_init, on_reset, on_halt;
  std::function<void()> gone;
  UserInterface* ui = nullptr;
  Workspace* ws = nullptr;

private:
  bool InitHook(UserInterface&, Workspace&) override
  {
    R().Put('i', id);
    if (on_init) on_init(*this);
    return init_ok;
  }
  ES ExecuteSingleImpl(UserInterface& u, Workspace& w) override
  {
    R().Put('t', id);
    ui = &u;
    ws = &w;
    return run ? run(*this) : ES::SUCCESS;
  }
  void ResetHook(UserInterface&) override
  {
    R().Put('r', id);
    if (on_reset) on_reset(*this);
  }
  void HaltImpl() override
  {
    R().Put('h', id);
    if (on_halt) on_halt(*this);
  }
};

// a variable that records what is done to it
class Var : public Variable
{
public:
  explicit Var(int id_ = 0) : Variable("Var"), id{id_} {}
  int id;
  std::function<SetupTeardownActions()> on_setup;
  std::function<void()> on_teardown, on_reset;
  sup::dto::AnyValue value;
  bool readable = true, writable = true, available = true;
  mutable int reads = 0;
  int writes = 0;

private:
  bool GetValueImpl(sup::dto::AnyValue& v) const override
  {
    ++reads;
    if (!readable) return false;
    v = value;
    return true;
  }
  bool SetValueImpl(const sup::dto::AnyValue& v) override
  {
    ++writes;
    if (!writable) return false;
    value = v;
    return true;
  }
  bool IsAvailableImpl() const override { return available; }
  SetupTeardownActions SetupImpl(const Workspace&) override { return on_setup ? on_setup() : SetupTeardownActions{}; }
  void TeardownImpl() override { if (on_teardown) on_teardown(); }
};
class ResetVar : public Var      // records a reset instead of doing it
{
  using Var::Var;
  void ResetImpl(const Workspace&) override { if (on_reset) on_reset(); }
};

inline std::unique_ptr<Instruction> Make(const std::string& type) { return GlobalInstructionRegistry().Create(type); }
inline std::vector<ES> Stats(const std::vector<Kid*>& k)
{
  std::vector<ES> o;
  for (auto x : k) o.push_back(x->GetStatus());
  return o;
}
// a compound with scripted children
struct Tree
{
  std::unique_ptr<Instruction> root;
  std::vector<Kid*> kids;
  UI ui;
  Workspace ws;
  Tree(const std::string& type, int n)
  {
    root = Make(type);
    for (int i = 0; i < n; ++i)
    {
      auto k = std::make_unique<Kid>(i);
      kids.push_back(k.get());
      root->InsertInstruction(std::move(k), i);
    }
  }
};
inline ES Outcome(int x)
{
  static const ES all[] = {ES::SUCCESS, ES::FAILURE, ES::NOT_FINISHED, ES::RUNNING};
  return all[x & 3];
}
inline std::unique_ptr<Variable> LocalVar(const std::string& type, const std::string& value = {})
{
  auto v = GlobalVariableRegistry().Create("Local");
  v->AddAttribute("type", type);
  if (!value.empty()) v->AddAttribute("value", value);
  return v;
}
}  // namespace lib
