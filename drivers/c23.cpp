// C23: descriptions to transport values and back, rejection of malformed values, user input requests and replies
#include "lib.h"
#include <algorithm>
#include <numeric>
#include <sup/oac-tree/constants.h>
#include <sup/oac-tree/exceptions.h>
#include <sup/oac-tree/instruction_info_utils.h>
#include <sup/oac-tree/job_info_utils.h>
#include <sup/oac-tree/user_input_reply.h>
#include <sup/oac-tree/user_input_request.h>
#include <sup/oac-tree/variable_utils.h>
using namespace lib;
using sup::dto::AnyValue;
namespace C = sup::oac_tree::Constants;
namespace U = sup::oac_tree::utils;

static std::string Ident()
{
  static const std::vector<std::string> w = {"a", "b", "A", "x1", "name", "type", "index", "attributes", "children", "category", "childInstr0",
    "child_0", "full_name", "ws_info", "x_y", "aVeryLongMemberNameThatExceedsSmallStringBuffers", "varName", "file"};
  auto s = w[Rnd(w.size())];
  return Rnd(3) ? s : s + std::to_string(Rnd(100));
}
static std::string Text()
{
  static const std::vector<std::string> w = {"", " ", "true", "0", "@x", "$p", "some text", "a.b[2]", "{\"type\":\"int\"}", "\xff\xfe",
    std::string("a\0b", 3), std::string(300, 'q'), "line\nbreak", "<tag/>", "&amp;", "\"quoted\""};
  return w[Rnd(w.size())];
}
static std::vector<AttributeInfo> Attributes()
{
  std::vector<AttributeInfo> r;
  std::set<std::string> used;
  for (auto n = Rnd(5); n > 0; --n) { auto a = Ident(); if (used.insert(a).second) r.emplace_back(a, Text()); }
  return r;
}
// an independent copy of what a description holds
struct VI { std::string type; unsigned idx; std::vector<AttributeInfo> attrs; };
struct II { std::string type; int cat; unsigned idx; std::vector<AttributeInfo> attrs; std::vector<II> kids; };
struct JI { std::string name; std::vector<std::pair<std::string, VI>> vars; II root; };

static void Number(II& t, std::vector<unsigned>& idx)
{
  t.idx = idx.back();
  idx.pop_back();
  for (auto& k : t.kids) Number(k, idx);
}
static int Count(const II& t) { int n = 1; for (auto& k : t.kids) n += Count(k); return n; }
static II RandomTree(int budget, int depth)
{
  II t{Rnd(8) ? Ident() : std::string(), 0, 0, Attributes(), {}};
  int kind = depth == 0 || budget < 2 ? int(Rnd(3)) : 1 + int(Rnd(2));
  t.cat = kind == 0 ? Instruction::kAction : kind == 1 ? Instruction::kDecorator : Instruction::kCompound;
  if (kind == 0 || depth == 0) return t;
  auto n = kind == 1 ? Rnd(2) : Rnd(Rnd(10) ? 5 : 14);
  for (size_t i = 0; i < n; ++i) t.kids.push_back(RandomTree(budget / int(n + 1), depth - 1));
  return t;
}
static II RandomRoot(int budget = 60)
{
  auto t = RandomTree(budget, int(Rnd(6)));
  std::vector<unsigned> idx(size_t(Count(t)));
  std::iota(idx.begin(), idx.end(), 0u);
  std::shuffle(idx.begin(), idx.end(), S().rng);
  Number(t, idx);
  return t;
}
static std::unique_ptr<InstructionInfo> Build(const II& t)
{
  auto r = std::make_unique<InstructionInfo>(t.type, Instruction::Category(t.cat), t.idx, t.attrs);
  for (auto& k : t.kids) r->AppendChild(Build(k));
  return r;
}
static bool Same(const II& t, const InstructionInfo& i, const std::string& where)
{
  bool ok = Equal(i.GetType(), t.type, "type of instruction " + where);
  ok &= Equal(int(i.GetCategory()), t.cat, "category of instruction " + where);
  ok &= Equal(i.GetIndex(), t.idx, "index of instruction " + where);
  ok &= Check(i.GetAttributes() == t.attrs, "attributes of instruction " + where);
  auto k = i.Children();
  if (!Equal(k.size(), t.kids.size(), "children of instruction " + where)) return false;
  for (size_t n = 0; n < k.size(); ++n) ok &= Same(t.kids[n], *k[n], where + "." + std::to_string(n));
  return ok;
}
static VI RandomVar(unsigned idx) { return {Ident(), idx, Attributes()}; }
static bool Same(const VI& m, const VariableInfo& v, const std::string& where)
{
  bool ok = Equal(v.GetType(), m.type, "type of variable " + where);
  ok &= Equal(v.GetIndex(), m.idx, "index of variable " + where);
  ok &= Check(v.GetAttributes() == m.attrs, "attributes of variable " + where);
  return ok;
}
static std::vector<std::pair<std::string, VI>> RandomVars()
{
  std::vector<std::pair<std::string, VI>> r;
  std::set<std::string> used;
  for (auto n = Rnd(Rnd(10) ? 5 : 20); n > 0; --n)
  {
    auto a = Ident();
    if (used.insert(a).second) r.emplace_back(a, RandomVar(unsigned(r.size())));
  }
  return r;
}
static WorkspaceInfo Build(const std::vector<std::pair<std::string, VI>>& vs)
{
  WorkspaceInfo w;
  for (auto& v : vs) w.AddVariableInfo(v.first, VariableInfo(v.second.type, v.second.idx, v.second.attrs));
  return w;
}
static bool Same(const std::vector<std::pair<std::string, VI>>& m, const WorkspaceInfo& w)
{
  auto& v = w.GetVariableInfos();
  bool ok = Equal(w.GetNumberOfVariables(), m.size(), "number of variables");
  if (!Equal(v.size(), m.size(), "variables")) return false;
  for (size_t i = 0; i < v.size(); ++i)
  {
    ok &= Equal(v[i].first, m[i].first, "name of variable " + std::to_string(i));
    ok &= Same(m[i].second, v[i].second, std::to_string(i));
  }
  auto names = U::BuildVariableNameMap(w);
  ok &= Equal(names.size(), m.size(), "BuildVariableNameMap");
  for (size_t i = 0; i < names.size() && i < m.size(); ++i) ok &= Equal(names[i], m[i].first, "BuildVariableNameMap");
  return ok;
}
static std::string Show(const AnyValue& v) { try { return sup::dto::ValuesToJSONString(v).substr(0, 600); } catch (...) { return "?"; } }

// ---------------------------------------------------------------- round trips
static void RoundTrips(int n)
{
  for (int i = 0; i < n && !S().fails; ++i)
  {
    S().group = "variable description";
    auto vm = RandomVar(unsigned(Rnd(1000)));
    VariableInfo vi(vm.type, vm.idx, vm.attrs);
    Same(vm, vi, "as given");
    auto vav = U::ToAnyValue(vi);
    Case(Show(vav));
    auto vback = U::ToVariableInfo(vav);
    Same(vm, vback, "after the round trip");
    Check(vback == vi && !(vback != vi), "equal after the round trip");

    S().group = "workspace description";
    auto wm = RandomVars();
    auto wi = Build(wm);
    auto wav = U::ToAnyValue(wi);
    Case(Show(wav));
    Same(wm, wi);
    auto wback = U::ToWorkspaceInfo(wav);
    Same(wm, wback);
    Check(wback == wi && !(wback != wi), "equal after the round trip");
    auto wrong = wm.empty() ? RandomVar(1) : RandomVar(unsigned(Rnd(wm.size())));
    try { wi.AddVariableInfo("another", VariableInfo(wrong.type, wrong.idx, wrong.attrs)); Fail("a variable description with a wrong index was added"); }
    catch (const InvalidOperationException&) {}
    if (!wm.empty())
      try { wi.AddVariableInfo(wm[Rnd(wm.size())].first, VariableInfo("T", unsigned(wm.size()), {})); Fail("a second variable description of one name was added"); }
      catch (const InvalidOperationException&) {}
    Same(wm, wi);

    S().group = "instruction description";
    auto im = RandomRoot();
    auto ii = Build(im);
    auto iav = U::ToAnyValueTree(*ii);
    Case(Show(iav));
    Same(im, *ii, "0");
    auto iback = U::ToInstructionInfoTree(iav);
    Same(im, *iback, "0");
    Check(*iback == *ii && !(*iback != *ii), "equal after the round trip");
    auto ordered = U::CreateOrderedInstructionInfo(*iback);
    if (Equal(int(ordered.size()), Count(im), "CreateOrderedInstructionInfo"))
      for (size_t k = 0; k < ordered.size(); ++k)
        if (Check(ordered[k] != nullptr, "CreateOrderedInstructionInfo")) Equal(size_t(ordered[k]->GetIndex()), k, "CreateOrderedInstructionInfo");
    InstructionInfo copy(*ii);
    Same(im, copy, "0 of a copy");
    copy = *iback;
    ii.reset();
    Same(im, copy, "0 of an assigned copy");

    S().group = "job description";
    JI jm{Text(), wm, im};
    JobInfo ji(jm.name, wback, std::move(iback));
    auto jav = U::ToAnyValue(ji);
    Case(Show(jav));
    auto check = [&](const JobInfo& j) {
      Equal(j.GetProcedureName(), jm.name, "procedure name");
      Equal(size_t(j.GetNumberOfVariables()), wm.size(), "GetNumberOfVariables");
      Equal(int(j.GetNumberOfInstructions()), Count(im), "GetNumberOfInstructions");
      Same(wm, j.GetWorkspaceInfo());
      if (Check(j.GetRootInstructionInfo() != nullptr, "root description")) Same(im, *j.GetRootInstructionInfo(), "0");
    };
    check(ji);
    auto jback = U::ToJobInfo(jav);
    check(jback);
    Check(jback == ji && !(jback != ji), "equal after the round trip");
    Check(U::ToAnyValue(jback) == jav, "the transport value is the same again");
    JobInfo jc(jback);
    check(jc);
    Check(jc == jback, "a copy is equal");
    // descriptions that differ anywhere are not equal
    auto jm2 = jm;
    switch (Rnd(4))
    {
    case 0: jm2.name += "x"; break;
    case 1: if (jm2.vars.empty()) jm2.vars.emplace_back("v", VI{"T", 0, {}}); else { auto& v = jm2.vars[Rnd(jm2.vars.size())].second; v.attrs.emplace_back("extraAttr", ""); } break;
    case 2:
    {
      II* t = &jm2.root;
      while (!t->kids.empty() && Rnd(3)) t = &t->kids[Rnd(t->kids.size())];
      if (Rnd(2)) t->type += "x"; else t->attrs.emplace_back("extraAttr", "1");
      break;
    }
    default: if (jm2.vars.size() > 1) std::swap(jm2.vars[0].first, jm2.vars[1].first); else jm2.name = "another"; break;
    }
    JobInfo other(jm2.name, Build(jm2.vars), Build(jm2.root));
    Check(other != ji && !(other == ji), "different descriptions are not equal");
  }
}
// ---------------------------------------------------------------- malformed values
using Path = std::vector<std::string>;
static void Paths(const AnyValue& v, const Path& p, std::vector<Path>& out)
{
  if (!sup::dto::IsStructValue(v)) return;
  for (auto& m : v.MemberNames())
  {
    auto q = p;
    q.push_back(m);
    out.push_back(q);
    Paths(v[m], q, out);
  }
}
// the same value with the member at the path handed to a function: it may drop it, replace it or rename it
static AnyValue Rebuild(const AnyValue& v, const Path& p, size_t at, const std::function<void(AnyValue&, const std::string&, const AnyValue&)>& f)
{
  auto r = sup::dto::EmptyStruct(v.GetTypeName());
  for (auto& m : v.MemberNames())
  {
    if (m != p[at]) r.AddMember(m, v[m]);
    else if (at + 1 == p.size()) f(r, m, v[m]);
    else r.AddMember(m, Rebuild(v[m], p, at + 1, f));
  }
  return r;
}
static AnyValue OtherType(const AnyValue& v)
{
  auto t = v.GetTypeCode();
  switch (Rnd(6))
  {
  case 0: return t == sup::dto::TypeCode::Int32 ? AnyValue(sup::dto::uint8(1)) : AnyValue(sup::dto::int32(1));
  case 1: return t == sup::dto::TypeCode::String ? AnyValue(sup::dto::uint64(3)) : AnyValue(std::string("1"));
  case 2: return AnyValue(2.5);
  case 3: return sup::dto::ArrayValue({AnyValue(sup::dto::uint32(1)), AnyValue(sup::dto::uint32(2))});
  case 4: return t == sup::dto::TypeCode::UInt64 ? AnyValue(true) : AnyValue(sup::dto::uint64(1));
  default: return AnyValue(true);
  }
}
template <typename F>
static void Rejected(const AnyValue& v, const std::string& how, F f)
{
  Case(how + " in " + Show(v));
  try { f(v); }
  catch (const std::exception&) { return; }
  Fail("a value of the wrong shape was accepted: " + how);
}
static void Malformed(int n)
{
  for (int i = 0; i < n && !S().fails; ++i)
  {
    const int kind = i % 4;
    auto im = RandomRoot(i % 5 ? 8 : 30);
    auto wm = RandomVars();
    auto vm = RandomVar(0);
    std::function<void(const AnyValue&)> conv;
    AnyValue good;
    switch (kind)
    {
    case 0: S().group = "malformed variable description"; good = U::ToAnyValue(VariableInfo(vm.type, vm.idx, vm.attrs)); conv = [](const AnyValue& v) { U::ToVariableInfo(v); }; break;
    case 1: S().group = "malformed workspace description"; good = U::ToAnyValue(Build(wm)); conv = [](const AnyValue& v) { U::ToWorkspaceInfo(v); }; break;
    case 2: S().group = "malformed instruction description"; good = U::ToAnyValueTree(*Build(im)); conv = [](const AnyValue& v) { U::ToInstructionInfoTree(v); }; break;
    default: S().group = "malformed job description"; good = U::ToAnyValue(JobInfo("p", Build(wm), Build(im))); conv = [](const AnyValue& v) { U::ToJobInfo(v); }; break;
    }
    for (auto& v : {AnyValue(), AnyValue(sup::dto::int32(3)), AnyValue(std::string("text")), sup::dto::ArrayValue({AnyValue(1.0)})})
      Rejected(v, "no structure", conv);
    if (kind != 1) Rejected(sup::dto::EmptyStruct(), "empty structure", conv);
    std::vector<Path> all;
    Paths(good, {}, all);
    if (all.empty()) continue;
    for (int k = 0; k < 8 && !S().fails; ++k)
    {
      auto p = all[Rnd(all.size())];
      std::string where;
      for (auto& s : p) where += "/" + s;
      // which part of a description the path names
      auto q = p;
      int part = kind;
      if (part == 3)
      {
        part = q[0] == C::kWorkspaceInfoFieldName ? 1 : q[0] == C::kInstructionTreeInfoFieldName ? 2 : 4;
        if (part == 4 || q.size() == 1) part = 5;
        else q.erase(q.begin());
      }
      if (part == 1) { if (q.size() == 1) part = 6; else { q.erase(q.begin()); part = 0; } }
      bool child = false;
      if (part == 2)
      {
        while (q.size() > 2 && q[0] == C::kChildInstructionsField) { q.erase(q.begin()); q.erase(q.begin()); }
        child = q.size() == 2 && q[0] == C::kChildInstructionsField;
      }
      const bool attribute = q.size() == 2 && q[0] == C::kAttributesField && (part == 0 || part == 2);
      const auto drop = Rebuild(good, p, 0, [](AnyValue&, const std::string&, const AnyValue&) {});
      const auto other = Rebuild(good, p, 0, [](AnyValue& r, const std::string& m, const AnyValue& v) { r.AddMember(m, OtherType(v)); });
      const auto renamed = Rebuild(good, p, 0, [](AnyValue& r, const std::string& m, const AnyValue& v) { r.AddMember(m + "Q", v); });
      Rejected(other, "another type at " + where, conv);
      const bool children_field = part == 2 && q.size() == 1 && q[0] == C::kChildInstructionsField;
      if (attribute) continue;               // dropping or renaming an attribute gives another valid description
      if (part == 6) continue;               // likewise renaming a variable; dropping one shifts the indices (below)
      if (children_field) continue;          // without children it may be valid again, depending on the indices
      Rejected(renamed, "renamed member at " + where, conv);
      if (!child) Rejected(drop, "missing member at " + where, conv);
      else
      {
        const AnyValue* parent = &good;
        for (size_t k = 0; k + 1 < p.size(); ++k) parent = &(*parent)[p[k]];
        if (parent->MemberNames().back() != p.back()) Rejected(drop, "missing child at " + where, conv);
      }
    }
    // an index twice or out of range
    for (auto& p : all)
    {
      if (p.back() != C::kIndexField || kind == 0 || (p.size() > 1 && p[p.size() - 2] == C::kAttributesField)) continue;
      if (Rnd(4)) continue;
      if (kind == 3 && p.size() < 2) continue;
      const AnyValue* at = &good;
      for (auto& s : p) at = &(*at)[s];
      if (at->GetType() != sup::dto::UnsignedInteger32Type) continue;        // a variable of that name
      std::string where;
      for (auto& s : p) where += "/" + s;
      for (unsigned d : {1u, 1000u, 4294967295u})
        Rejected(Rebuild(good, p, 0, [&](AnyValue& r, const std::string& m, const AnyValue& v) { r.AddMember(m, AnyValue(sup::dto::uint32(v.As<sup::dto::uint32>() + d))); }),
                 "index changed by " + std::to_string(d) + " at " + where, conv);
    }
    if (kind == 0)
      Rejected(Rebuild(good, {C::kVariableInfoTypeField}, 0, [](AnyValue& r, const std::string& m, const AnyValue&) { r.AddMember(m, AnyValue(std::string())); }),
               "a variable description without type", conv);
  }
  // children that the category does not allow
  S().group = "malformed instruction description";
  for (int cat : {Instruction::kAction, Instruction::kDecorator})
  {
    II t{"T", Instruction::kCompound, 0, {}, {}};
    const int n = cat == Instruction::kAction ? 1 : 2;
    for (int k = 0; k < n; ++k) t.kids.push_back({"L", Instruction::kAction, unsigned(k + 1), {}, {}});
    auto v = U::ToAnyValueTree(*Build(t));
    v[C::kInstructionInfoNodeCategoryField] = AnyValue(sup::dto::uint32(cat));
    Rejected(v, "more children than the category allows", [](const AnyValue& x) { U::ToInstructionInfoTree(x); });
  }
  // children out of order
  {
    II t{"T", Instruction::kCompound, 0, {}, {{"A", Instruction::kAction, 1, {}, {}}, {"B", Instruction::kAction, 2, {}, {}}}};
    auto v = U::ToAnyValueTree(*Build(t));
    auto k = sup::dto::EmptyStruct();
    auto names = v[C::kChildInstructionsField].MemberNames();
    for (size_t i = names.size(); i > 0; --i) k.AddMember(names[i - 1], v[C::kChildInstructionsField][names[i - 1]]);
    Rejected(Rebuild(v, {C::kChildInstructionsField}, 0, [&](AnyValue& r, const std::string& m, const AnyValue&) { r.AddMember(m, k); }),
             "children in another order", [](const AnyValue& x) { U::ToInstructionInfoTree(x); });
  }
}
// ---------------------------------------------------------------- user input
static AnyValue RandomValue()
{
  switch (Rnd(9))
  {
  case 0: return AnyValue(sup::dto::int32(Rnd(5)) - 2);
  case 1: return AnyValue(std::string(Text()));
  case 2: return AnyValue(true);
  case 3: return AnyValue(3.25);
  case 4: return AnyValue({{"a", AnyValue(sup::dto::uint8(3))}, {"b", AnyValue(std::string("x"))}}, Rnd(2) ? "named" : "");
  case 5: return sup::dto::ArrayValue({AnyValue(1.0), AnyValue(2.0)});
  case 6: return AnyValue(sup::dto::uint64(1) << 63);
  case 7: return AnyValue({{"text", AnyValue(std::string("pick one"))}, {"nested", AnyValue({{"n", AnyValue(sup::dto::int8(-1))}})}});
  default: return AnyValue();
  }
}
static void Replies(int n)
{
  S().group = "replies";
  for (int i = 0; i < n && !S().fails; ++i)
  {
    const bool good = Rnd(2);
    auto v = RandomValue();
    Case("value reply, result " + std::to_string(good) + ", " + Show(v));
    auto r = CreateUserValueReply(good, v);
    auto p = ParseUserValueReply(r);
    Equal(p.first, good, "parsing a value reply");
    if (good) Check(p.second == v && p.second.GetType() == v.GetType(), "the value comes back");
    Check(!ParseUserChoiceReply(r).first, "a value reply is no choice");
    Check(r == CreateUserValueReply(good, v) && r != CreateUserValueReply(!good, v), "comparison of replies");
    static const std::vector<int> cs = {0, 1, 2, -1, -7, 2147483647, -2147483647 - 1, 128, 255, 256, 65536};
    int c = Rnd(3) ? cs[Rnd(cs.size())] : int(Rnd(1u << 31));
    Case("choice reply, result " + std::to_string(good) + ", " + std::to_string(c));
    auto q = CreateUserChoiceReply(good, c);
    auto pc = ParseUserChoiceReply(q);
    Equal(pc.first, good, "parsing a choice reply");
    if (good) Equal(int(pc.second), c, "the choice comes back");
    Check(!ParseUserValueReply(q).first, "a choice reply is no value");
    Check(q == CreateUserChoiceReply(good, c) && q != CreateUserChoiceReply(good, c ^ 1) && q != r, "comparison of replies");
    for (auto kind : {InputRequestType::kInvalid, InputRequestType::kUserValue, InputRequestType::kUserChoice})
      for (bool res : {false, true})
      {
        auto pay = RandomValue();
        UserInputReply x{kind, res, pay};
        Case("reply of kind " + std::to_string(int(kind)) + ", result " + std::to_string(res) + ", payload " + Show(pay));
        auto xv = ParseUserValueReply(x);
        Equal(xv.first, kind == InputRequestType::kUserValue && res, "parsing as a value");
        if (xv.first) Check(xv.second == pay, "the payload comes back");
        auto xc = ParseUserChoiceReply(x);
        Equal(xc.first, kind == InputRequestType::kUserChoice && res && pay.GetType() == sup::dto::SignedInteger32Type, "parsing as a choice");
        if (xc.first) Equal(xc.second, pay.As<sup::dto::int32>(), "the payload comes back");
      }
  }
}
static void Requests(int n)
{
  S().group = "requests";
  for (int i = 0; i < n && !S().fails; ++i)
  {
    auto v = RandomValue();
    auto d = Text();
    Case("value request for " + Show(v) + " '" + d + "'");
    auto r = CreateUserValueRequest(v, d);
    AnyValue out;
    std::string desc = "before";
    Check(ParseUserValueRequest(r, out, desc), "parsing a value request");
    Check(out.GetType() == v.GetType(), "the type of the value comes back");
    Equal(desc, d, "the description comes back");
    std::vector<std::string> opts;
    for (auto k = Rnd(6); k > 0; --k) opts.push_back(Text());
    std::vector<std::string> got = {"before"};
    AnyValue meta;
    Check(!ParseUserChoiceRequest(r, got, meta), "a value request is no choice request");
    Check(got == std::vector<std::string>{"before"}, "options untouched by a failed parse");
    AnyValue m = AnyValue({{"text", RandomValue()}});
    Case("choice request of " + std::to_string(opts.size()) + " options, " + Show(m));
    auto q = CreateUserChoiceRequest(opts, m);
    AnyValue meta2;
    Check(ParseUserChoiceRequest(q, got, meta2), "parsing a choice request");
    Check(got == opts, "the options come back in order");
    Check(meta2 == m, "the metadata comes back");
    AnyValue out2;
    std::string desc2 = "before";
    Check(!ParseUserValueRequest(q, out2, desc2), "a choice request is no value request");
    Equal(desc2, std::string("before"), "description untouched by a failed parse");
    Check(q == CreateUserChoiceRequest(opts, m) && q != r, "comparison of requests");
    // requests that do not come from these functions
    auto x = RandomValue();
    UserInputRequest bad{InputRequestType::kUserChoice, x, sup::dto::SignedInteger32Type};
    Case("choice request with metadata " + Show(x));
    Check(!ParseUserChoiceRequest(bad, got, meta2), "a request without options and metadata was parsed");
    AnyValue nums = sup::dto::ArrayValue({AnyValue(1.0)});
    AnyValue y = AnyValue({{C::kInputRequestOptionsFieldName, Rnd(2) ? nums : AnyValue(std::string("x"))}, {C::kInputRequestMetadataFieldName, m}});
    bad.m_meta_data = y;
    Case("choice request with metadata " + Show(y));
    Check(!ParseUserChoiceRequest(bad, got, meta2), "options that are no texts were parsed");
    UserInputRequest bad2{InputRequestType::kUserValue, nums, v.GetType()};
    Check(!ParseUserValueRequest(bad2, out2, desc2), "a description that is no text was parsed");
    Equal(desc2, std::string("before"), "description untouched by a failed parse");
  }
}

int main(int argc, char** argv)
{
  return drv::Main(argc, argv, [] {
    const int k = S().deep ? 6 : 1;
    Replies(300 * k);
    Requests(300 * k);
    RoundTrips(120 * k);
    Malformed(120 * k);
  });
}
