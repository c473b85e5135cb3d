// Functional stand-ins for the parts of sup-dto and sup-utils that oac-tree uses. The dependencies are not installed
// in this sandbox; the replay drivers link this file so that the real oac-tree sources can run. It is not the code
// under verification: contracts about these functions are assumed contracts on a dependency.
#include <deque>
#include <sup/dto/anytype.h>
#include <sup/dto/anytype_helper.h>
#include <sup/dto/anytype_registry.h>
#include <sup/dto/anyvalue.h>
#include <sup/dto/anyvalue_helper.h>
#include <sup/dto/anyvalue_operations.h>
#include <sup/dto/json_type_parser.h>
#include <sup/dto/json_value_parser.h>
#include <sup/xml/exceptions.h>
#include <sup/xml/tree_data.h>
#include <sup/xml/tree_data_parser.h>
#include <sup/xml/tree_data_serialize.h>

#include <algorithm>
#include <cctype>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <limits>
#include <sstream>

namespace sup
{
namespace dto
{
MessageException::MessageException(std::string message) : m_message{std::move(message)} {}
const char* MessageException::what() const noexcept { return m_message.c_str(); }
InvalidOperationException::InvalidOperationException(const std::string& m) : MessageException{m} {}
InvalidConversionException::InvalidConversionException(const std::string& m) : MessageException{m} {}
SerializeException::SerializeException(const std::string& m) : MessageException{m} {}
ParseException::ParseException(const std::string& m) : MessageException{m} {}

// ------------------------------------------------------------------ AnyType
struct AnyType::Impl
{
  TypeCode code{TypeCode::Empty};
  std::string name;
  std::deque<std::pair<std::string, AnyType>> members;
  std::vector<AnyType> elem;
  std::size_t n{0};
};

namespace
{
// "a.b[2].c" -> "a", "b", "[2]", "c"
std::vector<std::string> SplitField(const std::string& f)
{
  std::vector<std::string> out;
  std::string cur;
  for (std::size_t i = 0; i < f.size(); ++i)
  {
    if (f[i] == '.')
    {
      if (!cur.empty()) { out.push_back(cur); cur.clear(); }
      else if (i == 0 || f[i - 1] != ']') { return {}; }
      if (i + 1 == f.size()) { return {}; }
    }
    else if (f[i] == '[')
    {
      if (!cur.empty()) { out.push_back(cur); cur.clear(); }
      auto e = f.find(']', i);
      if (e == std::string::npos || e == i + 1) { return {}; }
      out.push_back(f.substr(i, e - i + 1));
      i = e;
    }
    else
    {
      cur += f[i];
    }
  }
  if (!cur.empty()) { out.push_back(cur); }
  return out;
}
bool Index(const std::string& s, std::size_t& idx)
{
  if (s.size() < 3 || s[0] != '[') { return false; }
  idx = 0;
  for (std::size_t i = 1; i + 1 < s.size(); ++i)
  {
    if (!std::isdigit(static_cast<unsigned char>(s[i]))) { return false; }
    idx = idx * 10 + (s[i] - '0');
  }
  return true;
}
}  // namespace

AnyType::AnyType() : m_impl{new Impl} {}
AnyType::AnyType(TypeCode code) : m_impl{new Impl} { m_impl->code = code; }
AnyType::AnyType(std::initializer_list<std::pair<std::string, AnyType>> members, const std::string& name)
  : m_impl{new Impl}
{
  m_impl->code = TypeCode::Struct;
  m_impl->name = name;
  for (auto& m : members) { AddMember(m.first, m.second); }
}
AnyType::AnyType(std::size_t n, const AnyType& elem_type, const std::string& name) : m_impl{new Impl}
{
  m_impl->code = TypeCode::Array;
  m_impl->name = name;
  m_impl->n = n;
  m_impl->elem.push_back(elem_type);
}
AnyType::AnyType(const AnyType& o) : m_impl{new Impl(*o.m_impl)} {}
AnyType::AnyType(AnyType&& o) : m_impl{std::move(o.m_impl)} { o.m_impl.reset(new Impl); }
AnyType& AnyType::operator=(const AnyType& o)
{
  std::unique_ptr<Impl> p{new Impl(*o.m_impl)};
  m_impl = std::move(p);
  return *this;
}
AnyType& AnyType::operator=(AnyType&& o)
{
  std::swap(m_impl, o.m_impl);
  return *this;
}
AnyType::~AnyType() = default;
TypeCode AnyType::GetTypeCode() const { return m_impl->code; }
std::string AnyType::GetTypeName() const
{
  static const char* names[] = {"empty", "bool", "char8", "int8", "uint8", "int16", "uint16", "int32",
                                "uint32", "int64", "uint64", "float32", "float64", "string"};
  if (m_impl->code < TypeCode::Struct) { return names[static_cast<int>(m_impl->code)]; }
  return m_impl->name;
}
AnyType& AnyType::AddMember(const std::string& name, const AnyType& type)
{
  if (m_impl->code != TypeCode::Struct) { throw InvalidOperationException("not a struct"); }
  if (name.empty() || name.find_first_of(" .[]\"\t\n") != std::string::npos)
  {
    throw InvalidOperationException("bad member name");
  }
  for (auto& m : m_impl->members)
  {
    if (m.first == name) { throw InvalidOperationException("duplicate member"); }
  }
  m_impl->members.emplace_back(name, type);
  return *this;
}
std::vector<std::string> AnyType::MemberNames() const
{
  std::vector<std::string> r;
  for (auto& m : m_impl->members) { r.push_back(m.first); }
  return r;
}
std::size_t AnyType::NumberOfMembers() const { return m_impl->members.size(); }
std::size_t AnyType::NumberOfElements() const { return m_impl->n; }
AnyType AnyType::ElementType() const
{
  if (m_impl->code != TypeCode::Array) { throw InvalidOperationException("not an array"); }
  return m_impl->elem[0];
}
bool AnyType::HasField(const std::string& f) const
{
  auto parts = SplitField(f);
  if (parts.empty()) { return false; }
  const AnyType* t = this;
  for (auto& p : parts)
  {
    std::size_t i;
    if (p == "[]") { return false; }
    if (Index(p, i))
    {
      if (t->m_impl->code != TypeCode::Array) { return false; }
      t = &t->m_impl->elem[0];
      continue;
    }
    const AnyType* nx = nullptr;
    for (auto& m : t->m_impl->members) { if (m.first == p) { nx = &m.second; } }
    if (!nx) { return false; }
    t = nx;
  }
  return true;
}
AnyType& AnyType::operator[](const std::string& f)
{
  return const_cast<AnyType&>(static_cast<const AnyType&>(*this)[f]);
}
const AnyType& AnyType::operator[](const std::string& f) const
{
  if (!HasField(f)) { throw InvalidOperationException("no field"); }
  const AnyType* t = this;
  for (auto& p : SplitField(f))
  {
    std::size_t i;
    if (Index(p, i)) { t = &t->m_impl->elem[0]; continue; }
    for (auto& m : t->m_impl->members) { if (m.first == p) { t = &m.second; break; } }
  }
  return *t;
}
bool AnyType::operator==(const AnyType& o) const
{
  if (m_impl->code != o.m_impl->code || m_impl->name != o.m_impl->name || m_impl->n != o.m_impl->n) { return false; }
  if (m_impl->members.size() != o.m_impl->members.size()) { return false; }
  for (std::size_t i = 0; i < m_impl->members.size(); ++i)
  {
    if (m_impl->members[i].first != o.m_impl->members[i].first
        || m_impl->members[i].second != o.m_impl->members[i].second)
    {
      return false;
    }
  }
  return m_impl->elem.size() == o.m_impl->elem.size() && (m_impl->elem.empty() || m_impl->elem[0] == o.m_impl->elem[0]);
}
bool AnyType::operator!=(const AnyType& o) const { return !(*this == o); }
const AnyType::Impl* AnyType::GetImpl() const { return m_impl.get(); }
AnyType::Impl* AnyType::GetImpl() { return m_impl.get(); }
AnyType EmptyStructType(const std::string& type_name) { return AnyType({}, type_name); }
bool IsEmptyType(const AnyType& t) { return t.GetTypeCode() == TypeCode::Empty; }
bool IsStructType(const AnyType& t) { return t.GetTypeCode() == TypeCode::Struct; }
bool IsArrayType(const AnyType& t) { return t.GetTypeCode() == TypeCode::Array; }
bool IsScalarType(const AnyType& t)
{
  return t.GetTypeCode() >= TypeCode::Bool && t.GetTypeCode() <= TypeCode::String;
}

// ------------------------------------------------------------------ AnyValue
struct AnyValue::Impl
{
  TypeCode code{TypeCode::Empty};
  std::string name;
  // scalar payload
  bool b{false};
  int64 i{0};
  uint64 u{0};
  double d{0};
  std::string s;
  std::deque<std::pair<std::string, AnyValue>> members;  // struct members, or array elements (empty names)
  AnyType elem;
  bool fixed{false};  // part of an array element: its type cannot change
};

namespace
{
bool IsSigned(TypeCode c)
{
  return c == TypeCode::Int8 || c == TypeCode::Int16 || c == TypeCode::Int32 || c == TypeCode::Int64;
}
bool IsUnsigned(TypeCode c)
{
  return c == TypeCode::UInt8 || c == TypeCode::UInt16 || c == TypeCode::UInt32 || c == TypeCode::UInt64
         || c == TypeCode::Char8;
}
bool IsInt(TypeCode c) { return IsSigned(c) || IsUnsigned(c); }
bool IsFloat(TypeCode c) { return c == TypeCode::Float32 || c == TypeCode::Float64; }
int64 SMin(TypeCode c)
{
  switch (c)
  {
  case TypeCode::Int8: return -128;
  case TypeCode::Int16: return -32768;
  case TypeCode::Int32: return std::numeric_limits<int32>::min();
  default: return std::numeric_limits<int64>::min();
  }
}
int64 SMax(TypeCode c)
{
  switch (c)
  {
  case TypeCode::Int8: return 127;
  case TypeCode::Int16: return 32767;
  case TypeCode::Int32: return std::numeric_limits<int32>::max();
  default: return std::numeric_limits<int64>::max();
  }
}
uint64 UMax(TypeCode c)
{
  switch (c)
  {
  case TypeCode::Char8: return 255;
  case TypeCode::UInt8: return 255;
  case TypeCode::UInt16: return 65535;
  case TypeCode::UInt32: return std::numeric_limits<uint32>::max();
  default: return std::numeric_limits<uint64>::max();
  }
}
}  // namespace

#define SCALAR(T, CODE, FIELD, W)                                  \
  AnyValue::AnyValue(T v) : m_impl{new Impl}                        \
  {                                                                 \
    m_impl->code = TypeCode::CODE;                                  \
    m_impl->FIELD = static_cast<W>(v);                              \
  }
AnyValue::AnyValue() : m_impl{new Impl} {}
SCALAR(boolean, Bool, b, bool)
AnyValue::AnyValue(char8 v) : m_impl{new Impl}
{
  m_impl->code = TypeCode::Char8;
  m_impl->u = static_cast<unsigned char>(v);
}
SCALAR(int8, Int8, i, int64)
SCALAR(uint8, UInt8, u, uint64)
SCALAR(int16, Int16, i, int64)
SCALAR(uint16, UInt16, u, uint64)
SCALAR(int32, Int32, i, int64)
SCALAR(uint32, UInt32, u, uint64)
SCALAR(int64, Int64, i, int64)
SCALAR(uint64, UInt64, u, uint64)
SCALAR(float32, Float32, d, double)
SCALAR(float64, Float64, d, double)
AnyValue::AnyValue(const std::string& v) : m_impl{new Impl}
{
  m_impl->code = TypeCode::String;
  m_impl->s = v;
}
AnyValue::AnyValue(const char* v) : AnyValue(std::string(v)) {}
AnyValue::AnyValue(const AnyType& t) : m_impl{new Impl}
{
  m_impl->code = t.GetTypeCode();
  if (m_impl->code >= TypeCode::Struct) { m_impl->name = t.GetTypeName(); }
  if (m_impl->code == TypeCode::Struct)
  {
    for (auto& n : t.MemberNames()) { m_impl->members.emplace_back(n, AnyValue(t[n])); }
  }
  if (m_impl->code == TypeCode::Array)
  {
    m_impl->elem = t.ElementType();
    for (std::size_t i = 0; i < t.NumberOfElements(); ++i)
    {
      m_impl->members.emplace_back(std::string(), AnyValue(m_impl->elem));
    }
  }
}
AnyValue::AnyValue(const AnyType& t, const AnyValue& v) : AnyValue(t) { ConvertFrom(v); }
AnyValue::AnyValue(std::initializer_list<std::pair<std::string, AnyValue>> members, const std::string& name)
  : m_impl{new Impl}
{
  m_impl->code = TypeCode::Struct;
  m_impl->name = name;
  for (auto& m : members) { AddMember(m.first, m.second); }
}
AnyValue::AnyValue(std::size_t n, const AnyType& e, const std::string& name) : AnyValue(AnyType(n, e, name)) {}
AnyValue::AnyValue(const AnyValue& o) : m_impl{new Impl(*o.m_impl)} { m_impl->fixed = false; }
AnyValue::AnyValue(AnyValue&& o) : m_impl{std::move(o.m_impl)}
{
  m_impl->fixed = false;
  o.m_impl.reset(new Impl);
}
AnyValue& AnyValue::operator=(const AnyValue& o)
{
  if (m_impl->fixed)
  {
    ConvertFrom(o);
    return *this;
  }
  std::unique_ptr<Impl> p{new Impl(*o.m_impl)};
  p->fixed = false;
  m_impl = std::move(p);
  return *this;
}
AnyValue& AnyValue::operator=(AnyValue&& o)
{
  if (m_impl->fixed)
  {
    ConvertFrom(o);
    return *this;
  }
  if (this != &o)
  {
    std::unique_ptr<Impl> p{new Impl(*o.m_impl)};
    p->fixed = false;
    m_impl = std::move(p);
    o.m_impl.reset(new Impl);
  }
  return *this;
}
AnyValue::~AnyValue() = default;
TypeCode AnyValue::GetTypeCode() const { return m_impl->code; }
AnyType AnyValue::GetType() const
{
  if (m_impl->code == TypeCode::Struct)
  {
    AnyType t({}, m_impl->name);
    for (auto& m : m_impl->members) { t.AddMember(m.first, m.second.GetType()); }
    return t;
  }
  if (m_impl->code == TypeCode::Array) { return AnyType(m_impl->members.size(), m_impl->elem, m_impl->name); }
  return AnyType(m_impl->code);
}
std::string AnyValue::GetTypeName() const { return GetType().GetTypeName(); }
void AnyValue::ConvertFrom(const AnyValue& o)
{
  auto c = m_impl->code;
  auto oc = o.m_impl->code;
  const InvalidConversionException bad("cannot convert");
  if (c == TypeCode::Empty)
  {
    if (oc != TypeCode::Empty) { throw bad; }
    return;
  }
  if (c == TypeCode::Struct)
  {
    if (oc != TypeCode::Struct || m_impl->members.size() != o.m_impl->members.size()) { throw bad; }
    auto copy = *m_impl;
    for (std::size_t k = 0; k < copy.members.size(); ++k)
    {
      if (copy.members[k].first != o.m_impl->members[k].first) { throw bad; }
      copy.members[k].second.ConvertFrom(o.m_impl->members[k].second);
    }
    *m_impl = copy;
    return;
  }
  if (c == TypeCode::Array)
  {
    if (oc != TypeCode::Array || m_impl->members.size() != o.m_impl->members.size()) { throw bad; }
    auto copy = *m_impl;
    for (std::size_t k = 0; k < copy.members.size(); ++k)
    {
      copy.members[k].second.ConvertFrom(o.m_impl->members[k].second);
    }
    *m_impl = copy;
    return;
  }
  if (oc >= TypeCode::Struct || oc == TypeCode::Empty) { throw bad; }
  if (c == TypeCode::String)
  {
    if (oc != TypeCode::String) { throw bad; }
    m_impl->s = o.m_impl->s;
    return;
  }
  if (oc == TypeCode::String) { throw bad; }
  if (c == TypeCode::Bool) { m_impl->b = o.As<boolean>(); return; }
  if (IsSigned(c))
  {
    auto v = o.As<int64>();
    if (v < SMin(c) || v > SMax(c)) { throw bad; }
    m_impl->i = v;
    return;
  }
  if (IsUnsigned(c))
  {
    auto v = o.As<uint64>();
    if (v > UMax(c)) { throw bad; }
    m_impl->u = v;
    return;
  }
  auto v = o.As<float64>();
  m_impl->d = c == TypeCode::Float32 ? static_cast<double>(static_cast<float>(v)) : v;
}
AnyValue& AnyValue::AddMember(const std::string& name, const AnyValue& value)
{
  if (m_impl->code != TypeCode::Struct || m_impl->fixed) { throw InvalidOperationException("not an open struct"); }
  if (name.empty() || name.find_first_of(" .[]\"\t\n") != std::string::npos)
  {
    throw InvalidOperationException("bad member name");
  }
  for (auto& m : m_impl->members)
  {
    if (m.first == name) { throw InvalidOperationException("duplicate member"); }
  }
  m_impl->members.emplace_back(name, value);
  return *this;
}
std::vector<std::string> AnyValue::MemberNames() const
{
  std::vector<std::string> r;
  if (m_impl->code == TypeCode::Struct)
  {
    for (auto& m : m_impl->members) { r.push_back(m.first); }
  }
  return r;
}
std::size_t AnyValue::NumberOfMembers() const
{
  return m_impl->code == TypeCode::Struct ? m_impl->members.size() : 0;
}
AnyValue& AnyValue::AddElement(const AnyValue& value)
{
  if (m_impl->code != TypeCode::Array || m_impl->fixed) { throw InvalidOperationException("not an open array"); }
  AnyValue e(m_impl->elem);
  if (IsEmptyType(m_impl->elem)) { m_impl->elem = value.GetType(); e = AnyValue(m_impl->elem); }
  try
  {
    e.ConvertFrom(value);
  }
  catch (const InvalidConversionException&)
  {
    throw InvalidOperationException("element of wrong type");
  }
  m_impl->members.emplace_back(std::string(), e);
  return *this;
}
std::size_t AnyValue::NumberOfElements() const
{
  return m_impl->code == TypeCode::Array ? m_impl->members.size() : 0;
}
std::vector<std::string> AnyValue::ChildNames() const
{
  if (m_impl->code == TypeCode::Struct) { return MemberNames(); }
  std::vector<std::string> r;
  for (std::size_t i = 0; i < NumberOfElements(); ++i) { r.push_back("[" + std::to_string(i) + "]"); }
  return r;
}
bool AnyValue::HasField(const std::string& f) const
{
  auto parts = SplitField(f);
  if (parts.empty()) { return false; }
  const AnyValue* t = this;
  for (auto& p : parts)
  {
    std::size_t i;
    if (p[0] == '[')
    {
      if (!Index(p, i) || t->m_impl->code != TypeCode::Array || i >= t->m_impl->members.size()) { return false; }
      t = &t->m_impl->members[i].second;
      continue;
    }
    if (t->m_impl->code != TypeCode::Struct) { return false; }
    const AnyValue* nx = nullptr;
    for (auto& m : t->m_impl->members) { if (m.first == p) { nx = &m.second; } }
    if (!nx) { return false; }
    t = nx;
  }
  return true;
}
const AnyValue& AnyValue::operator[](const std::string& f) const
{
  if (!HasField(f)) { throw InvalidOperationException("no field " + f); }
  const AnyValue* t = this;
  for (auto& p : SplitField(f))
  {
    std::size_t i;
    if (Index(p, i)) { t = &t->m_impl->members[i].second; continue; }
    for (auto& m : t->m_impl->members) { if (m.first == p) { t = &m.second; break; } }
  }
  return *t;
}
AnyValue& AnyValue::operator[](const std::string& f)
{
  if (!HasField(f)) { throw InvalidOperationException("no field " + f); }
  AnyValue* t = this;
  for (auto& p : SplitField(f))
  {
    std::size_t i;
    bool fixed = t->m_impl->fixed;
    if (Index(p, i))
    {
      t = &t->m_impl->members[i].second;
      fixed = true;
    }
    else
    {
      for (auto& m : t->m_impl->members) { if (m.first == p) { t = &m.second; break; } }
    }
    t->m_impl->fixed = fixed;
  }
  return *t;
}
const AnyValue& AnyValue::operator[](std::size_t i) const
{
  if (m_impl->code != TypeCode::Array || i >= m_impl->members.size()) { throw InvalidOperationException("index"); }
  return m_impl->members[i].second;
}
AnyValue& AnyValue::operator[](std::size_t i)
{
  auto& r = const_cast<AnyValue&>(static_cast<const AnyValue&>(*this)[i]);
  r.m_impl->fixed = true;
  return r;
}
bool AnyValue::operator==(const AnyValue& o) const
{
  auto c = m_impl->code, oc = o.m_impl->code;
  if (c == TypeCode::Struct || c == TypeCode::Array)
  {
    if (c != oc || m_impl->name != o.m_impl->name || m_impl->members.size() != o.m_impl->members.size())
    {
      return false;
    }
    if (c == TypeCode::Array && m_impl->elem != o.m_impl->elem) { return false; }
    for (std::size_t i = 0; i < m_impl->members.size(); ++i)
    {
      if (m_impl->members[i].first != o.m_impl->members[i].first
          || m_impl->members[i].second != o.m_impl->members[i].second)
      {
        return false;
      }
    }
    return true;
  }
  if (c == TypeCode::Empty || oc == TypeCode::Empty) { return c == oc; }
  if (oc >= TypeCode::Struct) { return false; }
  if (c == TypeCode::String || oc == TypeCode::String) { return c == oc && m_impl->s == o.m_impl->s; }
  if (c == TypeCode::Bool || oc == TypeCode::Bool) { return c == oc && m_impl->b == o.m_impl->b; }
  return Compare(*this, o) == CompareResult::Equivalent;
}
bool AnyValue::operator!=(const AnyValue& o) const { return !(*this == o); }
const AnyValue::Impl* AnyValue::GetImpl() const { return m_impl.get(); }
AnyValue::Impl* AnyValue::GetImpl() { return m_impl.get(); }

namespace
{
[[noreturn]] void BadAs() { throw InvalidConversionException("cannot convert"); }
}
template <> boolean AnyValue::As<boolean>() const
{
  auto c = m_impl->code;
  if (c == TypeCode::Bool) { return m_impl->b; }
  if (IsSigned(c)) { return m_impl->i != 0; }
  if (IsUnsigned(c)) { return m_impl->u != 0; }
  if (IsFloat(c)) { return m_impl->d != 0; }
  BadAs();
}
template <> int64 AnyValue::As<int64>() const
{
  auto c = m_impl->code;
  if (c == TypeCode::Bool) { return m_impl->b; }
  if (IsSigned(c)) { return m_impl->i; }
  if (IsUnsigned(c))
  {
    if (m_impl->u > static_cast<uint64>(std::numeric_limits<int64>::max())) { BadAs(); }
    return static_cast<int64>(m_impl->u);
  }
  if (IsFloat(c))
  {
    if (!(m_impl->d >= -9223372036854775808.0 && m_impl->d < 9223372036854775808.0)) { BadAs(); }
    return static_cast<int64>(m_impl->d);
  }
  BadAs();
}
template <> uint64 AnyValue::As<uint64>() const
{
  auto c = m_impl->code;
  if (c == TypeCode::Bool) { return m_impl->b; }
  if (IsSigned(c))
  {
    if (m_impl->i < 0) { BadAs(); }
    return static_cast<uint64>(m_impl->i);
  }
  if (IsUnsigned(c)) { return m_impl->u; }
  if (IsFloat(c))
  {
    if (!(m_impl->d > -1.0 && m_impl->d < 18446744073709551616.0)) { BadAs(); }
    return static_cast<uint64>(m_impl->d);
  }
  BadAs();
}
template <> float64 AnyValue::As<float64>() const
{
  auto c = m_impl->code;
  if (c == TypeCode::Bool) { return m_impl->b; }
  if (IsSigned(c)) { return static_cast<double>(m_impl->i); }
  if (IsUnsigned(c)) { return static_cast<double>(m_impl->u); }
  if (IsFloat(c)) { return m_impl->d; }
  BadAs();
}
template <> float32 AnyValue::As<float32>() const { return static_cast<float>(As<float64>()); }
#define NARROW_S(T, CODE)                                                                   \
  template <> T AnyValue::As<T>() const                                                      \
  {                                                                                          \
    auto v = As<int64>();                                                                    \
    if (v < SMin(TypeCode::CODE) || v > SMax(TypeCode::CODE)) { BadAs(); }                   \
    return static_cast<T>(v);                                                                \
  }
#define NARROW_U(T, CODE)                                                                   \
  template <> T AnyValue::As<T>() const                                                      \
  {                                                                                          \
    auto v = As<uint64>();                                                                   \
    if (v > UMax(TypeCode::CODE)) { BadAs(); }                                               \
    return static_cast<T>(v);                                                                \
  }
NARROW_S(int8, Int8)
NARROW_S(int16, Int16)
NARROW_S(int32, Int32)
NARROW_U(char8, Char8)
NARROW_U(uint8, UInt8)
NARROW_U(uint16, UInt16)
NARROW_U(uint32, UInt32)
template <> std::string AnyValue::As<std::string>() const
{
  if (m_impl->code != TypeCode::String) { BadAs(); }
  return m_impl->s;
}
template <typename T> bool AnyValue::As(T& value) const
{
  try
  {
    value = As<T>();
  }
  catch (const MessageException&)
  {
    return false;
  }
  return true;
}
template bool AnyValue::As<boolean>(boolean&) const;
template bool AnyValue::As<char8>(char8&) const;
template bool AnyValue::As<int8>(int8&) const;
template bool AnyValue::As<uint8>(uint8&) const;
template bool AnyValue::As<int16>(int16&) const;
template bool AnyValue::As<uint16>(uint16&) const;
template bool AnyValue::As<int32>(int32&) const;
template bool AnyValue::As<uint32>(uint32&) const;
template bool AnyValue::As<int64>(int64&) const;
template bool AnyValue::As<uint64>(uint64&) const;
template bool AnyValue::As<float32>(float32&) const;
template bool AnyValue::As<float64>(float64&) const;
template bool AnyValue::As<std::string>(std::string&) const;
bool IsEmptyValue(const AnyValue& v) { return v.GetTypeCode() == TypeCode::Empty; }
bool IsStructValue(const AnyValue& v) { return v.GetTypeCode() == TypeCode::Struct; }
bool IsArrayValue(const AnyValue& v) { return v.GetTypeCode() == TypeCode::Array; }
bool IsScalarValue(const AnyValue& v)
{
  return v.GetTypeCode() >= TypeCode::Bool && v.GetTypeCode() <= TypeCode::String;
}
AnyValue EmptyStruct(const std::string& name) { return AnyValue(EmptyStructType(name)); }
AnyValue ArrayValue(std::initializer_list<AnyValue> elements, const std::string& name)
{
  if (elements.size() == 0) { throw InvalidOperationException("empty array"); }
  AnyValue r(0, elements.begin()->GetType(), name);
  for (auto& e : elements) { r.AddElement(e); }
  return r;
}

// ------------------------------------------------------------------ operations
CompareResult Compare(const AnyValue& l, const AnyValue& r)
{
  auto a = l.GetTypeCode(), b = r.GetTypeCode();
  auto sc = [](TypeCode c) { return c >= TypeCode::Bool && c <= TypeCode::String; };
  if (!sc(a) || !sc(b)) { return l.GetTypeCode() == r.GetTypeCode() && a >= TypeCode::Struct && l == r
                                   ? CompareResult::Equivalent : CompareResult::Unordered; }
  if (a == TypeCode::String || b == TypeCode::String)
  {
    if (a != b) { return CompareResult::Unordered; }
    auto c = l.As<std::string>().compare(r.As<std::string>());
    return c == 0 ? CompareResult::Equivalent : (c < 0 ? CompareResult::Less : CompareResult::Greater);
  }
  auto res = [](auto x, auto y)
  { return x < y ? CompareResult::Less : (x > y ? CompareResult::Greater : (x == y ? CompareResult::Equivalent
                                                                                   : CompareResult::Unordered)); };
  if (a == TypeCode::Bool || b == TypeCode::Bool)
  {
    if (a != b) { return CompareResult::Unordered; }
    return res(static_cast<int>(l.As<boolean>()), static_cast<int>(r.As<boolean>()));
  }
  if (IsFloat(a) || IsFloat(b)) { return res(l.As<float64>(), r.As<float64>()); }
  if (IsSigned(a) && IsSigned(b)) { return res(l.As<int64>(), r.As<int64>()); }
  if (IsUnsigned(a) && IsUnsigned(b)) { return res(l.As<uint64>(), r.As<uint64>()); }
  if (IsSigned(a))
  {
    if (l.As<int64>() < 0) { return CompareResult::Less; }
    return res(l.As<uint64>(), r.As<uint64>());
  }
  if (r.As<int64>() < 0) { return CompareResult::Greater; }
  return res(l.As<uint64>(), r.As<uint64>());
}
namespace
{
bool Step(AnyValue& v, int by)
{
  auto c = v.GetTypeCode();
  if (c == TypeCode::Bool || c == TypeCode::Char8 || c == TypeCode::String || c == TypeCode::Empty
      || c == TypeCode::Struct || c == TypeCode::Array)
  {
    return false;
  }
  auto* p = v.GetImpl();
  if (IsFloat(c))
  {
    p->d += by;
    if (c == TypeCode::Float32) { p->d = static_cast<float>(p->d); }
    return true;
  }
  if (IsSigned(c))
  {
    if (by > 0 ? p->i == SMax(c) : p->i == SMin(c)) { p->i = by > 0 ? SMin(c) : SMax(c); }
    else { p->i += by; }
    return true;
  }
  if (by > 0 ? p->u == UMax(c) : p->u == 0) { p->u = by > 0 ? 0 : UMax(c); }
  else { p->u += by; }
  return true;
}
}  // namespace
bool Increment(AnyValue& v) { return Step(v, 1); }
bool Decrement(AnyValue& v) { return Step(v, -1); }
bool TryAssign(AnyValue& dest, const AnyValue& src)
{
  try
  {
    dest = src;
    return true;
  }
  catch (const MessageException&)
  {
    return false;
  }
}
bool TryConvert(AnyValue& dest, const AnyValue& src)
{
  try
  {
    dest.ConvertFrom(src);
    return true;
  }
  catch (const InvalidConversionException&)
  {
    return false;
  }
}
bool TryAssignIfEmptyOrConvert(AnyValue& dest, const AnyValue& src)
{
  return IsEmptyValue(dest) ? TryAssign(dest, src) : TryConvert(dest, src);
}

// ------------------------------------------------------------------ JSON
namespace
{
std::string Quote(const std::string& s)
{
  std::string r = "\"";
  for (char c : s)
  {
    switch (c)
    {
    case '"': r += "\\\""; break;
    case '\\': r += "\\\\"; break;
    case '\n': r += "\\n"; break;
    case '\t': r += "\\t"; break;
    case '\r': r += "\\r"; break;
    default:
      if (static_cast<unsigned char>(c) < 32)
      {
        char b[8];
        std::snprintf(b, sizeof b, "\\u%04x", c);
        r += b;
      }
      else { r += c; }
    }
  }
  return r + "\"";
}
std::string TypeJSON(const AnyType& t)
{
  auto c = t.GetTypeCode();
  if (c == TypeCode::Empty) { return "{\"type\":\"\"}"; }
  if (c < TypeCode::Struct) { return "{\"type\":\"" + t.GetTypeName() + "\"}"; }
  if (c == TypeCode::Struct)
  {
    std::string r = "{\"type\":" + Quote(t.GetTypeName()) + ",\"attributes\":[";
    bool first = true;
    for (auto& n : t.MemberNames())
    {
      r += (first ? "" : ",") + ("{" + Quote(n) + ":" + TypeJSON(t[n]) + "}");
      first = false;
    }
    return r + "]}";
  }
  return "{\"type\":" + Quote(t.GetTypeName()) + ",\"multiplicity\":" + std::to_string(t.NumberOfElements())
         + ",\"element\":" + TypeJSON(t.ElementType()) + "}";
}
std::string ValueJSON(const AnyValue& v)
{
  auto c = v.GetTypeCode();
  if (c == TypeCode::Empty) { return "null"; }
  if (c == TypeCode::Bool) { return v.As<boolean>() ? "true" : "false"; }
  if (c == TypeCode::String) { return Quote(v.As<std::string>()); }
  if (IsSigned(c)) { return std::to_string(v.As<int64>()); }
  if (IsUnsigned(c)) { return std::to_string(v.As<uint64>()); }
  if (IsFloat(c))
  {
    std::string s;
    for (int prec = c == TypeCode::Float32 ? 6 : 15; prec <= 17; ++prec)
    {
      std::ostringstream o;
      o.precision(prec);
      o << v.As<float64>();
      s = o.str();
      auto back = std::strtod(s.c_str(), nullptr);
      if (c == TypeCode::Float32 ? static_cast<float>(back) == v.As<float32>() : back == v.As<float64>()) { break; }
    }
    if (s.find_first_of(".eni") == std::string::npos) { s += ".0"; }
    return s;
  }
  std::string r;
  if (c == TypeCode::Struct)
  {
    for (auto& n : v.MemberNames()) { r += (r.empty() ? "" : ",") + (Quote(n) + ":" + ValueJSON(v[n])); }
    return "{" + r + "}";
  }
  for (std::size_t i = 0; i < v.NumberOfElements(); ++i) { r += (i ? "," : "") + ValueJSON(v[i]); }
  return "[" + r + "]";
}
struct J
{
  enum K { NUL, BOOL, NUM, STR, ARR, OBJ } k{NUL};
  bool b{false};
  std::string s;  // text of a number or a string
  std::vector<J> a;
  std::vector<std::pair<std::string, J>> o;
  const J* get(const std::string& n) const
  {
    for (auto& p : o) { if (p.first == n) { return &p.second; } }
    return nullptr;
  }
};
struct JP
{
  const std::string& t;
  std::size_t p{0};
  int depth{0};
  explicit JP(const std::string& s) : t(s) {}
  void ws() { while (p < t.size() && std::isspace(static_cast<unsigned char>(t[p]))) { ++p; } }
  bool lit(const char* w)
  {
    std::string s(w);
    if (t.compare(p, s.size(), s) != 0) { return false; }
    p += s.size();
    return true;
  }
  bool str(std::string& out)
  {
    if (p >= t.size() || t[p] != '"') { return false; }
    ++p;
    out.clear();
    while (p < t.size() && t[p] != '"')
    {
      if (t[p] == '\\')
      {
        if (++p >= t.size()) { return false; }
        switch (t[p])
        {
        case 'n': out += '\n'; break;
        case 't': out += '\t'; break;
        case 'r': out += '\r'; break;
        case 'b': out += '\b'; break;
        case 'f': out += '\f'; break;
        case 'u':
          if (p + 4 >= t.size()) { return false; }
          out += static_cast<char>(std::strtol(t.substr(p + 1, 4).c_str(), nullptr, 16));
          p += 4;
          break;
        case '"': case '\\': case '/': out += t[p]; break;
        default: return false;
        }
        ++p;
      }
      else { out += t[p++]; }
    }
    if (p >= t.size()) { return false; }
    ++p;
    return true;
  }
  bool value(J& j)
  {
    ws();
    if (p >= t.size() || depth > 100) { return false; }
    char c = t[p];
    if (c == '"') { j.k = J::STR; return str(j.s); }
    if (c == '{')
    {
      j.k = J::OBJ;
      ++p; ++depth;
      ws();
      if (p < t.size() && t[p] == '}') { ++p; --depth; return true; }
      while (true)
      {
        ws();
        std::string n;
        if (!str(n)) { return false; }
        ws();
        if (p >= t.size() || t[p] != ':') { return false; }
        ++p;
        J v;
        if (!value(v)) { return false; }
        j.o.emplace_back(n, v);
        ws();
        if (p < t.size() && t[p] == ',') { ++p; continue; }
        if (p < t.size() && t[p] == '}') { ++p; --depth; return true; }
        return false;
      }
    }
    if (c == '[')
    {
      j.k = J::ARR;
      ++p; ++depth;
      ws();
      if (p < t.size() && t[p] == ']') { ++p; --depth; return true; }
      while (true)
      {
        J v;
        if (!value(v)) { return false; }
        j.a.push_back(v);
        ws();
        if (p < t.size() && t[p] == ',') { ++p; continue; }
        if (p < t.size() && t[p] == ']') { ++p; --depth; return true; }
        return false;
      }
    }
    if (lit("true")) { j.k = J::BOOL; j.b = true; return true; }
    if (lit("false")) { j.k = J::BOOL; j.b = false; return true; }
    if (lit("null")) { j.k = J::NUL; return true; }
    std::size_t s = p;
    if (p < t.size() && t[p] == '-') { ++p; }
    std::size_t d = p;
    while (p < t.size() && std::isdigit(static_cast<unsigned char>(t[p]))) { ++p; }
    if (p == d) { return false; }
    if (p < t.size() && t[p] == '.')
    {
      ++p;
      d = p;
      while (p < t.size() && std::isdigit(static_cast<unsigned char>(t[p]))) { ++p; }
      if (p == d) { return false; }
    }
    if (p < t.size() && (t[p] == 'e' || t[p] == 'E'))
    {
      ++p;
      if (p < t.size() && (t[p] == '+' || t[p] == '-')) { ++p; }
      d = p;
      while (p < t.size() && std::isdigit(static_cast<unsigned char>(t[p]))) { ++p; }
      if (p == d) { return false; }
    }
    j.k = J::NUM;
    j.s = t.substr(s, p - s);
    return true;
  }
  bool doc(J& j)
  {
    if (!value(j)) { return false; }
    ws();
    return p == t.size();
  }
};
bool TypeOf(const J& j, const AnyTypeRegistry* reg, AnyType& out)
{
  if (j.k != J::OBJ) { return false; }
  auto* n = j.get("type");
  if (!n || n->k != J::STR) { return false; }
  if (auto* at = j.get("attributes"))
  {
    if (at->k != J::ARR) { return false; }
    AnyType t({}, n->s);
    for (auto& m : at->a)
    {
      if (m.k != J::OBJ || m.o.size() != 1) { return false; }
      AnyType mt;
      if (!TypeOf(m.o[0].second, reg, mt)) { return false; }
      try { t.AddMember(m.o[0].first, mt); } catch (const InvalidOperationException&) { return false; }
    }
    out = t;
    return true;
  }
  if (auto* e = j.get("element"))
  {
    AnyType et;
    if (!TypeOf(*e, reg, et)) { return false; }
    std::size_t mult = 0;
    if (auto* m = j.get("multiplicity"))
    {
      if (m->k != J::NUM) { return false; }
      mult = std::strtoull(m->s.c_str(), nullptr, 10);
    }
    out = AnyType(mult, et, n->s);
    return true;
  }
  if (j.o.size() != 1) { return false; }
  if (n->s.empty()) { out = EmptyType; return true; }
  for (int c = static_cast<int>(TypeCode::Bool); c <= static_cast<int>(TypeCode::String); ++c)
  {
    AnyType t(static_cast<TypeCode>(c));
    if (t.GetTypeName() == n->s) { out = t; return true; }
  }
  if (reg && reg->HasType(n->s)) { out = reg->GetType(n->s); return true; }
  return false;
}
bool Fill(const J& j, AnyValue& v)
{
  auto c = v.GetTypeCode();
  switch (c)
  {
  case TypeCode::Empty: return j.k == J::NUL;
  case TypeCode::Bool:
    if (j.k == J::NUM)
    {
      v = AnyValue(std::strtod(j.s.c_str(), nullptr) != 0);
      return true;
    }
    if (j.k != J::BOOL) { return false; }
    v = AnyValue(j.b);
    return true;
  case TypeCode::String:
    if (j.k != J::STR) { return false; }
    v = AnyValue(j.s);
    return true;
  case TypeCode::Struct:
  {
    if (j.k != J::OBJ) { return false; }
    for (auto& m : j.o)
    {
      auto names = v.MemberNames();
      if (std::find(names.begin(), names.end(), m.first) == names.end() || !Fill(m.second, v[m.first]))
      {
        return false;
      }
    }
    return true;
  }
  case TypeCode::Array:
    if (j.k != J::ARR) { return false; }
    if (v.NumberOfElements() != j.a.size())
    {
      if (v.NumberOfElements() != 0) { return false; }
      v = AnyValue(AnyType(j.a.size(), v.GetType().ElementType(), v.GetTypeName()));
    }
    for (std::size_t i = 0; i < j.a.size(); ++i)
    {
      if (!Fill(j.a[i], v[i])) { return false; }
    }
    return true;
  default: break;
  }
  if (j.k != J::NUM) { return false; }
  const bool frac = j.s.find_first_of(".eE") != std::string::npos;
  if (IsFloat(c))
  {
    v.ConvertFrom(AnyValue(std::strtod(j.s.c_str(), nullptr)));
    return true;
  }
  if (frac)
  {
    auto x = std::strtod(j.s.c_str(), nullptr);
    try { v.ConvertFrom(AnyValue(x)); } catch (const InvalidConversionException&) { return false; }
    return true;
  }
  errno = 0;
  try
  {
    if (j.s[0] == '-')
    {
      auto x = std::strtoll(j.s.c_str(), nullptr, 10);
      if (errno) { return false; }
      v.ConvertFrom(AnyValue(static_cast<int64>(x)));
    }
    else
    {
      auto x = std::strtoull(j.s.c_str(), nullptr, 10);
      if (errno) { return false; }
      v.ConvertFrom(AnyValue(static_cast<uint64>(x)));
    }
  }
  catch (const InvalidConversionException&)
  {
    return false;
  }
  return true;
}
bool Slurp(const std::string& fn, std::string& out)
{
  std::ifstream f(fn);
  if (!f) { return false; }
  std::stringstream s;
  s << f.rdbuf();
  out = s.str();
  return true;
}
}  // namespace
std::string AnyTypeToJSONString(const AnyType& t, bool) { return TypeJSON(t); }
std::string ValuesToJSONString(const AnyValue& v, bool) { return ValueJSON(v); }
std::string AnyValueToJSONString(const AnyValue& v, bool)
{
  return "[{\"encoding\":\"sup-dto/v1.0/JSON\"},{\"datatype\":" + TypeJSON(v.GetType()) + "},{\"instance\":"
         + ValueJSON(v) + "}]";
}
std::string PrintAnyValue(const AnyValue& v) { return ValueJSON(v); }
void AnyValueToJSONFile(const AnyValue& v, const std::string& fn, bool pretty)
{
  std::ofstream f(fn);
  if (!f) { throw SerializeException("cannot open file"); }
  f << AnyValueToJSONString(v, pretty);
}
struct AnyTypeRegistry::Impl { std::map<std::string, AnyType> types; };
AnyTypeRegistry::AnyTypeRegistry() : m_impl{new Impl} {}
AnyTypeRegistry::~AnyTypeRegistry() = default;
void AnyTypeRegistry::RegisterType(const AnyType& t)
{
  auto n = t.GetTypeName();
  if (n.empty()) { throw InvalidOperationException("no name"); }
  if (m_impl->types.count(n) && m_impl->types[n] != t) { throw InvalidOperationException("registered"); }
  m_impl->types[n] = t;
}
bool AnyTypeRegistry::HasType(const std::string& n) const { return m_impl->types.count(n) != 0; }
AnyType AnyTypeRegistry::GetType(const std::string& n) const
{
  if (!HasType(n)) { throw InvalidOperationException("unknown type"); }
  return m_impl->types.at(n);
}
JSONAnyTypeParser::JSONAnyTypeParser() : m_anytype{new AnyType} {}
JSONAnyTypeParser::~JSONAnyTypeParser() = default;
bool JSONAnyTypeParser::ParseString(const std::string& s, const AnyTypeRegistry* reg)
{
  J j;
  return JP(s).doc(j) && TypeOf(j, reg, *m_anytype);
}
bool JSONAnyTypeParser::ParseFile(const std::string& fn, const AnyTypeRegistry* reg)
{
  std::string s;
  return Slurp(fn, s) && ParseString(s, reg);
}
AnyType JSONAnyTypeParser::MoveAnyType() { return std::move(*m_anytype); }
JSONAnyValueParser::JSONAnyValueParser() : m_anyvalue{new AnyValue} {}
JSONAnyValueParser::~JSONAnyValueParser() = default;
bool JSONAnyValueParser::ParseString(const std::string& s, const AnyTypeRegistry* reg)
{
  J j;
  if (!JP(s).doc(j) || j.k != J::ARR || j.a.size() != 3) { return false; }
  auto* dt = j.a[1].get("datatype");
  auto* in = j.a[2].get("instance");
  AnyType t;
  if (!dt || !in || !TypeOf(*dt, reg, t)) { return false; }
  AnyValue v(t);
  if (!Fill(*in, v)) { return false; }
  *m_anyvalue = v;
  return true;
}
bool JSONAnyValueParser::ParseFile(const std::string& fn, const AnyTypeRegistry* reg)
{
  std::string s;
  return Slurp(fn, s) && ParseString(s, reg);
}
bool JSONAnyValueParser::TypedParseString(const AnyType& t, const std::string& s)
{
  J j;
  if (!JP(s).doc(j)) { return false; }
  AnyValue v(t);
  if (!Fill(j, v)) { return false; }
  *m_anyvalue = v;
  return true;
}
bool JSONAnyValueParser::TypedParseFile(const AnyType& t, const std::string& fn)
{
  std::string s;
  return Slurp(fn, s) && TypedParseString(t, s);
}
AnyValue JSONAnyValueParser::MoveAnyValue() { return std::move(*m_anyvalue); }
}  // namespace dto

// ------------------------------------------------------------------ XML
namespace xml
{
ParseException::ParseException(const std::string& m) : m_message{m} {}
const char* ParseException::what() const noexcept { return m_message.c_str(); }
InvalidOperationException::InvalidOperationException(const std::string& m) : m_message{m} {}
const char* InvalidOperationException::what() const noexcept { return m_message.c_str(); }

TreeData::TreeData(const std::string& n) : m_node_name{n} {}
std::string TreeData::GetNodeName() const { return m_node_name; }
std::string TreeData::GetContent() const { return m_content; }
void TreeData::SetContent(const std::string& c) { m_content = c; }
bool TreeData::HasAttribute(const std::string& n) const
{
  for (auto& a : m_attributes) { if (a.first == n) { return true; } }
  return false;
}
std::string TreeData::GetAttribute(const std::string& n) const
{
  for (auto& a : m_attributes) { if (a.first == n) { return a.second; } }
  throw InvalidOperationException("no attribute " + n);
}
void TreeData::AddAttribute(const std::string& n, const std::string& v)
{
  if (HasAttribute(n)) { throw InvalidOperationException("duplicate attribute " + n); }
  m_attributes.emplace_back(n, v);
}
const std::vector<TreeData::Attribute>& TreeData::Attributes() const { return m_attributes; }
std::size_t TreeData::GetNumberOfAttributes() const { return m_attributes.size(); }
std::size_t TreeData::GetNumberOfChildren() const { return m_children.size(); }
void TreeData::AddChild(const TreeData& c) { m_children.push_back(c); }
const std::vector<TreeData>& TreeData::Children() const { return m_children; }

namespace
{
struct XP
{
  const std::string& t;
  std::size_t p{0};
  explicit XP(const std::string& s) : t(s) {}
  [[noreturn]] void bad(const std::string& why) { throw ParseException("XML: " + why + " at " + std::to_string(p)); }
  void ws() { while (p < t.size() && std::isspace(static_cast<unsigned char>(t[p]))) { ++p; } }
  bool skip(const char* open, const char* close)
  {
    std::string o(open), c(close);
    if (t.compare(p, o.size(), o) != 0) { return false; }
    auto e = t.find(c, p);
    if (e == std::string::npos) { bad("open " + o); }
    p = e + c.size();
    return true;
  }
  void misc()
  {
    while (true)
    {
      ws();
      if (!skip("<?", "?>") && !skip("<!--", "-->") && !skip("<!DOCTYPE", ">")) { return; }
    }
  }
  std::string name()
  {
    std::size_t s = p;
    while (p < t.size() && (std::isalnum(static_cast<unsigned char>(t[p])) || t[p] == '_' || t[p] == '-'
                            || t[p] == ':' || t[p] == '.'))
    {
      ++p;
    }
    if (p == s) { bad("name expected"); }
    return t.substr(s, p - s);
  }
  std::string text(const std::string& s)
  {
    std::string r;
    for (std::size_t i = 0; i < s.size(); ++i)
    {
      if (s[i] != '&') { r += s[i]; continue; }
      auto e = s.find(';', i);
      if (e == std::string::npos) { bad("entity"); }
      auto n = s.substr(i + 1, e - i - 1);
      if (n == "lt") { r += '<'; }
      else if (n == "gt") { r += '>'; }
      else if (n == "amp") { r += '&'; }
      else if (n == "quot") { r += '"'; }
      else if (n == "apos") { r += '\''; }
      else if (n.size() > 2 && n[0] == '#' && n[1] == 'x') { r += static_cast<char>(std::strtol(n.c_str() + 2, nullptr, 16)); }
      else if (n.size() > 1 && n[0] == '#') { r += static_cast<char>(std::strtol(n.c_str() + 1, nullptr, 10)); }
      else { bad("entity " + n); }
      i = e;
    }
    return r;
  }
  TreeData element()
  {
    if (p >= t.size() || t[p] != '<') { bad("element expected"); }
    ++p;
    auto n = name();
    TreeData d(n);
    while (true)
    {
      ws();
      if (p >= t.size()) { bad("open tag"); }
      if (t[p] == '/' && p + 1 < t.size() && t[p + 1] == '>') { p += 2; return d; }
      if (t[p] == '>') { ++p; break; }
      auto a = name();
      ws();
      if (p >= t.size() || t[p] != '=') { bad("= expected"); }
      ++p;
      ws();
      if (p >= t.size() || (t[p] != '"' && t[p] != '\'')) { bad("quote expected"); }
      char q = t[p++];
      auto e = t.find(q, p);
      if (e == std::string::npos) { bad("open quote"); }
      if (d.HasAttribute(a)) { bad("duplicate attribute"); }
      d.AddAttribute(a, text(t.substr(p, e - p)));
      p = e + 1;
    }
    std::string content;
    while (true)
    {
      if (p >= t.size()) { bad("missing end tag of " + n); }
      if (skip("<!--", "-->")) { continue; }
      if (t.compare(p, 9, "<![CDATA[") == 0)
      {
        auto e = t.find("]]>", p);
        if (e == std::string::npos) { bad("CDATA"); }
        content += t.substr(p + 9, e - p - 9);
        p = e + 3;
        continue;
      }
      if (t[p] == '<' && p + 1 < t.size() && t[p + 1] == '/')
      {
        p += 2;
        if (name() != n) { bad("end tag of " + n); }
        ws();
        if (p >= t.size() || t[p] != '>') { bad("end tag"); }
        ++p;
        break;
      }
      if (t[p] == '<') { d.AddChild(element()); continue; }
      auto e = t.find('<', p);
      if (e == std::string::npos) { e = t.size(); }
      content += text(t.substr(p, e - p));
      p = e;
    }
    auto b = content.find_first_not_of(" \t\r\n");
    if (b != std::string::npos)
    {
      d.SetContent(content.substr(b, content.find_last_not_of(" \t\r\n") - b + 1));
    }
    return d;
  }
};
std::string Escape(const std::string& s)
{
  std::string r;
  for (char c : s)
  {
    switch (c)
    {
    case '<': r += "&lt;"; break;
    case '>': r += "&gt;"; break;
    case '&': r += "&amp;"; break;
    case '"': r += "&quot;"; break;
    default: r += c;
    }
  }
  return r;
}
void Write(const TreeData& t, std::string& out, int depth)
{
  out += std::string(2 * depth, ' ') + "<" + t.GetNodeName();
  for (auto& a : t.Attributes()) { out += " " + a.first + "=\"" + Escape(a.second) + "\""; }
  if (t.Children().empty() && t.GetContent().empty()) { out += "/>\n"; return; }
  out += ">" + Escape(t.GetContent());
  if (!t.Children().empty())
  {
    out += "\n";
    for (auto& c : t.Children()) { Write(c, out, depth + 1); }
    out += std::string(2 * depth, ' ');
  }
  out += "</" + t.GetNodeName() + ">\n";
}
}  // namespace
std::unique_ptr<TreeData> TreeDataFromString(const std::string& s)
{
  XP x(s);
  x.misc();
  std::unique_ptr<TreeData> r(new TreeData(x.element()));
  x.misc();
  if (x.p != s.size()) { x.bad("trailing text"); }
  return r;
}
std::unique_ptr<TreeData> TreeDataFromFile(const std::string& fn)
{
  std::ifstream f(fn);
  if (!f) { throw ParseException("cannot open " + fn); }
  std::stringstream s;
  s << f.rdbuf();
  return TreeDataFromString(s.str());
}
std::string TreeDataToString(const TreeData& t)
{
  std::string r = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n";
  Write(t, r, 0);
  return r;
}
}  // namespace xml
}  // namespace sup
