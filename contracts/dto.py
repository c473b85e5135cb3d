"""Assumed contracts on the dependency (sup-dto): what the library relies on, stated where it is used.

AnyValue and AnyType are opaque values.  Functions listed in PURE read their arguments only; the others carry a contract.
"""
import z3

from engine.interp import LV
from engine.verify import PURE, contract

D = 'sup::dto::'
Int = z3.IntSort()

PURE |= {D + x for x in (
    'IsArrayValue', 'IsArrayType', 'IsStructValue', 'IsStructType', 'IsScalarValue', 'IsScalarType', 'IsEmptyValue',
    'IsEmptyType', 'IsIntegerTypeCode', 'IsStringType', 'IsNumericType', 'IsScalarTypeCode',
    'AnyValue::GetType', 'AnyValue::GetTypeName', 'AnyValue::GetTypeCode', 'AnyValue::NumberOfMembers',
    'AnyValue::NumberOfElements', 'AnyValue::MemberNames', 'AnyValue::HasField', 'AnyValue::operator==',
    'AnyValue::operator!=', 'AnyType::GetTypeName', 'AnyType::GetTypeCode', 'AnyType::HasField',
    'AnyType::operator==', 'AnyType::operator!=', 'AnyType::NumberOfMembers', 'AnyType::NumberOfElements',
    'AnyType::MemberNames', 'AnyType::ElementType', 'operator==', 'operator!=', 'ValuesToJSONString',
    'AnyValueToJSONString', 'AnyTypeToJSONString', 'PrintAnyValue')}


def any_sort(c):
    return c.S.opq(D + 'AnyValue')


def elem(c, v, i):
    """element i of an array value"""
    s = any_sort(c)
    return z3.Function('any.elem', s, Int, s)(v, i)


def field(c, v, name):
    s = any_sort(c)
    return z3.Function('any.field', s, c.S.Str, s)(v, name)


def has_field(c, v, name):
    return z3.Function('dep:%sAnyValue::HasField/%s,%s' % (D, any_sort(c).name(), c.S.Str.name()), any_sort(c), c.S.Str,
                       z3.BoolSort())(v, name)


def dep(c, q, ret, *ts):
    """the value of a reading function of the dependency"""
    return c.V.fn('dep:' + D + q, [t.sort() for t in ts], ret)(*ts)


def is_array(c, v):
    return z3.Function('dep:%sIsArrayValue/%s' % (D, v.sort().name()), v.sort(), z3.BoolSort())(v)


def is_empty(c, v):
    """assumed: a default constructed value is empty"""
    f = z3.Function('dep:%sIsEmptyValue/%s' % (D, v.sort().name()), v.sort(), z3.BoolSort())
    c.assume(f(z3.Const('new:' + D + 'AnyValue', v.sort())))
    return f(v)


def n_elements(c, v):
    return z3.Function('dep:%sAnyValue::NumberOfElements/%s' % (D, v.sort().name()), v.sort(), Int)(v)


def self_value(c):
    return c.old.val(c.this.lv) if hasattr(c.this, 'lv') else c.this


def by(kind):
    def sig(f):
        ps = f.get('params') or []
        t = str(ps[0]['t'] if isinstance(ps[0], dict) else ps[0]) if ps else ''
        return ('string' in t) == (kind == 'name')
    return sig


@contract(D + 'AnyValue::operator[]', abstract=True, nparams=1, sig=by('index'))
def any_index(c):
    v, i = self_value(c), c.old.arg(0)
    c.throws(D + 'InvalidOperationException', z3.Not(z3.And(is_array(c, v), 0 <= i, i < n_elements(c, v))))
    c.returns(elem(c, v, i))


@contract(D + 'AnyValue::operator[]', abstract=True, nparams=1, sig=by('name'))
def any_name(c):
    v, n = self_value(c), c.old.arg(0)
    c.throws(D + 'InvalidOperationException', z3.Not(has_field(c, v, n)))
    lv = getattr(c.this, 'lv', None)
    c.returns(field(c, v, n) if lv is None else LV(lv.root, lv.path + (('p', n),)))


@contract(D + 'AnyValue::As', abstract=True, nparams=1)
def any_as(c):
    """As(out): true with the value converted, or false with the output untouched"""
    p = c.f['params'][0]
    ok, x = converted(c, self_value(c), p['t'] if isinstance(p, dict) else p)
    c.modifies('arg:0')
    out = c.old.arg(0)
    if x.sort() == Int:
        for t in c.S.typeinv(c.V.prog.noref(p['t'] if isinstance(p, dict) else p), x):
            c.assume(t)
    c.ensures('converts or leaves the output', lambda: z3.And(c.result == ok, c.new.arg(0) == z3.If(ok, x, out)))


def converted(c, v, t):
    """(convertible, converted value) of a value read as C++ type t"""
    n = c.V.prog.norm(c.V.prog.noref(t))
    sort = c.S.sort(c.V.prog.noref(t))
    return (z3.Function('any.convertible:' + n, v.sort(), z3.BoolSort())(v),
            z3.Function('any.converted:' + n, v.sort(), sort)(v))


def assigned(c, a, b, how='assigned'):
    """(possible, result) of assigning b to a"""
    return (z3.Function('any.can_be_' + how, a.sort(), b.sort(), z3.BoolSort())(a, b),
            z3.Function('any.' + how, a.sort(), b.sort(), a.sort())(a, b))


@contract(D + 'TryAssignIfEmptyOrConvert', abstract=True)
def try_convert(c):
    """assigns to an empty value or converts, otherwise leaves the destination; never throws"""
    c.modifies('arg:0')
    a, b = c.old.arg(0), c.old.arg(1)
    ok, r = assigned(c, a, b, 'converted')
    c.ensures('assigns or leaves', lambda: z3.And(c.result == ok, c.new.arg(0) == z3.If(ok, r, a)))


@contract(D + 'TryAssign', abstract=True)
def try_assign(c):
    """assigns when the types allow it, otherwise leaves the destination; never throws"""
    c.modifies('arg:0')
    a, b = c.old.arg(0), c.old.arg(1)
    ok, r = assigned(c, a, b)
    c.ensures('assigns or leaves', lambda: z3.And(c.result == ok, c.new.arg(0) == z3.If(ok, r, a)))
