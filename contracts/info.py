"""Contracts of the descriptions and their transport values (C23).

A transport value is an opaque value of the dependency, known by what can be read from it: its type, its members in order, the value of
each member, and what it reads as.  The dependency's constructors and writing functions are contracts over these observations (assumed).
A function that writes a description has as postcondition that every part of it can be read back (`describes`); a function that reads one
accepts exactly the values of the right shape and returns what can be read.  The round trip is a lemma over the two (engine/lemmas.py).
"""
import z3

from engine.interp import LV
from contracts.core import N, params_are
from contracts.dto import D, any_sort, converted, dep, elem, field, has_field, is_array, n_elements, self_value
from engine.verify import CONTRACTS, ELEM_FACTS, ENTITIES, PART_FACTS, contract, forall

Int = z3.IntSort()
U = N + 'utils::'
VI, II, WI, JI, AI = N + 'VariableInfo', N + 'InstructionInfo', N + 'WorkspaceInfo', N + 'JobInfo', N + 'AttributeInfo'
UQ, UR = N + 'UserInputRequest', N + 'UserInputReply'
ENTITIES |= {II}
STR, U32, I32 = 'std::basic_string<char, std::char_traits<char>, std::allocator<char>>', 'unsigned int', 'int'
BAD = N + 'InvalidOperationException'
INVALID = D + 'InvalidOperationException'
WRAP, APPEND = 190, 191


# ---------------------------------------------------------------- observations
def type_sort(c):
    return c.S.opq(D + 'AnyType')


def strs(c):
    return c.S.seq(c.S.Str)


def typ(c, v):
    return dep(c, 'AnyValue::GetType', type_sort(c), v)


def is_struct(c, v):
    return dep(c, 'IsStructValue', z3.BoolSort(), v)


def members(c, v):
    return dep(c, 'AnyValue::MemberNames', strs(c), v)


def simple(c, n):
    """a name of one member (no path into a value)"""
    return z3.Function('any.simple_name', c.S.Str, z3.BoolSort())(n)


def named_type(c, n):
    return z3.Const('global:' + D + n, type_sort(c))


def reads(c, v, t):
    return converted(c, v, t)


def name_of(c, t):
    return {'S': STR, 'U': U32, 'I': I32}[t]


def types_known(c):
    """assumed: the scalar types are different, and a value of such a type reads as that type"""
    s, u, i = [named_type(c, x) for x in ('StringType', 'UnsignedInteger32Type', 'SignedInteger32Type')]
    out = [z3.Distinct(s, u, i)]
    v = z3.Const('tv', any_sort(c))
    for ty, t in ((s, STR), (u, U32), (i, I32)):
        ok, x = reads(c, v, t)
        out.append(z3.ForAll([v], z3.Implies(typ(c, v) == ty, ok), patterns=[ok]))
    for n in ('type', 'index', 'attributes', 'category', 'children', 'full_name', 'ws_info', 'instr_tree_info', 'options', 'metadata'):
        out.append(simple(c, c.str(n)))
    return out


def index_in(c, v, n):
    return c.V.fn('any.member_index', [v.sort(), c.S.Str], Int)(v, n)


def member_facts(c, v):
    """assumed: the members of a structure are its simple fields, each once"""
    S, m = c.S, members(c, v)
    n = z3.Const('mn', c.S.Str)
    return [S.slen(m) >= 0,
            forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < S.slen(m)), z3.And(
                has_field(c, v, S.at(m, i)), simple(c, S.at(m, i)), index_in(c, v, S.at(m, i)) == i)), pats=lambda i: S.at(m, i)),
            z3.ForAll([n], z3.Implies(z3.And(is_struct(c, v), has_field(c, v, n), simple(c, n)), z3.And(
                0 <= index_in(c, v, n), index_in(c, v, n) < S.slen(m), S.at(m, index_in(c, v, n)) == n)), patterns=[has_field(c, v, n)])]


def part_facts(I, T, v, name, inner):
    """assumed: writing one member leaves the other members, and which members there are"""
    class X:
        S, V = I.S, I.V
    c = X
    m = z3.Const('pm', c.S.Str)
    simple_m = z3.Function('any.simple_name', c.S.Str, z3.BoolSort())
    return [field(c, T, name) == inner, is_struct(c, T) == is_struct(c, v), members(c, T) == members(c, v),
            z3.ForAll([m], z3.Implies(simple_m(m), has_field(c, T, m) == has_field(c, v, m)), patterns=[has_field(c, T, m)]),
            z3.ForAll([m], z3.Implies(z3.And(simple_m(m), simple_m(name), m != name), field(c, T, m) == field(c, v, m)),
                      patterns=[field(c, T, m)])]


PART_FACTS.append(part_facts)


# ---------------------------------------------------------------- the dependency (assumed)
def scalar(c, x, t):
    n = c.V.prog.norm(c.V.prog.noref(t))
    v = c.V.fn('any.of:' + n, [x.sort()], any_sort(c))(x)
    names = {c.V.prog.norm(U32): 'UnsignedInteger32Type', c.V.prog.norm(I32): 'SignedInteger32Type'}
    ty = 'StringType' if x.sort() == c.S.Str else names.get(n)
    rt = STR if x.sort() == c.S.Str else t
    ok, y = reads(c, v, rt)
    facts = [ok, y == x, z3.Not(is_struct(c, v))]
    if ty:
        facts.append(typ(c, v) == named_type(c, ty))
    return v, facts


def default_of(c, t):
    return c.V.fn('any.default', [type_sort(c)], any_sort(c))(t)


@contract(D + 'AnyValue::AnyValue', abstract=True, first=True)
def any_ctor(c):
    ts = [str(p['t'] if isinstance(p, dict) else p) for p in (c.f.get('params') or [])]
    for t in types_known(c):
        c.assume(t)
    A, n = any_sort(c), len(ts)
    if n == 0:
        v = z3.Const('new:' + D + 'AnyValue', A)
        c.assume(z3.Not(is_struct(c, v)))
        c.returns(v)
    elif 'initializer_list' in ts[0]:
        seq = c.old.arg(0)
        if not z3.is_expr(seq):
            its = [c.I.as_term(x, None) for x in seq.items]
            seq = c.S.lit_seq(c.S.pair(c.S.Str, A), its)
        k = z3.simplify(c.S.slen(seq))
        if not z3.is_int_value(k):
            c.may_throw(INVALID)
            return
        v = c.V.fn('any.struct', [seq.sort()], A)(seq)
        ms = [c.S.get(z3.simplify(c.S.at(seq, i)), 0) for i in range(k.as_long())]
        xs = [c.S.get(z3.simplify(c.S.at(seq, i)), 1) for i in range(k.as_long())]
        for m, x in zip(ms, xs):
            c.assume(z3.And(has_field(c, v, m), field(c, v, m) == x))
        for t in member_facts(c, v):
            c.assume(t)
        nm = z3.Const('ln', c.S.Str)
        c.assume(z3.And(is_struct(c, v), c.S.seq_eq(members(c, v), c.S.lit_seq(c.S.Str, ms)), z3.ForAll(
            [nm], z3.Implies(simple(c, nm), has_field(c, v, nm) == z3.Or(*[nm == m for m in ms])), patterns=[has_field(c, v, nm)])))
        c.returns(v)
    elif 'AnyType' in ts[0] and n == 1:
        v = default_of(c, c.old.arg(0))
        c.assume(typ(c, v) == c.old.arg(0))
        c.returns(v)
    elif 'AnyType' in ts[0] and n == 2:
        t, x = c.old.arg(0), c.old.arg(1)
        v = c.V.fn('any.typed', [t.sort(), A], A)(t, x)
        ok = c.V.fn('any.fits', [t.sort(), A], z3.BoolSort())(t, x)
        c.throws(D + 'InvalidConversionException', z3.Not(ok))
        c.assume(z3.Implies(typ(c, x) == t, z3.And(ok, v == x)))
        c.assume(typ(c, v) == t)
        u = c.V.prog.norm(I32)
        if z3.is_app(x) and x.decl().name().split('/')[0] == 'any.of:' + u and z3.is_int_value(z3.simplify(x.arg(0))):
            c.assume(ok)                # a small literal
        c.returns(v)
    elif n >= 2 and 'AnyType' in ts[1]:
        k, t = c.old.arg(0), c.old.arg(1)
        v = c.V.fn('any.array', [Int, t.sort()], A)(k, t)
        c.assume(z3.And(is_array(c, v), z3.Not(is_struct(c, v)), n_elements(c, v) == k, element_type(c, typ(c, v)) == t))
        c.assume(forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < k), typ(c, elem(c, v, i)) == t), pats=lambda i: elem(c, v, i)))
        c.returns(v)
    elif n == 1 and 'AnyValue' not in ts[0]:
        v, facts = scalar(c, c.old.arg(0), c.f['params'][0]['t'] if isinstance(c.f['params'][0], dict) else ts[0])
        for t in facts:
            c.assume(t)
        c.returns(v)
    else:
        c.may_throw(INVALID)


def element_type(c, t):
    return dep(c, 'AnyType::ElementType', t.sort(), t)


def by_index(f):
    ps = f.get('params') or []
    return len(ps) == 1 and 'string' not in str(ps[0]['t'] if isinstance(ps[0], dict) else ps[0])


@contract(D + 'AnyValue::operator[]', abstract=True, nparams=1, sig=by_index, first=True)
def any_index(c):
    v, i = self_value(c), c.old.arg(0)
    c.throws(INVALID, z3.Not(z3.And(is_array(c, v), 0 <= i, i < n_elements(c, v))))
    lv = getattr(c.this, 'lv', None)
    c.returns(elem(c, v, i) if lv is None else LV(lv.root, lv.path + (('e', i),)))


def elem_facts(I, T, v, i, x):
    """assumed: writing one element leaves the others"""
    class c:
        S, V = I.S, I.V
    j = z3.Int('ej')
    return [elem(c, T, i) == x, is_array(c, T) == is_array(c, v), n_elements(c, T) == n_elements(c, v),
            z3.Implies(typ(c, x) == typ(c, elem(c, v, i)), typ(c, T) == typ(c, v)),
            z3.ForAll([j], z3.Implies(j != i, elem(c, T, j) == elem(c, v, j)), patterns=[elem(c, T, j)])]


ELEM_FACTS.append(elem_facts)


@contract(D + 'EmptyStruct', abstract=True, first=True)
def empty_struct(c):
    v = c.V.fn('any.empty_struct', [c.S.Str], any_sort(c))(c.old.arg(0) if c.args else c.str(''))
    for t in member_facts(c, v):
        c.assume(t)
    c.assume(z3.And(is_struct(c, v), c.S.slen(members(c, v)) == 0))
    c.returns(v)


@contract(D + 'AnyValue::MemberNames', abstract=True, first=True, pure=True)
def member_names(c):
    v = self_value(c)
    for t in member_facts(c, v):
        c.assume(t)
    c.throws(INVALID, z3.Not(is_struct(c, v)))
    c.returns(members(c, v))


@contract(D + 'AnyValue::As', abstract=True, nparams=0, first=True, pure=True)
def any_as0(c):
    v = self_value(c)
    for t in types_known(c):
        c.assume(t)
    ok, x = reads(c, v, c.f['ret'])
    c.throws(D + 'InvalidConversionException', z3.Not(ok))
    c.returns(x)


@contract(D + 'AnyValue::AddMember', abstract=True, first=True)
def any_add_member(c):
    """a new member comes last; a name in use, a name that is none, and a value that is no structure are refused"""
    S, a, n, x = c.S, self_value(c), c.old.arg(0), c.old.arg(1)
    for t in member_facts(c, a):
        c.assume(t)
    c.throws(INVALID, z3.Not(z3.And(is_struct(c, a), simple(c, n), z3.Not(has_field(c, a, n)))))
    lv = c.this.lv
    if c.mode == 'call':
        b = c.I.fresh('with member', a.sort())
        c.extra['lv'] = lv
        c.sets = (lv, b)
        m = z3.Const('am', S.Str)
        ma, mb = members(c, a), members(c, b)
        c.ensures('the member comes last, the others stay', lambda: z3.And(
            is_struct(c, b), S.slen(mb) == S.slen(ma) + 1, S.at(mb, S.slen(ma)) == n, field(c, b, n) == x,
            forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < S.slen(ma)), S.at(mb, i) == S.at(ma, i)),
                   pats=lambda i: [S.at(mb, i), S.at(ma, i)]),
            z3.ForAll([m], z3.Implies(simple(c, m), has_field(c, b, m) == z3.Or(m == n, has_field(c, a, m))),
                      patterns=[has_field(c, b, m)]),
            z3.ForAll([m], z3.Implies(z3.And(simple(c, m), m != n), field(c, b, m) == field(c, a, m)), patterns=[field(c, b, m)]),
            *member_facts(c, b)))
        c.returns(lv)


for op, pos in (('==', True), ('!=', False)):
    @contract(D + 'AnyType::operator' + op, abstract=True, first=True, pure=True)
    def type_eq(c, pos=pos):
        for t in types_known(c):
            c.assume(t)
        eq = self_value(c) == c.old.arg(0)
        c.returns(eq if pos else z3.Not(eq))


# ---------------------------------------------------------------- shapes
def has_typed(c, v, n, t):
    n = c.str(n)
    return z3.And(has_field(c, v, n), typ(c, field(c, v, n)) == named_type(c, t))


def attr_part(c, v):
    return field(c, v, c.str('attributes'))


def good_attrs(c, v):
    S, A = c.S, attr_part(c, v)
    m = members(c, A)
    return z3.And(has_field(c, v, c.str('attributes')), is_struct(c, A), forall(
        [Int], lambda i: z3.Implies(z3.And(0 <= i, i < S.slen(m)), typ(c, field(c, A, S.at(m, i))) == named_type(c, 'StringType')),
        pats=lambda i: S.at(m, i)))


def text_in(c, v, n):
    return reads(c, field(c, v, c.str(n)), STR)[1]


def number_in(c, v, n):
    return reads(c, field(c, v, c.str(n)), U32)[1]


def good_variable(c, v):
    return z3.And(has_typed(c, v, 'type', 'StringType'), text_in(c, v, 'type') != c.str(''),
                  has_typed(c, v, 'index', 'UnsignedInteger32Type'), good_attrs(c, v))


def good_instruction(c, v):
    return z3.And(has_typed(c, v, 'type', 'StringType'), has_typed(c, v, 'category', 'UnsignedInteger32Type'),
                  has_typed(c, v, 'index', 'UnsignedInteger32Type'), good_attrs(c, v), good_children(c, v))


def good_children(c, v):
    S, C = c.S, field(c, v, c.str('children'))
    m = members(c, C)
    return z3.Implies(has_field(c, v, c.str('children')), z3.And(is_struct(c, C), forall(
        [Int], lambda i: z3.Implies(z3.And(0 <= i, i < S.slen(m)), S.at(m, i) == child_name(c, i)), pats=lambda i: S.at(m, i))))


def child_name(c, i):
    return z3.Function('str.cat', c.S.Str, c.S.Str, c.S.Str)(c.str('child_'), z3.Function('to_string:Int', Int, c.S.Str)(i))


def attrs_of(c, obj, cls):
    return c.fld(obj, cls + '::m_attributes')


def attr_is(c, A, seq, i):
    """entry i of the attribute list stands as member i of the structure"""
    S = c.S
    e = S.at(seq, i)
    n, x = S.get(e, 0), S.get(e, 1)
    part = field(c, A, n)
    return z3.And(S.at(members(c, A), i) == n, has_field(c, A, n), typ(c, part) == named_type(c, 'StringType'), reads(c, part, STR)[1] == x)


def attrs_written(c, A, seq, k):
    S = c.S
    return z3.And(is_struct(c, A), S.slen(members(c, A)) == k,
                  forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < k), attr_is(c, A, seq, i)),
                         pats=lambda i: [S.at(seq, i), S.at(members(c, A), i)]))


def names_fit(c, seq, k):
    """each name can be a member, and no name occurs twice"""
    S = c.S
    nm = lambda i: S.get(S.at(seq, i), 0)
    return z3.And(forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < k), simple(c, nm(i))), pats=lambda i: S.at(seq, i)),
                  forall([Int, Int], lambda i, j: z3.Implies(z3.And(0 <= i, i < j, j < k), nm(i) != nm(j)),
                         pats=lambda i, j: z3.MultiPattern(S.at(seq, i), S.at(seq, j))))


# ---------------------------------------------------------------- loops
def writing(get):
    def inv(L):
        """attributes written so far, the rest of the description in place"""
        c, out = L.c, []
        if L.k is None:
            return out
        seq = get(c)
        for n, v in L.changed(any_sort(c)):
            e = L.entry.snap.store.get(n)
            out += [attrs_written(c, attr_part(c, v), seq, L.k), attrs_written(c, v, seq, L.k)]
            for f in ('type', 'index', 'category', 'attributes', 'children'):
                out.append(has_field(c, v, c.str(f)) == has_field(c, e, c.str(f)))
                if f != 'attributes':
                    out.append(field(c, v, c.str(f)) == field(c, e, c.str(f)))
            out += [is_struct(c, v) == is_struct(c, e), members(c, v) == members(c, e)]
        out.append(names_fit(c, seq, L.k))
        return out
    return inv


# ---------------------------------------------------------------- variables
@contract(U + 'ValidateMemberType', props=['C23'])
def vmt(c):
    v, n, t = [c.old.arg(i) for i in range(3)]
    c.ensures('tells whether there is such a member of that type', lambda: c.result == z3.And(
        has_field(c, v, n), typ(c, field(c, v, n)) == t))


def checked(L):
    """members looked at so far are texts"""
    c = L.c
    if L.k is None:
        return []
    S, A = c.S, attr_part(c, c.old.arg(0))
    m = members(c, A)
    return [forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < L.k), typ(
        c, field(c, A, S.at(m, i))) == named_type(c, 'StringType')), pats=lambda i: S.at(m, i))]


@contract(U + 'ValidateVariableInfoAnyValue', props=['C23'], loops=[checked])
def valid_var(c):
    for t in types_known(c):
        c.assume(t)
    c.ensures('accepts exactly the shape of a variable description', lambda: c.result == good_variable(c, c.old.arg(0)))


def attrs_read(c, seq, v, k):
    """the list holds the members, in order, with their texts"""
    S, A = c.S, attr_part(c, v)
    m = members(c, A)
    return z3.And(S.slen(seq) == k, forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < k), z3.And(
        S.get(S.at(seq, i), 0) == S.at(m, i), S.get(S.at(seq, i), 1) == reads(c, field(c, A, S.at(m, i)), STR)[1])),
        pats=lambda i: [S.at(seq, i), S.at(m, i)]))


def reading(L):
    c = L.c
    if L.k is None:
        return []
    return [attrs_read(c, v, c.old.arg(0), L.k) for n, v in L.changed(L.S.seq(L.S.pair(L.S.Str, L.S.Str)))]


def variable_read(c, info, v):
    """the description holds what the value says"""
    f = lambda n: c.S.getf(info, VI + '::' + n)
    return z3.And(f('m_var_type') == text_in(c, v, 'type'), f('m_index') == number_in(c, v, 'index'),
                  attrs_read(c, f('m_attributes'), v, c.S.slen(members(c, attr_part(c, v)))))


def variable_described(c, info, v):
    """every part of the description can be read from the value"""
    f = lambda n: c.S.getf(info, VI + '::' + n)
    seq = f('m_attributes')
    return z3.And(has_typed(c, v, 'type', 'StringType'), text_in(c, v, 'type') == f('m_var_type'),
                  has_typed(c, v, 'index', 'UnsignedInteger32Type'), number_in(c, v, 'index') == f('m_index'),
                  has_field(c, v, c.str('attributes')), attrs_written(c, attr_part(c, v), seq, c.S.slen(seq)))


def variable_fits(c, info):
    seq = c.S.getf(info, VI + '::m_attributes')
    return names_fit(c, seq, c.S.slen(seq))


def round_trip(c, sort, described, equal):
    """for an arbitrary description: if the value is what was written from it, reading succeeds and gives it back"""
    if c.mode != 'check':
        return
    x = z3.Const('written', sort)
    if sort != Int:
        for t in c.S.sortinv(x):
            c.assume(t)
    d = described(x)
    c.ensures('a value written from a description reads back as that description', lambda: z3.Implies(d, equal(x)))
    c.ensures('a value written from a description is not refused', lambda: z3.Not(d), on='throw')


def same_list(c, a, b):
    return z3.And(c.S.slen(a) == c.S.slen(b), forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < c.S.slen(a)), c.S.at(a, i) == c.S.at(b, i)),
                                                     pats=lambda i: [c.S.at(a, i), c.S.at(b, i)]))


def same_variable(c, a, b):
    f = lambda x, n: c.S.getf(x, VI + '::' + n)
    return z3.And(f(a, 'm_var_type') == f(b, 'm_var_type'), f(a, 'm_index') == f(b, 'm_index'), same_list(c, f(a, 'm_attributes'), f(b, 'm_attributes')))


@contract(U + 'ToVariableInfo', props=['C23'], loops=[reading])
def to_var(c):
    for t in types_known(c):
        c.assume(t)
    v = c.old.arg(0)
    c.throws(BAD, z3.Not(good_variable(c, v)))
    c.ensures('the description holds what the value says', lambda: variable_read(c, c.result, v))
    round_trip(c, c.S.sort(VI), lambda x: z3.And(variable_described(c, x, v), c.S.getf(x, VI + '::m_var_type') != c.str('')),
               lambda x: same_variable(c, x, c.result))


@contract(U + 'ToAnyValue', props=['C23'], name=U + 'ToAnyValue(VariableInfo)', sig=params_are('VariableInfo'),
          loops=[writing(lambda c: c.old.fld(c.old.arg(0), VI + '::m_attributes'))])
def from_var(c):
    for t in types_known(c):
        c.assume(t)
    info = c.old.arg(0)
    c.throws(INVALID, z3.Not(variable_fits(c, info)), 'refuses exactly attributes that cannot be members')
    c.ensures('every part can be read from the value', lambda: variable_described(c, info, c.result))


# ---------------------------------------------------------------- workspaces
VARS = WI + '::m_vars'


def vname(c, seq, i):
    return c.S.get(c.S.at(seq, i), 0)


def vinfo(c, seq, i):
    return c.S.get(c.S.at(seq, i), 1)


def not_yet_taken(L):
    c = L.c
    if L.k is None:
        return []
    S, vs = c.S, c.old[VARS]
    return [forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < L.k), vname(c, vs, i) != c.old.arg(0)), pats=lambda i: S.at(vs, i))]


@contract(WI + '::ValidateNewVariableInfo', props=['C23'], loops=[not_yet_taken])
def new_var(c):
    S, vs = c.S, c.old[VARS]
    i = z3.Int('nv')
    c.ensures('accepts exactly a new name with the next index', lambda: c.result == z3.And(
        z3.Not(z3.Exists([i], z3.And(0 <= i, i < S.slen(vs), vname(c, vs, i) == c.old.arg(0)))),
        S.getf(c.old.arg(1), VI + '::m_index') == S.slen(vs)))


def name_taken(c, vs, n):
    i = z3.Int('nv')
    return z3.Exists([i], z3.And(0 <= i, i < c.S.slen(vs), vname(c, vs, i) == n))


@contract(WI + '::AddVariableInfo', props=['C23'], modifies=['this.' + VARS])
def add_var(c):
    S, a, n, x = c.S, c.old[VARS], c.old.arg(0), c.old.arg(1)
    c.throws(BAD, z3.Or(name_taken(c, a, n), S.getf(x, VI + '::m_index') != S.slen(a)))

    def added():
        b = c.new[VARS]
        e = S.at(b, S.slen(a))
        return z3.And(S.slen(b) == S.slen(a) + 1, S.get(e, 0) == n, S.get(e, 1) == x, forall(
            [Int], lambda i: z3.Implies(z3.And(0 <= i, i < S.slen(a)), S.at(b, i) == S.at(a, i)), pats=lambda i: S.at(b, i)))
    c.ensures('the variable comes last, the others stay', added)
    c.ensures('a refused variable changes nothing', lambda: c.S.deep_eq(c.new[VARS], a), on='throw')


def good_workspace(c, v):
    S, m = c.S, members(c, v)
    return z3.And(is_struct(c, v), forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < S.slen(m)), good_variable(
        c, field(c, v, S.at(m, i)))), pats=lambda i: S.at(m, i)))


def good_so_far(L):
    c = L.c
    if L.k is None:
        return []
    S, v = c.S, c.old.arg(0)
    m = members(c, v)
    return [forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < L.k), good_variable(c, field(c, v, S.at(m, i)))), pats=lambda i: S.at(m, i))]


@contract(U + 'ValidateWorkspaceInfoAnyValue', props=['C23'], loops=[good_so_far])
def valid_ws(c):
    for t in types_known(c):
        c.assume(t)
    c.ensures('accepts exactly the shape of a workspace description', lambda: c.result == good_workspace(c, c.old.arg(0)))


def vars_read(c, vs, v, k):
    S, m = c.S, members(c, v)
    return z3.And(S.slen(vs) == k, forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < k), z3.And(
        vname(c, vs, i) == S.at(m, i), variable_read(c, vinfo(c, vs, i), field(c, v, S.at(m, i))))),
        pats=lambda i: [S.at(vs, i), S.at(m, i)]))


def indices_in_order(c, v, k):
    S, m = c.S, members(c, v)
    return forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < k), number_in(c, field(c, v, S.at(m, i)), 'index') == i),
                  pats=lambda i: S.at(m, i))


def reading_vars(L):
    c = L.c
    if L.k is None:
        return []
    v = c.old.arg(0)
    out = [indices_in_order(c, v, L.k)]
    for n, w in L.changed(c.S.sort(WI)):
        out.append(vars_read(c, c.S.getf(w, VARS), v, L.k))
    return out


def well_formed(c, vs):
    """what AddVariableInfo keeps: indices in order, plus that every variable has a type"""
    S = c.S
    f = lambda i, n: S.getf(vinfo(c, vs, i), VI + '::' + n)
    return forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < S.slen(vs)), z3.And(f(i, 'm_index') == i, f(i, 'm_var_type') != c.str(''))),
                  pats=lambda i: S.at(vs, i))


@contract(U + 'ToWorkspaceInfo', props=['C23'], loops=[reading_vars])
def to_ws(c):
    for t in types_known(c):
        c.assume(t)
    v = c.old.arg(0)
    n = c.S.slen(members(c, v))
    c.throws(BAD, z3.Not(z3.And(good_workspace(c, v), indices_in_order(c, v, n))))
    c.ensures('the description holds what the value says', lambda: vars_read(c, c.S.getf(c.result, VARS), v, n))
    vs = lambda x: c.S.getf(x, VARS)
    round_trip(c, c.S.sort(WI), lambda x: z3.And(vars_written(c, v, vs(x), c.S.slen(vs(x))), well_formed(c, vs(x))), lambda x: z3.And(
        c.S.slen(vs(x)) == c.S.slen(vs(c.result)), forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < c.S.slen(vs(x))), z3.And(
            vname(c, vs(x), i) == vname(c, vs(c.result), i), same_variable(c, vinfo(c, vs(x), i), vinfo(c, vs(c.result), i)))),
            pats=lambda i: [c.S.at(vs(x), i), c.S.at(vs(c.result), i)])))


def vars_written(c, v, vs, k):
    S, m = c.S, members(c, v)
    return z3.And(is_struct(c, v), S.slen(m) == k, forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < k), z3.And(
        S.at(m, i) == vname(c, vs, i), has_field(c, v, vname(c, vs, i)), variable_described(c, vinfo(c, vs, i), field(c, v, vname(c, vs, i))))),
        pats=lambda i: [S.at(vs, i), S.at(m, i)]))


def vars_fit(c, vs, k):
    S = c.S
    return z3.And(names_fit(c, vs, k), forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < k), variable_fits(c, vinfo(c, vs, i))),
                                              pats=lambda i: S.at(vs, i)))


def writing_vars(L):
    c = L.c
    if L.k is None:
        return []
    vs = c.old.fld(c.old.arg(0), VARS)
    out = [names_fit(c, vs, L.k), vars_fit(c, vs, L.k)]
    for n, v in L.changed(any_sort(c)):
        out.append(vars_written(c, v, vs, L.k))
    return out


@contract(U + 'ToAnyValue', props=['C23'], name=U + 'ToAnyValue(WorkspaceInfo)', sig=params_are('WorkspaceInfo'), loops=[writing_vars])
def from_ws(c):
    for t in types_known(c):
        c.assume(t)
    vs = c.old.fld(c.old.arg(0), VARS)
    n = c.S.slen(vs)
    c.throws(INVALID, z3.Not(vars_fit(c, vs, n)), 'refuses exactly names that cannot be members')
    c.ensures('every part can be read from the value', lambda: vars_written(c, c.result, vs, n))


# ---------------------------------------------------------------- instructions
ITYPE, ICAT, IIDX, IATT, IKIDS = [II + '::' + x for x in ('m_instr_type', 'm_category', 'm_index', 'm_attributes', 'm_children')]


def node_read(c, f, v):
    return z3.And(f(ITYPE) == text_in(c, v, 'type'), f(ICAT) == number_in(c, v, 'category'), f(IIDX) == number_in(c, v, 'index'),
                  attrs_read(c, f(IATT), v, c.S.slen(members(c, attr_part(c, v)))))


def node_described(c, f, v):
    seq = f(IATT)
    return z3.And(has_typed(c, v, 'type', 'StringType'), text_in(c, v, 'type') == f(ITYPE),
                  has_typed(c, v, 'category', 'UnsignedInteger32Type'), number_in(c, v, 'category') == f(ICAT),
                  has_typed(c, v, 'index', 'UnsignedInteger32Type'), number_in(c, v, 'index') == f(IIDX),
                  z3.Not(has_field(c, v, c.str('children'))),
                  has_field(c, v, c.str('attributes')), attrs_written(c, attr_part(c, v), seq, c.S.slen(seq)))


def checked_kids(L):
    c = L.c
    if L.k is None:
        return []
    S, v = c.S, c.old.arg(0)
    m = members(c, field(c, v, c.str('children')))
    return checked(L) + [forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < L.k), S.at(m, i) == child_name(c, i)), pats=lambda i: S.at(m, i))]


@contract(U + 'ValidateInstructionInfoAnyValue', props=['C23'], loops=[checked_kids])
def valid_instr(c):
    for t in types_known(c):
        c.assume(t)
    c.ensures('accepts exactly the shape of an instruction description', lambda: c.result == good_instruction(c, c.old.arg(0)))


@contract(U + 'ToInstructionInfoNode', props=['C23'], loops=[reading], modifies=['alloc'])
def to_node(c):
    for t in types_known(c):
        c.assume(t)
    v = c.old.arg(0)
    c.throws(BAD, z3.Not(good_instruction(c, v)))
    c.ensures('the description holds what the value says', lambda: z3.And(c.result > 0, node_read(
        c, lambda n: c.new.fld(c.result, n), v), c.S.slen(c.new.fld(c.result, IKIDS)) == 0))
    round_trip(c, Int, lambda x: node_described(c, lambda n: c.old.fld(x, n), v), lambda x: z3.And(
        *[c.old.fld(x, k) == c.new.fld(c.result, k) for k in (ITYPE, ICAT, IIDX)], same_list(c, c.old.fld(x, IATT), c.new.fld(c.result, IATT))))


@contract(U + 'ToAnyValueNode', props=['C23'], loops=[writing(lambda c: c.old.fld(c.old.arg(0), IATT))])
def from_node(c):
    for t in types_known(c):
        c.assume(t)
    x = c.old.arg(0)
    seq = c.old.fld(x, IATT)
    c.throws(INVALID, z3.Not(names_fit(c, seq, c.S.slen(seq))), 'refuses exactly attributes that cannot be members')
    c.ensures('every part can be read from the value', lambda: node_described(c, lambda n: c.old.fld(x, n), c.result))


@contract(II + '::ValidateAppend', props=['C23'])
def can_append(c):
    c.throws(BAD, z3.Not(may_append(c)))


def may_append(c):
    cat, n = c.old[ICAT], c.S.slen(c.old[IKIDS])
    return z3.Or(cat == c.enum(N + 'Instruction::Category::kCompound'), z3.And(cat == c.enum(N + 'Instruction::Category::kDecorator'), n == 0))


@contract(II + '::AppendChild', props=['C23'], modifies=['this.' + IKIDS])
def append_child(c):
    S, a, x = c.S, c.old[IKIDS], c.old.arg(0)
    c.throws(BAD, z3.Not(may_append(c)))

    def added():
        b = c.new[IKIDS]
        return z3.And(c.result == x, S.slen(b) == S.slen(a) + 1, S.at(b, S.slen(a)) == x, forall(
            [Int], lambda i: z3.Implies(z3.And(0 <= i, i < S.slen(a)), S.at(b, i) == S.at(a, i)), pats=lambda i: S.at(b, i)))
    c.ensures('the child comes last, the others stay', added)


def children_so_far(L):
    c = L.c
    if L.k is None:
        return []
    S, a = c.S, c.old[IKIDS]
    out = []
    for n, v in L.changed(a.sort()):
        out += [S.slen(v) == L.k, S.slen(v) == S.slen(a),
                forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < L.k), S.at(v, i) == S.at(a, i)), pats=lambda i: S.at(v, i))]
    return out


@contract(II + '::Children', props=['C23'], name=II + '::Children', loops=[children_so_far])
def kids(c):
    c.ensures('the children in order', lambda: c.S.seq_eq(c.result, c.old[IKIDS]))


# ---------------------------------------------------------------- variables and instructions of a procedure
def text_attrs(c, obj):
    return c.V.fn('attributes of', [Int], c.S.seq(c.S.pair(c.S.Str, c.S.Str)))(obj)


for cls in ('Instruction', 'Variable'):
    @contract(N + cls + '::GetStringAttributes', abstract=True, first=True, pure=True)
    def all_attrs(c):
        c.returns(text_attrs(c, c.this))


@contract(N + 'Instruction::GetCategory', abstract=True, first=True, pure=True)
def category(c):
    x = c.V.fn('category of', [Int], Int)(c.this)
    c.assume(z3.And(0 <= x, x < 3))
    c.returns(x)


for cls in ('Instruction', 'Variable'):
    @contract(N + cls + '::GetType', abstract=True, first=True, pure=True)
    def type_name(c):
        c.returns(type_of(c, c.this))


def type_of(c, x):
    return c.V.fn('type name of', [Int], c.S.Str)(x)


@contract(U + 'CreateVariableInfo', props=['C23'])
def make_var(c):
    x = c.old.arg(0)
    c.throws(BAD, x == 0)
    f = lambda n: c.S.getf(c.result, VI + '::' + n)
    c.ensures('type, attributes and the index given', lambda: z3.And(
        f('m_index') == c.old.arg(1), f('m_var_type') == type_of(c, x), c.S.deep_eq(f('m_attributes'), text_attrs(c, x))))


@contract(U + 'CreateInstructionInfoNode', props=['C23'], modifies=['alloc'])
def make_node(c):
    x = c.old.arg(0)
    f = lambda n: c.new.fld(c.result, n)
    c.ensures('type, category, attributes and the index given', lambda: z3.And(
        f(IIDX) == c.old.arg(1), f(ITYPE) == type_of(c, x), f(ICAT) == c.V.fn('category of', [Int], Int)(x), c.S.deep_eq(f(IATT), text_attrs(c, x)),
        c.S.slen(f(IKIDS)) == 0))


def names_so_far(L):
    c = L.c
    if L.k is None:
        return []
    S, vs = c.S, c.old.fld(c.old.arg(0), VARS)
    return [z3.And(S.slen(v) == L.k, forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < L.k), S.at(v, i) == vname(c, vs, i)), pats=lambda i: S.at(v, i)))
            for n, v in L.changed(S.seq(S.Str))]


@contract(U + 'BuildVariableNameMap', props=['C23'], loops=[names_so_far])
def name_map(c):
    S, vs = c.S, c.old.fld(c.old.arg(0), VARS)
    c.ensures('the names in order', lambda: z3.And(S.slen(c.result) == S.slen(vs), forall([Int], lambda i: z3.Implies(
        z3.And(0 <= i, i < S.slen(vs)), S.at(c.result, i) == vname(c, vs, i)), pats=lambda i: S.at(c.result, i))))


# ---------------------------------------------------------------- user input
RT, RM, RI = [UQ + '::' + x for x in ('m_request_type', 'm_meta_data', 'm_input_type')]
PT, PR, PP = [UR + '::' + x for x in ('m_request_type', 'm_result', 'm_payload')]
KVALUE, KCHOICE = N + 'InputRequestType::kUserValue', N + 'InputRequestType::kUserChoice'


@contract(N + 'CreateUserValueReply', props=['C23'])
def value_reply(c):
    g = lambda k: c.S.getf(c.result, k)
    c.ensures('holds the answer and the value', lambda: z3.And(g(PT) == c.enum(KVALUE), g(PR) == c.old.arg(0), g(PP) == c.old.arg(1)))


@contract(N + 'CreateUserChoiceReply', props=['C23'])
def choice_reply(c):
    for t in types_known(c):
        c.assume(t)
    g = lambda k: c.S.getf(c.result, k)
    ok, x = (lambda: reads(c, g(PP), I32)), None
    c.ensures('holds the answer and the choice', lambda: z3.And(
        g(PT) == c.enum(KCHOICE), g(PR) == c.old.arg(0), typ(c, g(PP)) == named_type(c, 'SignedInteger32Type'), reads(c, g(PP), I32)[1] == c.old.arg(1)))


@contract(N + 'ParseUserValueReply', props=['C23'])
def parse_value(c):
    r = c.old.arg(0)
    g = lambda k: c.S.getf(r, k)
    good = z3.And(g(PT) == c.enum(KVALUE), g(PR))
    c.ensures('gives the value of a positive value reply, and fails otherwise', lambda: z3.And(
        c.S.get(c.result, 0) == good, z3.Implies(good, c.S.get(c.result, 1) == g(PP))))


@contract(N + 'ParseUserChoiceReply', props=['C23'])
def parse_choice(c):
    for t in types_known(c):
        c.assume(t)
    r = c.old.arg(0)
    g = lambda k: c.S.getf(r, k)
    good = z3.And(g(PT) == c.enum(KCHOICE), g(PR), typ(c, g(PP)) == named_type(c, 'SignedInteger32Type'))
    c.ensures('gives the choice of a positive choice reply, and fails otherwise', lambda: z3.And(
        c.S.get(c.result, 0) == good, c.S.get(c.result, 1) == z3.If(good, reads(c, g(PP), I32)[1], -1)))


@contract(N + 'CreateUserValueRequest', props=['C23'])
def value_request(c):
    for t in types_known(c):
        c.assume(t)
    g = lambda k: c.S.getf(c.result, k)
    c.ensures('holds the type wanted and the description', lambda: z3.And(
        g(RT) == c.enum(KVALUE), g(RI) == typ(c, c.old.arg(0)), typ(c, g(RM)) == named_type(c, 'StringType'), reads(c, g(RM), STR)[1] == c.old.arg(1)))


def text_array(c, v, seq, k):
    S = c.S
    return z3.And(is_array(c, v), n_elements(c, v) == S.slen(seq), element_type(c, typ(c, v)) == named_type(c, 'StringType'),
                  forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < S.slen(seq)), z3.And(
                      typ(c, elem(c, v, i)) == named_type(c, 'StringType'), z3.Implies(i < k, reads(c, elem(c, v, i), STR)[1] == S.at(seq, i)))),
                      pats=lambda i: [S.at(seq, i), elem(c, v, i)]))


def options_written(L):
    c = L.c
    if L.k is None:
        return []
    return [text_array(c, v, c.old.arg(0), L.k) for n, v in L.changed(any_sort(c))]


@contract(N + 'CreateUserChoiceRequest', props=['C23'], loops=[options_written])
def choice_request(c):
    for t in types_known(c):
        c.assume(t)
    g = lambda k: c.S.getf(c.result, k)
    opts = c.old.arg(0)

    def holds():
        m = g(RM)
        o, d = c.str('options'), c.str('metadata')
        return z3.And(g(RT) == c.enum(KCHOICE), g(RI) == named_type(c, 'SignedInteger32Type'), is_struct(c, m), has_field(c, m, o), has_field(c, m, d),
                      field(c, m, d) == c.old.arg(1), text_array(c, field(c, m, o), opts, c.S.slen(opts)))
    c.ensures('holds the options in order and the extra data', holds)


def assign_ok(c, a, b):
    return z3.Function('any.can_be_assigned', a.sort(), b.sort(), z3.BoolSort())(a, b), z3.Function('any.assigned', a.sort(), b.sort(), a.sort())(a, b)


@contract(N + 'ParseUserValueRequest', props=['C23'], modifies=['arg:1', 'arg:2'])
def parse_value_request(c):
    for t in types_known(c):
        c.assume(t)
    r, v, d = c.old.arg(0), c.old.arg(1), c.old.arg(2)
    g = lambda k: c.S.getf(r, k)
    ok, x = assign_ok(c, v, default_of(c, g(RI)))
    good = z3.And(g(RT) == c.enum(KVALUE), typ(c, g(RM)) == named_type(c, 'StringType'), ok)
    c.ensures('gives a value of the type and the description of a value request, and fails otherwise without change', lambda: z3.And(
        c.result == good, c.new.arg(1) == z3.If(good, x, v), c.new.arg(2) == z3.If(good, reads(c, g(RM), STR)[1], d)))


def options_read(L):
    c = L.c
    if L.k is None:
        return []
    S = c.S
    o = field(c, S.getf(c.old.arg(0), RM), c.str('options'))
    return [L.k <= n_elements(c, o)] + [z3.And(S.slen(v) == L.k, forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < L.k), S.at(v, i) == reads(c, elem(c, o, i), STR)[1]),
                                            pats=lambda i: S.at(v, i))) for n, v in L.changed(S.seq(S.Str))]


@contract(N + 'ParseUserChoiceRequest', props=['C23'], modifies=['arg:1', 'arg:2'], loops=[options_read])
def parse_choice_request(c):
    for t in types_known(c):
        c.assume(t)
    S = c.S
    r, opts, d = c.old.arg(0), c.old.arg(1), c.old.arg(2)
    g = lambda k: c.S.getf(r, k)
    O, M = c.str('options'), c.str('metadata')
    m = g(RM)
    o = field(c, m, O)
    ok, x = assign_ok(c, d, field(c, m, M))
    good = z3.And(g(RT) == c.enum(KCHOICE), has_field(c, m, O), has_field(c, m, M), is_array(c, o),
                  element_type(c, typ(c, o)) == named_type(c, 'StringType'), ok)
    if c.mode == 'check':
        # assumed: the elements of an array have its element type
        c.assume(forall([Int], lambda i: z3.Implies(z3.And(is_array(c, o), 0 <= i, i < n_elements(c, o)), typ(c, elem(c, o, i)) == element_type(c, typ(c, o))),
                        pats=lambda i: elem(c, o, i)))
    c.ensures('succeeds exactly for a choice request', lambda: c.result == good)
    c.ensures('gives the options in order and the extra data', lambda: z3.Implies(good, z3.And(
        c.new.arg(2) == x, S.slen(c.new.arg(1)) == n_elements(c, o), forall([Int], lambda i: z3.Implies(
            z3.And(0 <= i, i < n_elements(c, o)), S.at(c.new.arg(1), i) == reads(c, elem(c, o, i), STR)[1]), pats=lambda i: S.at(c.new.arg(1), i)))))
    c.ensures('a failure changes nothing', lambda: z3.Implies(z3.Not(good), z3.And(c.new.arg(2) == d, S.deep_eq(c.new.arg(1), opts))))


# ---------------------------------------------------------------- comparison
def any_equal(c, a, b):
    return c.V.fn('any.equal', [a.sort(), b.sort()], z3.BoolSort())(a, b)


for op, pos in (('==', True), ('!=', False)):
    @contract(D + 'AnyValue::operator' + op, abstract=True, first=True, pure=True)
    def value_eq(c, pos=pos):
        a, b = self_value(c), c.old.arg(0)
        c.assume(z3.Implies(typ(c, a) != typ(c, b), z3.Not(any_equal(c, a, b))))
        c.returns(any_equal(c, a, b) if pos else z3.Not(any_equal(c, a, b)))


def same_fields(c, a, b, *keys):
    out = []
    for k in keys:
        x, y = c.old.fld(a, k), c.old.fld(b, k)
        out.append(any_equal(c, x, y) if x.sort() == any_sort(c) else c.S.deep_eq(x, y))
    return z3.And(*out)


for cls, keys in ((UR, (PT, PR, PP)), (UQ, (RT, RM, RI)), (VI, tuple(VI + '::' + x for x in ('m_var_type', 'm_index', 'm_attributes'))),
                  (WI, (VARS,))):
    short = cls.split('::')[-1]

    @contract(N + 'operator==', props=['C23'], name=N + 'operator==(%s)' % short, sig=params_are(short + ' ', short + ' '))
    def equal(c, keys=keys):
        c.ensures('equal exactly when all parts are', lambda: c.result == same_fields(c, c.old.arg(0), c.old.arg(1), *keys))

    @contract(N + 'operator!=', props=['C23'], name=N + 'operator!=(%s)' % short, sig=params_are(short + ' ', short + ' '))
    def unequal(c, keys=keys):
        c.ensures('unequal exactly when some part is', lambda: c.result != same_fields(c, c.old.arg(0), c.old.arg(1), *keys))


def same_tree(c, a, b):
    return c.V.fn('same description tree', [Int, Int], z3.BoolSort())(a, b)


def same_node(c, a, b):
    S = c.S
    x, y = c.old.fld(a, IKIDS), c.old.fld(b, IKIDS)
    return z3.And(same_fields(c, a, b, ITYPE, ICAT, IIDX, IATT), S.slen(x) == S.slen(y), forall([Int], lambda i: z3.Implies(
        z3.And(0 <= i, i < S.slen(x)), same_tree(c, S.at(x, i), S.at(y, i))), pats=lambda i: S.at(x, i)))


def same_so_far(L):
    c = L.c
    if L.k is None:
        return []
    S, a, b = c.S, c.old.arg(0), c.old.arg(1)
    x, y = c.old.fld(a, IKIDS), c.old.fld(b, IKIDS)
    return [forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < L.k), same_tree(c, S.at(x, i), S.at(y, i))), pats=lambda i: S.at(x, i))]


def kids_exist(c):
    for i in (0, 1):
        k = c.old.fld(c.old.arg(i), IKIDS)
        c.assume(forall([Int], lambda j: z3.Implies(z3.And(0 <= j, j < c.S.slen(k)), c.S.at(k, j) > 0), pats=lambda j: c.S.at(k, j)))


@contract(N + 'operator==', props=['C23'], name=N + 'operator==(InstructionInfo)', sig=params_are('InstructionInfo ', 'InstructionInfo '),
          loops=[same_so_far])
def tree_equal(c):
    """the relation over a tree is the one defined by one level of it (trees are finite)"""
    a, b = c.old.arg(0), c.old.arg(1)
    if c.mode == 'call':
        c.returns(same_tree(c, a, b))
        return
    kids_exist(c)
    c.ensures('equal exactly when the node and all children in order are', lambda: c.result == same_node(c, a, b))


@contract(N + 'operator!=', props=['C23'], name=N + 'operator!=(InstructionInfo)', sig=params_are('InstructionInfo ', 'InstructionInfo '))
def tree_unequal(c):
    c.ensures('unequal exactly when not equal', lambda: c.result != same_tree(c, c.old.arg(0), c.old.arg(1)))


# ---------------------------------------------------------------- jobs
JNAME, JWS, JROOT = [JI + '::' + x for x in ('m_full_name', 'm_ws', 'm_root')]


def tree_value(c, x):
    return c.V.fn('value of tree', [Int], any_sort(c))(x)


def tree_of(c, v):
    return c.V.fn('tree of value', [v.sort()], Int)(v)


@contract(U + 'ToAnyValueTree', abstract=True)
def from_tree(c):
    ok = c.V.fn('tree fits', [Int], z3.BoolSort())(c.old.arg(0))
    c.throws(INVALID, z3.Not(ok))
    c.returns(tree_value(c, c.old.arg(0)))


@contract(U + 'ToInstructionInfoTree', abstract=True)
def to_tree(c):
    v = c.old.arg(0)
    c.throws(BAD, z3.Not(c.V.fn('value of a tree', [v.sort()], z3.BoolSort())(v)))
    c.assume(tree_of(c, v) > 0)
    c.returns(tree_of(c, v))


@contract(U + 'CreateOrderedInstructionInfo', abstract=True, first=True)
def ordered(c):
    c.ensures('is a list', lambda: c.S.slen(c.result) >= 0)


def good_job(c, v):
    return z3.And(has_typed(c, v, 'full_name', 'StringType'), has_field(c, v, c.str('ws_info')), has_field(c, v, c.str('instr_tree_info')))


@contract(U + 'ValidateJobInfoAnyValue', props=['C23'])
def valid_job(c):
    for t in types_known(c):
        c.assume(t)
    c.ensures('accepts exactly the shape of a job description', lambda: c.result == good_job(c, c.old.arg(0)))


@contract(U + 'ToJobInfo', props=['C23'], modifies=['alloc'])
def to_job(c):
    for t in types_known(c):
        c.assume(t)
    v = c.old.arg(0)
    w, t = field(c, v, c.str('ws_info')), field(c, v, c.str('instr_tree_info'))
    n = c.S.slen(members(c, w))
    c.throws(BAD, z3.Not(z3.And(good_job(c, v), good_workspace(c, w), indices_in_order(c, w, n),
                                c.V.fn('value of a tree', [v.sort()], z3.BoolSort())(t))))
    g = lambda k: c.S.getf(c.result, k)
    c.ensures('the description holds what the value says', lambda: z3.And(
        g(JNAME) == text_in(c, v, 'full_name'), vars_read(c, c.S.getf(g(JWS), VARS), w, n), g(JROOT) == tree_of(c, t)))


@contract(U + 'ToAnyValue', props=['C23'], name=U + 'ToAnyValue(JobInfo)', sig=params_are('JobInfo'))
def from_job(c):
    for t in types_known(c):
        c.assume(t)
    g = lambda k: c.old.fld(c.old.arg(0), k)
    vs = c.S.getf(g(JWS), VARS)
    c.requires('has a root', g(JROOT) > 0)
    c.throws(INVALID, z3.Not(z3.And(vars_fit(c, vs, c.S.slen(vs)), c.V.fn('tree fits', [Int], z3.BoolSort())(g(JROOT)))))

    def holds():
        v = c.result
        return z3.And(good_job(c, v), text_in(c, v, 'full_name') == g(JNAME), vars_written(c, field(c, v, c.str('ws_info')), vs, c.S.slen(vs)),
                      field(c, v, c.str('instr_tree_info')) == tree_value(c, g(JROOT)))
    c.ensures('every part can be read from the value', holds)
