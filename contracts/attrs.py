"""Contracts of attributes (C14) and of their validation (C15)."""
import z3

from contracts.core import N, params_are
from contracts.dto import dep, self_value
from engine.verify import ENTITIES, contract, forall

Int = z3.IntSort()
AH, AV, AD = N + 'AttributeHandler', N + 'AttributeValidator', N + 'AttributeDefinition'
INS, VAR = N + 'Instruction', N + 'Variable'
IH = N + 'InstructionHelper::'
ENTITIES |= {AH + '::AttributeHandlerImpl', N + 'AttributeProperties'}
AS = AH + '::m_str_attributes'
DEFS, CONS = AV + '::m_attribute_definitions', AV + '::m_custom_constraints'
DN, DP = AD + '::m_name', AD + '::m_properties'
FILL, ADDATTR = 120, 121


def rng(S, seq, i):
    return z3.And(0 <= i, i < S.slen(seq))


def aname(c, seq, i):
    return c.S.get(c.S.at(seq, i), 0)


def avalue(c, seq, i):
    return c.S.get(c.S.at(seq, i), 1)


def has(c, seq, name):
    i = z3.Int('hi')
    return z3.Exists([i], z3.And(rng(c.S, seq, i), aname(c, seq, i) == name))


def text_of(c, seq, name):
    return c.V.fn('attribute text', [seq.sort(), c.S.Str], c.S.Str)(seq, name)


def unique(c, seq):
    S = c.S
    return forall([Int, Int], lambda i, j: z3.Implies(z3.And(0 <= i, i < j, j < S.slen(seq)), aname(c, seq, i) != aname(c, seq, j)),
                  pats=lambda i, j: z3.MultiPattern(S.at(seq, i), S.at(seq, j)))


def same(c, a, b, upto):
    return forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < upto), c.S.at(b, i) == c.S.at(a, i)), pats=lambda i: c.S.at(b, i))


def appended(c, a, b, name, value):
    S = c.S
    n = S.slen(a)
    return z3.And(S.slen(b) == n + 1, S.at(b, n) == S.pair(S.Str, S.Str).constructor(0)(name, value), same(c, a, b, n))


def replaced(c, a, b, name, value):
    """the value of this name is replaced; names, order and all other values are as before"""
    S = c.S
    return z3.And(S.slen(a) == S.slen(b), forall([Int], lambda i: z3.Implies(rng(S, a, i), z3.And(
        aname(c, b, i) == aname(c, a, i), avalue(c, b, i) == z3.If(aname(c, a, i) == name, value, avalue(c, a, i)))),
        pats=lambda i: [S.at(b, i), S.at(a, i)]))


def adding(c, old, new, result, name, value):
    """a new name is appended and accepted, a known one refused without change"""
    known = has(c, old, name)
    if c.mode == 'call':
        # callers are looked at once for a known and once for a new name
        known = z3.BoolVal(bool(c.I.branch(index_of(c, old, name) < c.S.slen(old))))
    return [('accepts exactly a new name', lambda: result() == z3.Not(known)),
            ('a new attribute comes last, and no other changes', lambda: z3.Implies(z3.Not(known), appended(c, old, new(), name, value))),
            ('a known attribute keeps its value', lambda: z3.Implies(known, new() == old)),
            ('no name occurs twice', lambda: z3.Implies(unique(c, old), unique(c, new())))]


@contract(AH + '::HasStringAttribute', props=['C14'])
def h_has(c):
    c.ensures('tells whether there is an attribute of that name', lambda: c.result == has(c, c.old[AS], c.old.arg(0)))


@contract(AH + '::AddStringAttribute', props=['C14'], modifies=['this.' + AS])
def h_add(c):
    for label, fn in adding(c, c.old[AS], lambda: c.new[AS], lambda: c.result, c.old.arg(0), c.old.arg(1)):
        c.ensures(label, fn)


@contract(AH + '::SetStringAttribute', props=['C14'], modifies=['this.' + AS])
def h_set(c):
    a, name, value = c.old[AS], c.old.arg(0), c.old.arg(1)
    c.requires('no name occurs twice', unique(c, a))
    known = has(c, a, name)
    c.ensures('a known attribute gets the value in its place', lambda: z3.Implies(known, replaced(c, a, c.new[AS], name, value)))
    c.ensures('a new attribute comes last, and no other changes', lambda: z3.Implies(z3.Not(known), appended(c, a, c.new[AS], name, value)))
    c.ensures('no name occurs twice', lambda: unique(c, c.new[AS]))


@contract(AH + '::GetStringAttributes', props=['C14'], pure=True)
def h_all(c):
    c.returns(c.old[AS])
    c.ensures('all attributes, in the order added', lambda: c.S.seq_eq(c.result, c.old[AS]))


@contract(N + 'GetStringAttributeValue', props=['C14'])
def get_value(c):
    S, seq, name = c.S, c.old.arg(0), c.old.arg(1)
    i = z3.Int('gv')
    c.ensures('the value of the first attribute of that name, or nothing', lambda: z3.If(
        has(c, seq, name),
        z3.Exists([i], z3.And(rng(S, seq, i), aname(c, seq, i) == name, avalue(c, seq, i) == c.result,
                              forall([Int], lambda j: z3.Implies(z3.And(0 <= j, j < i), aname(c, seq, j) != name)))),
        c.result == c.str('')))


@contract(AV + '::HasAttributeDefinition', props=['C14'])
def v_has(c):
    S, defs = c.S, c.old[DEFS]
    i = z3.Int('dh')
    c.ensures('tells whether there is a definition of that name', lambda: c.result == z3.Exists(
        [i], z3.And(rng(S, defs, i), S.getf(S.at(defs, i), DN) == c.old.arg(0))))


@contract(AD + '::GetName', props=['C14'], pure=True)
def d_name(c):
    c.returns(c.old[DN])
    c.ensures('its name', lambda: c.result == c.old[DN])


@contract(AV + '::AddAttributeDefinition', props=['C14'], modifies=['this.' + DEFS, 'alloc', 'heap:*' + N + 'AttributeProperties'], nparams=2)
def v_add(c):
    S, a, name = c.S, c.old[DEFS], c.old.arg(0)
    i = z3.Int('dh')
    c.V.heap_types['*' + N + 'AttributeProperties'] = N + 'AttributeProperties'
    known = z3.Exists([i], z3.And(rng(S, a, i), S.getf(S.at(a, i), DN) == name))
    c.throws(N + 'InvalidOperationException', known, 'refuses exactly a name that is defined already')

    def added():
        b, n = c.new[DEFS], S.slen(a)
        return z3.And(S.slen(b) == n + 1, S.getf(S.at(b, n), DN) == name,
                      forall([Int], lambda i: z3.Implies(rng(S, a, i), S.at(b, i) == S.at(a, i)), pats=lambda i: S.at(b, i)))
    c.ensures('a new definition comes last', added, on='normal')
    c.ensures('a refused definition changes nothing', lambda: c.new[DEFS] == a, on='throw')

    def uniq(s):
        return forall([Int, Int], lambda i, j: z3.Implies(z3.And(0 <= i, i < j, j < S.slen(s)), S.getf(S.at(s, i), DN) != S.getf(S.at(s, j), DN)),
                      pats=lambda i, j: z3.MultiPattern(S.at(s, i), S.at(s, j)))
    c.ensures('a definition is unique per name', lambda: z3.Implies(uniq(a), uniq(c.new[DEFS])))


@contract(IH + 'AttributeStartsWith', props=['C14', 'C15'], pure=True, strings='theory')
def starts_with(c):
    s, ch = c.old.arg(0), c.old.arg(1)
    r = z3.Function('starts_with', s.sort(), Int, z3.BoolSort())(s, ch)
    if c.mode == 'call':
        c.returns(r)
        return
    c.ensures('true exactly for a text that begins with the character', lambda: c.result == z3.And(
        z3.Length(s) > 0, z3.StrToCode(z3.SubString(s, 0, 1)) == ch))


def placeholder(c, v):
    return z3.Function('starts_with', v.sort(), Int, z3.BoolSort())(v, z3.IntVal(ord('$')))


def source_name(c, v):
    return z3.Function('str.substr', c.S.Str, Int, Int, c.S.Str)(v, z3.IntVal(1), z3.IntVal((1 << 64) - 1))


class Fill:
    """what replacing the placeholders of a list does: for each attribute, the index of its source"""

    def __init__(self, c, src):
        self.c, self.src = c, src
        S = c.S
        self.at = z3.Function('source_at', S.Str, Int)
        x = z3.Const('sx', S.Str)
        i = z3.Int('si')
        n = S.slen(src)
        a = self.at(x)
        c.assume(z3.ForAll([x], z3.And(0 <= a, a <= n, z3.Implies(a < n, aname(c, src, a) == x)), patterns=[a]))
        c.assume(z3.ForAll([i], z3.Implies(rng(S, src, i), self.at(aname(c, src, i)) <= i), patterns=[S.at(src, i)]))

    def found(self, v):
        return self.at(source_name(self.c, v)) < self.c.S.slen(self.src)

    def value(self, v):
        c = self.c
        return z3.If(z3.And(placeholder(c, v), self.found(v)), avalue(c, self.src, self.at(source_name(c, v))), v)

    def done(self, old, new, k):
        c, S = self.c, self.c.S
        return z3.And(S.slen(old) == S.slen(new), forall([Int], lambda i: z3.Implies(rng(S, old, i), z3.And(
            aname(c, new, i) == aname(c, old, i),
            avalue(c, new, i) == z3.If(i < k, self.value(avalue(c, old, i)), avalue(c, old, i)))),
            pats=lambda i: [S.at(new, i), S.at(old, i)]))

    def all(self, old, k):
        c, S = self.c, self.c.S
        return forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < k, placeholder(c, avalue(c, old, i))), self.found(avalue(c, old, i))),
                      pats=lambda i: S.at(old, i))


def filling(L):
    f = L.c.extra.get('fill')
    if not f or L.k is None:
        return None
    c = L.c
    h = c.args[0]
    old, cur = c.old.fld(h, AS), L.cur.fld(h, AS)
    out = [f.done(old, cur, L.k), unique(c, cur)]
    for n, w in L.changed(z3.BoolSort()):
        out.append(w == f.all(old, L.k))
    return out


@contract(IH + 'InitialisePlaceholderAttributes', props=['C14'], nparams=2, sig=params_are('AttributeHandler', ''), modifies=['arg:0'], loops=[filling])
def fill(c):
    h = c.args[0]
    old = c.old.fld(h, AS)
    c.requires('no name occurs twice', unique(c, old))
    if c.mode == 'call':
        c.emit(FILL)
        return
    f = Fill(c, c.old.arg(1))
    c.extra['fill'] = f
    n = c.S.slen(old)
    c.ensures('changes exactly the values with the placeholder character, to the value of the attribute they name',
              lambda: f.done(old, c.new.fld(h, AS), n))
    c.ensures('reports whether all were found', lambda: c.result == f.all(old, n))


# the classes that carry attributes
PROC = N + 'Procedure'
ENTITIES |= {PROC}


def carriers():
    for cls in (INS, VAR, PROC):
        field = cls + '::m_attribute_handler'

        def attrs(c, view, field=field):
            return c.S.getf(view[field], AS)

        @contract(cls + '::HasAttribute', props=['C14'], name=cls + '::HasAttribute')
        def w_has(c, attrs=attrs):
            c.ensures('tells whether there is an attribute of that name', lambda: c.result == has(c, attrs(c, c.old), c.old.arg(0)))

        @contract(cls + '::GetAttributeString', props=['C14'])
        def w_get(c, attrs=attrs):
            S, seq, name = c.S, attrs(c, c.old), c.old.arg(0)
            if c.mode == 'call':        # reads nothing but its input: the same input gives the same text
                c.ensures('is determined by its input', lambda: c.result == text_of(c, seq, name))
            c.ensures('the value of the attribute of that name, or nothing', lambda: z3.Implies(unique(c, seq), z3.And(
                z3.Implies(z3.Not(has(c, seq, name)), c.result == c.str('')),
                forall([Int], lambda i: z3.Implies(z3.And(rng(S, seq, i), aname(c, seq, i) == name), c.result == avalue(c, seq, i)),
                       pats=lambda i: S.at(seq, i)))))

        @contract(cls + '::AddAttribute', props=['C14'], modifies=['this.' + field])
        def w_add(c, attrs=attrs):
            for label, fn in adding(c, attrs(c, c.old), lambda: attrs(c, c.new), lambda: c.result, c.old.arg(0), c.old.arg(1)):
                c.ensures(label, fn)

        if cls == INS:
            @contract(cls + '::SetAttribute', props=['C14'], modifies=['this.' + field])
            def w_set(c, attrs=attrs):
                a, name, value = attrs(c, c.old), c.old.arg(0), c.old.arg(1)
                c.requires('no name occurs twice', unique(c, a))
                known = has(c, a, name)
                c.ensures('accepts exactly a known name', lambda: c.result == known)
                c.ensures('a known attribute gets the value in its place', lambda: z3.Implies(known, replaced(c, a, attrs(c, c.new), name, value)))
                c.ensures('an unknown one changes nothing', lambda: z3.Implies(z3.Not(known), attrs(c, c.new) == a))

        def adding_all(L, attrs=attrs, cls=cls):
            c, S = L.c, L.S
            m = c.extra.get('merge')
            if L.k is None or not m:
                return None
            b = attrs(c, L.cur)
            out = m.merged(b, L.k)
            for n, w in L.changed(z3.BoolSort()):
                out.append(w == m.all(L.k))
            return out

        @contract(cls + '::AddAttributes', props=['C14'], modifies=['this.' + field], loops=[adding_all])
        def w_adds(c, attrs=attrs):
            S, a, src = c.S, attrs(c, c.old), c.old.arg(0)
            c.requires('no name occurs twice', unique(c, a))
            m = Merge(c, a, src)
            c.extra['merge'] = m
            n = S.slen(src)
            c.ensures('keeps the attributes that were there and adds, in order, the first of each new name',
                      lambda: z3.And(*m.merged(attrs(c, c.new), n)))
            c.ensures('no name occurs twice', lambda: unique(c, attrs(c, c.new)))
            c.ensures('says whether all were added', lambda: c.result == m.all(n))


class Merge:
    """adding the attributes of one list to another: those whose name is neither known nor earlier in the list"""

    def __init__(self, c, a, src):
        S = c.S
        self.c, self.a, self.src = c, a, src
        index_of(c, a, None)
        index_of(c, src, None)
        self.hit = lambda i: z3.And(index_of(c, src, aname(c, src, i)) == i, index_of(c, a, aname(c, src, i)) >= S.slen(a))
        self.g = c.counter(src, self.hit)

    def merged(self, b, k):
        c, S, a = self.c, self.c.S, self.a
        n = S.slen(a)
        return [S.slen(b) == n + self.g(k),
                forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < n), S.at(b, i) == S.at(a, i)), pats=lambda i: [S.at(b, i), S.at(a, i)]),
                forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < k, self.hit(i)), S.at(b, n + self.g(i)) == S.at(self.src, i)),
                       pats=lambda i: S.at(self.src, i)), unique(c, b),
                forall([Int], lambda i: z3.Implies(z3.And(n <= i, i < S.slen(b)), z3.And(
                    index_of(c, self.src, aname(c, b, i)) < k, index_of(c, a, aname(c, b, i)) >= n)), pats=lambda i: S.at(b, i))]

    def all(self, k):
        return forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < k), self.hit(i)), pats=lambda i: self.c.S.at(self.src, i))


def index_of(c, seq, name):
    """the first index of an attribute of this name, or the length"""
    S = c.S
    arr, n = S.sarr(seq), S.slen(seq)
    f = z3.Function('attr_index', arr.sort(), Int, S.Str, Int)
    key = ('attr_index', arr.get_id(), n.get_id())
    if key not in c.I.memo:
        c.I.memo[key] = (arr, n)
        x, i = z3.Const('ax', S.Str), z3.Int('ai')
        r = f(arr, n, x)
        c.assume(z3.ForAll([x], z3.And(0 <= r, r <= n, z3.Implies(r < n, aname(c, seq, r) == x)), patterns=[r]))
        c.assume(z3.ForAll([i], z3.Implies(rng(S, seq, i), f(arr, n, aname(c, seq, i)) <= i), patterns=[f(arr, n, aname(c, seq, i))]))
    return None if name is None else f(arr, n, name)


carriers()


# ------------------------------------------------------------------ placeholders of whole instructions
ENTITIES.add(INS)
FILLI, FILLALL, POST = 122, 123, 124


def outcome(c, what, obj):
    """what the call made at this point of the history answered"""
    return z3.Function(what, Int, Int, z3.BoolSort())(c.S.slen(c.old.trace), obj)


def children(c, obj):
    return z3.Function('children_of', Int, c.S.seq(Int))(obj)


@contract(INS + '::ChildInstructions', abstract=True, nparams=0)
def child_list(c):
    s = children(c, c.this)
    c.assume(c.S.slen(s) >= 0)
    c.assume(forall([Int], lambda i: z3.Implies(rng(c.S, s, i), c.S.at(s, i) > 0), pats=lambda i: c.S.at(s, i)))
    c.returns(s)


@contract(INS + '::PostInitialiseVariables', abstract=True, nparams=1)
def post_init(c):
    c.emit(POST, obj=c.this)
    c.returns(outcome(c, 'post_ok', c.this))


def own_trace(c):
    return c.S.slen(c.new.trace) == c.S.slen(c.old.trace)


@contract(INS + '::InitialisePlaceholderAttributes', props=['C14'], modifies=['this.' + INS + '::m_attribute_handler'], nparams=1)
def inst_fill(c):
    S = c.S
    field = INS + '::m_attribute_handler'
    if c.mode == 'call':
        c.emit(FILLI, obj=c.this)
        c.returns(outcome(c, 'fill_ok', c.this))
        return
    c.modifies('trace')
    old = S.getf(c.old[field], AS)
    c.requires('no name occurs twice', unique(c, old))

    def both():
        ev = c.log
        tags = [e['tag'] for e in ev]
        if tags == [FILL]:
            return z3.And(z3.Not(c.result), z3.Not(ev[0]['ret']))
        return z3.And(tags == [FILL, POST], ev[0]['ret'], c.result == ev[-1]['ret'], ev[-1]['obj'] == c.this)
    c.ensures('replaces its placeholders, then lets the instruction follow up', both)


def filling_all(L):
    c, S = L.c, L.S
    kids = c.extra.get('kids')
    if kids is None or L.k is None:
        return None
    t0, t = c.old.trace, L.cur.trace
    out = [S.slen(t) == S.slen(t0) + 1 + L.k, kids_done(c, t0, t, kids, L.k)]
    for n, w in L.changed(z3.BoolSort()):
        out.append(w == kids_ok(c, t0, kids, L.k))
    return out


def kids_done(c, t0, t, kids, k):
    S = c.S
    n = S.slen(t0)
    ev = S.at(t, n)
    return z3.And(S.Event.tag(ev) == FILLI, S.Event.obj(ev) == c.old.arg(0), forall([Int], lambda p: z3.Implies(
        z3.And(n < p, p <= n + k), z3.And(S.Event.tag(S.at(t, p)) == FILLALL, S.Event.obj(S.at(t, p)) == S.at(kids, p - n - 1))),
        pats=lambda p: S.at(t, p)))


def kids_ok(c, t0, kids, k):
    S = c.S
    n = S.slen(t0)
    f = z3.Function('fill_all_ok', Int, Int, z3.BoolSort())
    return z3.And(z3.Function('fill_ok', Int, Int, z3.BoolSort())(n, c.old.arg(0)), forall([Int], lambda i: z3.Implies(
        z3.And(0 <= i, i < k), f(n + 1 + i, S.at(kids, i))), pats=lambda i: S.at(kids, i)))


@contract(IH + 'InitialisePlaceholderAttributes', props=['C14'], nparams=2, sig=params_are('Instruction', ''),
          modifies=['heap:' + INS + '::m_attribute_handler'],
          loops=[filling_all], modular=True)
def fill_all(c):
    S = c.S
    if c.mode == 'call':
        c.emit(FILLALL, obj=c.old.arg(0))
        c.returns(outcome(c, 'fill_all_ok', c.old.arg(0)))
        return
    c.modifies('trace')
    kids = children(c, c.old.arg(0))
    c.extra['kids'] = kids
    n = S.slen(kids)
    c.ensures('replaces the placeholders of the instruction, then those below each child', lambda: z3.And(
        S.slen(c.new.trace) == S.slen(c.old.trace) + 1 + n, kids_done(c, c.old.trace, c.new.trace, kids, n)))
    c.ensures('reports whether all were found, everywhere', lambda: c.result == kids_ok(c, c.old.trace, kids, n))


# ------------------------------------------------------------------ C15: constraints and validation
IC, CT = N + 'IConstraint', N + 'Constraint'
IMPL = CT + '::m_impl'
KIND = {k: N + k for k in ('Exists', 'FixedType', 'Xor', 'Or', 'And', 'Not')}
AP = N + 'AttributeProperties'
ENTITIES |= {IC} | set(KIND.values())


def meaning(c, impl):
    """what a constraint object means: which attribute lists it accepts"""
    return z3.Function('meaning', Int, c.S.opq('Judgement'))(impl)


def judge(c, impl, attrs):
    m = meaning(c, impl)
    return z3.Function('judge', m.sort(), attrs.sort(), z3.BoolSort())(m, attrs)


def impl(c, obj):
    return c.S.getf(obj, IMPL)


def accepts(c, m_impl, attrs):
    """an empty constraint accepts nothing"""
    return z3.And(m_impl != 0, judge(c, m_impl, attrs))


def alike(c, a, b):
    return z3.And((a == 0) == (b == 0), z3.Implies(a != 0, meaning(c, a) == meaning(c, b)))


@contract(IC + '::Validate', abstract=True, nparams=1)
def ic_validate(c):
    c.returns(judge(c, c.this, c.old.arg(0)))


@contract(IC + '::Clone', abstract=True, nparams=0)
def ic_clone(c):
    c.modifies('alloc')
    c.ensures('a new constraint of the same meaning', lambda: z3.And(c.result > 0, meaning(c, c.result) == meaning(c, c.this)))


@contract(IC + '::GetRepresentation', abstract=True, nparams=0)
def ic_repr(c):
    r = z3.Function('representation', Int, c.S.Str)(c.this)
    c.assume(r != c.str(''))
    c.returns(r)


@contract(CT + '::Validate', props=['C15'])
def c_validate(c):
    c.ensures('judges as what it holds; empty accepts nothing', lambda: c.result == accepts(c, c.old[IMPL], c.old.arg(0)))


@contract(CT + '::GetRepresentation', props=['C15'])
def c_repr(c):
    c.ensures('never empty', lambda: c.result != c.str(''))


@contract(CT + '::Constraint', props=['C15'], sig=params_are('const sup::oac_tree::Constraint &'), modifies=['this', 'alloc'])
def c_copy(c):
    c.ensures('a copy judges like its original', lambda: alike(c, c.new[IMPL], impl(c, c.old.arg(0))))


@contract(CT + '::Constraint', props=['C15'], sig=params_are('sup::oac_tree::Constraint &&'), modifies=['this', 'arg:0'])
def c_move(c):
    c.ensures('judges like the original did', lambda: c.new[IMPL] == impl(c, c.old.arg(0)))


@contract(CT + '::Constraint', props=['C15'], sig=params_are('unique_ptr'), modifies=['this', 'arg:0'])
def c_ctor(c):
    c.ensures('holds what it is given', lambda: c.new[IMPL] == c.old.arg(0))


@contract(CT + '::operator=', props=['C15'], sig=params_are('const sup::oac_tree::Constraint &'), modifies=['this', 'alloc'])
def c_assign(c):
    c.ensures('a copy judges like its original', lambda: alike(c, c.new[IMPL], impl(c, c.old.arg(0))))


@contract(CT + '::operator=', props=['C15'], sig=params_are('sup::oac_tree::Constraint &&'), modifies=['this', 'arg:0'])
def c_massign(c):
    c.ensures('judges like the original did', lambda: c.new[IMPL] == impl(c, c.old.arg(0)))


def field_of(c, cls, name, view):
    return view[N + cls + '::' + name]


@contract(KIND['Exists'] + '::Validate', props=['C15'])
def x_validate(c):
    c.ensures('holds exactly when there is an attribute of that name', lambda: c.result == has(c, c.old.arg(0), c.old[KIND['Exists'] + '::m_attr_name']))


def combined():
    table = {'And': lambda a, b: z3.And(a, b), 'Or': lambda a, b: z3.Or(a, b), 'Xor': lambda a, b: a != b}
    words = {'And': 'both hold', 'Or': 'at least one holds', 'Xor': 'exactly one holds'}
    for k, op in table.items():
        L, R = KIND[k] + '::m_left', KIND[k] + '::m_right'

        @contract(KIND[k] + '::Validate', props=['C15'])
        def b_validate(c, op=op, L=L, R=R, k=k):
            x = c.old.arg(0)
            c.ensures('holds exactly when ' + words[k], lambda: c.result == op(accepts(c, impl(c, c.old[L]), x), accepts(c, impl(c, c.old[R]), x)))

        @contract(KIND[k] + '::Clone', props=['C15'], modifies=['alloc'])
        def b_clone(c, L=L, R=R):
            c.ensures('a new constraint of the same two', lambda: z3.And(c.result > 0, *[
                alike(c, impl(c, c.new.fld(c.result, f)), impl(c, c.old[f])) for f in (L, R)]))

        @contract(KIND[k] + '::' + k, props=['C15'], modifies=['this', 'arg:0', 'arg:1'])
        def b_ctor(c, L=L, R=R):
            c.ensures('of the two given', lambda: z3.And(*[impl(c, c.new[f]) == impl(c, c.old.arg(i)) for i, f in enumerate((L, R))]))
    CH = KIND['Not'] + '::m_child'

    @contract(KIND['Not'] + '::Validate', props=['C15'])
    def n_validate(c):
        c.ensures('holds exactly when the other does not', lambda: c.result == z3.Not(accepts(c, impl(c, c.old[CH]), c.old.arg(0))))

    @contract(KIND['Not'] + '::Clone', props=['C15'], modifies=['alloc'])
    def n_clone(c):
        c.ensures('a new constraint of the same one', lambda: z3.And(c.result > 0, alike(c, impl(c, c.new.fld(c.result, CH)), impl(c, c.old[CH]))))

    @contract(KIND['Not'] + '::Not', props=['C15'], modifies=['this', 'arg:0'])
    def n_ctor(c):
        c.ensures('of the one given', lambda: impl(c, c.new[CH]) == impl(c, c.old.arg(0)))
    for k in KIND:
        @contract(KIND[k] + '::GetRepresentation', props=['C15'], strings='theory')
        def k_repr(c):
            c.ensures('never empty', lambda: c.result != c.str(''))
    for k, fs in (('Exists', ['m_attr_name']), ('FixedType', ['m_attr_name', 'm_attr_type'])):
        @contract(KIND[k] + '::Clone', props=['C15'], modifies=['alloc'])
        def l_clone(c, k=k, fs=fs):
            c.ensures('a new constraint on the same attribute', lambda: z3.And(c.result > 0, *[
                c.new.fld(c.result, KIND[k] + '::' + f) == c.old[KIND[k] + '::' + f] for f in fs]))

        @contract(KIND[k] + '::' + k, props=['C15'], modifies=['this'])
        def l_ctor(c, k=k, fs=fs):
            c.ensures('on what is given', lambda: z3.And(*[c.new[KIND[k] + '::' + f] == c.old.arg(i) for i, f in enumerate(fs)]))


combined()


# ------------------------------------------------------------------ C15: definitions and the validator
UTIL = N + 'utils::'


def props_of(c, view, d):
    return c.S.getf(d, DP)


def mandatory(c, d, view):
    return z3.Select(view.heap(c.V.fkey(AP, 'm_mandatory')), c.S.getf(d, DP))


def parses(c, t, s):
    return z3.Function('literal_parses', t.sort(), s.sort(), z3.BoolSort())(t, s)


def parsed_value(c, t, s):
    return z3.Function('literal_value', t.sort(), s.sort(), c.S.opq('sup::dto::AnyValue'))(t, s)


TRUE_WORDS = ('true', 'yes', 'on')
JSON = 'sup::dto::JSONAnyValueParser'


def true_word(c, s):
    return z3.Function('is_true_word', s.sort(), z3.BoolSort())(s)


@contract('(anonymous namespace)::IsTrueStringRepresentation', abstract=True, nparams=1)
def is_true(c):
    """case folding by the C library is not specified; the driver covers it"""
    c.returns(true_word(c, c.old.arg(0)))


def json_ok(c, t, s):
    return z3.Function('json_parses', t.sort(), s.sort(), z3.BoolSort())(t, s)


@contract(JSON + '::TypedParseString', abstract=True, nparams=2, modifies=['this'])
def json_parse(c):
    t, s = c.old.arg(0), c.old.arg(1)
    c.returns(json_ok(c, t, s))
    c.ensures('remembers', lambda: self_new(c) == z3.Function('json_state', t.sort(), s.sort(), self_new(c).sort())(t, s))


def self_new(c):
    return c.new.val(c.this.lv)


@contract(JSON + '::MoveAnyValue', abstract=True, nparams=0, modifies=['this'])
def json_move(c):
    p = self_value(c)
    c.returns(z3.Function('json_result', p.sort(), c.S.opq('sup::dto::AnyValue'))(p))


NUMERIC = ('Char8', 'Int8', 'UInt8', 'Int16', 'UInt16', 'Int32', 'UInt32', 'Int64', 'UInt64', 'Float32', 'Float64')


@contract(UTIL + 'ParseAttributeString', props=['C15'])
def parse_attr(c):
    t, s = c.old.arg(0), c.old.arg(1)
    if c.mode == 'call':
        P = c.S.pair(z3.BoolSort(), c.S.opq('sup::dto::AnyValue'))
        c.returns(P.constructor(0)(parses(c, t, s), parsed_value(c, t, s)))
        return
    code = dep(c, 'AnyType::GetTypeCode', Int, t)
    is_ = lambda *n: z3.Or(*[code == c.enum('sup::dto::TypeCode::' + x) for x in n])
    c.ensures('texts and truth values always parse, numbers when the text is one, other types never', lambda: c.S.get(c.result, 0) == z3.Or(
        is_('Bool', 'String'), z3.And(is_(*NUMERIC), json_ok(c, t, s))))


@contract(KIND['FixedType'] + '::Validate', props=['C15'])
def f_validate(c):
    S, seq = c.S, c.old.arg(0)
    name, t = c.old[KIND['FixedType'] + '::m_attr_name'], c.old[KIND['FixedType'] + '::m_attr_type']
    i = index_of(c, seq, name)
    c.ensures('holds exactly when the first attribute of that name parses as the type',
              lambda: c.result == z3.And(i < S.slen(seq), parses(c, t, avalue(c, seq, i))))


@contract(AV + '::AddConstraint', props=['C15'], modifies=['this.' + CONS, 'arg:0'])
def v_addc(c):
    S, a, b = c.S, c.old[CONS], lambda: c.new[CONS]
    n = S.slen(a)
    c.ensures('a new constraint comes last', lambda: z3.And(
        S.slen(b()) == n + 1, impl(c, S.at(b(), n)) == impl(c, c.old.arg(0)),
        forall([Int], lambda i: z3.Implies(rng(S, a, i), S.at(b(), i) == S.at(a, i)), pats=lambda i: S.at(b(), i))))


def def_index(c, defs, name):
    """the first definition of this name, or the number of definitions"""
    S = c.S
    arr, n = S.sarr(defs), S.slen(defs)
    f = z3.Function('def_index', arr.sort(), Int, S.Str, Int)
    key = ('def_index', arr.get_id(), n.get_id())
    if key not in c.I.memo:
        c.I.memo[key] = (arr, n)
        x, i = z3.Const('dx', S.Str), z3.Int('di')
        r = f(arr, n, x)
        nm = lambda k: S.getf(S.at(defs, k), DN)
        c.assume(z3.ForAll([x], z3.And(0 <= r, r <= n, z3.Implies(r < n, nm(r) == x)), patterns=[r]))
        c.assume(z3.ForAll([i], z3.Implies(rng(S, defs, i), f(arr, n, nm(i)) <= i), patterns=[S.at(defs, i)]))
    return f(arr, n, name)


def prop(c, d, name):
    return z3.Select(c.old.heap(c.V.fkey(AP, name)), c.S.getf(d, DP))


def bad_literal(c, defs, name, value):
    """the attribute has a definition, is a literal there, and does not parse as its type"""
    d = def_index(c, defs, name)
    x = c.S.at(defs, d)
    cat = prop(c, x, 'm_category')
    E = N + 'AttributeCategory'
    at = z3.Function('starts_with', value.sort(), Int, z3.BoolSort())(value, z3.IntVal(ord('@')))
    var = z3.Or(cat == c.enum(E + '::kVariableName'), z3.And(cat == c.enum(E + '::kBoth'), at))
    return z3.And(d < c.S.slen(defs), z3.Not(var), z3.Not(parses(c, prop(c, x, 'm_value_type'), value)))


def failures(L):
    c, S = L.c, L.S
    v = c.extra.get('valid')
    if v is None or L.k is None:
        return None
    D, A, K, g1, g2, g3 = v
    out = []
    for n, w in L.changed(S.seq(S.Str)):
        if L.seq.sort() == D.sort():
            out.append(S.slen(w) == g1(L.k))
        elif L.seq.sort() == A.sort():
            out.append(S.slen(w) == g1(S.slen(D)) + g2(L.k))
        elif L.seq.sort() == K.sort():
            out.append(S.slen(w) == g1(S.slen(D)) + g2(S.slen(A)) + g3(L.k))
    return out


def failed_count(c, D, K, A):
    n = z3.Function('failed_count', D.sort(), K.sort(), A.sort(), Int)(D, K, A)
    c.assume(n >= 0)
    return n


@contract(AV + '::ValidateAttributes', props=['C15'], loops=[failures], modifies=['alloc'], name=AV + '::ValidateAttributes')
def validate(c):
    S, D, K, A = c.S, c.old[DEFS], c.old[CONS], c.old.arg(0)
    if c.mode == 'call':
        c.ensures('so many failures', lambda: S.slen(c.result) == failed_count(c, D, K, A))
        return
    for k, f in (('Exists', 'm_attr_name'), ('FixedType', 'm_attr_name'), ('FixedType', 'm_attr_type')):
        c.modifies('heap:' + KIND[k] + '::' + f)     # of temporary objects only: these members are const
    g1 = c.counter(D, lambda i: z3.And(prop(c, S.at(D, i), 'm_is_mandatory'), index_of(c, A, S.getf(S.at(D, i), DN)) >= S.slen(A)))
    g2 = c.counter(A, lambda i: bad_literal(c, D, aname(c, A, i), avalue(c, A, i)))
    g3 = c.counter(K, lambda i: z3.Not(accepts(c, impl(c, S.at(K, i)), A)))
    c.requires('definitions carry their properties', forall([Int], lambda i: z3.Implies(rng(S, D, i), S.getf(S.at(D, i), DP) > 0), pats=lambda i: S.at(D, i)))
    c.extra['valid'] = (D, A, K, g1, g2, g3)
    c.ensures('one failure per missing mandatory attribute, per literal that does not parse and per constraint that does not hold',
              lambda: S.slen(c.result) == g1(S.slen(D)) + g2(S.slen(A)) + g3(S.slen(K)))


@contract(AV + '::TryCreateAnyValue', props=['C15'], modifies=['alloc'])
def try_create(c):
    S, D, A = c.S, c.old[DEFS], c.old.arg(0)
    c.requires('definitions carry their properties', forall([Int], lambda i: z3.Implies(rng(S, D, i), S.getf(S.at(D, i), DP) > 0), pats=lambda i: S.at(D, i)))
    name, value = S.get(A, 0), S.get(A, 1)
    d = def_index(c, D, name)
    t = prop(c, S.at(D, d), 'm_value_type')
    ok = z3.Or(d == S.slen(D), parses(c, t, value))
    c.ensures('no failure exactly when there is no definition or the text parses', lambda: (S.get(c.result, 1) == c.str('')) == ok)
    c.ensures('the parsed value', lambda: z3.Implies(z3.And(d < S.slen(D), parses(c, t, value)), S.get(c.result, 0) == parsed_value(c, t, value)))


AHI = AH + '::AttributeHandlerImpl'
HIMPL = AH + '::m_impl'


def validator(c, view, obj=None):
    h = view[HIMPL] if obj is None else c.S.getf(obj, HIMPL)
    return view.fld(h, AHI + '::attr_validator')


def handler_failures(c, obj=None):
    v = validator(c, c.old, obj)
    A = c.old[AS] if obj is None else c.S.getf(obj, AS)
    return failed_count(c, c.S.getf(v, DEFS), c.S.getf(v, CONS), A)


@contract(AH + '::ValidateAttributes', props=['C15'], modifies=['alloc', 'heap:' + AHI + '::failed_constraints'])
def h_validate(c):
    S = c.S
    n = handler_failures(c)
    c.requires('has its validator', c.old[HIMPL] > 0)
    c.ensures('succeeds exactly without failures', lambda: c.result == (n == 0))
    c.ensures('keeps the failures', lambda: S.slen(c.new.fld(c.old[HIMPL], AHI + '::failed_constraints')) == n)


@contract(AH + '::AddConstraint', props=['C15'], modifies=['heap:' + AHI + '::attr_validator', 'arg:0'])
def h_addc(c):
    S = c.S
    c.requires('has its validator', c.old[HIMPL] > 0)
    a, n = S.getf(validator(c, c.old), CONS), S.slen(S.getf(validator(c, c.old), CONS))
    b = lambda: S.getf(validator(c, c.new), CONS)
    c.ensures('a new constraint comes last', lambda: z3.And(
        S.slen(b()) == n + 1, impl(c, S.at(b(), n)) == impl(c, c.old.arg(0)),
        forall([Int], lambda i: z3.Implies(rng(S, a, i), S.at(b(), i) == S.at(a, i)), pats=lambda i: S.at(b(), i))))


@contract(AH + '::GetFailedConstraints', props=['C15'], pure=True)
def h_failed(c):
    c.requires('has its validator', c.old[HIMPL] > 0)
    c.returns(c.old.fld(c.old[HIMPL], AHI + '::failed_constraints'))
    c.ensures('the failures kept', lambda: c.S.seq_eq(c.result, c.old.fld(c.old[HIMPL], AHI + '::failed_constraints')))


SETUPI = 125


def setup_of(cls, exc, extra):
    F = cls + '::m_attribute_handler'

    @contract(cls + '::SetupImpl', abstract=True, nparams=1, virtual=True)
    def setup_impl(c):
        c.emit(SETUPI, obj=c.this)
        c.may_throw('unknown exception')

    @contract(cls + '::Setup', props=['C15'], modifies=['alloc', 'trace', 'heap:' + AHI + '::failed_constraints'])
    def setup(c):
        n = handler_failures(c, c.old[F])
        c.requires('has its validator', c.S.getf(c.old[F], HIMPL) > 0)
        c.throws(exc, n != 0, 'refuses exactly attributes that do not validate')
        c.may_throw('unknown exception')
        c.ensures('exactly an object whose attributes validate goes on to its own setup', lambda: z3.BoolVal(
            [e['tag'] for e in c.log] == [SETUPI]) == (n == 0), on='both')


setup_of(INS, N + 'InstructionSetupException', [])


@contract(N + 'FormatFailedConstraints', abstract=True, nparams=2)
def format_failed(c):
    """the text of a message; not specified"""
    a = c.old.arg(0)
    c.returns(z3.Function('message_of', a.sort(), c.S.Str)(a))


@contract(INS + '::AddConstraint', props=['C15'], nparams=1, modifies=['heap:' + AHI + '::attr_validator', 'alloc'])
def i_addc(c, F=INS + '::m_attribute_handler'):
    add_constraint(c, F)


@contract(VAR + '::AddConstraint', props=['C15'], nparams=1, modifies=['heap:' + AHI + '::attr_validator', 'alloc'])
def va_addc(c, F=VAR + '::m_attribute_handler'):
    add_constraint(c, F)


def add_constraint(c, F):
    S, h = c.S, c.old[F]
    c.requires('has its validator', S.getf(h, HIMPL) > 0)
    a = S.getf(validator(c, c.old, h), CONS)
    n = S.slen(a)
    b = lambda: S.getf(validator(c, c.new, h), CONS)
    c.ensures('a constraint that judges like the one given comes last', lambda: z3.And(
        S.slen(b()) == n + 1, alike(c, impl(c, S.at(b(), n)), impl(c, c.old.arg(0))),
        forall([Int], lambda i: z3.Implies(rng(S, a, i), S.at(b(), i) == S.at(a, i)), pats=lambda i: S.at(b(), i))))


@contract(AH + '::GetAttributeDefinitions', props=['C14'], pure=True)
def h_defs(c):
    c.requires('has its validator', c.old[HIMPL] > 0)
    d = c.S.getf(validator(c, c.old), DEFS)
    c.returns(d)
    c.ensures('all definitions, in the order added', lambda: c.S.seq_eq(c.result, d))


@contract(AH + '::AddAttributeDefinition', props=['C14'], nparams=2, modifies=['alloc', 'heap:*' + AP, 'heap:' + AHI + '::attr_validator'])
def h_define(c):
    S = c.S
    c.V.heap_types['*' + AP] = AP
    c.requires('has its validator', c.old[HIMPL] > 0)
    a, name = S.getf(validator(c, c.old), DEFS), c.old.arg(0)
    i = z3.Int('dh')
    c.throws(N + 'InvalidOperationException', z3.Exists([i], z3.And(rng(S, a, i), S.getf(S.at(a, i), DN) == name)),
             'refuses exactly a name that is defined already')

    def added():
        b, n = S.getf(validator(c, c.new), DEFS), S.slen(a)
        return z3.And(S.slen(b) == n + 1, S.getf(S.at(b, n), DN) == name,
                      forall([Int], lambda i: z3.Implies(rng(S, a, i), S.at(b, i) == S.at(a, i)), pats=lambda i: S.at(b, i)))
    c.ensures('a new definition comes last', added, on='normal')
    c.ensures('a refused definition changes nothing', lambda: S.getf(validator(c, c.new), DEFS) == a, on='throw')


def definitions():
    def of(c, view, d, name):
        return z3.Select(view.heap(c.V.fkey(AP, name)), d)

    def here(c, view, name):
        return of(c, view, view[DP], name)

    for fn, field in (('GetType', 'm_value_type'), ('IsMandatory', 'm_is_mandatory'), ('GetCategory', 'm_category')):
        @contract(AD + '::' + fn, props=['C15'])
        def d_get(c, field=field):
            c.requires('has its properties', c.old[DP] > 0)
            c.ensures('what was set', lambda: c.result == here(c, c.old, field))
    for fn, field in (('SetMandatory', 'm_is_mandatory'), ('SetCategory', 'm_category')):
        @contract(AD + '::' + fn, props=['C15'], modifies=['heap:' + AP + '::' + field])
        def d_set(c, field=field):
            c.requires('has its properties', c.old[DP] > 0)
            c.ensures('keeps what is given', lambda: here(c, c.new, field) == c.old.arg(0))

    ALL = ('m_value_type', 'm_is_mandatory', 'm_category')

    @contract(AD + '::AttributeDefinition', props=['C15'], nparams=2, modifies=['this', 'alloc'])
    def d_ctor(c):
        c.ensures('an optional literal of the given name and type', lambda: z3.And(
            c.new[DP] > 0, c.new[DN] == c.old.arg(0), here(c, c.new, 'm_value_type') == c.old.arg(1),
            z3.Not(here(c, c.new, 'm_is_mandatory')), here(c, c.new, 'm_category') == c.enum(N + 'AttributeCategory::kLiteral')))

    @contract(AD + '::AttributeDefinition', props=['C15'], sig=params_are('const sup::oac_tree::AttributeDefinition &'), modifies=['this', 'alloc'])
    def d_copy(c):
        o = c.old.arg(0)
        p = c.S.getf(o, DP)
        c.requires('the original has its properties', p > 0)
        if c.mode == 'check':
            c.assume(z3.Select(c.V.ghost_initial(c.I, 'alloc'), p))
        c.ensures('a definition of its own that says the same', lambda: z3.And(
            c.new[DP] > 0, c.new[DP] != c.S.getf(o, DP), c.new[DN] == c.S.getf(o, DN),
            *[here(c, c.new, f) == of(c, c.old, c.S.getf(o, DP), f) for f in ALL]))

    @contract(AD + '::operator=', props=['C15'], sig=params_are('const sup::oac_tree::AttributeDefinition &'),
              modifies=['this.' + DN] + ['heap:' + AP + '::' + f for f in ALL])
    def d_assign(c):
        o = c.old.arg(0)
        c.requires('both have their properties', z3.And(c.S.getf(o, DP) > 0, c.old[DP] > 0))
        c.ensures('says the same as the original', lambda: z3.And(
            c.new[DP] == c.old[DP], c.new[DN] == c.S.getf(o, DN),
            *[here(c, c.new, f) == of(c, c.old, c.S.getf(o, DP), f) for f in ALL]))


definitions()
