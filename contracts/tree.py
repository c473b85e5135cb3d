"""Contracts of loading and saving a procedure (C30).

A TreeData is an opaque value of the dependency known by its name, content, attributes in order and children in order (assumed contracts on
its methods).  `parsed(td, x)` is the ghost relation "x was made from td"; one level of it is the postcondition of the parsing function, the
callers use it for the children (trees are finite).  `saved(v, x)` is the same in the other direction.
"""
import z3

from contracts.core import N, params_are
from contracts.dto import self_value
from engine.interp import Unsupported
from engine.verify import ENTITIES, contract, forall

Int, Bool = z3.IntSort(), z3.BoolSort()
X = 'sup::xml::'
TD = X + 'TreeData'
INS, VAR, PR, WS, REG, VREG = [N + x for x in ('Instruction', 'Variable', 'Procedure', 'Workspace', 'InstructionRegistry', 'VariableRegistry')]
PRE = N + 'ProcedurePreamble'
TRI = N + 'TypeRegistrationInfo'
ENTITIES |= {INS, VAR, PR, WS, REG, VREG}
PARSE = N + 'ParseException'
ANY = 'unknown exception'
BAD = N + 'InvalidOperationException'
LOAD, PUSH, ADDVAR, APPEND, WSVARS, PREAMBLE, CHILDREN, NEWPROC, PATTRS = range(200, 209)
AS = N + 'AttributeHandler::m_str_attributes'
HANDLER = '::m_attribute_handler'


# ---------------------------------------------------------------- the dependency (assumed)
def td_sort(c):
    return c.S.opq(TD)


def attr_seq(c):
    return c.S.seq(c.S.pair(c.S.Str, c.S.Str))


def node(c, v):
    return c.V.fn('tree.node', [td_sort(c)], c.S.Str)(v)


def content(c, v):
    return c.V.fn('tree.content', [td_sort(c)], c.S.Str)(v)


def attributes(c, v):
    return c.V.fn('tree.attributes', [td_sort(c)], attr_seq(c))(v)


def children(c, v):
    return c.V.fn('tree.children', [td_sort(c)], c.S.seq(td_sort(c)))(v)


def has_attr(c, v, n):
    return c.V.fn('tree.has', [td_sort(c), c.S.Str], Bool)(v, n)


def attr(c, v, n):
    return c.V.fn('tree.attribute', [td_sort(c), c.S.Str], c.S.Str)(v, n)


def sane(c, v):
    """assumed: lists have a length; a tree names an attribute once"""
    S, a, k = c.S, attributes(c, v), children(c, v)
    nm = lambda i: S.get(S.at(a, i), 0)
    return z3.And(S.slen(a) >= 0, S.slen(k) >= 0, forall([Int, Int], lambda i, j: z3.Implies(
        z3.And(0 <= i, i < j, j < S.slen(a)), nm(i) != nm(j)), pats=lambda i, j: z3.MultiPattern(S.at(a, i), S.at(a, j))))


@contract(TD + '::GetNodeName', abstract=True)
def td_node(c):
    c.returns(node(c, self_value(c)))


@contract(TD + '::GetContent', abstract=True)
def td_content(c):
    c.returns(content(c, self_value(c)))


@contract(TD + '::Attributes', abstract=True)
def td_attrs(c):
    c.assume(sane(c, self_value(c)))
    c.returns(attributes(c, self_value(c)))


@contract(TD + '::Children', abstract=True)
def td_kids(c):
    c.assume(sane(c, self_value(c)))
    c.returns(children(c, self_value(c)))


@contract(TD + '::GetNumberOfChildren', abstract=True)
def td_nkids(c):
    c.assume(sane(c, self_value(c)))
    c.returns(c.S.slen(children(c, self_value(c))))


@contract(TD + '::GetNumberOfAttributes', abstract=True)
def td_nattrs(c):
    c.assume(sane(c, self_value(c)))
    c.returns(c.S.slen(attributes(c, self_value(c))))


@contract(TD + '::HasAttribute', abstract=True)
def td_has(c):
    c.returns(has_attr(c, self_value(c), c.old.arg(0)))


@contract(TD + '::GetAttribute', abstract=True)
def td_attr(c):
    v = self_value(c)
    c.throws(BAD, z3.Not(has_attr(c, v, c.old.arg(0))))
    c.returns(attr(c, v, c.old.arg(0)))


@contract(TD + '::TreeData', abstract=True, nparams=1, sig=params_are('string'))
def td_new(c):
    v = c.V.fn('tree.new', [c.S.Str], td_sort(c))(c.old.arg(0))
    c.assume(z3.And(node(c, v) == c.old.arg(0), content(c, v) == c.str(''), c.S.slen(attributes(c, v)) == 0, c.S.slen(children(c, v)) == 0))
    c.returns(v)


def extended(c, b, a, x):
    """b is a with x behind it"""
    S = c.S
    return z3.And(S.slen(b) == S.slen(a) + 1, S.at(b, S.slen(a)) == x, forall([Int], lambda i: z3.Implies(
        z3.And(0 <= i, i < S.slen(a)), S.at(b, i) == S.at(a, i)), pats=lambda i: S.at(b, i)))


def same(c, v, w, *but):
    fs = dict(node=node, content=content, attributes=attributes, children=children)
    return z3.And(*[f(c, v) == f(c, w) for k, f in fs.items() if k not in but])


@contract(TD + '::SetContent', abstract=True)
def td_set(c):
    c.modifies('this')
    v = self_value(c)
    w = lambda: c.new.val(c.this.lv)
    c.ensures('only the content changes', lambda: z3.And(same(c, w(), v, 'content'), content(c, w()) == c.old.arg(0)))


@contract(TD + '::AddAttribute', abstract=True)
def td_add(c):
    c.modifies('this')
    v, a = self_value(c), attributes(c, self_value(c))
    w = lambda: c.new.val(c.this.lv)
    c.assume(c.S.slen(a) >= 0)
    c.may_throw(ANY)
    c.ensures('the attribute comes last', lambda: z3.And(same(c, w(), v, 'attributes'), extended(
        c, attributes(c, w()), a, c.S.pair(c.S.Str, c.S.Str).constructor(0)(c.old.arg(0), c.old.arg(1)))))


@contract(TD + '::AddChild', abstract=True)
def td_addchild(c):
    c.modifies('this')
    v, a = self_value(c), children(c, self_value(c))
    w = lambda: c.new.val(c.this.lv)
    c.assume(c.S.slen(a) >= 0)
    c.ensures('the child comes last', lambda: z3.And(same(c, w(), v, 'children'), extended(c, children(c, w()), a, c.old.arg(0))))


# ---------------------------------------------------------------- objects of the library
def known(c, what, name):
    return c.V.fn('registered ' + what, [c.S.Str], Bool)(name)


def type_of(c, x):
    return c.V.fn('type of', [Int], c.S.Str)(x)


for _what, _cls, _reg, _glob, _is in (('instruction', INS, REG, 'GlobalInstructionRegistry', 'IsRegisteredInstructionName'),
                                      ('variable', VAR, VREG, 'GlobalVariableRegistry', 'IsRegisteredVariableName')):
    @contract(N + _glob, abstract=True, first=True)
    def glob(c, _glob=_glob):
        r = z3.Const(_glob, Int)
        c.assume(r > 0)
        c.returns(r)

    @contract(_reg + '::' + _is, abstract=True, first=True)
    def is_known(c, what=_what):
        c.returns(known(c, what, c.old.arg(0)))

    @contract(_reg + '::Create', abstract=True, first=True)
    def create(c, what=_what, cls=_cls):
        c.modifies('alloc')
        c.throws(BAD, z3.Not(known(c, what, c.old.arg(0))))
        c.ensures('a new object of that type, without attributes, or none', lambda: z3.Or(c.result == 0, z3.And(
            c.result > 0, z3.Not(z3.Select(c.old.ghost('alloc'), c.result)), type_of(c, c.result) == c.old.arg(0),
            c.S.slen(attrs_of(c, c.new, cls, c.result)) == 0)))

    @contract(_cls + '::GetType', abstract=True, first=True)
    def get_type(c):
        c.returns(type_of(c, c.this))

    @contract(_cls + '::GetName', abstract=True, first=True)
    def get_name(c):
        c.returns(c.V.fn('name of', [Int], c.S.Str)(c.this))

    @contract(_cls + '::AddAttribute', abstract=True, first=True, modifies=['this.' + _cls + HANDLER])
    def add_attr(c, cls=_cls):
        """consequence of C14"""
        S, a, n = c.S, attrs_of(c, c.old, cls), c.old.arg(0)
        there = z3.Exists([z3.Int('ai')], z3.And(0 <= z3.Int('ai'), z3.Int('ai') < S.slen(a), S.get(S.at(a, z3.Int('ai')), 0) == n))
        c.assume(S.slen(a) >= 0)
        c.ensures('adds a new name', lambda: z3.And(c.result == z3.Not(there), z3.Implies(there, attrs_of(c, c.new, cls) == a),
                  z3.Implies(z3.Not(there), extended(c, attrs_of(c, c.new, cls), a, S.pair(S.Str, S.Str).constructor(0)(n, c.old.arg(1))))))

    @contract(_cls + '::AddAttributes', abstract=True, first=True, modifies=['this.' + _cls + HANDLER])
    def add_attrs(c, cls=_cls):
        """consequence of C14 for an object without attributes"""
        S, a, src = c.S, attrs_of(c, c.old, cls), c.old.arg(0)
        nm = lambda i: S.get(S.at(src, i), 0)
        uniq = forall([Int, Int], lambda i, j: z3.Implies(z3.And(0 <= i, i < j, j < S.slen(src)), nm(i) != nm(j)),
                      pats=lambda i, j: z3.MultiPattern(S.at(src, i), S.at(src, j)))
        c.ensures('takes all', lambda: z3.Implies(z3.And(S.slen(a) == 0, uniq), z3.And(S.seq_eq(attrs_of(c, c.new, cls), src), c.result)))

    @contract(_cls + '::GetStringAttributes', abstract=True, first=True)
    def get_attrs(c, cls=_cls):
        a = attrs_of(c, c.old, cls)
        c.assume(c.S.slen(a) >= 0)
        c.returns(a)


def attrs_of(c, view, cls, obj=None):
    f = cls + HANDLER
    return c.S.getf(view[f] if obj is None else view.fld(obj, f), AS)


def parsed(c, what, x, td):
    """ghost: x was made from td"""
    return c.V.fn('made from: ' + what, [Int, td_sort(c)], Bool)(x, td)


def answer(c, name, pos):
    """what the call recorded at this position of the trace answered"""
    return z3.Function(name, Int, Bool)(pos)


@contract(N + 'AppendChildInstruction', abstract=True, first=True)
def append_child(c):
    c.modifies('arg:1')
    c.emit(APPEND, obj=c.old.arg(1), args=[c.old.arg(0)])
    c.returns(answer(c, 'appended', c.S.slen(c.old.trace)))
    c.ensures('takes it', lambda: c.new.arg(1) == 0)


@contract(PR + '::PushInstruction', abstract=True, first=True, nparams=1)
def push(c):
    c.modifies('arg:0')
    c.emit(PUSH, obj=c.old.arg(0), args=[c.this])
    c.ensures('takes it', lambda: c.new.arg(0) == 0)


@contract(PR + '::AddVariable', abstract=True, first=True)
def add_var(c):
    c.modifies('arg:1')
    c.emit(ADDVAR, obj=c.old.arg(1), args=[c.this, c.old.arg(0)])
    c.returns(answer(c, 'variable added', c.S.slen(c.old.trace)))
    c.ensures('takes it', lambda: c.new.arg(1) == 0)


@contract(N + 'LoadPlugin', abstract=True, first=True)
def load_plugin(c):
    c.emit(LOAD, obj=z3.IntVal(0), args=[c.old.arg(0)])
    c.may_throw(ANY)


# ---------------------------------------------------------------- parsing
@contract(N + 'ParseVariable', props=['C30'], modifies=['alloc'])
def parse_variable(c):
    S, td = c.S, c.old.arg(0)
    ok = known(c, 'variable', node(c, td))
    c.assume(sane(c, td))
    c.may_throw(PARSE)
    if c.mode == 'call':
        c.ensures('a variable made from this', lambda: z3.And(c.result > 0, parsed(c, 'variable', c.result, td), ok))
        return
    c.ensures('a variable of the type named, with exactly the attributes given, in order', lambda: z3.And(
        ok, c.result > 0, type_of(c, c.result) == node(c, td), S.seq_eq(attrs_of(c, c.new, VAR, c.result), attributes(c, td))))
    c.ensures('an unknown type is a parse error', lambda: z3.Implies(z3.Not(ok), z3.BoolVal(c.raised == PARSE)), on='throw')


def attrs_so_far(L):
    c, S = L.c, L.S
    if L.k is None:
        return []
    a = attributes(c, c.old.arg(0))
    out = [other_objects(c, L.cur), still_there(c, L.cur)]
    for n, v in L.slots(Int):
        b = attrs_of(c, L.cur, INS, v)
        out.append(z3.And(S.slen(b) == L.k, forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < L.k), S.at(b, i) == S.at(a, i)),
                                                   pats=lambda i: [S.at(b, i), S.at(a, i)])))
    return out


def other_objects(c, view):
    """instructions that were there before keep their attributes"""
    key = INS + HANDLER
    a, b = c.old.heap(key), view.heap(key)
    return forall([Int], lambda p: z3.Implies(z3.Select(c.old.ghost('alloc'), p), z3.Select(b, p) == z3.Select(a, p)), pats=lambda p: z3.Select(b, p))


def kids_appended(c, t, n0, instr, kids, k):
    S = c.S
    ev = lambda p: S.at(t, p)
    return forall([Int], lambda p: z3.Implies(z3.And(n0 <= p, p < n0 + k), z3.And(
        S.Event.tag(ev(p)) == APPEND, S.Event.a(ev(p)) == S.box(instr), parsed(c, 'instruction', S.Event.obj(ev(p)), S.at(kids, p - n0)),
        answer(c, 'appended', p))), pats=lambda p: ev(p))


def trace_kept(c, t, t0):
    S = c.S
    return forall([Int], lambda p: z3.Implies(z3.And(0 <= p, p < S.slen(t0)), S.at(t, p) == S.at(t0, p)), pats=lambda p: S.at(t, p))


def appending(which):
    def appending(L):
        c, S = L.c, L.S
        if L.k is None:
            return []
        t0, t = c.old.trace, L.cur.trace
        out = [trace_kept(c, t, t0), other_objects(c, L.cur), still_there(c, L.cur)]
        if which is None:
            for n, v in L.slots(Int):
                out += [z3.And(S.slen(t) == S.slen(t0) + L.k, kids_appended(c, t, S.slen(t0), v, children(c, c.old.arg(0)), L.k))]
        else:
            out += [z3.And(S.slen(t) == S.slen(t0) + L.k, kids_appended(c, t, S.slen(t0), c.old.arg(0), c.old.arg(1), L.k))]
        return out
    return appending


@contract(N + 'AddChildInstructions', props=['C30'], modifies=['alloc', 'trace'], loops=[appending(0)])
def add_children(c):
    S, instr, kids = c.S, c.old.arg(0), c.old.arg(1)
    c.requires('is given an instruction', instr > 0)
    n0 = S.slen(c.old.trace)
    c.may_throw(PARSE)
    c.may_throw(ANY)
    c.ensures('every child was made and appended, in order', lambda: z3.And(
        S.slen(c.new.trace) == n0 + S.slen(kids), trace_kept(c, c.new.trace, c.old.trace),
        kids_appended(c, c.new.trace, n0, instr, kids, S.slen(kids))))


@contract(N + 'ParseInstruction', props=['C30'], modifies=['alloc', 'trace'], loops=[attrs_so_far, appending(None)])
def parse_instruction(c):
    S, td = c.S, c.old.arg(0)
    c.assume(sane(c, td))
    ok = known(c, 'instruction', node(c, td))
    c.may_throw(PARSE)
    c.may_throw(ANY)
    if c.mode == 'call':
        # what it does to the instruction it makes and to its children is its own business: nothing of it is in the caller's trace
        c.mods = [m for m in c.mods if m != 'trace']
        c.ensures('an instruction made from this', lambda: z3.And(
            c.result > 0, z3.Not(z3.Select(c.old.ghost('alloc'), c.result)), parsed(c, 'instruction', c.result, td)))
        return
    n0, kids = S.slen(c.old.trace), children(c, td)
    c.ensures('an instruction of the type named, with exactly the attributes given, in order', lambda: z3.And(
        ok, c.result > 0, type_of(c, c.result) == node(c, td), S.seq_eq(attrs_of(c, c.new, INS, c.result), attributes(c, td))))
    c.ensures('its children are made from the children given, in order', lambda: z3.And(
        S.slen(c.new.trace) == n0 + S.slen(kids), kids_appended(c, c.new.trace, n0, c.result, kids, S.slen(kids))))
    c.ensures('an unknown type is a parse error', lambda: z3.Implies(z3.Not(ok), z3.BoolVal(c.raised == PARSE)), on='throw')


NAME = 'name'


def named(c, td):
    return z3.And(has_attr(c, td, c.str(NAME)), attr(c, td, c.str(NAME)) != c.str(''))


def vars_added(c, t, n0, proc, kids, k):
    S = c.S
    ev = lambda p: S.at(t, p)
    return forall([Int], lambda p: z3.Implies(z3.And(n0 <= p, p < n0 + k), z3.And(
        S.Event.tag(ev(p)) == ADDVAR, S.Event.a(ev(p)) == S.box(proc), named(c, S.at(kids, p - n0)),
        S.Event.b(ev(p)) == S.box(attr(c, S.at(kids, p - n0), c.str(NAME))),
        parsed(c, 'variable', S.Event.obj(ev(p)), S.at(kids, p - n0)), answer(c, 'variable added', p))), pats=lambda p: ev(p))


def adding_vars(L):
    c, S = L.c, L.S
    if L.k is None:
        return []
    t0, t = c.old.trace, L.cur.trace
    kids = children(c, c.old.arg(1))
    return [z3.And(S.slen(t) == S.slen(t0) + L.k, trace_kept(c, t, t0), vars_added(c, t, S.slen(t0), c.old.arg(0), kids, L.k))]


@contract(N + '(anonymous namespace)::AddWorkspaceVariables', props=['C30'], modifies=['alloc', 'trace'], loops=[adding_vars])
def add_vars(c):
    S, proc, td = c.S, c.old.arg(0), c.old.arg(1)
    c.requires('is given a procedure', proc > 0)
    c.assume(sane(c, td))
    c.may_throw(PARSE)
    if c.mode == 'call':
        c.mods = [m for m in c.mods if m != 'trace']
        c.emit(WSVARS, obj=proc, args=[td])
        return
    n0, kids = S.slen(c.old.trace), children(c, td)
    c.ensures('every variable has a name, was made and added under it, in order', lambda: z3.And(
        S.slen(c.new.trace) == n0 + S.slen(kids), trace_kept(c, c.new.trace, c.old.trace), vars_added(c, c.new.trace, n0, proc, kids, S.slen(kids))))


# ---- preamble
for _q, _f in (('AddTypeRegistration', 'm_type_registrations'), ('AddPluginPath', 'm_plugin_paths')):
    @contract(PRE + '::' + _q, abstract=True, first=True, modifies=['this.' + PRE + '::' + _f])
    def pre_add(c, f=_f):
        """as proved for C05"""
        c.ensures('comes last', lambda: extended(c, c.new[PRE + '::' + f], c.old[PRE + '::' + f], c.old.arg(0)))


def is_plugin(c, td):
    return node(c, td) == c.str('Plugin')


def is_reg(c, td):
    return node(c, td) == c.str('RegisterType')


def ambiguous(c, td):
    return has_attr(c, td, c.str('jsontype')) == has_attr(c, td, c.str('jsonfile'))


def reg_matches(c, info, td):
    S, t, f = c.S, c.str('jsontype'), c.str('jsonfile')
    m, s = S.getf(info, TRI + '::m_mode'), S.getf(info, TRI + '::m_str')
    return z3.And(z3.Not(ambiguous(c, td)), z3.If(has_attr(c, td, t), z3.And(m == c.enum(TRI + '::RegistrationMode::kJSONString'), s == attr(c, td, t)),
                                                 z3.And(m == c.enum(TRI + '::RegistrationMode::kJSONFile'), s == attr(c, td, f))))


PM = PR + '::m_preamble'


def pre_of(c, view, proc):
    p = view.fld(proc, PM)
    return c.S.getf(p, PRE + '::m_type_registrations'), c.S.getf(p, PRE + '::m_plugin_paths')


def preamble_state(c, view, k):
    """what the first k children leave"""
    S, proc, td = c.S, c.old.arg(0), c.old.arg(1)
    kids = children(c, td)
    kid = lambda i: S.at(kids, i)
    P, R = c.counter(kids, lambda i: is_plugin(c, kid(i))), c.counter(kids, lambda i: is_reg(c, kid(i)))
    (r0, p0), (r, p) = pre_of(c, c.old, proc), pre_of(c, view, proc)
    t0, t = c.old.trace, view.trace
    kept = lambda b, a: forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < S.slen(a)), S.at(b, i) == S.at(a, i)), pats=lambda i: S.at(b, i))
    ev = lambda i: S.at(t, S.slen(t0) + P(i))
    per = lambda body: forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < k), body(i)), pats=lambda i: kid(i))
    return [z3.And(S.slen(p) == S.slen(p0) + P(k), kept(p, p0), per(lambda i: z3.Implies(
                is_plugin(c, kid(i)), S.at(p, S.slen(p0) + P(i)) == content(c, kid(i))))),
            z3.And(S.slen(r) == S.slen(r0) + R(k), kept(r, r0), per(lambda i: z3.Implies(
                is_reg(c, kid(i)), reg_matches(c, S.at(r, S.slen(r0) + R(i)), kid(i))))),
            z3.And(S.slen(t) == S.slen(t0) + P(k), trace_kept(c, t, t0), per(lambda i: z3.Implies(is_plugin(c, kid(i)), z3.And(
                S.Event.tag(ev(i)) == LOAD, S.Event.a(ev(i)) == S.box(content(c, kid(i)))))))]


def preamble_so_far(L):
    if L.k is None:
        return []
    return [x for t in preamble_state(L.c, L.cur, L.k) for x in t.children()]


@contract(N + '(anonymous namespace)::ParsePreamble', props=['C30'], modifies=['trace', 'heap:' + PM], loops=[preamble_so_far])
def parse_preamble(c):
    S, proc, td = c.S, c.old.arg(0), c.old.arg(1)
    c.requires('is given a procedure', proc > 0)
    c.assume(sane(c, td))
    c.may_throw(PARSE)
    c.may_throw(ANY)
    if c.mode == 'call':
        c.mods = [m for m in c.mods if m != 'trace']
        c.emit(PREAMBLE, obj=proc, args=[td])
        return
    kids = children(c, td)
    c.assume(z3.And(*[S.slen(x) >= 0 for x in pre_of(c, c.old, proc)]))
    i = z3.Int('amb')
    some = z3.Exists([i], z3.And(0 <= i, i < S.slen(kids), is_reg(c, S.at(kids, i)), ambiguous(c, S.at(kids, i))))
    for n, label in enumerate(('plugin paths are recorded, in order', 'type registrations are recorded as given, in order; none is ambiguous',
                               'every plugin is loaded, in order, and nothing else')):
        c.ensures(label, lambda n=n: preamble_state(c, c.new, S.slen(kids))[n])
    c.ensures('a parse error only for an ambiguous registration', lambda: some if c.raised == PARSE else z3.BoolVal(True), on='throw')


# ---- children
def is_ws(c, td):
    return node(c, td) == c.str('Workspace')


def need(c, *names):
    """the argument is made with these helpers; without them the function is not decided here"""
    for n in names:
        if not any(f['q'].endswith(n) for f in c.V.prog.funcs.values()):
            raise Unsupported('no function ' + n)


def children_state(c, view, k):
    S, proc, td = c.S, c.old.arg(0), c.old.arg(1)
    kids = children(c, td)
    kid = lambda i: S.at(kids, i)
    rest = lambda i: z3.And(z3.Not(is_plugin(c, kid(i))), z3.Not(is_reg(c, kid(i))))
    C = c.counter(kids, rest)
    t0, t = c.old.trace, view.trace
    ev = lambda i: S.at(t, S.slen(t0) + C(i))
    one = lambda i: z3.If(
        is_ws(c, kid(i)), z3.And(S.Event.tag(ev(i)) == WSVARS, S.Event.obj(ev(i)) == proc, S.Event.a(ev(i)) == S.box(kid(i))),
        z3.And(S.Event.tag(ev(i)) == PUSH, S.Event.a(ev(i)) == S.box(proc), parsed(c, 'instruction', S.Event.obj(ev(i)), kid(i))))
    return z3.And(S.slen(t) == S.slen(t0) + C(k), trace_kept(c, t, t0), forall([Int], lambda i: z3.Implies(
        z3.And(0 <= i, i < k, rest(i)), one(i)), pats=lambda i: kid(i)))


def children_so_far(L):
    return [] if L.k is None else [children_state(L.c, L.cur, L.k)]


@contract(N + '(anonymous namespace)::ParseProcedureChildren', props=['C30'], modifies=['alloc', 'trace'], loops=[children_so_far])
def parse_children(c):
    S, proc, td = c.S, c.old.arg(0), c.old.arg(1)
    c.requires('is given a procedure', proc > 0)
    c.assume(sane(c, td))
    c.may_throw(PARSE)
    c.may_throw(ANY)
    if c.mode == 'call':
        c.mods = [m for m in c.mods if m != 'trace']
        c.emit(CHILDREN, obj=proc, args=[td])
        return
    need(c, '::AddWorkspaceVariables')
    c.ensures('every workspace and every instruction is taken, in order, nothing else', lambda: children_state(c, c.new, S.slen(children(c, td))))


@contract(PR + '::Procedure', abstract=True, first=True)
def new_procedure(c):
    c.modifies('alloc')
    c.emit(NEWPROC, obj=c.this, args=[c.old.arg(0)])


@contract(PR + '::AddAttributes', abstract=True, first=True)
def proc_attrs(c):
    c.emit(PATTRS, obj=c.this, args=[c.old.arg(0)])


@contract(N + 'ParseProcedure', props=['C30'], modifies=['any'])
def parse_procedure(c):
    S, td, fn = c.S, c.old.arg(0), c.old.arg(1)
    need(c, '::ParsePreamble', '::ParseProcedureChildren')
    c.assume(sane(c, td))
    c.may_throw(PARSE)
    c.may_throw(ANY)
    right = node(c, td) == c.str('Procedure')

    def exact():
        t = [e for e in c.log if e['tag'] >= LOAD]
        tags = [e['tag'] for e in t]
        if sorted(tags) != sorted([NEWPROC, PREAMBLE, PATTRS, CHILDREN]) or tags[0] != NEWPROC or tags.index(PREAMBLE) > tags.index(CHILDREN):
            return z3.BoolVal(False)
        at = {e['tag']: e for e in t}
        p = at[NEWPROC]['obj']
        return z3.And(right, c.result == p, at[NEWPROC]['vals'][0] == fn, at[PREAMBLE]['obj'] == p, at[PREAMBLE]['vals'][0] == td,
                      at[PATTRS]['obj'] == p, at[PATTRS]['vals'][0] == attributes(c, td), at[CHILDREN]['obj'] == p, at[CHILDREN]['vals'][0] == td)
    c.ensures('a new procedure for that file with the preamble, then the children, and all attributes of the element', exact)
    c.ensures('another element is a parse error', lambda: z3.Implies(z3.Not(right), z3.BoolVal(c.raised == PARSE)), on='throw')


# ---------------------------------------------------------------- saving
def kids_of(c, x):
    return c.V.fn('children of', [Int], c.S.seq(Int))(x)


@contract(INS + '::ChildInstructions', abstract=True, first=True)
def ins_kids(c):
    k = kids_of(c, c.this)
    c.assume(given(c, k))
    c.returns(k)


def given(c, k):
    return z3.And(c.S.slen(k) >= 0, forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < c.S.slen(k)), c.S.at(k, i) > 0), pats=lambda i: c.S.at(k, i)))


def saved(c, v, x):
    """ghost: v is the tree of instruction x"""
    return c.V.fn('tree of instruction', [td_sort(c), Int], Bool)(v, x)


def saved_var(c, v, x):
    return c.V.fn('tree of variable', [td_sort(c), Int], Bool)(v, x)


def plain(c, view, v, cls, x):
    return z3.And(node(c, v) == type_of(c, x), content(c, v) == c.str(''), c.S.seq_eq(attributes(c, v), attrs_of(c, view, cls, x)))


def kids_saved(c, ks, xs, off, k, rel):
    S = c.S
    return forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < k), rel(c, S.at(ks, off + i), S.at(xs, i))), pats=lambda i: [S.at(xs, i), S.at(ks, off + i)])


def saved_level(c, view, v, x):
    S, xs = c.S, kids_of(c, x)
    return z3.And(plain(c, view, v, INS, x), S.slen(children(c, v)) == S.slen(xs), kids_saved(c, children(c, v), xs, 0, S.slen(xs), saved))


TREE = '*' + TD


def tree_at(c, view, p):
    """the tree a pointer points to"""
    c.V.heap_types.setdefault(TREE, TD)
    return z3.Select(view.heap(TREE), p)


def new_tree(c, p):
    return z3.And(p > 0, z3.Not(z3.Select(c.old.ghost('alloc'), p)), z3.Select(c.new.ghost('alloc'), p))


def others_kept(c, view, *but):
    """trees that were there before are as before, but for these"""
    a, b = c.old.heap(TREE), view.heap(TREE)
    return forall([Int], lambda p: z3.Implies(z3.And(z3.Select(c.old.ghost('alloc'), p), *[p != q for q in but]), z3.Select(b, p) == z3.Select(a, p)),
                  pats=lambda p: z3.Select(b, p))


def still_there(c, view):
    a, b = c.old.ghost('alloc'), view.ghost('alloc')
    return forall([Int], lambda p: z3.Implies(z3.Select(a, p), z3.Select(b, p)), pats=lambda p: [z3.Select(b, p), z3.Select(a, p)])


def saving_attrs(cls):
    def saving_attrs(L):
        """attributes written so far"""
        c, S = L.c, L.S
        if L.k is None:
            return []
        x = c.old.arg(0)
        a = attrs_of(c, c.old, cls, x)
        out = [others_kept(c, L.cur)]
        for n, v in L.slots(Int):
            t = tree_at(c, L.cur, v)
            b = attributes(c, t)
            out.append(z3.And(node(c, t) == type_of(c, x), content(c, t) == c.str(''), S.slen(children(c, t)) == 0, S.slen(b) == L.k, forall(
                [Int], lambda i: z3.Implies(z3.And(0 <= i, i < L.k), S.at(b, i) == S.at(a, i)), pats=lambda i: [S.at(b, i), S.at(a, i)])))
        return out
    return saving_attrs


@contract('internal::CreateTreeData', props=['C30'], modifies=['alloc'], loops=[saving_attrs(INS)])
def create_tree_data(c):
    x = c.old.arg(0)
    c.requires('is given an instruction', x > 0)
    c.may_throw(ANY)
    v = lambda: tree_at(c, c.new, c.result)
    c.ensures('a new tree with the type and the attributes in order, nothing else', lambda: z3.And(
        new_tree(c, c.result), plain(c, c.old, v(), INS, x), c.S.slen(children(c, v())) == 0))


def grown(c, v, v0, xs, k, rel):
    """v is v0 with the trees of the first k behind its children"""
    S, a, b = c.S, children(c, v0), children(c, v)
    return z3.And(same(c, v, v0, 'children'), S.slen(b) == S.slen(a) + k,
                  forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < S.slen(a)), S.at(b, i) == S.at(a, i)), pats=lambda i: S.at(b, i)),
                  kids_saved(c, b, xs, S.slen(a), k, rel))


def iterating(L):
    c = L.c
    if L.k is None:
        return []
    x, p = c.old.arg(0), c.old.arg(1)
    return [grown(c, tree_at(c, L.cur, p), tree_at(c, c.old, p), kids_of(c, x), L.k, saved), others_kept(c, L.cur, p), still_there(c, L.cur)]


@contract('internal::Iterate', props=['C30'], modifies=['alloc', 'heap:' + TREE], loops=[iterating])
def iterate(c):
    x, p = c.old.arg(0), c.old.arg(1)
    c.requires('is given an instruction and a tree', z3.And(x > 0, p > 0, z3.Select(c.old.ghost('alloc'), p)))
    c.may_throw(ANY)
    v0 = tree_at(c, c.old, p)
    c.assume(c.S.slen(children(c, v0)) >= 0)
    v = lambda: tree_at(c, c.new, p)
    xs = kids_of(c, x)
    c.assume(given(c, xs))
    c.ensures('the trees of the children come behind, in order', lambda: grown(c, v(), v0, xs, c.S.slen(xs), saved))
    c.ensures('no other tree changes', lambda: others_kept(c, c.new, p), on='both')
    if c.mode == 'call':
        c.ensures('definition of the tree of an instruction', lambda: saved(c, v(), x) == saved_level(c, c.new, v(), x))


@contract(N + 'ToTreeData', props=['C30'], name=N + 'ToTreeData(Instruction)', sig=params_are('Instruction'), modifies=['alloc'])
def instr_tree(c):
    x = c.old.arg(0)
    c.requires('an instruction', x > 0)
    c.may_throw(ANY)
    v = lambda: tree_at(c, c.new, c.result)
    if c.mode == 'call':
        c.ensures('a new tree of this', lambda: z3.And(new_tree(c, c.result), saved(c, v(), x)))
        return
    c.ensures('type, attributes in order and the trees of the children in order', lambda: z3.And(new_tree(c, c.result), saved_level(c, c.new, v(), x)))


@contract(N + 'ToTreeData', props=['C30'], name=N + 'ToTreeData(Variable)', sig=params_are('Variable'), modifies=['alloc'], loops=[saving_attrs(VAR)])
def var_tree(c):
    x = c.old.arg(0)
    c.requires('a variable', x > 0)
    c.may_throw(ANY)
    v = lambda: tree_at(c, c.new, c.result)
    if c.mode == 'call':
        c.ensures('a new tree of this', lambda: z3.And(new_tree(c, c.result), saved_var(c, v(), x)))
        return
    c.ensures('type and attributes in order', lambda: z3.And(new_tree(c, c.result), plain(c, c.old, v(), VAR, x), c.S.slen(children(c, v())) == 0))


def vars_of(c, w):
    return c.V.fn('variables of', [Int], c.S.seq(Int))(w)


@contract(WS + '::GetVariables', abstract=True, first=True)
def get_vars(c):
    k = vars_of(c, c.this)
    c.assume(given(c, k))
    c.returns(k)


def bare(c, v, name):
    return z3.And(node(c, v) == c.str(name), content(c, v) == c.str(''), c.S.slen(attributes(c, v)) == 0)


def saving_vars(L):
    c, S = L.c, L.S
    if L.k is None:
        return []
    xs = vars_of(c, c.old.arg(0))
    out = [others_kept(c, L.cur), still_there(c, L.cur)]
    for n, v in L.slots(Int):
        t = tree_at(c, L.cur, v)
        out.append(z3.And(bare(c, t, 'Workspace'), S.slen(children(c, t)) == L.k, kids_saved(c, children(c, t), xs, 0, L.k, saved_var)))
        out.append(z3.Select(L.cur.ghost('alloc'), v))
    return out


@contract(N + 'ToTreeData', props=['C30'], name=N + 'ToTreeData(Workspace)', sig=params_are('Workspace'), modifies=['alloc'], loops=[saving_vars])
def ws_tree(c):
    S, x = c.S, c.old.arg(0)
    c.requires('a workspace', x > 0)
    c.may_throw(ANY)
    xs = vars_of(c, x)
    c.assume(given(c, xs))
    v = lambda: tree_at(c, c.new, c.result)
    c.ensures('the trees of the variables in order, nothing else', lambda: z3.And(
        new_tree(c, c.result), bare(c, v(), 'Workspace'), S.slen(children(c, v())) == S.slen(xs), kids_saved(c, children(c, v()), xs, 0, S.slen(xs), saved_var)))


def reg_saved(c, v, info):
    S = c.S
    a = attributes(c, v)
    file = S.getf(info, TRI + '::m_mode') == c.enum(TRI + '::RegistrationMode::kJSONFile')
    return z3.And(node(c, v) == c.str('RegisterType'), content(c, v) == c.str(''), S.slen(children(c, v)) == 0, S.slen(a) == 1,
                  S.get(S.at(a, 0), 0) == z3.If(file, c.str('jsonfile'), c.str('jsontype')), S.get(S.at(a, 0), 1) == S.getf(info, TRI + '::m_str'))


def plugin_saved(c, v, path):
    S = c.S
    return z3.And(node(c, v) == c.str('Plugin'), content(c, v) == path, S.slen(children(c, v)) == 0, S.slen(attributes(c, v)) == 0)


def preamble_saved(c, v, v0, pre, kr, kp):
    S, a, b = c.S, children(c, v0), children(c, v)
    r, p = S.getf(pre, PRE + '::m_type_registrations'), S.getf(pre, PRE + '::m_plugin_paths')
    return z3.And(same(c, v, v0, 'children'), S.slen(b) == S.slen(a) + kr + kp,
                  forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < S.slen(a)), S.at(b, i) == S.at(a, i)), pats=lambda i: S.at(b, i)),
                  kids_saved(c, b, r, S.slen(a), kr, reg_saved), kids_saved(c, b, p, S.slen(a) + kr, kp, plugin_saved))


def saving_preamble(L):
    c, S = L.c, L.S
    if L.k is None:
        return []
    pre = c.old.arg(1)
    r = S.getf(pre, PRE + '::m_type_registrations')
    v, v0 = L.cur.arg(0), c.old.arg(0)
    out = [still_there(c, L.cur), others_kept(c, L.cur)]
    if L.seq is not None and L.seq.sort() == r.sort():
        out.append(preamble_saved(c, v, v0, pre, L.k, 0))
    else:
        out.append(preamble_saved(c, v, v0, pre, S.slen(r), L.k))
    return out


@contract('internal::AddPreamble', props=['C30'], modifies=['alloc', 'arg:0'], loops=[saving_preamble])
def add_preamble(c):
    S, v0, pre = c.S, c.old.arg(0), c.old.arg(1)
    c.may_throw(ANY)
    c.assume(S.slen(children(c, v0)) >= 0)
    r, p = S.getf(pre, PRE + '::m_type_registrations'), S.getf(pre, PRE + '::m_plugin_paths')
    c.ensures('type registrations and plugin paths come behind, each with its text, in order', lambda: preamble_saved(
        c, c.new.arg(0), v0, pre, S.slen(r), S.slen(p)))


def tops_of(c, p):
    return c.V.fn('top instructions of', [Int], c.S.seq(Int))(p)


@contract(PR + '::GetTopInstructions', abstract=True, first=True)
def get_tops(c):
    k = tops_of(c, c.this)
    c.assume(given(c, k))
    c.returns(k)


@contract(PR + '::GetWorkspace', abstract=True, first=True)
def get_ws(c):
    w = c.V.fn('workspace of', [Int], Int)(c.this)
    c.assume(w > 0)
    c.returns(w)


def saved_ws(c, v, w):
    S, xs = c.S, vars_of(c, w)
    return z3.And(bare(c, v, 'Workspace'), S.slen(children(c, v)) == S.slen(xs), kids_saved(c, children(c, v), xs, 0, S.slen(xs), saved_var))


def procedure_saved(c, v, x, k, ws):
    S, b = c.S, children(c, v)
    pre = c.old.fld(x, PM)
    r, p = S.getf(pre, PRE + '::m_type_registrations'), S.getf(pre, PRE + '::m_plugin_paths')
    xs = tops_of(c, x)
    m = S.slen(r) + S.slen(p)
    return z3.And(node(c, v) == c.str('Procedure'), content(c, v) == c.str(''), S.slen(b) == m + k + (1 if ws else 0),
                  kids_saved(c, b, r, 0, S.slen(r), reg_saved), kids_saved(c, b, p, S.slen(r), S.slen(p), plugin_saved),
                  kids_saved(c, b, xs, m, k, saved), *([saved_ws(c, S.at(b, m + k), c.V.fn('workspace of', [Int], Int)(x))] if ws else []))


def saving_tops(L):
    c = L.c
    if L.k is None:
        return []
    x = c.old.arg(0)
    out = [still_there(c, L.cur), others_kept(c, L.cur)]
    for n, v in L.slots(Int):
        out.append(procedure_saved(c, tree_at(c, L.cur, v), x, L.k, False))
        out.append(z3.Select(L.cur.ghost('alloc'), v))
    return out


@contract(N + 'ToTreeData', props=['C30'], name=N + 'ToTreeData(Procedure)', sig=params_are('Procedure'), modifies=['alloc'], loops=[saving_tops])
def proc_tree(c):
    S, x = c.S, c.old.arg(0)
    c.requires('a procedure', x > 0)
    c.may_throw(ANY)
    xs = tops_of(c, x)
    c.assume(given(c, xs))
    c.assume(z3.And(*[S.slen(y) >= 0 for y in pre_of(c, c.old, x)]))
    v = lambda: tree_at(c, c.new, c.result)
    c.ensures('preamble, instructions and workspace, each complete and in order', lambda: z3.And(
        new_tree(c, c.result), procedure_saved(c, v(), x, S.slen(xs), True)))
