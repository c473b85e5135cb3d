"""Contracts of the data instructions (C29): reading attributes and variables, applying the operation, writing the output.

Reading and writing a variable are calls into the workspace (C16 specifies those); what a read delivers is arbitrary on every
call (another thread may have changed the variable), so a read is an event with its own outcome.
"""
import z3

from contracts.attrs import AD, AH, AHI, AP, AS, AV, DEFS, HIMPL, IH, def_index, avalue, has, index_of, parses, parsed_value, prop, rng, validator
from contracts.core import N, params_are
from contracts.dto import any_sort, assigned, converted, dep, is_array, self_value
from engine.verify import ENTITIES, PURE, contract, forall

Int = z3.IntSort()
Bool = z3.BoolSort()
INS, WS, UI = N + 'Instruction', N + 'Workspace', N + 'UserInterface'
ENTITIES |= {INS, WS, UI}
READ, WRITE, PUT, SAY, RESETV, LOGX, FETCH, STORE, LIT = range(160, 169)
PURE |= {'sup::dto::Compare'}
D = 'sup::dto::'
STRING = 'std::basic_string<char, std::char_traits<char>, std::allocator<char>>'


def here(c):
    return c.S.slen(c.old.trace)


def ok_at(k):
    return z3.Function('call_succeeds', Int, Bool)(k)


def value_at(c, k):
    return z3.Function('value_read', Int, any_sort(c))(k)


def nothing(c):
    return z3.Const('new:' + D + 'AnyValue', any_sort(c))


for _q in ('LogError', 'LogWarning', 'LogInfo', 'LogMessage'):
    @contract(N + _q, abstract=True, first=True)
    def log_call(c):
        c.emit(LOGX)


# ---------------------------------------------------------------- what the instructions use
def has_attr(c, i, name):
    return dep(c, 'has_attribute', Bool, i, name)


@contract(INS + '::HasAttribute', abstract=True, first=True)
def i_has(c):
    c.returns(has_attr(c, c.this, c.old.arg(0)))


@contract(INS + '::GetAttributeString', abstract=True, first=True)
def i_text(c):
    c.returns(dep(c, 'attribute_text', c.S.Str, c.this, c.old.arg(0)))


@contract(WS + '::HasVariable', abstract=True, first=True)
def ws_has(c):
    c.returns(dep(c, 'has_variable', Bool, c.this, c.old.arg(0)))


@contract(N + 'SplitFieldName', abstract=True, first=True)
def split(c):
    p = c.S.pair(c.S.Str, c.S.Str)
    c.returns(z3.Function('split_field', c.S.Str, p)(c.old.arg(0)))


def known(c, ws, name):
    """the variable a name with an optional field path starts with exists"""
    p = c.S.pair(c.S.Str, c.S.Str)
    return dep(c, 'has_variable', Bool, ws, c.S.get(z3.Function('split_field', c.S.Str, p)(name), 0))


@contract(WS + '::GetValue', abstract=True, first=True)
def ws_get(c):
    """fails for an unknown variable; what a failed read leaves in the output is not specified"""
    k = here(c)
    name = c.old.arg(0)
    c.modifies('arg:1')
    c.emit(FETCH, obj=c.this, args=[name])
    c.ensures('reads', lambda: z3.And(c.result == z3.And(ok_at(k), known(c, c.this, name)), z3.Implies(c.result, c.new.arg(1) == value_at(c, k))))


@contract(WS + '::SetValue', abstract=True, first=True)
def ws_set(c):
    k = here(c)
    c.emit(STORE, obj=c.this, args=[c.old.arg(0), c.old.arg(1)])
    c.returns(z3.And(ok_at(k), known(c, c.this, c.old.arg(0))))


@contract(WS + '::ResetVariable', abstract=True, first=True)
def ws_reset(c):
    k = here(c)
    c.emit(RESETV, obj=c.this, args=[c.old.arg(0)])
    c.returns(z3.And(ok_at(k), dep(c, 'has_variable', Bool, c.this, c.old.arg(0))))


@contract(UI + '::PutValue', abstract=True, first=True)
def ui_put(c):
    k = here(c)
    c.emit(PUT, obj=c.this, args=[c.old.arg(0), c.old.arg(1)])
    c.returns(ok_at(k))


@contract(UI + '::Message', abstract=True, first=True)
def ui_say(c):
    c.emit(SAY, obj=c.this, args=[c.old.arg(0)])


# ---------------------------------------------------------------- sup-dto operations
def text_op(name, ret):
    return z3.Function('any.' + name, *ret)


for _q in ('Increment', 'Decrement'):
    def _mk(q):
        @contract(D + q, abstract=True, nparams=1, sig=params_are('AnyValue'))
        def op(c):
            v = c.old.arg(0)
            s = v.sort()
            ok, r = z3.Function('any.can_' + q, s, Bool)(v), z3.Function('any.' + q, s, s)(v)
            c.modifies('arg:0')
            c.ensures('changes it by one or leaves it', lambda: z3.And(c.result == ok, c.new.arg(0) == z3.If(ok, r, v)))
    _mk(_q)


@contract(D + 'MessageException::what', abstract=True, nparams=0)
def what(c):
    return


for _t in ('AnyType', 'AnyValue'):
    @contract(D + _t + '::operator!=', abstract=True, nparams=1, first=True)
    def differs(c, _t=_t):
        c.returns(z3.Not(dep(c, _t + '::operator==', Bool, self_value(c), c.old.arg(0))))

    @contract(D + _t + '::operator==', abstract=True, nparams=1, first=True)
    def equals(c, _t=_t):
        c.returns(dep(c, _t + '::operator==', Bool, self_value(c), c.old.arg(0)))


def may_add(c, v, *x):
    return z3.Function('any.can_add%d' % len(x), v.sort(), *[t.sort() for t in x], Bool)(v, *x)


def added(c, v, *x):
    return z3.Function('any.added%d' % len(x), v.sort(), *[t.sort() for t in x], v.sort())(v, *x)


for _q, _n in (('AddElement', 1), ('AddMember', 2)):
    @contract(D + 'AnyValue::' + _q, abstract=True, nparams=_n, modifies=['this'])
    def add(c, _n=_n):
        v = self_value(c)
        x = [c.old.arg(i) for i in range(_n)]
        c.throws(D + 'InvalidOperationException', z3.Not(may_add(c, v, *x)))
        c.ensures('adds it', lambda: c.new.val(c.this.lv) == added(c, v, *x))
        c.ensures('or leaves it', lambda: c.new.val(c.this.lv) == v, on='throw')


# ---------------------------------------------------------------- reading an attribute
VINFO = N + 'AttributeValueInfo'


def info_of(c, seq, defs, name):
    s = [seq.sort(), defs.sort(), c.S.Str]
    return (z3.Function('names_variable', *s, Bool)(seq, defs, name), z3.Function('value_text', *s, c.S.Str)(seq, defs, name))


def definitions(c, i):
    h = c.S.getf(c.old.fld(i, INS + '::m_attribute_handler'), HIMPL)
    return c.S.getf(c.old.fld(h, AHI + '::attr_validator'), DEFS)


@contract(N + 'GetAttributeValueInfo', props=['C29'])
def value_info(c):
    S = c.S
    seq, defs, name = c.old.arg(0), c.old.arg(1), c.old.arg(2)
    if c.mode == 'call':
        isn, txt = info_of(c, seq, defs, name)
        c.throws(N + 'RuntimeException', z3.Not(has(c, seq, name)))
        c.ensures('tells where the value is', lambda: z3.And(S.getf(c.result, VINFO + '::m_is_varname') == isn, S.getf(c.result, VINFO + '::m_value') == txt))
        return
    c.requires('definitions carry their properties', forall([Int], lambda i: z3.Implies(rng(S, defs, i), S.getf(S.at(defs, i), AD + '::m_properties') > 0), pats=lambda i: S.at(defs, i)))
    i, d = index_of(c, seq, name), def_index(c, defs, name)
    c.throws(N + 'RuntimeException', i == S.slen(seq), 'refuses exactly an absent attribute')
    v = avalue(c, seq, i)
    cat = prop(c, S.at(defs, d), 'm_category')
    is_ = lambda n: cat == c.enum(N + 'AttributeCategory::' + n)
    at = z3.Function('starts_with', S.Str, Int, Bool)(v, z3.IntVal(ord('@')))
    rest = z3.Function('str.substr', S.Str, Int, Int, S.Str)(v, z3.IntVal(1), z3.IntVal((1 << 64) - 1))
    defd = d < S.slen(defs)
    by_name = z3.And(defd, z3.Or(is_('kVariableName'), z3.And(is_('kBoth'), at)))
    c.ensures('a name by its category, or by the variable character if it may be both', lambda: S.getf(c.result, VINFO + '::m_is_varname') == by_name)
    c.ensures('the text without the variable character', lambda: S.getf(c.result, VINFO + '::m_value') == z3.If(
        z3.And(defd, is_('kBoth'), at), rest, v))


@contract(AH + '::GetValue', props=['C29'], modifies=['arg:1', 'alloc'])
def h_value(c):
    S = c.S
    name, out = c.old.arg(0), c.old.arg(1)
    if c.mode == 'call':
        k = here(c)
        c.emit(LIT, args=[name])
        c.ensures('reads', lambda: z3.And(c.result == ok_at(k), c.new.arg(1) == z3.If(ok_at(k), value_at(c, k), out)))
        return
    seq = c.old[AS]
    defs = S.getf(validator(c, c.old), DEFS)
    c.requires('has its validator', c.old[HIMPL] > 0)
    c.requires('definitions carry their properties', forall([Int], lambda i: z3.Implies(rng(S, defs, i), S.getf(S.at(defs, i), AD + '::m_properties') > 0), pats=lambda i: S.at(defs, i)))
    i, d = index_of(c, seq, name), def_index(c, defs, name)
    t, v = prop(c, S.at(defs, d), 'm_value_type'), avalue(c, seq, i)
    typed = z3.And(d < S.slen(defs), parses(c, t, v))
    can, r = assigned(c, out, parsed_value(c, t, v))
    c.ensures('the literal of a defined attribute, if it parses and fits', lambda: z3.Implies(d < S.slen(defs), z3.And(
        c.result == z3.And(i < S.slen(seq), typed, can), c.new.arg(1) == z3.If(c.result, r, out))))
    c.ensures('an absent attribute gives nothing', lambda: z3.Implies(i == S.slen(seq), z3.And(z3.Not(c.result), c.new.arg(1) == out)))


def events(c, *skip):
    """(position, entry) of what happened, without the log messages"""
    return [(here(c) + i, e) for i, e in enumerate(c.log) if e['tag'] != LOGX]


@contract('(anonymous namespace)::GetValueFromVariableName', props=['C29'], modifies=['arg:4', 'trace'])
def from_variable(c):
    ws, name, out = c.old.arg(1), c.old.arg(3), c.old.arg(4)
    if c.mode == 'call':
        k = here(c)
        c.emit(FETCH, obj=ws, args=[name])
        c.ensures('reads', lambda: z3.And(c.result == ok_at(k), c.new.arg(4) == z3.If(ok_at(k), value_at(c, k), out)))
        return

    def exact():
        ev = events(c)
        if not ev:
            return z3.And(z3.Not(c.result), c.new.arg(4) == out, z3.Or(name == c.str(''), z3.Not(known(c, ws, name))))
        if [e['tag'] for k, e in ev] != [FETCH]:
            return z3.BoolVal(False)
        k, e = ev[0]
        can, r = assigned(c, out, value_at(c, k))
        ok = z3.And(e['ret'], can)
        return z3.And(e['obj'] == ws, e['vals'][0] == name, c.result == ok, c.new.arg(4) == z3.If(ok, r, out))
    c.ensures('the value of that variable or field, read once, or no change', exact)


@contract(INS + '::GetAttributeValue', props=['C29'], nparams=4, modifies=['arg:3', 'alloc', 'trace'], first=True)
def attr_value(c):
    me, name, ws, out = c.this, c.old.arg(0), c.old.arg(1), c.old.arg(3)
    present = has_attr(c, me, name)
    if c.mode == 'call':
        k = here(c)
        c.emit(READ, obj=me, args=[name, ws])
        c.ensures('reads', lambda: z3.And(c.result == z3.Or(z3.Not(present), ok_at(k)), z3.Implies(c.result, c.new.arg(3) == z3.If(
            present, value_at(c, k), out))))
        return
    h = c.old[INS + '::m_attribute_handler']
    seq, defs = c.S.getf(h, AS), c.S.getf(c.old.fld(c.S.getf(h, HIMPL), AHI + '::attr_validator'), DEFS)
    c.requires('has its validator', c.S.getf(h, HIMPL) > 0)
    c.requires('an attribute is present when it is listed', present == has(c, seq, name))
    isn, txt = info_of(c, seq, defs, name)

    def exact():
        ev = events(c)
        if not ev:
            return z3.And(c.result, z3.Not(present), c.new.arg(3) == out)
        if len(ev) != 1 or ev[0][1]['tag'] not in (FETCH, LIT):
            return z3.BoolVal(False)
        k, e = ev[0]
        which = z3.And(isn, e['obj'] == ws, e['vals'][0] == txt) if e['tag'] == FETCH else z3.And(z3.Not(isn), e['vals'][0] == name)
        return z3.And(present, which, c.result == e['ret'], c.new.arg(3) == z3.If(e['ret'], value_at(c, k), out))
    c.ensures('the variable it names or its literal; an absent one changes nothing', exact)


@contract(N + 'SetValueFromAttributeName', props=['C29'], modifies=['trace'])
def set_value(c):
    i, ws, name, value = c.old.arg(0), c.old.arg(1), c.old.arg(3), c.old.arg(4)
    if c.mode == 'call':
        k = here(c)
        c.emit(WRITE, obj=ws, args=[name, value])
        c.returns(ok_at(k))
        return
    txt = dep(c, 'attribute_text', c.S.Str, i, name)

    def exact():
        ev = events(c)
        if not ev:
            return z3.And(z3.Not(c.result), z3.Or(txt == c.str(''), z3.Not(known(c, ws, txt))))
        if [e['tag'] for k, e in ev] != [STORE]:
            return z3.BoolVal(False)
        e = ev[0][1]
        return z3.And(e['obj'] == ws, e['vals'][0] == txt, e['vals'][1] == value, c.result == e['ret'])
    c.ensures('writes that value once to the variable or field the attribute names', exact)


# ---------------------------------------------------------------- the instructions
IN, OUT, LEFT, RIGHT, VARN = 'inputVar', 'outputVar', 'leftVar', 'rightVar', 'varName'


class Value:
    """what an attribute delivered on this path"""

    def __init__(self, c, name, typ, ws):
        self.c, self.name, self.typ, self.ws = c, name, typ, ws
        self.hits = [(k, e) for k, e in events(c) if e['tag'] == READ and z3.simplify(e['vals'][0]).eq(z3.simplify(c.str(name)))]
        self.present = has_attr(c, c.this, c.str(name))

    def ok(self):
        if not self.hits:       # not looked at: an absent optional attribute
            return z3.Not(self.present) if self.typ else z3.BoolVal(False)
        k, e = self.hits[0]
        right = z3.And(e['obj'] == self.c.this, e['vals'][1] == self.ws)
        return z3.And(right, e['ret'], self.conv(k)[0])

    def conv(self, k):
        c = self.c
        raw = z3.If(self.present, value_at(c, k), nothing(c))
        if not self.typ:
            return z3.BoolVal(True), raw
        return converted(c, raw, self.typ)

    def value(self):
        c = self.c
        if not self.hits:
            return None
        return self.conv(self.hits[0][0])[1]


def data(cls, reads, applies=None, act=None, ws_of=None, absent=None):
    """succeeds exactly when everything reads, the operation applies and the output is accepted; acts once, at the end"""
    @contract(N + cls + '::ExecuteSingleImpl', props=['C29'], modifies=['trace', 'alloc'])
    def f(c):
        ui, ws = c.old.arg(0), c.old.arg(1)
        S, F = c.enum(N + 'ExecutionStatus::SUCCESS'), c.enum(N + 'ExecutionStatus::FAILURE')
        src, dst = (ws_of(c, ws) if ws_of else (ws, ws))
        if ws_of:
            c.requires('has its workspace', z3.And(src > 0, dst > 0))

        def exact():
            ev = events(c)
            vs = {n: Value(c, n, t, src) for n, t in reads}
            acts = [(k, e) for k, e in ev if e['tag'] != READ]
            if any(len(v.hits) > 1 for v in vs.values()) or len(acts) > 1 or sum(len(v.hits) for v in vs.values()) + len(acts) != len(ev):
                return z3.BoolVal(False)
            ok = z3.And(z3.BoolVal(True), *[v.ok() for v in vs.values()])
            vals = {n: v.value() for n, v in vs.items()}
            for n in vals:
                if vals[n] is None and absent and n in absent:
                    vals[n] = absent[n](c)
            missing = any(v is None for v in vals.values())
            if applies is not None:
                ok = z3.BoolVal(False) if missing else z3.And(ok, applies(c, vals))
            if acts:
                if act is None or missing:
                    return z3.BoolVal(False)
                k, e = acts[0]
                tag, obj, args, decides = act(c, vals, ui, dst)
                if e['tag'] != tag or len(e['vals']) != len(args):
                    return z3.BoolVal(False)
                return z3.And(ok, e['obj'] == obj, *[x == y for x, y in zip(e['vals'], args)], c.result == (z3.If(e['ret'], S, F) if decides else S))
            if act is not None:
                return z3.And(c.result == F, z3.Not(ok))
            return c.result == z3.If(ok, S, F)
        c.ensures('succeeds exactly when its inputs read, its operation applies and its output is written; writes nothing else', exact)
    return f


def writes(name, value):
    return lambda c, v, ui, ws: (WRITE, ws, [c.str(name), value(c, v)], True)


data('Copy', [(IN, None)], act=writes(OUT, lambda c, v: v[IN]))
for _q in ('Increment', 'Decrement'):
    data(_q, [(VARN, None)], lambda c, v, q=_q: z3.Function('any.can_' + q, any_sort(c), Bool)(v[VARN]),
         writes(VARN, lambda c, v, q=_q: z3.Function('any.' + q, any_sort(c), any_sort(c))(v[VARN])))
data('Equals', [(LEFT, None), (RIGHT, None)], lambda c, v: dep(c, 'AnyValue::operator==', Bool, v[LEFT], v[RIGHT]))
for _q, _r in (('LessThan', ('Less',)), ('LessThanOrEqual', ('Less', 'Equivalent')), ('GreaterThan', ('Greater',)), ('GreaterThanOrEqual', ('Greater', 'Equivalent'))):
    data(_q, [(LEFT, None), (RIGHT, None)], lambda c, v, r=_r: z3.Or(*[dep(c, 'Compare', Int, v[LEFT], v[RIGHT]) == c.enum(D + 'CompareResult::' + x) for x in r]))


def element_fits(c, v):
    o, i = v[OUT], v[IN]
    T = c.S.opq(D + 'AnyType')
    et = dep(c, 'AnyType::ElementType', T, dep(c, 'AnyValue::GetType', T, o))
    return z3.And(is_array(c, o), dep(c, 'AnyType::operator==', Bool, et, dep(c, 'AnyValue::GetType', T, i)), may_add(c, o, i))


data('AddElement', [(IN, None), (OUT, None)], element_fits, writes(OUT, lambda c, v: added(c, v[OUT], v[IN])))


def member_text(c):
    return dep(c, 'attribute_text', c.S.Str, c.this, c.str('memberName'))


def member_fits(c, v):
    S, o, i = c.S, v[OUT], v[IN]
    name = member_text(c)
    names = dep(c, 'AnyValue::MemberNames', S.seq(S.Str), o)
    j = z3.Int('mj')
    listed = z3.Exists([j], z3.And(rng(S, names, j), S.at(names, j) == name))
    return z3.And(name != c.str(''), dep(c, 'IsStructValue', Bool, o), z3.Not(listed), may_add(c, o, name, i))


data('AddMember', [(IN, None), (OUT, None)], member_fits, writes(OUT, lambda c, v: added(c, v[OUT], member_text(c), v[IN])))
data('Output', [('fromVar', None), ('description', STRING)], None,
     lambda c, v, ui, ws: (PUT, ui, [v['fromVar'], v['description']], True), absent={'description': lambda c: c.str('')})
data('Message', [('text', STRING)], None, lambda c, v, ui, ws: (SAY, ui, [v['text']], False), absent={'text': lambda c: c.str('')})
data('VarExistsInstruction', [(VARN, None)])
data('Condition', [(VARN, 'bool')], lambda c, v: v[VARN], absent={VARN: lambda c: z3.BoolVal(False)})
data('CopyFromProcedureInstruction', [(IN, None)], act=writes(OUT, lambda c, v: v[IN]),
     ws_of=lambda c, ws: (c.old[N + 'CopyFromProcedureInstruction::m_workspace'], ws))
data('CopyToProcedureInstruction', [(IN, None)], act=writes(OUT, lambda c, v: v[IN]),
     ws_of=lambda c, ws: (ws, c.old[N + 'CopyToProcedureInstruction::m_workspace']))


@contract(N + 'ResetVariable::ExecuteSingleImpl', props=['C29'], modifies=['trace'])
def reset_variable(c):
    ws = c.old.arg(1)
    name = dep(c, 'attribute_text', c.S.Str, c.this, c.str(VARN))
    S, F = c.enum(N + 'ExecutionStatus::SUCCESS'), c.enum(N + 'ExecutionStatus::FAILURE')

    def exact():
        ev = events(c)
        if not ev:
            return z3.And(c.result == F, z3.Not(dep(c, 'has_variable', Bool, ws, name)))
        if [e['tag'] for k, e in ev] != [RESETV]:
            return z3.BoolVal(False)
        e = ev[0][1]
        return z3.And(e['obj'] == ws, e['vals'][0] == name, c.result == z3.If(e['ret'], S, F))
    c.ensures('resets exactly the variable it names, and succeeds exactly when that does', exact)
