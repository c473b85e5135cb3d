"""Contracts of variables (C18)."""
import z3

from contracts.attrs import AHI, AS, VAR, DP, HIMPL, handler_failures, rng, self_new, text_of, validator, DEFS
from contracts.core import N, params_are
from contracts.dto import any_sort, assigned, dep, field, has_field, is_empty
from engine.verify import CALL, ENTITIES, MONITORS, contract, forall

Int = z3.IntSort()
ENTITIES |= {VAR}
LOCAL, FILE = N + 'LocalVariable', N + 'FileVariable'
ENTITIES |= {LOCAL, FILE, N + 'Workspace'}
OK, CB = VAR + '::m_setup_successful', VAR + '::m_notify_cb'
AT = N + 'SetupTeardownActions'
VGET, VSET, VAVAIL, VSETUP, VTEAR, VNOTIFY, SHUT, OPEN = range(130, 138)
MONITORS[VAR] = [{'cls': VAR, 'mutex': 'm_access_mutex', 'only': ['m_setup_successful']},
                 {'cls': VAR, 'mutex': 'm_notify_mutex', 'only': ['m_notify_cb']}]


def now(c, name, ret, *a):
    """what the hook called at this point of the history answers"""
    return z3.Function(name, Int, Int, *[x.sort() for x in a], ret)(c.S.slen(c.old.trace), c.this, *a)


@contract(VAR + '::GetValueImpl', abstract=True, nparams=1, virtual=True)
def get_impl(c):
    c.modifies('arg:0')
    c.emit(VGET, obj=c.this)
    ok, v = now(c, 'hook_get_ok', z3.BoolSort()), now(c, 'hook_get_value', any_sort(c))
    c.ensures('reads', lambda: z3.And(c.result == ok, z3.Implies(ok, c.new.arg(0) == v)))


@contract(VAR + '::SetValueImpl', abstract=True, nparams=1, virtual=True)
def set_impl(c):
    c.emit(VSET, obj=c.this, args=[c.old.arg(0)])
    c.returns(now(c, 'hook_set_ok', z3.BoolSort()))


@contract(VAR + '::IsAvailableImpl', abstract=True, nparams=0, virtual=True)
def avail_impl(c):
    c.emit(VAVAIL, obj=c.this)
    c.returns(now(c, 'hook_available', z3.BoolSort()))


@contract(VAR + '::SetupImpl', abstract=True, nparams=1, virtual=True)
def setup_impl(c):
    c.emit(VSETUP, obj=c.this)
    c.may_throw('unknown exception')
    c.returns(now(c, 'hook_setup', c.S.sort(AT)))


@contract(VAR + '::TeardownImpl', abstract=True, nparams=0, virtual=True)
def tear_impl(c):
    c.emit(VTEAR, obj=c.this)


def tags(c):
    return [e['tag'] for e in c.log]


def guarded(c, *tags):
    """all these calls were made while holding the variable, in one go"""
    mtx = c.V.fkey(VAR, 'm_access_mutex')
    held = {e['held'].get(mtx) for e in c.log if e['tag'] in tags}
    return None not in held and len(held) <= 1


def one_go(c, *t):
    if c.mode == 'check':
        c.ensures('one operation under the lock of the variable', lambda: z3.BoolVal(guarded(c, *t)), on='both')


@contract(VAR + '::GetValue', props=['C18'], modifies=['trace', 'arg:0'], nparams=2)
def get_value(c):
    S, f, out = c.S, c.old.arg(1), c.old.arg(0)
    if c.mode == 'call':
        return
    one_go(c, VGET)

    def exact():
        ready = c.acq[OK]
        if tags(c) == []:
            return z3.And(z3.Not(ready), z3.Not(c.result), c.new.arg(0) == out)
        if tags(c) != [VGET]:
            return z3.BoolVal(False)
        e = c.log[0]
        v = z3.Function('hook_get_value', Int, Int, any_sort(c))(S.slen(c.old.trace), c.this)
        src = z3.If(f == c.str(''), v, field(c, v, f))
        ok, x = assigned(c, out, src, 'converted')
        ok = z3.And(e['ret'], z3.Or(f == c.str(''), has_field(c, v, f)), ok)
        return z3.And(ready, e['obj'] == c.this, c.result == ok, c.new.arg(0) == z3.If(ok, x, out))
    c.ensures('reads the value or the field once, if set up; every failure leaves the output', exact)


@contract(VAR + '::SetValue', props=['C18'], modifies=['trace'], nparams=2)
def set_value(c):
    S, f, x = c.S, c.old.arg(1), c.old.arg(0)
    if c.mode == 'call':
        return
    one_go(c, VGET, VSET)

    def exact():
        ready, t = c.acq[OK], tags(c)
        if t == []:
            return z3.And(z3.Not(ready), z3.Not(c.result))
        whole = f == c.str('')
        if t == [VSET]:
            e = c.log[0]
            return z3.And(ready, whole, e['args'][0] == x, e['obj'] == c.this, c.result == e['ret'])
        if t not in ([VGET], [VGET, VSET]):
            return z3.BoolVal(False)
        v = z3.Function('hook_get_value', Int, Int, any_sort(c))(S.slen(c.old.trace), c.this)
        ok, part = assigned(c, field(c, v, f), x)
        possible = z3.And(c.log[0]['ret'], has_field(c, v, f), ok)
        base = z3.And(ready, z3.Not(whole), *[e['obj'] == c.this for e in c.log])
        if t == [VGET]:
            return z3.And(base, z3.Not(possible), z3.Not(c.result))
        new = z3.Function('any.with_field', v.sort(), S.Str, v.sort(), v.sort())(v, f, part)
        return z3.And(base, possible, c.log[1]['args'][0] == new, c.result == c.log[1]['ret'])
    c.ensures('writes the value, or the value with only that field changed, once, if set up', exact)


@contract(VAR + '::IsAvailable', props=['C18'], modifies=['trace'])
def available(c):
    if c.mode == 'call':
        return
    one_go(c, VAVAIL)

    def exact():
        if tags(c) == []:
            return z3.And(z3.Not(c.acq[OK]), z3.Not(c.result))
        return z3.And(tags(c) == [VAVAIL], c.acq[OK], c.log[0]['obj'] == c.this, c.result == c.log[0]['ret'])
    c.ensures('asks the variable once, if set up', exact)


@contract(VAR + '::Setup', props=['C18', 'C15'], nparams=1, modifies=['this.' + OK, 'alloc', 'trace', 'heap:' + AHI + '::failed_constraints'])
def setup(c):
    F = VAR + '::m_attribute_handler'
    h = c.old[F]
    n = handler_failures(c, h)
    c.requires('has its validator', c.S.getf(h, N + 'AttributeHandler::m_impl') > 0)
    c.throws(N + 'VariableSetupException', n != 0, 'refuses exactly attributes that do not validate')
    c.may_throw('unknown exception')
    if c.mode == 'call':
        c.emit(OPEN, obj=c.this)
        return
    one_go(c, VSETUP)
    c.ensures('exactly an object whose attributes validate goes on to its own setup', lambda: z3.BoolVal(tags(c) == [VSETUP]) == (n == 0), on='both')
    c.ensures('is set up afterwards', lambda: z3.And(c.rel[OK], c.result == c.log[0]['ret']))
    c.ensures('a failed setup does not count as set up', lambda: c.rel[OK] == c.acq[OK], on='throw')


@contract(VAR + '::Teardown', props=['C18'], nparams=0, modifies=['this.' + OK, 'trace', 'heap:' + AHI + '::failed_constraints'])
def teardown(c):
    c.requires('has its validator', c.S.getf(c.old[VAR + '::m_attribute_handler'], N + 'AttributeHandler::m_impl') > 0)
    if c.mode == 'call':
        c.emit(SHUT, obj=c.this)
        return
    one_go(c, VTEAR)
    c.ensures('is torn down once and not set up afterwards', lambda: z3.And(
        z3.BoolVal(tags(c) == [VTEAR]), z3.Not(c.rel[OK]), c.log[0]['obj'] == c.this))


@contract(VAR + '::ResetImpl', props=['C18'], nparams=1, modifies=['this.' + OK, 'alloc', 'trace', 'heap:' + AHI + '::failed_constraints'])
def reset_impl(c):
    c.requires('has its validator', c.S.getf(c.old[VAR + '::m_attribute_handler'], N + 'AttributeHandler::m_impl') > 0)
    c.may_throw('unknown exception')
    c.may_throw(N + 'VariableSetupException')
    if c.mode == 'check':
        c.ensures('is torn down, then set up', lambda: z3.BoolVal(tags(c) == [SHUT, OPEN]), on='both')


@contract(VAR + '::SetNotifyCallback', props=['C18'], nparams=1, modifies=['this.' + CB])
def set_cb(c):
    c.ensures('keeps the function given', lambda: c.rel[CB] == c.old.arg(0))


@contract(VAR + '::Notify', props=['C18'], nparams=2, modifies=['trace'])
def notify(c):
    if c.mode == 'call':
        c.emit(VNOTIFY, obj=c.this, args=[c.old.arg(0), c.old.arg(1)])
        return

    def exact():
        fn, t = c.acq[CB], c.log
        if not t:
            return fn == c.S.nullFn
        return z3.And(z3.BoolVal([e['tag'] for e in t] == [CALL]), t[0]['fn'] == fn, t[0]['vals'][0] == c.old.arg(0), t[0]['vals'][1] == c.old.arg(1))
    c.ensures('tells the listener, if there is one, exactly once', exact)


# ---------------------------------------------------------------- kinds of variables
LV_ = LOCAL + '::m_value'
UTIL = N + 'attribute_utils::'


@contract(LOCAL + '::IsDynamicallyTyped', abstract=True)
def dynamic(c):
    c.returns(dep(c, 'dynamically_typed', z3.BoolSort(), c.this))


@contract(LOCAL + '::GetValueImpl', props=['C18'], modifies=['arg:0'])
def l_get(c):
    v, out = c.old[LV_], c.old.arg(0)
    ok, x = assigned(c, out, v)
    ok = z3.And(z3.Not(is_empty(c, v)), ok)
    c.ensures('reads its value, if it has one, or leaves the output', lambda: z3.And(c.result == ok, c.new.arg(0) == z3.If(ok, x, out)))


def told(c, value, connected):
    """exactly one notification, with this value"""
    t = c.log
    if [e['tag'] for e in t] != [VNOTIFY]:
        return z3.BoolVal(False)
    return z3.And(t[0]['obj'] == c.this, t[0]['vals'][0] == value, t[0]['vals'][1] == connected)


@contract(LOCAL + '::SetValueImpl', props=['C18'], modifies=['this.' + LV_, 'trace'])
def l_set(c):
    v, x = c.old[LV_], c.old.arg(0)
    dyn = dep(c, 'dynamically_typed', z3.BoolSort(), c.this)
    ok1, r1 = assigned(c, v, x)
    ok2, r2 = assigned(c, v, x, 'converted')
    ok = z3.If(dyn, ok1, ok2)
    if c.mode == 'check':
        c.ensures('keeps the value written, or changes nothing', lambda: z3.And(
            c.result == ok, c.new[LV_] == z3.If(ok, z3.If(dyn, r1, r2), v)))
        c.ensures('tells of exactly each successful write, once, the value written', lambda: z3.If(
            ok, told(c, x, True), z3.BoolVal(tags(c) == [])))


@contract(N + 'ParseAnyValueAttributePair', abstract=True)
def parse_pair(c):
    c.may_throw('unknown exception')
    c.returns(dep(c, 'declared_value', any_sort(c), c.S.slen(c.old.trace)))


@contract(LOCAL + '::SetupImpl', props=['C18'], modifies=['this.' + LV_, 'trace', 'alloc'])
def l_setup(c):
    c.may_throw('unknown exception')
    if c.mode == 'check':
        c.ensures('starts with the declared value', lambda: c.new[LV_] == dep(c, 'declared_value', any_sort(c), c.S.slen(c.old.trace)))
        c.ensures('tells of its first value once', lambda: told(c, c.new[LV_], True))
        c.ensures('a failure tells nothing', lambda: z3.BoolVal(tags(c) == []), on='throw')


@contract(LOCAL + '::TeardownImpl', props=['C18'], modifies=['this.' + LV_])
def l_tear(c):
    is_empty(c, c.old[LV_])
    c.ensures('forgets the value', lambda: is_empty(c, c.new[LV_]))


@contract(N + 'Workspace::GetTypeRegistry', abstract=True)
def type_registry(c):
    return


# ---------------------------------------------------------------- a variable kept in a file
PARSER = 'sup::dto::JSONAnyValueParser'
VREAD, VWRITE = 138, 139


@contract(PARSER + '::ParseFile', abstract=True, modifies=['this'])
def parse_file(c):
    """what the file holds at this moment"""
    c.emit(VREAD, args=[c.old.arg(0)])
    c.returns(z3.Function('file_ok', Int, z3.BoolSort())(c.S.slen(c.old.trace)))
    c.ensures('remembers', lambda: self_new(c) == z3.Function('file_state', Int, self_new(c).sort())(c.S.slen(c.old.trace)))


@contract('sup::dto::AnyValueToJSONFile', abstract=True)
def to_file(c):
    c.emit(VWRITE, args=[c.old.arg(0), c.old.arg(1)])
    c.may_throw('sup::dto::SerializeException')


@contract(N + 'GetFullPathName', abstract=True, nparams=2)
def full_path(c):
    c.returns(dep(c, 'full_path', c.S.Str, c.old.arg(0), c.old.arg(1)))


@contract(N + 'GetFileDirectory', abstract=True, nparams=1)
def file_directory(c):
    c.returns(dep(c, 'directory', c.S.Str, c.old.arg(0)))


@contract(N + 'Workspace::GetFilename', abstract=True)
def ws_filename(c):
    c.returns(dep(c, 'ws_filename', c.S.Str, c.this))


def attr_of(c, name):
    """the text of that attribute: the value an earlier look found"""
    return text_of(c, c.S.getf(c.old[VAR + '::m_attribute_handler'], AS), name)


def path_of(c, base):
    """the full path named by the attribute of this variable"""
    f = attr_of(c, c.str('file'))
    return dep(c, 'full_path', c.S.Str, base, f)


BASE = FILE + '::m_workspace_path'


def content(c, at=0):
    """what the file answers to the first look of this call: (readable, value)"""
    n = c.S.slen(c.old.trace) + at
    st = c.S.opq(PARSER)
    return (z3.Function('file_ok', Int, z3.BoolSort())(n),
            z3.Function('json_result', st, any_sort(c))(z3.Function('file_state', Int, st)(n)))


def looked(c, base, rest=()):
    """one look at the file of this variable, then these"""
    if tags(c) != [VREAD] + list(rest):
        return z3.BoolVal(False)
    return c.log[0]['vals'][0] == path_of(c, base)


@contract(FILE + '::GetValueImpl', props=['C18'], modifies=['arg:0', 'alloc', 'trace'])
def f_get(c):
    if c.mode == 'call':
        return
    ok, v = content(c)
    out = c.old.arg(0)
    can, x = assigned(c, out, v)
    ok = z3.And(ok, can)
    c.ensures('reads the file once; a failure leaves the output', lambda: z3.And(
        looked(c, c.old[BASE]), c.result == ok, c.new.arg(0) == z3.If(ok, x, out)))


@contract(FILE + '::IsAvailableImpl', props=['C18'], modifies=['trace'])
def f_avail(c):
    if c.mode == 'check':
        c.ensures('is available when its file can be read', lambda: z3.And(looked(c, c.old[BASE]), c.result == content(c)[0]))


@contract(FILE + '::SetupImpl', props=['C18'], modifies=['this.' + BASE, 'alloc', 'trace'])
def f_setup(c):
    if c.mode == 'call':
        return
    ok, v = content(c)
    is_empty(c, v)

    def exact():
        if tags(c) != [VREAD, VNOTIFY]:
            return z3.BoolVal(False)
        e = c.log[1]
        return z3.And(looked(c, c.new[BASE], [VNOTIFY]), e['obj'] == c.this, e['vals'][1] == ok, z3.Or(
            z3.And(ok, e['vals'][0] == v), z3.And(z3.Not(ok), is_empty(c, e['vals'][0]))))
    c.ensures('tells once what the file holds', exact)
    c.ensures('looks for its file beside the procedure', lambda: c.new[BASE] == dep(c, 'directory', c.S.Str, dep(c, 'ws_filename', c.S.Str, c.old.arg(0))))


def well_formed(c):
    h = c.old[VAR + '::m_attribute_handler']
    S = c.S
    c.requires('has its validator', S.getf(h, HIMPL) > 0)
    D = S.getf(validator(c, c.old, h), DEFS)
    c.requires('definitions carry their properties', forall([Int], lambda i: z3.Implies(rng(S, D, i), S.getf(S.at(D, i), DP) > 0), pats=lambda i: S.at(D, i)))


@contract(FILE + '::SetValueImpl', props=['C18'], modifies=['trace'])
def f_set(c):
    well_formed(c)
    if c.mode == 'call':
        return

    def exact():
        t = tags(c)
        if t == []:
            return z3.Not(c.result)
        e = c.log[0]
        wrote = z3.And(e['vals'][0] == c.old.arg(0), e['vals'][1] == path_of(c, c.old[BASE])) if t[0] == VWRITE else z3.BoolVal(False)
        if t == [VWRITE]:
            return z3.And(wrote, z3.Not(c.result))
        if t != [VWRITE, VNOTIFY]:
            return z3.BoolVal(False)
        e = c.log[1]
        return z3.And(wrote, c.result, e['obj'] == c.this, e['vals'][0] == c.old.arg(0), e['vals'][1] == z3.BoolVal(True))
    c.ensures('writes the value given to its file; tells of exactly each successful write once', exact)
