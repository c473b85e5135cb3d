"""Contracts of timeouts and timed instructions (C25).

The clock is an event with its own reading every time (any value below 2^63 nanoseconds: year 2262): nothing is assumed about how it
moves.  The deadline is kept in a signed member and compared with the clock as unsigned numbers, as the code does.
"""
import z3

from contracts.core import N
from contracts.dto import any_sort, dep, is_empty
from contracts.instr import has_attr, loads, st
from engine.verify import ENTITIES, contract, forall

Int = z3.IntSort()
Bool = z3.BoolSort()
F64 = z3.Float64()
CLOCK, SLEEP, WARN, LOADED = range(170, 174)
UT = N + 'instruction_utils::'
PROC, WS, VAR = N + 'Procedure', N + 'Workspace', N + 'Variable'
ENTITIES |= {PROC, WS, VAR}
MAXSEC = 9.2e9
TIMEOUT, BLOCKING, EQUALS, VARTYPE, VARNAME = 'timeout', 'blocking', 'equalsVar', 'varType', 'varName'


def U(x):
    return z3.If(x < 0, x + (1 << 64), x)


def acceptable(x):
    """a number from zero to the documented maximum"""
    return z3.And(z3.fpGEQ(x, z3.FPVal(0.0, F64)), z3.fpLEQ(x, z3.FPVal(MAXSEC, F64)))


def nanoseconds(x):
    """seconds times 1e9 (as the double nearest to the product), rounded to the nearest whole number"""
    return z3.Function('whole:' + str(F64), F64, Int)(rounded(x))


def rounded(x):
    return z3.fpRoundToIntegral(z3.RNA(), z3.fpMul(z3.RNE(), x, z3.FPVal(1e9, F64)))


@contract(N + 'utils::GetNanosecsSinceEpoch', abstract=True, first=True)
def clock(c):
    c.emit(CLOCK)
    t = z3.Function('clock', Int, Int)(c.S.slen(c.old.trace))
    c.assume(z3.And(0 <= t, t < (1 << 63)))
    c.returns(t)


@contract('std::this_thread::sleep_for', abstract=True)
def sleep_for(c):
    c.emit(SLEEP)


for _q in ('LogError', 'LogWarning', 'LogInfo', 'LogMessage'):
    @contract(N + _q, abstract=True, first=True)
    def log_call(c):
        c.emit(WARN)


# ---------------------------------------------------------------- conversion
@contract(UT + 'ConvertToTimeoutNanoseconds', props=['C25'], modifies=['arg:1'])
def convert(c):
    x, out = c.old.arg(0), c.old.arg(1)
    ok = acceptable(x)
    c.ensures('accepts exactly a number from zero to the maximum', lambda: c.result == ok)
    c.ensures('the nearest number of nanoseconds', lambda: z3.Implies(ok, c.new.arg(1) == nanoseconds(x)))
    c.ensures('a refused value changes nothing', lambda: z3.Implies(z3.Not(ok), c.new.arg(1) == out))
    r = rounded(x)
    for a, b in ((z3.fpGEQ(r, z3.FPVal(0.0, F64)), nanoseconds(x) >= 0), (z3.fpLEQ(r, z3.FPVal(9.2e18, F64)), nanoseconds(x) <= 9200000000000000000)):
        c.assume(z3.Implies(a, b))      # lemma: the real value of a double is monotone
    c.ensures('never negative', lambda: z3.Implies(ok, z3.And(0 <= c.new.arg(1), c.new.arg(1) <= 9200000000000000000)))


def timeout_of(c, i):
    """(there is one, it can be read, its value): the timeout attribute of an instruction"""
    name = c.str(TIMEOUT)
    return attr3(c, i, name, F64)


def attr3(c, i, name, sort):
    return (z3.Function('has_attribute', Int, c.S.Str, Bool)(i, name),
            z3.Function('attribute_read:' + sort.name(), Int, c.S.Str, Bool)(i, name),
            z3.Function('attribute_value:' + sort.name(), Int, c.S.Str, sort)(i, name))


@contract(UT + 'GetVariableTimeoutAttribute', props=['C25'], modifies=['arg:4', 'trace'])
def timeout_attribute(c):
    name, out = c.old.arg(3), c.old.arg(4)
    has, ok, x = attr3(c, c.old.arg(0), name, F64)
    good = z3.And(ok, acceptable(x))
    c.ensures('fails exactly when the timeout cannot be read or is refused', lambda: c.result == z3.Or(z3.Not(has), good))
    c.ensures('delivers the converted timeout, or leaves the previous value', lambda: c.new.arg(4) == z3.If(z3.And(has, good), nanoseconds(x), out))
    c.ensures('a timeout lies within the limits', lambda: z3.Implies(z3.And(has, good), z3.And(0 <= nanoseconds(x), nanoseconds(x) <= 9200000000000000000)))


# ---------------------------------------------------------------- procedure attributes
@contract(PROC + '::HasAttribute', abstract=True, first=True)
def p_has(c):
    c.returns(z3.Function('has_attribute', Int, c.S.Str, Bool)(c.this, c.old.arg(0)))


@contract(PROC + '::GetAttributeValue', abstract=True, nparams=1)
def p_value(c):
    has, ok, x = attr3(c, c.this, c.old.arg(0), F64)
    c.throws(N + 'RuntimeException', z3.Not(z3.And(has, ok)))
    c.ensures('its value', lambda: c.result == x)


for _q, _n, _d in (('TickTimeoutNs', 'tickTimeout', 100000000), ('TimingAccuracyNs', 'timingAccuracy', 50000000)):
    @contract(N + _q, props=['C25'])
    def procedure_time(c, _n=_n, _d=_d):
        has, ok, x = attr3(c, c.old.arg(0), c.str(_n), F64)
        c.throws(N + 'RuntimeException', z3.And(has, z3.Not(ok)), 'refuses exactly a value that cannot be read')
        r = z3.If(z3.And(has, acceptable(x)), nanoseconds(x), _d)
        c.ensures('the converted attribute, or the default if it is absent or out of range', lambda: c.result == r)


# ---------------------------------------------------------------- the instructions
def readings(c):
    return [e['ret'] for e in c.rawlog if e['tag'] == CLOCK]


def sets_deadline(c, W, more=None):
    """after a successful start the deadline is the clock reading plus the timeout"""
    has, ok, x = timeout_of(c, c.this)
    fine = z3.Or(z3.Not(has), z3.And(ok, acceptable(x)))
    t = z3.If(has, nanoseconds(x), 0)
    c.ensures('starts exactly when its attributes can be used', lambda: c.result == (fine if more is None else z3.And(more, fine)))

    def deadline():
        rs = readings(c)
        return z3.Implies(c.result, z3.BoolVal(False) if len(rs) != 1 else U(c.new[W + '::m_finish']) == rs[0] + t)
    c.ensures('the deadline is the clock now plus the timeout', deadline)


def ends(c, W, done=None):
    """the result of one tick, for a deadline and the condition that ends it (none: the deadline does)"""
    f = c.old[W + '::m_finish']
    c.assume(z3.And(-(1 << 63) <= f, f < (1 << 63)))
    finish = U(f)
    run, ok, bad = st(c, 'RUNNING'), st(c, 'SUCCESS'), st(c, 'FAILURE')
    c.ensures('is running or finished', lambda: z3.Or(c.result == run, c.result == ok, c.result == bad))
    return finish, run, ok, bad


def some(xs):
    return z3.Or(*xs) if xs else z3.BoolVal(False)


WAIT = N + 'Wait'


@contract(WAIT + '::SetupImpl', props=['C25'], modifies=['this.' + WAIT + '::m_timing_accuracy_ns', 'trace'])
def wait_setup(c):
    has, ok, x = attr3(c, c.old.arg(0), c.str('timingAccuracy'), F64)
    c.throws(N + 'RuntimeException', z3.And(has, z3.Not(ok)), 'refuses exactly a value that cannot be read')
    c.ensures('polls with the timing accuracy of the procedure', lambda: c.new[WAIT + '::m_timing_accuracy_ns'] == z3.If(
        z3.And(has, acceptable(x)), nanoseconds(x), 50000000))


@contract(WAIT + '::InitHook', props=['C25'], modifies=['this.' + WAIT + '::m_finish', 'this.' + WAIT + '::m_blocking', 'trace'])
def wait_init(c):
    has, ok, v = attr3(c, c.this, c.str(BLOCKING), Bool)
    sets_deadline(c, WAIT, z3.Or(z3.Not(has), ok))
    c.ensures('blocks as its attribute says', lambda: z3.Implies(c.result, c.new[WAIT + '::m_blocking'] == z3.If(has, v, c.old[WAIT + '::m_blocking'])))


@contract(WAIT + '::ExecuteSingleImpl', props=['C25'], modifies=['trace'])
def wait_exec(c):
    finish, run, ok, bad = ends(c, WAIT)

    def last():
        rs = readings(c)
        return rs[-1] if rs else None
    c.ensures('never succeeds before the deadline', lambda: z3.Implies(c.result == ok, z3.Or(
        some(loads(c)), z3.BoolVal(False) if last() is None else finish <= last())))
    c.ensures('never goes on after the deadline', lambda: z3.Implies(c.result == run, z3.BoolVal(False) if last() is None else finish > last()))
    c.ensures('a halt request ends it as failure, and nothing else does', lambda: (c.result == bad) == (loads(c)[-1] if loads(c) else z3.BoolVal(False)))
    c.ensures('waits inside the tick only if it is blocking', lambda: z3.Or(c.old[WAIT + '::m_blocking'], z3.BoolVal(
        not [e for e in c.rawlog if e['tag'] in (SLEEP, 0)])))


@contract(WAIT + '::ResetHook', props=['C25'], modifies=['this.' + WAIT + '::m_finish', 'this.' + WAIT + '::m_blocking'])
def wait_reset(c):
    c.ensures('forgets the deadline', lambda: z3.And(c.new[WAIT + '::m_finish'] == 0, z3.Not(c.new[WAIT + '::m_blocking'])))


WV = N + 'WaitForVariable'


def met(c):
    """the variable can be read, is not empty, and equals the other one if there is one"""
    s = any_sort(c)
    val = lambda n: attr3(c, c.this, c.str(n), s)
    has, ok, v = val(VARNAME)
    has2, ok2, w = val(EQUALS)
    none = z3.Const('new:sup::dto::AnyValue', s)
    x = z3.If(z3.And(has, ok), v, none)
    return condition(c, z3.Or(z3.Not(has), ok), x, has2, ok2, w)


def condition(c, ok, x, has2, ok2, w):
    empty = is_empty(c, x)
    return z3.And(ok, z3.Not(empty), z3.Or(z3.Not(has2), z3.And(ok2, dep(c, 'AnyValue::operator==', Bool, x, w))))


@contract(WV + '::SuccessCondition', props=['C25'])
def success_condition(c):
    has2 = has_attr(c, c.str(EQUALS))
    c.ensures('available, not empty, and equal to the other value if one is asked for', lambda: c.result == condition(
        c, c.old.arg(0), c.old.arg(1), has2, c.old.arg(2), c.old.arg(3)))


@contract(WV + '::CheckCondition', props=['C25'], modifies=['trace', 'alloc'])
def check_condition(c):
    c.ensures('says whether the condition holds', lambda: c.result == met(c))


@contract(WV + '::InitHook', props=['C25'], modifies=['this.' + WV + '::m_finish', 'trace'])
def wv_init(c):
    sets_deadline(c, WV)


def ended(c, W, cond, bad_extra=None):
    finish, run, ok, bad = ends(c, W)

    def exact():
        ls, rs = loads(c), readings(c)
        h = ls[-1] if ls else z3.BoolVal(False)
        m = cond()
        out = [z3.Implies(h, c.result == bad), z3.Implies(z3.Not(h), (c.result == ok) == m)]
        if rs:
            out.append(z3.Implies(z3.Not(z3.Or(h, m)), (c.result == run) == (finish > rs[-1])))
        else:
            out.append(z3.Or(h, m))
        return z3.And(*out)
    c.ensures('a halt fails it, its condition ends it with success, the deadline with failure', exact)


@contract(WV + '::ExecuteSingleImpl', props=['C25'], modifies=['trace', 'alloc'])
def wv_exec(c):
    ended(c, WV, lambda: met(c))


@contract(WV + '::ResetHook', props=['C25'], modifies=['this.' + WV + '::m_finish'])
def wv_reset(c):
    c.ensures('forgets the deadline', lambda: c.new[WV + '::m_finish'] == 0)


WVS = N + 'WaitForVariables'
FIN, NAMES = WVS + '::m_finish', WVS + '::m_var_names'


@contract(WS + '::VariableNames', abstract=True, first=True)
def ws_names(c):
    c.returns(names_of(c, c.this))


def names_of(c, ws):
    return z3.Function('variable_names', Int, c.S.seq(c.S.Str))(ws)


def var_of(c, ws, name):
    return z3.Function('variable', Int, c.S.Str, Int)(ws, name)


@contract(WS + '::GetVariable', abstract=True, first=True)
def ws_var(c):
    v = var_of(c, c.this, c.old.arg(0))
    c.assume(v >= 0)
    c.returns(v)


@contract(VAR + '::IsAvailable', abstract=True, first=True)
def v_available(c):
    c.returns(z3.Function('is_available', Int, Bool)(c.this))


@contract(VAR + '::GetType', abstract=True, first=True)
def v_type(c):
    c.returns(z3.Function('variable_type', Int, c.S.Str)(c.this))


def unavailable(c, ws, n):
    v = var_of(c, ws, n)
    return z3.Or(v == 0, z3.Not(z3.Function('is_available', Int, Bool)(v)))


class Filter:
    """the elements of a sequence with a property, in order"""

    def __init__(self, c, seq, keep):
        self.c, self.seq, self.keep = c, seq, keep
        self.g = c.counter(seq, lambda i: keep(c.S.at(seq, i)))
        # lemma (induction): if anything is counted there is a first position that is
        j = z3.FreshInt('first')
        c.assume(forall([Int], lambda k: z3.Implies(z3.And(k >= 0, self.g(k) > 0), z3.And(0 <= j, j < k, keep(c.S.at(seq, j)))), pats=lambda k: self.g(k)))

    def made(self, w, k):
        S = self.c.S
        return [S.slen(w) == self.g(k), forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < k, self.keep(S.at(self.seq, i))),
                S.at(w, self.g(i)) == S.at(self.seq, i)), pats=lambda i: S.at(self.seq, i))]


def filtered(L):
    c = L.c
    f = c.extra.get('filter')
    if L.k is None or f is None:
        return None
    return [x for n, w in L.slots(c.S.seq(c.S.Str)) if n in L.I.loop_havoc for x in f.made(w, L.k)]


@contract('(anonymous namespace)::GetVarNamesOfType', props=['C25'], loops=[filtered])
def names_of_type(c):
    S = c.S
    ws, t = c.old.arg(0), c.old.arg(1)
    seq = names_of(c, ws)
    c.assume(S.slen(seq) >= 0)
    if c.mode == 'check':
        c.requires('every name has its variable', forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < S.slen(seq)),
                   var_of(c, ws, S.at(seq, i)) > 0), pats=lambda i: S.at(seq, i)))
    f = Filter(c, seq, lambda n: z3.Function('variable_type', Int, S.Str)(var_of(c, ws, n)) == t)
    c.extra['filter'] = f
    c.ensures('exactly the names of the variables of that type, in order', lambda: z3.And(*f.made(c.result, S.slen(seq))))


@contract(WVS + '::UnavailableVars', props=['C25'], loops=[filtered])
def unavailable_vars(c):
    S = c.S
    ws, seq = c.old.arg(0), c.old.arg(1)
    f = Filter(c, seq, lambda n: unavailable(c, ws, n))
    c.extra['filter'] = f
    c.ensures('exactly the names without an available variable, in order', lambda: z3.And(*f.made(c.result, S.slen(seq))))


@contract('(anonymous namespace)::ConcatenateVarNames', abstract=True)
def concatenated(c):
    return


@contract(WVS + '::InitHook', props=['C25'], modifies=['this.' + FIN, 'this.' + NAMES, 'trace'])
def wvs_init(c):
    S = c.S
    sets_deadline(c, WVS)
    ws = c.old.arg(1)
    seq = names_of(c, ws)
    t = z3.Function('attribute_string', Int, S.Str, S.Str)(c.this, c.str(VARTYPE))
    f = Filter(c, seq, lambda n: z3.Function('variable_type', Int, S.Str)(var_of(c, ws, n)) == t)
    c.ensures('waits for exactly the variables of its type', lambda: z3.Implies(c.result, z3.And(*f.made(c.new[NAMES], S.slen(seq)))))


@contract(WVS + '::ExecuteSingleImpl', props=['C25'], modifies=['trace', 'alloc'])
def wvs_exec(c):
    S = c.S
    ws, seq = c.old.arg(1), c.old[NAMES]
    c.assume(S.slen(seq) >= 0)
    ended(c, WVS, lambda: forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < S.slen(seq)), z3.Not(unavailable(c, ws, S.at(seq, i)))), pats=lambda i: S.at(seq, i)))


@contract(WVS + '::ResetHook', props=['C25'], modifies=['this.' + FIN, 'this.' + NAMES])
def wvs_reset(c):
    c.ensures('forgets the deadline and the names', lambda: z3.And(c.new[FIN] == 0, c.S.slen(c.new[NAMES]) == 0))
