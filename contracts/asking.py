"""Contracts of the instructions that ask the user (C24): one request per run, its reply decides, and a halt ends it.

The pending request is the member m_future, which the executing and the halting thread share under m_future_mutex: nothing is known
about it between critical sections, so every statement is about the request that was there inside one.
"""
import z3

from contracts.core import N
from contracts.dto import any_sort, self_value
from contracts.instr import (CALLS, HALTF, TICK, WRITE, attr_value, calls_so_far, counted, has_attr, heapinv, kids_of, loads, one_call, ready,
                             self_kept, setup_kids, st, status)
from engine.verify import ENTITIES, MONITORS, contract, forall

Int, Bool = z3.IntSort(), z3.BoolSort()
FU = N + 'IUserInputFuture'
INP, CHO, CON = N + 'Input', N + 'UserChoice', N + 'UserConfirmation'
REPLY = N + 'UserInputReply'
ASKVALUE, ASKCHOICE, POLL, TAKE, VALID, REQUEST, WAITF = range(210, 217)
for _c in (INP, CHO, CON):
    MONITORS[_c] = {'cls': _c, 'mutex': 'm_future_mutex', 'only': ['m_future'], 'shared_at_end': True}


def here(c):
    return c.S.slen(c.old.trace)


# ---------------------------------------------------------------- collaborators
@contract(FU + '::IsReady', abstract=True, nparams=0, virtual=True)
def is_ready(c):
    c.emit(POLL, obj=c.this)
    c.returns(z3.Function('reply_ready', Int, Int, Bool)(here(c), c.this))


@contract(FU + '::IsValid', abstract=True, nparams=0, virtual=True)
def is_valid(c):
    c.emit(VALID, obj=c.this)
    c.returns(z3.Function('request_valid', Int, Int, Bool)(here(c), c.this))


@contract(FU + '::GetValue', abstract=True, nparams=0, virtual=True)
def take(c):
    """a reply that is not there is an error"""
    c.may_throw(N + 'InvalidOperationException')
    c.emit(TAKE, obj=c.this)
    c.count('takes', c.this)
    c.returns(reply_of(c, here(c), c.this))


def reply_of(c, k, f):
    return z3.Function('reply_taken', Int, Int, c.S.sort(REPLY))(k, f)


def parsed(c, kind, r):
    """(ok, what it holds) of a reply; both conversions are verified by C23"""
    s = any_sort(c) if kind == 'value' else Int
    return z3.Function('reply_good_' + kind, r.sort(), Bool)(r), z3.Function('reply_' + kind, r.sort(), s)(r)


for _q, _k in (('ParseUserValueReply', 'value'), ('ParseUserChoiceReply', 'choice')):
    @contract(N + _q, abstract=True)
    def parse(c, _k=_k):
        ok, v = parsed(c, _k, c.old.arg(0))
        if _k == 'choice':
            c.assume(z3.And(-(1 << 31) <= v, v < (1 << 31)))
        c.ensures('reads the reply', lambda: z3.And(c.S.get(c.result, 0) == ok, z3.Implies(ok, c.S.get(c.result, 1) == v)))


def member_of(c, v, n):
    return z3.Function('any.field', v.sort(), c.S.Str, v.sort())(v, n)


@contract(N + 'CreateUserChoiceMetadata', abstract=True)
def metadata(c):
    return


@contract('sup::dto::AnyValue::AddMember', abstract=True, nparams=2, modifies=['this'], first=True)
def add_member(c):
    v, n, x = self_value(c), c.old.arg(0), c.old.arg(1)

    def done():
        w, k = c.new.val(c.this.lv), z3.Const('mk', c.S.Str)
        return z3.And(member_of(c, w, n) == x, z3.ForAll([k], z3.Implies(k != n, member_of(c, w, k) == member_of(c, v, k)),
                                                         patterns=[member_of(c, w, k)]))
    c.ensures('adds it', done)


# ---------------------------------------------------------------- making a request
def deleted(c, view, f):
    return z3.Select(view.ghost('deleted'), f)


for _q, _t in (('CreateUserValueFuture', ASKVALUE), ('CreateUserChoiceFuture', ASKCHOICE)):
    @contract(N + _q, props=['C24'], modifies=['trace', 'alloc', 'deleted'], track_delete=True)
    def ask(c, _t=_t):
        if c.mode == 'call':
            c.emit(_t, obj=c.args[1], args=[c.old.arg(2), c.old.arg(3)])
            c.ensures('a request or nothing', lambda: c.result >= 0)
            return

        def exact():
            ev = [e for e in c.log if e['tag'] in (REQUEST, VALID)]
            if [e['tag'] for e in ev] != [REQUEST, VALID]:
                return z3.BoolVal(False)
            f = ev[0]['ret']
            return z3.And(ev[1]['obj'] == f, c.result == z3.If(ev[1]['ret'], f, 0),
                          z3.Implies(z3.Not(ev[1]['ret']), deleted(c, c.new, f)))
        c.ensures('asks the user interface once and keeps the request only if it is valid', exact)


@contract(N + 'UserInterface::RequestUserInput', abstract=True, nparams=1, virtual=True)
def request(c):
    """assumed: an interface hands out a future, never a null pointer (IUserInputFuture has IsValid for refusals)"""
    c.emit(REQUEST, obj=c.this, args=[c.old.arg(0)])
    c.ensures('a future', lambda: c.result > 0)


for _q in ('CreateUserValueRequest', 'CreateUserChoiceRequest'):
    @contract(N + _q, abstract=True)
    def make_request(c):
        return


@contract(FU + '::WaitFor', abstract=True, nparams=1, virtual=True)
def wait_for(c):
    c.emit(WAITF, obj=c.this)
    c.returns(z3.Function('waited', Int, Int, Bool)(here(c), c.this))


def same_takes(L):
    return L.cur.ghost('takes') == L.entry.ghost('takes')


for _q, _k in (('GetBlockingUserValue', 'value'), ('GetBlockingUserChoice', 'choice'), ('GetInterruptableUserChoice', 'choice')):
    @contract(N + _q, props=['C24'], modifies=['trace', 'takes', 'alloc', 'deleted', 'heap:' + HALTF], track_delete=True, peel=False, loops=[same_takes])
    def blocking(c, _k=_k):
        c.may_throw(N + 'InvalidOperationException')

        def exact():
            ev = [e for e in c.rawlog if e['tag'] in (REQUEST, VALID, WAITF, TAKE)]
            took = [e for e in ev if e['tag'] == TAKE]
            ok, v = c.S.get(c.result, 0), c.S.get(c.result, 1)
            if [e['tag'] for e in ev[:2]] != [REQUEST, VALID]:
                return z3.BoolVal(False)
            f, valid = ev[0]['ret'], ev[1]['ret']
            if not took:
                gone = z3.Or(z3.Not(valid), *loads(c)[-1:])
                return z3.And(ev[1]['obj'] == f, gone, z3.Not(ok), c.new.ghost('takes') == c.old.ghost('takes'))
            if len(took) != 1 or ev[-1] is not took[0]:
                return z3.BoolVal(False)
            w = ev[-2]    # a halt that was seen and then taken back by a reset also ends the wait: GetValue then refuses
            there = z3.And(w['obj'] == f, w['ret']) if w['tag'] == WAITF else z3.BoolVal(False)
            good, x = parsed(c, _k, took[0]['ret'])
            return z3.And(ev[1]['obj'] == f, valid, z3.Or(there, *loads(c)[:-1]), *[z3.Not(x) for x in loads(c)[-1:]], took[0]['obj'] == f, one_call(c, 'takes', f, z3.BoolVal(True)),
                          ok == good, z3.Implies(good, v == x))
        c.ensures('one request, whose reply is taken once when it is there; a refusal fails', exact)
        c.ensures('its request is gone afterwards', lambda: z3.And(*[deleted(c, c.new, e['ret']) for e in c.rawlog if e['tag'] == REQUEST]), on='both')


# ---------------------------------------------------------------- the three instructions
def string(c, name, default=None):
    """(usable, text) of an attribute read as a string"""
    n = c.str(name)
    ok, v = attr_value(c, n, c.S.Str)
    h = has_attr(c, n)
    return z3.Or(z3.Not(h), ok), z3.If(h, v, default if default is not None else c.str(''))


def starts(c, cls, tag, usable, request):
    """InitHook: one request with what the attributes say, kept as the pending one"""
    fut = cls + '::m_future'

    def exact():
        asked = c.logged(ASKVALUE, ASKCHOICE)
        if not asked:
            return z3.And(z3.Not(usable), z3.Not(c.result))
        if len(asked) != 1 or asked[0]['tag'] != tag:
            return z3.BoolVal(False)
        e = asked[0]
        return z3.And(usable, e['obj'] == c.this, c.result == (e['ret'] != 0), request(e))
    c.ensures('asks exactly once, for what its attributes say, and fails when they cannot be read or the request is refused', exact)

    def kept():
        asked = c.logged(ASKVALUE, ASKCHOICE)
        if not asked:
            return z3.BoolVal(True)
        return c.rel[fut] == asked[0]['ret'] if c.sections else z3.BoolVal(False)
    c.ensures('keeps its request as the pending one', kept)
    c.ensures('takes no reply', lambda: z3.BoolVal(not c.logged(TAKE)))


@contract(INP + '::InitHook', props=['C24'], modifies=['trace', 'heap:' + INP + '::m_future'])
def input_init(c):
    n = c.str('outputVar')
    ok, v = attr_value(c, n, any_sort(c))
    c.requires('the output attribute is present (mandatory)', has_attr(c, n))
    okd, text = string(c, 'description')
    starts(c, INP, ASKVALUE, z3.And(ok, okd), lambda e: z3.And(e['args'][0] == v, e['args'][1] == text))


@contract(CON + '::InitHook', props=['C24'], modifies=['trace', 'heap:' + CON + '::m_future'])
def confirmation_init(c):
    S = c.S
    a, ta = string(c, 'description')
    b, tb = string(c, 'okText', c.str('Ok'))
    d, td = string(c, 'cancelText', c.str('Cancel'))

    def request(e):
        o = e['args'][0]
        return z3.And(S.slen(o) == 2, S.at(o, z3.IntVal(0)) == tb, S.at(o, z3.IntVal(1)) == td)
    starts(c, CON, ASKCHOICE, z3.And(a, b, d), request)


@contract(CHO + '::InitHook', props=['C24'], modifies=['trace', 'heap:' + CHO + '::m_future'])
def choice_init(c):
    S = c.S
    a, _text = string(c, 'description')
    seq = kids_of(c, c.old, c.this)

    def request(e):
        return S.slen(e['args'][0]) == S.slen(seq)
    starts(c, CHO, ASKCHOICE, a, request)


def options_so_far(L):
    S = L.S
    out = []
    for _n, w in L.slots(S.seq(S.Str)):
        out.append(S.slen(w) == L.k)
    return out


@contract(CHO + '::GetChoices', props=['C24'], loops=[options_so_far])
def choices(c):
    seq = setup_kids(c)
    c.ensures('one option per child', lambda: c.S.slen(c.result) == c.S.slen(seq))


def guarded(c, cls):
    """a request is only looked at while nobody else can end it"""
    mtx = c.V.fkey(cls, 'm_future_mutex')
    c.ensures('the request cannot be ended while it is looked at', lambda: z3.And(*[
        z3.BoolVal(mtx in e['held']) if mtx in e['held'] or not c.sections else c.rel[cls + '::m_future'] != e['obj']
        for e in c.logged(POLL, TAKE)] or [z3.BoolVal(True)]), on='both')


def polls(c, cls, decide, unchanged=lambda: z3.BoolVal(True), skip=lambda: False):
    """one look at the pending request: gone -> failure, no reply yet -> running, otherwise the reply decides"""
    fut = cls + '::m_future'
    c.may_throw(N + 'InvalidOperationException')
    guarded(c, cls)

    def exact():
        if skip():
            return z3.BoolVal(True)
        ev = c.logged(POLL, TAKE)
        tags = [e['tag'] for e in ev]
        stop = z3.And(c.result == st(c, 'FAILURE'), unchanged())
        if not ev:
            gone = c.acq[fut] == 0 if c.sections else z3.BoolVal(False)
            return z3.And(z3.Or(gone, *loads(c)), stop)
        f = c.acq[fut]
        if tags == [POLL]:
            return z3.And(ev[0]['obj'] == f, z3.Not(ev[0]['ret']), c.result == st(c, 'RUNNING'), unchanged())
        if tags != [POLL, TAKE]:
            return z3.BoolVal(False)
        return z3.And(ev[0]['obj'] == f, ev[1]['obj'] == f, ev[0]['ret'], decide(ev[1]['ret']))
    c.ensures('fails when halted or without a request, waits for its reply, and takes it once when it is there', exact)
    c.ensures('takes a reply at most once', lambda: z3.BoolVal(len(c.logged(TAKE)) <= 1), on='both')
    c.ensures('asks nothing else and writes only what was replied', lambda: z3.BoolVal(
        not c.logged(ASKVALUE, ASKCHOICE) and (bool(c.logged(TAKE)) or not c.logged(WRITE))), on='both')


@contract(INP + '::ExecuteSingleImpl', props=['C24'], modifies=['trace', 'takes', 'heap:' + INP + '::m_future'])
def input_exec(c):
    def decide(r):
        ok, v = parsed(c, 'value', r)
        ws = c.logged(WRITE)
        if not ws:
            return z3.And(z3.Not(ok), c.result == st(c, 'FAILURE'))
        e = ws[0]
        return z3.And(z3.BoolVal(len(ws) == 1), ok, e['obj'] == c.this, e['args'][0] == c.str('outputVar'), e['args'][1] == v,
                      c.result == z3.If(e['ret'], st(c, 'SUCCESS'), st(c, 'FAILURE')))
    polls(c, INP, decide)


@contract(CON + '::ExecuteSingleImpl', props=['C24'], modifies=['trace', 'takes', 'heap:' + CON + '::m_future'])
def confirmation_exec(c):
    def decide(r):
        ok, v = parsed(c, 'choice', r)
        return c.result == z3.If(z3.And(ok, v == 0), st(c, 'SUCCESS'), st(c, 'FAILURE'))
    polls(c, CON, decide)


SEL = CHO + '::m_choice'


@contract(CHO + '::ExecuteSingleImpl', props=['C24'], modifies=CALLS + ['takes', 'this.' + SEL, 'heap:' + CHO + '::m_future'])
def choice_exec(c):
    seq = setup_kids(c)
    n = c.S.slen(seq)
    old = c.old[SEL]
    c.assume(n < 2 ** 31)
    c.requires('a selection names a child', old < n)
    same = lambda: z3.And(c.new[SEL] == old, c.new.ghost('ticks') == c.old.ghost('ticks'))

    def decide(r):
        ok, v = parsed(c, 'choice', r)
        good = z3.And(ok, 0 <= v, v < n)
        return z3.And(c.new.ghost('ticks') == c.old.ghost('ticks'), c.new[SEL] == z3.If(good, v, old),
                      c.result == z3.If(good, st(c, 'NOT_FINISHED'), st(c, 'FAILURE')))

    def exact():
        child = c.S.at(seq, old)
        if not c.logged(TICK):
            return z3.BoolVal(True)
        return z3.And(0 <= old, z3.BoolVal(not c.logged(POLL, TAKE)), c.new[SEL] == old, one_call(c, 'ticks', child, z3.BoolVal(True)),
                      c.result == status(c, c.new, child), *[z3.Not(v) for v in loads(c)])
    c.ensures('with a selection, executes exactly the chosen child and reports its status', exact)
    c.ensures('a selection stays until it is reset', lambda: z3.Implies(0 <= old, z3.And(
        c.new[SEL] == old, z3.BoolVal(not c.logged(POLL, TAKE)), z3.Or(z3.BoolVal(bool(c.logged(TICK))), *loads(c)))), on='both')
    c.ensures('resets and halts nothing', lambda: z3.And(c.new.ghost('resets') == c.old.ghost('resets'),
                                                         c.new.ghost('halts') == c.old.ghost('halts')), on='both')
    c.ensures('a selection names a child afterwards', lambda: z3.And(c.new[SEL] < n, z3.Or(c.new[SEL] >= 0, old < 0)), on='both')

    polls(c, CHO, decide, same, skip=lambda: bool(c.logged(TICK)))


@contract(CHO + '::NextInstructionsImpl', props=['C24'])
def choice_next(c):
    seq = setup_kids(c)
    S, k = c.S, c.old[SEL]
    c.assume(S.slen(seq) < 2 ** 31)
    child = S.at(seq, k)
    has = z3.And(0 <= k, k < S.slen(seq), ready(c, status(c, c.old, child)))
    c.ensures('announces exactly the child that the next tick would execute',
              lambda: z3.If(has, z3.And(S.slen(c.result) == 1, S.at(c.result, z3.IntVal(0)) == child), S.slen(c.result) == 0))


for _c in (INP, CON, CHO):
    def _mk(cls):
        many = cls == CHO

        @contract(cls + '::ResetHook', props=['C24', 'C06'], modifies=CALLS + (['this.' + SEL] if many else []),
                  loops=[calls_so_far('resets'), self_kept] if many else [])
        def reset_hook(c):
            if many:
                seq = setup_kids(c)
                c.ensures('resets every child once', lambda: counted(c, 'resets', seq, lambda i: z3.BoolVal(True)))
                c.ensures('forgets the selection', lambda: c.new[SEL] < 0)
            c.ensures('ends the pending request by a halt of itself', lambda: one_call(c, 'halts', c.this, z3.BoolVal(True)))
    _mk(_c)


for _c in (INP, CHO, CON):
    def _mk(cls):
        fut = cls + '::m_future'
        many = cls == CHO

        @contract(cls + '::HaltImpl', props=['C24', 'C06'], modifies=(CALLS if many else ['trace']) + ['deleted', 'heap:' + fut], track_delete=True,
                  loops=[calls_so_far('halts'), self_kept] if many else [])
        def stop(c):
            if many:
                seq = setup_kids(c)
                c.ensures('halts every child once', lambda: counted(c, 'halts', seq, lambda i: z3.BoolVal(True)))
            if c.mode == 'check':
                c.ensures('ends the pending request', lambda: z3.And(c.rel[fut] == 0, z3.Or(c.acq[fut] == 0, deleted(c, c.new, c.acq[fut])))
                          if c.sections else z3.BoolVal(False))
    _mk(_c)
