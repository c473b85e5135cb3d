"""Contracts of the asynchronous user input adapter (C24).

The shared state lives under m_mtx.  What other threads may do is the monitor invariant (identifiers are unique, a request is queued,
in progress or answered, never two of them); what this thread may do is stated per critical section.
"""
import z3

from contracts.core import CALL, N, is_append, is_tail, notified, one_section
from engine.verify import ENTITIES, MONITORS, contract, forall

Int = z3.IntSort()
A = N + 'AsyncInputAdapter'
F = A + '::Future'
QU, RE, CUR, LAST, HALT = [A + '::' + x for x in ('m_request_queue', 'm_replies', 'm_current_id', 'm_last_request_id', 'm_halt')]
FUT, FID = F + '::m_input_handler', F + '::m_id'
READY, WAITED, GET, CANCEL, MADE, JOINED, STARTED = range(180, 187)
MONITORS[A] = {'cls': A, 'mutex': 'm_mtx', 'shared_at_end': True, 'only': ['m_request_queue', 'm_replies', 'm_current_id', 'm_last_request_id', 'm_halt']}
ENTITIES |= {A, F}
USED = ['m_mtx', 'm_cv', 'm_reply_cv', 'm_halt', 'm_request_queue', 'm_replies', 'm_current_id', 'm_input_func']


def plain(t):
    return z3.is_var(t) or (z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT, z3.Z3_OP_DT_ACCESSOR, z3.Z3_OP_ANUM)
                            and all(plain(x) for x in t.children()))


def allq(k, body, *pats):
    ps = [p for p in (z3.simplify(x) for x in pats) if plain(p)]
    return z3.ForAll([k], body, patterns=ps) if ps else z3.ForAll([k], body)


def req_id(c, e):
    return c.S.get(e, 0)


def rng(S, q, i):
    return z3.And(0 <= i, i < S.slen(q))


def dom(c, m):
    return c.S.get(m, 0)


def at(c, m, k):
    return z3.Select(c.S.get(m, 1), k)


def answered(c, view, i):
    return z3.Select(dom(c, view[RE]), i)


def consistent(c):
    """identifiers grow along the queue; a request is queued, in progress or answered, and never two of them"""
    S, v = c.S, c.old
    q, cur, last = v[QU], v[CUR], v[LAST]
    k = z3.Int('rk')
    d = dom(c, v[RE])
    return [('queued requests have growing identifiers', forall([Int, Int], lambda i, j: z3.Implies(
                z3.And(0 <= i, i < j, j < S.slen(q)), req_id(c, S.at(q, i)) < req_id(c, S.at(q, j))))),
            ('queued requests have handed out identifiers', forall([Int], lambda i: z3.Implies(rng(S, q, i), z3.And(
                0 < req_id(c, S.at(q, i)), req_id(c, S.at(q, i)) <= last, cur < req_id(c, S.at(q, i)),
                z3.Not(z3.Select(d, req_id(c, S.at(q, i)))))))),
            ('answers belong to handed out identifiers', allq(k, z3.Implies(z3.Select(d, k), z3.And(0 < k, k <= last)), z3.Select(d, k))),
            ('the request in progress is not answered', z3.And(0 <= cur, cur <= last, z3.Implies(cur != 0, z3.Not(z3.Select(d, cur)))))]


def bounds(c):
    return [('fewer than 2^63 requests are ever made', c.old[LAST] < (1 << 63))]


def same(c, a, b, *keys):
    return z3.And(*[c.S.deep_eq(a[k], b[k]) for k in keys])


def steps(c):
    """what the handler thread may do in one critical section"""
    if c.f['q'] != A + '::HandleRequestQueue':
        return []
    S, a, b = c.S, c.before, c.old
    log = []
    for e in c.rawlog:
        log = [] if e['tag'] == 0 else log + [e]
    calls = [e for e in log if e['tag'] == CALL]
    if not calls:
        q = a[QU]
        f = S.at(q, z3.IntVal(0))
        take = z3.And(S.slen(q) > 0, is_tail(c, b[QU], q), b[CUR] == req_id(c, f), same(c, a, b, RE, LAST, HALT), z3.Not(a[HALT]))
        c.I.took_request = f
        stop = z3.And(a[HALT], same(c, a, b, QU, RE, CUR, LAST, HALT))
        return [('takes the first request, which is then the one in progress, or stops', z3.Or(take, stop))]
    if len(calls) > 1:
        return [('asks for one request at a time', z3.BoolVal(False))]
    e = calls[0]
    i = e['vals'][1]
    f = c.I.took_request
    wanted = a[CUR] == i
    k = z3.FreshInt('ans')
    put = z3.And(at(c, b[RE], i) == e['ret'], allq(k, z3.And(
        z3.Select(dom(c, b[RE]), k) == z3.Or(k == i, z3.Select(dom(c, a[RE]), k)), z3.Implies(k != i, at(c, b[RE], k) == at(c, a[RE], k))),
        z3.Select(dom(c, a[RE]), k), at(c, a[RE], k)))
    return [('asks for the request it took', z3.And(i == req_id(c, f), S.deep_eq(e['vals'][0], S.get(f, 1)), z3.BoolVal(not e['held']))),
            ('a reply is kept for its own request, and only if that was not abandoned', z3.If(wanted, put, same(c, a, b, RE))),
            ('nothing is in progress afterwards, the queue is left alone', z3.And(b[CUR] == 0, same(c, a, b, QU, LAST, HALT))),
            ('those who wait for a reply are told', z3.Or(z3.Not(wanted), z3.BoolVal(told(c, 'm_reply_cv', True))))]


def told(c, cv, everyone=False):
    return any(str(cv) in repr(n[1].path) + repr(n[1].root) and (not everyone or 'all' in n[0]) for n in c.notifies)


MONITORS[A].update(inv=consistent, bounds=bounds, step=steps)


def has_functions(c):
    c.requires('was given its functions', z3.And(*[c.old[A + '::' + x] != c.S.nullFn for x in ('m_input_func', 'm_interrupt_func')]))


# ---------------------------------------------------------------- the adapter
@contract('std::__basic_future::wait', abstract=True)
def future_wait(c):
    c.emit(JOINED)


@contract(A + '::HandleRequestQueue', props=['C24'], modifies=['this.' + x for x in (QU, RE, CUR)] + ['trace'], peel=False)
def handle(c):
    has_functions(c)

    def asked():
        log = []
        for e in c.rawlog:
            log = [] if e['tag'] == 0 else log + [e]
        return z3.BoolVal(not [e for e in log if e['tag'] == CALL])
    c.ensures('stops only between requests', asked)


@contract(A + '::AddUserInputRequest', props=['C24'], modifies=['this.' + QU, 'this.' + LAST, 'alloc', 'trace'])
def add_request(c):
    S, req = c.S, c.old.arg(0)
    one_section(c)

    def queued():
        a, b = c.acq, c.rel
        q = b[QU]
        e = S.at(q, S.slen(q) - 1)
        return z3.And(b[LAST] == a[LAST] + 1, is_append(c, q, a[QU], e), req_id(c, e) == b[LAST], S.get(e, 1) == req, same(c, a, b, RE, CUR, HALT))
    c.ensures('queues the request last, under a new identifier', queued)
    c.ensures('hands out the future of that identifier', lambda: z3.And(c.new.fld(c.result, FID) == c.rel[LAST], c.result > 0))
    c.ensures('wakes the handler', lambda: z3.BoolVal(told(c, 'm_cv')))
    c.ensures('says so only after the change is visible', lambda: z3.BoolVal(notified(c)))


def valid(c):
    return c.old.fld(c.old.arg(0), FID) != 0


def tid(c):
    return c.old.fld(c.old.arg(0), FID)


@contract(A + '::UserInputRequestReady', props=['C24'])
def is_ready(c):
    if c.mode == 'call':
        c.emit(READY, obj=c.this, args=[c.old.arg(0)])
        return
    c.ensures('ready exactly when its own reply is there', lambda: c.result == (
        z3.And(valid(c), answered(c, c.acq, tid(c))) if c.sections else z3.BoolVal(False)) if c.sections else z3.And(z3.Not(c.result), z3.Not(valid(c))))


@contract(A + '::WaitForRequestReady', props=['C24'])
def wait_ready(c):
    if c.mode == 'call':
        c.emit(WAITED, obj=c.this, args=[c.old.arg(0)])
        return
    c.ensures('ready exactly when its own reply is there at the end', lambda: c.result == z3.And(
        valid(c), answered(c, c.acq, tid(c))) if c.sections else z3.And(z3.Not(c.result), z3.Not(valid(c))))
    c.ensures('changes nothing', lambda: same(c, c.acq, c.rel, QU, RE, CUR, LAST, HALT) if c.sections else z3.BoolVal(True))


@contract(A + '::GetReply', props=['C24'], modifies=['this.' + RE])
def get_reply(c):
    S = c.S
    if c.mode == 'call':
        k = S.slen(c.old.trace)
        c.throws(N + 'InvalidOperationException', z3.Not(z3.Function('reply_there', Int, z3.BoolSort())(k)))
        c.emit(GET, obj=c.this, args=[c.old.arg(0)])
        return

    def missing():
        return z3.Not(valid(c)) if c.sections == 0 else z3.Not(z3.And(valid(c), answered(c, c.acq, tid(c))))
    c.may_throw(N + 'InvalidOperationException')
    c.ensures('fails only when the reply is not there', missing, on='throw')
    c.ensures('is refused without a reply', lambda: z3.Not(missing()))

    def taken():
        a, b, i, k = c.acq, c.rel, tid(c), z3.FreshInt('tk')
        return z3.And(c.result == at(c, a[RE], i), same(c, a, b, QU, CUR, LAST, HALT), allq(k, z3.And(
            z3.Select(dom(c, b[RE]), k) == z3.And(k != i, z3.Select(dom(c, a[RE]), k)),
            z3.Implies(z3.Select(dom(c, b[RE]), k), at(c, b[RE], k) == at(c, a[RE], k))), z3.Select(dom(c, a[RE]), k)))
    c.ensures('hands out its own reply and forgets it', taken)
    c.ensures('an error changes nothing', lambda: same(c, c.acq, c.rel, QU, RE, CUR, LAST, HALT) if c.sections else z3.BoolVal(True), on='throw')


@contract(A + '::CancelInputRequest', props=['C24'], modifies=['this.' + x for x in (QU, RE, CUR)] + ['trace'])
def cancel(c):
    S = c.S
    if c.mode == 'call':
        c.emit(CANCEL, obj=c.this, args=[c.old.arg(0)])
        return
    i = tid(c)
    has_functions(c)

    def asked():
        return [e for e in c.log if e['tag'] == CALL]

    def exact():
        if c.sections == 0:
            return z3.And(z3.Not(valid(c)), z3.BoolVal(not asked()))
        a, b = c.acq, c.rel
        q, r = a[QU], b[QU]
        p = c.first(S.slen(q), lambda j: req_id(c, S.at(q, j)) == i)
        queued = p < S.slen(q)
        k = z3.FreshInt('ck')
        gone = z3.And(S.slen(r) == S.slen(q) - 1, forall([Int], lambda j: z3.Implies(rng(S, r, j), S.at(r, j) == S.at(q, z3.If(j < p, j, j + 1))),
                                                        pats=lambda j: S.at(r, j)))
        dropped = allq(k, z3.And(z3.Select(dom(c, b[RE]), k) == z3.And(k != i, z3.Select(dom(c, a[RE]), k)),
                            z3.Implies(z3.Select(dom(c, b[RE]), k), at(c, b[RE], k) == at(c, a[RE], k))), z3.Select(dom(c, a[RE]), k))
        current = a[CUR] == i
        calls = asked()
        said = z3.And(z3.BoolVal(len(calls) == 1), calls[0]['vals'][0] == i) if len(calls) == 1 else z3.BoolVal(False)
        return z3.And(valid(c), z3.If(queued, gone, c.S.deep_eq(q, r)), dropped, b[CUR] == z3.If(current, 0, a[CUR]),
                      z3.If(current, said, z3.BoolVal(not calls)), same(c, a, b, LAST, HALT))
    c.ensures('takes back a queued request, drops its reply, or interrupts it when it is in progress, and nothing else', exact)


@contract(A + '::~AsyncInputAdapter', props=['C24'], modifies=['this.' + HALT, 'trace'])
def destroy(c):
    has_functions(c)

    def exact():
        a, b = c.acq, c.rel
        calls = [e for e in c.log if e['tag'] == CALL]
        said = z3.And(z3.BoolVal(len(calls) == 1), calls[0]['vals'][0] == a[CUR]) if len(calls) == 1 else z3.BoolVal(False)
        return z3.And(b[HALT], z3.If(a[CUR] != 0, said, z3.BoolVal(not calls)), same(c, a, b, QU, RE, CUR, LAST))
    c.ensures('tells the handler to stop and interrupts exactly a request in progress', exact)
    c.ensures('wakes the handler', lambda: z3.BoolVal(told(c, 'm_cv')))

    def joined():
        w = [e for e in c.log if e['tag'] == JOINED]
        order = [n for x, n, _t, _i in c.I.p.fields(A) if x == A]
        by_order = all(order.index('m_handler_future') > order.index(x) for x in USED)  # then its own destructor waits first
        return z3.BoolVal((by_order or bool(w)) and not any(e['held'] for e in w))
    c.ensures('the handler has ended, without the lock being held, before anything it uses is destroyed', joined)


# ---------------------------------------------------------------- the future
@contract(F + '::GetId', props=['C24'])
def f_id(c):
    c.ensures('its identifier', lambda: c.result == c.old[FID])


@contract(F + '::IsValid', props=['C24'])
def f_valid(c):
    c.ensures('valid until its reply was taken', lambda: c.result == (c.old[FID] != 0))


def asks(c, tag):
    def one():
        ev = c.log
        if len(ev) != 1 or ev[0]['tag'] != tag:
            return z3.BoolVal(False)
        e = ev[0]
        return z3.And(e['obj'] == c.old[FUT], e['vals'][0] == c.this, c.result == e['ret'])
    c.ensures('asks its adapter about itself', one)


@contract(F + '::IsReady', props=['C24'], modifies=['trace'])
def f_ready(c):
    asks(c, READY)


@contract(F + '::WaitFor', props=['C24'], modifies=['trace'])
def f_wait(c):
    asks(c, WAITED)


@contract(F + '::GetValue', props=['C24'], modifies=['this.' + FID, 'trace', 'heap:' + RE])
def f_value(c):
    c.may_throw(N + 'InvalidOperationException')
    asks(c, GET)
    c.ensures('is spent afterwards', lambda: c.new[FID] == 0)
    c.ensures('a refused reply leaves it as it was', lambda: c.new[FID] == c.old[FID], on='throw')


@contract(F + '::~Future', props=['C24'], modifies=['trace'] + ['heap:' + x for x in (QU, RE, CUR)])
def f_gone(c):
    def one():
        ev = c.log
        if not ev:
            return c.old[FID] == 0
        if len(ev) != 1 or ev[0]['tag'] != CANCEL:
            return z3.BoolVal(False)
        return z3.And(c.old[FID] != 0, ev[0]['obj'] == c.old[FUT], ev[0]['vals'][0] == c.this)
    c.ensures('an abandoned request is cancelled, a spent one is not', one)


UF = N + 'UnsupportedInputFuture::'
for _q, _r in (('GetId', lambda c: c.result == 0), ('IsValid', lambda c: z3.Not(c.result)), ('IsReady', lambda c: z3.Not(c.result)), ('WaitFor', lambda c: z3.Not(c.result))):
    @contract(UF + _q, props=['C24'])
    def unsupported(c, _r=_r):
        c.ensures('there is never a reply', lambda: _r(c))


@contract(UF + 'GetValue', props=['C24'])
def unsupported_value(c):
    c.throws(N + 'InvalidOperationException', z3.BoolVal(True), 'there is never a reply')
