"""Contracts of NamedCallbackManager (C04), checked on instances of the template made by tu/callbacks.cpp."""
import z3

from engine.verify import CALL, MONITORS, contract, forall
from .core import calls_exactly, event_arg, is_append, params_are, same_seq

N = 'sup::oac_tree::'
M = N + 'NamedCallbackManager'
Int = z3.IntSort()
GE, CE = M + '::generic_cb_entries', M + '::cb_entries'
GEC, CEC = M + '::GenericCallbackEntry', M + '::CallbackEntry'
MONITORS[M] = {'cls': M, 'mutex': 'mtx'}


def one_section(c):
    c.ensures('is one atomic operation on the lists', lambda: c.sections == 1 or c.mode != 'check')


def gl(c, e, f):
    return c.S.getf(e, c.V.fkey(GEC, f))


def cl(c, e, f):
    return c.S.getf(e, c.V.fkey(CEC, f))


@contract(M + '::RegisterGenericCallback', props=['C04'], modifies=['this.' + GE])
def register_generic(c):
    S = c.S
    fn, listener = c.old.arg(0), c.old.arg(1)
    c.ensures('refuses exactly the empty callback', lambda: c.result == (fn != S.nullFn))
    c.ensures('a refused registration changes nothing',
              lambda: z3.Implies(fn == S.nullFn, same_seq(c, c.rel[GE], c.acq[GE])))

    def added():
        new, old = c.rel[GE], c.acq[GE]
        e = S.at(new, S.slen(old))
        return z3.Implies(fn != S.nullFn, z3.And(S.slen(new) == S.slen(old) + 1, gl(c, e, 'cb') == fn,
                                                 gl(c, e, 'listener') == listener,
                                                 is_append(c, new, old, e)))
    c.ensures('adds exactly the given callback at the end of the list', added)
    c.ensures('at most one atomic operation on the lists', lambda: c.mode != 'check' or c.sections <= 1)
    c.ensures('calls nothing', lambda: calls_exactly(c, []))


@contract(M + '::RegisterCallback', props=['C04'], modifies=['this.' + CE])
def register_named(c):
    S = c.S
    name, fn, listener = c.old.arg(0), c.old.arg(1), c.old.arg(2)
    c.ensures('refuses exactly the empty callback', lambda: c.result == (fn != S.nullFn))
    c.ensures('a refused registration changes nothing',
              lambda: z3.Implies(fn == S.nullFn, same_seq(c, c.rel[CE], c.acq[CE])))

    def added():
        new, old = c.rel[CE], c.acq[CE]
        e = S.at(new, S.slen(old))
        return z3.Implies(fn != S.nullFn, z3.And(S.slen(new) == S.slen(old) + 1, cl(c, e, 'cb') == fn,
                                                 cl(c, e, 'listener') == listener, cl(c, e, 'name') == name,
                                                 is_append(c, new, old, e)))
    c.ensures('adds exactly the given callback at the end of the list', added)
    c.ensures('at most one atomic operation on the lists', lambda: c.mode != 'check' or c.sections <= 1)
    c.ensures('calls nothing', lambda: calls_exactly(c, []))


def filtered(c, new, old, keep):
    """new is old without the elements failing keep, order kept: the element at kept position j is number count(j)"""
    S = c.S
    g = c.counter(old, lambda j: keep(S.at(old, j)))
    j = z3.FreshInt('j')
    return z3.And(S.slen(new) == g(S.slen(old)),
                  z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < S.slen(old), keep(S.at(old, j))),
                                            S.at(new, g(j)) == S.at(old, j))))


@contract(M + '::UnregisterListener', props=['C04'], modifies=['this.' + GE, 'this.' + CE])
def unregister(c):
    S = c.S
    li = c.old.arg(0)
    one_section(c)

    def had():
        g, n = c.acq[GE], c.acq[CE]
        kg = c.counter(g, lambda j: gl(c, S.at(g, j), 'listener') != li)
        kn = c.counter(n, lambda j: cl(c, S.at(n, j), 'listener') != li)
        return z3.Or(kg(S.slen(g)) < S.slen(g), kn(S.slen(n)) < S.slen(n))
    if c.mode == 'check':
        c.ensures('reports whether the listener had any callback', lambda: c.result == had())
        c.ensures('removes exactly the general callbacks of the listener, keeping the others in order',
                  lambda: filtered(c, c.rel[GE], c.acq[GE], lambda e: gl(c, e, 'listener') != li))
        c.ensures('removes exactly the named callbacks of the listener, keeping the others in order',
                  lambda: filtered(c, c.rel[CE], c.acq[CE], lambda e: cl(c, e, 'listener') != li))
        c.ensures('calls nothing', lambda: calls_exactly(c, []))
    else:
        # ghost record for callers: this call removed listener li
        c.I.event(UNREG, obj=li)


UNREG = 77


def trace_prefix(c, t0, t1):
    S = c.S
    return forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < S.slen(t0)), S.at(t1, i) == S.at(t0, i)),
                  pats=lambda i: S.at(t1, i))


def cnt_fn(c, seq, name):
    """number of entries registered for this name among the first j of the list"""
    S = c.S
    key = ('matching', S.sarr(seq).get_id(), name.get_id())
    if key not in c.I.memo:
        hit = lambda i: cl(c, S.at(seq, i), 'name') == name
        c.I.memo[key] = (hit, c.V.counter(c.I, S.sarr(seq), hit))
    hit, g = c.I.memo[key]
    return g, hit


def call_args(c, ev, fn, args):
    S = c.S
    out = [S.Event.tag(ev) == CALL, S.Event.fn(ev) == fn]
    for i, a in enumerate(args):
        out.append(event_arg(c, ev, i, a))
    return z3.And(*out)


def generic_part(c, n0, t, upto, g, name, args):
    S = c.S
    return forall([Int], lambda p: z3.Implies(z3.And(n0 <= p, p < n0 + upto),
                                              call_args(c, S.at(t, p), gl(c, S.at(g, p - n0), 'cb'), [name] + args)),
                  pats=lambda p: S.at(t, p))


def named_part(c, n1, t, upto, e, cnt, hit, args):
    S = c.S
    return forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < upto, hit(i)),
                                              call_args(c, S.at(t, n1 + cnt(i)), cl(c, S.at(e, i), 'cb'), args)),
                  pats=lambda i: cnt(i))


def exec_args(c):
    return c.old.arg(0), [c.old.arg(i) for i in range(1, len(c.args))]


def loop_generic(L):
    c, S = L.c, L.S
    name, args = exec_args(c)
    if L.k is None:
        return None
    g = L.acq[GE]
    t0, t = c.old.trace, L.cur.trace
    return [S.slen(t) == S.slen(t0) + L.k, generic_part(c, S.slen(t0), t, L.k, g, name, args), trace_prefix(c, t0, t)]


def loop_named(L):
    c, S = L.c, L.S
    name, args = exec_args(c)
    if L.k is None:
        return None
    g, e = L.acq[GE], L.acq[CE]
    cnt, hit = cnt_fn(c, e, name)
    t0, t = c.old.trace, L.cur.trace
    n1 = S.slen(t0) + S.slen(g)
    return [S.slen(t) == n1 + cnt(L.k), generic_part(c, S.slen(t0), t, S.slen(g), g, name, args),
            named_part(c, n1, t, L.k, e, cnt, hit, args), trace_prefix(c, t0, t),
            cnt(L.k) >= 0]


def callbacks_valid(c):
    """registered callbacks are never empty (established by the registration contracts)"""
    S = c.S
    g, e = c.old[GE], c.old[CE]
    return [('general callbacks are not empty',
             forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < S.slen(g)), gl(c, S.at(g, i), 'cb') != S.nullFn),
                    pats=lambda i: S.at(g, i))),
            ('named callbacks are not empty',
             forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < S.slen(e)), cl(c, S.at(e, i), 'cb') != S.nullFn),
                    pats=lambda i: S.at(e, i)))]


MONITORS[M]['inv'] = callbacks_valid


@contract(M + '::ExecuteCallbacks', props=['C04'], modifies=['trace'], loops=[loop_generic, loop_named])
def execute(c):
    S = c.S
    name, args = exec_args(c)
    one_section(c)

    def lists():
        return c.acq[GE], c.acq[CE]

    def total():
        g, e = lists()
        cnt, hit = cnt_fn(c, e, name)
        t0, t = c.old.trace, c.new.trace
        return z3.And(S.slen(t) == S.slen(t0) + S.slen(g) + cnt(S.slen(e)), trace_prefix(c, t0, t))

    def gen():
        g, e = lists()
        t0, t = c.old.trace, c.new.trace
        return generic_part(c, S.slen(t0), t, S.slen(g), g, name, args)

    def named():
        g, e = lists()
        cnt, hit = cnt_fn(c, e, name)
        t0, t = c.old.trace, c.new.trace
        return named_part(c, S.slen(t0) + S.slen(g), t, S.slen(e), e, cnt, hit, args)
    if c.mode == 'check':
        c.ensures('calls nothing but the general callbacks and those of exactly that name', total)
        c.ensures('first every general callback, in registration order, with name and arguments', gen)
        c.ensures('then every callback of exactly that name, in registration order, with the arguments', named)
        c.ensures('leaves the lists as they were',
                  lambda: z3.And(same_seq(c, c.rel[GE], c.acq[GE]), same_seq(c, c.rel[CE], c.acq[CE])))


@contract(M + '::GetCallbackGuard', props=['C04'])
def callback_guard(c):
    S = c.S
    li = c.old.arg(0)

    def acts():
        """run the action of the returned guard symbolically and look at what it does"""
        if c.mode != 'check':
            return True
        I = c.I
        fn = S.getf(c.result, c.V.fkey(N + 'ScopeGuard', 'm_func'))
        t0 = c.V.ghost_initial(I, 'trace')
        name = None
        for k in I.closures:
            if not I.feasible(fn != z3.Const(k, S.Fn)):
                name = k
        if name is None:
            # no action at all: right only for the null listener
            return z3.And(fn == S.nullFn, li == 0)
        I.call_value(I.closures[name], [], {}, None)
        t1 = c.V.ghost_initial(I, 'trace')
        n = S.slen(t0)
        ev = S.at(t1, n)
        return z3.And(z3.Implies(li == 0, S.slen(t1) == n),
                      z3.Implies(li != 0, z3.And(S.slen(t1) == n + 1, S.Event.tag(ev) == UNREG,
                                                 S.Event.obj(ev) == li)))
    c.ensures('its guard removes exactly this listener when it ends, and nothing for no listener', acts)
    c.ensures('calls nothing', lambda: calls_exactly(c, []))
