"""Contracts of the workspace: C17 (setup and teardown actions), C16 (names, addressing, types)."""
import z3

from contracts.callbacks import trace_prefix
from contracts.core import N, params_are
from engine.sorts import Unsupported
from engine.verify import CALL, ENTITIES, contract, forall

Int = z3.IntSort()
W, V, A = N + 'Workspace', N + 'Variable', N + 'SetupTeardownActions'
ENTITIES.add(W)
WM, WN, WT, WD = W + '::m_var_map', W + '::m_var_names', W + '::m_teardown_actions', W + '::m_setup_done'
AI, AS, AT = A + '::m_identifier', A + '::m_setup', A + '::m_teardown'
VSETUP, VTEARDOWN, VRESET, VGET, VSET, VAVAIL, REGTYPE, VNOTIFY = range(100, 108)
EV = ('tag', 'fn', 'obj')


def rng(S, seq, i):
    return z3.And(0 <= i, i < S.slen(seq))


def actions_of(c, var):
    """what setting up this variable asks for (each variable is set up at most once per call)"""
    s = c.S.sort(A)
    return z3.Function('actions_of', Int, s)(var)


@contract(V + '::Setup', abstract=True, nparams=1)
def var_setup(c):
    c.may_throw('std::exception')
    c.emit(VSETUP, obj=c.this)
    c.modifies('heap:*' + V)
    c.V.heap_types['*' + V] = V
    c.returns(actions_of(c, c.this))


@contract(V + '::Teardown', abstract=True, nparams=0)
def var_teardown(c):
    c.emit(VTEARDOWN, obj=c.this)


# ------------------------------------------------------------------------------------ C17
class Firsts:
    """for each identifier, the first request that carries an action of a kind"""

    def __init__(self, c, seq, field):
        S = c.S
        self.c, self.S, self.seq, self.field = c, S, seq, field
        self.f = z3.Function('first_with_' + field.split('::')[-1], S.Str, Int)
        i = z3.Int('fw')
        at = lambda i: S.at(seq, i)
        ident = lambda i: S.getf(at(i), AI)
        self.ident = ident
        self.fn = lambda i: S.getf(at(i), field)
        self.ok = lambda i: z3.And(ident(i) != c.str(''), self.fn(i) != S.nullFn)
        fi = self.f(ident(i))
        c.assume(z3.ForAll([i], z3.Implies(z3.And(rng(S, seq, i), self.ok(i)), z3.And(
            0 <= fi, fi <= i, self.ok(fi), ident(fi) == ident(i))), patterns=[at(i)]))
        self.hit = lambda i: z3.And(self.ok(i), self.f(ident(i)) == i)
        self.g = c.counter(seq, self.hit)

    def listed(self, out, k):
        """out holds, in order, the first actions of the requests before k"""
        S = self.S
        return z3.And(S.slen(out) == self.g(k), forall([Int], lambda i: z3.Implies(
            z3.And(0 <= i, i < k, self.hit(i)), S.at(out, self.g(i)) == self.fn(i)), pats=lambda i: S.at(self.seq, i)))

    def known(self, m, k):
        """m holds exactly the identifiers that have such an action before k"""
        S = self.S
        d = S.get(m, 0)
        return [forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < k, self.ok(i)), z3.Select(d, self.ident(i))), pats=lambda i: S.at(self.seq, i)),
                forall([S.Str], lambda x: z3.Implies(z3.Select(d, x), z3.And(
                    0 <= self.f(x), self.f(x) < k, self.ok(self.f(x)), self.ident(self.f(x)) == x)), pats=lambda x: z3.Select(d, x))]


def parsed(L):
    c, S = L.c, L.S
    fs = c.extra.get('firsts')
    if not fs or L.k is None:
        return None
    out = []
    for f in fs:
        for n, w in L.slots():
            if S.is_map(w.sort()) and S.get(w, 0).sort().domain() == S.Str:
                out += f.known(w, L.k)
            elif S.is_seq(w.sort()) and S.elem(w) == S.Fn:
                out.append(f.listed(w, L.k))
        out.append(f.listed(L.cur[WT], L.k))
    return out


@contract(W + '::ParseSetupTeardownActions', props=['C17'], modifies=['this.' + WT], loops=[parsed])
def parse_actions(c):
    S = c.S
    seq = c.old.arg(0)
    if c.mode == 'call':
        # in callers the guarantee is an opaque predicate over the requests and the actions
        c.ensures('returns the first setup action of each identifier, in order', lambda: first_actions(c, seq, AS, c.result))
        c.ensures('keeps the first teardown action of each identifier, in order', lambda: first_actions(c, seq, AT, c.new[WT]))
        c.I.parsed = seq
        return
    fs = [Firsts(c, seq, AS), Firsts(c, seq, AT)]
    c.extra['firsts'] = fs
    n = S.slen(seq)
    c.ensures('returns the first setup action of each identifier, in order', lambda: fs[0].listed(c.result, n))
    c.ensures('keeps the first teardown action of each identifier, in order', lambda: fs[1].listed(c.new[WT], n))


def first_actions(c, reqs, kind, out):
    """out holds, in order, the action of this kind of the first request with each identifier (what
    ParseSetupTeardownActions is verified to deliver)"""
    return z3.Function('first_actions_' + kind.split('::')[-1], reqs.sort(), out.sort(), z3.BoolSort())(reqs, out)


def event(c, ev, tag, fn=None, obj=None):
    S = c.S
    out = [S.Event.tag(ev) == tag]
    if fn is not None:
        out.append(S.Event.fn(ev) == fn)
    if obj is not None:
        out.append(S.Event.obj(ev) == obj)
    return z3.And(*out)


def var_of(c, key):
    return z3.Select(c.S.get(c.old[WM], 1), key)


def vars_event(c, tag, t, n0, keys, k):
    S = c.S
    return forall([Int], lambda p: z3.Implies(z3.And(n0 <= p, p < n0 + k), event(c, S.at(t, p), tag, obj=var_of(c, S.at(keys, p - n0)))),
                  pats=lambda p: S.at(t, p))


def fns_event(c, t, n0, fns, k):
    S = c.S
    return forall([Int], lambda p: z3.Implies(z3.And(n0 <= p, p < n0 + k), event(c, S.at(t, p), CALL, fn=S.at(fns, p - n0))),
                  pats=lambda p: S.at(t, p))


def have_vars(c):
    m = c.old[WM]
    dom, val = c.S.get(m, 0), c.S.get(m, 1)
    c.requires('every variable of the workspace exists', forall([c.S.Str], lambda x: z3.Implies(
        z3.Select(dom, x), z3.Select(val, x) > 0), pats=lambda x: z3.Select(dom, x)))


class Requests:
    """the requests of the variables that have an identifier, in the order of the keys"""

    def __init__(self, c, keys):
        S = c.S
        self.c, self.S, self.keys = c, S, keys
        self.req = lambda i: actions_of(c, var_of(c, S.at(keys, i)))
        self.hit = lambda i: S.getf(self.req(i), AI) != c.str('')
        self.g = c.counter(keys, self.hit)

    def listed(self, out, k):
        S = self.S
        return z3.And(S.slen(out) == self.g(k), forall([Int], lambda i: z3.Implies(
            z3.And(0 <= i, i < k, self.hit(i)), S.at(out, self.g(i)) == self.req(i)), pats=lambda i: S.at(self.keys, i)))


def setting_up(L):
    c, S = L.c, L.S
    what = c.extra.get('ws')
    if not what or L.k is None:
        return None
    t0, t = c.old.trace, L.cur.trace
    n0 = S.slen(t0)
    out = []
    if S.elem(L.seq) == S.Str:
        keys = L.seq
        c.extra['keys'] = keys
        tag = VSETUP if what == 'setup' else VTEARDOWN
        te = L.entry.trace
        out += [S.slen(t) == S.slen(te) + L.k, vars_event(c, tag, t, S.slen(te), keys, L.k), trace_prefix(c, te, t)]
        if what == 'setup':
            r = Requests(c, keys)
            c.extra['requests'] = r
            for n, w in L.slots():
                if S.is_seq(w.sort()) and S.elem(w) == S.sort(A):
                    out.append(r.listed(w, L.k))
    elif S.elem(L.seq) == S.Fn:
        te = L.entry.trace
        c.extra['fns'] = L.seq
        c.extra['before'] = te
        out += [S.slen(t) == S.slen(te) + L.k, fns_event(c, t, S.slen(te), L.seq, L.k), trace_prefix(c, te, t)]
    return out


def told_by_loops(c):
    if c.I.V.unroll is not None:
        raise Unsupported('the loops say in which order they visit the variables')


def same_trace(c, a, b):
    return z3.And(c.S.slen(a) == c.S.slen(b), trace_prefix(c, a, b))


@contract(W + '::Setup', props=['C17'], modifies=['this.' + WT, 'this.' + WD, 'trace', 'heap:*' + V], loops=[setting_up])
def ws_setup(c):
    S = c.S
    c.extra['ws'] = 'setup'
    have_vars(c)
    t0 = c.old.trace
    c.may_throw('unknown exception')
    if c.mode == 'call':
        return
    done = c.old[WD]

    def nothing():
        return z3.Implies(done, z3.And(same_trace(c, t0, c.new.trace), c.new[WT] == c.old[WT], c.new[WD]))
    c.ensures('does nothing when it is set up', nothing)

    def ran():
        told_by_loops(c)
        return 'keys' in c.extra and getattr(c.I, 'parsed', None) is not None

    def part(fn):
        def go():
            if not ran():
                return done
            keys, r, fns = c.extra['keys'], c.extra['requests'], c.extra['fns']
            reqs = c.I.parsed
            return fn(c.new.trace, S.slen(t0), keys, r, fns, reqs)
        return go
    c.ensures('runs only when it was not set up, and is set up then', part(lambda t, n0, keys, r, fns, reqs: z3.And(z3.Not(done), c.new[WD])), on='normal')
    c.ensures('sets up every variable once', part(lambda t, n0, keys, r, fns, reqs: z3.And(
        trace_prefix(c, t0, t), vars_event(c, VSETUP, t, n0, keys, S.slen(keys)))), on='normal')
    c.ensures('then runs the first setup action of each identifier, in order', part(lambda t, n0, keys, r, fns, reqs: z3.And(
        S.slen(t) == n0 + S.slen(keys) + S.slen(fns), fns_event(c, t, n0 + S.slen(keys), fns, S.slen(fns)))), on='normal')
    c.ensures('these are the setup actions of the requests with an identifier', part(lambda t, n0, keys, r, fns, reqs: z3.And(
        r.listed(reqs, S.slen(keys)), first_actions(c, reqs, AS, fns))), on='normal')
    c.ensures('keeps the first teardown action of each identifier, in order', part(lambda t, n0, keys, r, fns, reqs:
        first_actions(c, reqs, AT, c.new[WT])), on='normal')
    c.ensures('is not set up after a failure', lambda: z3.Not(c.new[WD]), on='throw')


@contract(W + '::Teardown', props=['C17'], modifies=['this.' + WT, 'this.' + WD, 'trace'], loops=[setting_up])
def ws_teardown(c):
    S = c.S
    c.extra['ws'] = 'teardown'
    have_vars(c)
    if c.mode == 'call':
        return
    t0 = c.old.trace
    c.may_throw('unknown exception')

    def all_done():
        told_by_loops(c)
        if 'keys' not in c.extra:
            return False
        keys = c.extra['keys']
        acts = c.old[WT]
        t, n0, n, m = c.new.trace, S.slen(t0), S.slen(keys), S.slen(acts)
        return z3.And(S.slen(t) == n0 + m + n, trace_prefix(c, t0, t), fns_event(c, t, n0, acts, m),
                      vars_event(c, VTEARDOWN, t, n0 + m, keys, n))
    c.ensures('runs every kept action once, in order, then tears down every variable once', all_done, on='normal')
    c.ensures('the next setup starts anew', lambda: z3.And(z3.Not(c.new[WD]), S.slen(c.new[WT]) == 0), on='normal')


@contract(W + '::~Workspace', props=['C17'], modifies=['this', 'trace', 'heap:*' + V, 'alloc'], loops=[setting_up])
def ws_dtor(c):
    S = c.S
    c.extra['ws'] = 'dtor'
    c.may_throw('unknown exception')
    if c.mode == 'call':
        return
    t0 = c.old.trace

    def all_done():
        acts = c.old[WT]
        t, n0, m = c.new.trace, S.slen(t0), S.slen(acts)
        return z3.And(S.slen(t) == n0 + m, trace_prefix(c, t0, t), fns_event(c, t, n0, acts, m))
    c.ensures('runs every kept action once, in order', all_done, on='normal')


@contract(W + '::IsSuccessfullySetup', props=['C17'])
def ws_is_setup(c):
    c.ensures('tells whether it is set up', lambda: c.result == c.old[WD])


@contract(W + '::Workspace', props=['C17', 'C16'], modifies=['this', 'alloc'], nparams=1)
def ws_ctor(c):
    S = c.S
    c.ensures('starts without variables, not set up, without actions', lambda: z3.And(
        z3.Not(c.new[WD]), S.slen(c.new[WT]) == 0, S.slen(c.new[WN]) == 0,
        forall([S.Str], lambda x: z3.Not(z3.Select(S.get(c.new[WM], 0), x)))))


# ------------------------------------------------------------------------------------ C16
def split_of(c, name):
    """the variable part and the field part of a full name (what SplitFieldName is verified to deliver)"""
    S = c.S
    p = S.pair(S.Str, S.Str)
    return z3.Function('split_name', S.Str, p)(name)


@contract(N + 'SplitFieldName', props=['C16'], strings='theory')
def split_name(c):
    S = c.S
    s = c.old.arg(0)
    if c.mode == 'call':
        c.returns(split_of(c, s))
        return

    def cut():
        a, b = S.get(c.result, 0), S.get(c.result, 1)
        none = z3.And(a == s, b == z3.StringVal(''))
        dot = s == z3.Concat(a, z3.StringVal('.'), b)
        br = z3.And(s == z3.Concat(a, b), z3.PrefixOf(z3.StringVal('['), b))
        return z3.Or(none, dot, br)
    c.ensures('the variable name has no dot and no bracket', lambda: z3.And(
        *[z3.Not(z3.Contains(S.get(c.result, 0), z3.StringVal(x))) for x in '.[']))
    c.ensures('the rest follows the first dot, or starts with the first bracket', cut)


def dom(c, view=None):
    return c.S.get((view or c.old)[WM], 0)


def var_ret(c, what, sort, *args):
    t = z3.Const('trace.now', Int) if False else c.S.slen(c.old.trace)
    args = [c.this] + list(args) + [t]
    return z3.Function(what, *[a.sort() for a in args], sort)(*args)


@contract(V + '::GetValue', abstract=True, nparams=2)
def var_get(c):
    a, n = c.old.arg(0), c.old.arg(1)
    c.emit(VGET, obj=c.this, args=[n])
    c.modifies('arg:0')
    got = var_ret(c, 'var_got', a.sort(), a, n)
    c.returns(var_ret(c, 'var_read', z3.BoolSort(), n))
    c.ensures('the value read', lambda: c.new.arg(0) == got)


@contract(V + '::SetValue', abstract=True, nparams=2)
def var_set(c):
    a, n = c.old.arg(0), c.old.arg(1)
    c.emit(VSET, obj=c.this, args=[a, n])
    c.returns(var_ret(c, 'var_written', z3.BoolSort(), a, n))


@contract(V + '::Reset', abstract=True, nparams=1)
def var_reset(c):
    c.emit(VRESET, obj=c.this)
    c.may_throw('std::exception')


@contract(V + '::SetNotifyCallback', abstract=True, nparams=1)
def var_notify(c):
    c.emit(VNOTIFY, obj=c.this, fn=c.old.arg(0))


def addressed(c, tag, nargs):
    """exactly one operation of this kind, on the variable before the first dot or bracket, with the field after it"""
    S = c.S

    def go():
        sp = split_of(c, c.old.arg(0))
        name, fld = S.get(sp, 0), S.get(sp, 1)
        ev = c.log
        known = z3.Select(dom(c), name)
        if not ev:
            return z3.And(z3.Not(known), z3.Not(c.result), *([c.new.arg(1) == c.old.arg(1)]))
        if len(ev) != 1 or ev[0]['tag'] != tag:
            return False
        e = ev[0]
        out = [known, e['obj'] == var_of(c, name), c.I.as_term(e['args'][-1], None) == fld, c.result == e['ret']]
        if nargs == 2:
            out.append(c.I.as_term(e['args'][0], None) == c.old.arg(1))
        return z3.And(*out)
    return go


@contract(W + '::GetValue', props=['C16'], modifies=['arg:1', 'trace'])
def ws_get(c):
    if c.mode == 'call':
        return
    have_vars(c)
    c.ensures('reads exactly the addressed variable and field, and fails without one', addressed(c, VGET, 1))

    def value():
        ev = c.logged(VGET)
        if not ev:
            return c.new.arg(1) == c.old.arg(1)
        e = ev[0]
        a = c.old.arg(1)
        args = [e['obj'], a, c.I.as_term(e['args'][0], None), c.S.slen(c.old.trace)]
        return c.new.arg(1) == z3.Function('var_got', *[x.sort() for x in args], a.sort())(*args)
    c.ensures('delivers what the variable gives', value)


@contract(W + '::SetValue', props=['C16'], modifies=['trace'])
def ws_set(c):
    if c.mode == 'call':
        return
    have_vars(c)
    c.ensures('writes exactly the addressed variable and field, and fails without one', addressed(c, VSET, 2))


@contract(W + '::ResetVariable', props=['C16'], modifies=['trace'])
def ws_reset(c):
    if c.mode == 'call':
        return
    have_vars(c)
    c.may_throw('std::exception')

    def go():
        ev = c.log
        known = z3.Select(dom(c), c.old.arg(0))
        if not ev:
            return z3.And(z3.Not(known), z3.Not(c.result))
        return z3.And(len(ev) == 1 and ev[0]['tag'] == VRESET, known, ev[0]['obj'] == var_of(c, c.old.arg(0)), c.result)
    c.ensures('resets exactly the variable of that name, and fails without one', go)


@contract(W + '::ContainsVariableName', props=['C16'], pure=True)
def ws_contains(c):
    c.returns(z3.Select(dom(c), c.old.arg(0)))
    c.ensures('tells whether there is a variable of that name', lambda: c.result == z3.Select(dom(c), c.old.arg(0)))


@contract(W + '::HasVariable', props=['C16'], pure=True)
def ws_has(c):
    c.returns(z3.Select(dom(c), c.old.arg(0)))
    c.ensures('tells whether there is a variable of that name', lambda: c.result == z3.Select(dom(c), c.old.arg(0)))


@contract(W + '::GetVariable', props=['C16'], pure=True)
def ws_getvar(c):
    v = z3.If(z3.Select(dom(c), c.old.arg(0)), var_of(c, c.old.arg(0)), 0)
    c.returns(v)
    c.ensures('the variable of that name, or none', lambda: c.result == v)


def found_vars(L):
    S, out = L.S, []
    if L.k is None or L.c.f['q'] != W + '::GetVariables':
        return None
    d = dom(L.c)
    for n, w in L.changed(S.seq(Int)):
        out += [S.slen(w) == L.k, forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < L.k), S.at(w, i) == z3.If(
            z3.Select(d, S.at(L.seq, i)), var_of(L.c, S.at(L.seq, i)), 0)), pats=lambda i: S.at(w, i))]
    return out


@contract(W + '::GetVariables', props=['C16'], loops=[found_vars])
def ws_getvars(c):
    S = c.S
    ns = c.old[WN]
    c.ensures('the variables in the order added', lambda: z3.And(
        S.slen(c.result) == S.slen(ns), forall([Int], lambda i: z3.Implies(rng(S, ns, i), S.at(c.result, i) == z3.If(
            z3.Select(dom(c), S.at(ns, i)), var_of(c, S.at(ns, i)), 0)))))


@contract(W + '::VariableNames', props=['C16'])
def ws_names(c):
    c.ensures('the names in the order added', lambda: c.S.seq_eq(c.result, c.old[WN]))


def consistent(c, view):
    """the list holds no name twice, and only names of variables"""
    S, ns = c.S, view[WN]
    return z3.And(forall([Int], lambda i: z3.Implies(rng(S, ns, i), z3.Select(dom(c, view), S.at(ns, i))), pats=lambda i: S.at(ns, i)),
                  forall([Int, Int], lambda i, j: z3.Implies(z3.And(0 <= i, i < j, j < S.slen(ns)), S.at(ns, i) != S.at(ns, j)),
                         pats=lambda i, j: z3.MultiPattern(S.at(ns, i), S.at(ns, j))))


@contract(W + '::AddVariable', props=['C16', 'C18'], modifies=['this.' + WM, 'this.' + WN, 'arg:1', 'trace'], nparams=2)
def ws_add(c):
    S = c.S
    name, var = c.old.arg(0), c.old.arg(1)
    c.requires('there is a variable to add', var > 0)
    if c.mode == 'call':
        return
    have_vars(c)
    c.throws(N + 'InvalidOperationException', z3.Select(dom(c), name), 'refuses exactly a name that is already there')

    def added():
        a, b = c.old[WN], c.new[WN]
        n = S.slen(a)
        m, m2 = c.old[WM], c.new[WM]
        return z3.And(c.result, S.slen(b) == n + 1, S.at(b, n) == name,
                      forall([Int], lambda i: z3.Implies(rng(S, a, i), S.at(b, i) == S.at(a, i))),
                      S.get(m2, 0) == z3.Store(S.get(m, 0), name, z3.BoolVal(True)),
                      S.get(m2, 1) == z3.Store(S.get(m, 1), name, var))
    c.ensures('adds exactly this variable under this name, last in the list', added, on='normal')
    c.ensures('no name is listed twice, and every listed name has a variable', lambda: z3.Implies(consistent(c, c.old), consistent(c, c.new)), on='normal')
    c.ensures('a refused variable changes nothing', lambda: z3.And(
        c.new[WN] == c.old[WN], c.new[WM] == c.old[WM], c.new.arg(1) == var, not c.log), on='throw')
    c.ensures('takes the variable over and asks it, once, for its updates', lambda: z3.And(
        c.new.arg(1) == 0, len(c.log) == 1 and c.log[0]['tag'] == VNOTIFY, *[e['obj'] == var for e in c.log]), on='normal')


# the type registry of the dependency
TR = 'sup::dto::AnyTypeRegistry'
ENTITIES.add(TR)
TYPEREG, TYPEHAS, TYPEGET = 110, 111, 112


@contract(TR + '::HasType', abstract=True, nparams=1)
def tr_has(c):
    c.emit(TYPEHAS, obj=c.this, args=[c.old.arg(0)])
    c.returns(z3.Function('registry_has', Int, c.S.Str, z3.BoolSort())(c.this, c.old.arg(0)))


@contract(TR + '::GetType', abstract=True, nparams=1)
def tr_get(c):
    c.emit(TYPEGET, obj=c.this, args=[c.old.arg(0)])
    n = c.old.arg(0)
    c.throws('sup::dto::InvalidOperationException', z3.Not(z3.Function('registry_has', Int, c.S.Str, z3.BoolSort())(c.this, n)))
    c.returns(z3.Function('registry_type', Int, c.S.Str, c.S.opq('sup::dto::AnyType'))(c.this, n))


@contract(TR + '::RegisterType', abstract=True, nparams=1)
def tr_register(c):
    c.emit(TYPEREG, obj=c.this, args=[c.old.arg(0)])


WTR = W + '::m_type_registry'


@contract(W + '::RegisterType', props=['C16'], modifies=['trace'], nparams=1)
def ws_register(c):
    S = c.S
    t = c.old.arg(0)
    reg = c.old[WTR]
    c.requires('the workspace has a type registry', reg > 0)
    if c.mode == 'call':
        return
    from contracts.dto import dep

    def go():
        name = dep_name(c, t)
        has = z3.Function('registry_has', Int, S.Str, z3.BoolSort())(reg, name)
        old = z3.Function('registry_type', Int, S.Str, t.sort())(reg, name)
        evs = c.logged(TYPEREG)
        same = c.I.as_term(same_type(c, t, old), None)
        if not evs:
            return z3.And(has, c.result == same)
        return z3.And(len(evs) == 1, z3.Not(has), evs[0]['obj'] == reg, c.I.as_term(evs[0]['args'][0], None) == t, c.result)
    c.ensures('registers an unknown type once; a known name succeeds exactly for the same type', go)


def dep_name(c, t):
    return z3.Function('dep:sup::dto::AnyType::GetTypeName/%s' % t.sort().name(), t.sort(), c.S.Str)(t)


def same_type(c, a, b):
    return z3.Function('dep:sup::dto::AnyType::operator==/%s,%s' % (a.sort().name(), b.sort().name()), a.sort(), b.sort(), z3.BoolSort())(a, b)
