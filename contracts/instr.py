"""Contracts of the instruction life cycle and of the control instructions: C06 - C12.

Vocabulary.  The status of an instruction r is its member m_status, read as the heap H: address -> status.  A tick,
reset or halt of another instruction is a call recorded in the caller's log (c.log) that may change the status of that
instruction and of the nodes strictly below it and of nothing else: `below` is the ownership order of the tree, of which
children of one compound are disjoint, non-null and not ancestors of their parent (assumed: unique_ptr ownership).
"""
import z3

from contracts.dto import any_sort, converted, dep, elem, is_array, n_elements
from engine.verify import MONITORS, contract, forall

N = 'sup::oac_tree::'
Int = z3.IntSort()
INS = N + 'Instruction'
STAT = INS + '::m_status'
HALTF = INS + '::m_halt_requested'
INIT, EXEC, NOTIFY, TICK, RESET, HALT, SETUP, HOOKRESET, HALTIMPL, LOG, LAUNCH, JOIN = range(10, 22)

MONITORS[INS] = {'cls': INS, 'mutex': 'm_status_mutex', 'only': ['m_status'], 'stable': True}

SUBTREE = ['heap:' + STAT, 'heap:' + HALTF, 'heap:' + INS + '::m_status_before', 'trace']
CALLS = SUBTREE + ['ticks', 'resets', 'halts']
below = z3.Function('below', Int, Int, z3.BoolSort())


def st(c, n):
    return c.enum(N + 'ExecutionStatus::' + n)


def status_in(c, x, *names):
    return z3.Or(*[x == st(c, n) for n in names])


def finished(c, x):
    return status_in(c, x, 'SUCCESS', 'FAILURE')


def ready(c, x):
    return status_in(c, x, 'NOT_STARTED', 'NOT_FINISHED')


def valid(c, x):
    return status_in(c, x, 'NOT_STARTED', 'NOT_FINISHED', 'RUNNING', 'SUCCESS', 'FAILURE')


def heap(c, view, field=STAT):
    cls, n = field.rsplit('::', 1)
    return view.heap(c.V.fkey(cls, n))


def status(c, view, r):
    return z3.Select(heap(c, view), r)


def only_subtree(c, r):
    """the statuses that differ belong to r or to nodes below it"""
    a, b = heap(c, c.old), heap(c, c.new)
    x = z3.FreshInt('sx')
    return z3.ForAll([x], z3.Implies(z3.And(x != r, z3.Not(below(x, r))), z3.Select(a, x) == z3.Select(b, x)),
                     patterns=[z3.Select(b, x)])


# ------------------------------------------------------------------------------------------ collaborators
@contract(N + 'UserInterface::UpdateInstructionStatus', abstract=True)
def ui_update(c):
    c.emit(NOTIFY, obj=c.this, args=[c.args[0]])


for _q in ('LogError', 'LogWarning', 'LogInfo', 'LogMessage'):
    @contract(N + _q, abstract=True)
    def log_call(c):
        c.emit(LOG)


@contract(INS + '::InitHook', abstract=True)
def init_hook(c):
    c.emit(INIT, obj=c.this)
    c.modifies('heap:' + STAT)
    c.ensures('changes only statuses below', lambda: z3.And(only_subtree(c, c.this),
                                                            status(c, c.new, c.this) == status(c, c.old, c.this)))


@contract(INS + '::ExecuteSingleImpl', abstract=True)
def exec_impl(c):
    c.emit(EXEC, obj=c.this)
    c.modifies('heap:' + STAT)
    c.ensures('changes only statuses below', lambda: z3.And(only_subtree(c, c.this),
                                                            status(c, c.new, c.this) == status(c, c.old, c.this)))


@contract(INS + '::ResetHook', abstract=True)
def reset_hook(c):
    c.emit(HOOKRESET, obj=c.this)
    c.modifies('heap:' + STAT)
    c.ensures('changes only statuses below', lambda: z3.And(only_subtree(c, c.this),
                                                            status(c, c.new, c.this) == status(c, c.old, c.this)))


@contract(INS + '::HaltImpl', abstract=True)
def halt_impl(c):
    c.emit(HALTIMPL, obj=c.this)


@contract(N + 'AttributeHandler::ClearFailedConstraints', abstract=True)
def clear_failed(c):
    c.modifies('this')


# ------------------------------------------------------------------------------------------ C06 life cycle
@contract(INS + '::GetStatus', props=['C06'], pure=True)
def get_status(c):
    r = status(c, c.old, c.this)
    c.returns(r)
    c.ensures('returns the status', lambda: c.result == r)


@contract(INS + '::IsHaltRequested', props=['C06'], modular=False)
def is_halt(c):
    def loaded():
        ls = loads(c)
        return c.result == ls[-1] if ls else False
    c.ensures('reports the halt request as it is now', loaded)


def loads(c):
    k = c.V.fkey(INS, 'm_halt_requested')
    return [v for kk, lv, v in c.I.aloads if kk == k]


@contract(INS + '::ExecuteSingle', props=['C06'], modifies=['trace'])
def execute_single(c):
    S = c.S
    me = c.this
    c.modifies('heap:' + STAT)
    c.modifies('heap:' + INS + '::m_status_before') if c.mode == 'call' else c.modifies('this.' + INS + '::m_status_before')
    if c.mode == 'call':
        c.emit(TICK, obj=me)
        c.count('ticks', me)
        c.ensures('only this instruction and nodes below it change status', lambda: only_subtree(c, me))
        c.ensures('the status is one of the five', lambda: valid(c, status(c, c.new, me)))
        return
    s0 = status(c, c.old, me)
    T, F = z3.BoolVal(True), z3.BoolVal(False)

    def inits():
        return c.logged(INIT)

    def s1():
        i = inits()
        ok = i[0]['ret'] if i else F
        return z3.If(s0 == st(c, 'NOT_STARTED'), z3.If(ok, st(c, 'NOT_FINISHED'), st(c, 'FAILURE')), s0)

    def execs():
        return c.logged(EXEC)

    def mine(es):
        return z3.And(*[e['obj'] == me for e in es]) if es else T
    c.ensures('runs its initialisation exactly when it has not started, once',
              lambda: z3.And(z3.BoolVal(len(inits()) == 1) == (s0 == st(c, 'NOT_STARTED')), len(inits()) <= 1, mine(inits())))
    c.ensures('initialises before executing',
              lambda: c.logged(INIT, EXEC)[0]['tag'] == INIT if inits() and execs() else True)

    def exec_iff():
        n = len(execs())
        if n > 1:
            return False
        ls = loads(c)
        need = z3.Not(finished(c, s1()))
        if n == 1:
            return z3.And(need, z3.Not(ls[-1]), mine(execs())) if ls else False
        return z3.Implies(need, z3.Or(*ls)) if ls else z3.Not(need)
    c.ensures('executes exactly when unfinished and not halted, once', exec_iff)

    def final():
        e = execs()
        return e[0]['ret'] if e else s1()
    c.ensures('its status becomes what the execution returned, else that of the initialisation',
              lambda: status(c, c.new, me) == final())

    def notes():
        ns = c.logged(NOTIFY)
        e = execs()
        n1 = z3.If(s0 == st(c, 'NOT_STARTED'), 1, 0)
        n2 = z3.If(e[0]['ret'] != s1(), 1, 0) if e else z3.IntVal(0)
        return len(ns) == n1 + n2
    c.ensures('reports once for each phase that changed the status, never otherwise', notes)

    def note_content():
        out = []
        ns = c.logged(NOTIFY)
        seq = c.logged(NOTIFY, EXEC)
        for i, x in enumerate(ns):
            out.append(c.I.as_term(x['args'][0], None) == me)
            out.append(x['obj'] == c.args[0])
            after = any(y is x for y in seq) and any(y['tag'] == EXEC for y in seq[:seq.index(x)])
            if len(ns) == 2:
                out.append(z3.BoolVal(after == (i == 1)))
                want = s1() if i == 0 else final()
            else:
                want = z3.If(s0 == st(c, 'NOT_STARTED'), s1(), final())
            out.append(status(c, c.view(x['snap']), me) == want)
        return z3.And(*out) if out else T
    c.ensures('reports itself, with the status already in place', note_content)
    c.ensures('does nothing to other instructions itself', lambda: not c.logged(TICK, RESET, HALT))


@contract(INS + '::Halt', props=['C06'], modifies=['trace'])
def halt(c):
    me = c.this
    if c.mode == 'call':
        c.emit(HALT, obj=me)
        c.count('halts', me)
        c.modifies('heap:' + HALTF)
        return
    c.modifies('this.' + HALTF)
    key = c.V.fkey(INS, 'm_halt_requested')
    c.ensures('leaves a halt request behind',
              lambda: z3.And(*([v for k, lv, v in c.I.astores if k == key][-1:] or [z3.BoolVal(False)])))
    c.ensures('passes the request on exactly once', lambda: len(c.log) == 1 and c.log[0]['tag'] == HALTIMPL)


@contract(INS + '::Reset', props=['C06'], modifies=['trace'])
def reset(c):
    me = c.this
    c.modifies('heap:' + STAT)
    if c.mode == 'call':
        c.emit(RESET, obj=me)
        c.count('resets', me)
        c.modifies('heap:' + HALTF, 'heap:' + INS + '::m_status_before')
        c.ensures('not started afterwards', lambda: status(c, c.new, me) == st(c, 'NOT_STARTED'))
        c.ensures('only this instruction and nodes below it change status', lambda: only_subtree(c, me))
        return
    c.modifies('this.' + HALTF, 'this.' + INS + '::m_status_before', 'this.' + INS + '::m_attribute_handler')
    key = c.V.fkey(INS, 'm_halt_requested')
    s0 = status(c, c.old, me)
    ns = st(c, 'NOT_STARTED')
    c.ensures('the status is not started', lambda: status(c, c.new, me) == ns)
    c.ensures('no halt request is left',
              lambda: z3.And(*([z3.Not(v) for k, lv, v in c.I.astores if k == key][-1:] or [z3.BoolVal(False)])))
    c.ensures('runs the reset hook exactly once, with the status still in place',
              lambda: z3.And(status(c, c.view(c.logged(HOOKRESET)[0]['snap']), me) == s0)
              if len(c.logged(HOOKRESET)) == 1 and not c.logged(INIT, EXEC, TICK) else False)
    c.ensures('reports the change exactly when there is one',
              lambda: z3.And(z3.BoolVal(len(c.logged(NOTIFY)) == 1) == (s0 != ns), len(c.logged(NOTIFY)) <= 1,
                             *[z3.And(c.I.as_term(x['args'][0], None) == me, x['obj'] == c.args[0],
                                      status(c, c.view(x['snap']), me) == ns) for x in c.logged(NOTIFY)]))


# ------------------------------------------------------------------------------------------ children
COMP = N + 'CompoundInstruction'
DECO = N + 'DecoratorInstruction'
KIDS = COMP + '::m_children'
CHILD = DECO + '::m_child'


def disjoint(c, seq, me=None):
    """the nodes of a list of children are distinct, not null, and none is above another or above the parent"""
    S = c.S
    i, j = z3.Ints('di dj')
    at = lambda k: S.at(seq, k)
    n = S.slen(seq)
    me = c.this if me is None else me
    c.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(at(i) > 0, at(i) != me, z3.Not(below(me, at(i))),
                                                                     below(at(i), me))), patterns=[at(i)]))
    c.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < n, 0 <= j, j < n, i != j),
                                          z3.And(at(i) != at(j), z3.Not(below(at(i), at(j))))),
                       patterns=[z3.MultiPattern(at(i), at(j))]))
    # position of a child (exists since the children are distinct)
    c.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), pos(at(i)) == i), patterns=[at(i)]))
    heapinv(c)


pos = z3.Function('position', Int, Int)


def member(c, seq, x):
    return z3.And(0 <= pos(x), pos(x) < c.S.slen(seq), c.S.at(seq, pos(x)) == x)


def counted(c, ghost, seq, hit, view=None):
    """between entry and now: exactly the children with hit(i) got one more call, nothing else did"""
    a, b = c.old.ghost(ghost), (view or c.new).ghost(ghost)
    i, x = z3.FreshInt('gi'), z3.FreshInt('gx')
    return z3.And(forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < c.S.slen(seq)),
                                                     b[c.S.at(seq, i)] == a[c.S.at(seq, i)] + z3.If(hit(i), 1, 0))),
                  forall([Int], lambda x: z3.Implies(z3.Not(member(c, seq, x)), b[x] == a[x])))


def heapinv(c):
    """every status in the old state is one of the five (established by the constructor and every write)"""
    x = z3.FreshInt('hx')
    h = heap(c, c.old)
    c.assume(z3.ForAll([x], valid(c, z3.Select(h, x)), patterns=[z3.Select(h, x)]))


def is_a(c, cls):
    return cls in c.V.prog.bases(c.f.get('cls') or '') or c.f.get('cls') == cls


kidsfn = {}


def kids_of(c, view, r):
    """the children of r, in order"""
    top = c.I.top_this
    cls = c.V.f.get('cls') or ''
    if z3.is_expr(r) and z3.is_expr(top) and r.eq(top):
        if COMP in c.V.prog.bases(cls) or cls == COMP:
            return view.fld(r, KIDS)
        if DECO in c.V.prog.bases(cls) or cls == DECO:
            ch = view.fld(r, CHILD)
            none = c.S.lit_seq(Int, [])
            return z3.If(ch == 0, none, c.S.lit_seq(Int, [ch]))
    return z3.Function('kids', Int, c.S.seq(Int))(r)


@contract(INS + '::ChildInstructions', props=['C13'], loops=[lambda L: copied(L)])
def child_instructions(c):
    ks = kids_of(c, c.old, c.this)
    c.ensures('the children in order', lambda: c.S.seq_eq(c.result, ks))
    if c.mode == 'call':
        c.ret_term = ks


@contract(INS + '::ChildInstructionsImpl', abstract=True)
def child_instructions_impl(c):
    c.ret_term = kids_of(c, c.old, c.this)


# ------------------------------------------------------------------------------------------ C07 sequence, fallback
def st_at(c, view, seq):
    h = heap(c, view)
    return lambda i: z3.Select(h, c.S.at(seq, i))


def seq_in(L):
    """the list a loop runs over: its range, or the children for a loop by index"""
    if L.seq is not None:
        return L.seq if L.c.S.elem(L.seq) == Int else None
    return L.c.extra.get('kids')


def all_status(name):
    def cand(L):
        q = seq_in(L)
        if q is None or L.k is None:
            return None
        h = heap(L.c, L.cur)
        return forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < L.k, i < L.S.slen(q)),
                                                  z3.Select(h, L.S.at(q, i)) == st(L.c, name)))
    cand.__name__ = 'all_before_' + name
    return cand


def calls_so_far(ghost, hit=None):
    """the children before the loop position with hit(i) were called once in this loop, no other object was"""
    def cand(L):
        q = seq_in(L)
        if q is None or L.k is None:
            return None
        a, b = L.entry.ghost(ghost), L.cur.ghost(ghost)
        c, S = L.c, L.S
        h = hit(L) if hit else (lambda i: z3.BoolVal(True))
        if h is None:
            return None
        return [forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < S.slen(q)),
                                                   b[S.at(q, i)] == a[S.at(q, i)] + z3.If(z3.And(i < L.k, h(i)), 1, 0))),
                forall([Int], lambda x: z3.Implies(z3.Not(member(c, q, x)), b[x] == a[x]))]
    cand.__name__ = 'calls_' + ghost
    return cand


def others(L):
    """all children but the one that was ticked"""
    f = L.c.extra.get('first')
    return None if f is None else (lambda i: i != f)


def status_kept(L):
    """the ticked child and its subtree keep their status while other children are reset"""
    f = L.c.extra.get('first')
    q = seq_in(L)
    if f is None or q is None:
        return None
    x = L.S.at(q, f)
    return z3.Implies(z3.And(0 <= f, f < L.S.slen(q)), z3.Select(heap(L.c, L.cur), x) == z3.Select(heap(L.c, L.entry), x))


def none_bad(bad):
    def cand(L):
        q = seq_in(L)
        return None if q is None else none_is(L.c, L.cur, q, bad)
    cand.__name__ = 'none_is_' + bad
    return cand


def copied(L):
    """a list being built holds the elements seen so far"""
    if L.seq is None:
        return None
    S = L.S
    out = []
    for n, w in L.slots(L.seq.sort()):
        if w.eq(L.seq):
            continue
        out.append(z3.And(S.slen(w) == L.k, forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < L.k), S.at(w, i) == S.at(L.seq, i)))))
    return out


def rest_kept(L):
    """children behind the loop position have their status from before the loop"""
    q = seq_in(L)
    if q is None or L.k is None:
        return None
    a, b = heap(L.c, L.entry), heap(L.c, L.cur)
    return forall([Int], lambda i: z3.Implies(z3.And(L.k <= i, i < L.S.slen(q)), b[L.S.at(q, i)] == a[L.S.at(q, i)]))


def self_kept(L):
    """the instruction itself keeps its status while children are called"""
    x = L.c.this
    if not z3.is_expr(x):
        return None
    return z3.Select(heap(L.c, L.cur), x) == z3.Select(heap(L.c, L.entry), x)


def combine(c, view, seq, good):
    """status of a sequence (good=SUCCESS) or fallback (good=FAILURE) from the statuses of its children"""
    s = st_at(c, view, seq)
    g = c.first(c.S.slen(seq), lambda i: s(i) != st(c, good))
    x = s(g)
    return z3.If(g == c.S.slen(seq), st(c, good), z3.If(ready(c, x), st(c, 'NOT_FINISHED'), x))


def not_ended(c, seq, bad):
    """a tick only comes while the instruction is unfinished: no child has ended it yet"""
    s = st_at(c, c.old, seq)
    c.requires('no child has ended the instruction already',
               forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < c.S.slen(seq)), s(i) != st(c, bad))))
    c.ensures('an unfinished result leaves no child that has ended the instruction',
              lambda: z3.Or(finished(c, c.result), none_is(c, c.new, seq, bad)))


def none_is(c, view, seq, bad):
    s = st_at(c, view, seq)
    return forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < c.S.slen(seq)), s(i) != st(c, bad)))


def setup_kids(c):
    seq = kids_of(c, c.old, c.this)
    c.extra['kids'] = seq
    disjoint(c, seq)
    return seq


def nobody(i):
    return z3.BoolVal(False)


def next_contract(Q, good, prop):
    @contract(Q + '::NextInstructionsImpl', props=[prop], loops=[all_status(good)])
    def nexts(c):
        seq = setup_kids(c)
        S = c.S
        s = st_at(c, c.old, seq)
        f = c.first(S.slen(seq), lambda i: s(i) != st(c, good), 'first')
        has = z3.And(f < S.slen(seq), ready(c, s(f)))
        c.ensures('announces exactly the child that the next tick would execute',
                  lambda: z3.If(has, z3.And(S.slen(c.result) == 1, S.at(c.result, z3.IntVal(0)) == S.at(seq, f)),
                                S.slen(c.result) == 0))


def sequential(cls, good, bad):
    Q = N + cls

    @contract(Q + '::ExecuteSingleImpl', props=['C07'], modifies=CALLS,
              loops=[all_status(good), calls_so_far('ticks'), rest_kept])
    def execute(c):
        seq = setup_kids(c)
        s = st_at(c, c.old, seq)
        n = c.S.slen(seq)
        f = c.first(n, lambda i: s(i) != st(c, good), 'first')
        not_ended(c, seq, bad)
        c.ensures('ticks exactly the first child that has not ended with %s, if it is unfinished' % good.lower(),
                  lambda: counted(c, 'ticks', seq, lambda i: z3.And(i == f, z3.Not(finished(c, s(f))))))
        c.ensures('resets nothing', lambda: c.new.ghost('resets') == c.old.ghost('resets'))
        c.ensures('halts nothing', lambda: c.new.ghost('halts') == c.old.ghost('halts'))
        c.ensures('combines the statuses of the children', lambda: c.result == combine(c, c.new, seq, good))
    next_contract(Q, good, 'C07')


sequential('Sequence', 'SUCCESS', 'FAILURE')
sequential('Fallback', 'FAILURE', 'SUCCESS')


# ------------------------------------------------------------------------------------------ C08 reactive
def reactive(cls, good, bad):
    Q = N + cls

    @contract(Q + '::ExecuteSingleImpl', props=['C08'], modifies=CALLS,
              loops=[all_status(good), calls_so_far('ticks'), calls_so_far('resets', others), status_kept, rest_kept, none_bad(bad)])
    def execute(c):
        seq = setup_kids(c)
        s = st_at(c, c.old, seq)
        n = c.S.slen(seq)
        f = c.first(n, lambda i: s(i) != st(c, good), 'first')
        c.extra['first'] = f
        not_ended(c, seq, bad)
        tick = z3.And(f < n, z3.Not(finished(c, s(f))))
        c.ensures('ticks exactly the first child that has not ended with %s, if it is unfinished' % good.lower(),
                  lambda: counted(c, 'ticks', seq, lambda i: z3.And(i == f, tick)))

        def running():
            return z3.And(tick, z3.Select(heap(c, c.new), c.S.at(seq, f)) == st(c, 'RUNNING'))
        c.ensures('resets every other child when the ticked one is running, and nothing otherwise',
                  lambda: counted(c, 'resets', seq, lambda i: z3.And(running(), i != f)))
        c.ensures('halts nothing', lambda: c.new.ghost('halts') == c.old.ghost('halts'))
        c.ensures('is running when the ticked child is, otherwise combines the statuses of the children',
                  lambda: c.result == z3.If(running(), st(c, 'RUNNING'), combine(c, c.new, seq, good)))
    next_contract(Q, good, 'C08')


reactive('ReactiveSequence', 'SUCCESS', 'FAILURE')
reactive('ReactiveFallback', 'FAILURE', 'SUCCESS')


# ------------------------------------------------------------------------------------------ C11 choice
CHO = N + 'Choice'
CL, CI = CHO + '::m_instruction_list', CHO + '::m_instruction_list_initialized'


def selected(c):
    """(valid selector, number selected, index of the i-th): what the selector variable says now"""
    name = const(c, 'VAR')
    rd, v = attr_value(c, name, any_sort(c))
    arr = is_array(c, v)
    n = z3.If(arr, n_elements(c, v), 1)
    at = lambda i: z3.If(arr, elem(c, v, i), v)
    conv = lambda i: converted(c, at(i), 'unsigned long')
    return v, rd, n, conv


def picked_part(c, seq, kids, conv, n):
    S = c.S
    return z3.And(S.slen(seq) == n, forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < n), z3.And(
        conv(i)[0], conv(i)[1] < S.slen(kids), S.at(seq, i) == S.at(kids, conv(i)[1])))))


def indices_so_far(L):
    """the indices read so far are the converted elements"""
    c, S = L.c, L.S
    if L.k is None or c.f.get('cls') != CHO or L.seq is not None:
        return None
    v, _, _, conv = selected(c)
    return [z3.And(0 <= L.k, L.k <= n_elements(c, v))] + [z3.And(S.slen(w) == L.k, forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < L.k), z3.And(
        conv(i)[0], S.at(w, i) == conv(i)[1])))) for n, w in L.slots(S.seq(Int)) if n in L.I.loop_havoc]


def children_so_far(L):
    """the list built so far holds the children with the indices seen so far"""
    c, S = L.c, L.S
    if L.k is None or c.f.get('cls') != CHO or L.seq is None:
        return None
    kids = c.extra['kids']
    return [z3.And(S.slen(w) == L.k, forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < L.k), z3.And(
        S.at(L.seq, i) < S.slen(kids), S.at(w, i) == S.at(kids, S.at(L.seq, i))))))
        for n, w in L.slots(S.seq(Int)) if n in L.I.loop_havoc]


def no_calls(*ghosts):
    def cand(L):
        return [L.cur.ghost(g) == L.entry.ghost(g) for g in ghosts]
    cand.__name__ = 'no_calls'
    return cand


def choice_list(c):
    """the list of selected children: children, of which different ones are in different branches of the tree"""
    S = c.S
    seq = c.old[CL]
    i, j = z3.Ints('li lj')
    at = lambda k: S.at(seq, k)
    n = S.slen(seq)
    c.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(at(i) > 0, at(i) != c.this,
                                                                     z3.Not(below(c.this, at(i))))), patterns=[at(i)]))
    c.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < n, 0 <= j, j < n, at(i) != at(j)),
                                          z3.Not(below(at(i), at(j)))), patterns=[z3.MultiPattern(at(i), at(j))]))
    heapinv(c)
    return seq


def success_before(L):
    q = L.seq
    if q is None or L.k is None or L.c.f.get('cls') != CHO or not q.eq(L.cur[CL]):
        return None
    h = heap(L.c, L.cur)
    return forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < L.k, i < L.S.slen(q)),
                                              z3.Select(h, L.S.at(q, i)) == st(L.c, 'SUCCESS')))


@contract(CHO + '::ExecuteSingleImpl', props=['C11'], modifies=CALLS + ['this.' + CL, 'this.' + CI],
          loops=[indices_so_far, children_so_far, success_before, no_calls('ticks')])
def choice_exec(c):
    S = c.S
    kids = kids_of(c, c.old, c.this)
    c.extra['kids'] = kids
    seq = choice_list(c)
    v, rd, n, conv = selected(c)
    c.requires('the selector attribute is present (mandatory)', has_attr(c, const(c, 'VAR')))
    c.assume(n >= 0)
    init = c.old[CI]
    c.requires('nothing is selected before the selector is read', z3.Or(init, S.slen(seq) == 0))
    s = st_at(c, c.old, seq)
    f = c.first(S.slen(seq), lambda i: s(i) != st(c, 'SUCCESS'), 'first')
    not_ended(c, seq, 'FAILURE')
    ok = lambda: c.result == st(c, 'NOT_FINISHED')
    c.ensures('the first tick only reads the selector',
              lambda: z3.Implies(z3.Not(init), z3.And(c.new.ghost('ticks') == c.old.ghost('ticks'), c.new[CI],
                                                      z3.Or(ok(), c.result == st(c, 'FAILURE')))))
    c.ensures('selects exactly the children named by the selector, in its order',
              lambda: z3.Implies(z3.And(z3.Not(init), ok()), z3.And(rd, picked_part(c, c.new[CL], kids, conv, n))))
    w = z3.FreshInt('w')
    good = z3.And(rd, forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < n), z3.And(
        conv(i)[0], conv(i)[1] < S.slen(kids)))))
    c.ensures('fails on a missing selector, one that is no index, or an index outside the children',
              lambda: z3.Implies(z3.And(z3.Not(init), z3.Not(ok())), z3.And(z3.Not(good), S.slen(c.new[CL]) == 0)))
    tick = z3.And(f < S.slen(seq), z3.Not(finished(c, s(f))))
    c.ensures('later ticks tick exactly the first selected child that has not succeeded',
              lambda: z3.Implies(init, one_call(c, 'ticks', S.at(seq, f), tick)))
    c.ensures('later ticks keep the selection', lambda: z3.Implies(init, z3.And(c.new[CI], S.seq_eq(c.new[CL], seq))))
    c.ensures('resets nothing', lambda: c.new.ghost('resets') == c.old.ghost('resets'))
    c.ensures('halts nothing', lambda: c.new.ghost('halts') == c.old.ghost('halts'))
    c.ensures('later ticks combine the statuses of the selected children',
              lambda: z3.Implies(init, c.result == combine(c, c.new, seq, 'SUCCESS')))


@contract(CHO + '::NextInstructionsImpl', props=['C11'], loops=[success_before])
def choice_next(c):
    S = c.S
    seq = choice_list(c)
    s = st_at(c, c.old, seq)
    f = c.first(S.slen(seq), lambda i: s(i) != st(c, 'SUCCESS'), 'first')
    has = z3.And(f < S.slen(seq), ready(c, s(f)))
    c.ensures('announces exactly the selected child that the next tick would execute',
              lambda: z3.If(has, z3.And(S.slen(c.result) == 1, S.at(c.result, z3.IntVal(0)) == S.at(seq, f)),
                            S.slen(c.result) == 0))


@contract(CHO + '::ResetHook', props=['C11'], modifies=CALLS + ['this.' + CL, 'this.' + CI],
          loops=[calls_so_far('resets'), self_kept])
def choice_reset(c):
    seq = setup_kids(c)
    c.ensures('resets every child once', lambda: counted(c, 'resets', seq, lambda i: z3.BoolVal(True)))
    c.ensures('forgets the selection', lambda: z3.And(c.S.slen(c.new[CL]) == 0, z3.Not(c.new[CI])))


# ------------------------------------------------------------------------------------------ C13 children
@contract(COMP + '::ChildInstructionsImpl', props=['C13'], loops=[copied], modular=False)
def compound_children(c):
    c.ensures('the children in order', lambda: c.S.seq_eq(c.result, c.old[KIDS]))


@contract(COMP + '::ChildrenCountImpl', props=['C13'], modular=False)
def compound_count(c):
    c.requires('fewer children than an int can count', c.S.slen(c.old[KIDS]) < 2 ** 31)
    c.ensures('the number of children', lambda: c.result == c.S.slen(c.old[KIDS]))


@contract(INS + '::ChildrenCount', props=['C13'])
def children_count(c):
    n = c.S.slen(kids_of(c, c.old, c.this))
    c.assume(n < 2 ** 31)
    if c.mode == 'check':
        c.requires('reports the count of the implementation', True) if False else None
    c.ensures('the number of children', lambda: c.result == n)


@contract(INS + '::ChildrenCountImpl', abstract=True)
def children_count_impl(c):
    n = c.S.slen(kids_of(c, c.old, c.this))
    c.assume(n < 2 ** 31)
    c.ensures('the number of children', lambda: c.result == n)


def inserted(c, new, old, i, x):
    S = c.S
    j = z3.FreshInt('j')
    return z3.And(S.slen(new) == S.slen(old) + 1, S.at(new, i) == x,
                  forall([Int], lambda j: z3.Implies(z3.And(0 <= j, j < i), S.at(new, j) == S.at(old, j))),
                  forall([Int], lambda j: z3.Implies(z3.And(i <= j, j < S.slen(old)), S.at(new, j + 1) == S.at(old, j))))


def removed(c, new, old, i):
    S = c.S
    return z3.And(S.slen(new) == S.slen(old) - 1,
                  forall([Int], lambda j: z3.Implies(z3.And(0 <= j, j < i), S.at(new, j) == S.at(old, j))),
                  forall([Int], lambda j: z3.Implies(z3.And(i <= j, j < S.slen(new)), S.at(new, j) == S.at(old, j + 1))))


def insert_contract(Q, field, prop='C13'):
    @contract(Q, props=[prop], modifies=['this.' + field, 'arg:0'])
    def ins(c):
        S = c.S
        old, x, i = c.old[field], c.old.arg(0), c.old.arg(1)
        c.assume(S.slen(old) < 2 ** 31 - 1)
        ok = z3.And(0 <= i, i <= S.slen(old))
        c.ensures('succeeds exactly for an index up to the number of children', lambda: c.result == ok)
        c.ensures('makes it the child at that index, leaving the others in order',
                  lambda: z3.Implies(ok, inserted(c, c.new[field], old, i, x)))
        c.ensures('takes the child over', lambda: z3.Implies(ok, c.new.arg(0) == 0))
        c.ensures('a refused insertion changes nothing',
                  lambda: z3.Implies(z3.Not(ok), z3.And(S.seq_eq(c.new[field], old), c.new.arg(0) == x)))


def take_contract(Q, field, prop='C13'):
    @contract(Q, props=[prop], modifies=['this.' + field])
    def take(c):
        S = c.S
        old, i = c.old[field], c.old.arg(0)
        c.assume(S.slen(old) < 2 ** 31 - 1)
        ok = z3.And(0 <= i, i < S.slen(old))
        c.ensures('returns exactly the child at that index and nothing for another index',
                  lambda: c.result == z3.If(ok, S.at(old, i), 0))
        c.ensures('removes exactly that child', lambda: z3.Implies(ok, removed(c, c.new[field], old, i)))
        c.ensures('a refused removal changes nothing', lambda: z3.Implies(z3.Not(ok), S.seq_eq(c.new[field], old)))


insert_contract(COMP + '::InsertInstructionImpl', KIDS)
take_contract(COMP + '::TakeInstructionImpl', KIDS)


@contract(DECO + '::InsertInstructionImpl', props=['C13'], modifies=['this.' + CHILD, 'arg:0'])
def deco_insert(c):
    x, i, old = c.old.arg(0), c.old.arg(1), c.old[CHILD]
    c.ensures('succeeds exactly for index 0', lambda: c.result == (i == 0))
    c.ensures('replaces the child', lambda: c.new[CHILD] == z3.If(i == 0, x, old))
    c.ensures('a refused insertion leaves the argument', lambda: z3.Implies(i != 0, c.new.arg(0) == x))


@contract(DECO + '::TakeInstructionImpl', props=['C13'], modifies=['this.' + CHILD])
def deco_take(c):
    i, old = c.old.arg(0), c.old[CHILD]
    c.ensures('returns exactly the child for index 0', lambda: c.result == z3.If(i == 0, old, 0))
    c.ensures('removes the child returned', lambda: c.new[CHILD] == z3.If(i == 0, 0, old))


@contract(DECO + '::ChildInstructionsImpl', props=['C13'], modular=False)
def deco_children(c):
    ch = c.old[CHILD]
    c.ensures('the child, if there is one', lambda: z3.If(ch == 0, c.S.slen(c.result) == 0, z3.And(
        c.S.slen(c.result) == 1, c.S.at(c.result, z3.IntVal(0)) == ch)))


@contract(DECO + '::ChildrenCountImpl', props=['C13'], modular=False)
def deco_count(c):
    c.ensures('the number of children', lambda: c.result == z3.If(c.old[CHILD] == 0, 0, 1))


for _q, _n in (('InsertInstruction', 2), ('TakeInstruction', 1)):
    @contract(INS + '::' + _q, props=['C13'], modular=False, modifies=['arg:0', 'trace', 'heap:' + KIDS, 'heap:' + CHILD])
    def forwards(c):
        def same():
            es = [e for e in c.log if e['tag'] == SETUP]
            return z3.And(len(es) == 1, *[a == b for a, b in [(es[0]['obj'], c.this), (es[0]['ret'], c.result)]]) \
                if len(es) == 1 else False
        c.ensures('does exactly what the class of the instruction does', same)


@contract(INS + '::InsertInstructionImpl', abstract=True, modifies=['arg:0'])
def insert_impl(c):
    c.emit(SETUP, obj=c.this, args=[c.args[1]])


@contract(INS + '::TakeInstructionImpl', abstract=True)
def take_impl(c):
    c.emit(SETUP, obj=c.this, args=[c.args[0]])


# ------------------------------------------------------------------------------------------ compound and decorator calls
@contract(COMP + '::ResetHook', props=['C06'], modifies=CALLS, loops=[calls_so_far('resets'), self_kept], modular=False)
def compound_reset(c):
    seq = setup_kids(c)
    c.ensures('resets every child once', lambda: counted(c, 'resets', seq, lambda i: z3.BoolVal(True)))


@contract(COMP + '::HaltImpl', props=['C06', 'C09'], modifies=CALLS, loops=[calls_so_far('halts'), self_kept], modular=False)
def compound_halt(c):
    seq = setup_kids(c)
    c.ensures('halts every child once', lambda: counted(c, 'halts', seq, lambda i: z3.BoolVal(True)))


def child_facts(c, need=True):
    ch = c.old[CHILD]
    c.extra['child'] = ch
    if need:
        c.requires('a child is present', ch > 0)
    c.assume(z3.And(ch >= 0, ch != c.this, z3.Not(below(c.this, ch))))
    heapinv(c)
    return ch


def one_call(c, ghost, obj, cond):
    a, b = c.old.ghost(ghost), c.new.ghost(ghost)
    return b == z3.If(cond, z3.Store(a, obj, a[obj] + 1), a)


@contract(DECO + '::ResetHook', props=['C06'], modifies=CALLS, modular=False)
def deco_reset(c):
    ch = child_facts(c, False)
    c.ensures('resets the child once, if there is one', lambda: one_call(c, 'resets', ch, ch != 0))


@contract(DECO + '::HaltImpl', props=['C06'], modifies=CALLS, modular=False)
def deco_halt(c):
    ch = child_facts(c, False)
    c.ensures('halts the child once, if there is one', lambda: one_call(c, 'halts', ch, ch != 0))


# ------------------------------------------------------------------------------------------ C10 decorators
@contract(N + 'Inverter::ExecuteSingleImpl', props=['C10'], modifies=CALLS)
def inverter(c):
    ch = child_facts(c)
    s0 = status(c, c.old, ch)
    c.ensures('ticks its child once if that is unfinished', lambda: one_call(c, 'ticks', ch, z3.Not(finished(c, s0))))
    c.ensures('resets nothing', lambda: c.new.ghost('resets') == c.old.ghost('resets'))

    def res():
        s1 = status(c, c.new, ch)
        return c.result == z3.If(s1 == st(c, 'SUCCESS'), st(c, 'FAILURE'),
                                 z3.If(s1 == st(c, 'FAILURE'), st(c, 'SUCCESS'), s1))
    c.ensures('exchanges success and failure and passes every other status', res)


@contract(N + 'ForceSuccess::ExecuteSingleImpl', props=['C10'], modifies=CALLS)
def force_success(c):
    ch = child_facts(c)
    s0 = status(c, c.old, ch)
    c.requires('only ticked while the child is unfinished', z3.Not(finished(c, s0)))
    c.ensures('ticks its child once', lambda: one_call(c, 'ticks', ch, z3.BoolVal(True)))
    c.ensures('resets nothing', lambda: c.new.ghost('resets') == c.old.ghost('resets'))

    def res():
        s1 = status(c, c.new, ch)
        return c.result == z3.If(finished(c, s1), st(c, 'SUCCESS'), s1)
    c.ensures('turns success and failure into success and passes every other status', res)
    c.ensures('an unfinished result leaves the child unfinished',
              lambda: z3.Or(finished(c, c.result), z3.Not(finished(c, status(c, c.new, ch)))))


def has_attr(c, name):
    return z3.Function('has_attribute', Int, c.S.Str, z3.BoolSort())(c.this, name)


@contract(INS + '::HasAttribute', abstract=True)
def has_attribute(c):
    c.returns(has_attr(c, c.old.arg(0)))


@contract(INS + '::GetAttributeString', abstract=True)
def attr_string(c):
    c.returns(z3.Function('attribute_string', Int, c.S.Str, c.S.Str)(c.this, c.old.arg(0)))


def attr_value(c, name, sort):
    """(read, value): what reading the attribute yields during this call"""
    return (z3.Function('attribute_read:' + sort.name(), Int, c.S.Str, z3.BoolSort())(c.this, name),
            z3.Function('attribute_value:' + sort.name(), Int, c.S.Str, sort)(c.this, name))


for _q in ('GetAttributeValueAs', 'GetAttributeValue'):
    @contract(INS + '::' + _q, abstract=True, nparams=4)
    def attr_as(c):
        """an absent attribute leaves the output; one that cannot be read too; otherwise the output is its value"""
        name, out = c.old.arg(0), c.old.arg(3)
        ok, v = attr_value(c, name, out.sort())
        has = has_attr(c, name)
        for x in c.S.typeinv((c.f['params'][3]['t'] if isinstance(c.f['params'][3], dict) else c.f['params'][3]), v):
            c.assume(x)
        c.modifies('arg:3')
        c.ensures('reads the attribute', lambda: z3.And(c.result == z3.Or(z3.Not(has), ok),
                                                        c.new.arg(3) == z3.If(z3.And(has, ok), v, out)))


def const(c, n):
    return c.str(CONSTS[n])


CONSTS = {'MAX_COUNT': 'maxCount', 'SUCCESS_THRESHOLD': 'successThreshold', 'FAILURE_THRESHOLD': 'failureThreshold',
          'ARRAY': 'arrayVar', 'ELEMENT': 'elementVar', 'VAR': 'varName'}
REP = N + 'Repeat'
MAXC, CNT = REP + '::m_max_count', REP + '::m_count'


@contract(REP + '::InitHook', props=['C10'], modifies=['this.' + MAXC, 'this.' + CNT])
def repeat_init(c):
    name = const(c, 'MAX_COUNT')
    ok, v = attr_value(c, name, Int)
    has = has_attr(c, name)
    c.ensures('fails exactly when the count cannot be read', lambda: c.result == z3.Or(z3.Not(has), ok))
    c.ensures('starts counting at zero', lambda: z3.Implies(c.result, c.new[CNT] == 0))
    n = z3.If(has, v, 0)
    c.ensures('a count that is not negative is taken as it is, a negative one as endless',
              lambda: z3.Implies(c.result, z3.If(n >= 0, c.new[MAXC] == n, c.new[MAXC] < 0)))


@contract(REP + '::ExecuteSingleImpl', props=['C10'], modifies=CALLS + ['this.' + CNT])
def repeat_exec(c):
    ch = child_facts(c)
    s0 = status(c, c.old, ch)
    m, n = c.old[MAXC], c.old[CNT]
    ok, bad = st(c, 'SUCCESS'), st(c, 'FAILURE')
    c.requires('the count lies below the maximum, and stays at zero for an endless repeat',
               z3.And(n >= 0, z3.Or(n == 0, n < m)))
    c.requires('no failed child', s0 != bad)
    c.ensures('the child is reset between runs, and only then',
              lambda: one_call(c, 'resets', ch, z3.And(m != 0, s0 == ok)))
    c.ensures('ticks the child once unless nothing is to be done', lambda: one_call(c, 'ticks', ch, m != 0))
    s1 = lambda: status(c, c.new, ch)
    c.ensures('a count of zero succeeds at once', lambda: z3.Implies(m == 0, c.result == ok))
    c.ensures('counts the successful runs', lambda: z3.Implies(z3.And(m > 0, s1() != bad),
                                                               c.new[CNT] == n + z3.If(s1() == ok, 1, 0)))
    c.ensures('succeeds exactly when the count is reached, never for a negative count',
              lambda: z3.Implies(m != 0, (c.result == ok) == z3.And(s1() == ok, m > 0, n + 1 == m)))
    c.ensures('a failure of the child fails it at once', lambda: z3.Implies(m != 0, (c.result == bad) == (s1() == bad)))
    c.ensures('passes every other status, and goes on after a successful run',
              lambda: z3.Implies(z3.And(m != 0, z3.Not(finished(c, c.result))),
                                 c.result == z3.If(s1() == ok, st(c, 'NOT_FINISHED'), s1())))
    c.ensures('an unfinished repeat has its count below the maximum',
              lambda: z3.Or(finished(c, c.result), z3.And(c.new[CNT] >= 0, z3.Or(c.new[CNT] == 0, c.new[CNT] < m),
                                                          s1() != bad)))


FOR = N + 'ForInstruction'
FARR, FCNT = FOR + '::m_array', FOR + '::m_count'
INT_MAX = 2 ** 31 - 1
WRITE = 23


@contract(N + 'SetValueFromAttributeName', abstract=True, nparams=5)
def set_from_attr(c):
    """writes the value to the variable named by the attribute, or fails"""
    c.emit(WRITE, obj=c.args[0], args=[c.old.arg(3), c.old.arg(4)])


for _q in ('InstructionWarningProlog', 'InstructionErrorProlog'):
    @contract(N + _q, abstract=True)
    def prolog(c):
        pass


@contract(FOR + '::InitHook', props=['C10'], modifies=['this.' + FARR, 'this.' + FCNT])
def for_init(c):
    name = const(c, 'ARRAY')
    ok, v = attr_value(c, name, any_sort(c))
    has = has_attr(c, name)
    c.ensures('fails exactly when the array cannot be read', lambda: c.result == z3.Or(z3.Not(has), ok))
    c.ensures('starts with the first element', lambda: z3.Implies(c.result, c.new[FCNT] == 0))
    c.ensures('iterates over the array as it is read now',
              lambda: z3.Implies(z3.And(c.result, has), c.new[FARR] == v))


@contract(FOR + '::ExecuteSingleImpl', props=['C10'], modifies=CALLS + ['this.' + FCNT])
def for_exec(c):
    ch = child_facts(c)
    s0 = status(c, c.old, ch)
    a, k = c.old[FARR], c.old[FCNT]
    ok, bad = st(c, 'SUCCESS'), st(c, 'FAILURE')
    n = n_elements(c, a)
    c.assume(z3.And(n >= 0, n < INT_MAX))
    arr = is_array(c, a)
    c.requires('an iteration is left', z3.And(k >= 0, z3.Or(z3.Not(arr), n == 0, k < n)))
    c.requires('no failed child', s0 != bad)
    name = const(c, 'ELEMENT')
    has = has_attr(c, name)
    rd, v = attr_value(c, name, any_sort(c))
    c.requires('the element attribute is present (mandatory)', has)
    T = c.S.opq('sup::dto::AnyType')
    ty = lambda x: dep(c, 'AnyValue::GetType', T, x)
    same = dep(c, 'AnyType::operator==', z3.BoolSort(), ty(v), dep(c, 'AnyType::ElementType', T, ty(a)))
    fits = z3.And(arr, n > 0, rd, same)
    writes = lambda: c.logged(WRITE)
    c.ensures('sets the loop variable to the current element before the child is ticked, and writes nothing else',
              lambda: z3.And(z3.BoolVal(len(writes()) <= 1), z3.BoolVal(len(writes()) == 1) == fits,
                             *[z3.And(e['obj'] == c.this, e['args'][0] == name, e['args'][1] == elem(c, a, k))
                               for e in writes()],
                             z3.BoolVal([e['tag'] for e in c.logged(WRITE, TICK)] in ([], [WRITE], [WRITE, TICK]))))
    go = lambda: z3.And(fits, *[e['ret'] for e in writes()])
    c.ensures('the child is reset between runs, and only then',
              lambda: one_call(c, 'resets', ch, z3.And(go(), s0 == ok)))
    c.ensures('ticks the child once, only with the loop variable set', lambda: one_call(c, 'ticks', ch, go()))
    s1 = lambda: status(c, c.new, ch)
    c.ensures('an empty array succeeds at once', lambda: z3.Implies(z3.And(arr, n == 0), c.result == ok))
    c.ensures('what is no array, cannot be read or written, or has another type fails',
              lambda: z3.Implies(z3.And(z3.Not(go()), z3.Not(z3.And(arr, n == 0))), c.result == bad))
    c.ensures('goes to the next element after each run',
              lambda: c.new[FCNT] == k + z3.If(z3.And(go(), finished(c, s1())), 1, 0))
    c.ensures('succeeds exactly after the last element',
              lambda: z3.Implies(go(), (c.result == ok) == z3.And(s1() == ok, k + 1 == n)))
    c.ensures('a failure of the child fails it at once', lambda: z3.Implies(go(), (c.result == bad) == (s1() == bad)))
    c.ensures('passes every other status, and goes on after a successful run',
              lambda: z3.Implies(z3.And(go(), z3.Not(finished(c, c.result))),
                                 c.result == z3.If(s1() == ok, st(c, 'NOT_FINISHED'), s1())))
    c.ensures('an unfinished loop has an iteration left',
              lambda: z3.Or(finished(c, c.result), z3.And(c.new[FCNT] >= 0, c.new[FCNT] < n, s1() != bad)))


# ------------------------------------------------------------------------------------------ C12 asynchronous children
AW = N + 'AsyncWrapper'
AWI, AWS, AWF = AW + '::m_instruction', AW + '::m_status', AW + '::m_child_result'


def launched(c, f):
    return z3.Function('future.valid', f.sort(), z3.BoolSort())(f)


@contract('std::__basic_future::valid', abstract=True)
def future_valid(c):
    f = c.old.val(c.this.lv)
    no = z3.Const('nofuture', f.sort())
    c.assume(z3.Not(launched(c, no)))
    c.returns(launched(c, f))


@contract('std::__basic_future::wait_for', abstract=True)
def future_wait_for(c):
    """ready or not at this moment"""
    c.emit(JOIN, obj=None)
    c.ensures('one of two', lambda: z3.Or(c.result == c.enum('std::future_status::ready'),
                                          c.result == c.enum('std::future_status::timeout')))


@contract('std::async', abstract=True)
def std_async(c):
    c.requires('an execution of its own is asked for', c.old.arg(0) == c.enum('std::launch::async'))
    c.emit(LAUNCH, obj=c.I.as_term(c.args[2], None))
    c.ensures('an execution is outstanding', lambda: launched(c, c.result))


def wrapper_field(c, view, f):
    return view[f]


@contract(AW + '::GetStatus', props=['C12'])
def wrapper_status(c):
    c.returns(c.old[AWS])
    c.ensures('the status last observed', lambda: c.result == c.old[AWS])


@contract(AW + '::GetInstruction', props=['C12'])
def wrapper_instr(c):
    c.returns(c.old[AWI])
    c.ensures('the wrapped instruction', lambda: c.result == c.old[AWI])


@contract(AW + '::AsyncWrapper', props=['C12'], modifies=['this'], nparams=1, sig=lambda f: 'Instruction' in str(f['params'][0]))
def wrapper_ctor(c):
    i = c.old.arg(0)
    c.ensures('wraps the instruction, nothing is outstanding',
              lambda: z3.And(c.new[AWI] == i, c.new[AWS] == st(c, 'NOT_STARTED'), z3.Not(launched(c, c.new[AWF]))))
    f = z3.Const('nofuture', c.S.opq('std::future<void>'))
    c.assume(z3.Not(launched(c, f)))


@contract(AW + '::Tick', props=['C12'], modifies=['this.' + AWS, 'this.' + AWF, 'trace'])
def wrapper_tick(c):
    i, s, f = c.old[AWI], c.old[AWS], c.old[AWF]
    now = status(c, c.old, i)
    c.requires('wraps an instruction', i > 0)
    c.requires('running is only reported while an execution was launched',
               z3.Implies(s == st(c, 'RUNNING'), launched(c, f))) if c.mode == 'check' else None
    if c.mode == 'check':
        c.assume(valid(c, now))
        no = z3.Const('nofuture', f.sort())
        c.assume(z3.Not(launched(c, no)))

        def busy():
            w = c.logged(JOIN)
            b = [e['ret'] == c.enum('std::future_status::timeout') for e in w]
            return z3.And(launched(c, f), *(b[-1:] or [z3.BoolVal(True)]))
        c.ensures('launches exactly when nothing is outstanding, the status was observed and the child needs execution',
                  lambda: z3.And(z3.BoolVal(len(c.logged(LAUNCH)) == 1) == z3.And(
                      z3.Not(busy()), s == now, z3.Not(finished(c, now))), len(c.logged(LAUNCH)) <= 1,
                      *[e['obj'] == i for e in c.logged(LAUNCH)]))
        c.ensures('while an execution is outstanding nothing changes',
                  lambda: z3.Implies(busy(), z3.And(c.new[AWS] == s, c.new[AWF] == f)))
        c.ensures('otherwise reports running after a launch and the observed status without one',
                  lambda: z3.Implies(z3.Not(busy()), c.new[AWS] == (st(c, 'RUNNING') if c.logged(LAUNCH) else now)))
        c.ensures('the execution launched is kept until it is observed',
                  lambda: launched(c, c.new[AWF]) if c.logged(LAUNCH) else c.new[AWF] == f)
    c.ensures('the status is one of the five', lambda: z3.Implies(valid(c, s), valid(c, c.new[AWS])))
    c.ensures('not started is only left by observation', lambda: z3.Or(
        c.new[AWS] == s, c.new[AWS] == st(c, 'RUNNING'), c.new[AWS] == now))


ASY = N + 'Async'
WRAP = ASY + '::m_wrapper'


@contract(ASY + '::InitHook', props=['C12'], modifies=['this.' + WRAP, 'alloc', 'heap:*' + AW])
def async_init(c):
    ch = child_facts(c, False)
    c.ensures('fails without child', lambda: c.result == (ch != 0))

    def made():
        w = c.new[WRAP]
        key = '*' + AW
        c.V.heap_types[key] = AW
        x = z3.Select(c.new.heap(key), w)
        return z3.Implies(c.result, z3.And(w > 0, c.S.getf(x, AWI) == ch, c.S.getf(x, AWS) == st(c, 'NOT_STARTED')))
    c.ensures('wraps its child, nothing outstanding', made)


@contract(ASY + '::ExecuteSingleImpl', props=['C12'], modifies=['heap:*' + AW, 'trace'])
def async_exec(c):
    ch = child_facts(c)
    w = c.old[WRAP]
    key = '*' + AW
    c.V.heap_types[key] = AW
    x = z3.Select(c.old.heap(key), w)
    c.requires('initialised', z3.And(w > 0, c.S.getf(x, AWI) == ch, valid(c, c.S.getf(x, AWS))))
    c.ensures('reports the status last observed, or running', lambda: c.result == c.S.getf(z3.Select(c.new.heap(key), w), AWS))
    c.ensures('leaves a finished child alone',
              lambda: z3.Implies(finished(c, c.S.getf(x, AWS)), c.S.deep_eq(z3.Select(c.new.heap(key), w), x)))


@contract(ASY + '::ResetHook', props=['C12'], modifies=CALLS + ['this.' + WRAP])
def async_reset(c):
    ch = child_facts(c, False)
    s = status(c, c.old, c.this)
    c.ensures('resets its child once, if there is one', lambda: one_call(c, 'resets', ch, ch != 0))
    c.ensures('asks for a halt exactly while running', lambda: one_call(c, 'halts', c.this, s == st(c, 'RUNNING')))

    def joined():
        rs = c.logged(RESET)
        return z3.And(*[c.view(e['snap'])[WRAP] == 0 for e in rs]) if rs else True
    c.ensures('waits for the outstanding execution before the child is reset', joined)
    c.ensures('no execution is left', lambda: c.new[WRAP] == 0)

    def order():
        tags = [e['tag'] for e in c.logged(RESET, HALT)]
        return tags in ([], [RESET], [HALT], [HALT, RESET])
    c.ensures('halts before it resets', order)


# ------------------------------------------------------------------------------------------ C09 parallel
PAR = N + 'ParallelSequence'
PW, PS, PF = PAR + '::m_wrappers', PAR + '::m_success_th', PAR + '::m_failure_th'


def wstat(c, view):
    seq = view[PW]
    return lambda i: c.S.getf(c.S.at(seq, i), AWS)


def winstr(c, view):
    seq = view[PW]
    return lambda i: c.S.getf(c.S.at(seq, i), AWI)


def decision(c, view):
    """(success, failure) from the statuses of the wrapped children"""
    seq = view[PW]
    S = c.S
    n = S.slen(seq)
    key = c.V.fkey(AW, 'm_status')
    hit = lambda name: (lambda j: S.getf(z3.Select(S.sarr(seq), j), key) == st(c, name))
    ns = c.counter(seq, hit('SUCCESS'))(n)
    nf = c.counter(seq, hit('FAILURE'))(n)
    su = ns >= view[PS]
    return su, z3.And(z3.Not(su), nf >= view[PF])


def counted_so_far(L):
    """int counters hold the number of wrappers with a status among those seen"""
    if L.seq is None or L.k is None or not L.S.is_seq(L.seq.sort()):
        return None
    c, S = L.c, L.S
    key = c.V.fkey(AW, 'm_status')
    if not L.S.elem(L.seq).name() == AW or not L.entry[PW].eq(L.seq):
        return None
    out = []
    for name in ('SUCCESS', 'FAILURE'):
        g = c.counter(L.seq, lambda j: S.getf(z3.Select(S.sarr(L.seq), j), key) == st(c, name))
        for n, v in L.changed(Int):
            if n.startswith('#k'):
                continue
            out.append(v == g(L.k))
    return out


def wrappers_kept(L):
    """wrapped instructions stay, finished wrappers stay as they are, statuses stay among the five"""
    c = L.c
    if c.f.get('cls') != PAR:
        return None
    a, b = L.old[PW], L.cur[PW]
    S = c.S
    ai, bi = (lambda i: S.getf(S.at(a, i), AWI)), (lambda i: S.getf(S.at(b, i), AWI))
    as_, bs = (lambda i: S.getf(S.at(a, i), AWS)), (lambda i: S.getf(S.at(b, i), AWS))
    r = lambda i: z3.And(0 <= i, i < S.slen(a))
    return [S.slen(a) == S.slen(b),
            forall([Int], lambda i: z3.Implies(r(i), ai(i) == bi(i))),
            forall([Int], lambda i: z3.Implies(z3.And(r(i), finished(c, as_(i))), as_(i) == bs(i))),
            forall([Int], lambda i: z3.Implies(r(i), valid(c, bs(i)))),
            forall([Int], lambda i: z3.Implies(z3.And(r(i), L.k <= i), S.at(a, i) == S.at(b, i))) if L.k is not None else None]


def par_inv(c, view):
    seq = view[PW]
    i = z3.FreshInt('pi')
    return forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < c.S.slen(seq)),
                                              z3.And(winstr(c, view)(i) > 0, valid(c, wstat(c, view)(i)))))


@contract(PAR + '::ExecuteSingleImpl', props=['C09'], modifies=CALLS + ['this.' + PW],
          loops=[counted_so_far, wrappers_kept])
def parallel_exec(c):
    S = c.S
    seq = c.old[PW]
    c.assume(S.slen(seq) < 2 ** 31 - 1)
    c.requires('the wrappers hold instructions and statuses', par_inv(c, c.old))
    c.ensures('succeeds exactly when enough children have succeeded',
              lambda: (c.result == st(c, 'SUCCESS')) == decision(c, c.new)[0])
    c.ensures('otherwise fails exactly when enough children have failed',
              lambda: (c.result == st(c, 'FAILURE')) == decision(c, c.new)[1])
    c.ensures('otherwise goes on', lambda: valid(c, c.result))
    c.ensures('asks for a halt exactly when decided', lambda: one_call(c, 'halts', c.this, finished(c, c.result)))
    c.ensures('resets nothing', lambda: c.new.ghost('resets') == c.old.ghost('resets'))
    c.ensures('finished children are left as they are',
              lambda: z3.And(S.slen(c.new[PW]) == S.slen(seq), forall([Int], lambda i: z3.Implies(
                  z3.And(0 <= i, i < S.slen(seq), finished(c, wstat(c, c.old)(i))),
                  wstat(c, c.new)(i) == wstat(c, c.old)(i)))))


def wrappers_made(L):
    c = L.c
    if c.f.get('cls') != PAR or L.k is None:
        return None
    w = L.cur[PW]
    ks = c.extra.get('kids')
    S = c.S
    return [S.slen(w) == L.k,
            forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < L.k), S.getf(S.at(w, i), AWI) == S.at(ks, i))),
            forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < L.k), S.getf(S.at(w, i), AWS) == st(c, 'NOT_STARTED')))]


@contract(PAR + '::InitHook', props=['C09'], modifies=['this.' + PW, 'this.' + PS, 'this.' + PF, 'trace'], loops=[wrappers_made])
def parallel_init(c):
    S = c.S
    ks = setup_kids(c)
    n = S.slen(ks)
    c.requires('at least one child, fewer than an int can count', z3.And(n >= 1, n < 2 ** 31 - 1))
    sn, fn = const(c, 'SUCCESS_THRESHOLD'), const(c, 'FAILURE_THRESHOLD')
    hs, hf = has_attr(c, sn), has_attr(c, fn)
    (oks, sv), (okf, fv) = attr_value(c, sn, Int), attr_value(c, fn, Int)
    c.ensures('fails exactly when a threshold cannot be read',
              lambda: c.result == z3.And(z3.Or(z3.Not(hs), oks), z3.Or(z3.Not(hf), okf)))
    mn = lambda a, b: z3.If(a <= b, a, b)
    f0 = mn(n, z3.If(hf, fv, 1))
    s = z3.If(hs, mn(n, sv), z3.If(hf, n + 1 - f0, n))
    f = z3.If(hs, mn(f0, n - s + 1), f0)
    c.ensures('the success threshold is the given one, at most the number of children; without it it follows from the '
              'failure threshold', lambda: z3.Implies(c.result, c.new[PS] == s))
    c.ensures('the failure threshold is the given one or 1, at most the number of children and what success leaves',
              lambda: z3.Implies(c.result, c.new[PF] == f))
    c.ensures('a decision is reached when all children have finished',
              lambda: z3.Implies(c.result, c.new[PS] + c.new[PF] <= n + 1))
    c.ensures('every child is wrapped once, in order, not started',
              lambda: z3.Implies(c.result, z3.And(S.slen(c.new[PW]) == n, forall([Int], lambda i: z3.Implies(
                  z3.And(0 <= i, i < n), z3.And(winstr(c, c.new)(i) == S.at(ks, i),
                                                wstat(c, c.new)(i) == st(c, 'NOT_STARTED')))))))


@contract(PAR + '::ResetHook', props=['C09', 'C12'], modifies=CALLS + ['this.' + PW],
          loops=[calls_so_far('resets'), self_kept])
def parallel_reset(c):
    seq = setup_kids(c)
    s = status(c, c.old, c.this)
    c.ensures('resets every child once', lambda: counted(c, 'resets', seq, lambda i: z3.BoolVal(True)))
    c.ensures('asks for a halt exactly while unfinished',
              lambda: one_call(c, 'halts', c.this, status_in(c, s, 'RUNNING', 'NOT_FINISHED')))

    def joined():
        rs = [e for e in c.rawlog if e['tag'] in (RESET, 0)]
        return z3.And(*[c.S.slen(c.view(e['snap'])[PW]) == 0 for e in rs if 'snap' in e]) if rs else True
    c.ensures('waits for outstanding executions before a child is reset', joined)
    c.ensures('no execution is left', lambda: c.S.slen(c.new[PW]) == 0)
