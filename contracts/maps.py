"""Contracts of the instruction and variable indices (C22)."""
import z3

from contracts.core import N, params_are
from contracts.instr import INS
from engine.verify import ENTITIES, contract, forall

Int = z3.IntSort()
IT = N + 'InstructionTree'
ENTITIES.add(IT)
TI, TC = IT + '::m_instruction', IT + '::m_children'


def rng(S, seq, i):
    return z3.And(0 <= i, i < S.slen(seq))


def kids(c, view, x):
    return z3.Select(view.heap(c.V.fkey(IT, 'm_children')), x)


def instr(c, view, x):
    return z3.Select(view.heap(c.V.fkey(IT, 'm_instruction')), x)


@contract(IT + '::InstructionTree', props=['C22'], modifies=['this'], nparams=1, sig=params_are('const sup::oac_tree::Instruction *'))
def t_ctor(c):
    c.ensures('a node of the instruction, without children', lambda: z3.And(
        c.new[TI] == c.old.arg(0), c.S.slen(c.new[TC]) == 0))


@contract(IT + '::IsEmpty', props=['C22'])
def t_empty(c):
    c.ensures('says whether there is no instruction', lambda: c.result == (c.old[TI] == 0))


@contract(IT + '::GetInstruction', props=['C22'], pure=True)
def t_instr(c):
    c.returns(c.old[TI])
    c.ensures('the instruction of the node', lambda: c.result == c.old[TI])


@contract(IT + '::GetChildren', props=['C22'], pure=True)
def t_children(c):
    c.returns(c.old[TC])
    c.ensures('the children, in the order added', lambda: c.S.seq_eq(c.result, c.old[TC]))


@contract(IT + '::GetChildInstructions', props=['C22'])
def t_child_instr(c):
    S = c.S
    c.requires('no child is null', forall([Int], lambda i: z3.Implies(rng(S, c.old[TC], i), S.at(c.old[TC], i) != 0)))
    c.ensures('the instructions of the children, in order', lambda: z3.And(
        S.slen(c.result) == S.slen(c.old[TC]), forall([Int], lambda i: z3.Implies(
            rng(S, c.result, i), S.at(c.result, i) == instr(c, c.old, S.at(c.old[TC], i))))))


@contract(IT + '::AddChildInstruction', props=['C22'], modifies=['this.' + TC, 'heap:' + TI, 'heap:' + TC, 'alloc'])
def t_add(c):
    S = c.S

    def added():
        a, b = c.old[TC], c.new[TC]
        n = S.slen(a)
        return z3.And(S.slen(b) == n + 1, S.at(b, n) == c.result, c.result != 0,
                      forall([Int], lambda i: z3.Implies(rng(S, a, i), S.at(b, i) == S.at(a, i))))
    c.ensures('adds one child behind the others and returns it', added)
    c.ensures('the new node holds the instruction and has no children', lambda: z3.And(
        instr(c, c.new, c.result) == c.old.arg(0), S.slen(kids(c, c.new, c.result)) == 0, c.result != c.this))
    c.ensures('no other node changes', lambda: forall([Int], lambda x: z3.Implies(z3.And(x != c.result), z3.And(
        instr(c, c.new, x) == instr(c, c.old, x), z3.Implies(x != c.this, kids(c, c.new, x) == kids(c, c.old, x))))))


class Bfs:
    """the breadth-first order of the tree: node(0) is the root, and the children of node(i) follow, in order, from
    position off(i) on; positions are never assigned twice, so this defines the order"""

    def __init__(self, c, root):
        S = c.S
        self.c, self.S = c, S
        self.node = z3.Function('bfs_node', Int, Int)
        self.off = z3.Function('bfs_off', Int, Int)
        H = c.old.heap(c.V.fkey(IT, 'm_children'))
        self.kids = lambda i: z3.Select(H, self.node(i))
        i, j = z3.Ints('bi bj')
        c.assume(self.node(0) == root)
        c.assume(self.off(0) == 1)
        c.assume(z3.ForAll([i], z3.Implies(i >= 0, self.off(i + 1) == self.off(i) + S.slen(self.kids(i))),
                           patterns=[self.node(i)]))
        c.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, 0 <= j, j < S.slen(self.kids(i))),
                                              self.node(self.off(i) + j) == S.at(self.kids(i), j)),
                           patterns=[S.at(self.kids(i), j)]))
        HI = c.old.heap(c.V.fkey(IT, 'm_instruction'))
        self.instr = lambda i: z3.Select(HI, self.node(i))


def well_formed(c):
    return well_formed_in(c, c.old)


def well_formed_in(c, view):
    """children of nodes are nodes"""
    S = c.S
    H = view.heap(c.V.fkey(IT, 'm_children'))
    x, j = z3.Ints('wx wj')
    return z3.ForAll([x, j], z3.Implies(rng(S, z3.Select(H, x), j), S.at(z3.Select(H, x), j) != 0),
                     patterns=[S.at(z3.Select(H, x), j)])


def by_element(L, cls):
    """the local sequences whose elements are pointers to this class"""
    return [w for n, w in L.slots(L.S.seq(Int)) if cls + ' *' in str(L.V.slot_types.get(n, '')).split(',')[0]]


def bfs_state(L):
    c, S = L.c, L.S
    b = c.extra.get('bfs')
    if b is None:
        return None
    out = []
    for r in by_element(L, 'Instruction'):
        m = S.slen(r)
        listed = c.extra['listed']
        out.append(listed(r, None))
        qs = by_element(L, 'InstructionTree')
        for s in qs:
            out.append(S.slen(s) == 0)
            for t in [x for x in qs if x is not s] or [None]:
                p, q = S.slen(s), S.slen(t) if t is not None else z3.IntVal(0)
                ql = []
                for done in c.extra['positions'](r):
                    ql += [forall([Int], lambda i, d=done: z3.Implies(rng(S, s, i), z3.And(S.at(s, i) == b.node(d + i), S.at(s, i) != 0)), pats=lambda i: S.at(s, i))]
                    if t is not None:
                        ql += [forall([Int], lambda i, d=done: z3.Implies(rng(S, t, i), z3.And(S.at(t, i) == b.node(d + p + i), S.at(t, i) != 0)), pats=lambda i: S.at(t, i))]
                    ql.append(b.off(done) == done + p + q)
                    if L.k is not None:
                        ql.append(z3.And(done >= 1, S.seq_eq(L.seq, b.kids(done - 1)), b.off(done - 1) + L.k == done + p + q))
                out += ql + [m + p + q >= 1]
    return out


@contract(N + 'FlattenBFS', props=['C22'], loops=[bfs_state], peel=False)
def flatten(c):
    S = c.S
    c.requires('children are nodes', well_formed(c))
    if c.mode == 'call':
        c.emit(FLAT, obj=c.old.arg(0))
        c.ensures('fewer than 2^32 instructions', lambda: S.slen(c.result) < 2**32)
        return
    c.extra['bfs'] = b = Bfs(c, c.old.arg(0))
    n = lambda: S.slen(c.result)
    c.extra['positions'] = lambda r: [S.slen(r)]
    c.extra['listed'] = lambda r, _: forall([Int], lambda i: z3.Implies(rng(S, r, i), z3.And(b.off(i) > i, S.at(r, i) == b.instr(i))), pats=lambda i: S.at(r, i))
    c.ensures('lists every instruction of the tree once, breadth first', lambda: z3.And(
        n() >= 1, b.off(n()) == n(), forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < n()), z3.And(
            b.off(i) > i, S.at(c.result, i) == b.instr(i))))))



# ------------------------------------------------------------------------------------------ instruction indices
IM = N + 'InstructionMap'
IMM = IM + '::m_instruction_map'
TREE, FLAT, VNAMES, MADE = 90, 91, 92, 93


@contract(IT + '::~InstructionTree', abstract=True)
def t_dtor(c):
    pass


@contract(N + 'CreateFullInstructionTree', abstract=True)
def full_tree(c):
    c.emit(TREE, obj=c.old.arg(0))
    c.modifies('heap:' + TI)
    c.modifies('heap:' + TC)
    c.ensures('a tree of nodes', lambda: z3.And(c.result > 0, well_formed_in(c, c.new)))


def dom(c, m):
    return c.S.get(m, 0)


def val(c, m):
    return c.S.get(m, 1)


def card(c, d):
    """number of keys (with the defining steps)"""
    ks = d.sort().domain()
    f = z3.Function('card:' + ks.name(), d.sort(), Int)
    if not c.extra.get('card:' + ks.name()):
        c.extra['card:' + ks.name()] = True
        x, k = z3.Const('cd', d.sort()), z3.Const('ck', ks)
        st = z3.Store(x, k, z3.BoolVal(True))
        c.assume(z3.ForAll([x, k], f(st) == f(x) + z3.If(z3.Select(x, k), 0, 1), patterns=[f(st)]))
        c.assume(f(z3.K(ks, z3.BoolVal(False))) == 0)
        c.assume(z3.ForAll([x], f(x) >= 0, patterns=[f(x)]))
    return f(d)


def distinct(S, seq, n):
    return forall([Int, Int], lambda i, j: z3.Implies(z3.And(0 <= i, i < j, j < n), S.at(seq, i) != S.at(seq, j)),
                  pats=lambda i, j: z3.MultiPattern(S.at(seq, i), S.at(seq, j)))


def index_of(c, m, seq, n):
    """the map holds exactly the first n of the list, each with a position where it stands"""
    S = c.S
    key = S.at(seq, 0).sort()
    return [forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < n), z3.Select(dom(c, m), S.at(seq, i))), pats=lambda i: S.at(seq, i)),
            forall([key], lambda x: z3.Implies(z3.Select(dom(c, m), x), z3.And(
                0 <= z3.Select(val(c, m), x), z3.Select(val(c, m), x) < n, S.at(seq, z3.Select(val(c, m), x)) == x)),
                pats=lambda x: z3.Select(dom(c, m), x))]


def at_own(c, m, seq, n):
    """each of the first n has its own position as index: none occurs twice"""
    S = c.S
    return forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < n), z3.Select(val(c, m), S.at(seq, i)) == i), pats=lambda i: S.at(seq, i))


def indexed(L):
    """the map built so far"""
    c, S = L.c, L.S
    evs = [e for e in c.rawlog if e['tag'] in (FLAT, VNAMES)]
    if not evs:
        return None
    seq = evs[-1]['ret']
    out = []
    for m in c.extra['maps'](L):
        for n, x in L.changed(Int):
            if '#' in n.split('#', 1)[0] or n.startswith('#'):
                continue
            d = dom(c, m)
            out += [z3.And(0 <= x, x <= S.slen(seq))] + index_of(c, m, seq, x)
            out += [card(c, d) <= x, z3.Implies(card(c, d) < x, z3.Not(distinct(S, seq, x))),
                    z3.Implies(card(c, d) == x, at_own(c, m, seq, x))]
    return out


@contract(IM + '::InstructionMap', props=['C22'], modifies=['this', 'alloc', 'trace', 'heap:' + TI, 'heap:' + TC], loops=[indexed], nparams=1,
          sig=params_are('const sup::oac_tree::Instruction *'))
def im_ctor(c):
    S = c.S
    root = c.old.arg(0)
    card(c, dom(c, c.old[IMM]))
    if c.mode == 'call':
        c.emit(MADE, obj=c.this, args=[root])
    c.may_throw(N + 'InvalidOperationException')
    c.extra['maps'] = lambda L: [w for n, w in L.slots(c.old[IMM].sort())]
    c.ensures('without a root there is nothing', lambda: z3.Implies(
        root == 0, forall([Int], lambda x: z3.Not(z3.Select(dom(c, c.new[IMM]), x)))))

    def seq():
        t, f = c.logged(TREE), c.logged(FLAT)
        if len(t) != 1 or len(f) != 1:
            return None, z3.BoolVal(False)
        return f[0]['ret'], z3.And(t[0]['obj'] == root, f[0]['obj'] == t[0]['ret'])

    def bijection():
        q, ok = seq()
        if q is None:
            return root == 0
        return z3.And(root != 0, ok, at_own(c, c.new[IMM], q, S.slen(q)), *index_of(c, c.new[IMM], q, S.slen(q)))
    c.ensures('every instruction gets its position in breadth-first order as its only index', bijection, on='normal')

    def dup():
        q, ok = seq()
        if q is None:
            return False
        return z3.And(ok, z3.Not(distinct(S, q, S.slen(q))))
    c.ensures('fails only when an instruction occurs twice', dup, on='throw')


@contract(IM + '::FindInstructionIndex', props=['C22'])
def im_find(c):
    m, x = c.old[IMM], c.old.arg(0)
    c.throws(N + 'InvalidOperationException', z3.Not(z3.Select(dom(c, m), x)))
    c.ensures('the index of the instruction', lambda: c.result == z3.Select(val(c, m), x))


@contract(IM + '::GetInstructionIndexMap', props=['C22'], modular=False)
def im_map(c):
    c.ensures('the map itself', lambda: c.I.as_term(c.result, None) == c.old[IMM])


@contract(IM + '::GetNumberOfInstructions', props=['C22'], modular=False)
def im_size(c):
    d = dom(c, c.old[IMM])
    c.requires('fewer than 2^32 instructions', card(c, d) < 2**32)
    c.ensures('the number of instructions', lambda: c.result == card(c, d))


IIT = N + 'InstructionInfo'
KEYMAP = params_are('const std::unordered_map<const sup::oac_tree::Instruction *, unsigned int> &')


def inverse(c, m, r):
    """a filled position of the list holds an instruction with that index"""
    S = c.S
    return forall([Int], lambda i: z3.Implies(z3.And(rng(S, r, i), S.at(r, i) != 0), z3.And(
        z3.Select(dom(c, m), S.at(r, i)), z3.Select(val(c, m), S.at(r, i)) == i)), pats=lambda i: S.at(r, i))


def placed(L):
    c, S = L.c, L.S
    m = c.extra.get('map')
    if m is None or L.k is None or L.seq is None:
        return None
    out = []
    for r in by_element(L, 'Instruction'):
        out += [S.slen(r) == card(c, dom(c, m)), inverse(c, m, r),
                forall([Int], lambda j: z3.Implies(z3.And(0 <= j, j < L.k), z3.And(
                    z3.Select(val(c, m), S.at(L.seq, j)) < S.slen(r), S.at(r, z3.Select(val(c, m), S.at(L.seq, j))) != 0)),
                    pats=lambda j: S.at(L.seq, j))]
    return out


@contract(N + 'GetReverseMap', props=['C22'], loops=[placed])
def reverse(c):
    S = c.S
    m = c.old.arg(0)
    d, n = dom(c, m), card(c, dom(c, m))
    c.extra['map'] = m
    c.requires('no null instruction is mapped', z3.Not(z3.Select(d, 0)))
    c.requires('an index per instruction', forall([Int], lambda x: z3.Implies(z3.Select(d, x), z3.Select(val(c, m), x) >= 0),
                                                  pats=lambda x: z3.Select(d, x)))
    c.may_throw(N + 'InvalidOperationException')
    c.ensures('one place per instruction, holding the instruction that has this index', lambda: z3.And(
        S.slen(c.result) == n, inverse(c, m, c.result),
        forall([Int], lambda i: z3.Implies(rng(S, c.result, i), S.at(c.result, i) != 0), pats=lambda i: S.at(c.result, i)),
        forall([Int], lambda x: z3.Implies(z3.Select(d, x), z3.And(
            z3.Select(val(c, m), x) < n)), pats=lambda x: z3.Select(d, x))), on='normal')

    # every index below n is taken: said with a function choosing the instruction of an index
    w, trig = z3.Function('of_index', Int, Int), z3.Function('indexed_at', Int, z3.BoolSort())

    def onto(mm, k):
        return forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < k), z3.And(
            z3.Select(d, w(i)), z3.Select(val(c, mm), w(i)) == i)), pats=[lambda i: w(i), lambda i: trig(i)])
    if c.mode == 'check':
        # (a trigger for the solver: every index used on a list)
        i, arr = z3.Int('mi'), z3.Const('ma', z3.ArraySort(Int, Int))
        c.assume(z3.ForAll([arr, i], trig(i), patterns=[z3.Select(arr, i)]))
        # the choice is arbitrary but covers every index that some instruction has
        x = z3.Int('mx')
        c.assume(z3.ForAll([x], z3.Implies(z3.Select(d, x), z3.And(
            z3.Select(d, w(z3.Select(val(c, m), x))), z3.Select(val(c, m), w(z3.Select(val(c, m), x))) == z3.Select(val(c, m), x))),
            patterns=[z3.Select(d, x)]))

        def complete():
            inside = forall([Int], lambda x: z3.Implies(z3.Select(d, x), z3.Select(val(c, m), x) < n))
            return z3.Not(z3.And(inside, onto(m, n)))
        c.ensures('fails only when the indices are not exactly the numbers below the number of instructions', complete, on='throw')


# ------------------------------------------------------------------------------------------ variable indices
VM = N + 'VariableMap'
ENTITIES.add(N + 'Workspace')
VMM = VM + '::m_variable_map'


@contract(N + 'Workspace::VariableNames', abstract=True)
def ws_names(c):
    c.emit(VNAMES, obj=c.this)
    c.ensures('fewer than 2^32 variables, each name once (workspace property)', lambda: z3.And(
        c.S.slen(c.result) < 2**32, distinct(c.S, c.result, c.S.slen(c.result))))


@contract(VM + '::VariableMap', props=['C22'], modifies=['this', 'trace'], loops=[indexed], nparams=1, sig=params_are('const sup::oac_tree::Workspace &'))
def vm_ctor(c):
    S = c.S
    card(c, dom(c, c.old[VMM]))
    c.extra['maps'] = lambda L: [L.cur[VMM]]

    def bijection():
        f = c.logged(VNAMES)
        if len(f) != 1:
            return False
        q = f[0]['ret']
        return z3.And(f[0]['obj'] == c.old.arg(0), at_own(c, c.new[VMM], q, S.slen(q)), card(c, dom(c, c.new[VMM])) == S.slen(q),
                      *index_of(c, c.new[VMM], q, S.slen(q)))
    c.ensures('every variable gets its position in the list of names as its only index', bijection, on='normal')


@contract(VM + '::FindVariableIndex', props=['C22'])
def vm_find(c):
    m, x = c.old[VMM], c.old.arg(0)
    c.throws(N + 'InvalidOperationException', z3.Not(z3.Select(dom(c, m), x)))
    c.ensures('the index of the variable', lambda: c.result == z3.Select(val(c, m), x))


@contract(VM + '::GetVariableIndexMap', props=['C22'], modular=False)
def vm_map(c):
    c.ensures('the map itself', lambda: c.I.as_term(c.result, None) == c.old[VMM])


@contract(VM + '::GetNumberOfVariables', props=['C22'], modular=False)
def vm_size(c):
    d = dom(c, c.old[VMM])
    c.requires('fewer than 2^32 variables', card(c, d) < 2**32)
    c.ensures('the number of variables', lambda: c.result == card(c, d))


# ------------------------------------------------------------------------------------------ the map of a job
JM = N + 'JobMap'
JMI = JM + '::m_instruction_map'
ENTITIES.add(IM)


def the_map(c, view):
    return z3.Select(view.heap(c.V.fkey(IM, 'm_instruction_map')), view[JMI])


@contract(JM + '::InitializeInstructionTree', props=['C22'], modifies=['this.' + JMI, 'alloc', 'trace', 'heap:' + TI, 'heap:' + TC, 'heap:' + IMM])
def jm_init(c):
    S = c.S
    root = c.old.arg(0)
    c.may_throw(N + 'InvalidOperationException')
    c.ensures('has a map', lambda: c.new[JMI] != 0, on='normal')
    c.ensures('without a root there is no instruction', lambda: z3.Implies(
        root == 0, forall([Int], lambda x: z3.Not(z3.Select(dom(c, the_map(c, c.new)), x)))), on='normal')
    if c.mode == 'check':
        c.ensures('the map of the instructions below this root', lambda: built(c, root), on='normal')


def built(c, root):
    made = [e for e in c.rawlog if e['tag'] == MADE]
    return z3.And(len(made) == 1, *[z3.And(e['obj'] == c.new[JMI], e['args'][0] == root) for e in made])


@contract(JM + '::GetInstructionIndex', props=['C22'])
def jm_index(c):
    x = c.old.arg(0)
    m = the_map(c, c.old)
    c.throws(N + 'InvalidOperationException', z3.Or(c.old[JMI] == 0, z3.Not(z3.Select(dom(c, m), x))))
    c.ensures('the index of the instruction', lambda: c.result == z3.Select(val(c, m), x))


@contract(JM + '::GetInstructionMap', props=['C22'])
def jm_imap(c):
    c.throws(N + 'InvalidOperationException', c.old[JMI] == 0)
    c.ensures('the instruction map', lambda: c.I.as_term(c.result, None) == c.old[JMI])


@contract(JM + '::GetNumberOfInstructions', props=['C22'])
def jm_count(c):
    d = dom(c, the_map(c, c.old))
    if c.mode == 'call':
        c.assume(card(c, d) < 2**32)
    else:
        c.requires('fewer than 2^32 instructions', card(c, d) < 2**32)
    c.ensures('the number of instructions', lambda: c.result == z3.If(c.old[JMI] == 0, 0, card(c, d)))


@contract(JM + '::GetOrderedInstructions', props=['C22'])
def jm_order(c):
    S = c.S
    m = the_map(c, c.old)
    d, n = dom(c, m), card(c, dom(c, m))
    c.requires('no null instruction is mapped', z3.Not(z3.Select(d, 0)))
    c.requires('an index per instruction', forall([Int], lambda x: z3.Implies(z3.Select(d, x), z3.Select(val(c, m), x) >= 0),
                                                  pats=lambda x: z3.Select(d, x)))
    c.may_throw(N + 'InvalidOperationException')
    c.ensures('initialised', lambda: c.old[JMI] != 0, on='normal')
    c.ensures('one place per instruction, holding the instruction that has this index', lambda: z3.And(
        S.slen(c.result) == n, inverse(c, m, c.result),
        forall([Int], lambda i: z3.Implies(rng(S, c.result, i), S.at(c.result, i) != 0), pats=lambda i: S.at(c.result, i))), on='normal')


@contract(JM + '::GetVariableIndex', props=['C22'])
def jm_var(c):
    m, x = c.old[JM + '::m_variable_map'], c.old.arg(0)
    m = c.S.get(m, 0)
    c.throws(N + 'InvalidOperationException', z3.Not(z3.Select(dom(c, m), x)))
    c.ensures('the index of the variable', lambda: c.result == z3.Select(val(c, m), x))


# ------------------------------------------------------------------------------------------ descriptions
WI = N + 'WorkspaceInfo'
WIV = WI + '::m_vars'


@contract(WI + '::AddVariableInfo', props=['C22'], modifies=['this'])
def wi_add(c):
    S = c.S
    a, name, info = c.old[WIV], c.old.arg(0), c.old.arg(1)
    n = S.slen(a)
    idx = S.getf(info, N + 'VariableInfo::m_index')
    known = z3.Not(forall([Int], lambda i: z3.Implies(rng(S, a, i), S.get(S.at(a, i), 0) != name), pats=lambda i: S.at(a, i)))
    c.throws(N + 'InvalidOperationException', z3.Or(known, idx != n))
    c.ensures('adds the description behind the others, at its own index', lambda: z3.And(
        S.slen(c.new[WIV]) == n + 1, S.get(S.at(c.new[WIV], n), 0) == name, S.get(S.at(c.new[WIV], n), 1) == info,
        forall([Int], lambda i: z3.Implies(rng(S, a, i), S.at(c.new[WIV], i) == S.at(a, i)))), on='normal')
    c.ensures('a refused description changes nothing', lambda: c.new[WIV] == a, on='throw')


ENTITIES.add(IIT)
LIST = 94


def collected(L):
    c, S = L.c, L.S
    if not c.extra.get('flatten'):
        return None
    root = c.old.arg(0)
    out = []
    ls = by_element(L, 'InstructionInfo')
    for s in [w for n, w in L.slots() if S.is_map(w.sort()) and dom(c, w).sort().domain() == Int]:
        for r in ls:
            d, n = dom(c, s), S.slen(r)
            out += [forall([Int], lambda i: z3.Implies(rng(S, r, i), z3.And(S.at(r, i) != 0, z3.Select(d, S.at(r, i)))), pats=lambda i: S.at(r, i)),
                    z3.And(card(c, d) <= n, z3.Implies(card(c, d) == n, distinct(S, r, n)))]
            for q in ls:
                if q is not r:
                    out.append(z3.If(n == 0, z3.And(S.slen(q) == 1, S.at(q, 0) == root), S.at(r, 0) == root))
    for r in ls:
        out += [z3.And(S.slen(r) > 0, S.at(r, 0) == root)]
    return out


@contract(N + 'Flatten', props=['C22'], loops=[collected], peel=False)
def info_flatten(c):
    S = c.S
    c.extra['flatten'] = True
    card(c, z3.K(Int, z3.BoolVal(False)))
    c.may_throw(N + 'InvalidOperationException')
    if c.mode == 'call':
        c.emit(LIST, obj=c.old.arg(0))
    c.ensures('lists descriptions, each once, the given one first', lambda: z3.And(
        S.slen(c.result) >= 1, S.at(c.result, 0) == c.old.arg(0), distinct(S, c.result, S.slen(c.result)),
        forall([Int], lambda i: z3.Implies(rng(S, c.result, i), S.at(c.result, i) != 0), pats=lambda i: S.at(c.result, i))), on='normal')


def index_in(c, x):
    return z3.Select(c.old.heap(c.V.fkey(IIT, 'm_index')), x)


def sorted_so_far(L):
    c, S = L.c, L.S
    ev = [e for e in c.rawlog if e['tag'] == LIST]
    if not c.extra.get('order') or L.k is None or not ev:
        return None
    q = ev[-1]['ret']
    out = []
    for n, r in L.slots(S.seq(Int)):
        out += [S.slen(r) == S.slen(q), at_index(c, r),
                forall([Int], lambda j: z3.Implies(z3.And(0 <= j, j < L.k), z3.And(
                    index_in(c, S.at(q, j)) < S.slen(r), S.at(r, index_in(c, S.at(q, j))) != 0)), pats=lambda j: S.at(q, j))]
    return out


def at_index(c, r):
    S = c.S
    return forall([Int], lambda i: z3.Implies(z3.And(rng(S, r, i), S.at(r, i) != 0), index_in(c, S.at(r, i)) == i), pats=lambda i: S.at(r, i))


def fits(c, q, w, trig):
    """the indices of the list are exactly the numbers below its length"""
    S = c.S
    n = S.slen(q)
    return z3.And(forall([Int], lambda j: z3.Implies(rng(S, q, j), index_in(c, S.at(q, j)) < n), pats=lambda j: S.at(q, j)),
                  forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < n), z3.And(
                      rng(S, q, w(i)), index_in(c, S.at(q, w(i))) == i)), pats=[lambda i: w(i), lambda i: trig(i)]))


def choice(c, q):
    """a place of the list for every index that occurs in it, and a trigger for the solver"""
    S = c.S
    w, trig = z3.Function('place_of', Int, Int), z3.Function('listed_at', Int, z3.BoolSort())
    i, j, arr = z3.Int('oi'), z3.Int('oj'), z3.Const('oa', z3.ArraySort(Int, Int))
    ax = z3.And(z3.ForAll([arr, i], trig(i), patterns=[z3.Select(arr, i)]), z3.ForAll([j], z3.Implies(rng(S, q, j), z3.And(
        rng(S, q, w(index_in(c, S.at(q, j)))), index_in(c, S.at(q, w(index_in(c, S.at(q, j))))) == index_in(c, S.at(q, j)))),
        patterns=[S.at(q, j)]))
    return ax, w, trig


@contract(N + 'utils::CreateOrderedInstructionInfo', props=['C22'], loops=[sorted_so_far], modifies=['trace'])
def order_info(c):
    S = c.S
    c.extra['order'] = True
    c.requires('an index is not negative', forall([Int], lambda x: index_in(c, x) >= 0, pats=lambda x: index_in(c, x)))
    c.may_throw(N + 'InvalidOperationException')

    def ordered():
        ev = c.logged(LIST)
        if len(ev) != 1:
            return False
        q = ev[0]['ret']
        return z3.And(ev[0]['obj'] == c.old.arg(0), S.slen(c.result) == S.slen(q), at_index(c, c.result),
                      forall([Int], lambda i: z3.Implies(rng(S, c.result, i), S.at(c.result, i) != 0), pats=lambda i: S.at(c.result, i)))
    if c.mode == 'check':
        c.ensures('as many places as descriptions, each holding the description with this index', ordered, on='normal')

        def refuse():
            ev = c.logged(LIST)
            if len(ev) == 1 and ev[0]['ret'] is not None:
                q = ev[0]['ret']
                ax, w, trig = choice(c, q)
                return z3.Implies(ax, z3.Not(fits(c, q, w, trig)))
            return True
        c.ensures('fails only when the indices are not exactly the numbers below their count', refuse, on='throw')


@contract(N + 'ValidateInstructionInfoTree', props=['C22'], loops=[lambda L: seen_indices(L)], modifies=['trace'])
def validate_info(c):
    S = c.S
    c.extra['validate'] = True
    card(c, z3.K(Int, z3.BoolVal(False)))
    c.may_throw(N + 'InvalidOperationException')
    c.requires('an index is not negative', forall([Int], lambda x: index_in(c, x) >= 0, pats=lambda x: index_in(c, x)))

    def ok():
        ev = c.logged(LIST)
        if len(ev) != 1:
            return False
        q = ev[0]['ret']
        return z3.And(ev[0]['obj'] == c.old.arg(0), no_repeat(c, q, S.slen(q)))
    if c.mode == 'check':
        c.ensures('accepts only indices below the count, none twice', ok, on='normal')


def no_repeat(c, q, n):
    S = c.S
    return z3.And(forall([Int], lambda j: z3.Implies(z3.And(0 <= j, j < n), index_in(c, S.at(q, j)) < S.slen(q)), pats=lambda j: S.at(q, j)),
                  forall([Int, Int], lambda i, j: z3.Implies(z3.And(0 <= i, i < j, j < n), index_in(c, S.at(q, i)) != index_in(c, S.at(q, j))),
                         pats=lambda i, j: z3.MultiPattern(S.at(q, i), S.at(q, j))))


def seen_indices(L):
    c, S = L.c, L.S
    ev = [e for e in c.rawlog if e['tag'] == LIST]
    if not c.extra.get('validate') or L.k is None or not ev:
        return None
    q = ev[-1]['ret']
    out = []
    for s in [w for n, w in L.slots() if S.is_map(w.sort()) and dom(c, w).sort().domain() == Int]:
        d = dom(c, s)
        out += [card(c, d) <= L.k,
                forall([Int], lambda j: z3.Implies(z3.And(0 <= j, j < L.k), z3.And(
                    index_in(c, S.at(q, j)) < S.slen(q), z3.Select(d, index_in(c, S.at(q, j))))), pats=lambda j: S.at(q, j)),
                z3.Implies(card(c, d) == L.k, no_repeat(c, q, L.k))]
    return out
