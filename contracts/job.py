"""Contracts of what a job reports to the outside (C32)."""
import z3

from contracts.core import N
from contracts.instr import status
from contracts.maps import IM, JM, JMI, card, dom, rng, the_map, val
from engine.verify import ENTITIES, contract, forall

Int = z3.IntSort()
JA, IO = N + 'JobInterfaceAdapter', N + 'IJobInfoIO'
JAM, JAS, JAIO = (JA + '::m_' + x for x in ('job_map', 'instr_states', 'job_info_io'))
ISB, ISE = (N + 'InstructionState::m_' + x for x in ('breakpoint_set', 'execution_status'))
ENTITIES.add(IO)
INSTATE, VARUP, JOBSTATE, PUTS, MSG, LOGS, COUNT, NEXTS, LEAVES = range(220, 229)

for _q, _t in (('InitNumberOfInstructions', COUNT), ('InstructionStateUpdated', INSTATE), ('VariableUpdated', VARUP), ('JobStateUpdated', JOBSTATE),
               ('PutValue', PUTS), ('Message', MSG), ('Log', LOGS), ('NextInstructionsUpdated', NEXTS)):
    @contract(IO + '::' + _q, abstract=True)
    def outside(c, t=_t):
        c.emit(t, obj=c.this, args=[c.old.arg(i) for i in range(len(c.args))])


def says(c, tag, *want):
    """exactly one report goes out, this one"""
    ev = c.log
    if len(ev) != 1 or ev[0]['tag'] != tag:
        return z3.BoolVal(False)
    a = [c.I.as_term(x, None) for x in ev[0]['args']]
    return z3.And(ev[0]['obj'] == c.old[JAIO], *[x == y for x, y in zip(a, want)])


def index_of(c, view, i):
    """the index of an instruction, and whether it has one"""
    m = view[JAM]
    node = c.S.getf(m, JMI)
    imap = z3.Select(view.heap(c.V.fkey(IM, 'm_instruction_map')), node)
    return z3.And(node != 0, z3.Select(dom(c, imap), i)), z3.Select(val(c, imap), i)


def has_states(c, i):
    known, n = index_of(c, c.old, i)
    c.requires('a state per instruction', z3.Implies(known, z3.And(0 <= n, n < c.S.slen(c.old[JAS]))))
    return known, n


def state_now(c, n, bp, st):
    """the state of this index is as given, the others are as before"""
    S = c.S
    a, b = c.old[JAS], c.new[JAS]
    x = S.at(b, n)
    return z3.And(S.slen(b) == S.slen(a), S.getf(x, ISB) == bp, S.getf(x, ISE) == st,
                  forall([Int], lambda k: z3.Implies(z3.And(rng(S, b, k), k != n), S.at(b, k) == S.at(a, k)), pats=lambda k: S.at(b, k)))


@contract(JA + '::UpdateInstructionStatus', props=['C32'], modifies=['trace', 'this.' + JAS])
def ja_status(c):
    S = c.S
    i = c.old.arg(0)
    c.requires('is told about an instruction', i > 0)
    known, n = has_states(c, i)
    c.throws(N + 'InvalidOperationException', z3.Not(known))
    old = S.at(c.old[JAS], n)
    st = status(c, c.old, i)
    c.ensures('the state of the instruction has its status and keeps its breakpoint', lambda: state_now(c, n, S.getf(old, ISB), st), on='normal')
    c.ensures('reports the index and the state of the instruction, once', lambda: says(c, INSTATE, n, S.at(c.new[JAS], n)), on='normal')


@contract(JA + '::OnBreakpointChange', props=['C32'], modifies=['trace', 'this.' + JAS])
def ja_bp(c):
    S = c.S
    i = c.old.arg(0)
    known, n = has_states(c, i)
    c.requires('the instruction is one of the job', known)
    old = S.at(c.old[JAS], n)
    c.ensures('the state of the instruction has its breakpoint and keeps its status', lambda: state_now(c, n, c.old.arg(1), S.getf(old, ISE)))
    c.ensures('reports the index and the state of the instruction, once', lambda: says(c, INSTATE, n, S.at(c.new[JAS], n)))


@contract(JA + '::VariableUpdated', props=['C32'], modifies=['trace'])
def ja_var(c):
    S = c.S
    m = S.get(S.getf(c.old[JAM], JM + '::m_variable_map'), 0)
    x = c.old.arg(0)
    c.throws(N + 'InvalidOperationException', z3.Not(z3.Select(dom(c, m), x)))
    c.ensures('reports the index of the variable, its value and whether it is connected, once',
              lambda: says(c, VARUP, z3.Select(val(c, m), x), c.old.arg(1), c.old.arg(2)), on='normal')


for _q, _t in (('PutValue', PUTS), ('Message', MSG), ('Log', LOGS), ('OnStateChange', JOBSTATE)):
    @contract(JA + '::' + _q, props=['C32'], modifies=['trace'])
    def ja_forward(c, t=_t):
        c.ensures('passes it on unchanged, once', lambda: says(c, t, *[c.old.arg(i) for i in range(len(c.args))]))
        if t == PUTS:
            c.ensures('is taken', lambda: c.result)


@contract(JA + '::InitializeInstructionTree', props=['C32'], modifies=['any'])
def ja_init(c):
    S = c.S
    c.may_throw(N + 'InvalidOperationException')

    def fresh():
        s = c.new[JAS]
        return forall([Int], lambda k: z3.Implies(rng(S, s, k), z3.And(
            z3.Not(S.getf(S.at(s, k), ISB)), S.getf(S.at(s, k), ISE) == c.enum(N + 'ExecutionStatus::NOT_STARTED'))), pats=lambda k: S.at(s, k))
    c.ensures('every instruction starts without breakpoint and not started', fresh, on='normal')

    def told():
        ev = c.logged(COUNT)
        return z3.And(len(ev) == 1, *[z3.And(e['obj'] == c.old[JAIO], c.I.as_term(e['args'][0], None) == S.slen(c.new[JAS])) for e in ev])
    c.ensures('announces the number of instructions, one state for each, once', told, on='normal')


@contract(N + 'GetNextLeaves', abstract=True)
def leaves(c):
    S = c.S
    c.emit(LEAVES, obj=c.args[0])
    c.ensures('instructions', lambda: S.slen(c.result) >= 0)


def numbered(L):
    c, S = L.c, L.S
    ev = [e for e in c.rawlog if e['tag'] == LEAVES]
    if L.k is None or len(ev) != 1:
        return None
    l = c.I.as_term(ev[0]['ret'], None)
    return [z3.And(S.slen(out) == L.k, forall([Int], lambda k: z3.Implies(z3.And(0 <= k, k < L.k), z3.And(
        index_of(c, c.old, S.at(l, k))[0], S.at(out, k) == index_of(c, c.old, S.at(l, k))[1])), pats=lambda k: S.at(out, k)))
        for n, out in L.slots() if S.is_seq(out.sort()) and S.elem(out) == Int]


@contract(JA + '::OnProcedureTick', props=['C32'], modifies=['trace'], loops=[numbered])
def ja_tick(c):
    S = c.S
    c.may_throw(N + 'InvalidOperationException')

    def reports():
        ev = c.log
        if [e['tag'] for e in ev] != [LEAVES, NEXTS]:
            return z3.BoolVal(False)
        l, out = c.I.as_term(ev[0]['ret'], None), c.I.as_term(ev[1]['args'][0], None)
        return z3.And(ev[1]['obj'] == c.old[JAIO], S.slen(out) == S.slen(l), forall([Int], lambda k: z3.Implies(rng(S, out, k), z3.And(
            index_of(c, c.old, S.at(l, k))[0], S.at(out, k) == index_of(c, c.old, S.at(l, k))[1])), pats=lambda k: S.at(out, k)))
    c.ensures('reports the indices of exactly the next instructions, in order, once', reports, on='normal')
