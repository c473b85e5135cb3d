"""Contracts of running procedures: C19 (breakpoints), C20 (runner), C21 (job control)."""
import z3

from contracts.core import B, N, one_section, params_are
from contracts.instr import INS, JOIN, finished, ready, st, valid
from engine.verify import CALL, ENTITIES, MONITORS, contract, forall

Int = z3.IntSort()
BM = N + 'BreakpointManager'
BPS, KNOWN = BM + '::m_breakpoints', BM + '::m_instruction_list'
BI, BS = B + '::m_instruction', B + '::m_status'
HANDLE, REARM, PTICK, PSTATUS, PHALT, NEXT, ROOT, HALTED, TICKCB, SETSTATE, RUN, STEP, SETCB, SETUPP, RESETP, PAUSE, \
    CURRENT, ONTICK, TIMEOUT, ASKED, LOADED, STORED, PUSH, UPUSH, POP, WAITED, ACTED, PROCESS, SWITCH, BPCHANGE = range(40, 70)
BPSET, BPREMOVED, JOBSET, JOBREMOVED, JOBCMD = range(70, 75)
MONITORS[BM] = {'cls': BM, 'mutex': 'm_mtx', 'only': ['m_breakpoints']}


def binstr(c, seq):
    return lambda i: c.S.getf(c.S.at(seq, i), BI)


def bstat(c, seq):
    return lambda i: c.S.getf(c.S.at(seq, i), BS)


def kset(c):
    return c.enum(B + '::Status::kSet')


def kreleased(c):
    return c.enum(B + '::Status::kReleased')


def rng(c, seq, i):
    return z3.And(0 <= i, i < c.S.slen(seq))


def distinct(c, seq):
    """at most one breakpoint per instruction"""
    g = binstr(c, seq)
    return forall([Int, Int], lambda i, j: z3.Implies(z3.And(0 <= i, i < j, j < c.S.slen(seq)), g(i) != g(j)))


def known(c, x):
    return z3.Select(c.S.get(c.old[KNOWN], 0), x)


def present(c, seq, x):
    return z3.Exists([z3.Int('pq')], z3.And(rng(c, seq, z3.Int('pq')), binstr(c, seq)(z3.Int('pq')) == x))


@contract(BM + '::SetBreakpoint', props=['C19'], modifies=['this.' + BPS])
def bm_set(c):
    S = c.S
    x = c.old.arg(0)
    c.throws(N + 'InvalidOperationException', z3.Not(known(c, x)))
    if c.mode == 'call':
        c.emit(BPSET, obj=c.this, args=[x])
    one_section(c)
    c.ensures('reports whether there was none for the instruction yet', lambda: c.result == z3.Not(present(c, c.acq[BPS], x)))

    def added():
        a, b = c.acq[BPS], c.rel[BPS]
        n = S.slen(a)
        new = z3.And(S.slen(b) == n + 1, binstr(c, b)(n) == x, bstat(c, b)(n) == kset(c),
                     forall([Int], lambda i: z3.Implies(rng(c, a, i), S.at(b, i) == S.at(a, i))))
        return z3.If(c.result, new, S.seq_eq(b, a))
    c.ensures('a new one is armed and comes last, the others stay; a second one changes nothing', added)
    c.ensures('there is at most one breakpoint per instruction',
              lambda: z3.Implies(distinct(c, c.acq[BPS]), distinct(c, c.rel[BPS])))


@contract(BM + '::RemoveBreakpoint', props=['C19'], modifies=['this.' + BPS])
def bm_remove(c):
    S = c.S
    x = c.old.arg(0)
    if c.mode == 'call':
        c.emit(BPREMOVED, obj=c.this, args=[x])
    one_section(c)
    c.ensures('reports whether there was one', lambda: c.result == present(c, c.acq[BPS], x))

    def removed():
        a, b = c.acq[BPS], c.rel[BPS]
        k = z3.Int('rk')
        gone = z3.Exists([k], z3.And(rng(c, a, k), binstr(c, a)(k) == x, S.slen(b) == S.slen(a) - 1,
                                     forall([Int], lambda i: z3.Implies(rng(c, b, i), S.at(b, i) == S.at(a, z3.If(i < k, i, i + 1))))))
        return z3.If(c.result, gone, S.seq_eq(b, a))
    c.ensures('removes exactly that one and leaves the others as they are, in order', removed)
    c.ensures('there is at most one breakpoint per instruction',
              lambda: z3.Implies(distinct(c, c.acq[BPS]), distinct(c, c.rel[BPS])))


def membership(c, seq):
    """x occurs in the list (a defined predicate with its witness)"""
    S = c.S
    f = z3.Function('occurs', Int, z3.BoolSort())
    w = z3.Function('occurs_at', Int, Int)
    i, x = z3.Int('mi'), z3.Int('mx')
    c.assume(z3.ForAll([i], z3.Implies(rng(c, seq, i), f(S.at(seq, i))), patterns=[S.at(seq, i)]))
    c.assume(z3.ForAll([x], z3.Implies(f(x), z3.And(rng(c, seq, w(x)), S.at(seq, w(x)) == x)), patterns=[f(x)]))
    return f


def stopping(c, seq):
    """breakpoint i is armed and on one of the next instructions"""
    f = c.extra['member']
    S = c.S
    return lambda i: z3.And(S.getf(z3.Select(S.sarr(seq), i), BS) == kset(c), f(S.getf(z3.Select(S.sarr(seq), i), BI)))


def reported(L):
    c, S = L.c, L.S
    if L.k is None or not c.f['q'].endswith('HandleBreakpoints'):
        return None
    a, b = L.acq[BPS], L.cur[BPS]
    hit = stopping(c, a)
    g = c.counter(a, hit)
    out = [S.slen(a) == S.slen(b), forall([Int], lambda i: z3.Implies(rng(c, a, i), z3.And(
        binstr(c, b)(i) == binstr(c, a)(i),
        bstat(c, b)(i) == z3.If(z3.And(i < L.k, hit(i)), kreleased(c), bstat(c, a)(i)))))]
    for n, w in L.changed(S.seq(Int)):
        out.append(z3.And(S.slen(w) == g(L.k), forall([Int], lambda i: z3.Implies(
            z3.And(0 <= i, i < L.k, hit(i)), S.at(w, g(i)) == binstr(c, a)(i)))))
    return out


@contract(BM + '::HandleBreakpoints', props=['C19'], modifies=['this.' + BPS], loops=[reported])
def bm_handle(c):
    S = c.S
    nxt = c.old.arg(0)
    if c.mode == 'call':
        c.emit(HANDLE, obj=c.this, args=[nxt])
        return
    c.extra['member'] = membership(c, nxt)
    one_section(c)

    def rep():
        a = c.acq[BPS]
        hit = stopping(c, a)
        g = c.counter(a, hit)
        n = S.slen(a)
        return z3.And(S.slen(c.result) == g(n), forall([Int], lambda i: z3.Implies(
            z3.And(rng(c, a, i), hit(i)), S.at(c.result, g(i)) == binstr(c, a)(i))))
    c.ensures('reports exactly the instructions of armed breakpoints about to be executed, in order of setting', rep)
    c.ensures('disarms exactly those and leaves the others as they are', lambda: z3.And(
        S.slen(c.rel[BPS]) == S.slen(c.acq[BPS]), forall([Int], lambda i: z3.Implies(rng(c, c.acq[BPS], i), z3.And(
            binstr(c, c.rel[BPS])(i) == binstr(c, c.acq[BPS])(i),
            bstat(c, c.rel[BPS])(i) == z3.If(stopping(c, c.acq[BPS])(i), kreleased(c), bstat(c, c.acq[BPS])(i)))))))


def rearmed(L):
    c, S = L.c, L.S
    if L.k is None or not c.f['q'].endswith('ResetBreakpoints'):
        return None
    a, b = L.acq[BPS], L.cur[BPS]
    return [S.slen(a) == S.slen(b), forall([Int], lambda i: z3.Implies(rng(c, a, i), z3.And(
        binstr(c, b)(i) == binstr(c, a)(i),
        bstat(c, b)(i) == z3.If(z3.And(i < L.k, bstat(c, a)(i) == kreleased(c)), kset(c), bstat(c, a)(i)))))]


@contract(BM + '::ResetBreakpoints', props=['C19'], modifies=['this.' + BPS], loops=[rearmed])
def bm_reset(c):
    S = c.S
    if c.mode == 'call':
        c.emit(REARM, obj=c.this)
        return
    one_section(c)
    c.ensures('every breakpoint is armed again, the disabled ones stay as they are', lambda: z3.And(
        S.slen(c.rel[BPS]) == S.slen(c.acq[BPS]), forall([Int], lambda i: z3.Implies(rng(c, c.acq[BPS], i), z3.And(
            binstr(c, c.rel[BPS])(i) == binstr(c, c.acq[BPS])(i),
            bstat(c, c.rel[BPS])(i) == z3.If(bstat(c, c.acq[BPS])(i) == kreleased(c), kset(c), bstat(c, c.acq[BPS])(i)))))))


@contract(BM + '::GetBreakpoints', props=['C19'])
def bm_list(c):
    one_section(c)
    c.ensures('lists the breakpoints in order of setting', lambda: c.S.seq_eq(c.result, c.acq[BPS]))


@contract(BM + '::BreakpointManager', props=['C19'], modifies=['this'], nparams=0)
def bm_ctor(c):
    c.ensures('starts without breakpoints and known instructions', lambda: z3.And(
        c.S.slen(c.new[BPS]) == 0, forall([Int], lambda i: z3.Not(z3.Select(c.S.get(c.new[KNOWN], 0), i)))))


# ------------------------------------------------------------------------------------------ C20 runner
RN = N + 'Runner'
RPROC, RHALT, RCUR, RTICK = RN + '::m_proc', RN + '::m_halt', RN + '::m_current_breakpoint_instructions', RN + '::m_tick_cb'
RBM = RN + '::m_breakpoint_manager'
PR = N + 'Procedure'
ENTITIES.add(PR)


@contract(PR + '::GetStatus', abstract=True)
def p_status(c):
    c.emit(PSTATUS, obj=c.this)
    c.ensures('one of the five', lambda: valid(c, c.result))


@contract(PR + '::RootInstruction', abstract=True)
def p_root(c):
    c.emit(ROOT, obj=c.this)
    c.ensures('an instruction or none', lambda: c.result >= 0)


@contract(PR + '::ExecuteSingle', abstract=True)
def p_tick(c):
    c.emit(PTICK, obj=c.this)


@contract(PR + '::Halt', abstract=True)
def p_halt(c):
    c.emit(PHALT, obj=c.this)


@contract(N + 'GetNextInstructions', abstract=True)
def p_next(c):
    c.emit(NEXT, obj=c.args[0])


@contract(INS + '::IsHaltRequested', abstract=True)
def i_halt(c):
    c.emit(ASKED, obj=c.this)


def since(c):
    """what happened after the last tick or loop head, or since the start: calls and looks at atomic members, in order"""
    log = c.rawlog
    base = max([i + 1 for i, e in enumerate(log) if e['tag'] in (0, STEP)], default=0)
    out = [(i, 1, e) for i, e in enumerate(log) if i >= base]
    out += [(pos, 0, dict(tag=LOADED if kind == 'load' else STORED, obj=None, key=key, ret=v, args=[]))
            for pos, kind, key, v in c.I.alog if pos >= base]
    out.sort(key=lambda x: (x[0], x[1]))
    return [e for _, _, e in out]


def unfinished_now(c, evs):
    """the looks at the procedure in evs say that it goes on"""
    key = c.V.fkey(RN, 'm_halt')
    halts = [e['ret'] for e in evs if e['tag'] == LOADED and e['key'] == key]
    stats = [e['ret'] for e in evs if e['tag'] == PSTATUS]
    if not halts or not stats:
        return z3.BoolVal(False)
    return z3.And(*[z3.Not(h) for h in halts], *[z3.Not(finished(c, x)) for x in stats],
                  *[e['ret'] != 0 for e in evs if e['tag'] == ROOT],
                  *[z3.Not(e['ret']) for e in evs if e['tag'] == ASKED])


def told_to_end(c, evs):
    key = c.V.fkey(RN, 'm_halt')
    return z3.Or(z3.BoolVal(False), *[e['ret'] for e in evs if e['tag'] == LOADED and e['key'] == key],
                 *[finished(c, e['ret']) for e in evs if e['tag'] == PSTATUS],
                 *[e['ret'] == 0 for e in evs if e['tag'] == ROOT], *[e['ret'] for e in evs if e['tag'] == ASKED])


@contract(RN + '::ExecuteSingle', props=['C20'], modifies=['trace', 'heap:*' + BM])
def r_single(c):
    S = c.S
    p = c.old[RPROC]
    c.requires('there is a breakpoint manager', c.old[RBM] > 0)
    if c.mode == 'call':
        if c.V.f['q'].endswith('::ExecuteProcedure'):
            evs = since(c)
            c.requires('ticks only a procedure that is neither finished nor told to stop', z3.And(p != 0, unfinished_now(c, evs)))
            nx = [e for e in evs if e['tag'] == NEXT]
            hd = [e for e in evs if e['tag'] == HANDLE]
            free = z3.BoolVal(False)
            if nx:
                free = S.slen(nx[-1]['ret']) == 0
                if hd and evs.index(hd[-1]) > evs.index(nx[-1]):
                    free = z3.Or(free, z3.And(S.slen(hd[-1]['ret']) == 0, S.seq_eq(c.I.as_term(hd[-1]['args'][0], None), nx[-1]['ret'])))
            c.requires('ticks only when no armed breakpoint is on what comes next', free)
        c.emit(STEP, obj=c.this)
        return
    cb = c.old[RTICK]

    def all_of_it():
        ev = c.log
        if not ev:
            return p == 0
        tags = [e['tag'] for e in ev]
        want = [PTICK, REARM]
        ok = [p != 0, ev[0]['obj'] == p if ev[0]['tag'] == PTICK else z3.BoolVal(False)]
        if tags == want:
            return z3.And(cb == S.nullFn, *ok)
        if tags == want + [CALL]:
            return z3.And(cb != S.nullFn, ev[2]['fn'] == cb, c.I.as_term(ev[2]['args'][0], None) == p, *ok)
        return False
    c.ensures('one tick of the procedure, then every breakpoint armed again, then the tick callback once', all_of_it)


def nothing_reported(L):
    if not L.c.f['q'].endswith('::ExecuteProcedure'):
        return None
    return L.S.slen(L.cur[RCUR]) == 0


@contract(RN + '::ExecuteProcedure', props=['C20'], modifies=['trace', 'this.' + RCUR, 'this.' + RHALT, 'heap:*' + BM],
          loops=[nothing_reported])
def r_execute(c):
    S = c.S
    p = c.old[RPROC]
    c.requires('there is a breakpoint manager', c.old[RBM] > 0)
    if c.mode == 'call':
        c.emit(RUN, obj=c.this)
        return

    def ends():
        evs = since(c)
        hd = [e for e in evs if e['tag'] == HANDLE]
        hit = S.slen(hd[-1]['ret']) > 0 if hd else z3.BoolVal(False)
        return z3.Or(p == 0, hit, told_to_end(c, evs))

    def reports():
        evs = since(c)
        hd = [e for e in evs if e['tag'] == HANDLE]
        r = c.new[RCUR]
        if not hd:
            return S.slen(r) == 0
        return S.seq_eq(r, hd[-1]['ret'])
    c.ensures('ends only when finished, halted, paused or at a breakpoint', ends)
    c.ensures('reports exactly the breakpoints that stopped this run', reports)
    c.ensures('does nothing without a procedure', lambda: z3.Or(p != 0, z3.BoolVal(not c.rawlog)))


@contract(RN + '::Runner', props=['C20'], modifies=['this', 'alloc', 'heap:*' + BM], nparams=1, sig=params_are('UserInterface'))
def r_ctor(c):
    c.ensures('starts without procedure, callback and breakpoints', lambda: z3.And(
        c.new[RPROC] == 0, c.new[RTICK] == c.S.nullFn, c.S.slen(c.new[RCUR]) == 0))
    c.ensures('there is a breakpoint manager', lambda: c.new[RBM] > 0)


@contract(RN + '::SetTickCallback', props=['C20'], modifies=['this.' + RTICK])
def r_setcb(c):
    fn = c.old.arg(0)
    if c.mode == 'call':
        c.emit(SETCB, obj=c.this, fn=fn)
        return
    c.ensures('replaces the tick callback', lambda: c.new[RTICK] == fn)


def managers_answer(c, tag, x):
    """what the breakpoint manager answered, asked once about this instruction, or None"""
    ev = c.logged(BPSET, BPREMOVED)
    if len(ev) != 1 or ev[0]['tag'] != tag:
        return None
    r = ev[0].get('ret')
    return (None if r is None else c.I.as_term(r, None)), c.I.as_term(ev[0]['args'][0], None) == x


for _q, _t in (('SetBreakpoint', BPSET), ('RemoveBreakpoint', BPREMOVED)):
    @contract(RN + '::' + _q, props=['C19'], modifies=['heap:*' + BM, 'trace'], modular=False)
    def r_bp(c, q=_q, tag=_t):
        c.requires('there is a breakpoint manager', c.old[RBM] > 0)
        key = '*' + BM
        c.V.heap_types[key] = BM
        x = c.old.arg(0)
        m = c.S.getf(z3.Select(c.old.heap(key), c.old[RBM]), KNOWN)
        if q == 'SetBreakpoint':
            c.throws(N + 'InvalidOperationException', z3.Not(z3.Select(c.S.get(m, 0), x)))

        def forwarded():
            r = managers_answer(c, tag, x)
            return z3.And(r[1], c.result == r[0]) if r else z3.BoolVal(False)
        c.ensures('asks the breakpoint manager once about this instruction, and hands back its answer', forwarded)


@contract(RN + '::GetCurrentBreakpointInstructions', props=['C20'])
def r_current(c):
    if c.mode == 'call':
        c.emit(CURRENT, obj=c.this)
        return
    c.ensures('the breakpoints that stopped the last run', lambda: c.S.seq_eq(c.result, c.old[RCUR]))


@contract(RN + '::Halt', props=['C20'], modifies=['trace', 'this.' + RHALT])
def r_halt(c):
    if c.mode == 'call':
        c.emit(HALTED, obj=c.this)
        return
    p = c.old[RPROC]
    key = c.V.fkey(RN, 'm_halt')
    c.ensures('stops the run', lambda: z3.And(*([v for k, lv, v in c.I.astores if k == key][-1:] or [z3.BoolVal(False)])))
    c.ensures('halts the procedure, if there is one', lambda: z3.And(
        z3.BoolVal(len(c.log) == 1) == (p != 0), len(c.log) <= 1, *[z3.And(e['tag'] == PHALT, e['obj'] == p) for e in c.log]))


@contract(RN + '::Pause', props=['C20'], modifies=['trace', 'this.' + RHALT])
def r_pause(c):
    if c.mode == 'call':
        c.modifies('this.' + RHALT)
        c.emit(PAUSE, obj=c.this)
        return
    key = c.V.fkey(RN, 'm_halt')
    c.ensures('stops the run', lambda: z3.And(*([v for k, lv, v in c.I.astores if k == key][-1:] or [z3.BoolVal(False)])))
    c.ensures('does nothing to the procedure', lambda: not c.log)


@contract(RN + '::IsFinished', props=['C20'], modular=False, modifies=['trace'])
def r_finished(c):
    p = c.old[RPROC]

    def says():
        evs = since(c)
        return c.result == z3.Or(p == 0, z3.And(p != 0, told_to_end(c, evs)))
    c.ensures('finished without a procedure, when its status is final, without root or with a halted root', says)


@contract(RN + '::IsRunning', props=['C20'], modular=False, modifies=['trace'])
def r_running(c):
    p = c.old[RPROC]
    c.ensures('running exactly when the procedure is', lambda: z3.If(p == 0, z3.Not(c.result), z3.And(
        len(c.logged(PSTATUS)) == 1, *[c.result == (e['ret'] == st(c, 'RUNNING')) for e in c.logged(PSTATUS)])))


# ------------------------------------------------------------------------------------------ C21 job control
AR = N + 'AsyncRunner'
AH, AKEEP = AR + '::m_command_handler', AR + '::m_keep_alive'
ARUN, AQ = AR + '::m_runner', AR + '::m_command_queue'
JOBPARTS = ['this.' + AH, 'this.' + AKEEP, 'this.' + ARUN, 'this.' + AQ, 'heap:*' + BM]
ENTITIES.add(AR)


def has_bm(c, view):
    return c.S.getf(view[ARUN], RBM) > 0


def manager_kept(c):
    c.requires('the runner has a breakpoint manager', has_bm(c, c.old))
    c.ensures('the runner keeps a breakpoint manager', lambda: has_bm(c, c.new))


def in_loop(c):
    return c.V.f['q'].endswith('::ExecutionLoop')


def owed(c, view):
    """ghost: what the last command asked for and was not done yet (1 a run, 2 a step)"""
    return z3.Select(view.ghost('owed'), z3.IntVal(0))


def pays(c, n, label):
    if in_loop(c):
        c.requires(label, owed(c, c.old) == n)
        c.modifies('owed')
        c.ensures('done', lambda: owed(c, c.new) == 0)


def nothing_owed(L):
    return owed(L.c, L.cur) == 0 if in_loop(L.c) else None


def manager_in_loop(L):
    return has_bm(L.c, L.cur) if L.k is None else None
MON = N + 'JobStateMonitor'


@contract(MON + '::OnStateChange', abstract=True)
def on_state(c):
    c.emit(SETSTATE, obj=c.this, args=[c.args[0]])


@contract(MON + '::OnProcedureTick', abstract=True)
def on_tick(c):
    c.emit(ONTICK, obj=c.this, args=[c.args[0]])


@contract(MON + '::OnBreakpointChange', abstract=True)
def on_bp(c):
    c.emit(BPCHANGE, obj=c.this, args=[c.args[0], c.args[1]])


@contract(N + 'TickTimeoutNs', abstract=True)
def tick_timeout(c):
    c.emit(TIMEOUT, obj=c.args[0])


@contract(PR + '::Reset', abstract=True)
def p_reset(c):
    c.emit(RESETP, obj=c.this)


def job(c, n):
    return c.enum(N + 'JobState::' + n)


def cmd(c, n):
    return c.enum(N + 'JobCommand::' + n)


def act(c, n):
    return c.enum(AR + '::Action::' + n)


def handler(c, n):
    """the pointer to the member function that handles commands in this state"""
    for i, f in c.V.member_pointers():
        if f['q'] == AR + '::Handle' + n:
            return z3.IntVal(i)
    raise KeyError(n)


@contract(AR + '::SetState', props=['C21'], modifies=['trace', 'this.' + AH])
def a_state(c):
    x = c.old.arg(0)
    if c.mode == 'call':
        c.emit(SETSTATE, args=[x])
        return
    c.ensures('reports the new state exactly once', lambda: z3.And(
        len(c.log) == 1, *[z3.And(e['tag'] == SETSTATE, c.I.as_term(e['args'][0], None) == x) for e in c.log]))

    def picked():
        h = c.new[AH]
        fin = z3.Or(x == job(c, 'kSucceeded'), x == job(c, 'kFailed'), x == job(c, 'kHalted'))
        return z3.And(z3.Implies(x == job(c, 'kInitial'), h == handler(c, 'Initial')),
                      z3.Implies(x == job(c, 'kPaused'), h == handler(c, 'Paused')),
                      z3.Implies(x == job(c, 'kRunning'), h == handler(c, 'Running')),
                      z3.Implies(fin, h == handler(c, 'Finished')),
                      z3.Implies(x == job(c, 'kStepping'), h == c.old[AH]))
    c.ensures('commands are handled as the state demands', picked)


def states(c):
    return [c.I.as_term(e['args'][0], None) for e in c.logged(SETSTATE)]


def only_state(c, *names):
    """exactly these states are reported, in this order"""
    s = states(c)
    return z3.And(len(s) == len(names), *[x == job(c, n) for x, n in zip(s, names)])


def kept_alive(c):
    """what is stored in the flag that keeps the loop going, if anything"""
    key = c.V.fkey(AR, 'm_keep_alive')
    return [v for k, lv, v in c.I.astores if k == key]


def handles(state, table, quiet):
    """the command handler of one state: {command: (action, states reported, other calls)}"""
    @contract(AR + '::Handle' + state, props=['C21'], modifies=['trace'] + JOBPARTS)
    def spec(c):
        manager_kept(c)
        x = c.old.arg(0)
        if c.mode == 'call':
            c.emit(ACTED, args=[x], obj=handler(c, state))
            return
        for n in ('kStart', 'kStep', 'kPause', 'kReset', 'kHalt'):
            a, sts, other = table.get(n, ('kContinue', (), ()))

            def does(n=n, a=a, sts=sts, other=other):
                calls = [e['tag'] for e in c.log if e['tag'] != SETSTATE]
                alive = kept_alive(c)
                return z3.Implies(x == cmd(c, n), z3.And(
                    c.result == act(c, a), only_state(c, *sts), z3.BoolVal(calls == list(other)), *alive))
            c.ensures('%s: %s' % (n[1:].lower(), 'action ' + a[1:].lower() + (', then ' + ', '.join(sts) if sts else ', no change of state')), does)
        c.ensures('terminate ends the loop without a change of state', lambda: z3.Implies(x == cmd(c, 'kTerminate'), z3.And(
            c.result == act(c, 'kExit'), only_state(c), *([z3.Not(v) for v in kept_alive(c)[-1:]] or [z3.BoolVal(False)]))))
        c.ensures('any other command is ignored', lambda: z3.Implies(
            z3.And(*[x != cmd(c, n) for n in ('kStart', 'kStep', 'kPause', 'kReset', 'kHalt', 'kTerminate')]),
            z3.And(c.result == act(c, 'kContinue'), z3.BoolVal(not c.log))))


STARTS = {'kStart': ('kRun', ('kRunning',), ()), 'kStep': ('kStep', ('kStepping',), ()), 'kHalt': ('kContinue', ('kHalted',), ())}
handles('Initial', STARTS, ())
handles('Paused', STARTS, ())
handles('Running', {'kStep': ('kContinue', ('kPaused',), (PAUSE,)), 'kPause': ('kContinue', ('kPaused',), (PAUSE,)),
                    'kHalt': ('kContinue', ('kHalted',), ())}, ())
handles('Finished', {'kReset': ('kContinue', ('kInitial',), (RESETP,))}, ())


@contract(AR + '::HandleCommand', props=['C21'], modifies=['trace'] + JOBPARTS)
def a_handle(c):
    manager_kept(c)
    x = c.old.arg(0)
    if c.mode == 'call':
        c.emit(ACTED, args=[x])
        if in_loop(c):
            ev = [e for e in c.rawlog if e['tag'] == WAITED][-1:]
            c.requires('handles the command it waited for', ev[0]['ret'] == x if ev else z3.BoolVal(False))
            c.modifies('owed')
            c.ensures('owed', lambda: owed(c, c.new) == z3.If(c.result == act(c, 'kRun'), 1, z3.If(c.result == act(c, 'kStep'), 2, 0)))
        return
    c.requires('some state was set', z3.Or(*[c.old[AH] == handler(c, n) for n in ('Initial', 'Paused', 'Running', 'Finished')]))
    c.ensures('the handler of the current state handles the command, once', lambda: z3.And(
        len(c.log) == 1, *[z3.And(e['tag'] == ACTED, e['obj'] == c.old[AH], c.I.as_term(e['args'][0], None) == x,
                                  c.result == e['ret']) for e in c.log]))


@contract(AR + '::SwitchStateOnFinished', props=['C21'], modifies=['trace', 'this.' + AH])
def a_switch(c):
    if c.mode == 'call':
        c.emit(SWITCH)
        return
    c.ensures('a finished procedure reports succeeded or failed according to its status, an unfinished one nothing', lambda: (
        lambda ps: z3.And(z3.BoolVal(len(ps) > 0), c.result == finished(c, ps[0]), z3.If(
            z3.Not(finished(c, ps[0])), only_state(c), z3.If(ps[-1] == st(c, 'SUCCESS'), only_state(c, 'kSucceeded'), only_state(c, 'kFailed')))))(
        [e['ret'] for e in c.logged(PSTATUS)]))


def tick_reports(c, tags):
    cb = c.logged(SETCB)
    if len(cb) != 1:
        return False
    p = c.I.fresh('ticked', Int)
    c.I.assume(p > 0)
    n = len(c.rawlog)
    c.I.call_value(cb[0]['fn'], [p], None)
    h = [e for e in c.rawlog[n:] if e['tag'] in (PROCESS, ONTICK, SETSTATE, SWITCH, STEP, RUN)]
    return z3.And(z3.BoolVal([e['tag'] for e in h] == tags),
                  *[c.I.as_term(e['args'][0], None) == p for e in h if e['tag'] == ONTICK])


@contract(AR + '::StepProcedure', props=['C21'], modifies=['trace'] + JOBPARTS)
def a_step(c):
    manager_kept(c)
    if c.mode == 'call':
        c.emit(STEP)
        pays(c, 2, 'steps exactly when the command asks for a step')
        return

    def steps():
        ev = c.logged(STEP, SWITCH, SETSTATE, RUN)
        tags = [e['tag'] for e in ev]
        if tags[:2] != [STEP, SWITCH]:
            return False
        sw = ev[1]['ret']
        return z3.If(sw, z3.BoolVal(len(ev) == 2), only_state(c, 'kPaused'))
    c.ensures('one tick, after which the job is finished or paused', steps)
    c.ensures('reports the tick once', lambda: tick_reports(c, [ONTICK]))


@contract(AR + '::ProcessCommandsWhenRunning', props=['C21'], modifies=['trace'] + JOBPARTS)
def a_process(c):
    manager_kept(c)
    if c.mode == 'call':
        c.emit(PROCESS)
        return

    def does():
        sw, po, ac = c.logged(SWITCH), c.logged(POP), c.logged(ACTED)
        if len(sw) != 1 or len(po) > 1 or len(ac) > 1 or c.logged(SETSTATE, STEP, RUN):
            return False
        done = sw[0]['ret']
        if not po:
            return z3.And(done, z3.BoolVal(not ac))
        got = po[0]['ret']
        return z3.And(z3.Not(done), z3.BoolVal(bool(ac)) == got,
                      *[c.I.as_term(e['args'][0], None) == po[0]['args'][0] for e in ac])
    c.ensures('an unfinished job handles the front command, if there is one, a finished one none', does)


@contract(AR + '::RunProcedure', props=['C21'], modifies=['trace'] + JOBPARTS)
def a_run(c):
    manager_kept(c)
    if c.mode == 'call':
        c.emit(RUN)
        pays(c, 1, 'runs exactly when the command asks for a run')
        return

    def runs():
        ev = c.logged(RUN, CURRENT, SETSTATE, STEP, SETCB)
        tags = [e['tag'] for e in ev]
        if tags[:3] != [SETCB, RUN, CURRENT] or len([t for t in tags if t in (RUN, STEP)]) != 1:
            return False
        return z3.If(c.S.slen([e for e in ev if e['tag'] == CURRENT][-1]['ret']) > 0, only_state(c, 'kPaused'), only_state(c))
    c.ensures('after each tick handles one command, then reports the tick once', lambda: tick_reports(c, [PROCESS, ONTICK]))
    c.ensures('one run, after which the job is paused exactly when a breakpoint stopped it', runs)


@contract(AR + '::ExecutionLoop', props=['C21'], modifies=['trace'] + JOBPARTS, loops=[manager_in_loop, nothing_owed])
def a_loop(c):
    c.modifies('owed')
    c.requires('nothing is owed yet', owed(c, c.old) == 0)
    manager_kept(c)
    def ends():
        ev = since(c)
        key = c.V.fkey(AR, 'm_keep_alive')
        off = [z3.Not(e['ret']) for e in ev if e['tag'] == LOADED and e['key'] == key]
        ex = [e['ret'] == act(c, 'kExit') for e in ev if e['tag'] == ACTED]
        return z3.Or(z3.BoolVal(False), *(off + ex))
    c.ensures('goes on until it is told to exit', ends)


for _q, _t in (('SetBreakpoint', BPSET), ('RemoveBreakpoint', BPREMOVED)):
    @contract(AR + '::' + _q, props=['C19'], modifies=['trace', 'heap:*' + BM])
    def a_bp(c, q=_q, tag=_t):
        if c.mode == 'call':
            c.emit(JOBSET if q == 'SetBreakpoint' else JOBREMOVED, obj=c.this, args=[c.old.arg(0)])
            return
        c.requires('the runner has a breakpoint manager', has_bm(c, c.old))
        c.V.heap_types['*' + BM] = BM
        x = c.old.arg(0)
        m = c.S.getf(z3.Select(c.old.heap('*' + BM), c.S.getf(c.old[ARUN], RBM)), KNOWN)
        told = z3.BoolVal(q == 'SetBreakpoint')

        def reported():
            ev = c.logged(BPCHANGE)
            r = managers_answer(c, tag, x)
            if r is None:
                return z3.BoolVal(False)
            if r[0] is None:                           # refused: the instruction is none of the procedure's
                return z3.And(told, r[1], z3.Not(z3.Select(c.S.get(m, 0), x)), not ev)
            if not ev:
                return z3.And(r[1], z3.Not(r[0]))
            a = [c.I.as_term(y, None) for y in ev[0]['args']]
            return z3.And(len(ev) == 1, r[1], r[0], a[0] == x, a[1] == told)
        c.ensures('asks the breakpoint manager once and reports a change exactly if there was one', reported)


for _n in ('Start', 'Step', 'Pause', 'Reset'):
    @contract(AR + '::' + _n, props=['C21'], modifies=['trace', 'this.' + AQ])
    def a_cmd(c, n=_n):
        if c.mode == 'call':
            c.emit(JOBCMD, obj=c.this, args=[cmd(c, 'k' + n)])
            return
        c.ensures('queues exactly this command', lambda: z3.And(
            len(c.log) == 1, *[z3.And(e['tag'] == PUSH, c.I.as_term(e['args'][0], None) == cmd(c, 'k' + n)) for e in c.log]))


def hook_calls(c, fn):
    """what the hook handed over does when it is called"""
    n = len(c.rawlog)
    c.I.call_value(fn, [], None)
    return c.rawlog[n:]


for _n in ('Halt', 'Terminate'):
    @contract(AR + '::' + _n, props=['C21'], modifies=['trace', 'this.' + AQ, 'this.' + ARUN])
    def a_urgent(c, n=_n):
        if c.mode == 'call':
            c.emit(JOBCMD, obj=c.this, args=[cmd(c, 'k' + n)])
            return
        def queued():
            up = c.logged(UPUSH)
            if len(up) != 1 or c.logged(PUSH):
                return False
            return c.I.as_term(up[0]['args'][0], None) == cmd(c, 'k' + n)
        c.ensures('queues exactly this command in front', queued)

        def hook():
            h = hook_calls(c, c.logged(UPUSH)[0]['fn'])
            return z3.BoolVal([e['tag'] for e in h] == [HALTED])
        c.ensures('its hook halts the runner, once', hook)


@contract('std::__basic_future::wait', abstract=True)
def future_wait(c):
    c.emit(JOIN)


@contract('std::this_thread::sleep_for', abstract=True)
def sleeps(c):
    c.emit(TIMEOUT)


# ------------------------------------------------------------------------------------------ the job as its owner sees it
LJ = N + 'LocalJob'
LI = LJ + '::m_impl'
IMPL = LJ + '::LocalJobImpl'


def has_impl(c):
    """a job that was not moved from"""
    c.requires('the job was not moved from', c.old[LI] > 0)


def only(c, tag, *args):
    """exactly one call to the job's runner, this one"""
    if len(c.log) != 1 or c.log[0]['tag'] != tag:
        return z3.BoolVal(False)
    return z3.And(*[c.I.as_term(a, None) == b for a, b in zip(c.log[0]['args'], args)])


for _q, _t in (('SetBreakpoint', JOBSET), ('RemoveBreakpoint', JOBREMOVED)):
    @contract(LJ + '::' + _q, props=['C32'], modifies=['trace', 'any'])
    def l_bp(c, tag=_t):
        has_impl(c)
        c.V.heap_types['*' + IMPL] = IMPL
        S = c.S

        def forwards():
            ins = S.getf(z3.Select(c.old.heap('*' + IMPL), c.old[LI]), IMPL + '::m_ordered_instructions')
            i = c.old.arg(0)
            return z3.If(i < S.slen(ins), only(c, tag, S.at(ins, i)), z3.BoolVal(not c.log))
        c.ensures('goes to the instruction with this index, once; another index is ignored', forwards)


for _n in ('Start', 'Step', 'Pause', 'Reset', 'Halt'):
    @contract(LJ + '::' + _n, props=['C32'], modifies=['trace', 'any'])
    def l_cmd(c, n=_n):
        has_impl(c)
        c.ensures('passes on exactly this command', lambda: only(c, JOBCMD, cmd(c, 'k' + n)))
