"""Contracts of the core library: C01 - C05."""
import z3

from engine.verify import CALL, MONITORS, contract, forall

N = 'sup::oac_tree::'
Int = z3.IntSort()
PUSH, UPUSH, POP, WAITED = range(62, 66)     # event tags


# ------------------------------------------------------------------------------------------ vocabulary
STATUS = [('NOT_STARTED', 'Not started'), ('NOT_FINISHED', 'Not finished'), ('RUNNING', 'Running'),
          ('SUCCESS', 'Success'), ('FAILURE', 'Failure')]
JOBSTATE = [('kInitial', 'Initial'), ('kPaused', 'Paused'), ('kStepping', 'Stepping'), ('kRunning', 'Running'),
            ('kSucceeded', 'Success'), ('kFailed', 'Failure'), ('kHalted', 'Halted')]
SEVERITY = [('EMERG', 'EMERGENCY'), ('ALERT', 'ALERT'), ('CRIT', 'CRITICAL'), ('ERR', 'ERROR'),
            ('WARNING', 'WARNING'), ('NOTICE', 'NOTICE'), ('INFO', 'INFO'), ('DEBUG', 'DEBUG'), ('TRACE', 'TRACE')]


def text_of(c, x, enum, table, unknown):
    r = c.str(unknown)
    for e, t in reversed(table):
        r = z3.If(x == c.enum(enum + e), c.str(t), r)
    return r


def status_in(c, x, names):
    return z3.Or(*[x == c.enum(N + 'ExecutionStatus::' + n) for n in names])


def status_query(q, names, label):
    @contract(N + q, props=['C01'], pure=True)
    def spec(c):
        x = c.old.arg(0)
        c.returns(status_in(c, x, names))
        c.ensures(label, lambda: c.result == status_in(c, x, names))
    return spec


FIN = ('SUCCESS', 'FAILURE')
status_query('IsFinishedStatus', FIN, 'finished is success or failure')
status_query('ReadyForExecute', ('NOT_STARTED', 'NOT_FINISHED'), 'ready is never started or between ticks')
status_query('IsExecutingStatus', ('NOT_FINISHED', 'RUNNING'), 'executing is between ticks or running')


@contract(N + 'NeedsExecute', props=['C01'], pure=True)
def needs_execute(c):
    x = c.old.arg(0)
    r = z3.Not(status_in(c, x, FIN))
    c.returns(r)
    c.ensures('needs execution is not finished', lambda: c.result == r)


@contract(N + 'StatusToString', props=['C01'], pure=True)
def status_to_string(c):
    r = text_of(c, c.old.arg(0), N + 'ExecutionStatus::', STATUS, 'Unknown status')
    c.returns(r)
    c.ensures('each status has its own fixed text, others the unknown text', lambda: c.result == r)


@contract(N + 'ToString', props=['C01'], pure=True, sig=lambda f: 'JobState' in str(f.get('params')))
def state_to_string(c):
    r = text_of(c, c.old.arg(0), N + 'JobState::', JOBSTATE, 'Unknown JobState')
    c.returns(r)
    c.ensures('each job state has its own fixed text, others the unknown text', lambda: c.result == r)


@contract(N + 'IsFinishedJobState', props=['C01'], pure=True)
def finished_state(c):
    x = c.old.arg(0)
    r = z3.Or(*[x == c.enum(N + 'JobState::' + n) for n in ('kSucceeded', 'kFailed', 'kHalted')])
    c.returns(r)
    c.ensures('a job state is finished exactly when succeeded, failed or halted', lambda: c.result == r)


@contract(N + 'log::SeverityString', props=['C01'], pure=True)
def severity_string(c):
    r = text_of(c, c.old.arg(0), N + 'log::Severity::SUP_SEQ_LOG_', SEVERITY, 'UNKNOWN')
    c.returns(r)
    c.ensures('each severity has its own fixed text, others the unknown text', lambda: c.result == r)


@contract(N + 'log::GetSeverityFromString', props=['C01'], pure=True)
def severity_from_string(c):
    x = c.old.arg(0)
    r = c.enum(N + 'log::Severity::NUMBER_OF_LOG_LEVELS')
    for e, t in SEVERITY:
        r = z3.If(x == c.str(t), c.enum(N + 'log::Severity::SUP_SEQ_LOG_' + e), r)
    c.returns(r)
    c.ensures('reading a text gives its level, any other string no valid level', lambda: c.result == r)


# ------------------------------------------------------------------------------------------ C02 command queue
Q = N + 'JobCommandQueue'
QF = Q + '::m_command_queue'
MONITORS[Q] = {'cls': Q, 'mutex': 'm_mtx'}
COMMANDS = ['kStart', 'kStep', 'kPause', 'kReset', 'kHalt', 'kTerminate']


@contract(N + 'operator<=', props=['C02'], pure=True, sig=lambda f: 'JobCommand' in str(f.get('params')))
def command_order(c):
    a, b = c.old.arg(0), c.old.arg(1)
    c.returns(a <= b)
    c.ensures('commands are compared by their rank', lambda: c.result == (a <= b))
    cmds = [c.enum(N + 'JobCommand::' + x) for x in COMMANDS]

    def order():
        return z3.And(*[z3.Implies(z3.And(a == x, b == y), c.result == z3.BoolVal(i <= j))
                        for i, x in enumerate(cmds) for j, y in enumerate(cmds)])
    if c.mode == 'check':
        c.ensures('start < step < pause < reset < halt < terminate', order)


def one_section(c):
    c.ensures('is one atomic operation on the queue', lambda: c.sections == 1 or c.mode != 'check')


def notified(c):
    if c.mode != 'check':
        return True
    return any(n[3] >= 1 for n in c.notifies)


def same_seq(c, a, b):
    return c.S.seq_eq(a, b)


def is_append(c, new, old, x):
    S = c.S
    return z3.And(S.slen(new) == S.slen(old) + 1, S.at(new, S.slen(old)) == x,
                  forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < S.slen(old)), S.at(new, i) == S.at(old, i))))


def is_prepend(c, new, old, x):
    S = c.S
    return z3.And(S.slen(new) == S.slen(old) + 1, S.at(new, z3.IntVal(0)) == x,
                  forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < S.slen(old)),
                                                     S.at(new, i + 1) == S.at(old, i))))


def is_tail(c, new, old):
    S = c.S
    return z3.And(S.slen(new) == S.slen(old) - 1,
                  forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < S.slen(new)),
                                                     S.at(new, i) == S.at(old, i + 1))))


def calls_exactly(c, fns, args=()):
    """the operation made exactly these calls of function values, in this order"""
    S = c.S
    t0, t1 = c.old.trace, c.new.trace
    n = S.slen(t0)
    out = [S.slen(t1) == n + len(fns)]
    for i, f in enumerate(fns):
        ev = S.at(t1, n + i)
        out.append(z3.And(S.Event.tag(ev) == CALL, S.Event.fn(ev) == f))
    out.append(forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < n), S.at(t1, i) == S.at(t0, i))))
    return z3.And(*out)


def event_arg(c, ev, i, x):
    S = c.S
    acc = [S.Event.a, S.Event.b, S.Event.c][i]
    return acc(ev) == S.box(x)


@contract(Q + '::JobCommandQueue', props=['C02'], modifies=['this'])
def queue_ctor(c):
    c.ensures('starts empty', lambda: c.S.slen(c.new[QF]) == 0)


@contract(Q + '::Push', props=['C02'], inside=Q, modifies=['this.' + QF])
def queue_push(c):
    x = c.old.arg(0)
    if c.mode == 'call':
        c.emit(PUSH, args=[x])
        return
    one_section(c)
    c.ensures('appends the command behind everything queued', lambda: is_append(c, c.rel[QF], c.acq[QF], x))
    c.ensures('wakes a waiting consumer', lambda: notified(c))


@contract(Q + '::PriorityPush', props=['C02'], inside=Q, modifies=['this.' + QF, 'trace'])
def queue_priority(c):
    S = c.S
    x, fn = c.old.arg(0), c.old.arg(1)
    if c.mode == 'call':
        c.emit(UPUSH, args=[x], fn=fn)
        return

    def refused():
        q = c.acq[QF]
        return z3.And(S.slen(q) > 0, x <= S.at(q, z3.IntVal(0)))
    one_section(c)
    c.ensures('is refused exactly when the front command is at least as urgent',
              lambda: c.result == z3.Not(refused()))
    c.ensures('a refused push leaves the queue as it was', lambda: z3.Implies(refused(), same_seq(c, c.rel[QF], c.acq[QF])))
    c.ensures('a refused push does not run its hook', lambda: z3.Implies(refused(), calls_exactly(c, [])))
    c.ensures('an accepted push goes in front of everything',
              lambda: z3.Implies(z3.Not(refused()), is_prepend(c, c.rel[QF], c.acq[QF], x)))
    c.ensures('an accepted push runs its hook exactly once, if it has one',
              lambda: z3.Implies(z3.Not(refused()), z3.If(fn == S.nullFn, calls_exactly(c, []), calls_exactly(c, [fn]))))

    def inside():
        if c.mode != 'check':
            return True
        t0, t1 = c.old.trace, c.new.trace
        return forall([Int], lambda i: z3.Implies(z3.And(S.slen(t0) <= i, i < S.slen(t1)),
                                                  S.Event.lk(S.at(t1, i)) >= 1))
    c.ensures('the hook runs before the command becomes visible to a consumer', inside)
    c.ensures('an accepted push wakes a waiting consumer',
              lambda: True if notified(c) else refused())


@contract(Q + '::TryPop', props=['C02'], inside=Q, modifies=['this.' + QF, 'arg:0'])
def queue_trypop(c):
    S = c.S
    if c.mode == 'call':
        got = c.I.fresh('command', Int)
        c.emit(POP, args=[got])
        c.ensures('hands out the front command if there is one',
                  lambda: c.new.arg(0) == z3.If(c.result, got, c.old.arg(0)))
        return
    one_section(c)

    def empty():
        return S.slen(c.acq[QF]) == 0
    c.ensures('fails exactly on an empty queue', lambda: c.result == z3.Not(empty()))
    c.ensures('taking from an empty queue leaves the output and the queue untouched',
              lambda: z3.Implies(empty(), z3.And(c.new.arg(0) == c.old.arg(0), same_seq(c, c.rel[QF], c.acq[QF]))))
    c.ensures('hands out the front command and removes exactly that',
              lambda: z3.Implies(z3.Not(empty()), z3.And(c.new.arg(0) == S.at(c.acq[QF], z3.IntVal(0)),
                                                         is_tail(c, c.rel[QF], c.acq[QF]))))


@contract(Q + '::WaitForNextCommand', props=['C02'], inside=Q, modifies=['this.' + QF])
def queue_wait(c):
    S = c.S
    if c.mode == 'call':
        c.emit(WAITED)
        if c.V.f['q'].endswith('::ExecutionLoop'):
            c.requires('the previous command was carried out', z3.Select(c.old.ghost('owed'), z3.IntVal(0)) == 0)
        return
    one_section(c)
    c.ensures('returns only when there is a command', lambda: S.slen(c.acq[QF]) > 0)
    c.ensures('hands out the front command and removes exactly that',
              lambda: z3.And(c.result == S.at(c.acq[QF], z3.IntVal(0)), is_tail(c, c.rel[QF], c.acq[QF])))


@contract(Q + '::IsEmpty', props=['C02'], inside=Q)
def queue_empty(c):
    one_section(c)
    c.ensures('agrees with the contents', lambda: c.result == (c.S.slen(c.acq[QF]) == 0))


@contract(Q + '::GetSize', props=['C02'], inside=Q)
def queue_size(c):
    one_section(c)
    c.ensures('agrees with the contents', lambda: c.result == c.S.slen(c.acq[QF]))


# ------------------------------------------------------------------------------------------ C03 scope guard
G = N + 'ScopeGuard'
GF = G + '::m_func'


def params_are(*names):
    def sig(f):
        ps = [str(p['t'] if isinstance(p, dict) else p) for p in (f.get('params') or [])]
        return len(ps) == len(names) and all(n in p for n, p in zip(names, ps))
    return sig


@contract(G + '::ScopeGuard', props=['C03'], modifies=['this'], nparams=0)
def guard_default(c):
    c.ensures('a default guard owns nothing', lambda: c.new[GF] == c.S.nullFn)
    c.ensures('runs nothing', lambda: calls_exactly(c, []))


@contract(G + '::ScopeGuard', props=['C03'], modifies=['this'], sig=params_are('std::function'))
def guard_ctor(c):
    f = c.old.arg(0)
    c.ensures('owns exactly the given action', lambda: c.new[GF] == f)
    c.ensures('does not run it yet', lambda: calls_exactly(c, []))


@contract(G + '::ScopeGuard', props=['C03'], modifies=['this', 'arg:0'], sig=params_are('ScopeGuard &&'))
def guard_move(c):
    f = c.old.fld(c.args[0], GF)
    c.ensures('the new guard owns the action of the old one', lambda: c.new[GF] == f)
    c.ensures('the guard moved out of owns nothing', lambda: c.new.fld(c.args[0], GF) == c.S.nullFn)
    c.ensures('runs nothing', lambda: calls_exactly(c, []))


def runs_if(c, f):
    return z3.If(f == c.S.nullFn, calls_exactly(c, []), calls_exactly(c, [f]))


@contract(G + '::operator=', props=['C03'], modifies=['this', 'arg:0', 'trace'], sig=params_are('ScopeGuard &&'))
def guard_assign(c):
    f, g = c.old[GF], c.old.fld(c.args[0], GF)
    c.ensures('takes over the action of the other guard', lambda: c.new[GF] == g)
    c.ensures('the other guard owns nothing afterwards', lambda: c.new.fld(c.args[0], GF) == c.S.nullFn)
    c.ensures('the action it owned before runs exactly once', lambda: runs_if(c, f))


@contract(G + '::operator=', name=G + '::operator= (self-move)', props=['C03'], modifies=['this', 'arg:0', 'trace'],
          sig=params_are('ScopeGuard &&'), modular=False, entry='alias:0')
def guard_self_assign(c):
    f = c.old[GF]
    c.ensures('a guard moved onto itself keeps its action', lambda: c.new[GF] == f)
    c.ensures('a guard moved onto itself runs nothing', lambda: calls_exactly(c, []))


@contract(G + '::Swap', props=['C03'], modifies=['this', 'arg:0'])
def guard_swap(c):
    f, g = c.old[GF], c.old.fld(c.args[0], GF)
    c.ensures('exchanges the two actions', lambda: z3.And(c.new[GF] == g, c.new.fld(c.args[0], GF) == f))
    c.ensures('runs nothing', lambda: calls_exactly(c, []))


@contract(G + '::~ScopeGuard', props=['C03'], modifies=['this', 'trace'])
def guard_dtor(c):
    f = c.old[GF]
    c.ensures('runs the owned action exactly once, and nothing else', lambda: runs_if(c, f))


@contract(G + '::IsValid', props=['C03'])
def guard_valid(c):
    c.ensures('valid exactly while it owns an action', lambda: c.result == (c.old[GF] != c.S.nullFn))
    c.ensures('runs nothing', lambda: calls_exactly(c, []))


# ------------------------------------------------------------------------------------------ C05 records
PP = N + 'ProcedurePreamble'
TR = PP + '::m_type_registrations'
PL = PP + '::m_plugin_paths'
TI = N + 'TypeRegistrationInfo'


@contract(PP + '::ProcedurePreamble', props=['C05'], modifies=['this'], nparams=0)
def preamble_ctor(c):
    c.ensures('starts empty', lambda: z3.And(c.S.slen(c.new[TR]) == 0, c.S.slen(c.new[PL]) == 0))


@contract(PP + '::AddTypeRegistration', props=['C05'], modifies=['this.' + TR])
def add_registration(c):
    x = c.old.arg(0)
    c.ensures('adds the registration at the end, keeping the others', lambda: is_append(c, c.new[TR], c.old[TR], x))


@contract(PP + '::AddPluginPath', props=['C05'], modifies=['this.' + PL])
def add_path(c):
    x = c.old.arg(0)
    c.ensures('adds the path at the end, keeping the others', lambda: is_append(c, c.new[PL], c.old[PL], x))


@contract(PP + '::GetTypeRegistrations', props=['C05'])
def get_registrations(c):
    c.ensures('returns all registrations in order', lambda: same_seq(c, c.result, c.old[TR]))


@contract(PP + '::GetPluginPaths', props=['C05'])
def get_paths(c):
    c.ensures('returns all paths in order', lambda: same_seq(c, c.result, c.old[PL]))


@contract(TI + '::TypeRegistrationInfo', props=['C05'], modifies=['this'], nparams=2)
def reginfo_ctor(c):
    m, s = c.old.arg(0), c.old.arg(1)
    c.ensures('keeps mode and text', lambda: z3.And(c.new[TI + '::m_mode'] == m, c.new[TI + '::m_str'] == s))


@contract(TI + '::GetRegistrationMode', props=['C05'])
def reginfo_mode(c):
    c.ensures('returns the mode', lambda: c.result == c.old[TI + '::m_mode'])


@contract(TI + '::GetString', props=['C05'])
def reginfo_string(c):
    c.ensures('returns the text', lambda: c.result == c.old[TI + '::m_str'])


B = N + 'Breakpoint'


@contract(B + '::Breakpoint', props=['C05'], modifies=['this'], sig=params_are('Instruction *'))
def bp_ctor(c):
    i = c.old.arg(0)
    c.ensures('keeps its instruction and starts armed',
              lambda: z3.And(c.new[B + '::m_instruction'] == i, c.new[B + '::m_status'] == c.enum(B + '::Status::kSet')))


@contract(B + '::Breakpoint', props=['C05'], modifies=['this'], sig=params_are('Breakpoint &'), implicit_ok=True)
def bp_copy(c):
    o = c.args[0]
    c.ensures('a copy holds the same instruction and state',
              lambda: z3.And(c.new[B + '::m_instruction'] == c.old.fld(o, B + '::m_instruction'),
                             c.new[B + '::m_status'] == c.old.fld(o, B + '::m_status')))


@contract(B + '::operator=', props=['C05'], modifies=['this'], nparams=1, implicit_ok=True)
def bp_assign(c):
    o = c.args[0]
    c.ensures('a copy holds the same instruction and state',
              lambda: z3.And(c.new[B + '::m_instruction'] == c.old.fld(o, B + '::m_instruction'),
                             c.new[B + '::m_status'] == c.old.fld(o, B + '::m_status')))


@contract(B + '::GetInstruction', props=['C05'], pure=True)
def bp_instr(c):
    c.returns(c.old[B + '::m_instruction'])
    c.ensures('returns its instruction', lambda: c.result == c.old[B + '::m_instruction'])


@contract(B + '::GetStatus', props=['C05'], pure=True)
def bp_status(c):
    c.returns(c.old[B + '::m_status'])
    c.ensures('returns the state last set', lambda: c.result == c.old[B + '::m_status'])


@contract(B + '::SetStatus', props=['C05'], modifies=['this.' + B + '::m_status'])
def bp_set(c):
    s = c.old.arg(0)
    c.ensures('sets the state and nothing else', lambda: c.new[B + '::m_status'] == s)


ME = N + 'MessageException'
for _n in ('MessageException', 'RuntimeException', 'InvalidOperationException', 'ParseException',
           'ProcedureSetupException', 'InstructionSetupException', 'VariableSetupException'):
    @contract(N + _n + '::' + _n, props=['C05'], modifies=['this'], nparams=1, sig=params_are('basic_string'))
    def exc_ctor(c):
        s = c.old.arg(0)
        c.ensures('keeps its message', lambda: c.new.fld(c.this, ME + '::m_message') == s)


@contract(ME + '::what', props=['C05'])
def exc_what(c):
    c.ensures('returns exactly its message', lambda: c.result == c.old.fld(c.this, ME + '::m_message'))
