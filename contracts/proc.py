"""Contracts of procedures (C27) and of path lookup and cloning (C28)."""
import z3

from contracts.attrs import AHI, AS, HIMPL, handler_failures, has, text_of, parses, parsed_value, rng
from contracts.core import N, params_are
from contracts.dto import any_sort, dep, self_value
from engine.verify import ENTITIES, contract, forall

Int = z3.IntSort()
PR, INS, WS, STORE = N + 'Procedure', N + 'Instruction', N + 'Workspace', N + 'ProcedureStore'
ENTITIES |= {PR, INS, WS, STORE}
PI, PW, PH, PP, PS, PPRE = (PR + '::m_' + x for x in ('instructions', 'workspace', 'attribute_handler', 'parent', 'procedure_store', 'preamble'))
WSETUP, WTEAR, ISETUP, ITICK, IHALT, IRESET, SRESET, STEAR, TYPES = range(140, 149)
IH = N + 'InstructionHelper::'


# ---------------------------------------------------------------- the objects a procedure drives
def step(q, tag, throws=(), nparams=None, mods=()):
    @contract(q, abstract=True, nparams=nparams, first=True)
    def act(c):
        c.emit(tag, obj=c.this)
        for t in throws:
            c.may_throw(t)
        for m in mods:
            c.modifies(m)
    return act


ANY = 'unknown exception'
step(WS + '::Setup', WSETUP, [ANY])
step(WS + '::Teardown', WTEAR)
step(INS + '::Setup', ISETUP, [ANY], 1)
step(INS + '::ExecuteSingle', ITICK, [ANY])
step(INS + '::Halt', IHALT)
step(INS + '::Reset', IRESET, [ANY])
step(STORE + '::ResetProcedureWorkspaces', SRESET, [ANY])
step(STORE + '::TearDownProcedures', STEAR, [ANY])


@contract(INS + '::GetStatus', abstract=True)
def status(c):
    c.returns(dep(c, 'status', Int, c.this))


@contract(WS + '::GetFilename', abstract=True)
def ws_filename(c):
    c.returns(dep(c, 'ws_filename', c.S.Str, c.this))


# ---------------------------------------------------------------- the root
def marked(c, ref, view=None):
    """what HasRootAttributeSet is verified to deliver"""
    h = (view or c.old).fld(ref, INS + '::m_attribute_handler')
    return z3.Function('root_marked', h.sort(), z3.BoolSort())(h)


def as_bool(c, v):
    return (z3.Function('any.convertible:bool', v.sort(), z3.BoolSort())(v), z3.Function('any.converted:bool', v.sort(), z3.BoolSort())(v))


@contract('sup::dto::AnyValue::As', abstract=True, nparams=0)
def any_as0(c):
    v = self_value(c)
    ret = c.f.get('ret')
    n, sort = c.V.prog.norm(ret), c.S.sort(ret)
    c.throws('sup::dto::InvalidConversionException', z3.Not(z3.Function('any.convertible:' + n, v.sort(), z3.BoolSort())(v)))
    c.returns(z3.Function('any.converted:' + n, v.sort(), sort)(v))


@contract('(anonymous namespace)::HasRootAttributeSet', props=['C27'])
def has_root(c):
    i = c.old.arg(0)
    if c.mode == 'call':
        c.returns(marked(c, i))
        return
    seq = c.S.getf(c.old.fld(i, INS + '::m_attribute_handler'), AS)
    name = c.str('isRoot')
    txt = text_of(c, seq, name)
    ok, v = parses(c, bool_type(c), txt), parsed_value(c, bool_type(c), txt)
    conv, b = as_bool(c, v)
    c.assume(z3.Implies(ok, conv))      # a text parsed as a truth value is one
    c.ensures('is marked exactly by an attribute that reads as true', lambda: c.result == z3.And(has(c, seq, name), ok, b))


def bool_type(c):
    return z3.Const('global:sup::dto::BooleanType', c.S.opq('sup::dto::AnyType'))


def root(c, view, r):
    """r is the root of this procedure"""
    S = c.S
    s = view[PI]
    n = S.slen(s)
    i = z3.Int('rt')
    none = forall([Int], lambda j: z3.Implies(rng(S, s, j), z3.Not(marked(c, S.at(s, j)))), pats=lambda j: S.at(s, j))
    first = z3.Exists([i], z3.And(rng(S, s, i), r == S.at(s, i), marked(c, S.at(s, i)), forall(
        [Int], lambda j: z3.Implies(z3.And(0 <= j, j < i), z3.Not(marked(c, S.at(s, j)))), pats=lambda j: S.at(s, j))))
    return z3.If(n == 0, r == 0, z3.If(n == 1, r == S.at(s, 0), z3.Or(z3.And(none, r == 0), first)))


def unmarked(L):
    c, S = L.c, L.S
    if L.k is None:
        return None
    s = c.old[PI]
    return [forall([Int], lambda j: z3.Implies(z3.And(0 <= j, j < L.k), z3.Not(marked(c, S.at(s, j)))), pats=lambda j: S.at(s, j))]


def held(c):
    """the instructions a procedure holds exist"""
    S, s = c.S, c.old[PI]
    c.requires('holds no empty instruction', forall([Int], lambda j: z3.Implies(rng(S, s, j), S.at(s, j) > 0), pats=lambda j: S.at(s, j)))


def the_root(c, view=None):
    """opaque in callers: what RootInstruction is verified to return"""
    s = (view or c.old)[PI]
    return z3.Function('root_of', s.sort(), Int)(s)


@contract(PR + '::RootInstruction', props=['C27'], loops=[unmarked])
def root_instruction(c):
    held(c)
    if c.mode == 'call':
        c.assume(the_root(c) >= 0)
        c.returns(the_root(c))
        return
    if not c.f.get('const'):
        c.ensures('the same as for a constant procedure', lambda: c.result == the_root(c))
        return
    c.ensures('none, the only one, or the first one marked as root', lambda: root(c, c.old, c.result))


def tops(L):
    c, S = L.c, L.S
    s = c.old[PI]
    if L.k is None:
        return None
    return [z3.And(S.slen(w) == L.k, forall([Int], lambda j: z3.Implies(z3.And(0 <= j, j < L.k), S.at(w, j) == S.at(s, j)), pats=lambda j: S.at(w, j)))
            for n, w in L.slots() if S.is_seq(w.sort()) and S.elem(w) == Int]


@contract(PR + '::GetTopInstructions', props=['C27', 'C28'], loops=[tops])
def top_instructions(c):
    if c.mode == 'call':
        c.returns(c.old[PI])
        return
    c.ensures('the top instructions, in order', lambda: c.S.seq_eq(c.result, c.old[PI]))


@contract(PR + '::PushInstruction', props=['C27'], modifies=['this.' + PI, 'arg:0'], nparams=1)
def push(c):
    S, s, x = c.S, c.old[PI], c.old.arg(0)
    c.throws(N + 'InvalidOperationException', x == 0, 'refuses exactly an empty pointer')
    c.ensures('comes last', lambda: z3.And(S.slen(c.new[PI]) == S.slen(s) + 1, S.at(c.new[PI], S.slen(s)) == x, forall(
        [Int], lambda j: z3.Implies(rng(S, s, j), S.at(c.new[PI], j) == S.at(s, j)), pats=lambda j: S.at(c.new[PI], j))))
    c.ensures('is unchanged by a refusal', lambda: c.new[PI] == s, on='throw')


@contract(PR + '::InsertInstruction', props=['C27'], modifies=['this.' + PI, 'arg:0'], nparams=2)
def insert(c):
    S, s, x, k = c.S, c.old[PI], c.old.arg(0), c.old.arg(1)
    c.requires('is given an instruction', x > 0)
    ok = z3.And(0 <= k, k <= S.slen(s))
    n = lambda: c.new[PI]
    c.ensures('accepts exactly a place from first to one past last', lambda: c.result == ok)
    c.ensures('a refusal changes nothing', lambda: z3.Implies(z3.Not(ok), z3.And(n() == s, c.new.arg(0) == x)))
    c.ensures('comes at its place and shifts the later ones', lambda: z3.Implies(ok, z3.And(
        S.slen(n()) == S.slen(s) + 1, S.at(n(), k) == x, forall([Int], lambda j: z3.Implies(z3.And(0 <= j, j <= S.slen(s), j != k),
        S.at(n(), j) == S.at(s, z3.If(j < k, j, j - 1))), pats=lambda j: S.at(n(), j)))))


@contract(PR + '::TakeInstruction', props=['C27'], modifies=['this.' + PI], nparams=1)
def take(c):
    S, s, k = c.S, c.old[PI], c.old.arg(0)
    ok = z3.And(0 <= k, k < S.slen(s))
    n = lambda: c.new[PI]
    c.ensures('gives the instruction at that place, or nothing', lambda: c.result == z3.If(ok, S.at(s, k), 0))
    c.ensures('nothing is taken from a wrong place', lambda: z3.Implies(z3.Not(ok), n() == s))
    c.ensures('the others keep their order', lambda: z3.Implies(ok, z3.And(S.slen(n()) == S.slen(s) - 1, forall(
        [Int], lambda j: z3.Implies(z3.And(0 <= j, j < S.slen(s) - 1), S.at(n(), j) == S.at(s, z3.If(j < k, j, j + 1))), pats=lambda j: S.at(n(), j)))))


@contract(PR + '::GetInstructionCount', props=['C27'])
def count(c):
    n = c.S.slen(c.old[PI])
    c.requires('holds fewer than 2^31 instructions', n < 2 ** 31)
    c.ensures('counts them', lambda: c.result == n)


# ---------------------------------------------------------------- driving
def seen(c, *want):
    """exactly these calls happened, in this order"""
    if [e['tag'] for e in c.log] != [w[0] for w in want]:
        return z3.BoolVal(False)
    return z3.And(z3.BoolVal(True), *[e['obj'] == w[1] for e, w in zip(c.log, want)])


def one_step(q, tag, label):
    @contract(PR + '::' + q, props=['C27'], modifies=['trace'])
    def f(c):
        held(c)
        c.may_throw(ANY)
        r = the_root(c)
        c.requires('has its parts', z3.And(c.old[PW] > 0, c.old[PS] > 0))
        if c.mode == 'check':
            c.ensures(label, lambda: z3.If(r == 0, seen(c), seen(c, (tag, r))), on='both')
    return f


one_step('ExecuteSingle', ITICK, 'ticks exactly the root, if there is one')
one_step('Halt', IHALT, 'halts exactly the root, if there is one')


@contract(PR + '::GetStatus', props=['C27'])
def get_status(c):
    held(c)
    r = the_root(c)
    c.ensures('the status of the root; success without root', lambda: c.result == z3.If(
        r == 0, c.enum(N + 'ExecutionStatus::SUCCESS'), dep(c, 'status', Int, r)))


@contract(PR + '::Reset', props=['C27'], modifies=['trace'])
def reset(c):
    held(c)
    c.may_throw(ANY)
    c.requires('has its parts', z3.And(c.old[PW] > 0, c.old[PS] > 0))
    r, w, s = the_root(c), c.old[PW], c.old[PS]
    if c.mode == 'check':
        c.ensures('closes the workspaces, resets the root, opens the workspace again', lambda: z3.If(
            r == 0, seen(c, (WTEAR, w), (SRESET, s), (WSETUP, w)), seen(c, (WTEAR, w), (SRESET, s), (IRESET, r), (WSETUP, w))))


@contract(PR + '::Teardown', props=['C27'], modifies=['trace', 'any'])
def teardown(c):
    held(c)
    c.may_throw(ANY)
    c.requires('has its parts', z3.And(c.old[PW] > 0, c.old[PS] > 0))
    c.requires('has its validator', c.S.getf(c.old[PH], N + 'AttributeHandler::m_impl') > 0)
    r, w, s = the_root(c), c.old[PW], c.old[PS]
    if c.mode == 'check':
        c.ensures('closes the workspaces, then resets the root', lambda: z3.If(
            r == 0, seen(c, (WTEAR, w), (STEAR, s)), seen(c, (WTEAR, w), (STEAR, s), (IRESET, r))))


# ---------------------------------------------------------------- names and paths
def theory(c):
    return z3.StringVal


@contract(N + 'GetFileDirectory', props=['C27'], strings='theory')
def file_directory(c):
    s = c.old.arg(0)
    if c.mode == 'call':
        c.returns(dep(c, 'directory', s.sort(), s))
        return
    sl = z3.StringVal('/')
    r = lambda: c.result
    c.ensures('nothing for a name without directory', lambda: z3.Implies(z3.Not(z3.Contains(s, sl)), r() == z3.StringVal('')))
    c.ensures('otherwise the text up to and including the last slash', lambda: z3.Implies(z3.Contains(s, sl), z3.And(
        z3.PrefixOf(r(), s), z3.SuffixOf(sl, r()), z3.Not(z3.Contains(z3.SubString(s, z3.Length(r()), z3.Length(s) - z3.Length(r())), sl)))))


@contract(N + 'GetFullPathName', props=['C27'], strings='theory')
def full_path(c):
    d, f = c.old.arg(0), c.old.arg(1)
    if c.mode == 'call':
        c.returns(dep(c, 'full_path', f.sort(), d, f))
        return
    e, sl = z3.StringVal(''), z3.StringVal('/')
    keep = z3.Or(f == e, z3.PrefixOf(sl, f), d == e)
    c.ensures('an absolute name, or one without base, stays', lambda: z3.Implies(keep, c.result == f))
    c.ensures('a relative one follows its base with exactly one slash between', lambda: z3.Implies(z3.Not(keep), c.result == z3.If(
        z3.SuffixOf(sl, d), z3.Concat(d, f), z3.Concat(d, sl, f))))


def proc_file(c, p):
    w = c.old.fld(p, PW)
    return dep(c, 'ws_filename', c.S.Str, w)


@contract(N + 'GetProcedurePath', props=['C27'])
def proc_path(c):
    p = c.old.arg(0)
    c.requires('has its parts', c.old.fld(p, PW) > 0)
    c.ensures('the directory of the procedure file', lambda: c.result == dep(c, 'directory', c.S.Str, proc_file(c, p)))


@contract(N + 'ResolveRelativePath', props=['C27'])
def resolve(c):
    p = c.old.arg(0)
    c.requires('has its parts', c.old.fld(p, PW) > 0)
    c.ensures('resolves against the directory of the procedure file', lambda: c.result == dep(
        c, 'full_path', c.S.Str, dep(c, 'directory', c.S.Str, proc_file(c, p)), c.old.arg(1)))


@contract(N + 'GetProcedureName', props=['C27'])
def proc_name(c):
    p = c.old.arg(0)
    c.requires('has its parts', c.old.fld(p, PW) > 0)
    seq = c.S.getf(c.old.fld(p, PH), AS)
    n = c.str('name')
    c.ensures('the name attribute, or else the file name', lambda: c.result == z3.If(has(c, seq, n), text_of(c, seq, n), proc_file(c, p)))


# ---------------------------------------------------------------- setting up
REGT = 149
PSE = N + 'ProcedureSetupException'
TREG = N + 'TypeRegistrationInfo'
BEV = ('tag', 'obj')


def info_type(c, info, filename):
    """the type an entry describes (what ParseTypeRegistrationInfo finds)"""
    return z3.Function('type_described', info.sort(), c.S.Str, c.S.opq('sup::dto::AnyType'))(info, filename)


@contract(WS + '::GetTypeRegistry', abstract=True)
def type_registry(c):
    return


@contract(WS + '::RegisterType', abstract=True)
def register_type(c):
    c.emit(REGT, obj=c.this, args=[c.old.arg(0)])
    c.returns(z3.Function('type_registers', Int, z3.BoolSort())(c.S.slen(c.old.trace)))


def registered(c, t, n0, seq, k, w, filename):
    S = c.S
    ev = lambda p: S.at(t, p)
    return forall([Int], lambda p: z3.Implies(z3.And(n0 <= p, p < n0 + k), z3.And(
        S.Event.tag(ev(p)) == REGT, S.Event.obj(ev(p)) == w,
        S.Event.a(ev(p)) == S.box(info_type(c, S.at(seq, p - n0), filename)),
        z3.Function('type_registers', Int, z3.BoolSort())(p))), pats=lambda p: ev(p))


def registering(L):
    c, S = L.c, L.S
    if L.k is None or 'regs' not in c.extra:
        return None
    seq, w, fn = c.extra['regs']
    t, t0 = L.cur.trace, c.old.trace
    return [S.slen(t) == S.slen(t0) + L.k, registered(c, t, S.slen(t0), seq, L.k, w, fn)]


@contract(PR + '::SetupPreamble', props=['C27'], modifies=['trace', 'alloc'], loops=[registering])
def setup_preamble(c):
    S = c.S
    w = c.old[PW]
    c.requires('has its workspace', w > 0)
    c.may_throw(PSE)
    if c.mode == 'call':
        c.emit(TYPES, obj=c.this)
        return
    seq = S.getf(c.old[PPRE], N + 'ProcedurePreamble::m_type_registrations')
    fn = dep(c, 'ws_filename', S.Str, w)
    c.extra['regs'] = (seq, w, fn)
    c.ensures('registers every type of the preamble, in order, each accepted', lambda: z3.And(
        S.slen(c.new.trace) == S.slen(c.old.trace) + S.slen(seq),
        registered(c, c.new.trace, S.slen(c.old.trace), seq, S.slen(seq), w, fn)))


@contract(N + 'ParseTypeRegistrationInfo', props=['C27'], nparams=3)
def parse_info(c):
    S = c.S
    info, fn = c.old.arg(0), c.old.arg(1)
    if c.mode == 'call':
        c.may_throw(PSE)
        c.returns(info_type(c, info, fn))
        return
    mode, text = S.getf(info, TREG + '::m_mode'), S.getf(info, TREG + '::m_str')
    js, jf = c.enum(TREG + '::RegistrationMode::kJSONString'), c.enum(TREG + '::RegistrationMode::kJSONFile')
    path = dep(c, 'full_path', S.Str, dep(c, 'directory', S.Str, fn), text)
    st, sf = parser_after(c, 'string', text), parser_after(c, 'file', path)
    ok = lambda s: z3.Function('type_parses', s.sort(), z3.BoolSort())(s)
    val = lambda s: z3.Function('type_result', s.sort(), S.opq('sup::dto::AnyType'))(s)
    c.throws(PSE, z3.Not(z3.Or(z3.And(mode == js, ok(st)), z3.And(mode == jf, ok(sf)))), 'refuses exactly what cannot be parsed')
    c.ensures('the type in the text, or in the file beside the procedure', lambda: c.result == z3.If(mode == js, val(st), val(sf)))


TP = 'sup::dto::JSONAnyTypeParser'


def parser_after(c, what, text):
    s = c.S.opq(TP)
    return z3.Function('type_parser_' + what, c.S.Str, s)(text)


for _what, _q in (('string', 'ParseString'), ('file', 'ParseFile')):
    def _mk(what, q):
        @contract(TP + '::' + q, abstract=True, modifies=['this'])
        def f(c):
            t = c.old.arg(0)
            s = parser_after(c, what, t)
            c.returns(z3.Function('type_parses', s.sort(), z3.BoolSort())(s))
            c.ensures('remembers', lambda: c.new.val(c.this.lv) == s)
    _mk(_what, _q)


@contract(TP + '::MoveAnyType', abstract=True, modifies=['this'])
def move_type(c):
    s = self_value(c)
    c.returns(z3.Function('type_result', s.sort(), c.S.opq('sup::dto::AnyType'))(s))


@contract(PR + '::Setup', props=['C27', 'C15'], modifies=['trace', 'alloc', 'heap:' + AHI + '::failed_constraints'])
def p_setup(c):
    held(c)
    h = c.old[PH]
    n = handler_failures(c, h)
    c.requires('has its validator', c.S.getf(h, HIMPL) > 0)
    c.requires('has its parts', c.old[PW] > 0)
    c.may_throw(ANY)
    c.may_throw(PSE)
    r, w = the_root(c), c.old[PW]
    if c.mode == 'call':
        return
    order = [TYPES, WSETUP, ISETUP]
    tags = lambda: [e['tag'] for e in c.log]
    c.ensures('an invalid procedure is refused before anything is set up', lambda: z3.Implies(n != 0, z3.BoolVal(tags() == [])), on='both')
    c.ensures('sets up its preamble, its workspace and then its root', lambda: z3.BoolVal(tags() == order[:len(tags())]), on='both')
    c.ensures('only its own parts', lambda: z3.And(z3.BoolVal(True), *[e['obj'] == {TYPES: c.this, WSETUP: w, ISETUP: r}[e['tag']] for e in c.log if e['tag'] in order]), on='both')
    c.ensures('succeeds only with valid attributes, a root and everything set up', lambda: z3.And(n == 0, r != 0, z3.BoolVal(tags() == order)))


# ---------------------------------------------------------------- shared procedures
def store_of(c, p):
    return z3.Function('store_of', Int, Int)(p)


@contract(PR + '::GetProcedureStore', props=['C27'])
def get_store(c):
    own, parent = c.old[PS], c.old[PP]
    c.requires('has its parts', own > 0)
    if c.mode == 'call':
        c.returns(store_of(c, c.this))
        return
    c.requires('so has its parent', z3.Implies(parent != 0, c.old.fld(parent, PS) > 0))
    c.ensures('the store of the outermost procedure', lambda: c.result == z3.If(parent != 0, store_of(c, parent), own))


CACHE, SPAR = STORE + '::m_procedure_cache', STORE + '::m_parent'
PARSED = 150


@contract(N + 'ParseProcedureFile', abstract=True)
def parse_file(c):
    c.may_throw(ANY)
    c.emit(PARSED, args=[c.old.arg(0)])
    c.modifies('alloc')
    c.ensures('a new procedure with its parts', lambda: z3.And(c.result > 0, z3.Not(z3.Select(c.old.ghost('alloc'), c.result)), c.new.fld(c.result, PW) > 0))


@contract(PR + '::GetFilename', props=['C27'])
def get_filename(c):
    c.requires('has its workspace', c.old[PW] > 0)
    c.ensures('the file of its workspace', lambda: c.result == dep(c, 'ws_filename', c.S.Str, c.old[PW]))


@contract(PR + '::SetParentProcedure', props=['C27'], modifies=['this.' + PP])
def set_parent(c):
    c.ensures('keeps its parent', lambda: c.new[PP] == c.old.arg(0))


@contract(STORE + '::ProcedureStore', props=['C27'], modifies=['this'])
def store_ctor(c):
    x = c.old.arg(0)
    c.throws(N + 'InvalidOperationException', x == 0, 'refuses exactly a null procedure')
    c.ensures('belongs to its procedure and holds nothing', lambda: z3.And(c.new[SPAR] == x, forall(
        [c.S.Str], lambda k: z3.Not(z3.Select(c.S.get(c.new[CACHE], 0), k)), pats=lambda k: z3.Select(c.S.get(c.new[CACHE], 0), k))))


@contract(STORE + '::LoadProcedure', props=['C27'], modifies=['this.' + CACHE, 'alloc', 'trace', 'heap:' + PP])
def load(c):
    S = c.S
    f, own, m = c.old.arg(0), c.old[SPAR], c.old[CACHE]
    c.requires('belongs to a procedure with its parts', z3.And(own > 0, c.old.fld(own, PW) > 0))
    dom, val = S.get(m, 0), S.get(m, 1)
    c.requires('holds no empty procedure', forall([S.Str], lambda k: z3.Implies(z3.Select(dom, k), z3.Select(val, k) > 0), pats=lambda k: z3.Select(dom, k)))
    c.may_throw(ANY)
    c.may_throw(PSE)
    mine = f == dep(c, 'ws_filename', S.Str, c.old.fld(own, PW))
    known = z3.Select(dom, f)
    if c.mode == 'call':
        c.returns(z3.Function('loaded', Int, S.Str, Int)(c.this, f))
        r = z3.Function('loaded', Int, S.Str, Int)(c.this, f)
        c.assume(r > 0)
        x = c.old.fld(r, PI)            # a procedure holds no empty instruction: PushInstruction refuses one
        c.assume(forall([Int], lambda j: z3.Implies(rng(S, x, j), S.at(x, j) > 0), pats=lambda j: S.at(x, j)))
        return
    tags = lambda: [e['tag'] for e in c.log]
    n = lambda: c.new[CACHE]
    c.ensures('its own file is its own procedure, a known file the procedure it has', lambda: z3.Implies(
        z3.Or(mine, known), z3.And(c.result == z3.If(mine, own, z3.Select(val, f)), z3.BoolVal(tags() == []), n() == m)))

    def fresh():
        if tags() != [PARSED, TYPES]:
            return z3.Or(mine, known)
        r = c.log[1]['obj']
        return z3.Implies(z3.Not(z3.Or(mine, known)), z3.And(
            c.log[0]['vals'][0] == f, c.result == r, c.new.fld(r, PP) == own,
            S.get(n(), 0) == z3.Store(dom, f, z3.BoolVal(True)), z3.Select(S.get(n(), 1), f) == r))
    c.ensures('a new file is read once, becomes a child of its procedure and is kept', fresh)
    c.ensures('the other files stay', lambda: forall([S.Str], lambda k: z3.Implies(
        z3.And(z3.Select(dom, k), k != f), z3.Select(S.get(n(), 1), k) == z3.Select(val, k)), pats=lambda k: z3.Select(dom, k)))
    c.ensures('a file that cannot be loaded leaves nothing behind', lambda: n() == m, on='throw')


CTX = N + 'ProcedureContext'
CF, CS = CTX + '::m_procedure_filename', CTX + '::m_procedure_store'


@contract(CTX + '::GetProcedure', props=['C27'], modifies=['any'])
def ctx_proc(c):
    s = c.old[CS]
    ready(c, s)
    c.may_throw(ANY)
    c.may_throw(PSE)
    c.ensures('the procedure its store has for that file', lambda: c.result == z3.Function('loaded', Int, c.S.Str, Int)(s, c.old.arg(0)))


def ready(c, s):
    S = c.S
    own, m = c.old.fld(s, SPAR), c.old.fld(s, CACHE)
    c.requires('has a store', s > 0)
    c.requires('belongs to a procedure with its parts', z3.And(own > 0, c.old.fld(own, PW) > 0))
    c.requires('holds no empty procedure', forall([S.Str], lambda k: z3.Implies(
        z3.Select(S.get(m, 0), k), z3.Select(S.get(m, 1), k) > 0), pats=lambda k: z3.Select(S.get(m, 0), k)))


# ---------------------------------------------------------------- C28: lookup
def name_of(c, i):
    return dep(c, 'instruction_name', c.S.Str, i)


@contract(INS + '::GetName', abstract=True, first=True, pure=True)
def ins_name(c):
    c.returns(name_of(c, c.this))


def kids_of(c, i):
    return z3.Function('children_of', Int, c.S.seq(Int))(i)


@contract(INS + '::ChildInstructions', abstract=True, first=True)
def children(c):
    S = c.S
    k = kids_of(c, c.this)
    c.assume(S.slen(k) >= 0)
    c.assume(forall([Int], lambda j: z3.Implies(rng(S, k, j), S.at(k, j) > 0), pats=lambda j: S.at(k, j)))
    c.returns(k)


def split_path(c, s):
    p = c.S.pair(c.S.Str, c.S.Str)
    return z3.Function('split_path', c.S.Str, p)(s)


@contract('(anonymous namespace)::StripPath', props=['C28'], strings='theory')
def strip_path(c):
    S, s = c.S, c.old.arg(0)
    if c.mode == 'call':
        c.returns(split_path(c, s))
        return
    d = z3.StringVal('.')
    a, b = lambda: S.get(c.result, 0), lambda: S.get(c.result, 1)
    c.extra['delim'] = d
    c.ensures('without delimiter the whole path is the name', lambda: z3.Implies(z3.Not(z3.Contains(s, d)), z3.And(a() == s, b() == z3.StringVal(''))))
    c.ensures('otherwise cut at the first delimiter', lambda: z3.Implies(z3.Contains(s, d), z3.And(
        s == z3.Concat(a(), d, b()), z3.Not(z3.Contains(a(), d)))))


def find_ref(c, seq, path):
    return z3.Function('found_instruction', seq.sort(), c.S.Str, Int)(seq, path)


@contract(IH + 'FindInstruction', props=['C28'])
def find_instruction(c):
    S, seq, path = c.S, c.old.arg(0), c.old.arg(1)
    c.requires('no empty instruction', forall([Int], lambda j: z3.Implies(rng(S, seq, j), S.at(seq, j) > 0), pats=lambda j: S.at(seq, j)))
    if c.mode == 'call':
        c.assume(find_ref(c, seq, path) >= 0)
        c.returns(find_ref(c, seq, path))
        return
    p = split_path(c, path)
    name, rest = S.get(p, 0), S.get(p, 1)
    none = forall([Int], lambda j: z3.Implies(rng(S, seq, j), name_of(c, S.at(seq, j)) != name), pats=lambda j: S.at(seq, j))

    def first():
        i = z3.Int('fi')
        x = S.at(seq, i)
        return z3.Exists([i], z3.And(rng(S, seq, i), name_of(c, x) == name, forall(
            [Int], lambda j: z3.Implies(z3.And(0 <= j, j < i), name_of(c, S.at(seq, j)) != name), pats=lambda j: S.at(seq, j)),
            c.result == z3.If(rest == c.str(''), x, find_ref(c, kids_of(c, x), rest))))
    c.ensures('the first with the first name, or below it the rest of the path; nothing if there is none', lambda: z3.Or(
        z3.And(none, c.result == 0), first()))


# ---------------------------------------------------------------- C28: cloning
REG = N + 'InstructionRegistry'
ENTITIES.add(REG)
MADE, ATTRS, APPEND, CLONE = range(151, 155)


@contract(N + 'GlobalInstructionRegistry', abstract=True)
def global_reg(c):
    r = z3.Const('the instruction registry', Int)
    c.assume(r > 0)
    c.returns(r)


@contract(INS + '::GetType', abstract=True, first=True)
def ins_type(c):
    c.returns(dep(c, 'instruction_type', c.S.Str, c.this))


@contract(REG + '::IsRegisteredInstructionName', abstract=True)
def is_registered(c):
    c.returns(dep(c, 'registered', z3.BoolSort(), c.old.arg(0)))


@contract(REG + '::Create', abstract=True)
def create(c):
    c.modifies('alloc')
    c.emit(MADE, obj=z3.IntVal(0), args=[c.old.arg(0)])
    c.throws(N + 'InvalidOperationException', z3.Not(dep(c, 'registered', z3.BoolSort(), c.old.arg(0))))
    c.ensures('a new instruction of that type', lambda: z3.Or(c.result == 0, z3.And(
        c.result > 0, z3.Not(z3.Select(c.old.ghost('alloc'), c.result)), dep(c, 'instruction_type', c.S.Str, c.result) == c.old.arg(0))))


@contract(INS + '::GetStringAttributes', abstract=True, first=True)
def ins_attrs(c):
    c.returns(c.S.getf(c.old[INS + '::m_attribute_handler'], AS))


@contract(INS + '::AddAttributes', abstract=True, first=True)
def add_attrs(c):
    c.emit(ATTRS, obj=c.this, args=[c.old.arg(0)])


@contract(N + 'AppendChildInstruction', abstract=True)
def append_child(c):
    c.modifies('arg:1')
    c.emit(APPEND, obj=c.old.arg(0), args=[c.old.arg(1)])
    c.returns(z3.Function('append_ok', Int, z3.BoolSort())(c.S.slen(c.old.trace)))
    c.ensures('takes it', lambda: c.new.arg(1) == 0)


ADDED, KIDS = 155, 156


@contract('(anonymous namespace)::AddClonedChildInstruction', props=['C28'], modifies=['alloc', 'trace'])
def add_cloned(c):
    instr, child = c.old.arg(0), c.old.arg(1)
    c.requires('is given both', z3.And(instr > 0, child > 0))
    c.may_throw(ANY)
    if c.mode == 'call':
        c.emit(ADDED, obj=instr, args=[child])
        c.returns(z3.Function('child_cloned', Int, z3.BoolSort())(c.S.slen(c.old.trace)))
        return

    def exact():
        t = c.log
        if [e['tag'] for e in t] == [CLONE]:
            return z3.And(t[0]['obj'] == child, t[0]['ret'] == 0, z3.Not(c.result))
        if [e['tag'] for e in t] != [CLONE, APPEND]:
            return z3.BoolVal(False)
        return z3.And(t[0]['obj'] == child, t[1]['obj'] == instr, t[0]['ret'] != 0, t[1]['vals'][0] == t[0]['ret'], c.result == t[1]['ret'])
    c.ensures('clones the child once and appends exactly that clone', exact)


def kids_added(c, t, n0, clone, kids, k, ok=True):
    S = c.S
    ev = lambda p: S.at(t, p)
    return forall([Int], lambda p: z3.Implies(z3.And(n0 <= p, p < n0 + k), z3.And(
        S.Event.tag(ev(p)) == ADDED, S.Event.obj(ev(p)) == clone, S.Event.a(ev(p)) == S.box(S.at(kids, p - n0)),
        z3.Function('child_cloned', Int, z3.BoolSort())(p) if ok else z3.BoolVal(True))), pats=lambda p: ev(p))


def cloning(L):
    c, S = L.c, L.S
    if L.k is None or 'kids' not in c.extra:
        return None
    t0, t = c.old.trace, L.cur.trace
    return [S.slen(t) == S.slen(t0) + L.k, kids_added(c, t, S.slen(t0), c.old.arg(0), c.extra['kids'], L.k)]


@contract('(anonymous namespace)::CloneChildInstructions', props=['C28'], modifies=['alloc', 'trace'], loops=[cloning])
def clone_children(c):
    S, clone, src = c.S, c.old.arg(0), c.old.arg(1)
    c.requires('is given both', z3.And(clone > 0, src > 0))
    c.may_throw(ANY)
    if c.mode == 'call':
        c.emit(KIDS, obj=clone, args=[src])
        return
    kids = c.extra['kids'] = kids_of(c, src)
    n0, n1 = S.slen(c.old.trace), lambda: S.slen(c.new.trace)
    fn = z3.Function('child_cloned', Int, z3.BoolSort())
    c.ensures('success: every child was cloned and appended, in order', lambda: z3.Implies(c.result, z3.And(
        n1() == n0 + S.slen(kids), kids_added(c, c.new.trace, n0, clone, kids, S.slen(kids)))))
    c.ensures('failure: stops at the first child that could not be', lambda: z3.Implies(z3.Not(c.result), z3.And(
        n1() > n0, n1() <= n0 + S.slen(kids), kids_added(c, c.new.trace, n0, clone, kids, n1() - n0, ok=False), z3.Not(fn(n1() - 1)))))


@contract(IH + 'CloneInstruction', props=['C28'], modifies=['alloc', 'trace'])
def clone_instruction(c):
    S, src = c.S, c.old.arg(0)
    c.requires('is given an instruction or null', src >= 0)
    c.may_throw(ANY)
    if c.mode == 'call':
        c.emit(CLONE, obj=src)
        c.ensures('a new instruction or none', lambda: c.result >= 0)
        return
    seq = S.getf(c.old.fld(src, INS + '::m_attribute_handler'), AS)

    def exact():
        t = c.log
        known = dep(c, 'registered', z3.BoolSort(), dep(c, 'instruction_type', S.Str, src))
        tags = [e['tag'] for e in t]
        if tags == []:
            return z3.And(c.result == 0, z3.Or(src == 0, z3.Not(known)))
        made = z3.And(src != 0, known, t[0]['vals'][0] == dep(c, 'instruction_type', S.Str, src)) if tags[0] == MADE else z3.BoolVal(False)
        if tags == [MADE]:
            return z3.And(made, t[0]['ret'] == 0, c.result == 0)
        if tags != [MADE, ATTRS, KIDS]:
            return z3.BoolVal(False)
        x = t[0]['ret']
        return z3.And(made, x != 0, t[1]['obj'] == x, t[1]['vals'][0] == seq, t[2]['obj'] == x, t[2]['vals'][0] == src,
                      c.result == z3.If(t[2]['ret'], x, 0))
    c.ensures('an instruction of the same type that got all attributes and all children of this one, or nothing', exact)


@contract(CTX + '::CloneInstructionPath', props=['C28'], modifies=['any'])
def clone_path(c):
    S, s, f, path = c.S, c.old[CS], c.old.arg(0), c.old.arg(1)
    ready(c, s)
    c.may_throw(ANY)
    c.may_throw(PSE)
    p = z3.Function('loaded', Int, S.Str, Int)(s, f)

    def exact():
        t = c.log
        if [e['tag'] for e in t] != [CLONE]:
            return z3.BoolVal(False)
        x = c.old.fld(p, PI)
        want = z3.If(path == c.str(''), z3.Function('root_of', x.sort(), Int)(x), find_ref(c, x, path))
        return z3.And(t[0]['obj'] == want, c.result == t[0]['ret'])
    c.ensures('a clone of the instruction at that path, or of the root for an empty path', exact)
