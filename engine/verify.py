"""Function verifier: contracts, obligations, loop cuts, monitors.

One FunctionVerifier checks one function of /repo (as extracted on this run) against its contract; calls of other
functions under contract are replaced by those contracts, calls of functions without contract are executed (inlined).
"""
import re
import os
import time
import traceback

import z3

from .interp import (LV, Bound, Brk, Closure, Cont, Dead, FunRef, ILst, Impure, Interp, Iter, Lock, MIter, PtrV,
                     Restart, Ret, Snap, Thr, simp)
from .models import Models
from .sorts import ATOMIC_T, LOCK_T, MAP_T, PTR_T, SEQ_T, SET_T, Sorts, Unsupported

COUNTS = ('ticks', 'resets', 'halts', 'setups', 'owed', 'takes')      # ghost: calls made by the function under verification, per object
CALL, NOTE = 1, 2           # event tags: call of a function value; further tags belong to the contracts


# ----------------------------------------------------------------------------------------------- registry
class Contract:
    def __init__(self, q, fn, **o):
        self.q = q
        self.fn = fn
        self.props = o.get('props') or []
        self.modifies = list(o.get('modifies') or [])
        self.loops = list(o.get('loops') or [])
        self.is_pure = o.get('pure', False)
        self.modular = o.get('modular', True)
        self.inline_self = o.get('inline_self', False)
        self.bulk_destroy = o.get('bulk_destroy')
        self.nparams = o.get('nparams')
        self.sig = o.get('sig')            # predicate on the function object, to tell overloads apart
        self.trusted = o.get('trusted', False)
        self.strings = o.get('strings', 'opaque')
        self.track_delete = o.get('track_delete', False)
        self.peel = o.get('peel', True)    # run the first iterations of a loop concretely while its condition is constant
        self.virtual = o.get('virtual', False)
        self.entry = o.get('entry')        # hook run before the body: adds ghost set-up
        self.abstract = o.get('abstract', False)   # only used at call sites (virtual interface contract)
        self.assume_nothrow = o.get('assume_nothrow', True)
        self.timeout = o.get('timeout')
        self.name = o.get('name') or q
        self.forbid = o.get('forbid') or []
        self.inside = o.get('inside')                # class whose own functions execute the body instead
        self.inlines = o.get('inlines') or []      # callees executed although they have a contract
        self.self_dyn = o.get('self_dyn', True)
        self.implicit_ok = o.get('implicit_ok', False)   # may be compiler-generated


CONTRACTS = {}
MONITORS = {}
ENTITIES = set()         # non-polymorphic classes handled by identity
ELEM_FACTS = []       # the same for one element of an array
PART_FACTS = []       # facts about a dynamically typed value of which one part was replaced
PURE = set()        # functions of the dependency assumed to be deterministic and without effect


def contract(q, **o):
    def d(fn):
        l = CONTRACTS.setdefault(q, [])
        l.insert(0 if o.get('first') else len(l), Contract(q, fn, **o))    # of several contracts the first one that fits counts at a call
        return fn
    return d


def monitors(cls):
    m = MONITORS.get(cls) or MONITORS.get(strip_targs(cls)) or []
    return m if isinstance(m, list) else [m]


def strip_targs(q):
    out, n = [], 0
    i = 0
    while i < len(q):
        c = q[i]
        if q.startswith('operator<', i) or q.startswith('operator>', i) or q.startswith('operator->', i):
            out.append(q[i:])
            break
        if c == '<':
            n += 1
        elif c == '>':
            n -= 1
        elif n == 0:
            out.append(c)
        i += 1
    return ''.join(out)


z3.set_param('warning', False)


class CallersLog(Exception):
    """a postcondition about the calls the function makes itself: at a call, where only the caller's calls are known, it says nothing"""


# ----------------------------------------------------------------------------------------------- views
class View:
    """a state as seen by a specification"""

    def __init__(self, c, snap):
        self.c = c
        self.snap = snap

    def val(self, lv):
        I = self.c.I
        n = 0
        v = lv
        while isinstance(v, LV):
            v = I.read(v, self.snap)
            n += 1
            if n > 20:
                raise Unsupported('reference cycle')
        return v

    def term(self, lv):
        v = self.val(lv)
        if z3.is_expr(v):
            return v
        if isinstance(v, ILst):
            return self.c.I.as_term(v, None)
        if isinstance(v, PtrV):
            return z3.IntVal(0) if v.lv is None else self.c.I.addr(v.lv)
        raise Unsupported('%s in a specification' % type(v).__name__)

    def arg(self, i):
        return self.val(self.c.args[i])

    def lv(self, obj, field):
        V = self.c.V
        cls, name = field.rsplit('::', 1)
        key = V.fkey(cls, name)
        if isinstance(obj, PtrV):
            return LV(obj.lv.root, obj.lv.path + (('f', key),))
        if isinstance(obj, LV):
            return LV(obj.root, obj.path + (('f', key),))
        return LV(('h', key, obj))

    def fld(self, obj, field):
        """value of obj.field (field given as Class::name)"""
        V = self.c.V
        if z3.is_expr(obj) and obj.sort() != z3.IntSort():
            cls, name = field.rsplit('::', 1)
            return V.sorts.getf(obj, V.fkey(cls, name))
        return self.val(self.lv(obj, field))

    def __getitem__(self, field):
        return self.fld(self.c.this, field)

    def ghost(self, name):
        g = self.snap.ghost.get(name)
        if g is None:
            return self.c.V.ghost_const(name)
        return g

    @property
    def trace(self):
        return self.ghost('trace')

    def heap(self, key):
        return self.c.I.heap_arr(key, self.snap)


class Ctx:
    """one use of a contract: while checking the function or at a call"""

    def __init__(self, V, I, con, this, args, mode, pre, f):
        self.V, self.I, self.con, self.this, self.args, self.mode, self.f = V, I, con, this, args, mode, f
        self.S = V.sorts
        self.p = V.prog
        self.old = View(self, pre)
        self.new = None
        self.acq = None
        self.rel = None
        self.result_raw = None
        self.raised = None
        self.reqs = []
        self.ens = []
        self.exc = []
        self.maythrow = []
        self.ret_term = None
        self.mods = list(con.modifies)
        self.extra = {}
        self.at_call = False
        self.sets = None           # (lvalue, new value) of a call that replaces a value
        self.facts = []
        self.emits = []
        self.counts = []

    # ---- clauses
    def requires(self, label, cond):
        self.reqs.append((label, cond))

    def assume(self, cond):
        """fact about the world that the verifier does not check (reported as an assumption)"""
        self.facts.append(cond)

    def ensures(self, label, fn, on='normal'):
        self.ens.append((label, fn, on))

    def throws(self, cls, cond, label=None):
        """raises cls exactly when cond (over the pre-state) holds"""
        self.exc.append((cls, cond, label or 'raises %s exactly when specified' % cls.split('::')[-1]))

    def may_throw(self, cls):
        self.maythrow.append(cls)

    def returns(self, term):
        self.ret_term = term

    def modifies(self, *m):
        self.mods += m

    def emit(self, tag, obj=None, args=(), fn=None):
        """at a call: record that this function was called (what the caller did, in order)"""
        if self.mode == 'call':
            self.emits.append((tag, obj, args, fn))

    def count(self, ghost, obj):
        """at a call: one more call of this kind on this object (ghost counter)"""
        if self.mode == 'call':
            self.counts.append((ghost, obj))

    @property
    def log(self):
        """calls recorded on this path, in order; only for paths where no loop made any"""
        if self.at_call:
            raise CallersLog()
        for e in self.I.log:
            if e['tag'] == 0:
                raise Unsupported('calls made in a loop')
        return self.I.log

    @property
    def rawlog(self):
        if self.at_call:
            raise CallersLog()
        return self.I.log

    def logged(self, *tags):
        return [e for e in self.log if e['tag'] in tags]

    def view(self, snap):
        return View(self, snap)

    def first(self, n, pred, name='first'):
        """ghost: the first index in [0,n) with pred, or n (exists by well-ordering)"""
        f = self.I.fresh(name, z3.IntSort())
        i = z3.FreshInt('fi')
        self.I.assume(z3.And(0 <= f, f <= n, z3.Implies(f < n, pred(f)),
                             z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < f), z3.Not(pred(i))))))
        return f

    # ---- helpers
    @property
    def result(self):
        v = self.result_raw
        if isinstance(v, LV):
            v = self.new.val(v)
        if isinstance(v, ILst):
            v = self.I.as_term(v, None)
        if isinstance(v, PtrV):
            return z3.IntVal(0) if v.lv is None else self.I.addr(v.lv)
        return v

    def fn_result(self, name, sort, *args):
        f = z3.Function(name, *[a.sort() for a in args], sort)
        return f(*args)

    def str(self, s):
        return self.S.lit(s)

    def enum(self, q):
        return z3.IntVal(self.V.enum_value(q))

    def counter(self, seq, hit):
        return self.V.counter(self.I, self.S.sarr(seq), hit)

    @property
    def sections(self):
        return self.I.sections

    @property
    def notifies(self):
        return self.I.notifies


_depth = [0]


def forall(sorts, body, pats=None):
    """forall([('i', Int)], lambda i: ...)"""
    # named by nesting depth: equal formulas are equal terms
    depth = _depth[0]
    vs = [z3.Const('q%d.%d' % (depth, i), s) for i, s in enumerate(sorts)]
    _depth[0] += 1
    try:
        b = body(*vs)
    finally:
        _depth[0] -= 1
    if pats is not None:
        ps = []
        for p in (pats if isinstance(pats, list) else [pats]):
            q = p(*vs)
            ps += q if isinstance(q, list) else [q]
        return z3.ForAll(vs, b, patterns=ps)
    return z3.ForAll(vs, b)


class LoopView:
    """what a loop invariant candidate may talk about"""

    def __init__(self, ctx, k, seq, entry, cur):
        self.c = ctx
        self.V = ctx.V
        self.S = ctx.S
        self.I = ctx.I
        self.k = k
        self.seq = seq
        self.old = ctx.old
        self.acq = View(ctx, ctx.I.acq) if ctx.I.acq is not None else ctx.old
        self.entry = View(ctx, entry)
        self.cur = View(ctx, cur)

    def changed(self, sort):
        """local variables of this sort that the loop may change"""
        e = self.entry.snap.store
        hv = getattr(self.I, 'loop_havoc', None) or ()
        return [(n, v) for n, v in self.slots(sort) if n in hv]

    def slots(self, sort=None):
        out = []
        for n, v in self.cur.snap.store.items():
            if z3.is_expr(v) and (sort is None or v.sort() == sort):
                out.append((n, v))
        return out


class LoopState:
    def __init__(self):
        self.havoc = {}
        self.dead = set()
        self.seen = set()


# ----------------------------------------------------------------------------------------------- verifier
class FunctionVerifier:
    MAXPATHS = 3000

    def __init__(self, prog, fid, con, aliases=None, unroll=None, budget=60.0, entities=(), setup=None,
                 solver_ms=4000, inv_ms=700):
        self.prog = prog
        self.fid = fid
        self.f = prog.funcs[fid]
        self.con = con
        self.aliases = aliases or {}
        self.backends = {'z3'}
        self.sorts = Sorts(prog, set(entities) | ENTITIES, con.strings)
        self.models = Models(self)
        self.unroll = unroll
        self.track_delete = con.track_delete
        self.memo = {}
        self.keep = []
        self.addrs = {}
        self.inlined = set()
        self.applied = set()
        self.heap_types = {}
        self.slot_types = {}
        self.lambda_ops = {}
        self.global_axioms = []
        self.class_ids = {}
        self.loops = {}
        self.deadline = time.time() + budget
        self.solver_ms = solver_ms
        self.inv_ms = inv_ms
        self.solve_time = 0.0
        self.nsolve = 0
        self.fkeys = {}
        self.ghost_sorts = {n: z3.ArraySort(z3.IntSort(), z3.IntSort()) for n in COUNTS}
        self.assumed = set()
        self.statics = {}
        self.lemmas = set()
        if setup:
            setup(self)

    # ---------------------------------------------------------------- the dependency (sup-dto, sup-utils)
    DEPENDENCY = ('sup::dto::', 'sup::xml::')
    PURE = PURE
    part_facts = PART_FACTS
    elem_facts = ELEM_FACTS

    def fn(self, name, sorts, ret):
        return z3.Function('%s/%s' % (name, ','.join(x.name() for x in sorts)), *sorts, ret) if sorts \
            else z3.Const(name, ret)

    def pure_dependency(self, I, f, this, args):
        """a function of the dependency that only reads: a function of its arguments"""
        ts = ([I.rv(this.lv) if isinstance(this, PtrV) else this] if this is not None else []) \
            + [I.as_term(a, None) for a in args]
        ret = f['ret']
        if f['n'] == 'operator!=':      # the opposite of ==
            return z3.Not(self.pure_dependency(I, dict(f, n='operator==', q=f['q'][:-2] + '=='), this, args))
        self.models.used.add('%s: reads only, result determined by its arguments' % f['q'])
        v = self.fn('dep:' + f['q'], [t.sort() for t in ts], self.sorts.sort(ret))(*ts)
        for c in self.sorts.typeinv(ret, v):
            I.assume(c)
        return LV(('v', v)) if self.prog.isref(ret) else v

    # ---------------------------------------------------------------- names
    def fkey(self, cls, name):
        """heap key / record field key of a field named as in the contracts"""
        k = (cls, name)
        if k in self.fkeys:
            return self.fkeys[k]
        r = self.resolve_field(cls, name)
        self.fkeys[k] = r
        return r

    def class_of(self, cls):
        """class name, instantiated when the contract names a template"""
        me = self.f.get('cls')
        if me and strip_targs(me) == cls:
            return me
        if cls in self.prog.records and self.prog.records[cls].get('fields'):
            return cls
        c = [n for n in self.prog.records if strip_targs(n) == cls and self.prog.records[n].get('fields')]
        if len(c) == 1:
            return c[0]
        if me:
            for n in c:
                if n.startswith(me + '::'):
                    return n
            # nested class of a template instance
            pref = [n for n in c if me.split('<')[0] in n and self.targs(me) in n]
            if len(pref) == 1:
                return pref[0]
        if cls in self.prog.records:
            return cls
        raise Unsupported('class ' + cls)

    @staticmethod
    def targs(q):
        i = q.find('<')
        return q[i:] if i >= 0 else ''

    def resolve_field(self, cls, name):
        real = self.class_of(cls)
        r = self.prog.records[real]
        for f in r.get('fields', []):
            if f['n'] == name:
                return '%s::%s' % (real, name)
        # renamed member: matched through the recorded list of members of the class
        base = self.aliases.get(cls)
        if base:
            old = [tuple(x) for x in base]
            names_now = [f['n'] for f in r.get('fields', [])]
            gone = [(n, t) for n, t in old if n not in names_now]
            fresh = [(f['n'], f['t']) for f in r.get('fields', []) if f['n'] not in [n for n, _ in old]]
            want = [t for n, t in gone if n == name]
            if want:
                g = [n for n, t in gone if t == want[0]]
                h = [n for n, t in fresh if t == want[0]]
                if len(g) == len(h):
                    return '%s::%s' % (real, h[g.index(name)])
        raise Unsupported('no field %s in %s' % (name, cls))

    def enum_value(self, q):
        e, n = q.rsplit('::', 1)
        for x in self.prog.enums.get(e, []):
            if x['n'] == n:
                return x['v']
        raise Unsupported('enumerator ' + q)

    def member_pointers(self):
        """[(value, function)] of the member functions whose address the program takes"""
        r = self.prog.__dict__.get('mptrs')
        if r is None:
            found = {}

            def walk(o):
                if isinstance(o, dict):
                    if o.get('k') == 'Unary' and o.get('op') == '&' and isinstance(o.get('e'), dict) \
                            and o['e'].get('k') == 'Fun' and o['e']['f'].get('cls'):
                        found.setdefault(o['e']['f']['id'], o['e']['f'])
                    for v in o.values():
                        if isinstance(v, (dict, list)):
                            walk(v)
                elif isinstance(o, list):
                    for v in o:
                        if isinstance(v, (dict, list)):
                            walk(v)
            for f in self.prog.funcs.values():
                walk(f.get('body'))
                walk(f.get('inits'))
            r = self.prog.__dict__['mptrs'] = [(i + 1, found[k]) for i, k in enumerate(sorted(found))]
        return r

    def member_pointer(self, f):
        for i, g in self.member_pointers():
            if g['id'] == f['id']:
                return i
        raise Unsupported('member pointer to ' + f['id'])

    # ---------------------------------------------------------------- heap, ghost
    def heap_initial(self, key):
        s = self.heap_sort(key)
        return z3.Const('H0:' + key, z3.ArraySort(z3.IntSort(), s))

    def heap_sort(self, key):
        if key.startswith('*'):
            return self.sorts.sort(self.heap_types.get(key) or key[1:])
        if key.startswith('#'):
            return self.ghost_sorts[key]
        t = self.heap_types.get(key)
        if t is None:
            cls, n = key.rsplit('::', 1)
            for c, fn, ft, _ in self.prog.fields(cls):
                if fn == n and c == cls:
                    t = ft
            if t is None:
                raise Unsupported('field ' + key)
            self.heap_types[key] = t
        if self.prog.isref(t):
            return z3.IntSort()
        return self.sorts.sort(t)

    def ghost_const(self, name):
        S = self.sorts
        if name == 'trace':
            return S.mkseq(S.Event, z3.Const('trace0.len', z3.IntSort()),
                           z3.Const('trace0.arr', z3.ArraySort(z3.IntSort(), S.Event)))
        if name in ('alloc', 'deleted'):
            return z3.Const(name + '0', z3.ArraySort(z3.IntSort(), z3.BoolSort()))
        if name in self.ghost_sorts:
            return z3.Const(name + '0', self.ghost_sorts[name])
        raise Unsupported('ghost ' + name)

    def ghost_initial(self, I, name):
        g = I.ghost.get(name)
        if g is None:
            g = self.ghost_const(name)
            I.ghost[name] = g
            if name == 'trace':
                I.assume(self.sorts.slen(g) >= 0)
        return g

    def class_id(self, name):
        if name not in self.class_ids:
            self.class_ids[name] = len(self.class_ids) + 1
        return self.class_ids[name]

    # ---------------------------------------------------------------- contracts
    def contract_for(self, q, fobj, args):
        for k in (q, strip_targs(q)):
            for c in CONTRACTS.get(k, []):
                if not c.modular:
                    continue
                if c.nparams is not None and fobj is not None and c.nparams != len(fobj.get('params') or []):
                    continue
                if c.sig is not None and not c.sig(fobj):
                    continue
                if k in self.con.inlines or q in self.con.inlines:
                    continue
                if c.inside and self.f.get('cls') == c.inside and fobj is not None and fobj.get('id') != self.fid:
                    continue
                return c
        return None

    def contract_q(self, q):
        return self.contract_for(q, None, None)

    def is_self(self, fobj):
        return fobj.get('id') == self.fid

    def apply(self, I, c, fobj, this, args, node):
        S = self.sorts
        self.applied.add(c.q)
        pre = I.snap()
        args = [a if isinstance(a, LV) or z3.is_expr(a) else self.arg_term(I, a) for a in args]
        ctx = Ctx(self, I, c, this, args, 'call', pre, fobj)
        c.fn(ctx)
        for label, cond in ctx.reqs:
            I.oblige('pre', '%s requires %s' % (c.name, label), cond)
        for fact in ctx.facts:
            I.assume(fact)
        ents = [I.event(tag, obj=obj, args=a, fn=fn) for tag, obj, a, fn in ctx.emits]
        for x in ents:
            x['pre'] = pre
        for g, obj in ctx.counts:
            a = self.ghost_initial(I, g)
            I.ghost[g] = z3.Store(a, obj, z3.Select(a, obj) + 1)
        # exceptions
        for cls, cond, label in ctx.exc:
            if I.branch(cond):
                self.havoc_mods(I, ctx, exc=cls)
                ctx.new = View(ctx, I.snap())
                ctx.raised = cls
                for lab, fn, on in ctx.ens:
                    if on in ('throw', 'both'):
                        self.learn(I, ctx, fn)
                raise Thr(cls, S.noval)
        for cls in ctx.maythrow:
            if I.choose(2):
                self.havoc_mods(I, ctx, exc=cls)
                ctx.new = View(ctx, I.snap())
                ctx.raised = cls
                for lab, fn, on in ctx.ens:
                    if on in ('throw', 'both'):
                        self.learn(I, ctx, fn)
                raise Thr(cls, S.noval)
        self.havoc_mods(I, ctx)
        ret = fobj.get('ret') or 'void'
        out = None
        if ctx.ret_term is not None:
            out = ctx.ret_term
            if z3.is_expr(out) and out.sort() == z3.IntSort() and not z3.is_int_value(out):
                for x in S.typeinv(self.prog.noref(ret), out):
                    I.assume(x)
        elif self.prog.ty(ret)['k'] != 'void' and not (fobj.get('ctor') or fobj['n'] == 'ctor'):
            if self.prog.isref(ret) and not S.is_entity(self.prog.norm(ret)):
                v = I.fresh('ret:' + fobj['n'], S.sort(ret))
                out = LV(('v', v))
            else:
                out = v = I.fresh('ret:' + fobj['n'], S.sort(ret))
            for x in S.typeinv(ret, v):
                I.assume(x)
        ctx.result_raw = out
        ctx.new = View(ctx, I.snap())
        for x in ents:
            x['ret'] = out
            x['post'] = ctx.new.snap
        ctx.acq, ctx.rel = ctx.old, ctx.new
        for label, fn, on in ctx.ens:
            if on in ('normal', 'both'):
                self.learn(I, ctx, fn)
        return out

    def learn(self, I, ctx, fn):
        """a postcondition of the callee, at a call"""
        ctx.at_call = True
        try:
            r = fn()
            if r is not None and not isinstance(r, bool):
                I.assume(r)
        except CallersLog:
            pass
        finally:
            ctx.at_call = False

    def arg_term(self, I, a):
        try:
            return I.as_term(a, None)
        except Unsupported:
            return a

    def havoc_mods(self, I, ctx, exc=None):
        S = self.sorts
        for m in ctx.mods:
            if m == 'trace' and ctx.emits and 'any' not in ctx.mods:
                continue                # the call stands in the history as its own event
            if m == 'trace' or m in ('alloc', 'deleted') or m in self.ghost_sorts and not m.startswith('#'):
                if m == 'trace':
                    self.ghost_initial(I, 'trace')
                    n = I.fresh('trace.len', z3.IntSort())
                    a = I.fresh('trace.arr', z3.ArraySort(z3.IntSort(), S.Event))
                    I.assume(n >= 0)
                    I.ghost['trace'] = S.mkseq(S.Event, n, a)
                elif m == 'alloc':
                    o = self.ghost_initial(I, 'alloc')
                    nw = I.fresh('alloc', o.sort())
                    r = z3.Int('ar')
                    I.assume(z3.ForAll([r], z3.Implies(z3.Select(o, r), z3.Select(nw, r)),
                                       patterns=[z3.Select(nw, r)]))
                    I.ghost['alloc'] = nw
                else:
                    o = self.ghost_initial(I, m)
                    I.ghost[m] = I.fresh(m, o.sort())
            elif m.startswith('arg:'):
                lv = ctx.args[int(m[4:])]
                if isinstance(lv, LV):
                    v = I.fresh('out', z3.simplify(I.rv(lv)).sort())
                    for x in S.sortinv(v):
                        I.assume(x)
                    I.write(lv, v)
            elif m.startswith('heap:') or m.startswith('#'):
                key = m[5:] if m.startswith('heap:') else m
                if not key.startswith('#') and '::' in key and not key.startswith('*'):
                    cls, n = key.rsplit('::', 1)
                    key = self.fkey(cls, n)
                o = I.heap_arr(key)
                I.heap[key] = I.fresh('H:' + key, o.sort())
            elif m.startswith('this.'):
                lv = ctx.old.lv(ctx.this, m[5:])
                v = I.fresh(m, self.lv_sort(I, lv))
                for x in S.sortinv(v):
                    I.assume(x)
                I.write(lv, v)
            elif m == 'this':
                if isinstance(ctx.this, PtrV) and ctx.this.lv is not None and not self.all_fields_lv(ctx.this, ctx.f.get('cls')):
                    old = I.rv(ctx.this.lv)
                    if z3.is_expr(old):         # a value of a dependency: no fields, the whole value changes
                        v = I.fresh('out', old.sort())
                        for y in S.sortinv(v):
                            I.assume(y)
                        I.write(ctx.this.lv, v)
                        continue
                for x in self.all_fields_lv(ctx.this, ctx.f.get('cls')):
                    if self.frozen(x):
                        continue
                    v = I.fresh('f', self.lv_sort(I, x))
                    for y in S.sortinv(v):
                        I.assume(y)
                    I.write(x, v)
            else:
                raise Unsupported('modifies ' + m)
        if exc is None and ctx.sets is not None:
            I.write(*ctx.sets)

    def frozen(self, lv):
        return False

    def lv_sort(self, I, lv):
        return I.read(lv).sort()

    def all_fields_lv(self, this, cls):
        out = []
        for c, n, t, _ in self.prog.fields(cls):
            k = '%s::%s' % (c, n)
            if isinstance(this, PtrV):
                out.append(LV(this.lv.root, this.lv.path + (('f', k),)))
            else:
                out.append(LV(('h', k, this)))
        return out

    def frame_ret(self, I):
        n = I.fr.name
        f = self.prog.funcs.get(n) or self.lambda_ops.get(n)
        return f['ret'] if f else None

    # ---------------------------------------------------------------- globals and statics
    def static_local(self, I, d):
        key = 'static:%s:%d' % (d['n'], d['id'])
        if self.is_const(d['t']) or self.never_written(I, d):
            lv = LV(('s', key))
            if key not in I.store:
                v = I.full(lambda: I.eval_init(d['init'], d['t'])) if d.get('init') else I.default_value(d['t'])
                I.store[key] = I.coerce(v, d['t'])
            return lv
        if key not in I.store:
            # value left by earlier calls: anything
            v = z3.Const(key, self.sorts.sort(d['t']))
            I.store[key] = v
            self.statics[key] = d['t']
            for x in self.sorts.typeinv(d['t'], v):
                I.assume(x)
        return LV(('s', key))

    def is_const(self, t):
        return t.startswith('const ') or (self.prog.ty(t).get('const'))

    READS = {'find', 'end', 'begin', 'cbegin', 'cend', 'at', 'count', 'size', 'empty', 'contains'}

    def never_written(self, I, d):
        """static local used only through reading operations of its function"""
        f = self.prog.funcs.get(I.fr.name) or self.lambda_ops.get(I.fr.name)
        ok = [True]

        def walk(o, parent):
            if isinstance(o, dict):
                if o.get('k') == 'Var' and o.get('id') == d['id']:
                    p = parent
                    if p is None:
                        ok[0] = False
                    elif p.get('k') == 'Return':
                        if self.prog.isref(f['ret']) and not self.is_const(self.prog.noref(f['ret'])):
                            ok[0] = False
                    elif p.get('k') == 'MCall' and p.get('obj') is o and p['f']['n'] in self.READS:
                        pass
                    elif p.get('k') == 'Cast' and p.get('ck') == 'LValueToRValue':
                        pass
                    else:
                        ok[0] = False
                for k, v in o.items():
                    if isinstance(v, dict):
                        walk(v, o if 'k' in o else parent)
                    elif isinstance(v, list):
                        for x in v:
                            if isinstance(x, dict):
                                walk(x, o if 'k' in o else parent)
        if f and f.get('body'):
            walk(f['body'], None)
        return ok[0] and self.prog.ty(self.prog.norm(d['t']))['k'] == 'record'

    def global_lv(self, I, e):
        n = e.get('q') or e['n']
        g = self.prog.globals.get(n)
        if g is None:
            raise Unsupported('global ' + n)
        key = 'global:' + n
        if key not in I.store:
            if n.endswith('::npos'):
                I.store[key] = z3.IntVal((1 << 64) - 1)
            elif self.is_const(g['t']) and g.get('init'):
                sv = I.fr.temps
                from .interp import Frame
                I.frames.append(Frame(None, 'global', None))
                try:
                    v = I.coerce(I.eval_init(g['init'], g['t']), g['t'])
                finally:
                    I.frames.pop()
                I.store[key] = v
            else:
                v = z3.Const(key, self.sorts.sort(g['t']))
                I.store[key] = v
                for x in self.sorts.typeinv(g['t'], v):
                    I.assume(x)
        return LV(('s', key))

    # ---------------------------------------------------------------- monitors
    def monitor_of(self, lv):
        """(class, object path, monitor) whose mutex lv is"""
        step = None
        if lv.path and lv.path[-1][0] == 'f':
            key, obj = lv.path[-1][1], LV(lv.root, lv.path[:-1])
        elif lv.root[0] == 'h' and not lv.path:
            key, obj = lv.root[1], lv.root[2]
        else:
            return None
        cls, n = key.rsplit('::', 1)
        for m in monitors(cls):
            try:
                if self.fkey(m['cls'], m['mutex']).rsplit('::', 1)[1] == n:
                    return cls, obj, m
            except Unsupported:
                pass
        return None

    def guarded(self, cls, m):
        out = []
        ex = set(m.get('exempt', ()))
        only = m.get('only')
        for c, n, t, _ in self.prog.fields(cls):
            if c != cls:
                continue
            tm = self.prog.tmpl(t)
            if tm in ('std::mutex', 'std::recursive_mutex', 'std::condition_variable', 'std::atomic', 'std::atomic_bool') \
                    or n in ex or (only and n not in [self.fkey(m['cls'], o).rsplit('::', 1)[1] for o in only]) \
                    or self.prog.isref(t) or self.is_const(t) or tm == 'std::future':
                continue
            out.append((n, t))
        return out

    def field_of(self, obj, cls, n):
        k = '%s::%s' % (cls, n)
        if isinstance(obj, LV):
            return LV(obj.root, obj.path + (('f', k),))
        return LV(('h', k, obj))

    def havoc_guarded(self, I, cls, obj, m):
        if m.get('stable'):
            return      # rely: no other thread writes the guarded members
        for n, t in self.guarded(cls, m):
            lv = self.field_of(obj, cls, n)
            v = I.fresh('mon:' + n, self.sorts.sort(t))
            for x in self.sorts.typeinv(t, v):
                I.assume(x)
            I.write(lv, v)
        if m.get('inv') or m.get('bounds'):
            c = self.ctx_now(I, obj)
            for label, t in (m['inv'](c) if m.get('inv') else []) + (m['bounds'](c) if m.get('bounds') else []):
                I.assume(t)

    def ctx_now(self, I, obj):
        this = PtrV(obj) if isinstance(obj, LV) else obj
        c = Ctx(self, I, self.con, this, [], 'mon', I.snap(), self.f)
        return c

    def is_this(self, I, obj):
        t = I.top_this
        if isinstance(t, PtrV):
            return isinstance(obj, LV) and t.lv.key() == obj.key()
        return z3.is_expr(obj) and t is not None and z3.is_expr(t) and t.eq(obj)

    def local_obj(self, I, obj):
        """object created by this activation: nobody else can see it yet"""
        if isinstance(obj, LV):
            return not self.is_this(I, obj) and obj.root[0] == 's' and not obj.root[1].startswith('arg')
        return z3.is_expr(obj) and z3.is_const(obj) and obj.decl().name().startswith('new:')

    def on_acquire(self, I, lv):
        mo = self.monitor_of(lv)
        if mo is None:
            return
        cls, obj, m = mo
        if self.is_this(I, obj):
            I.sections += 1
        if self.local_obj(I, obj) or I.in_ctor:
            if self.is_this(I, obj):
                I.acq = I.snap()
            return
        self.havoc_guarded(I, cls, obj, m)
        if self.is_this(I, obj):
            I.acq = I.snap()

    def on_release(self, I, lv):
        mo = self.monitor_of(lv)
        if mo is None:
            return
        cls, obj, m = mo
        if m.get('inv'):
            c = self.ctx_now(I, obj)
            for label, t in m['inv'](c):
                I.oblige('post', 'monitor invariant: ' + label, t)
        if m.get('step') and self.is_this(I, obj) and I.acq is not None:
            # the whole critical section is one of the steps this function may take
            c = self.ctx_now(I, obj)
            c.before = c.view(I.acq)
            for label, t in m['step'](c):
                I.oblige('post', label, t)
        if self.is_this(I, obj):
            I.rel = I.snap()

    def on_wait(self, I, lv):
        mo = self.monitor_of(lv)
        if mo is None:
            return
        cls, obj, m = mo
        if self.is_this(I, obj):
            for n, t in self.guarded(cls, m):
                flv = self.field_of(obj, cls, n)
                a, b = I.read(flv, I.acq), I.read(flv)
                if not (z3.is_expr(a) and a.eq(b)):
                    I.oblige('post', 'no change is published in the middle of an operation (wait)',
                             self.sorts.deep_eq(a, b))
        self.havoc_guarded(I, cls, obj, m)
        if self.is_this(I, obj):
            I.acq = I.snap()

    def on_notify(self, I, lv, which):
        I.notifies.append((which, lv, len(I.locks), I.sections))

    def check_guard(self, I, lv, e):
        """access to a guarded member needs its mutex"""
        if I.in_ctor:
            return
        for m in monitors(e['cls']):
            if e['f'] in [n for n, _ in self.guarded(e['cls'], m)]:
                self.check_guard_of(I, lv, e, m)

    def check_guard_of(self, I, lv, e, m):
        if lv.path and lv.path[-1][0] == 'f':
            obj = LV(lv.root, lv.path[:-1])
        elif lv.root[0] == 'h':
            obj = lv.root[2]
        else:
            return
        if self.local_obj(I, obj):
            return
        mk = self.fkey(m['cls'], m['mutex']).rsplit('::', 1)[1]
        want = I.mutex_key(self.field_of(obj, e['cls'], mk))
        if want not in I.locks:
            I.oblige('post', 'every access to the shared state of %s happens under its mutex'
                     % m['cls'].split('::')[-1], z3.BoolVal(False), race=True)

    def recursive_ok(self, lv):
        if lv.path and lv.path[-1][0] == 'f':
            key = lv.path[-1][1]
        elif lv.root[0] == 'h':
            key = lv.root[1]
        else:
            return False
        cls, n = key.rsplit('::', 1)
        for c, fn, t, _ in self.prog.fields(cls):
            if fn == n:
                return self.prog.tmpl(t) == 'std::recursive_mutex'
        return False

    # ---------------------------------------------------------------- dynamic dispatch
    def dyn(self, r):
        return z3.Function('dyntype', z3.IntSort(), z3.IntSort())(r)

    def devirtual(self, I, f, this):
        """is the dynamic type of the object known to be the static one?"""
        if z3.is_expr(this) and z3.is_const(this) and this.decl().name().startswith('new:'):
            return True
        if I.top_this is not None and z3.is_expr(this) and z3.is_expr(I.top_this) and this.eq(I.top_this):
            # a member of the class under verification: overriders are verified on their own
            return self.con.self_dyn and f.get('cls') in self.prog.bases(self.f.get('cls') or '')
        if isinstance(this, PtrV):
            return True
        return False

    def dynamic_cast(self, I, v, e):
        t = e['t']
        ti = self.prog.ty(t)
        to = self.prog.norm(ti['to']) if ti['k'] == 'ptr' else self.prog.norm(t)
        isa = z3.Function('isa:' + to, z3.IntSort(), z3.BoolSort())
        ok = isa(self.dyn(v))
        for n in self.prog.records:
            if self.prog.records[n].get('repo') and n in self.class_ids:
                c = isa(z3.IntVal(self.class_id(n)))
                I.assume(c if to in self.prog.bases(n) else z3.Not(c))
        if ti['k'] == 'ptr':
            return z3.If(z3.And(v != 0, ok), v, z3.IntVal(0))
        if not I.branch(ok):
            raise Thr('std::bad_cast', self.sorts.noval)
        return v

    # ---------------------------------------------------------------- unknown functions
    def call_unknown(self, I, fn, args, e, f):
        if I.pure:
            raise Impure()
        if not I.branch(fn != self.sorts.nullFn):
            raise Thr('std::bad_function_call', self.sorts.noval)
        if len(args) > 3:
            raise Unsupported('function value with more than three arguments')
        ent = I.event(CALL, fn=fn, args=args)
        ret = (f or {}).get('ret') or (e or {}).get('t')
        if ret is None or self.prog.ty(ret)['k'] == 'void':
            return None
        v = ent['ret'] = I.fresh('ret:fn', self.sorts.sort(ret))
        for c in self.sorts.typeinv(ret, v):
            I.assume(c)
        return v

    def atomic_load(self, I, lv):
        """another thread may have stored anything since the last look, unless the object is ours"""
        if lv.root[0] == 's' and lv.root[1].startswith('this') or lv.root[0] == 'h':
            key = lv.path[-1][1] if lv.path else lv.root[1]
            if self.memo.get(('stable', key)):
                return I.rv(lv)
            cur = I.rv(lv)
            v = I.fresh('atomic', cur.sort())
            I.write(lv, v)
            I.aloads.append((key, lv, v))
            I.alog.append((len(I.log), 'load', key, v))
            return v
        return I.rv(lv)

    def atomic_store(self, I, lv, v):
        I.write(lv, v)
        key = lv.path[-1][1] if lv.path else lv.root[1]
        I.astores.append((key, lv, v))
        I.alog.append((len(I.log), 'store', key, v))

    def is_set(self, lv, I):
        return 'set:' in I.rv(lv).sort().name().split(',')[0]

    def counter(self, I, arr, hit, name='cnt'):
        """ghost g(j) = number of i in [0,j) with hit(i), by recursion; with the lemmas that induction gives"""
        j, k = z3.Int('cnt.j'), z3.Int('cnt.k')
        probe = simp(hit(j))
        for a, g, h in I.counters:
            if a.eq(arr) and h.eq(probe):
                return g
        n = I.nfresh.get('#cnt', 0)
        I.nfresh['#cnt'] = n + 1
        f = z3.Function('cnt!%d' % n, z3.IntSort(), z3.IntSort())
        I.assume(f(z3.IntVal(0)) == 0)
        I.assume(z3.ForAll([j], z3.Implies(j >= 0, f(j + 1) == f(j) + z3.If(probe, 1, 0)), patterns=[f(j + 1)]))
        # unfolding at the positions the code looks at
        I.assume(z3.ForAll([j], z3.Implies(j >= 0, f(j + 1) == f(j) + z3.If(probe, 1, 0)),
                           patterns=[z3.Select(arr, j)]))
        # lemmas (induction on the upper index)
        I.assume(z3.ForAll([j], z3.Implies(j >= 0, z3.And(0 <= f(j), f(j) <= j)), patterns=[f(j)]))
        I.assume(z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j <= k), z3.And(f(j) <= f(k), f(k) - f(j) <= k - j)),
                           patterns=[z3.MultiPattern(f(j), f(k))]))
        I.assume(z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, probe), f(j) < f(k)),
                           patterns=[z3.MultiPattern(f(j), f(k))]))
        # two countings of the same positions agree when their conditions agree (induction)
        for a, g, h in I.counters:
            if a.eq(arr):
                i, x = z3.FreshInt('ci'), z3.FreshInt('cx')
                n_ = z3.FreshInt('cn')
                p1, p2 = z3.substitute(probe, (j, i)), z3.substitute(h, (j, i))
                I.assume(z3.Implies(z3.ForAll([i], z3.Implies(i >= 0, p1 == p2)),
                                    z3.ForAll([x], z3.Implies(x >= 0, f(x) == g(x)), patterns=[f(x)])))
                I.assume(z3.Implies(z3.ForAll([i], z3.Implies(i >= 0, p1 == z3.Not(p2))),
                                    z3.ForAll([x], z3.Implies(x >= 0, f(x) == x - g(x)), patterns=[f(x)])))
        I.counters.append((arr, f, probe))
        self.lemmas.add('counting function: bounds, monotonicity, congruence (by induction)')
        return f

    def count(self, I, lv, lo, hi, pt):
        lo_s, hi_s = simp(lo), simp(hi)
        if z3.is_int_value(lo_s) and z3.is_int_value(hi_s) and hi_s.as_long() - lo_s.as_long() < 16:
            r = z3.IntVal(0)
            for j in range(lo_s.as_long(), hi_s.as_long()):
                r = r + z3.If(pt(z3.IntVal(j)), 1, 0)
            return r
        g = self.counter(I, self.sorts.sarr(I.rv(lv)), pt)
        return g(hi) - g(lo)

    # ---------------------------------------------------------------- loops
    def comps(self, I, snap, entry):
        """components (name, value) of the state at a loop head, at the granularity of record fields"""
        out = {}
        for k, v in snap.store.items():
            if k in entry.store:
                out[('s', k)] = v
        for k, v in snap.heap.items():
            out[('h', k)] = v
        for k, v in snap.ghost.items():
            if v is not None:
                out[('g', k)] = v
        return out

    def same(self, a, b):
        if a is b:
            return True
        if z3.is_expr(a) and z3.is_expr(b):
            return a.eq(b) or simp(a).eq(simp(b))
        if isinstance(a, LV) and isinstance(b, LV):
            return a.key() == b.key()
        if isinstance(a, Iter) and isinstance(b, Iter):
            return a.lv.key() == b.lv.key() and a.idx.eq(b.idx)
        if isinstance(a, PtrV) and isinstance(b, PtrV):
            return (a.lv is None) == (b.lv is None) and (a.lv is None or a.lv.key() == b.lv.key())
        if isinstance(a, Lock) and isinstance(b, Lock):
            return a.held == b.held and [m.key() for m in a.mutexes] == [m.key() for m in b.mutexes]
        return False

    def diff(self, I, key, a, b):
        """sub-components in which two values of one component differ"""
        if self.same(a, b):
            return []
        if z3.is_expr(a) and z3.is_expr(b) and a.sort() == b.sort():
            s = a.sort()
            if s.kind() == z3.Z3_DATATYPE_SORT and not self.sorts.is_seq(s) and not self.sorts.is_map(s) \
                    and s != self.sorts.Event:
                out = []
                for i in range(s.constructor(0).arity()):
                    x, y = simp(self.sorts.get(a, i)), simp(self.sorts.get(b, i))
                    out += self.diff(I, key + (i,), x, y)
                return out
        return [key]

    def havoc_comp(self, I, key):
        kind, name, path = key[0], key[1], key[2:]
        tag = 'L:%s' % name
        if kind == 's':
            v = I.store[name]
            if isinstance(v, Iter):
                idx = I.fresh(tag + '.idx', z3.IntSort())
                I.store[name] = Iter(v.lv, idx, v.rev)
                return
            if not z3.is_expr(v):
                raise Unsupported('loop changes a %s' % type(v).__name__)
            nv = self.havoc_at(I, v, path, tag)
            I.store[name] = nv
            st = self.slot_types.get(name)
            if st and not path:
                for c in self.sorts.typeinv(st[0], nv):
                    I.assume(c)
        elif kind == 'h':
            v = I.heap_arr(name)
            I.heap[name] = I.fresh(tag, v.sort())
        else:
            v = self.ghost_initial(I, name)
            if name == 'trace':
                n = I.fresh('L:trace.len', z3.IntSort())
                I.assume(n >= 0)
                I.ghost[name] = self.sorts.mkseq(self.sorts.Event, n,
                                                 I.fresh('L:trace.arr', self.sorts.sarr(v).sort()))
            else:
                I.ghost[name] = self.havoc_at(I, v, path, tag)

    def havoc_at(self, I, v, path, tag):
        if not path:
            if self.sorts.is_seq(v.sort()):
                n = I.fresh(tag + '.len', z3.IntSort())
                I.assume(n >= 0)
                I.assume(n < (1 << 62))
                return self.sorts.mkseq(self.sorts.elem(v), n, I.fresh(tag + '.arr', self.sorts.sarr(v).sort()))
            nv = I.fresh(tag, v.sort())
            for c in self.sorts.sortinv(nv):
                I.assume(c)
            return nv
        return self.sorts.seti(v, path[0], self.havoc_at(I, self.sorts.get(v, path[0]), path[1:], tag))

    def loop_candidates(self, I, st, k, rng, entry, initial=False):
        """[(name, term)] for the current state"""
        cur = I.snap()
        I.loop_havoc = {h[1] for h in st.havoc if h[0] == 's'}
        ctx = I.top_ctx
        out = []
        S = self.sorts
        binds, steps = [], []
        if k is not None:
            seqv = I.rv(rng)
            binds.append(('k', I.rv(k), seqv))
            out.append(('#0<=k', I.rv(k) >= 0))
            out.append(('#k<=n', I.rv(k) <= S.slen(seqv)))
            steps.append(('k', I.rv(k), z3.IntVal(0), False))
        for key in sorted(st.havoc, key=str):
            if key[0] != 's' or len(key) > 2 or (k is not None and key[1] == k.root[1]):
                continue
            v = cur.store.get(key[1])
            e = entry.store.get(key[1])
            if isinstance(v, Iter) and isinstance(e, Iter) and v.rev == e.rev:
                steps.append((key[1], v.idx, e.idx, v.rev))
            elif z3.is_expr(v) and v.sort() == z3.IntSort() and z3.is_expr(e):
                steps.append((key[1], v, e, False))
            if isinstance(v, Iter):
                if isinstance(I.store.get(v.lv.root[1]) if v.lv.root[0] == 's' else None, LV):
                    pass
                seqv = I.rv(v.lv)
                binds.append((key[1], v.idx, seqv))
                out.append(('#%s>=0' % key[1], v.idx >= (0 if not v.rev else -1)))
                out.append(('#%s<=n' % key[1], v.idx <= S.slen(seqv)))
                if isinstance(e, Iter):
                    out.append(('#%s>=e' % key[1], v.idx >= e.idx))
            elif z3.is_expr(v) and v.sort() == z3.IntSort() and z3.is_expr(e):
                binds.append((key[1], v, None))
                out.append(('#%s>=e' % key[1], v >= e))
                out.append(('#%s<=e' % key[1], v <= e))
                for n2, w in list(cur.store.items()):
                    if n2 in entry.store and z3.is_expr(w):
                        for p, q in self.seqs_in(w, 0 if n2.startswith('this') else 2):
                            out.append(('#%s<=len(%s%s)' % (key[1], n2, p), v <= S.slen(q)))
        for n2, v2, e2, r2 in steps[1:]:
            # counters that move together
            n1, v1, e1, r1 = steps[0]
            out.append(('#%s with %s' % (n2, n1), (v2 - e2 if not r2 else e2 - v2) == (v1 - e1 if not r1 else e1 - v1)))
        if z3.is_expr(I.top_this):
            for key in sorted(st.havoc, key=str):
                if key[0] == 'h':
                    # entities other than the one called keep what they have, unless the loop says otherwise
                    a = entry.heap.get(key[1])
                    a = self.heap_initial(key[1]) if a is None else a
                    b = I.heap_arr(key[1])
                    x = z3.Int('lx')
                    out.append(('#others keep %s' % key[1], z3.ForAll([x], z3.Implies(
                        x != I.top_this, z3.Select(b, x) == z3.Select(a, x)), patterns=[z3.Select(b, x)])))
        for fn in self.con.loops:
            for bn, kv, seqv in (binds or [('none', None, None)]):
                L = LoopView(ctx, kv, seqv, entry, cur)
                try:
                    r = fn(L)
                except (KeyError, Unsupported, AttributeError, TypeError, z3.Z3Exception, IndexError):
                    continue
                if r is None:
                    continue
                if not isinstance(r, list):
                    r = [r]
                for i, t in enumerate(r):
                    if t is not None:
                        out.append(('%s[%s].%d' % (fn.__name__, bn, i), t))
        had, uniq = set(), []
        if initial:
            return out
        for n, t in out:        # of equal ones that are still alive, one is enough
            if n not in st.dead and n in st.seen and t.get_id() not in had:
                had.add(t.get_id())
                uniq.append((n, t))
        return uniq

    def seqs_in(self, w, depth=0):
        S = self.sorts
        if S.is_seq(w.sort()):
            return [('', w)]
        out = []
        if depth < 2 and w.sort().kind() == z3.Z3_DATATYPE_SORT and not S.is_map(w.sort()) and w.sort() != S.Event:
            for i in range(w.sort().constructor(0).arity()):
                for p, q in self.seqs_in(S.get(w, i), depth + 1):
                    out.append(('.%d%s' % (i, p), q))
        return out

    def cut_loop(self, I, s, head, body, inc, k, rng):
        occ = I.loop_occ.get(id(s), 0)
        I.loop_occ[id(s)] = occ + 1
        key = (tuple(f.name for f in I.frames), id(s), occ)
        st = self.loops.setdefault(key, LoopState())
        entry = I.snap()
        locks = set(I.locks)
        sections = I.sections
        if k is not None:
            st.havoc.setdefault(('s', k.root[1]), True)
        for name, t in self.loop_candidates(I, st, k, rng, entry, True):
            st.seen.add(name)
            if name not in st.dead:
                I.oblige('inv', '%s initially' % name, t, loop=key, cand=name)
        I.cut_path = True
        for c in sorted(st.havoc, key=str):
            self.havoc_comp(I, c)
            if c[:2] == ('g', 'trace'):
                I.log.append(dict(tag=0))
        for name, t in self.loop_candidates(I, st, k, rng, entry):
            if name not in st.dead and name in st.seen:
                I.assume(t)
        base = I.snap()
        if I.choose(2) == 0:
            c = I.full(lambda: head())
            if not I.branch(c):
                raise Dead()
            try:
                body()
            except Brk:
                return
            except Cont:
                pass
            inc()
            if set(I.locks) != locks:
                raise Unsupported('loop changes the locks held')
            now = I.snap()
            old = self.comps(I, base, entry)
            new = self.comps(I, now, entry)
            grew = False
            for ck, v in new.items():
                if ck in old:
                    a = old[ck]
                elif ck[0] == 'h':
                    a = self.heap_initial(ck[1])
                elif ck[0] == 'g':
                    a = self.ghost_const(ck[1])
                else:
                    continue
                for d in self.diff(I, ck, a, v):
                    if not any(d[:len(h)] == h for h in st.havoc):
                        st.havoc[d] = True
                        grew = True
            if grew:
                raise Restart()
            for name, t in self.loop_candidates(I, st, k, rng, entry):
                if name not in st.dead and name in st.seen:
                    I.oblige('inv', '%s preserved' % name, t, loop=key, cand=name)
            raise Dead()
        c = simp(I.full(lambda: head()))
        if not I.feasible(z3.Not(c)):
            raise Dead()
        I.assume(z3.Not(c))

    # ---------------------------------------------------------------- driving
    def axioms(self):
        return self.sorts.lit_axioms() + self.sorts.axioms + self.global_axioms

    def make_arg(self, I, i, prm):
        t = prm['t']
        S = self.sorts
        n = 'arg%d' % i
        if self.prog.isref(t):
            base = self.prog.noref(t)
            name = self.prog.norm(t)
            if S.is_entity(name):
                v = z3.Const(n, z3.IntSort())
                I.assume(v > 0)
                return v
            v = z3.Const(n, S.sort(t))
            for c in S.typeinv(t, v):
                I.assume(c)
            lv = I.new_slot(v, n)
            self.slot_types[lv.root[1]] = (base, n)
            return lv
        v = z3.Const(n, S.sort(t))
        for c in S.typeinv(t, v):
            I.assume(c)
        return v

    def run_one(self, script, box):
        """one path; returns the interpreter with its obligations"""
        I = Interp(self, script)
        box.append(I)
        I.notifies = []
        I.log = []
        I.astores = []
        I.aloads = []
        I.alog = []
        I.counters = []
        I.memo = {}
        I.loop_occ = {}
        # a destructor of an object that its own thread still uses is an operation like any other
        shared = self.f.get('dtor') and any(m.get('shared_at_end') for m in monitors(self.f.get('cls')))
        I.in_ctor = bool((self.f.get('ctor') or self.f.get('dtor')) and not shared)
        I.top_this = None
        I.exit = None
        S = self.sorts
        f = self.f
        cls = f.get('cls')
        this = None
        for a in self.axioms():
            I.solver.add(a)
        if cls and not f.get('static'):
            if S.is_entity(cls) or not S.is_value_record(cls):
                this = z3.Const('this', z3.IntSort())
                I.assume(this > 0)
                if not f.get('ctor'):
                    a0 = self.ghost_initial(I, 'alloc')
                    I.assume(z3.Select(a0, this))
            else:
                v = z3.Const('this', S.sort(cls))
                for c in S.sortinv(v):
                    I.assume(c)
                this = PtrV(I.new_slot(v, 'this'))
        I.top_this = this
        args = [self.make_arg(I, i, p) for i, p in enumerate(f['params'])]
        if isinstance(self.con.entry, str) and self.con.entry.startswith('alias:'):
            args[int(self.con.entry[6:])] = this.lv if isinstance(this, PtrV) else this
        ctx = Ctx(self, I, self.con, this, args, 'check', None, f)
        I.top_ctx = ctx
        if callable(self.con.entry):
            self.con.entry(ctx)
        pre = I.snap()
        ctx.old = View(ctx, pre)
        self.con.fn(ctx)
        for label, cond in ctx.reqs:
            I.assume(cond)
        for fact in ctx.facts:
            I.assume(fact)
        pre = I.snap()
        ctx.old = View(ctx, pre)
        raised = None
        ret = None
        try:
            ret = I.call_body(f, this, args)
        except Thr as ex:
            raised = ex
        if I.locks:
            I.oblige('post', 'every mutex taken is released on return', z3.BoolVal(False))
        # a value returned by a destructor-bearing temporary etc. is already destroyed at this point
        post = I.snap()
        ctx.new = View(ctx, post)
        ctx.acq = View(ctx, I.acq) if I.acq is not None else ctx.old
        ctx.rel = View(ctx, I.rel) if I.rel is not None else ctx.new
        ctx.result_raw = ret
        I.exit = 'normal' if raised is None else raised.cls
        I.sat_exit = None
        if raised is None:
            for ecls, cond, label in ctx.exc:
                I.oblige('post', label, z3.Not(cond))
            for label, fn, on in ctx.ens:
                if on in ('normal', 'both'):
                    t = fn()
                    if t is None:
                        continue
                    if isinstance(t, bool):
                        t = z3.BoolVal(t)
                    I.oblige('post', label, t)
            self.check_frame(I, ctx, pre, post)
        else:
            bases = self.prog.bases(raised.cls)
            hit = False
            ctx.raised = raised.cls
            ctx.raised_value = raised.v
            conds = []
            for ecls, cond, label in ctx.exc:
                if ecls in bases or ecls == raised.cls:
                    hit = True
                    conds.append((label, cond))
            if conds:
                I.oblige('post', conds[0][0], z3.Or(*[c for _, c in conds]))
            if not hit and not any(m in bases or m == raised.cls or m == 'unknown exception' for m in ctx.maythrow):
                I.oblige('post', 'no exception other than the specified ones', z3.BoolVal(False),
                         exc=raised.cls)
            for label, fn, on in ctx.ens:
                if on in ('throw', 'both'):
                    t = fn()
                    if t is not None:
                        I.oblige('post', label, z3.BoolVal(t) if isinstance(t, bool) else t)
            self.check_frame(I, ctx, pre, post)
        return I

    def check_frame(self, I, ctx, pre, post):
        """everything not listed under modifies is unchanged"""
        S = self.sorts
        mods = set(ctx.mods)
        if 'any' in mods:
            return
        this = ctx.this
        allow_this = 'this' in mods or self.f.get('ctor') or self.f.get('dtor')
        ok_fields = set()
        for m in mods:
            if m.startswith('this.'):
                cls, n = m[5:].rsplit('::', 1)
                ok_fields.add(self.fkey(cls, n))
        okheap = set()
        for m in mods:
            if m.startswith('heap:'):
                k = m[5:]
                if k.startswith('*') or k.startswith('#'):
                    okheap.add(k)
                else:
                    cls, n = k.rsplit('::', 1)
                    okheap.add(self.fkey(cls, n))
        if isinstance(this, PtrV) and not allow_this:
            slot = this.lv.root[1]
            a, b = pre.store[slot], post.store[slot]
            if not a.eq(b):
                guarded = {n for mon in monitors(self.f['cls']) for n, _ in self.guarded(self.f['cls'], mon)}
                for i in range(a.sort().constructor(0).arity()):
                    fk = a.sort().accessor(0, i).name()
                    if fk in ok_fields:
                        continue
                    x, y = S.get(a, i), S.get(b, i)
                    if fk.rsplit('::', 1)[1] in guarded:
                        if I.acq is None:
                            continue
                        x = S.get(I.acq.store[slot], i)
                    if not simp(x).eq(simp(y)):
                        I.oblige('post', 'leaves %s unchanged' % fk.split('::')[-1], S.deep_eq(x, y))
        for i, a in enumerate(ctx.args):
            if isinstance(a, LV) and a.root[0] == 's' and 'arg:%d' % i not in mods:
                x, y = pre.store[a.root[1]], post.store[a.root[1]]
                pt = self.f['params'][i]['t']
                if self.prog.ty(pt)['k'] == 'rref':
                    continue
                if not self.same(x, y):
                    I.oblige('post', 'leaves argument %d unchanged' % (i + 1), S.deep_eq(x, y))
        for key, arr in post.heap.items():
            a0 = pre.heap.get(key)
            if a0 is None:
                a0 = self.heap_initial(key)
            if arr.eq(a0) or key in okheap:
                continue
            if self.prog.tmpl(self.heap_types.get(key) or '') in ATOMIC_T:
                continue        # other threads may store as well: judged below by the stores made here
            r = z3.FreshInt('fr')
            cond = z3.Select(self.ghost_initial(I, 'alloc') if False else (pre.ghost.get('alloc') if
                             pre.ghost.get('alloc') is not None else self.ghost_const('alloc')), r)
            if z3.is_expr(this) and (allow_this or key in ok_fields):
                cond = z3.And(cond, r != this)
            elif z3.is_expr(this) and key.rsplit('::', 1)[-1] in {n for m in monitors(self.f['cls']) for n, _ in self.guarded(self.f['cls'], m)}:
                cond = z3.And(cond, r != this)      # what other threads did before the lock was taken is not this function's doing
                if I.acq is not None and I.acq.heap.get(key) is not None and not arr.eq(I.acq.heap[key]):
                    I.oblige('post', 'leaves %s unchanged' % key.split('::')[-1], z3.Select(arr, this) == z3.Select(I.acq.heap[key], this))
            I.oblige('post', 'leaves %s of other objects unchanged' % key.split('::')[-1],
                     z3.ForAll([r], z3.Implies(cond, z3.Select(arr, r) == z3.Select(a0, r))))
        for key, lv, v in I.astores:
            if key in okheap or self.local_obj(I, lv.root[2] if lv.root[0] == 'h' else LV(lv.root)):
                continue
            mine = lv.root[0] == 'h' and z3.is_expr(this) and lv.root[2].eq(this)
            if mine and (allow_this or key in ok_fields):
                continue
            if isinstance(this, PtrV) and (allow_this or key in ok_fields):
                continue
            I.oblige('post', 'does not store to %s' % key.split('::')[-1], z3.BoolVal(False))
        for g in COUNTS:
            a, b = pre.ghost.get(g), post.ghost.get(g)
            if b is not None and g not in mods:
                a = a if a is not None else self.ghost_const(g)
                if not self.same(a, b):
                    I.oblige('post', 'makes no %s' % g, a == b)
        tr0, tr1 = pre.ghost.get('trace'), post.ghost.get('trace')
        if tr1 is not None and 'trace' not in mods:
            t0 = tr0 if tr0 is not None else self.ghost_const('trace')
            if not self.same(t0, tr1):
                I.oblige('post', 'makes no calls of outside functions', S.slen(t0) == S.slen(tr1))
        for key, t in self.statics.items():
            a, b = z3.Const(key, S.sort(t)), post.store.get(key)
            # a static local that changes is hidden state: allowed, its value is arbitrary on entry

    def enumerate(self, script0=()):
        """all paths; None when loop bookkeeping changed"""
        script = list(script0)
        obls, exits = [], []
        n = 0
        seen = set()
        while True:
            n += 1
            if n > self.MAXPATHS or time.time() > self.deadline:
                raise Unsupported('too many paths')
            I = None
            try:
                I = self._path(script)
            except Restart:
                return None
            for o in I.obls:
                sig = (o['kind'], o['label'], o['line'], o['cond'].get_id(), tuple(c.get_id() for c in o['pc']))
                if sig in seen:
                    continue
                seen.add(sig)
                self.keep.append((o['cond'], o['pc']))
                obls.append(o)
            if I.exit:
                exits.append((I.exit, list(I.pc)))
            taken = I.taken
            while taken and taken[-1][0] + 1 >= taken[-1][1]:
                taken.pop()
            if not taken:
                break
            script = [c for c, _ in taken]
            script[-1] += 1
        self.npaths = n
        return obls, exits

    def _path(self, script):
        box = []
        try:
            return self.run_one(script, box)
        except Dead:
            I = box[0]
            I.exit = None
            return I

    # ---------------------------------------------------------------- solving
    def cvc5(self, s, seconds):
        """a second opinion on string reasoning: true when cvc5 refutes the query"""
        import subprocess
        text = '(set-logic ALL)\n(set-option :strings-exp true)\n' + s.to_smt2()
        try:
            r = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % (seconds * 1000)], input=text, capture_output=True,
                               text=True, timeout=seconds + 5)
        except (OSError, subprocess.TimeoutExpired):
            return False
        self.nsolve += 1
        ok = r.stdout.strip() == 'unsat'
        if ok:
            self.backends.add('cvc5 1.1.2')
        return ok

    def solve(self, pc, neg, ms=None, quick=False):
        """unsat / sat / unknown, model"""
        t0 = time.time()
        res, model = 'unknown', None
        if z3.is_false(simp(neg)):
            return 'unsat', None
        tries = [{'smt.mbqi': False, 'smt.auto_config': False}, {}, {'smt.random_seed': 7, 'smt.qi.eager_threshold': 100.0}]
        if quick:
            tries = tries[:1 if quick == 1 else 2]
        try:
            for i, opt in enumerate(tries):
                s = z3.SolverFor('ALL') if False else z3.Solver()
                # a limit on work rather than on time: the verdict does not depend on the load of the machine
                lim = int(ms or self.solver_ms)
                s.set('rlimit', lim * (1800 if quick else 5000))
                s.set('timeout', lim * (3 if quick else 5))
                for k, v in opt.items():
                    s.set(k, v)
                for a in self.axioms():
                    s.add(a)
                for c in pc:
                    s.add(c)
                s.add(neg)
                r = s.check()
                self.nsolve += 1
                if r == z3.unsat:
                    return 'unsat', None
                if r == z3.sat:
                    return 'sat', s.model()
                if i < 2 and quick != 1:
                    # the same query numbered afresh: what Z3 tries first depends on the order in which terms were made
                    w = z3.Solver(ctx=z3.Context())
                    w.set('rlimit', lim * 1800)
                    w.set('timeout', lim * 3)
                    for k, v in opt.items():
                        w.set(k, v)
                    try:
                        w.from_string(s.sexpr())
                        self.nsolve += 1
                        if w.check() == z3.unsat:
                            return 'unsat', None
                    except z3.Z3Exception as ex:
                        if os.environ.get('VERIF_DEBUG'):
                            open('/tmp/badname', 'w').write(s.sexpr() + str(ex))
                if i == 0 and not quick and self.con.strings == 'theory' and self.cvc5(s, 20):
                    return 'unsat', None
                if time.time() > self.deadline:
                    break
        finally:
            self.solve_time += time.time() - t0
        return res, model

    def verify(self):
        """dict: status proved|failed|undecided, obligations"""
        t0 = time.time()
        out = dict(function=self.f['q'], id=self.fid, contract=self.con.name, obligations=[], status='proved',
                   reason='', file=self.f.get('file', ''))
        try:
            rounds = 0
            while True:
                rounds += 1
                if rounds > 60:
                    raise Unsupported('invariant search does not settle')
                r = self.enumerate()
                if r is None:
                    continue
                obls, exits = r
                # Houdini: drop candidate invariants that do not hold
                dropped = False
                for o in obls:
                    if o['kind'] != 'inv':
                        continue
                    st = self.loops[o['loop']]
                    if o['cand'] in st.dead:
                        continue
                    res, _ = self.solve(o['pc'], z3.Not(o['cond']), ms=self.inv_ms, quick=2)
                    if res != 'unsat':
                        if os.environ.get('VERIF_DEBUG'):
                            if res == 'unknown':
                                q = z3.Solver()
                                q.add(*self.axioms(), *o['pc'], z3.Not(o['cond']))
                                open('%s.%s.smt2' % (os.environ['VERIF_DEBUG'], o['cand'].replace('/', '_')), 'w').write(q.sexpr() + '(check-sat)')
                            open(os.environ['VERIF_DEBUG'], 'a').write('dropped %s %s %s\n' % (self.con.name, o['cand'], res))
                        st.dead.add(o['cand'])
                        dropped = True
                if not dropped:
                    break
            # vacuity: some exit must be reachable
            self.nexits = len(exits)
            alive = 0
            kinds = {}
            for kind, pc in exits:
                res, _ = self.solve(pc, z3.BoolVal(True), ms=400, quick=1)
                kinds.setdefault(kind, []).append(res != 'unsat')
                if res != 'unsat':
                    alive += 1
            out['exits'] = len(exits)
            out['exits_alive'] = alive
            if alive == 0:
                # the body cannot complete at all: nothing would be proved
                out['status'] = 'undecided'
                out['reason'] = 'no reachable exit (assumptions contradictory or function never returns)'
            elif not any(kinds.get('normal', [True])):
                out['status'] = 'undecided'
                out['reason'] = 'no normal exit is reachable: the assumptions contradict each other'
            for o in obls:
                if o['kind'] == 'inv':
                    continue
                t1 = time.time()
                res, model = self.solve(o['pc'], z3.Not(o['cond']))
                if res == 'unknown' and os.environ.get('VERIF_DUMP'):
                    q = z3.Solver()
                    q.add(*self.axioms(), *o['pc'], z3.Not(o['cond']))
                    open('%s/%d-%d.smt2' % (os.environ['VERIF_DUMP'], os.getpid(), int(time.time() * 10)), 'w').write(q.sexpr() + '(check-sat)')
                rec = dict(label=o['label'], kind=o['kind'], line=o['line'], file=o['file'],
                           result={'unsat': 'proved', 'sat': 'refuted', 'unknown': 'unknown'}[res],
                           time=round(time.time() - t1, 3), path=o['path'][-12:], abstract=bool(o['cut'] or o['approx']))
                if o.get('exc'):
                    rec['exception'] = o['exc']
                if res == 'sat' and model is not None:
                    rec['model'] = self.show_model(model)
                out['obligations'].append(rec)
            for st in self.loops.values():
                for nme in sorted(st.seen - st.dead):
                    out['obligations'].append(dict(label='loop invariant ' + nme, kind='inv', line=0, file='',
                                                   result='proved', time=0, path=[], abstract=False))
            bad = [o for o in out['obligations'] if o['result'] != 'proved']
            if bad and out['status'] == 'proved':
                out['status'] = 'failed'
        except Unsupported as ex:
            out['status'] = 'undecided'
            out['reason'] = 'beyond the verifier: %s' % ex
        except (z3.Z3Exception, RecursionError, KeyError, AttributeError, TypeError, IndexError, AssertionError,
                ValueError) as ex:
            out['status'] = 'undecided'
            out['reason'] = 'beyond the verifier: %s: %s' % (type(ex).__name__, ex)
            out['trace'] = traceback.format_exc()
        out['wall_s'] = round(time.time() - t0, 3)
        out['solver_s'] = round(self.solve_time, 3)
        out['queries'] = self.nsolve
        out['backends'] = sorted(self.backends)
        out['paths'] = getattr(self, 'npaths', 0)
        out['inlined'] = sorted(self.inlined - {self.f['q']})
        out['applied'] = sorted(self.applied)
        out['trusted'] = sorted(self.models.used)
        out['lemmas'] = sorted(self.lemmas)
        return out

    def show_model(self, m):
        out = {}
        for d in m.decls():
            n = d.name()
            if n.startswith(('arg', 'this', 'mon:', 'ret:', 'H0:', 'static:')) or d.arity() == 0 and '!' not in n:
                out[n] = str(m[d])[:300]
        return out
