"""Strongest-postcondition symbolic execution of one path of one function.

The interpreter is written in direct style: a path is determined by the list of choices it made, and the
verifier (verify.py) re-runs it until all choice sequences are exhausted.
"""
import z3

from .sorts import (ATOMIC_T, LOCK_T, MAP_T, PTR_T, SEQ_T, SET_T, Sorts,
                    Unsupported)


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Dead(Exception):
    """path ends here (infeasible, or cut at a loop back edge)"""


class Restart(Exception):
    """more loop components must be havocked"""


class Thr(Exception):
    def __init__(self, cls, v):
        self.cls = cls
        self.v = v


class LV:
    """lvalue: a root and a path into its value"""
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()):
        self.root = root
        self.path = tuple(path)

    def sub(self, *step):
        return LV(self.root, self.path + (step,))

    def key(self):
        return (self.root if self.root[0] != 'h' else ('h', self.root[1], self.root[2].get_id()),
                tuple((s[0], s[1]) if s[0] == 'f' else (s[0], s[1].get_id() if z3.is_expr(s[1]) else s[1])
                      for s in self.path))

    def __repr__(self):
        return 'LV(%s%s)' % (self.root, ''.join('.%s' % (s[1],) for s in self.path))


class PtrV:
    """pointer to something that is not an entity; lv None is the null pointer"""

    def __init__(self, lv):
        self.lv = lv


class Iter:
    def __init__(self, lv, idx, rev=False):
        self.lv = lv
        self.idx = idx
        self.rev = rev


class MIter:
    """map/set iterator: key term, or end when `end` holds"""

    def __init__(self, lv, key, end, first=False):
        self.lv = lv
        self.key = key
        self.end = end
        self.first = first


class Inserter:
    def __init__(self, lv):
        self.lv = lv


class Closure:
    def __init__(self, node, binds, this):
        self.node = node
        self.binds = binds
        self.this = this


class FunRef:
    def __init__(self, f):
        self.f = f


class Bound:
    """std::bind / mem_fn / ref results"""

    def __init__(self, kind, *a):
        self.kind = kind
        self.a = a


class Lock:
    """std::lock_guard and friends"""

    def __init__(self, mutexes, held):
        self.mutexes = mutexes
        self.held = held


class ILst:
    """braced initialiser list of already evaluated values"""

    def __init__(self, items, elem):
        self.items = items
        self.elem = elem


class Snap:
    """immutable picture of the whole symbolic state"""
    __slots__ = ('store', 'heap', 'ghost')

    def __init__(self, store, heap, ghost):
        self.store = store
        self.heap = heap
        self.ghost = ghost


class Frame:
    def __init__(self, this, name, cls):
        self.vars = {}
        self.this = this
        self.name = name
        self.cls = cls
        self.scopes = [[]]
        self.temps = []
        self.uid = ''
        self.names = {}


def simp(e):
    return z3.simplify(e)


class Interp:
    MAX_INLINE = 14

    def __init__(self, V, script):
        self.V = V                   # FunctionVerifier
        self.p = V.prog
        self.S: Sorts = V.sorts
        self.script = list(script)   # decisions to replay
        self.pos = 0
        self.taken = []              # (choice, number of alternatives)
        self.pc = []
        self.store = {}
        self.heap = {}
        self.ghost = {'trace': None}
        self.frames = []
        self.nslot = 0
        self.topnames = {}
        self.slotno = {}
        self.nfresh = {}
        self.solver = z3.Solver()
        self.solver.set('rlimit', 500000)
        self.solver.set('timeout', 900)
        self.solver.set('smt.mbqi', False)
        self.obls = []
        self.nlock, self.lockno = 0, {}
        self.locks = {}              # mutex key -> LV
        self.sections = 0
        self.acq = None
        self.rel = None
        self.closures = {}
        self.inv_cache = set()
        self.trace_notes = []
        self.cut_path = False
        self.approx = False
        self.pure = 0
        self.pure_mark = 0
        self.pure_obls = None
        self.pscript = None
        self.depth = 0
        self.ctor_this = []
        self.line = 0
        self.curfile = ''

    # ------------------------------------------------------------------ basics
    def fresh(self, name, sort):
        n = self.nfresh.get(name, 0)
        self.nfresh[name] = n + 1
        return z3.Const('%s!%d' % (name, n), sort)

    def assume(self, c):
        if z3.is_true(c):
            return
        self.pc.append(c)
        self.solver.add(c)
        if z3.is_false(c):
            raise Dead()

    def choose(self, n, opts=None):
        """nondeterministic choice between n alternatives"""
        if self.pure:
            raise Impure()
        if self.pos < len(self.script):
            c = self.script[self.pos]
        else:
            c = 0
        self.pos += 1
        self.taken.append((c, n))
        return c

    def feasible(self, c):
        if z3.is_false(c):
            return False
        self.solver.push()
        self.solver.add(c)
        r = self.solver.check()
        self.solver.pop()
        return r != z3.unsat

    def branch(self, c, note=''):
        c = simp(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pure:
            return self.pure_branch(c)
        if self.pos < len(self.script):
            ch = self.script[self.pos]
            self.pos += 1
            if ch in (2, 3):           # forced
                self.taken.append((ch, 1))
                v = ch == 2
            else:
                self.taken.append((ch, 2))
                v = ch == 0
        else:
            self.pos += 1
            t, f = self.feasible(c), self.feasible(z3.Not(c))
            if t and f:
                self.taken.append((0, 2))
                v = True
            elif t:
                self.taken.append((2, 1))
                v = True
            elif f:
                self.taken.append((3, 1))
                v = False
            else:
                raise Dead()
        self.assume(c if v else z3.Not(c))
        self.trace_notes.append('%s:%d %s' % (self.curfile, self.line, 'taken' if v else 'not taken'))
        return v

    def oblige(self, kind, label, cond, **kw):
        """Something that must hold here; afterwards it is assumed."""
        if self.pure:
            if z3.is_true(simp(cond)):
                return
            if self.pure_obls is not None and self.pscript is not None:
                self.pure_obls.append((kind, label, self.line, z3.Implies(
                    z3.And(*[k if b else z3.Not(k) for k, b in self.pscript['known']]), cond)))
                return
            raise Impure()
        self.obls.append(dict(kind=kind, label=label, cond=cond, pc=list(self.pc), line=self.line,
                              file=self.curfile, cut=self.cut_path, approx=self.approx,
                              path=list(self.trace_notes), **kw))
        if kind in ('safety', 'pre'):
            self.assume(cond)

    def snap(self):
        return Snap(dict(self.store), dict(self.heap), dict(self.ghost))

    def restore(self, s):
        self.store, self.heap, self.ghost = dict(s.store), dict(s.heap), dict(s.ghost)

    # ------------------------------------------------------------------ storage
    def new_slot(self, val, name='tmp'):
        # names do not depend on what other calls did before: loop bookkeeping is shared between paths
        self.nslot += 1
        f = self.frames[-1] if self.frames else None
        cnt = f.names if f else self.topnames
        n = cnt[name] = cnt.get(name, 0) + 1
        k = '%s#%s%d' % (name, f.uid if f else '', n)
        self.slotno[k] = self.nslot
        self.store[k] = val
        return LV(('s', k))

    def heap_arr(self, key, snap=None):
        h = snap.heap if snap else self.heap
        if key not in h:
            arr = self.V.heap_initial(key)
            h[key] = arr
            if not snap:
                pass
            return arr
        return h[key]

    def read(self, lv, snap=None):
        if not isinstance(lv, LV):
            return lv
        r = lv.root
        st = snap.store if snap else self.store
        if r[0] == 's':
            v = st[r[1]]
        elif r[0] == 'h':
            v = z3.Select(self.heap_arr(r[1], snap), r[2])
        elif r[0] == 'v':
            v = r[1]
        else:
            raise Unsupported('root %s' % (r,))
        if isinstance(v, LV) and lv.path:
            return self.read(LV(v.root, v.path + lv.path), snap)
        for s in lv.path:
            v = self.step(v, s)
        if not snap and z3.is_expr(v) and self.S.is_seq(v.sort()) and not self.pure:
            self.note_inv(v)
        return v

    def note_inv(self, v):
        """facts that hold for every value of the sort, stated once per term"""
        k = v.get_id()
        if k in self.inv_cache:
            return
        self.inv_cache.add(k)
        self.V.keep.append(v)
        if self.has_bound(v):
            return
        for c in self.S.sortinv(v):
            c = simp(c)
            self.assume(c)

    def has_bound(self, v):
        return False

    def step(self, v, s):
        if isinstance(v, (Iter, MIter, Closure, Lock, PtrV)):
            raise Unsupported('component of a %s' % type(v).__name__)
        if isinstance(v, ILst):
            v = self.as_term(v, None)
        if s[0] == 'f':
            return self.S.getf(v, s[1])
        if s[0] == 'i':
            return z3.Select(self.S.sarr(v), s[1])
        if s[0] == 'm':
            return z3.Select(self.S.get(v, 1), s[1])
        if s[0] == 't':
            return self.S.get(v, s[1])
        if s[0] == 'p':                 # a part of a dynamically typed value, by name
            if z3.is_app(v) and v.decl().name() == 'any.with_field' and v.arg(1).eq(s[1]):
                return v.arg(2)
            return z3.Function('any.field', v.sort(), self.S.Str, v.sort())(v, s[1])
        if s[0] == 'e':                 # an element of a dynamically typed value
            return z3.Function('any.elem', v.sort(), z3.IntSort(), v.sort())(v, s[1])
        raise Unsupported('path step')

    def put(self, v, path, new):
        if not path:
            return new
        s, rest = path[0], path[1:]
        inner = self.put(self.step(v, s), rest, new)
        if s[0] == 'f':
            return self.S.setf(v, s[1], inner)
        if s[0] == 'i':
            return self.S.seti(v, 1, z3.Store(self.S.sarr(v), s[1], inner))
        if s[0] == 'm':
            return self.S.seti(v, 1, z3.Store(self.S.get(v, 1), s[1], inner))
        if s[0] == 't':
            return self.S.seti(v, s[1], inner)
        if s[0] == 'p':
            t = z3.Function('any.with_field', v.sort(), self.S.Str, v.sort(), v.sort())(v, s[1], inner)
            for facts in self.V.part_facts:
                for x in facts(self, t, v, s[1], inner):
                    self.assume(x)
            return t
        if s[0] == 'e':
            t = z3.Function('any.with_elem', v.sort(), z3.IntSort(), v.sort(), v.sort())(v, s[1], inner)
            for facts in self.V.elem_facts:
                for x in facts(self, t, v, s[1], inner):
                    self.assume(x)
            return t
        raise Unsupported('path step')

    def write(self, lv, val):
        if not isinstance(lv, LV):
            raise Unsupported('assignment to a non-lvalue')
        r = lv.root
        if self.pure and not (r[0] == 's' and self.slotno.get(r[1], 0) > self.pure_mark):
            raise Impure()
        if r[0] == 's':
            cur = self.store[r[1]]
            if isinstance(cur, LV):
                return self.write(LV(cur.root, cur.path + lv.path), val)
            if lv.path:
                val = self.as_term(val, None)
                self.store[r[1]] = self.put(self.as_term(cur, None), lv.path, val)
            else:
                self.store[r[1]] = val
        elif r[0] == 'h':
            arr = self.heap_arr(r[1])
            val = self.as_term(val, None)
            new = self.put(z3.Select(arr, r[2]), lv.path, val)
            self.heap[r[1]] = z3.Store(arr, r[2], new)
        else:
            raise Unsupported('write to a constant')

    def rv(self, v):
        """value of an expression result"""
        n = 0
        while isinstance(v, LV):
            v = self.read(v)
            n += 1
            if n > 20:
                raise Unsupported('reference cycle')
        return v

    def as_term(self, v, t):
        """z3 term for a value, converting python-level values where possible"""
        v = self.rv(v)
        if z3.is_expr(v):
            return v
        if isinstance(v, FunRef) and v.f.get('cls') and not v.f.get('static'):
            return z3.IntVal(self.V.member_pointer(v.f))
        if isinstance(v, FunRef):
            f = z3.Const('fn:' + v.f['id'], self.S.Fn)
            if f.decl().name() not in self.closures:
                self.assume(f != self.S.nullFn)
                for n in [n for n in self.closures if n.startswith('fn:')]:
                    self.assume(f != z3.Const(n, self.S.Fn))
            self.closures[f.decl().name()] = v
            return f
        if isinstance(v, Closure) or isinstance(v, Bound):
            f = self.fresh('closure', self.S.Fn)
            self.assume(f != self.S.nullFn)
            self.closures[f.decl().name()] = v
            return f
        if isinstance(v, PtrV):
            if v.lv is None:
                return z3.IntVal(0)
            return self.addr(v.lv)
        if isinstance(v, ILst):
            return self.S.lit_seq(v.elem, [self.as_term(x, None) for x in v.items])
        raise Unsupported('%s used as a plain value' % type(v).__name__)

    def addr(self, lv):
        """an address for an lvalue, non-null, a function of the lvalue's identity"""
        if lv.root[0] == 'h' and len(lv.path) == 0:
            f = z3.Function('addr:' + lv.root[1], z3.IntSort(), z3.IntSort())
            a = f(lv.root[2])
        else:
            a = z3.Const('addr:%s' % (lv.key(),), z3.IntSort())
        self.assume(a > 0)
        self.V.addrs[str(a)] = lv
        return a

    # ------------------------------------------------------------------ frames
    @property
    def fr(self):
        return self.frames[-1]

    def bind(self, vid, val_or_lv):
        self.fr.vars[vid] = val_or_lv

    def lookup(self, vid, name):
        f = self.fr
        if vid in f.vars:
            return f.vars[vid]
        raise Unsupported('unknown variable %s' % name)

    def register_scope(self, lv, t):
        self.fr.scopes[-1].append((lv, t))

    def leave_scope(self, objs, keep=None):
        for lv, t in reversed(objs):
            if keep is not None and keep.key() == lv.key():
                continue
            self.destroy(lv, t)

    # ------------------------------------------------------------------ functions
    def call_body(self, f, this, args, binds=None, closure=False):
        """Inline the body of f (already evaluated arguments)."""
        if not f.get('body') and not f.get('defaulted'):
            raise Unsupported('no body for ' + f['q'])
        if len(self.frames) > self.MAX_INLINE:
            raise Unsupported('call depth at ' + f['q'])
        if not closure and sum(1 for x in self.frames if x.name == f['id']) > 2:
            raise Unsupported('recursion in ' + f['q'])
        fr = Frame(this, f['id'], f.get('cls'))
        up = self.frames[-1] if self.frames else None
        cnt = up.names if up else self.topnames
        n = cnt['(' + f['id']] = cnt.get('(' + f['id'], 0) + 1
        fr.uid = '%s%s%d/' % (up.uid if up else '', f['n'], n)
        if binds:
            fr.vars.update(binds)
        for prm, a in zip(f['params'], args):
            fr.vars[prm['id']] = self.param(prm, a)
        self.frames.append(fr)
        sline, sfile = self.line, self.curfile
        self.curfile = f.get('file', '').split('/')[-1]
        self.V.inlined.add(f['q'])
        ret = None
        try:
            if f.get('ctor'):
                if f.get('defaulted') and f['ctor'] == 'default' and not f.get('inits'):
                    for c, n, ft, init in self.p.fields(f['cls']):
                        self.init_field(this, c, n, ft, init)
                self.ctor_inits(f, this)
            if f.get('body'):
                try:
                    self.exec(f['body'])
                except Ret as r:
                    ret = r.v
                except (Brk, Cont):
                    raise Unsupported('stray break')
            self.leave_scope(fr.scopes[0])
            if f.get('dtor') and this is not None:
                self.destroy_members(this, f['cls'])
        except Thr:
            self.leave_scope(fr.scopes[0])
            raise
        finally:
            self.frames.pop()
            self.line, self.curfile = sline, sfile
        return ret

    def param(self, prm, a):
        if self.p.isref(prm['t']):
            if isinstance(a, LV):
                return a
            return self.new_slot(a, prm['n'] or 'arg')
        return self.new_slot(self.coerce(a, prm['t']), prm['n'] or 'arg')

    def coerce(self, v, t):
        """value of type t from v (closures become std::function terms)"""
        v = self.rv(v)
        ti = self.p.ty(self.p.norm(t))
        if ti['k'] == 'record':
            tm = ti.get('tmpl')
            if tm == 'std::function' and not z3.is_expr(v):
                return self.as_term(v, t)
            if isinstance(v, ILst):
                return self.from_ilst(v, t)
        return v

    def from_ilst(self, v, t):
        ti = self.p.ty(self.p.norm(t))
        tm = ti.get('tmpl')
        if tm in SEQ_T:
            e = self.S.sort(ti['args'][0])
            return self.S.lit_seq(e, [self.as_term(self.coerce(x, ti['args'][0]), None) for x in v.items])
        if tm in MAP_T or tm in SET_T:
            return self.map_from_items(t, v.items)
        return v

    def map_from_items(self, t, items):
        ti = self.p.ty(self.p.norm(t))
        s = self.S.sort(t)
        ks = s.accessor(0, 0).range().domain()
        vs = s.accessor(0, 1).range().range()
        dom = z3.K(ks, z3.BoolVal(False))
        val = z3.Const('nilmap:' + s.name(), z3.ArraySort(ks, vs))
        seen = []
        for it in items:
            it = self.as_term(it, None)
            if ti['tmpl'] in SET_T:
                k, v = it, z3.BoolVal(True)
            else:
                k, v = self.S.get(it, 0), self.S.get(it, 1)
            # insertion keeps the first of two equal keys
            fresh = simp(z3.Not(z3.Select(dom, k)))
            if z3.is_true(fresh):
                val = z3.Store(val, k, v)
            else:
                val = z3.If(fresh, z3.Store(val, k, v), val)
            dom = z3.Store(dom, k, z3.BoolVal(True))
            seen.append(k)
        return s.constructor(0)(dom, val)

    # ------------------------------------------------------------------ objects
    def default_value(self, t, name='v'):
        """value-initialised object of type t"""
        ti = self.p.ty(self.p.norm(t))
        k = ti['k']
        if k in ('int', 'enum'):
            return z3.IntVal(0)
        if k == 'bool':
            return z3.BoolVal(False)
        if k == 'float':
            return z3.FPVal(0.0, self.S.sort(t))
        if k in ('ptr', 'nullptr'):
            if k == 'ptr' and self.S.sort(t) == self.S.Fn:
                return self.S.nullFn
            return z3.IntVal(0)
        if k == 'array':
            return self.fresh(name, self.S.sort(t))
        if k == 'record':
            tm = ti.get('tmpl')
            s = self.S.sort(t)
            if s == self.S.Str:
                return self.S.lit('')
            if tm in SEQ_T:
                return self.S.lit_seq(self.S.sort(ti['args'][0]), [])
            if tm in MAP_T or tm in SET_T:
                return self.map_from_items(t, [])
            if tm == 'std::function':
                return self.S.nullFn
            if tm in PTR_T:
                return z3.IntVal(0)
            if tm in ('std::pair', 'std::tuple'):
                return s.constructor(0)(*[self.as_term(self.default_value(x), None) for x in ti['args']])
            if tm in ATOMIC_T:
                return self.default_value(ti['args'][0]) if ti.get('args') else z3.BoolVal(False)
            if self.S.is_value_record(ti['name']):
                return self.construct(t, None, [], {'n': 'default'})
            h = self.V.models.default_opaque(self, ti['name'], tm)
            if h is not None:
                return h
            return self.fresh(name, s)
        raise Unsupported('default value of ' + str(t))

    def construct(self, t, fobj, args, node):
        """object of repo record type t by its constructor; returns the value"""
        name = self.p.norm(t)
        if self.S.is_entity(name):
            ref = self.alloc(name)
            this = ref
            self.run_ctor(name, fobj, this, args)
            return ref
        slot = self.new_slot(self.fresh('obj:' + name.split('::')[-1], self.S.sort(t)), 'obj')
        self.run_ctor(name, fobj, PtrV(slot), args)
        return self.read(slot)

    def alloc(self, name):
        r = self.fresh('new:' + name.split('::')[-1], z3.IntSort())
        self.assume(r > 0)
        fr = self.ghost.get('alloc')
        # freshness: the new reference is none of the earlier ones
        a = self.V.ghost_initial(self, 'alloc')
        self.assume(z3.Not(z3.Select(a, r)))
        self.ghost['alloc'] = z3.Store(a, r, z3.BoolVal(True))
        dyn = z3.Function('dyntype', z3.IntSort(), z3.IntSort())
        self.assume(dyn(r) == self.V.class_id(name))
        return r

    def run_ctor(self, name, fobj, this, args):
        f = None
        if fobj is not None:
            c = self.V.contract_for(fobj['q'], fobj, args)
            if c is not None and not self.V.is_self(fobj):
                self.apply_contract(c, fobj, this, args)
                return
            f = self.p.funcs.get(fobj['id'])
        if f is None:
            # implicit default constructor (or one found by class)
            if fobj is None:
                for g in self.p.funcs.values():
                    if g.get('cls') == name and g.get('ctor') == 'default':
                        c = self.V.contract_for(g['q'], dict(g, params=[p['t'] for p in g['params']]), [])
                        if c is not None:
                            return self.apply_contract(c, g, this, [])
                        f = g
                        break
            if f is None and (fobj is None or not fobj.get('params')):
                for c, n, ft, init in self.p.fields(name):
                    self.init_field(this, c, n, ft, init)
                return
            if f is None:
                raise Unsupported('constructor ' + fobj['id'])
        if f.get('defaulted') and f.get('ctor') in ('copy', 'move') and not f.get('inits'):
            raise Unsupported('defaulted constructor ' + f['id'])
        self.ctor_this.append(this)
        try:
            self.call_body(f, this, args)
        finally:
            self.ctor_this.pop()

    def field_lv(self, this, cls, fname):
        if isinstance(this, PtrV):
            if this.lv is None:
                self.oblige('safety', 'null pointer dereference', z3.BoolVal(False))
                raise Dead()
            return LV(this.lv.root, this.lv.path + (('f', '%s::%s' % (cls, fname)),))
        return LV(('h', '%s::%s' % (cls, fname), this))

    def init_field(self, this, c, n, ft, init):
        lv = self.field_lv(this, c, n)
        self.V.heap_types['%s::%s' % (c, n)] = ft
        if init is not None:
            v = self.eval_init(init, ft)
        else:
            k = self.p.ty(self.p.norm(ft))['k']
            if k in ('int', 'bool', 'enum', 'float', 'ptr', 'array'):
                return   # indeterminate
            v = self.default_value(ft)
        self.write(lv, self.as_term(v, ft))

    def ctor_inits(self, f, this):
        for i in f.get('inits', []):
            if 'f' in i:
                ft = None
                for c, n, t, _ in self.p.fields(f['cls']):
                    if n == i['f'] and c == f['cls']:
                        ft = t
                if i['e'] is None:
                    self.init_field(this, f['cls'], i['f'], ft, None)
                else:
                    self.V.heap_types['%s::%s' % (f['cls'], i['f'])] = ft
                    if self.p.isref(ft):
                        v = self.eval(i['e'])
                        if not isinstance(v, LV):
                            v = self.new_slot(v)
                        self.write(self.field_lv(this, f['cls'], i['f']), self.addr_of_any(v))
                        continue
                    v = self.eval_init(i['e'], ft)
                    self.write(self.field_lv(this, f['cls'], i['f']), self.as_term(v, ft))
            elif 'base' in i:
                e = i['e']
                bn = self.p.norm(i['base'])
                if e and e['k'] == 'Construct':
                    args = [self.eval(a) for a in e['args']]
                    r = self.p.records.get(bn)
                    if r and r.get('repo'):
                        if e['ck'] in ('copy', 'move') and not self.has_user_body(e['f']):
                            raise Unsupported('base copy')
                        self.run_ctor(bn, e['f'], this, args)
                elif e and e['k'] == 'Zero':
                    pass
            else:
                e = i['e']
                self.run_ctor(f['cls'], e['f'], this, [self.eval(a) for a in e['args']])

    def addr_of_any(self, lv):
        v = None
        if isinstance(lv, LV):
            v = self.read(lv)
            return self.addr(lv)
        return self.as_term(lv, None)

    def has_user_body(self, fobj):
        f = self.p.funcs.get(fobj['id'])
        return bool(f and f.get('body') and not f.get('defaulted'))

    def needs_destroy(self, t):
        ti = self.p.ty(self.p.norm(t))
        if ti['k'] != 'record':
            return False
        tm = ti.get('tmpl')
        if tm in LOCK_T:
            return True
        if tm in PTR_T and self.V.track_delete:
            return True
        if self.S.is_value_record(ti['name']):
            return self.dtor_matters(ti['name'])
        return False

    def dtor_matters(self, name, seen=()):
        key = ('dtor', name)
        if key in self.V.memo:
            return self.V.memo[key]
        r = False
        for g in self.p.funcs.values():
            if g.get('cls') == name and g.get('dtor') and g.get('body') and not g.get('defaulted'):
                if g['body'].get('b'):
                    r = True
        if not r and self.V.contract_q(name + '::~' + name.split('::')[-1]):
            r = True
        if not r:
            for c, n, t, _ in self.p.fields(name):
                if not self.p.isref(t) and self.p.norm(t) != name and self.needs_destroy(t):
                    r = True
        self.V.memo[key] = r
        return r

    def destroy(self, lv, t):
        ti = self.p.ty(self.p.norm(t))
        tm = ti.get('tmpl')
        if tm in LOCK_T:
            lk = self.rv(lv)
            if isinstance(lk, Lock) and lk.held:
                self.release(lk)
            return
        if tm in PTR_T:
            self.V.models.delete_owned(self, self.rv(lv), ti)
            return
        name = ti['name']
        if not self.dtor_matters(name):
            return
        for g in self.p.funcs.values():
            if g.get('cls') == name and g.get('dtor') and g.get('body'):
                fo = dict(g, params=[])
                c = self.V.contract_for(g['q'], fo, [])
                if c is not None and not self.V.is_self(fo):
                    self.apply_contract(c, fo, PtrV(lv), [])
                else:
                    self.call_body(g, PtrV(lv), [])
                return
        self.destroy_members(PtrV(lv), name)

    def destroy_members(self, this, name):
        if not isinstance(this, PtrV):
            if self.V.track_delete:
                pass
            else:
                return
        for c, n, t, _ in reversed(self.p.fields(name)):
            if c == name and not self.p.isref(t) and self.needs_destroy(t):
                self.destroy(self.field_lv(this, c, n), t)

    # ------------------------------------------------------------------ monitors
    def mutex_key(self, lv):
        return str(lv.key())

    def acquire(self, lv, loc=''):
        if self.pure:
            raise Impure()
        k = self.mutex_key(lv)
        if k in self.locks and not self.V.recursive_ok(lv):
            self.oblige('safety', 'mutex locked twice by the same thread', z3.BoolVal(False))
            raise Dead()
        self.locks[k] = lv
        self.nlock += 1
        self.lockno[k] = self.nlock
        self.V.on_acquire(self, lv)

    def release_mutex(self, lv):
        k = self.mutex_key(lv)
        if k not in self.locks:
            self.oblige('safety', 'mutex unlocked without holding it', z3.BoolVal(False))
            raise Dead()
        self.V.on_release(self, lv)
        del self.locks[k]

    def release(self, lk):
        for m in reversed(lk.mutexes):
            self.release_mutex(m)
        lk.held = False

    # ------------------------------------------------------------------ events
    def event(self, tag, fn=None, obj=None, args=()):
        if self.pure:
            raise Impure()
        a = list(args) + [None] * (3 - len(args))
        boxed, vals = [], []
        for x in a[:3]:
            if x is None:
                boxed.append(self.S.noval)
            else:
                try:
                    vals.append(self.as_term(x, None))
                    boxed.append(self.S.box(vals[-1]))
                except Unsupported:
                    boxed.append(self.S.noval)
                    vals.append(None)
        ev = self.S.Event.constructor(0)(z3.IntVal(tag), fn if fn is not None else self.S.nullFn,
                                         obj if z3.is_expr(obj) else z3.IntVal(0), *boxed,
                                         z3.IntVal(len(self.locks)))
        tr = self.V.ghost_initial(self, 'trace')
        n = self.S.slen(tr)
        self.ghost['trace'] = self.S.mkseq(self.S.Event, simp(n + 1), z3.Store(self.S.sarr(tr), n, ev))
        ent = dict(tag=tag, fn=fn, obj=obj, args=[x for x in a if x is not None], vals=vals, snap=self.snap(), ret=None,
                   locks=len(self.locks),
                   held={str(lv.path[-1][1] if lv.path else lv.root[1]): self.lockno[k] for k, lv in self.locks.items()})
        self.log.append(ent)
        return ent

    # ------------------------------------------------------------------ contracts
    def apply_contract(self, c, fobj, this, args, node=None):
        if self.pure and not c.is_pure:
            raise Impure()
        return self.V.apply(self, c, fobj, this, args, node)

    # ------------------------------------------------------------------ statements
    def exec(self, s):
        if s is None:
            return
        self.line = s.get('l', self.line)
        getattr(self, 'st_' + s['k'])(s)

    def full(self, fn):
        """evaluate a full expression, then destroy its temporaries"""
        saved = self.fr.temps
        self.fr.temps = []
        try:
            r = fn()
            t = self.fr.temps
            if t and isinstance(r, LV):
                pass
            return r
        finally:
            t, self.fr.temps = self.fr.temps, saved
            for lv, ty in reversed(t):
                self.destroy(lv, ty)

    def st_Expr(self, s):
        def go():
            v = self.eval(s['e'])
            e = s['e']
            if e['k'] == 'Construct' and self.needs_destroy(e['t']) and not isinstance(v, LV):
                self.fr.temps.append((self.new_slot(v), e['t']))
            elif e['k'] in ('Call', 'MCall', 'OpCall') and not self.p.isref(self.callret(e)) \
                    and self.needs_destroy(e['t']) and not isinstance(v, LV) and v is not None:
                self.fr.temps.append((self.new_slot(v), e['t']))
        self.full(go)

    def callret(self, e):
        f = e.get('f')
        return f['ret'] if f else e['t']

    def st_Nop(self, s):
        pass

    def st_Block(self, s):
        self.fr.scopes.append([])
        try:
            for x in s['b']:
                self.exec(x)
        except (Ret, Brk, Cont, Thr) as ex:
            objs = self.fr.scopes.pop()
            self.leave_scope(objs)
            raise
        else:
            self.leave_scope(self.fr.scopes.pop())

    def st_Decl(self, s):
        for d in s['d']:
            self.decl(d)

    def decl(self, d):
        t = d['t']
        if d.get('static'):
            self.bind(d['id'], self.V.static_local(self, d))
            return
        if d.get('bindings'):
            v = self.full_keep(lambda: self.eval(d['init'])) if d.get('init') else None
            lv = v if (isinstance(v, LV) and self.p.isref(t)) else self.new_slot(self.rv(v), 'dec')
            n = len(d['bindings'])
            val = self.rv(lv)
            if not z3.is_expr(val):
                raise Unsupported('structured binding of %s' % type(val).__name__)
            for i, b in enumerate(d['bindings']):
                self.bind(b['id'], LV(lv.root, lv.path + (('t', i),)))
            return
        if self.p.isref(t):
            v = self.full_keep(lambda: self.eval(d['init']))
            if not isinstance(v, LV):
                v = self.new_slot(v, d['n'])
                if self.needs_destroy(t):
                    self.register_scope(v, self.p.noref(t))
            self.bind(d['id'], v)
            return
        if d.get('init') is not None:
            v = self.full(lambda: self.eval_init(d['init'], t))
            v = self.coerce(v, t)
        else:
            ti = self.p.ty(self.p.norm(t))
            if ti['k'] in ('int', 'bool', 'enum', 'float', 'ptr'):
                v = self.fresh(d['n'], self.S.sort(t))
                for c in self.S.typeinv(t, v):
                    self.assume(c)
            else:
                v = self.default_value(t, d['n'])
        lv = self.new_slot(v, d['n'])
        self.V.slot_types[lv.root[1]] = (t, d['n'])
        self.bind(d['id'], lv)
        if self.needs_destroy(t):
            self.register_scope(lv, t)

    def full_keep(self, fn):
        """like full, but temporaries live on in the enclosing scope (bound to a reference)"""
        saved = self.fr.temps
        self.fr.temps = []
        try:
            return fn()
        finally:
            for x in self.fr.temps:
                self.fr.scopes[-1].append(x)
            self.fr.temps = saved

    def st_If(self, s):
        self.fr.scopes.append([])
        try:
            if s.get('init'):
                self.exec(s['init'])
            if s.get('var'):
                self.decl(s['var'])
            c = self.full(lambda: self.cond(s['c']))
            if self.branch(c):
                self.exec(s['a'])
            elif s.get('b'):
                self.exec(s['b'])
        except (Ret, Brk, Cont, Thr):
            self.leave_scope(self.fr.scopes.pop())
            raise
        else:
            self.leave_scope(self.fr.scopes.pop())

    def st_Return(self, s):
        v = None
        if s.get('e') is not None:
            v = self.full(lambda: self.ret_value(s['e']))
        raise Ret(v)

    def ret_value(self, e):
        v = self.eval(e)
        ret = self.V.frame_ret(self)
        if ret and self.p.isref(ret):
            return v
        if ret and self.p.ty(ret)['k'] == 'void':
            return None
        v = self.coerce(v, ret) if ret else self.rv(v)
        if isinstance(v, ILst) and ret:
            v = self.from_ilst(v, ret)
        return v

    def st_Break(self, s):
        raise Brk()

    def st_Continue(self, s):
        raise Cont()

    def st_Case(self, s):
        self.exec(s['s'])

    def st_Default(self, s):
        self.exec(s['s'])

    def st_Switch(self, s):
        self.fr.scopes.append([])
        try:
            if s.get('init'):
                self.exec(s['init'])
            if s.get('var'):
                self.decl(s['var'])
            v = self.rv(self.full(lambda: self.eval(s['c'])))
            body = s['b']['b'] if s['b']['k'] == 'Block' else [s['b']]
            # flatten case labels
            flat = []
            for x in body:
                labels = []
                while x is not None and x['k'] in ('Case', 'Default'):
                    labels.append(x.get('v') if x['k'] == 'Case' else 'default')
                    x = x['s']
                flat.append((labels, x))
            start = None
            for i, (labels, x) in enumerate(flat):
                for lab in labels:
                    if lab != 'default' and start is None and self.branch(v == lab):
                        start = i
            if start is None:
                for i, (labels, x) in enumerate(flat):
                    if 'default' in labels:
                        start = i
            if start is not None:
                try:
                    self.fr.scopes.append([])
                    try:
                        for labels, x in flat[start:]:
                            self.exec(x)
                    finally:
                        objs = self.fr.scopes.pop()
                        self.leave_scope(objs)
                except Brk:
                    pass
        except (Ret, Cont, Thr):
            self.leave_scope(self.fr.scopes.pop())
            raise
        else:
            self.leave_scope(self.fr.scopes.pop())

    def st_Try(self, s):
        locks = dict(self.locks)
        nfr = len(self.frames)
        nsc = len(self.fr.scopes)
        try:
            self.exec(s['b'])
        except Thr as ex:
            assert len(self.frames) == nfr and len(self.fr.scopes) == nsc
            for h in s['h']:
                if h.get('t') is None or self.catches(h['t'], ex.cls):
                    self.fr.scopes.append([])
                    old = getattr(self, 'current_exc', None)
                    self.current_exc = ex
                    try:
                        if h.get('var'):
                            self.bind(h['var']['id'], self.new_slot(ex.v, h['var']['n']))
                        self.exec(h['b'])
                    except (Ret, Brk, Cont, Thr):
                        self.leave_scope(self.fr.scopes.pop())
                        raise
                    else:
                        self.leave_scope(self.fr.scopes.pop())
                    finally:
                        self.current_exc = old
                    return
            raise

    def catches(self, t, cls):
        want = self.p.norm(t)
        if want in self.p.bases(cls):
            return True
        if cls == 'unknown exception':
            # something derived from std::exception
            if want == 'std::exception':
                return True
            return bool(self.choose(2)) if not self.pure else False
        # library exceptions (stub classes) are all derived from std::exception
        if want == 'std::exception' and (cls.startswith('std::') or cls.startswith('sup::')):
            return True
        return False

    # ---- loops
    def st_RFor(self, s):
        self.fr.scopes.append([])
        try:
            rng = self.full_keep(lambda: self.eval(s['range']))
            if not isinstance(rng, LV):
                rng = self.new_slot(self.coerce(rng, s['rt']), 'range')
            val = self.rv(rng)
            if isinstance(val, ILst):
                val = self.as_term(val, None)
                rng = self.new_slot(val, 'range')
            if z3.is_expr(val) and self.S.is_map(val.sort()):
                seqlv = self.V.models.enum_map(self, rng, s['rt'])
                self.range_loop(s, seqlv, rng)
            elif z3.is_expr(val) and self.S.is_seq(val.sort()):
                self.range_loop(s, rng, None)
            elif z3.is_expr(val) and val.sort() == self.S.Str:
                raise Unsupported('loop over the characters of a string')
            else:
                rec = self.p.tmpl(s['rt'])
                raise Unsupported('range loop over ' + rec)
        except (Ret, Brk, Cont, Thr):
            self.leave_scope(self.fr.scopes.pop())
            raise
        else:
            self.leave_scope(self.fr.scopes.pop())

    def each_loop(self, s, rng, mapped, fn, lo=None, hi=None):
        """fn(element) for the elements of a sequence, or of a map whose keys are given, in order"""
        k = self.new_slot(z3.IntVal(0) if lo is None else lo, '#k')

        def head():
            return self.rv(k) < (self.S.slen(self.rv(rng)) if hi is None else hi)

        def body():
            i = self.rv(k)
            fn(LV(rng.root, rng.path + (('i', i),)) if mapped is None else self.V.models.map_elem(self, rng, mapped, i))

        def inc():
            self.write(k, simp(self.rv(k) + 1))
        self.loop(s, head, body, inc, k=k, rng=rng)

    def range_loop(self, s, rng, mapped):
        k = self.new_slot(z3.IntVal(0), '#k')

        def head():
            return self.rv(k) < self.S.slen(self.rv(rng))

        def body():
            v = s['var']
            self.fr.scopes.append([])
            i = self.rv(k)
            elv = LV(rng.root, rng.path + (('i', i),))
            if mapped is not None:
                # element of a map: pair (key, value); reading only
                elv = self.V.models.map_elem(self, rng, mapped, i)
            try:
                if v.get('bindings'):
                    base = elv if self.p.isref(v['t']) else self.new_slot(self.rv(elv), 'dec')
                    for n, b in enumerate(v['bindings']):
                        self.bind(b['id'], LV(base.root, base.path + (('t', n),)))
                elif self.p.isref(v['t']):
                    self.bind(v['id'], elv)
                else:
                    val = self.rv(elv)
                    for c in self.S.typeinv(v['t'], val) if z3.is_expr(val) else []:
                        self.assume(c)
                    self.bind(v['id'], self.new_slot(val, v['n']))
                self.exec(s['b'])
            except (Ret, Brk, Cont, Thr):
                self.leave_scope(self.fr.scopes.pop())
                raise
            else:
                self.leave_scope(self.fr.scopes.pop())

        def inc():
            self.write(k, simp(self.rv(k) + 1))

        self.loop(s, head, body, inc, k=k, rng=rng)

    def st_For(self, s):
        self.fr.scopes.append([])
        try:
            if s.get('init'):
                self.exec(s['init'])
            self.loop(s, lambda: self.cond(s['c']) if s.get('c') else z3.BoolVal(True),
                      lambda: self.exec(s['b']),
                      lambda: self.full(lambda: self.eval(s['inc'])) if s.get('inc') else None)
        except (Ret, Brk, Cont, Thr):
            self.leave_scope(self.fr.scopes.pop())
            raise
        else:
            self.leave_scope(self.fr.scopes.pop())

    def st_While(self, s):
        if s.get('var'):
            raise Unsupported('declaration in a while condition')
        self.loop(s, lambda: self.cond(s['c']), lambda: self.exec(s['b']), lambda: None)

    def st_Do(self, s):
        first = self.new_slot(z3.BoolVal(True), '#first')

        def head():
            if z3.is_true(self.rv(first)):
                return z3.BoolVal(True)
            return self.cond(s['c'])

        def inc():
            self.write(first, z3.BoolVal(False))

        # the first iteration is peeled
        try:
            self.exec(s['b'])
        except Brk:
            return
        except Cont:
            pass
        inc()
        self.loop(s, head, lambda: self.exec(s['b']), lambda: None)

    def loop(self, s, head, body, inc, k=None, rng=None):
        """Concrete unrolling while the condition is a constant, then a cut by invariants."""
        n = 0
        scopes = len(self.fr.scopes)
        while True:
            c = simp(self.full(lambda: head()))
            if z3.is_false(c):
                return
            if not z3.is_true(c) or n > 40 or not self.V.con.peel:
                break
            n += 1
            try:
                body()
            except Brk:
                return
            except Cont:
                pass
            inc()
        if self.V.unroll is not None:
            return self.loop_unrolled(c, head, body, inc)
        self.V.cut_loop(self, s, head, body, inc, k, rng)

    def loop_unrolled(self, c, head, body, inc):
        for i in range(self.V.unroll + 1):
            if i:
                c = self.full(lambda: head())
            if not self.branch(c):
                return
            try:
                body()
            except Brk:
                return
            except Cont:
                pass
            inc()
        raise Dead()     # beyond the bound

    # ------------------------------------------------------------------ expressions
    def eval(self, e):
        if e is None:
            return None
        self.line = e.get('l', self.line)
        m = getattr(self, 'ev_' + e['k'], None)
        if m is None:
            raise Unsupported('expression ' + e['k'])
        return m(e)

    def eval_init(self, e, t):
        v = self.eval(e)
        if self.p.isref(t):
            return v
        v = self.rv(v)
        if isinstance(v, ILst):
            v = self.from_ilst(v, t)
        return self.coerce(v, t)

    def cond(self, e):
        v = self.rv(self.eval(e))
        if not z3.is_expr(v):
            if isinstance(v, PtrV):
                return z3.BoolVal(v.lv is not None)
            raise Unsupported('condition of kind %s' % type(v).__name__)
        return self.truth(v)

    def truth(self, v):
        s = v.sort()
        if s == z3.BoolSort():
            return v
        if s == z3.IntSort():
            return v != 0
        if s == self.S.Fn:
            return v != self.S.nullFn
        raise Unsupported('truth value of %s' % s)

    def ev_Int(self, e):
        return z3.IntVal(int(e['v']))

    def ev_Bool(self, e):
        return z3.BoolVal(e['v'])

    def ev_Float(self, e):
        return z3.FPVal(float(e['v']), self.S.sort(e['t']))

    def ev_Str(self, e):
        return self.S.lit(e['v'])

    def ev_Null(self, e):
        return z3.IntVal(0)

    def ev_Enum(self, e):
        return z3.IntVal(e['v'])

    def ev_Fun(self, e):
        return FunRef(e['f'])

    def ev_Var(self, e):
        return self.lookup(e['id'], e['n'])

    def ev_Global(self, e):
        return self.V.global_lv(self, e)

    def ev_This(self, e):
        return self.fr.this

    def ev_Temp(self, e):
        v = self.eval(e['e'])
        if isinstance(v, LV):
            return v
        lv = self.new_slot(self.coerce(v, e['t']), 'temp')
        if self.needs_destroy(e['t']):
            self.fr.temps.append((lv, e['t']))
        return lv

    def ev_Member(self, e):
        key = '%s::%s' % (e['cls'], e['f'])
        self.V.heap_types.setdefault(key, e['ft'])
        b = self.eval(e['base'])
        if e['arrow']:
            b = self.rv(b)
            if isinstance(b, PtrV):
                if b.lv is None:
                    self.oblige('safety', 'null pointer dereference', z3.BoolVal(False))
                    raise Dead()
                lv = self.member_path(b.lv, e, key)
            elif z3.is_expr(b) and b.sort() == z3.IntSort():
                self.nonnull(b)
                lv = self.deref_field(b, key, e['cls'])
            else:
                raise Unsupported('member of %s' % type(b).__name__)
        else:
            if isinstance(b, LV):
                cur = None
                if self.S.is_entity(self.p.norm(e['base']['t'])) or self.entity_value(b):
                    r = self.rv(b)
                    lv = LV(('h', key, r))
                else:
                    lv = self.member_path(b, e, key)
            elif z3.is_expr(b) and b.sort() == z3.IntSort():
                lv = LV(('h', key, b))
            else:
                lv = self.member_path(self.new_slot(b), e, key)
        self.V.check_guard(self, lv, e)
        if self.p.isref(e['ft']):
            # reference member: holds an address
            a = self.rv(lv)
            return self.deref_addr(a, self.p.noref(e['ft']))
        return lv

    def entity_value(self, b):
        return False

    def member_path(self, b, e, key):
        tm = self.p.tmpl(e['base']['t'])
        if tm in ('std::pair', 'std::tuple') or e['cls'].startswith('std::pair<'):
            i = {'first': 0, 'second': 1}[e['f']]
            return LV(b.root, b.path + (('t', i),))
        return LV(b.root, b.path + (('f', key),))

    def deref_field(self, ref, key, cls):
        """field of the object a (term) pointer points at"""
        if self.S.is_entity(cls) or not self.S.is_value_record(cls):
            return LV(('h', key, ref))
        # value record behind a pointer: may be an object whose address was taken
        lv = self.V.addrs.get(str(ref))
        if lv is not None:
            return LV(lv.root, lv.path + (('f', key),))
        return LV(('h', '*' + cls, ref), (('f', key),))

    def deref_addr(self, a, t):
        lv = self.V.addrs.get(str(a)) if z3.is_expr(a) else None
        if lv is not None:
            return lv
        name = self.p.norm(t)
        if self.S.is_entity(name):
            return a
        self.V.heap_types['*' + name] = t
        return LV(('h', '*' + name, a))

    def nonnull(self, b):
        c = simp(b != 0)
        if z3.is_true(c):
            return
        if self.pure and (any(k.eq(b > 0) or k.eq(c) for k in self.pc) or self.pure_known(c)):
            return
        self.oblige('safety', 'null pointer dereference', c)

    def pure_known(self, c):
        """whether a condition on the element a predicate looks at follows from what is known of its range"""
        facts = getattr(self, 'pure_facts', None)
        if not facts:
            return False
        s = z3.Solver()
        s.set('rlimit', 4000000)
        s.set('timeout', 5000)
        s.add(*self.pc, *facts, z3.Not(c))
        return s.check() == z3.unsat

    # ---- calls
    def ev_Call(self, e):
        f = e.get('f')
        if f is None:
            fe = self.rv(self.eval(e['fe']))
            return self.call_value(fe, [self.eval(a) for a in e['args']], e)
        args = [self.eval(a) for a in e['args']]
        return self.call(f, None, args, e)

    def ev_MCall(self, e):
        obj = self.eval(e['obj'])
        args = [self.eval(a) for a in e['args']]
        return self.mcall(e['f'], obj, e['arrow'], args, e)

    def mcall(self, f, obj, arrow, args, e):
        return self.call(f, (obj, arrow), args, e)

    def ev_OpCall(self, e):
        f = e.get('f')
        op = e['op']
        if f is None:
            raise Unsupported('operator ' + op)
        if f.get('cls') and not f.get('static'):
            obj = self.eval(e['args'][0])
            args = [self.eval(a) for a in e['args'][1:]]
            return self.call(f, (obj, False), args, e)
        args = [self.eval(a) for a in e['args']]
        return self.call(f, None, args, e)

    def ev_PtrMCall(self, e):
        obj = self.eval(e['obj'])
        fp = self.eval(e['fp'])
        args = [self.eval(a) for a in e['args']]
        if isinstance(fp, FunRef):
            return self.call(fp.f, (obj, e['arrow']), args, e)
        fp = self.as_term(fp, None)
        for i, f in self.V.member_pointers():
            if self.branch(fp == i):
                return self.call(f, (obj, e['arrow']), args, e)
        self.oblige('safety', 'call through a member pointer that points to no function', z3.BoolVal(False))
        raise Dead()

    def this_of(self, obj, arrow, cls):
        """the implicit object argument as `this`"""
        v = self.rv(obj) if arrow else obj
        if arrow:
            if isinstance(v, PtrV):
                if v.lv is None:
                    self.oblige('safety', 'null pointer dereference', z3.BoolVal(False))
                    raise Dead()
                return v
            if z3.is_expr(v) and v.sort() == z3.IntSort():
                lv = self.V.addrs.get(str(v))
                if lv is not None and not self.S.is_entity(cls):
                    return PtrV(lv)
                self.nonnull(v)
                if self.S.is_value_record(cls) or (cls.startswith(self.V.DEPENDENCY) and not self.S.is_entity(cls)):
                    self.V.heap_types['*' + cls] = cls
                    return PtrV(LV(('h', '*' + cls, v)))
                return v
            raise Unsupported('arrow on %s' % type(v).__name__)
        if isinstance(v, LV):
            if self.S.is_entity(cls):
                return self.rv(v)
            return PtrV(v)
        if z3.is_expr(v) and v.sort() == z3.IntSort() and (self.S.is_entity(cls) or not self.S.is_value_record(cls)):
            return v
        return PtrV(self.new_slot(v, 'tmpobj'))

    def call(self, f, objinfo, args, e):
        cls = f.get('cls')
        tm = None
        if cls:
            r = self.p.records.get(cls)
            tm = (r or {}).get('tmpl') or cls
        if f.get('noreturn'):
            pass
        # 1. closures
        if objinfo is not None and f['n'] == 'operator()':
            v = self.rv(objinfo[0])
            if isinstance(v, (Closure, FunRef, Bound)):
                return self.call_value(v, args, e, f)
        if objinfo is not None and cls == '(lambda)' and f['n'].startswith('operator') and not args:
            v = self.rv(objinfo[0])
            if isinstance(v, Closure):
                return v   # conversion to a function pointer
        # 2. library model
        h = self.V.models.find(f, tm, self)
        if h is not None:
            return h(self, e, f, objinfo, args)
        repo_cls = cls is None or self.p.records.get(cls, {}).get('repo')
        # 3. special members of value records
        if objinfo is not None and f['n'] == 'operator=' and repo_cls and not self.has_user_body(f):
            this = self.this_of(objinfo[0], objinfo[1], cls)
            if isinstance(this, PtrV):
                self.write(this.lv, self.rv(args[0]))
                return this.lv
        # 4. contracts
        this = None
        if objinfo is not None:
            this = self.this_of(objinfo[0], objinfo[1], cls) if not f.get('static') else None
        c = self.V.contract_for(f['q'], f, args)
        if c is not None and not (self.V.is_self(f) and c.inline_self):
            return self.apply_contract(c, f, this, args, e)
        if f['q'] in self.V.PURE or (cls and self.p.records.get(cls, {}).get('repo') is None and False):
            return self.V.pure_dependency(self, f, this, args)
        if f['n'] == 'operator=' and isinstance(this, PtrV) and cls and cls.startswith(self.V.DEPENDENCY + ('std::future',)):
            self.V.models.used.add('%s: assignment stores the value and does not throw' % cls)
            self.write(this.lv, self.rv(args[0]))
            return this.lv
        # 5. inlining
        if f.get('virtual') and not (e and e.get('direct')) and not self.V.devirtual(self, f, this):
            raise Unsupported('virtual call without contract: ' + f['q'])
        g = self.p.funcs.get(f['id'])
        if g is None or not (g.get('body') or g.get('defaulted')):
            raise Unsupported('call of unknown function ' + f['id'])
        return self.call_body(g, this, args)

    def call_value(self, v, args, e, f=None):
        """call of a function value"""
        v = self.rv(v)
        if z3.is_expr(v) and v.sort() == self.S.Fn:
            name = v.decl().name() if z3.is_const(v) else None
            if name in self.closures:
                return self.call_value(self.closures[name], args, e, f)
            if name is None:
                # one of several known functions, as read from a table
                for g in self.known_functions(v):
                    if self.branch(v == g):
                        return self.call_value(self.closures[g.decl().name()], args, e, f)
            return self.V.call_unknown(self, v, args, e, f)
        if isinstance(v, Closure):
            fn = v.node.get('op')
            if fn is None:
                want = f['id'] if f else None
                fn = None
                for o in v.node.get('ops', []):
                    if want and o['id'].split('#')[0] == want.split('#')[0]:
                        fn = o
                if fn is None and len(v.node.get('ops', [])) == 1:
                    fn = v.node['ops'][0]
                if fn is None:
                    raise Unsupported('generic lambda')
            return self.call_body(fn, v.this, args, binds=v.binds, closure=True)
        if isinstance(v, FunRef):
            return self.call(v.f, None, args, e)
        if isinstance(v, Bound):
            return self.V.models.call_bound(self, v, args, e)
        raise Unsupported('call of %s' % type(v).__name__)

    def known_functions(self, v):
        out, seen, todo = [], set(), [v]
        while todo:
            t = todo.pop()
            if t.get_id() in seen or z3.is_quantifier(t):
                continue
            seen.add(t.get_id())
            if z3.is_const(t):
                if t.sort() == self.S.Fn and isinstance(self.closures.get(t.decl().name()), FunRef):
                    out.append(t)
            else:
                todo.extend(t.children())
        return sorted(out, key=str)

    def ev_Construct(self, e):
        t = e['t']
        ti = self.p.ty(self.p.norm(t))
        if ti['k'] != 'record':
            raise Unsupported('construct ' + t)
        tm = ti.get('tmpl') or ti['name']
        ck = e['ck']
        if ck in ('copy', 'move') and len(e['args']) >= 1:
            src = self.eval(e['args'][0])
            v = self.rv(src)
            if isinstance(v, ILst):
                v = self.from_ilst(v, t)
            if not z3.is_expr(v):
                return v
            if self.S.is_value_record(ti['name']) and self.has_user_body(e['f']):
                return self.construct(t, e['f'], [src], e)
            if self.S.is_entity(ti['name']):
                raise Unsupported('copy of an entity ' + ti['name'])
            if ck == 'move' and isinstance(src, LV) and src.root[0] != 'v':
                self.moved_from(src, t)
            return v
        h = self.V.models.ctor(tm)
        if h is not None:
            return h(self, e, ti)
        if '(lambda' in ti['name'] and len(e['args']) == 1:
            return self.rv(self.eval(e['args'][0]))
        if self.S.is_value_record(ti['name']) or self.S.is_entity(ti['name']):
            args = [self.eval(a) for a in e['args']]
            return self.construct(t, e['f'], args, e)
        if 'lambda' in ti['name']:
            return self.rv(self.eval(e['args'][0]))
        h = self.V.models.opaque_ctor(tm)
        if h is not None:
            return h(self, e, ti)
        args = [self.eval(a) for a in e['args']]
        c = self.V.contract_for(e['f']['q'], e['f'], args) if e.get('f') else None
        if c is not None:
            return self.apply_contract(c, dict(e['f'], ret=t, n='make'), None, args, e)
        if not args:
            return self.default_value(t)
        if ti['name'].startswith(self.V.DEPENDENCY + ('std::chrono::',)):
            ts = [self.as_term(a, None) for a in args]
            self.V.models.used.add('%s: a constructor is a function of its arguments and does not throw' % ti['name'])
            return self.V.fn('new:' + ti['name'], [x.sort() for x in ts], self.S.sort(t))(*ts)
        raise Unsupported('construction of ' + ti['name'])

    def moved_from(self, lv, t):
        """state of an object after it was moved from"""
        ti = self.p.ty(self.p.norm(t))
        tm = ti.get('tmpl')
        if tm in PTR_T:
            self.write(lv, z3.IntVal(0))
            return
        if tm == 'std::function':
            self.V.models.used.add('std::function: empty after it was moved from (libstdc++)')
            self.write(lv, self.S.nullFn)
            return
        v = self.fresh('moved', self.S.sort(t))
        if self.S.is_value_record(ti['name']):
            cur = self.rv(lv)
            for c, n, ft, _ in self.p.fields(ti['name']):
                fi = self.p.ty(self.p.norm(ft))
                flv = LV(lv.root, lv.path + (('f', '%s::%s' % (c, n)),))
                if fi['k'] == 'record':
                    self.moved_from(flv, ft)
            return
        for c in self.S.sortinv(v):
            self.assume(c)
        self.write(lv, v)

    def ev_Cast(self, e):
        ck = e['ck']
        if ck == 'LValueToRValue':
            v = self.rv(self.eval(e['e']))
            if z3.is_expr(v) and v.sort() == z3.IntSort() and not z3.is_int_value(v):
                ti = self.p.ty(self.p.norm(e['t']))
                if ti['k'] in ('int', 'enum') and ('ti', v.get_id()) not in self.inv_cache:
                    self.inv_cache.add(('ti', v.get_id()))
                    self.V.keep.append(v)
                    if not self.pure:
                        for c in self.S.typeinv(e['t'], v):
                            self.assume(c)
            return v
        if ck in ('ArrayToPointerDecay',):
            v = self.eval(e['e'])
            return v
        if ck == 'ToVoid':
            self.eval(e['e'])
            return None
        if ck in ('NullToPointer',):
            i = self.p.ty(e['t'])
            if i['k'] == 'ptr' and self.p.ty(i['to'])['k'] == 'func':
                return self.S.nullFn
            return z3.IntVal(0)
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived'):
            v = self.eval(e['e'])
            return v
        if ck == 'Dynamic':
            v = self.rv(self.eval(e['e']))
            return self.V.dynamic_cast(self, v, e)
        v = self.rv(self.eval(e['e']))
        if ck in ('IntegralCast',):
            return self.int_conv(v, e['t'], e['e']['t'])
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'MemberPointerToBoolean'):
            if isinstance(v, PtrV):
                return z3.BoolVal(v.lv is not None)
            return self.truth(v)
        if ck in ('BitCast', 'CPointerToObjCPointerCast', 'IntegralToPointer', 'PointerToIntegral', 'ConstructorConversion'):
            return v
        if ck == 'FloatingToBoolean':
            return z3.Not(z3.fpIsZero(v))
        if ck == 'FloatingCast':
            s = self.S.sort(e['t'])
            return v if v.sort() == s else z3.fpFPToFP(z3.RNE(), v, s)
        if ck == 'IntegralToFloating':
            s = self.S.sort(e['t'])
            if z3.is_bool(v):
                v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
            v = simp(v)
            if z3.is_int_value(v):
                return z3.FPVal(float(v.as_long()), s)
            return z3.fpRealToFP(z3.RNE(), z3.ToReal(v), s)
        if ck == 'FloatingToIntegral':
            return self.V.models.float_to_int(self, v, e['t'])
        if ck == 'BooleanToSignedIntegral':
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        raise Unsupported('cast ' + ck)

    def int_conv(self, v, t, frm):
        if z3.is_bool(v):
            ti = self.p.ty(self.p.norm(t))
            if ti['k'] == 'bool':
                return v
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        ti = self.p.ty(self.p.norm(t))
        fi = self.p.ty(self.p.norm(frm))
        if ti['k'] == 'bool':
            return v != 0
        if ti['k'] not in ('int', 'enum') or 'w' not in ti:
            return v
        w, s = ti['w'], ti['s']
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
        if 'w' in fi:
            flo, fhi = (-(1 << (fi['w'] - 1)), (1 << (fi['w'] - 1)) - 1) if fi['s'] else (0, (1 << fi['w']) - 1)
            if lo <= flo and fhi <= hi:
                return v
        return self.wrap(v, w, s)

    def wrap(self, v, w, s):
        v = simp(v)
        if z3.is_int_value(v):
            x = v.as_long() & ((1 << w) - 1)
            if s and x >= 1 << (w - 1):
                x -= 1 << w
            return z3.IntVal(x)
        m = 1 << w
        if s:
            lo, hi = -(1 << (w - 1)), (1 << (w - 1))
            return z3.If(z3.And(lo <= v, v < hi), v, ((v + (1 << (w - 1))) % m) - (1 << (w - 1)))
        return z3.If(z3.And(0 <= v, v < m), v, v % m)

    def ev_Unary(self, e):
        op = e['op']
        if op == '&':
            v = self.eval(e['e'])
            if isinstance(v, LV):
                t = self.p.norm(e['e']['t'])
                if self.S.is_entity(t):
                    return self.rv(v)
                # &*p of a heap object is its address
                if v.root[0] == 'h' and not v.path and v.root[1].startswith('*'):
                    return v.root[2]
                return PtrV(v)
            if isinstance(v, FunRef):
                return v
            if z3.is_expr(v) and v.sort() == z3.IntSort():
                return v
            raise Unsupported('address of %s' % type(v).__name__)
        if op == '*':
            v = self.rv(self.eval(e['e']))
            if isinstance(v, PtrV):
                if v.lv is None:
                    self.oblige('safety', 'null pointer dereference', z3.BoolVal(False))
                    raise Dead()
                return v.lv
            if isinstance(v, FunRef):
                return v
            if z3.is_expr(v) and v.sort() == z3.IntSort():
                self.nonnull(v)
                return self.deref_addr(v, e['t'])
            raise Unsupported('dereference of %s' % type(v).__name__)
        if op == '!':
            return z3.Not(self.cond(e['e']))
        if op in ('++', '--'):
            lv = self.eval(e['e'])
            v = self.rv(lv)
            one = 1 if op == '++' else -1
            if z3.is_fp(v):
                raise Unsupported('floating ++')
            n = self.arith(v + one, e['t'], e)
            self.write(lv, n)
            return v if e['post'] else lv
        v = self.rv(self.eval(e['e']))
        if op == '-':
            if z3.is_fp(v):
                return -v
            return self.arith(-v, e['t'], e)
        if op == '+':
            return v
        raise Unsupported('unary ' + op)

    def arith(self, v, t, e):
        """result of machine arithmetic in type t"""
        ti = self.p.ty(self.p.norm(t))
        if ti['k'] == 'bool':
            return v
        w, s = ti.get('w'), ti.get('s')
        if ti['k'] != 'int':
            return v
        v = simp(v)
        if not s:
            return self.wrap(v, w, False)
        c = simp(z3.And(-(1 << (w - 1)) <= v, v < (1 << (w - 1))))
        if not z3.is_true(c):
            self.oblige('safety', 'signed overflow', c)
        return v

    def ev_CAssign(self, e):
        lv = self.eval(e['a'])
        b = self.rv(self.eval(e['b']))
        a = self.rv(lv)
        if e['op'] in ('&=', '|=') and z3.is_expr(a) and z3.is_bool(a):
            b = self.truth(b) if z3.is_expr(b) else b
            v = z3.And(a, b) if e['op'] == '&=' else z3.Or(a, b)
            self.write(lv, v)
            return lv
        v = self.binop(e['op'][:-1], a, b, e.get('ct') or e['t'], e)
        ti = self.p.ty(self.p.norm(e['t']))
        if ti['k'] == 'int' and z3.is_int(v):
            v = self.int_conv(v, e['t'], e.get('ct') or e['t'])
        self.write(lv, v)
        return lv

    def pure_branch(self, c):
        if self.pscript is None:
            raise Impure()
        st = self.pscript
        for cond, val in st['known']:
            if cond.eq(c):
                return val
        if st['pos'] < len(st['script']):
            v = st['script'][st['pos']]
        else:
            v = True
            st['script'].append(True)
        st['pos'] += 1
        st['known'].append((c, v))
        return v

    def pure_call_each(self, fn, var, rng):
        """fn() for every value of var in the range rng: the term, with one obligation per obligation in fn"""
        saved, self.pure_obls = self.pure_obls, []
        try:
            r = self.pure_call(fn)
            got = self.pure_obls
        finally:
            self.pure_obls = saved
        for kind, label, line, cond in got:
            self.oblige(kind, label, z3.ForAll([var], z3.Implies(rng, cond)))
        return r

    def pure_call(self, fn):
        """The value of fn() as one term, when it has no effects (branches are merged); raises Impure otherwise."""
        saved = (self.heap, self.ghost, self.line, self.pscript, self.pure_mark, self.curfile)
        nfr = len(self.frames)
        self.pure += 1
        if self.pure == 1:
            self.pure_mark = self.nslot
        script = []
        results = []
        try:
            while True:
                self.heap, self.ghost = dict(saved[0]), dict(saved[1])
                self.pscript = {'script': script, 'pos': 0, 'known': []}
                try:
                    v = self.rv(fn())
                except Dead:
                    raise Impure()
                except Thr:
                    raise Impure()
                results.append((list(self.pscript['known']), v))
                if len(results) > 128:
                    raise Impure()
                script = script[:self.pscript['pos']]
                while script and not script[-1]:
                    script.pop()
                if not script:
                    break
                script[-1] = False
            if len(results) == 1:
                return results[0][1]
            vals = [self.as_pure_term(v) for _, v in results]
            out = vals[-1]
            for (known, _), v in list(zip(results, vals))[-2::-1]:
                c = z3.And(*[k if b else z3.Not(k) for k, b in known])
                out = z3.If(c, v, out)
            return out
        finally:
            self.pure -= 1
            self.heap, self.ghost, self.line, self.pscript, self.pure_mark, self.curfile = saved
            del self.frames[nfr:]

    def as_pure_term(self, v):
        if z3.is_expr(v):
            return v
        raise Impure()

    def pure_eval(self, e):
        """value of e when its evaluation has no effects, else None"""
        nt = len(self.fr.temps)
        try:
            return self.pure_call(lambda: self.eval(e))
        except (Impure, z3.Z3Exception):
            return None
        finally:
            del self.fr.temps[nt:]

    def ev_Binary(self, e):
        op = e['op']
        if op in ('&&', '||'):
            a = self.cond(e['a'])
            a = simp(a)
            if z3.is_true(a):
                return z3.BoolVal(True) if op == '||' else self.cond(e['b'])
            if z3.is_false(a):
                return z3.BoolVal(False) if op == '&&' else self.cond(e['b'])
            b = self.pure_eval(e['b'])
            if b is not None and z3.is_expr(b):
                b = self.truth(b)
                return z3.And(a, b) if op == '&&' else z3.Or(a, b)
            if op == '&&':
                if self.branch(a):
                    return self.cond(e['b'])
                return z3.BoolVal(False)
            if self.branch(a):
                return z3.BoolVal(True)
            return self.cond(e['b'])
        if op == '=':
            lv = self.eval(e['a'])
            v = self.rv(self.eval(e['b']))
            self.write(lv, v)
            return lv
        if op == ',':
            self.eval(e['a'])
            return self.eval(e['b'])
        a = self.rv(self.eval(e['a']))
        b = self.rv(self.eval(e['b']))
        return self.binop(op, a, b, e['t'], e)

    def ptr_term(self, v):
        return self.as_term(v, None)

    def binop(self, op, a, b, t, e):
        if isinstance(a, PtrV) or isinstance(b, PtrV):
            if op in ('==', '!='):
                if isinstance(a, PtrV) and isinstance(b, PtrV) and a.lv is not None and b.lv is not None:
                    r = z3.BoolVal(a.lv.key() == b.lv.key()) if a.lv.root == b.lv.root or a.lv.key() == b.lv.key() else None
                    if r is None and a.lv.root[0] == 's' and b.lv.root[0] == 's':
                        r = z3.BoolVal(False)      # parts of two different objects
                    if r is None:
                        r = self.addr(a.lv) == self.addr(b.lv)
                else:
                    r = self.ptr_term(a) == self.ptr_term(b)
                return r if op == '==' else z3.Not(r)
            raise Unsupported('pointer arithmetic')
        if not z3.is_expr(a) or not z3.is_expr(b):
            raise Unsupported('operator %s on %s,%s' % (op, type(a).__name__, type(b).__name__))
        if z3.is_fp(a) or z3.is_fp(b):
            return self.fpop(op, a, b)
        if z3.is_bool(a) != z3.is_bool(b) and op in ('==', '!='):
            a = z3.If(a, z3.IntVal(1), z3.IntVal(0)) if z3.is_bool(a) else a
            b = z3.If(b, z3.IntVal(1), z3.IntVal(0)) if z3.is_bool(b) else b
        if op == '==':
            return a == b
        if op == '!=':
            return a != b
        if z3.is_bool(a) and z3.is_bool(b):
            if op == '&':
                return z3.And(a, b)
            if op == '|':
                return z3.Or(a, b)
            if op == '^':
                return z3.Xor(a, b)
        if z3.is_bool(a):
            a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
        if z3.is_bool(b):
            b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
        if op == '<':
            return a < b
        if op == '>':
            return a > b
        if op == '<=':
            return a <= b
        if op == '>=':
            return a >= b
        if op == '+':
            return self.arith(a + b, t, e)
        if op == '-':
            return self.arith(a - b, t, e)
        if op == '*':
            return self.arith(a * b, t, e)
        if op in ('/', '%'):
            self.oblige('safety', 'division by zero', b != 0)
            q = z3.If(z3.And(a >= 0, b > 0), a / b,
                      z3.If(z3.And(a < 0, b > 0), -((-a) / b),
                            z3.If(z3.And(a >= 0, b < 0), -(a / (-b)), (-a) / (-b))))
            if op == '/':
                return self.arith(q, t, e)
            return self.arith(a - b * q, t, e)
        if op in ('&', '|', '^'):
            x, y = self.bit_of(a), self.bit_of(b)
            if x is not None and y is not None:
                return z3.If({'&': z3.And, '|': z3.Or, '^': z3.Xor}[op](x, y), z3.IntVal(1), z3.IntVal(0))
        raise Unsupported('operator ' + op)

    @staticmethod
    def bit_of(a):
        """c when the number is (c ? 1 : 0)"""
        a = simp(a)
        if z3.is_int_value(a) and a.as_long() in (0, 1):
            return z3.BoolVal(a.as_long() == 1)
        if z3.is_app_of(a, z3.Z3_OP_ITE) and all(z3.is_int_value(x) for x in a.children()[1:]):
            x, y = (k.as_long() for k in a.children()[1:])
            if (x, y) == (1, 0):
                return a.arg(0)
            if (x, y) == (0, 1):
                return z3.Not(a.arg(0))
        return None

    def fpop(self, op, a, b):
        if op == '==':
            return z3.fpEQ(a, b)
        if op == '!=':
            return z3.Not(z3.fpEQ(a, b))
        if op == '<':
            return z3.fpLT(a, b)
        if op == '>':
            return z3.fpGT(a, b)
        if op == '<=':
            return z3.fpLEQ(a, b)
        if op == '>=':
            return z3.fpGEQ(a, b)
        rm = z3.RNE()
        if op == '+':
            return z3.fpAdd(rm, a, b)
        if op == '-':
            return z3.fpSub(rm, a, b)
        if op == '*':
            return z3.fpMul(rm, a, b)
        if op == '/':
            return z3.fpDiv(rm, a, b)
        raise Unsupported('floating ' + op)

    def ev_Cond(self, e):
        c = simp(self.cond(e['c']))
        if z3.is_true(c):
            return self.eval(e['a'])
        if z3.is_false(c):
            return self.eval(e['b'])
        a = self.pure_eval(e['a'])
        b = self.pure_eval(e['b'])
        if z3.is_expr(a) and z3.is_expr(b) and a.sort() == b.sort():
            return z3.If(c, a, b)
        if self.branch(c):
            return self.eval(e['a'])
        return self.eval(e['b'])

    def ev_Index(self, e):
        a = self.eval(e['a'])
        i = self.rv(self.eval(e['i']))
        v = self.rv(a)
        if z3.is_expr(v) and self.S.is_seq(v.sort()):
            self.oblige('safety', 'array index', z3.And(0 <= i, i < self.S.slen(v)))
            if isinstance(a, LV):
                return LV(a.root, a.path + (('i', i),))
            return self.S.at(v, i)
        raise Unsupported('subscript')

    def ev_New(self, e):
        if e.get('array'):
            raise Unsupported('new[]')
        name = self.p.norm(e['at'])
        init = e.get('init')
        if init and init['k'] == 'Construct' and (self.S.is_entity(name) or self.S.is_value_record(name)):
            args = [self.eval(a) for a in init['args']]
            return self.new_object(e['at'], init['f'], args)
        if init and not self.S.is_entity(name):     # a value made elsewhere goes straight into the new object
            v = self.as_term(self.eval(init), e['at'])
            ref = self.alloc(name)
            self.V.heap_types['*' + name] = e['at']
            self.write(LV(('h', '*' + name, ref)), v)
            return ref
        raise Unsupported('new ' + name)

    def new_object(self, t, fobj, args):
        name = self.p.norm(t)
        ref = self.alloc(name)
        if self.S.is_entity(name):
            self.run_ctor(name, fobj, ref, args)
        else:
            self.V.heap_types['*' + name] = t
            lv = LV(('h', '*' + name, ref))
            if self.S.is_value_record(name):
                self.run_ctor(name, fobj, PtrV(lv), args)
            elif args:
                self.write(lv, self.as_term(args[0], t))
            else:
                self.write(lv, self.as_term(self.default_value(t), t))
        return ref

    def ev_Delete(self, e):
        v = self.rv(self.eval(e['e']))
        self.V.models.delete_owned(self, v, None)

    def ev_Throw(self, e):
        if self.pure:
            raise Impure()
        if e.get('e') is None:
            ex = getattr(self, 'current_exc', None)
            if ex is None:
                raise Unsupported('rethrow')
            raise Thr(ex.cls, ex.v)
        v = self.rv(self.eval(e['e']))
        raise Thr(self.p.norm(e['e']['t']), v)

    def ev_Lambda(self, e):
        binds = {}
        this = None
        for c in e['caps']:
            if c.get('this'):
                this = self.fr.this
            elif c.get('byref'):
                lv = self.fr.vars.get(c['id'])
                if lv is None:
                    raise Unsupported('capture of ' + c['n'])
                binds[c['id']] = lv
            else:
                if c.get('init') is not None:
                    v = self.rv(self.eval(c['init']))
                else:
                    v = self.rv(self.fr.vars[c['id']])
                binds[c['id']] = self.new_slot(v, 'cap_' + c['n'])
        for op in ([e['op']] if e.get('op') else e.get('ops', [])):
            self.V.lambda_ops[op['id']] = op
        return Closure(e, binds, this)

    def ev_InitList(self, e):
        ti = self.p.ty(self.p.norm(e['t']))
        if ti['k'] == 'record':
            tm = ti.get('tmpl')
            if self.S.is_value_record(ti['name']):
                # aggregate initialisation
                slot = self.new_slot(self.fresh('agg', self.S.sort(e['t'])), 'agg')
                fs = self.p.fields(ti['name'])
                for (c, n, ft, init), a in zip(fs, e['args']):
                    v = self.eval_init(a, ft)
                    self.write(LV(slot.root, (('f', '%s::%s' % (c, n)),)), self.as_term(v, ft))
                return self.read(slot)
            if tm in SEQ_T and tm != 'std::array':
                pass
            if tm == 'std::array':
                if len(e['args']) == 1 and e['args'][0]['k'] == 'InitList':
                    return self.eval(e['args'][0])
            if len(e['args']) == 0:
                return self.default_value(e['t'])
            if tm in PTR_T and len(e['args']) == 1:
                return self.eval(e['args'][0])
        if ti['k'] == 'array':
            es = self.S.sort(ti['to'])
            items = [self.eval_init(a, ti['to']) for a in e['args']]
            return ILst(items, es)
        if ti['k'] == 'record' and len(e['args']) == 1 and self.S.is_entity(ti['name']):
            return self.eval(e['args'][0])
        if ti['k'] in ('int', 'bool', 'enum', 'ptr', 'float', 'nullptr', 'memptr'):
            if not e['args']:
                return self.default_value(e['t'])
            return self.eval(e['args'][0])
        if ti['k'] == 'record' and len(e['args']) == 1 and self.p.norm(self.p.noref(e['args'][0].get('t') or '?')) == self.p.norm(e['t']):
            return self.eval(e['args'][0])          # from one value of the same type
        raise Unsupported('initialiser list for ' + e['t'])

    def ev_Zero(self, e):
        return self.default_value(e['t'])

    def ev_Unsupported(self, e):
        raise Unsupported('AST node ' + e.get('what', '?'))

    st_Unsupported = ev_Unsupported


class Impure(Exception):
    """raised in pure evaluation when an effect or a branch would be needed"""
