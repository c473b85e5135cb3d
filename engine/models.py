"""Assumed contracts of the C++ library (containers, algorithms, smart pointers, locks, strings).

Every handler states what the standard promises about the call.  The set of handlers used by a run is
recorded (Models.used) and reported as trusted base in the evidence.
"""
import z3

from .interp import (LV, Bound, Closure, Dead, FunRef, ILst, Impure, Inserter, Iter, Lock, MIter, PtrV, Thr,
                     simp)
from .sorts import ATOMIC_T, LOCK_T, MAP_T, PTR_T, SEQ_T, SET_T, Unsupported

H = {}
CT = {}
FREE = {}
OPQ = {}


def m(tms, names):
    def d(fn):
        for t in (tms if isinstance(tms, (list, tuple, set)) else [tms]):
            for n in names.split():
                H[(t, n)] = fn
        return fn
    return d


def free(names):
    def d(fn):
        for n in names.split():
            FREE[n] = fn
        return fn
    return d


def ctor(*tms):
    def d(fn):
        for t in tms:
            CT[t] = fn
        return fn
    return d


ALIASES = [('std::__atomic_base', 'std::atomic'), ('std::__shared_ptr_access', 'std::shared_ptr'),
           ('std::__shared_ptr', 'std::shared_ptr'), ('std::__cxx11::basic_string', 'std::basic_string'),
           ('__gnu_cxx::__normal_iterator', '$iter'), ('std::_Deque_iterator', '$iter'),
           ('std::_Rb_tree_iterator', '$iter'), ('std::_Rb_tree_const_iterator', '$iter'),
           ('std::_List_iterator', '$iter'), ('std::_List_const_iterator', '$iter'),
           ('std::reverse_iterator', '$iter'),
           ('std::__basic_future', 'std::future'),
           ('std::chrono::_V2::steady_clock', 'std::chrono::steady_clock')]


class Models:
    def __init__(self, verifier):
        self.V = verifier
        self.used = set()
        self.extra = {}
        self.extra_free = {}
        self.extra_ctor = {}

    def canon(self, tm):
        for a, b in ALIASES:
            if tm == a:
                return b
        return tm

    def find(self, f, tm, I):
        n = f['n']
        if tm is not None:
            t = self.canon(tm)
            h = self.extra.get((t, n)) or H.get((t, n))
            if h is None and t != '$iter' and n == 'operator()':
                return None
            if h is None and (t.startswith('std::__detail::_Node') or t.endswith('iterator')):
                h = H.get(('$iter', n))
            if h is not None:
                self.used.add('%s::%s' % (t, n))
            elif n.startswith('operator ') and t == 'std::function':
                h = fn_bool
                self.used.add('std::function::operator bool')
            return h
        q = f['q']
        h = self.extra_free.get(q) or FREE.get(q)
        if h is None and q.startswith('__gnu_cxx::'):
            h = FREE.get('std::' + q[len('__gnu_cxx::'):])
        if h is not None:
            self.used.add(q)
        return h

    def ctor(self, tm):
        h = self.extra_ctor.get(tm) or CT.get(self.canon(tm))
        if h:
            self.used.add(tm + ' constructor')
        return h

    def opaque_ctor(self, tm):
        return self.extra_ctor.get(tm)

    def default_opaque(self, I, name, tm):
        if tm == 'std::future':
            return z3.Const('nofuture', I.S.sort(name))
        if name.startswith(self.V.DEPENDENCY):
            return z3.Const('new:' + name, I.S.sort(name))
        return None

    # helpers used by the interpreter
    def delete_owned(self, I, v, ti):
        if not self.V.track_delete:
            return
        if z3.is_expr(v):
            if z3.is_int_value(simp(v)) and simp(v).as_long() == 0:
                return
            a = self.V.ghost_initial(I, 'deleted')
            I.ghost['deleted'] = z3.If(v == 0, a, z3.Store(a, v, z3.BoolVal(True)))

    def enum_map(self, I, lv, t):
        """the keys of a map in iteration order, as a sequence"""
        mv = I.rv(lv)
        ks = mv.sort().accessor(0, 0).range().domain()
        s = I.fresh('keys', I.S.seq(ks))
        n, arr, dom = I.S.slen(s), I.S.sarr(s), I.S.get(mv, 0)
        i, j = z3.Ints('ki kj')
        k = z3.Const('kk', ks)
        I.assume(n >= 0)
        I.assume(n < (1 << 62))
        I.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.Select(dom, z3.Select(arr, i))),
                           patterns=[z3.Select(arr, i)]))
        pos = z3.Function('pos!%s' % s.decl().name(), ks, z3.IntSort())
        I.assume(z3.ForAll([k], z3.Implies(z3.Select(dom, k),
                                           z3.And(0 <= pos(k), pos(k) < n, z3.Select(arr, pos(k)) == k)),
                           patterns=[z3.Select(dom, k)]))
        I.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), pos(z3.Select(arr, i)) == i), patterns=[z3.Select(arr, i)]))
        if mv.sort().name() not in I.S.unordered:
            lt = self.order(I, ks)
            I.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), lt(z3.Select(arr, i), z3.Select(arr, j))),
                               patterns=[z3.MultiPattern(z3.Select(arr, i), z3.Select(arr, j))]))
        return I.new_slot(s, 'keys')

    def map_elem(self, I, keys, mapped, i):
        k = I.S.at(I.rv(keys), i)
        mv = I.rv(mapped)
        vs = mv.sort().accessor(0, 1).range().range()
        if self.V.is_set(mapped, I):
            return LV(('v', k))
        pair = I.S.pair(k.sort(), vs)
        return LV(('v', pair.constructor(0)(k, z3.Select(I.S.get(mv, 1), k))))

    def order(self, I, ks):
        if ks == z3.IntSort():
            return lambda a, b: a < b
        f = z3.Function('less:' + ks.name(), ks, ks, z3.BoolSort())
        key = 'order:' + ks.name()
        if key not in self.V.memo:
            self.V.memo[key] = True
            a, b, c = z3.Consts('oa ob oc', ks)
            self.V.global_axioms.append(z3.ForAll([a, b], z3.Implies(f(a, b), z3.Not(f(b, a))), patterns=[f(a, b)]))
        if key not in I.inv_cache:
            I.inv_cache.add(key)
        return f

    def float_to_int(self, I, v, t):
        ti = I.p.ty(I.p.norm(t))
        w, s = ti['w'], ti['s']
        r = z3.fpToReal(z3.fpRoundToIntegral(z3.RTZ(), v))
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
        I.oblige('safety', 'floating value representable as integer',
                 z3.And(z3.Not(z3.fpIsNaN(v)), z3.Not(z3.fpIsInf(v)), r >= lo, r <= hi))
        return z3.ToInt(r)

    def call_bound(self, I, b, args, e):
        if b.kind == 'memfn':
            f = b.a[0]
            obj = args[0]
            o = I.rv(obj)
            if isinstance(o, PtrV) or (z3.is_expr(o) and o.sort() == z3.IntSort()):
                return I.call(f, (o, True), args[1:], e)
            return I.call(f, (obj, False), args[1:], e)
        raise Unsupported('bound call')


# ------------------------------------------------------------------------------------- helpers
def val(I, a, i=0):
    return I.as_term(a, None)


def objlv(I, o):
    """lvalue of the object a method is called on"""
    x, arrow = o
    if arrow:
        v = I.rv(x)
        if isinstance(v, PtrV):
            return v.lv
        if z3.is_expr(v):
            return I.V.addrs.get(str(v)) or LV(('h', '*' + 'std', v))
        raise Unsupported('arrow on a library object')
    if isinstance(x, LV):
        # chase reference slots
        return x
    return I.new_slot(x, 'lib')


def elem_t(I, o, e, f):
    ti = I.p.ty(I.p.norm(f['cls']))
    return ti['args'][0]


def fresh_seq(I, es, name='seq'):
    s = I.fresh(name, I.S.seq(es))
    I.assume(I.S.slen(s) >= 0)
    return s


def shift_seq(I, s, at, by, name='sh'):
    """a sequence array equal to s below `at` and to s[i-by] from `at+by` on (by may be negative)"""
    S = I.S
    arr = S.sarr(s)
    new = I.fresh(name, arr.sort())
    i = z3.Int('si')
    I.assume(z3.ForAll([i], z3.Implies(i < at, z3.Select(new, i) == z3.Select(arr, i)),
                       patterns=[z3.Select(new, i)]))
    lo = at + by if not isinstance(by, int) or by > 0 else at
    I.assume(z3.ForAll([i], z3.Implies(i >= lo, z3.Select(new, i) == z3.Select(arr, i - by)),
                       patterns=[z3.Select(new, i)]))
    I.assume(z3.ForAll([i], z3.Implies(i >= (at if by_pos(by) else at - by), z3.Select(new, i + by) == z3.Select(arr, i)),
                       patterns=[z3.Select(arr, i)]))
    I.assume(z3.ForAll([i], z3.Implies(i < at, z3.Select(new, i) == z3.Select(arr, i)),
                       patterns=[z3.Select(arr, i)]))
    return new


def by_pos(by):
    return not isinstance(by, int) or by > 0


def concrete_len(s, S):
    n = simp(S.slen(s))
    return n.as_long() if z3.is_int_value(n) else None


def concat(I, a, b, name='cat'):
    """a ++ b"""
    S = I.S
    nb = concrete_len(b, S)
    if nb is not None and nb <= 8:
        arr, n = S.sarr(a), S.slen(a)
        for j in range(nb):
            arr = z3.Store(arr, simp(n + j), S.at(b, j))
        return S.mkseq(S.elem(a), simp(n + nb), arr)
    na = concrete_len(a, S)
    if na == 0:
        return b
    es = S.elem(a)
    new = I.fresh(name, S.sarr(a).sort())
    i = z3.Int('ci')
    A, B, n, mm = S.sarr(a), S.sarr(b), S.slen(a), S.slen(b)
    I.assume(z3.ForAll([i], z3.Implies(i < n, z3.Select(new, i) == z3.Select(A, i)), patterns=[z3.Select(new, i)]))
    I.assume(z3.ForAll([i], z3.Implies(z3.And(i >= n, i < n + mm), z3.Select(new, i) == z3.Select(B, i - n)),
                       patterns=[z3.Select(new, i)]))
    I.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < mm), z3.Select(new, i + n) == z3.Select(B, i)),
                       patterns=[z3.Select(B, i)]))
    I.assume(z3.ForAll([i], z3.Implies(i < n, z3.Select(new, i) == z3.Select(A, i)), patterns=[z3.Select(A, i)]))
    return S.mkseq(es, n + mm, new)


def subseq(I, s, lo, hi, name='sub'):
    """s[lo:hi]"""
    S = I.S
    lo_s = simp(lo) if z3.is_expr(lo) else z3.IntVal(lo)
    if z3.is_int_value(lo_s) and lo_s.as_long() == 0:
        return S.mkseq(S.elem(s), hi, S.sarr(s))
    new = I.fresh(name, S.sarr(s).sort())
    i = z3.Int('bi')
    A = S.sarr(s)
    I.assume(z3.ForAll([i], z3.Implies(i >= 0, z3.Select(new, i) == z3.Select(A, i + lo)), patterns=[z3.Select(new, i)]))
    I.assume(z3.ForAll([i], z3.Implies(i >= lo, z3.Select(new, i - lo) == z3.Select(A, i)), patterns=[z3.Select(A, i)]))
    return S.mkseq(S.elem(s), hi - lo, new)


SEQ = ['std::vector', 'std::deque', 'std::list', 'std::initializer_list', 'std::array']


# ------------------------------------------------------------------------------------- containers
def set_obj(I, lv, v):
    I.write(lv, v)


@m(SEQ, 'empty')
def seq_empty(I, e, f, o, args):
    return I.S.slen(I.rv(objlv(I, o))) == 0


@m(SEQ, 'size')
def seq_size(I, e, f, o, args):
    return I.S.slen(I.rv(objlv(I, o)))


@m(SEQ, 'max_size')
def seq_max(I, e, f, o, args):
    return z3.IntVal((1 << 62))


@m(SEQ, 'reserve shrink_to_fit')
def seq_reserve(I, e, f, o, args):
    return None


@m(SEQ, 'clear')
def seq_clear(I, e, f, o, args):
    lv = objlv(I, o)
    s = I.rv(lv)
    et = elem_t(I, o, e, f)
    if I.needs_destroy(et):
        n = concrete_len(s, I.S)
        if n is None:
            I.V.models.clear_owned(I, s, et)
        else:
            for j in range(n):
                I.destroy(LV(lv.root, lv.path + (('i', z3.IntVal(j)),)), et)
    set_obj(I, lv, I.S.lit_seq(I.S.elem(s), []))


def clear_owned(self, I, s, et):
    ti = I.p.ty(I.p.norm(et))
    if ti.get('tmpl') in PTR_T:
        if not self.V.track_delete:
            return
        a = self.V.ghost_initial(I, 'deleted')
        new = I.fresh('deleted', a.sort())
        r = z3.Int('dr')
        i = z3.Int('di')
        arr, n = I.S.sarr(s), I.S.slen(s)
        I.assume(z3.ForAll([r], z3.Implies(z3.Select(a, r), z3.Select(new, r)), patterns=[z3.Select(new, r)]))
        I.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n, z3.Select(arr, i) != 0),
                                           z3.Select(new, z3.Select(arr, i))), patterns=[z3.Select(arr, i)]))
        I.ghost['deleted'] = new
        return
    # destructors with an effect, unknown number of elements
    name = ti['name']
    c = I.V.contract_q(name + '::~' + name.split('::')[-1])
    if c is not None and c.bulk_destroy is not None:
        c.bulk_destroy(I, s)
        return
    raise Unsupported('destroying an unknown number of ' + et)


Models.clear_owned = clear_owned


def need_nonempty(I, s, what):
    I.oblige('safety', what + ' on an empty container', simp(I.S.slen(s) > 0))


@m(SEQ, 'front')
def seq_front(I, e, f, o, args):
    lv = objlv(I, o)
    need_nonempty(I, I.rv(lv), 'front()')
    return LV(lv.root, lv.path + (('i', z3.IntVal(0)),))


@m(SEQ, 'back')
def seq_back(I, e, f, o, args):
    lv = objlv(I, o)
    s = I.rv(lv)
    need_nonempty(I, s, 'back()')
    return LV(lv.root, lv.path + (('i', simp(I.S.slen(s) - 1)),))


@m(SEQ, 'operator[]')
def seq_index(I, e, f, o, args):
    lv = objlv(I, o)
    i = I.rv(args[0])
    I.oblige('safety', 'index in range', simp(z3.And(0 <= i, i < I.S.slen(I.rv(lv)))))
    return LV(lv.root, lv.path + (('i', i),))


@m(SEQ, 'at')
def seq_at(I, e, f, o, args):
    lv = objlv(I, o)
    i = I.rv(args[0])
    if not I.branch(z3.And(0 <= i, i < I.S.slen(I.rv(lv)))):
        raise Thr('std::out_of_range', I.S.noval)
    return LV(lv.root, lv.path + (('i', i),))


def converted(I, x, et):
    x = I.rv(x)
    if isinstance(x, ILst):
        x = I.from_ilst(x, et)
    return I.as_term(I.coerce(x, et), et)


def implicit(I, v, t, src):
    """the conversion a library template makes inside: by the constructor of the dependency's type"""
    name = I.p.norm(t)
    if not z3.is_expr(v) or src is None or v.sort() == I.S.sort(t) or not name.startswith(I.V.DEPENDENCY):
        return v
    f = {'q': name + '::' + name.split('::')[-1], 'params': [src], 'n': 'make', 'ret': t, 'id': name + '(' + str(src) + ')'}
    c = I.V.contract_for(f['q'], f, [v])
    if c is None:
        raise Unsupported('conversion to ' + name)
    return I.apply_contract(c, f, None, [v])


def push(I, lv, x):
    s = I.rv(lv)
    n = I.S.slen(s)
    I.write(lv, I.S.mkseq(I.S.elem(s), simp(n + 1), z3.Store(I.S.sarr(s), n, x)))


def take_arg(I, a, et, f, pi=0):
    """value passed to a by-reference library parameter; an rvalue reference leaves the source moved-from"""
    x = converted(I, a, et)
    ps = f.get('params') or []
    if pi < len(ps) and I.p.ty(ps[pi])['k'] == 'rref' and isinstance(a, LV):
        moved(I, a, et)
    return x


def moved(I, a, et):
    if I.pure:
        raise Impure()
    if a.root[0] == 'v':
        return
    if a.root[0] == 's' and a.root[1].startswith('temp'):
        # a temporary: nobody can look at it again, except its destructor
        ti = I.p.ty(I.p.norm(et))
        if ti.get('tmpl') not in PTR_T and not I.needs_destroy(et):
            return
    ti = I.p.ty(I.p.norm(et))
    if ti['k'] == 'record' and z3.is_expr(I.rv(a)):
        I.moved_from(a, et)


@m(SEQ, 'push_back')
def seq_push_back(I, e, f, o, args):
    lv = objlv(I, o)
    et = elem_t(I, o, e, f)
    push(I, lv, take_arg(I, args[0], et, f))


def build_elem(I, et, args, f, skip=0):
    ti = I.p.ty(I.p.norm(et))
    tm = ti.get('tmpl')
    if tm in ('std::pair', 'std::tuple') and len(args) == len(ti['args']):
        vs = [I.as_term(I.coerce(x, t), t) for x, t in zip(args, ti['args'])]
        return I.S.sort(et).constructor(0)(*vs)
    if len(args) == 1:
        v = I.rv(args[0])
        if not z3.is_expr(v) or v.sort() == I.S.sort(et):
            if not (ti['k'] == 'record' and I.S.is_value_record(ti['name']) and not z3.is_expr(v)):
                return take_arg(I, args[0], et, f, skip)
    if ti['k'] == 'record' and I.S.is_value_record(ti['name']):
        # find a constructor by number of arguments
        cands = []
        for g in I.p.funcs.values():
            if g.get('cls') == ti['name'] and g.get('ctor') in ('other', 'default') and len(g['params']) == len(args):
                cands.append(g)
        if len(cands) == 1:
            g = cands[0]
            fo = dict(id=g['id'], q=g['q'], n=g['n'], cls=g['cls'], params=[p['t'] for p in g['params']], ret='void')
            return I.construct(et, fo, args, e_none)
    if not args:
        return I.as_term(I.default_value(et), et)
    raise Unsupported('emplace of ' + et)


e_none = {}


@m(SEQ, 'emplace_back')
def seq_emplace_back(I, e, f, o, args):
    lv = objlv(I, o)
    et = elem_t(I, o, e, f)
    x = build_elem(I, et, args, f)
    push(I, lv, x)
    s = I.rv(lv)
    return LV(lv.root, lv.path + (('i', simp(I.S.slen(s) - 1)),))


@m(SEQ, 'pop_back')
def seq_pop_back(I, e, f, o, args):
    lv = objlv(I, o)
    s = I.rv(lv)
    need_nonempty(I, s, 'pop_back()')
    et = elem_t(I, o, e, f)
    if I.needs_destroy(et):
        I.destroy(LV(lv.root, lv.path + (('i', simp(I.S.slen(s) - 1)),)), et)
        s = I.rv(lv)
    I.write(lv, I.S.mkseq(I.S.elem(s), simp(I.S.slen(s) - 1), I.S.sarr(s)))


@m(SEQ, 'pop_front')
def seq_pop_front(I, e, f, o, args):
    lv = objlv(I, o)
    s = I.rv(lv)
    need_nonempty(I, s, 'pop_front()')
    et = elem_t(I, o, e, f)
    if I.needs_destroy(et):
        I.destroy(LV(lv.root, lv.path + (('i', z3.IntVal(0)),)), et)
        s = I.rv(lv)
    I.write(lv, remove_at(I, s, z3.IntVal(0)))


def remove_at(I, s, p):
    new = shift_seq(I, s, p, -1)
    return I.S.mkseq(I.S.elem(s), simp(I.S.slen(s) - 1), new)


def insert_at(I, s, p, x):
    new = shift_seq(I, s, p, 1)
    return I.S.mkseq(I.S.elem(s), simp(I.S.slen(s) + 1), z3.Store(new, p, x))


@m(SEQ, 'push_front')
def seq_push_front(I, e, f, o, args):
    lv = objlv(I, o)
    x = take_arg(I, args[0], elem_t(I, o, e, f), f)
    I.write(lv, insert_at(I, I.rv(lv), z3.IntVal(0), x))


@m(SEQ, 'emplace_front')
def seq_emplace_front(I, e, f, o, args):
    lv = objlv(I, o)
    x = build_elem(I, elem_t(I, o, e, f), args, f)
    I.write(lv, insert_at(I, I.rv(lv), z3.IntVal(0), x))
    return LV(lv.root, lv.path + (('i', z3.IntVal(0)),))


@m(SEQ, 'insert')
def seq_insert(I, e, f, o, args):
    lv = objlv(I, o)
    et = elem_t(I, o, e, f)
    it = I.rv(args[0])
    if not isinstance(it, Iter):
        raise Unsupported('insert position')
    s = I.rv(lv)
    I.oblige('safety', 'insert position in range', simp(z3.And(0 <= it.idx, it.idx <= I.S.slen(s))))
    if len(args) == 2:
        a1 = I.rv(args[1])
        if isinstance(a1, ILst) or (z3.is_expr(a1) and a1.sort() == s.sort() and a1.sort() != I.S.sort(et)):
            raise Unsupported('insert of a list')
        x = take_arg(I, args[1], et, f, 1)
        I.write(lv, insert_at(I, s, it.idx, x))
        return Iter(lv, it.idx)
    if len(args) == 3:
        b, en = I.rv(args[1]), I.rv(args[2])
        if isinstance(b, Inserter):
            raise Unsupported('insert range')
        if isinstance(b, MIter):
            raise Unsupported('insert of a map range')
        src = I.rv(b.lv)
        mid = subseq(I, src, b.idx, en.idx) if not (z3.is_int_value(simp(b.idx)) and simp(b.idx).as_long() == 0) \
            else I.S.mkseq(I.S.elem(src), en.idx, I.S.sarr(src))
        if I.S.elem(src) != I.S.elem(s):
            raise Unsupported('converting insert')
        if simp(it.idx == I.S.slen(s)).eq(z3.BoolVal(True)):
            I.write(lv, concat(I, s, mid))
        else:
            head = I.S.mkseq(I.S.elem(s), it.idx, I.S.sarr(s))
            tail = subseq(I, s, it.idx, I.S.slen(s))
            I.write(lv, concat(I, concat(I, head, mid), tail))
        return Iter(lv, it.idx)
    raise Unsupported('insert')


@m(SEQ, 'emplace')
def seq_emplace(I, e, f, o, args):
    lv = objlv(I, o)
    et = elem_t(I, o, e, f)
    it = I.rv(args[0])
    s = I.rv(lv)
    I.oblige('safety', 'insert position in range', simp(z3.And(0 <= it.idx, it.idx <= I.S.slen(s))))
    x = build_elem(I, et, args[1:], f, 1)
    I.write(lv, insert_at(I, I.rv(lv), it.idx, x))
    return Iter(lv, it.idx)


@m(SEQ, 'erase')
def seq_erase(I, e, f, o, args):
    lv = objlv(I, o)
    s = I.rv(lv)
    et = elem_t(I, o, e, f)
    a = I.rv(args[0])
    if len(args) == 1:
        I.oblige('safety', 'erase position in range', simp(z3.And(0 <= a.idx, a.idx < I.S.slen(s))))
        if I.needs_destroy(et):
            I.destroy(LV(lv.root, lv.path + (('i', a.idx),)), et)
            s = I.rv(lv)
        I.write(lv, remove_at(I, s, a.idx))
        return Iter(lv, a.idx)
    b = I.rv(args[1])
    n = I.S.slen(s)
    I.oblige('safety', 'erase range', simp(z3.And(0 <= a.idx, a.idx <= b.idx, b.idx <= n)))
    if I.needs_destroy(et):
        raise Unsupported('erase of owning range')
    if simp(b.idx == n).eq(z3.BoolVal(True)):
        I.write(lv, I.S.mkseq(I.S.elem(s), a.idx, I.S.sarr(s)))
        return Iter(lv, a.idx)
    head = I.S.mkseq(I.S.elem(s), a.idx, I.S.sarr(s))
    I.write(lv, concat(I, head, subseq(I, s, b.idx, n)))
    return Iter(lv, a.idx)


@m(SEQ, 'resize')
def seq_resize(I, e, f, o, args):
    lv = objlv(I, o)
    s = I.rv(lv)
    et = elem_t(I, o, e, f)
    n = I.rv(args[0])
    d = converted(I, args[1], et) if len(args) > 1 else I.as_term(I.default_value(et), et)
    new = I.fresh('resized', I.S.sarr(s).sort())
    i = z3.Int('ri')
    old, A = I.S.slen(s), I.S.sarr(s)
    if I.needs_destroy(et):
        I.oblige('safety', 'no owned element dropped by resize', n >= old)
    I.assume(z3.ForAll([i], z3.Select(new, i) == z3.If(i < old, z3.Select(A, i), d), patterns=[z3.Select(new, i)]))
    I.write(lv, I.S.mkseq(I.S.elem(s), n, new))


@m(SEQ, 'assign')
def seq_assign(I, e, f, o, args):
    lv = objlv(I, o)
    s = I.rv(lv)
    a = I.rv(args[0])
    if len(args) == 2 and isinstance(a, Iter):
        b = I.rv(args[1])
        I.write(lv, subseq(I, I.rv(a.lv), a.idx, b.idx))
        return
    if len(args) == 2:
        x = converted(I, args[1], elem_t(I, o, e, f))
        I.write(lv, I.S.mkseq(I.S.elem(s), a, z3.K(z3.IntSort(), x)))
        return
    raise Unsupported('assign')


def assign_value(I, e, f, o, args):
    lv = objlv(I, o)
    t = f['cls']
    v = I.rv(args[0])
    if isinstance(v, ILst):
        v = I.from_ilst(v, t)
    v = I.coerce(v, t)
    if z3.is_expr(v):
        v = I.as_term(v, t)
    if I.p.tmpl(t) == 'std::function' and not (z3.is_expr(v) and v.sort() == I.S.Fn):
        # nullptr or {} empties the function
        v = I.S.nullFn if z3.is_expr(v) and v.sort() == z3.IntSort() else I.as_term(v, t)
    src = args[0]
    ps = f.get('params') or []
    if ps and I.p.ty(ps[0])['k'] == 'rref' and isinstance(src, LV) and src.key() != lv.key():
        moved(I, src, t)
    I.write(lv, v)
    return lv


for _t in SEQ + ['std::map', 'std::set', 'std::basic_string', 'std::function', 'std::pair', 'std::tuple',
                 'std::unordered_map']:
    H[(_t, 'operator=')] = assign_value


@m(SEQ + ['std::map', 'std::set', 'std::unordered_map', 'std::basic_string', 'std::function', 'std::unique_ptr',
          'std::shared_ptr'], 'swap')
def any_swap(I, e, f, o, args):
    lv = objlv(I, o)
    a, b = I.rv(lv), I.rv(args[0])
    I.write(lv, b)
    I.write(args[0], a)


@m(SEQ, 'begin cbegin')
def seq_begin(I, e, f, o, args):
    return Iter(objlv(I, o), z3.IntVal(0))


@m(SEQ, 'end cend')
def seq_end(I, e, f, o, args):
    lv = objlv(I, o)
    return Iter(lv, I.S.slen(I.rv(lv)))


@m(SEQ, 'rbegin crbegin')
def seq_rbegin(I, e, f, o, args):
    lv = objlv(I, o)
    return Iter(lv, simp(I.S.slen(I.rv(lv)) - 1), rev=True)


@m(SEQ, 'rend crend')
def seq_rend(I, e, f, o, args):
    return Iter(objlv(I, o), z3.IntVal(-1), rev=True)


@m(SEQ, 'data')
def seq_data(I, e, f, o, args):
    raise Unsupported('data()')


@ctor('std::vector', 'std::deque', 'std::list', 'std::initializer_list')
def seq_ctor(I, e, ti):
    t = e['t']
    et = ti['args'][0]
    a = [x for x in e['args'] if not (x and x.get('t', '').startswith(('std::allocator', 'const std::allocator')))]
    if not a:
        return I.default_value(t)
    vals = [I.eval(x) for x in a]
    v0 = I.rv(vals[0])
    if isinstance(v0, ILst):
        return I.from_ilst(v0, t)
    if e['ck'] in ('copy', 'move') or (z3.is_expr(v0) and v0.sort() == I.S.sort(t)):
        if e['ck'] == 'move' and isinstance(vals[0], LV):
            moved(I, vals[0], t)
        return v0
    if isinstance(v0, Iter) and len(vals) >= 2:
        v1 = I.rv(vals[1])
        src = I.rv(v0.lv)
        if v0.rev:
            return reversed_seq(I, src, v0.idx, v1.idx)
        if I.S.elem(src) != I.S.sort(et):
            raise Unsupported('converting range constructor')
        return subseq(I, src, v0.idx, v1.idx)
    if isinstance(v0, MIter):
        keys = I.V.models.enum_map(I, v0.lv, None)
        raise Unsupported('range constructor from a map')
    if z3.is_expr(v0) and v0.sort() == z3.IntSort():
        x = converted(I, vals[1], et) if len(vals) > 1 else I.as_term(I.default_value(et), et)
        I.V.models.used.add('std::vector(n, value)')
        return I.S.mkseq(I.S.sort(et), v0, z3.K(z3.IntSort(), x))
    raise Unsupported('vector constructor')


def reversed_seq(I, src, first, last):
    S = I.S
    new = I.fresh('rev', S.sarr(src).sort())
    i = z3.Int('rvi')
    I.assume(z3.ForAll([i], z3.Select(new, i) == z3.Select(S.sarr(src), first - i), patterns=[z3.Select(new, i)]))
    return S.mkseq(S.elem(src), first - last, new)


# ------------------------------------------------------------------------------------- iterators
def it_val(I, x):
    v = I.rv(x)
    return v


def it_deref_lv(I, it):
    if isinstance(it, MIter):
        I.oblige('safety', 'dereference of end()', simp(z3.Not(it.end)))
        mv = I.rv(it.lv)
        vs = mv.sort().accessor(0, 1).range().range()
        if I.V.is_set(it.lv, I):
            return LV(('v', it.key))
        # first/second of the element: second is writable through the map
        pair = I.S.pair(it.key.sort(), vs)
        return MapElem(it, pair, mv, I)
    n = I.S.slen(I.rv(it.lv))
    I.oblige('safety', 'dereference of an iterator in range', simp(z3.And(0 <= it.idx, it.idx < n)))
    return LV(it.lv.root, it.lv.path + (('i', it.idx),))


class MapElem(LV):
    """element of a map reached through an iterator"""

    def __init__(self, it, pair, mv, I):
        LV.__init__(self, ('v', pair.constructor(0)(it.key, z3.Select(I.S.get(mv, 1), it.key))))


@ctor('$iter')
def iter_ctor(I, e, ti):
    """iterator to const_iterator conversion, copies"""
    if len(e['args']) == 1:
        v = I.rv(I.eval(e['args'][0]))
        if isinstance(v, (Iter, MIter)):
            return v
    raise Unsupported('construction of an iterator')


@m('$iter', 'operator* operator->')
def it_deref(I, e, f, o, args):
    it = I.rv(o[0])
    lv = it_deref_lv(I, it)
    if f['n'] == 'operator->':
        return PtrV(lv)
    return lv


@m('$iter', 'operator++ operator--')
def it_inc(I, e, f, o, args):
    it = I.rv(o[0])
    if isinstance(it, MIter):
        raise Unsupported('increment of a map iterator')
    d = 1 if f['n'] == 'operator++' else -1
    if it.rev:
        d = -d
    n = Iter(it.lv, simp(it.idx + d), it.rev)
    I.write(o[0], n)
    if len(args) > 0:
        return it
    return o[0]


@m('$iter', 'operator+ operator- operator+= operator-=')
def it_add(I, e, f, o, args):
    it = I.rv(o[0])
    d = I.rv(args[0])
    if isinstance(d, Iter):
        return it.idx - d.idx
    if '-' in f['n']:
        d = -d
    if it.rev:
        d = -d
    n = Iter(it.lv, simp(it.idx + d), it.rev)
    if '=' in f['n']:
        I.write(o[0], n)
        return o[0]
    return n


@m('$iter', 'operator=')
def it_assign(I, e, f, o, args):
    I.write(o[0], I.rv(args[0]))
    return o[0]


@m('$iter', 'base')
def it_base(I, e, f, o, args):
    it = I.rv(o[0])
    if it.rev:
        return Iter(it.lv, simp(it.idx + 1))
    return it


@m('$iter', 'operator== operator!=')
def it_eq_m(I, e, f, o, args):
    return it_cmp(I, f['n'], I.rv(o[0]), I.rv(args[0]))


@m('$iter', 'operator[]')
def it_index(I, e, f, o, args):
    it = I.rv(o[0])
    i = I.rv(args[0])
    return it_deref_lv(I, Iter(it.lv, simp(it.idx + i)))


def it_cmp(I, op, a, b):
    if isinstance(a, MIter) and isinstance(b, MIter):
        r = z3.Or(z3.And(a.end, b.end), z3.And(z3.Not(a.end), z3.Not(b.end), a.key == b.key))
    elif isinstance(a, Iter) and isinstance(b, Iter):
        r = a.idx == b.idx
        if op.endswith('<'):
            return a.idx < b.idx if not a.rev else a.idx > b.idx
        if op.endswith('>'):
            return a.idx > b.idx if not a.rev else a.idx < b.idx
        if op.endswith('<='):
            return a.idx <= b.idx
        if op.endswith('>='):
            return a.idx >= b.idx
    elif z3.is_expr(a) and z3.is_expr(b):
        r = a == b
    else:
        raise Unsupported('comparison of iterators')
    return z3.Not(r) if op.endswith('!=') else r


@free('std::operator== std::operator!= __gnu_cxx::operator== __gnu_cxx::operator!= std::operator< std::operator> '
      'std::operator<= std::operator>= __gnu_cxx::operator- std::operator- std::__cxx11::operator== '
      'std::__detail::operator== std::__detail::operator!=')
def std_cmp(I, e, f, o, args):
    a, b = I.rv(args[0]), I.rv(args[1])
    op = f['n'][len('operator'):]
    if isinstance(a, Iter) and isinstance(b, Iter) and op == '-':
        return a.idx - b.idx if not a.rev else b.idx - a.idx
    if isinstance(a, (Iter, MIter)):
        return it_cmp(I, f['n'], a, b)
    # std::function against nullptr, unique_ptr against nullptr
    if z3.is_expr(a) and z3.is_expr(b):
        if a.sort() != b.sort():
            if a.sort() == I.S.Fn:
                b = I.S.nullFn
            elif b.sort() == I.S.Fn:
                a = I.S.nullFn
        if op in ('==', '!='):
            r = I.S.deep_eq(a, b)
            return r if op == '==' else z3.Not(r)
        if a.sort() == z3.IntSort():
            return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[op]
        if a.sort() == I.S.Str:
            lt = z3.Function('less:' + a.sort().name(), a.sort(), a.sort(), z3.BoolSort())
            I.V.models.order(I, a.sort())
            return {'<': lt(a, b), '>': lt(b, a), '<=': z3.Not(lt(b, a)), '>=': z3.Not(lt(a, b))}[op]
    if isinstance(a, (Closure, FunRef, Bound)):
        return z3.BoolVal(op == '!=')
    raise Unsupported('std comparison')


@free('std::next std::prev')
def std_next(I, e, f, o, args):
    it = I.rv(args[0])
    n = I.rv(args[1]) if len(args) > 1 else z3.IntVal(1)
    if isinstance(it, MIter):
        raise Unsupported('std::next on a map')
    if f['q'].endswith('prev'):
        n = -n
    if it.rev:
        n = -n
    idx = simp(it.idx + n)
    if not it.rev:
        I.oblige('safety', 'std::next/prev stays in range',
                 simp(z3.And(0 <= idx, idx <= I.S.slen(I.rv(it.lv)))))
    return Iter(it.lv, idx, it.rev)


@free('std::advance')
def std_advance(I, e, f, o, args):
    it = I.rv(args[0])
    n = I.rv(args[1])
    idx = simp(it.idx + n)
    I.oblige('safety', 'std::advance stays in range', simp(z3.And(0 <= idx, idx <= I.S.slen(I.rv(it.lv)))))
    I.write(args[0], Iter(it.lv, idx, it.rev))


@free('std::distance')
def std_distance(I, e, f, o, args):
    a, b = I.rv(args[0]), I.rv(args[1])
    return simp(b.idx - a.idx)


@free('std::begin std::cbegin std::end std::cend')
def std_begin(I, e, f, o, args):
    v = I.rv(args[0])
    lv = args[0] if isinstance(args[0], LV) else I.new_slot(v)
    if isinstance(v, ILst):
        v = I.as_term(v, None)
        lv = I.new_slot(v)
    if I.S.is_map(v.sort()):
        return (map_begin if 'begin' in f['n'] else map_end)(I, e, f, (lv, False), [])
    return Iter(lv, z3.IntVal(0) if 'begin' in f['n'] else I.S.slen(v))


@free('std::size')
def std_size(I, e, f, o, args):
    return I.S.slen(I.as_term(args[0], None))


@free('std::back_inserter')
def std_back_inserter(I, e, f, o, args):
    return Inserter(args[0])


# ------------------------------------------------------------------------------------- algorithms
def pred_term(I, p, arg_lv):
    """The predicate applied to arg as a Bool term; it must be free of effects."""
    p = I.rv(p) if not isinstance(p, LV) else p
    pv = I.rv(p)

    def go():
        if isinstance(pv, (Closure, FunRef, Bound)) or (z3.is_expr(pv) and pv.sort() == I.S.Fn):
            return I.call_value(pv, [arg_lv], {}, None)
        if z3.is_expr(pv):
            # functor object of a repo class
            for name, r in I.p.records.items():
                if r.get('repo') and I.S.recs.get(name) is not None and I.S.recs[name] == pv.sort():
                    for g in I.p.funcs.values():
                        if g.get('cls') == name and g['n'] == 'operator()' and len(g['params']) == 1:
                            slot = I.new_slot(pv, 'functor')
                            return I.call_body(g, PtrV(slot), [arg_lv])
        raise Unsupported('predicate of kind %s' % type(pv).__name__)
    try:
        r = I.pure_call(go)
    except Impure:
        raise Unsupported('predicate with effects')
    return I.truth(r)


def elem_at(I, lv, idx):
    return LV(lv.root, lv.path + (('i', idx),))


def first_match(I, it0, it1, pt, name='pos'):
    """index of the first element of [it0,it1) for which pt(index) holds, or it1.idx"""
    lo, hi = simp(it0.idx), simp(it1.idx)
    if z3.is_int_value(lo) and z3.is_int_value(hi) and hi.as_long() - lo.as_long() <= 24:
        r = hi
        for j in range(hi.as_long() - 1, lo.as_long() - 1, -1):
            r = z3.If(pt(z3.IntVal(j)), z3.IntVal(j), r)
        return r
    r = I.fresh(name, z3.IntSort())
    j = z3.Int('fj')
    I.assume(z3.And(lo <= r, r <= hi))
    pt0 = pt

    def pt(x):
        outer, I.pure_facts = getattr(I, 'pure_facts', None), [lo <= x, x < hi]
        try:
            return pt0(x)
        finally:
            I.pure_facts = outer
    I.assume(z3.Implies(r < hi, pt(r)))
    body = z3.Not(pt(j))
    I.assume(z3.ForAll([j], z3.Implies(z3.And(lo <= j, j < r), body), patterns=pat_for(I, it0.lv, j)))
    return r


def pat_for(I, lv, j):
    try:
        arr = I.S.sarr(I.rv(lv))
        if z3.is_const(arr) or z3.is_app(arr):
            return [z3.Select(arr, j)]
    except Unsupported:
        pass
    return []


@free('std::find_if std::find_if_not std::find')
def alg_find(I, e, f, o, args):
    a, b = I.rv(args[0]), I.rv(args[1])
    neg = f['q'].endswith('_not')
    isval = f['q'] == 'std::find'
    if isinstance(a, MIter) and isval:
        if not a.first or not z3.is_true(simp(b.end)):
            raise Unsupported('find in a part of a set')
        v = I.as_term(args[2], None)
        if v.sort() != I.S.get(I.rv(a.lv), 0).sort().domain():      # a map would be searched for a pair
            raise Unsupported('find of a value in a map')
        return MIter(a.lv, v, simp(z3.Not(z3.Select(I.S.get(I.rv(a.lv), 0), v))))
    if isinstance(a, MIter):
        if not a.first or not z3.is_true(simp(b.end)):
            raise Unsupported('search in a part of a map')
        return find_in_map(I, a, b, args[2], neg)
    if a.rev:
        return find_rev(I, a, b, args[2], neg, isval)

    def pt(j):
        lv = elem_at(I, a.lv, j)
        if isval:
            c = I.S.deep_eq(I.rv(lv), I.as_term(args[2], None))
        else:
            c = pred_term(I, args[2], lv)
        return z3.Not(c) if neg else c
    r = first_match(I, a, b, pt)
    return Iter(a.lv, r)


def find_rev(I, a, b, p, neg, isval):
    r = I.fresh('rpos', z3.IntSort())

    def pt(j):
        lv = elem_at(I, a.lv, j)
        c = I.S.deep_eq(I.rv(lv), I.as_term(p, None)) if isval else pred_term(I, p, lv)
        return z3.Not(c) if neg else c
    j = z3.Int('fj')
    I.assume(z3.And(b.idx <= r, r <= a.idx))
    I.assume(z3.Implies(r > b.idx, pt(r)))
    I.assume(z3.ForAll([j], z3.Implies(z3.And(r < j, j <= a.idx), z3.Not(pt(j))), patterns=pat_for(I, a.lv, j)))
    return Iter(a.lv, r, rev=True)


def find_in_map(I, a, b, p, neg):
    mv = I.rv(a.lv)
    dom, vv = I.S.get(mv, 0), I.S.get(mv, 1)
    ks, vs = dom.sort().domain(), vv.sort().range()
    isset = I.V.is_set(a.lv, I)
    if mv.sort().name() in I.S.unordered:
        raise Unsupported('search in an unordered map')

    def pt(k):
        el = LV(('v', k if isset else I.S.pair(ks, vs).constructor(0)(k, z3.Select(vv, k))))
        c = pred_term(I, p, el)
        return z3.Not(c) if neg else c
    key = I.fresh('fkey', ks)
    end = I.fresh('fend', z3.BoolSort())
    k = z3.Const('fk', ks)
    lt = I.V.models.order(I, ks)
    I.assume(z3.Implies(z3.Not(end), z3.And(z3.Select(dom, key), pt(key))))
    # the literal maps of the code have few entries: expand over them
    ents = map_entries(I, dom)
    if ents is not None:
        for x in ents:
            I.assume(z3.Implies(z3.And(end, z3.Select(dom, x)), z3.Not(pt(x))))
            I.assume(z3.Implies(z3.And(z3.Not(end), z3.Select(dom, x), lt(x, key)), z3.Not(pt(x))))
        I.assume(z3.Implies(z3.Not(end), z3.Or(*[key == x for x in ents]) if ents else z3.BoolVal(False)))
    else:
        I.assume(z3.ForAll([k], z3.Implies(z3.And(z3.Select(dom, k), z3.Or(end, lt(k, key))), z3.Not(pt(k))),
                           patterns=[z3.Select(dom, k)]))
    return MIter(a.lv, key, end)


def map_entries(I, dom):
    """keys stored in a literal map term, or None"""
    out = []
    while z3.is_app(dom) and dom.decl().kind() == z3.Z3_OP_STORE:
        if z3.is_true(dom.arg(2)):
            out.append(dom.arg(1))
        else:
            return None
        dom = dom.arg(0)
    if z3.is_app(dom) and dom.decl().kind() == z3.Z3_OP_CONST_ARRAY and z3.is_false(dom.arg(0)):
        return out
    return None


@free('std::any_of std::all_of std::none_of')
def alg_any(I, e, f, o, args):
    a, b = I.rv(args[0]), I.rv(args[1])
    which = f['n']
    if isinstance(a, MIter):
        if not a.first or not z3.is_true(simp(b.end)):
            raise Unsupported('search in a part of a map')
        it = find_in_map(I, a, b, args[2], which == 'all_of')
        return z3.Not(it.end) if which == 'any_of' else it.end
    neg = which == 'all_of'

    def pt(j):
        c = pred_term(I, args[2], elem_at(I, a.lv, j))
        return z3.Not(c) if neg else c
    r = first_match(I, a, b, pt)
    hit = r != b.idx
    return hit if which == 'any_of' else z3.Not(hit)


@free('std::count_if std::count')
def alg_count(I, e, f, o, args):
    """counting through a prefix-count function: cnt(0)=0, cnt(i+1)=cnt(i)+[p(i)]"""
    a, b = I.rv(args[0]), I.rv(args[1])
    if isinstance(a, MIter):
        raise Unsupported('count on a map')

    def pt(j):
        lv = elem_at(I, a.lv, j)
        if f['n'] == 'count':
            return I.S.deep_eq(I.rv(lv), I.as_term(args[2], None))
        return pred_term(I, args[2], lv)
    return I.V.count(I, a.lv, a.idx, b.idx, pt)


@free('std::remove_if std::remove')
def alg_remove_if(I, e, f, o, args):
    """keeps, in order, the elements for which the predicate is false: described by a strictly increasing
    enumeration of the kept indices"""
    a, b = I.rv(args[0]), I.rv(args[1])
    S = I.S
    s = I.rv(a.lv)
    if not simp(a.idx).eq(z3.IntVal(0)) or not simp(b.idx == S.slen(s)).eq(z3.BoolVal(True)):
        raise Unsupported('remove_if on a part')

    def pt(j):
        lv = elem_at(I, a.lv, j)
        if f['n'] == 'remove':
            return S.deep_eq(I.rv(lv), I.as_term(args[2], None))
        return pred_term(I, args[2], lv)
    n = S.slen(s)
    src = S.sarr(s)
    out, w = filter_terms(I, s, lambda j: z3.Not(pt(j)))
    new = I.fresh('removed', src.sort())
    i = z3.Int('rmi')
    I.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < w), z3.Select(new, i) == z3.Select(out, i)),
                       patterns=[z3.Select(new, i)]))
    I.write(a.lv, S.mkseq(S.elem(s), n, new))
    return Iter(a.lv, w)


def filter_terms(I, s, keep):
    """(array, length): the elements of s whose index satisfies keep, in order: the element at kept position j is
    element number count(j), count being the number of kept positions before j"""
    S = I.S
    n, src = S.slen(s), S.sarr(s)
    g = I.V.counter(I, src, keep)
    nm = I.fresh('filt', z3.IntSort()).decl().name()
    idx = z3.Function('idx:' + nm, z3.IntSort(), z3.IntSort())
    out = I.fresh('filtered', src.sort())
    i, j = z3.Ints('qi qj')
    w = g(n)
    I.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < w),
                                       z3.And(0 <= idx(i), idx(i) < n, keep(idx(i)), g(idx(i)) == i,
                                              z3.Select(out, i) == z3.Select(src, idx(i)))),
                       patterns=[z3.Select(out, i)]))
    I.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n, keep(j)), z3.Select(out, g(j)) == z3.Select(src, j)),
                       patterns=[z3.Select(src, j)]))
    I.V.lemmas.add('filtering: each kept position has an element (by induction)')
    return out, w


@free('std::copy_if')
def alg_copy_if(I, e, f, o, args):
    a, b, out = I.rv(args[0]), I.rv(args[1]), I.rv(args[2])
    S = I.S
    s = I.rv(a.lv)
    if not isinstance(out, Inserter):
        raise Unsupported('copy_if target')
    part = s if simp(a.idx).eq(z3.IntVal(0)) and simp(b.idx == S.slen(s)).eq(z3.BoolVal(True)) \
        else subseq(I, s, a.idx, b.idx)
    slot = I.new_slot(part, 'cp')

    def keep(j):
        return pred_term(I, args[3], elem_at(I, slot, j))
    arr, w = filter_terms(I, part, keep)
    I.write(out.lv, concat(I, I.rv(out.lv), S.mkseq(S.elem(s), w, arr)))
    return out


@free('std::copy')
def alg_copy(I, e, f, o, args):
    a, b, out = I.rv(args[0]), I.rv(args[1]), I.rv(args[2])
    if not isinstance(out, Inserter) or isinstance(a, MIter):
        raise Unsupported('copy target')
    I.write(out.lv, concat(I, I.rv(out.lv), subseq(I, I.rv(a.lv), a.idx, b.idx)))
    return out


@free('std::transform')
def alg_transform(I, e, f, o, args):
    a, b, out = I.rv(args[0]), I.rv(args[1]), I.rv(args[2])
    if len(args) != 4:
        raise Unsupported('binary transform')
    S = I.S
    if isinstance(a, MIter):
        mp = a.lv
        if not a.first or not z3.is_true(simp(b.end)):
            raise Unsupported('transform of a part of a map')
        keys = I.V.models.enum_map(I, a.lv, None)
        n = S.slen(I.rv(keys))
        lo = z3.IntVal(0)
        ev = lambda j: I.V.models.map_elem(I, keys, mp, j)
        srcarr = S.sarr(I.rv(keys))
    else:
        n = simp(b.idx - a.idx)
        lo = a.idx
        ev = lambda j: elem_at(I, a.lv, j)
        srcarr = S.sarr(I.rv(a.lv))
    fn = I.rv(args[3])

    def ft(j):
        def go():
            if isinstance(fn, (Closure, FunRef, Bound)) or (z3.is_expr(fn) and fn.sort() == S.Fn):
                return I.call_value(fn, [ev(j)], e, None)
            raise Unsupported('transform functor')
        try:
            jv = z3.Int('ti')
            return I.as_term(I.pure_call_each(go, jv, z3.And(lo <= j, j < lo + n)), None)
        except Impure:
            raise Unsupported('transform with effects')
    i = z3.Int('ti')
    if isinstance(out, Inserter):
        tgt = out.lv
        es = S.elem(I.rv(tgt))
        new = I.fresh('mapped', z3.ArraySort(z3.IntSort(), es))
        x = ft(i + lo)
        I.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.Select(new, i) == x), patterns=[z3.Select(new, i)]))
        I.write(tgt, concat(I, I.rv(tgt), S.mkseq(es, n, new)))
        return out
    if isinstance(out, Iter):
        s = I.rv(out.lv)
        I.oblige('safety', 'transform target range', simp(z3.And(out.idx >= 0, out.idx + n <= S.slen(s))))
        new = I.fresh('mapped', S.sarr(s).sort())
        x = ft(i - out.idx + lo)
        I.assume(z3.ForAll([i], z3.Select(new, i) == z3.If(z3.And(out.idx <= i, i < out.idx + n), x,
                                                           z3.Select(S.sarr(s), i)), patterns=[z3.Select(new, i)]))
        I.write(out.lv, S.mkseq(S.elem(s), S.slen(s), new))
        return Iter(out.lv, simp(out.idx + n))
    raise Unsupported('transform target')


@free('std::for_each')
def alg_for_each(I, e, f, o, args):
    a, b, fn = I.rv(args[0]), I.rv(args[1]), I.rv(args[2])
    if not (isinstance(fn, (Closure, FunRef, Bound)) or (z3.is_expr(fn) and fn.sort() == I.S.Fn)):
        raise Unsupported('for_each functor')

    def go(x):
        I.full(lambda: I.call_value(fn, [x], e, None))
    if isinstance(a, MIter):
        if not a.first or not z3.is_true(simp(b.end)):
            raise Unsupported('for_each over a part of a map')
        I.each_loop(e, I.V.models.enum_map(I, a.lv, None), a.lv, go)
    elif isinstance(a, Iter) and isinstance(b, Iter) and not a.rev:
        I.each_loop(e, a.lv, None, go, a.idx, b.idx)
    else:
        raise Unsupported('for_each range')
    return fn


@free('lround llround round floor ceil trunc std::lround std::llround std::round std::floor std::ceil std::trunc')
def round_fp(I, e, f, o, args):
    v = I.rv(args[0])
    n = 'round' if 'round' in f['n'] else f['n']
    r = z3.fpRoundToIntegral({'round': z3.RNA(), 'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': z3.RTZ()}[n], v)
    if f['n'] not in ('lround', 'llround'):
        return r
    lim = z3.FPVal(float(1 << 63), v.sort())
    I.oblige('safety', 'rounded value representable as integer', z3.And(z3.fpGEQ(v, z3.fpNeg(lim)), z3.fpLT(v, lim)))
    # the whole number a double without fraction stands for: any function that keeps the order of these bounds
    n = z3.Function('whole:' + str(v.sort()), v.sort(), z3.IntSort())(r)
    I.approx = True
    I.assume(z3.And(-(1 << 63) <= n, n < (1 << 63)))
    I.assume(z3.Implies(z3.fpGEQ(r, z3.FPVal(0.0, v.sort())), n >= 0))
    return n


@free('isnan isinf isfinite std::isnan std::isinf std::isfinite')
def classify_fp(I, e, f, o, args):
    v = I.rv(args[0])
    if not z3.is_fp(v):
        raise Unsupported(f['q'])
    n, i = z3.fpIsNaN(v), z3.fpIsInf(v)
    return {'isnan': n, 'isinf': i, 'isfinite': z3.Not(z3.Or(n, i))}[f['n']]


@free('std::min std::max')
def alg_min(I, e, f, o, args):
    a, b = I.rv(args[0]), I.rv(args[1])
    if z3.is_fp(a):
        c = z3.fpLT(b, a) if f['n'] == 'min' else z3.fpLT(a, b)
    else:
        c = b < a if f['n'] == 'min' else a < b
    return z3.If(c, b, a)


@free('std::swap std::iter_swap')
def std_swap(I, e, f, o, args):
    a, b = args
    if f['n'] == 'iter_swap':
        a, b = it_deref_lv(I, I.rv(a)), it_deref_lv(I, I.rv(b))
    x, y = I.rv(a), I.rv(b)
    I.write(a, y)
    I.write(b, x)


@free('std::exchange')
def std_exchange(I, e, f, o, args):
    x = I.rv(args[0])
    v = I.rv(args[1])
    if z3.is_expr(x):
        t = f['params'][0]
        if isinstance(v, ILst):
            v = I.from_ilst(v, t)
        v = I.as_term(v, t)
        if v.sort() != x.sort() and x.sort() == I.S.Fn:
            v = I.S.nullFn
    I.write(args[0], v)
    return x


@free('std::move std::forward std::as_const std::addressof std::ref std::cref std::move_if_noexcept')
def std_move(I, e, f, o, args):
    if len(args) != 1:
        raise Unsupported('std::move algorithm')
    if f['n'] == 'addressof':
        a = args[0]
        if isinstance(a, LV):
            if I.S.is_entity(I.p.norm(I.p.noref(f['params'][0]))):
                return I.rv(a)
            if a.root[0] == 'h' and not a.path and a.root[1].startswith('*'):
                return a.root[2]
            return PtrV(a)
        return a if z3.is_expr(a) and a.sort() == z3.IntSort() else PtrV(a)
    return args[0]


I_move = std_move


@free('std::make_pair std::make_tuple std::tie')
def make_pair(I, e, f, o, args):
    if f['n'] == 'tie':
        raise Unsupported('std::tie')
    ti = I.p.ty(I.p.norm(f['ret']))
    vs = [I.as_term(I.coerce(x, t), t) for x, t in zip(args, ti['args'])]
    return I.S.sort(f['ret']).constructor(0)(*vs)


@free('std::get')
def std_get(I, e, f, o, args):
    i = (f.get('targs') or [0])[0]
    if not isinstance(i, int):
        raise Unsupported('std::get')
    a = args[0]
    if isinstance(a, LV):
        return LV(a.root, a.path + (('t', i),))
    return I.S.get(I.rv(a), i)


@ctor('std::pair', 'std::tuple')
def pair_ctor(I, e, ti):
    s = I.S.sort(e['t'])
    if e['ck'] in ('copy', 'move'):
        return I.rv(I.eval(e['args'][0]))
    vals = [I.eval(x) for x in e['args']]
    if not vals:
        return I.default_value(e['t'])
    if len(vals) == 1:
        v = I.rv(vals[0])
        if z3.is_expr(v) and v.sort() == s:
            return v
        if z3.is_expr(v):
            return s.constructor(0)(*[I.S.get(v, i) for i in range(s.constructor(0).arity())])
        raise Unsupported('pair conversion')
    vs = []
    for x, t, f_ in zip(vals, ti['args'], range(9)):
        ps = e['f'].get('params') or []
        vs.append(implicit(I, I.as_term(converted(I, x, t), t), t, ps[f_] if f_ < len(ps) else None))
        if f_ < len(ps) and I.p.ty(ps[f_])['k'] == 'rref' and isinstance(x, LV):
            moved(I, x, t)
    return s.constructor(0)(*vs)


# ------------------------------------------------------------------------------------- maps and sets
MAPS = ['std::map', 'std::unordered_map']
SETS = ['std::set', 'std::unordered_set']


def mdom(I, mv):
    return I.S.get(mv, 0)


def mval(I, mv):
    return I.S.get(mv, 1)


def mk(I, mv, dom, vals):
    return mv.sort().constructor(0)(dom, vals)


@m(MAPS + SETS, 'find')
def map_find(I, e, f, o, args):
    lv = objlv(I, o)
    k = I.as_term(args[0], None)
    return MIter(lv, k, simp(z3.Not(z3.Select(mdom(I, I.rv(lv)), k))))


@m(MAPS + SETS, 'count')
def map_count(I, e, f, o, args):
    k = I.as_term(args[0], None)
    return z3.If(z3.Select(mdom(I, I.rv(objlv(I, o))), k), z3.IntVal(1), z3.IntVal(0))


@m(MAPS + SETS, 'contains')
def map_contains(I, e, f, o, args):
    return z3.Select(mdom(I, I.rv(objlv(I, o))), I.as_term(args[0], None))


@m(MAPS + SETS, 'end cend')
def map_end(I, e, f, o, args):
    lv = objlv(I, o)
    ks = mdom(I, I.rv(lv)).sort().domain()
    return MIter(lv, z3.Const('nokey:' + ks.name(), ks), z3.BoolVal(True))


@m(MAPS + SETS, 'begin cbegin')
def map_begin(I, e, f, o, args):
    lv = objlv(I, o)
    mv = I.rv(lv)
    dom = mdom(I, mv)
    ks = dom.sort().domain()
    key = I.fresh('firstkey', ks)
    end = I.fresh('noelem', z3.BoolSort())
    k = z3.Const('bk', ks)
    lt = I.V.models.order(I, ks) if mv.sort().name() not in I.S.unordered else lambda x, y: z3.BoolVal(False)
    I.assume(z3.Implies(z3.Not(end), z3.Select(dom, key)))
    I.assume(z3.ForAll([k], z3.Implies(z3.Select(dom, k), z3.And(z3.Not(end), z3.Not(lt(k, key)))),
                       patterns=[z3.Select(dom, k)]))
    return MIter(lv, key, end, True)


@m(MAPS + SETS, 'empty')
def map_empty(I, e, f, o, args):
    lv = objlv(I, o)
    dom = mdom(I, I.rv(lv))
    ents = map_entries(I, dom)
    if ents is not None:
        return z3.BoolVal(len(ents) == 0)
    ks = dom.sort().domain()
    r = I.fresh('isempty', z3.BoolSort())
    k = z3.Const('ek', ks)
    w = I.fresh('someelem', ks)
    I.assume(z3.Implies(r, z3.ForAll([k], z3.Not(z3.Select(dom, k)), patterns=[z3.Select(dom, k)])))
    I.assume(z3.Implies(z3.Not(r), z3.Select(dom, w)))
    return r


@m(MAPS + SETS, 'size')
def map_size(I, e, f, o, args):
    lv = objlv(I, o)
    dom = mdom(I, I.rv(lv))
    ks = dom.sort().domain()
    card = z3.Function('card:' + ks.name(), dom.sort(), z3.IntSort())
    r = card(dom)
    ents = map_entries(I, dom)
    if ents == []:
        return z3.IntVal(0)
    I.assume(r >= 0)
    k = z3.Const('ck', ks)
    I.assume(z3.ForAll([k], z3.Implies(z3.Select(dom, k), r > 0), patterns=[z3.Select(dom, k)]))
    # a store adds one exactly when the key was absent
    d = dom
    n = 0
    while z3.is_app(d) and d.decl().kind() == z3.Z3_OP_STORE and z3.is_true(d.arg(2)) and n < 8:
        inner = d.arg(0)
        I.assume(card(d) == card(inner) + z3.If(z3.Select(inner, d.arg(1)), 0, 1))
        I.assume(card(inner) >= 0)
        d = inner
        n += 1
    return r


@m(MAPS, 'operator[]')
def map_index(I, e, f, o, args):
    lv = objlv(I, o)
    mv = I.rv(lv)
    k = I.as_term(args[0], None)
    ti = I.p.ty(I.p.norm(f['cls']))
    here = z3.Select(mdom(I, mv), k)
    hs = simp(here)
    if not z3.is_true(hs):
        d = I.as_term(I.default_value(ti['args'][1]), ti['args'][1])
        I.write(lv, mk(I, mv, z3.Store(mdom(I, mv), k, z3.BoolVal(True)),
                       z3.If(here, mval(I, mv), z3.Store(mval(I, mv), k, d))
                       if not z3.is_false(hs) else z3.Store(mval(I, mv), k, d)))
    return LV(lv.root, lv.path + (('m', k),))


@m(MAPS, 'at')
def map_at(I, e, f, o, args):
    lv = objlv(I, o)
    k = I.as_term(args[0], None)
    if not I.branch(z3.Select(mdom(I, I.rv(lv)), k)):
        raise Thr('std::out_of_range', I.S.noval)
    return LV(lv.root, lv.path + (('m', k),))


def map_put(I, lv, k, v, overwrite):
    mv = I.rv(lv)
    here = simp(z3.Select(mdom(I, mv), k))
    st = z3.Store(mval(I, mv), k, v)
    vals = st if overwrite or z3.is_false(here) else (mval(I, mv) if z3.is_true(here) else z3.If(here, mval(I, mv), st))
    I.write(lv, mk(I, mv, z3.Store(mdom(I, mv), k, z3.BoolVal(True)), vals))
    return here


def pairres(I, f, lv, k, here):
    return MPair(MIter(lv, k, z3.BoolVal(False)), z3.Not(here))


class MPair:
    """pair<iterator,bool>"""

    def __init__(self, it, b):
        self.it = it
        self.b = b


@m(MAPS, 'insert emplace try_emplace insert_or_assign')
def map_insert(I, e, f, o, args):
    lv = objlv(I, o)
    ti = I.p.ty(I.p.norm(f['cls']))
    kt, vt = ti['args'][0], ti['args'][1]
    if len(args) == 2 and f['n'] != 'insert':
        k = converted(I, args[0], kt)
        here0 = simp(z3.Select(mdom(I, I.rv(lv)), k))
        v = take_arg(I, args[1], vt, f, 1) if f['n'] == 'emplace' or z3.is_false(here0) else converted(I, args[1], vt)
    elif len(args) == 1 or len(args) == 2 and isinstance(I.rv(args[0]), MIter) and not isinstance(I.rv(args[1]), MIter):
        p = I.rv(args[-1])
        if isinstance(p, ILst):
            raise Unsupported('map insert list')
        k, v = I.S.get(p, 0), I.S.get(p, 1)
    else:
        raise Unsupported('map insert')
    here = map_put(I, lv, k, v, f['n'] == 'insert_or_assign')
    if len(args) == 2 and f['n'] == 'insert':
        return MIter(lv, k, z3.BoolVal(False))
    return MPair(MIter(lv, k, z3.BoolVal(False)), simp(z3.Not(here)))


@m(SETS, 'insert emplace')
def set_insert(I, e, f, o, args):
    lv = objlv(I, o)
    if len(args) != 1:
        raise Unsupported('set insert range')
    ti = I.p.ty(I.p.norm(f['cls']))
    k = converted(I, args[0], ti['args'][0])
    here = map_put(I, lv, k, z3.BoolVal(True), False)
    return MPair(MIter(lv, k, z3.BoolVal(False)), simp(z3.Not(here)))


@m(MAPS + SETS, 'erase')
def map_erase(I, e, f, o, args):
    lv = objlv(I, o)
    mv = I.rv(lv)
    a = I.rv(args[0])
    if isinstance(a, MIter):
        I.oblige('safety', 'erase of end()', simp(z3.Not(a.end)))
        I.write(lv, mk(I, mv, z3.Store(mdom(I, mv), a.key, z3.BoolVal(False)), mval(I, mv)))
        return MIter(lv, a.key, z3.BoolVal(False))
    k = I.as_term(a, None)
    here = z3.Select(mdom(I, mv), k)
    I.write(lv, mk(I, mv, z3.Store(mdom(I, mv), k, z3.BoolVal(False)), mval(I, mv)))
    return z3.If(here, z3.IntVal(1), z3.IntVal(0))


@m(MAPS + SETS, 'clear')
def map_clear(I, e, f, o, args):
    lv = objlv(I, o)
    I.write(lv, I.map_from_items(f['cls'], []))


@ctor('std::map', 'std::set', 'std::unordered_map', 'std::unordered_set')
def map_ctor(I, e, ti):
    if not e['args']:
        return I.default_value(e['t'])
    vals = [I.eval(x) for x in e['args'] if x['k'] != 'Unsupported']
    v = I.rv(vals[0])
    if isinstance(v, ILst):
        return I.map_from_items(e['t'], v.items)
    if z3.is_expr(v) and v.sort() == I.S.sort(e['t']):
        if e['ck'] == 'move' and isinstance(vals[0], LV):
            moved(I, vals[0], e['t'])
        return v
    if z3.is_expr(v) and I.S.is_seq(v.sort()):
        n = concrete_len(v, I.S)
        if n is not None:
            return I.map_from_items(e['t'], [I.S.at(v, i) for i in range(n)])
    if isinstance(v, Iter) and len(vals) == 2:
        raise Unsupported('set from range')
    raise Unsupported('map constructor')


# ------------------------------------------------------------------------------------- smart pointers
@m(['std::unique_ptr', 'std::shared_ptr'], 'get')
def ptr_get(I, e, f, o, args):
    return I.rv(o[0])


@m(['std::unique_ptr', 'std::shared_ptr'], 'operator->')
def ptr_arrow(I, e, f, o, args):
    v = I.rv(o[0])
    I.nonnull(v)
    return v


@m(['std::unique_ptr', 'std::shared_ptr'], 'operator*')
def ptr_star(I, e, f, o, args):
    v = I.rv(o[0])
    I.nonnull(v)
    return I.deref_addr(v, I.p.ty(I.p.norm(f['cls']))['args'][0])


@m(['std::unique_ptr'], 'release')
def ptr_release(I, e, f, o, args):
    lv = objlv(I, o)
    v = I.rv(lv)
    I.write(lv, z3.IntVal(0))
    return v


@m(['std::unique_ptr', 'std::shared_ptr'], 'reset')
def ptr_reset(I, e, f, o, args):
    lv = objlv(I, o)
    old = I.rv(lv)
    v = I.as_term(args[0], None) if args else z3.IntVal(0)
    I.write(lv, v)
    if f['cls'].startswith('std::unique_ptr'):
        I.V.models.delete_owned(I, old, None)


@m(['std::unique_ptr', 'std::shared_ptr'], 'operator=')
def ptr_assign(I, e, f, o, args):
    lv = objlv(I, o)
    v = I.as_term(args[0], None)
    old = I.rv(lv)
    a = args[0]
    if isinstance(a, LV) and I.p.ty(f['params'][0])['k'] == 'rref' and a.key() != lv.key():
        I.write(a, z3.IntVal(0))
        I.write(lv, v)
        I.V.models.delete_owned(I, old, None)
    else:
        I.write(lv, v)
        if not isinstance(a, LV):
            I.V.models.delete_owned(I, old, None)
    return lv


@m(['std::unique_ptr', 'std::shared_ptr'], 'operator')
def ptr_bool0(I, e, f, o, args):
    return I.rv(o[0]) != 0


for _t in ('std::unique_ptr', 'std::shared_ptr'):
    H[(_t, 'operator bool')] = ptr_bool0


@ctor('std::unique_ptr', 'std::shared_ptr')
def ptr_ctor(I, e, ti):
    a = [x for x in e['args']]
    if not a:
        return z3.IntVal(0)
    src = I.eval(a[0])
    v = I.as_term(src, None)
    k = I.p.ty(e['f']['params'][0])['k'] if e['f'].get('params') else None
    if isinstance(src, LV) and k == 'rref' and ti['tmpl'] == 'std::unique_ptr':
        I.write(src, z3.IntVal(0))
    return v


@free('std::make_unique std::make_shared')
def make_unique(I, e, f, o, args):
    t = f['targs'][0]
    ti = I.p.ty(I.p.norm(t))
    name = ti['name'] if ti['k'] == 'record' else t
    cands = []
    for g in I.p.funcs.values():
        if g.get('cls') == name and g.get('ctor') and len(g['params']) == len(args):
            cands.append(g)
    # choose by argument: copy/move constructors only for an argument of the same class
    if len(cands) > 1:
        same = args and len(args) == 1 and is_same_class(I, f, name)
        cands = [g for g in cands if (g['ctor'] in ('copy', 'move')) == bool(same)]
        if same and len(cands) > 1:
            kind = 'move' if I.p.ty(f['params'][0])['k'] == 'rref' else 'copy'
            cands = [g for g in cands if g['ctor'] == kind]
    if len(cands) > 1:
        raise Unsupported('overloaded constructor of ' + name)
    fo = None
    if cands:
        g = cands[0]
        fo = dict(id=g['id'], q=g['q'], n=g['n'], cls=g['cls'], params=[p['t'] for p in g['params']], ret='void')
    elif args:
        if ti['k'] != 'record' or not I.p.records.get(name, {}).get('repo'):
            ref = I.alloc(name)
            I.V.heap_types['*' + name] = t
            I.write(LV(('h', '*' + name, ref)), I.as_term(args[0], t))
            return ref
        c = I.V.contract_q(name + '::' + name.split('::')[-1].split('<')[0])
        if c is None:
            raise Unsupported('make_unique of ' + name)
        ref = I.alloc(name)
        I.apply_contract(c, dict(id=name, q=name, n='ctor', cls=name, params=[], ret='void'), ref, args)
        return ref
    return I.new_object(t, fo, args)


def is_same_class(I, f, name):
    ps = f.get('params') or []
    return bool(ps) and I.p.norm(I.p.noref(ps[0])) == name


# ------------------------------------------------------------------------------------- functions
@m('std::function', 'operator()')
def fn_call(I, e, f, o, args):
    return I.call_value(I.rv(o[0]), args, e, f)


def fn_bool(I, e, f, o, args):
    v = I.rv(o[0])
    if isinstance(v, (Closure, FunRef, Bound)):
        return z3.BoolVal(True)
    return v != I.S.nullFn


H[('std::function', 'operator bool')] = fn_bool


@ctor('std::function')
def fn_ctor(I, e, ti):
    if not e['args']:
        return I.S.nullFn
    src = I.eval(e['args'][0])
    v = I.rv(src)
    if z3.is_expr(v):
        if v.sort() == I.S.Fn:
            if e['ck'] == 'move' and isinstance(src, LV):
                moved(I, src, e['t'])
            return v
        if v.sort() == z3.IntSort():
            return I.S.nullFn
        # functor object of a repo class
        return I.as_term(Bound('functor', v), None)
    return I.as_term(v, e['t'])


@free('std::mem_fn')
def mem_fn(I, e, f, o, args):
    v = I.rv(args[0])
    if isinstance(v, FunRef):
        return Bound('memfn', v.f)
    raise Unsupported('mem_fn')


# ------------------------------------------------------------------------------------- atomics
@m(['std::atomic', 'std::atomic_bool', 'std::atomic_flag'], 'load')
def at_load(I, e, f, o, args):
    lv = objlv(I, o)
    return I.V.atomic_load(I, lv)


@m(['std::atomic', 'std::atomic_bool'], 'store')
def at_store(I, e, f, o, args):
    I.V.atomic_store(I, objlv(I, o), I.as_term(args[0], None))


@m(['std::atomic', 'std::atomic_bool'], 'operator=')
def at_assign(I, e, f, o, args):
    v = I.as_term(args[0], None)
    I.V.atomic_store(I, objlv(I, o), v)
    return v


@m(['std::atomic', 'std::atomic_bool'], 'exchange')
def at_exchange(I, e, f, o, args):
    lv = objlv(I, o)
    v = I.V.atomic_load(I, lv)
    I.V.atomic_store(I, lv, I.as_term(args[0], None))
    return v


def at_conv(I, e, f, o, args):
    return I.V.atomic_load(I, objlv(I, o))


for _n in ('bool', 'int', 'unsigned int', 'unsigned long', 'long'):
    H[('std::atomic', 'operator ' + _n)] = at_conv
H[('std::atomic', 'operator __integral_type')] = at_conv
H[('std::atomic', 'operator bool')] = at_conv


@ctor('std::atomic', 'std::atomic_bool')
def at_ctor(I, e, ti):
    if not e['args']:
        return I.default_value(e['t'])
    return I.as_term(I.eval(e['args'][0]), None)


# ------------------------------------------------------------------------------------- locks
@ctor('std::lock_guard', 'std::unique_lock', 'std::scoped_lock')
def lock_ctor(I, e, ti):
    if not e['args']:
        return Lock([], False)
    if e['ck'] == 'move':
        src = I.eval(e['args'][0])
        lk = I.rv(src)
        I.write(src, Lock([], False))
        return lk
    a = [I.eval(x) for x in e['args']]
    ms = [x for x in a if isinstance(x, LV)]
    tags = [x for x in e['args'] if 'defer_lock' in str(x.get('t')) or 'adopt_lock' in str(x.get('t'))
            or 'try_to_lock' in str(x.get('t'))]
    if tags:
        t = str(tags[0].get('t'))
        ms = ms[:1]
        if 'defer' in t:
            return Lock(ms, False)
        if 'adopt' in t:
            return Lock(ms, True)
        raise Unsupported('try_to_lock')
    for x in ms:
        I.acquire(x)
    return Lock(ms, True)


@m(['std::unique_lock'], 'lock')
def ul_lock(I, e, f, o, args):
    lk = I.rv(o[0])
    for x in lk.mutexes:
        I.acquire(x)
    I.write(objlv(I, o), Lock(lk.mutexes, True))


@m(['std::unique_lock'], 'unlock')
def ul_unlock(I, e, f, o, args):
    lk = I.rv(o[0])
    for x in lk.mutexes:
        I.release_mutex(x)
    I.write(objlv(I, o), Lock(lk.mutexes, False))


@m(['std::unique_lock'], 'owns_lock')
def ul_owns(I, e, f, o, args):
    return z3.BoolVal(I.rv(o[0]).held)


H[('std::unique_lock', 'operator bool')] = ul_owns


@m(['std::mutex', 'std::recursive_mutex'], 'lock')
def mx_lock(I, e, f, o, args):
    I.acquire(objlv(I, o))


@m(['std::mutex', 'std::recursive_mutex'], 'unlock')
def mx_unlock(I, e, f, o, args):
    I.release_mutex(objlv(I, o))


@m(['std::condition_variable', 'std::condition_variable_any'], 'notify_one notify_all')
def cv_notify(I, e, f, o, args):
    if I.pure:
        raise Impure()
    I.V.on_notify(I, objlv(I, o), f['n'])


@m(['std::condition_variable', 'std::condition_variable_any'], 'wait wait_for wait_until')
def cv_wait(I, e, f, o, args):
    if I.pure:
        raise Impure()
    lk = I.rv(args[0])
    if not isinstance(lk, Lock) or not lk.held:
        I.oblige('safety', 'condition wait without holding the lock', z3.BoolVal(False))
        raise Dead()
    timed = f['n'] != 'wait'
    pred = args[2] if timed and len(args) > 2 else args[1] if not timed and len(args) > 1 else None
    if pred is not None:
        # the predicate may already hold: then nothing is released
        c = pred_value(I, pred)
        I.V.on_wait(I, lk.mutexes[0])
        c = pred_value(I, pred)
        if timed:
            # returns the predicate value at the end
            return c
        I.assume(c)
        return None
    I.V.on_wait(I, lk.mutexes[0])
    if timed:
        return I.fresh('cv_status', z3.IntSort())
    return None


def pred_value(I, pred):
    try:
        return I.truth(I.pure_call(lambda: I.call_value(I.rv(pred), [], {}, None)))
    except Impure:
        return I.truth(I.rv(I.call_value(I.rv(pred), [], {}, None)))


# ------------------------------------------------------------------------------------- strings
STR = 'std::basic_string'


def strfun(I, name, ret, *args):
    if name not in ('len', 'cat', 'char', 'compare'):
        I.approx = True         # uninterpreted here: another way to cut the same text is not the same term
    f = z3.Function('str.' + name, *[a.sort() for a in args], ret)
    return f(*args)


def theory(I):
    return I.S.strings == 'theory'


def slength(I, s):
    if theory(I):
        return z3.Length(s)
    n = strfun(I, 'len', z3.IntSort(), s)
    if not I.pure:
        I.assume(n >= 0)
        I.assume((n == 0) == (s == I.S.lit('')))
    return n


@m(STR, 'empty')
def s_empty(I, e, f, o, args):
    return I.rv(objlv(I, o)) == I.S.lit('')


@m(STR, 'size length')
def s_size(I, e, f, o, args):
    return slength(I, I.rv(objlv(I, o)))


@m(STR, 'c_str data')
def s_cstr(I, e, f, o, args):
    return I.rv(objlv(I, o))


@m(STR, 'clear')
def s_clear(I, e, f, o, args):
    I.write(objlv(I, o), I.S.lit(''))


@m(STR, 'reserve')
def s_reserve(I, e, f, o, args):
    return None


def to_char(I, c):
    """one-character string from a char code"""
    c = simp(c)
    if z3.is_int_value(c):
        return I.S.lit(chr(c.as_long() % 256))
    if theory(I):
        return z3.StrFromCode(c)
    return strfun(I, 'char', I.S.Str, c)


def as_str(I, x):
    v = I.as_term(x, None)
    if v.sort() == z3.IntSort():
        return to_char(I, v)
    return v


def cat(I, a, b):
    if theory(I):
        return z3.Concat(a, b)
    # literal folding
    for k, t in I.S.lits.items():
        if t.eq(a) and k == '':
            return b
        if t.eq(b) and k == '':
            return a
    return strfun(I, 'cat', I.S.Str, a, b)


@free('std::operator+ std::__cxx11::operator+')
def s_plus(I, e, f, o, args):
    a, b = I.rv(args[0]), I.rv(args[1])
    if isinstance(a, Iter) or isinstance(b, Iter):
        it, n = (a, b) if isinstance(a, Iter) else (b, a)
        return Iter(it.lv, simp(it.idx + n), it.rev)
    return cat(I, as_str(I, args[0]), as_str(I, args[1]))


@m(STR, 'operator+= append push_back')
def s_append(I, e, f, o, args):
    lv = objlv(I, o)
    if len(args) != 1:
        raise Unsupported('string append')
    I.write(lv, cat(I, I.rv(lv), as_str(I, args[0])))
    return lv


@m(STR, 'operator=')
def s_assign(I, e, f, o, args):
    lv = objlv(I, o)
    v = as_str(I, args[0])
    I.write(lv, v)
    return lv


@ctor('std::basic_string', 'std::basic_string_view')
def s_ctor(I, e, ti):
    a = [x for x in e['args'] if x and 'allocator' not in str(x.get('t'))]
    if not a:
        return I.S.lit('')
    vals = [I.eval(x) for x in a]
    if len(vals) == 1:
        v = I.rv(vals[0])
        if e['ck'] == 'move' and isinstance(vals[0], LV):
            moved(I, vals[0], e['t'])
        if z3.is_expr(v) and v.sort() == I.S.Str:
            return v
        raise Unsupported('string from %s' % (v,))
    if len(vals) == 2:
        n, c = I.rv(vals[0]), I.rv(vals[1])
        if z3.is_expr(n) and n.sort() == z3.IntSort() and z3.is_expr(c) and c.sort() == z3.IntSort():
            n = simp(n)
            if z3.is_int_value(n):
                r = I.S.lit('')
                for _ in range(n.as_long()):
                    r = cat(I, r, to_char(I, c))
                return r
    if len(vals) == 3 and z3.is_expr(I.rv(vals[0])) and I.rv(vals[0]).sort() == I.S.Str:
        return substr(I, I.rv(vals[0]), I.rv(vals[1]), I.rv(vals[2]))
    raise Unsupported('string constructor')


@m(STR, 'compare')
def s_compare(I, e, f, o, args):
    s = I.rv(objlv(I, o))
    if len(args) == 1:
        b = as_str(I, args[0])
        return compared(I, s, b)
    if len(args) == 3 and theory(I):
        sub = substr(I, s, I.rv(args[0]), I.rv(args[1]))
        b = as_str(I, args[2])
        return compared(I, sub, b)
    raise Unsupported('string compare')


def compared(I, a, b):
    r = strfun(I, 'compare', z3.IntSort(), a, b)
    return z3.If(a == b, 0, z3.If(r >= 0, r + 1, r))


NPOS = (1 << 64) - 1


def substr(I, s, pos, n):
    if theory(I):
        L = z3.Length(s)
        if not I.branch(pos <= L):
            raise Thr('std::out_of_range', I.S.noval)
        return z3.SubString(s, pos, z3.If(n > L - pos, L - pos, n))
    return strfun(I, 'substr', I.S.Str, s, pos, n)


@m(STR, 'substr')
def s_substr(I, e, f, o, args):
    s = I.rv(objlv(I, o))
    pos = I.rv(args[0]) if args else z3.IntVal(0)
    n = I.rv(args[1]) if len(args) > 1 else z3.IntVal(NPOS)
    return substr(I, s, pos, n)


@m(STR, 'find rfind find_first_of find_last_of find_first_not_of find_last_not_of')
def s_find(I, e, f, o, args):
    s = I.rv(objlv(I, o))
    pat = as_str(I, args[0])
    n = f['n']
    if not theory(I):
        if len(args) > 1:
            p = simp(I.rv(args[1]))
            if not (z3.is_int_value(p) and p.as_long() in (0, NPOS)):
                return strfun(I, n + '2', z3.IntSort(), s, pat, p)
        return strfun(I, n, z3.IntSort(), s, pat)
    pos = I.rv(args[1]) if len(args) > 1 else None
    if pos is not None and n in ('rfind', 'find_last_of') and z3.is_int_value(simp(pos)) and simp(pos).as_long() == NPOS:
        pos = None
    I.assume(z3.Length(s) < (1 << 62))
    chars = None
    sp = simp(pat)
    if z3.is_string_value(sp):
        chars = sp.as_string()
    L = z3.Length(s)
    r = I.fresh('found', z3.IntSort())
    j = z3.Int('cj')
    a0 = I.rv(args[0])
    single = (chars is not None and len(chars) == 1) or (z3.is_expr(a0) and a0.sort() == z3.IntSort())

    def inset(i):
        if chars is None:
            return z3.Contains(pat, z3.SubString(s, i, 1))
        return z3.Or(*[z3.SubString(s, i, 1) == z3.StringVal(c) for c in chars]) if chars else z3.BoolVal(False)
    if n == 'find':
        st = pos if pos is not None else z3.IntVal(0)
        i = z3.IndexOf(s, pat, st)
        return z3.If(i >= 0, i, z3.IntVal(NPOS))
    if n == 'find_first_of' and single:
        st = pos if pos is not None else z3.IntVal(0)
        i = z3.IndexOf(s, pat, st)
        return z3.If(i >= 0, i, z3.IntVal(NPOS))
    if n == 'find_first_of' and chars:
        st = pos if pos is not None else z3.IntVal(0)
        best = z3.IntVal(NPOS)
        for c in chars:
            i = z3.IndexOf(s, z3.StringVal(c), st)
            best = z3.If(z3.And(i >= 0, i < best), i, best)
        return best
    if (n == 'rfind' or n == 'find_last_of') and single and pos is None:
        if I.pure:
            raise Impure()
        I.assume(z3.Or(z3.And(r == NPOS, z3.Not(z3.Contains(s, pat))),
                       z3.And(0 <= r, r < L, z3.SubString(s, r, 1) == pat, z3.Contains(s, pat),
                              s == z3.Concat(z3.SubString(s, 0, r + 1), z3.SubString(s, r + 1, L - r - 1)),
                              z3.Not(z3.Contains(z3.SubString(s, r + 1, L - r - 1), pat)))))
        return r
    raise Unsupported('string ' + n)


@m(STR, 'operator[] at front back')
def s_index(I, e, f, o, args):
    lv = objlv(I, o)
    s = I.rv(lv)
    L = slength(I, s)
    if f['n'] == 'front':
        i = z3.IntVal(0)
        I.oblige('safety', 'front() on an empty string', L > 0)
    elif f['n'] == 'back':
        i = L - 1
        I.oblige('safety', 'back() on an empty string', L > 0)
    else:
        i = I.rv(args[0])
        I.oblige('safety', 'string index', z3.And(0 <= i, i <= L))
    if theory(I):
        r = z3.If(i < L, z3.StrToCode(z3.SubString(s, i, 1)), z3.IntVal(0))
        return r
    return strfun(I, 'at', z3.IntSort(), s, i)


@free('std::to_string std::__cxx11::to_string')
def to_string(I, e, f, o, args):
    v = I.as_term(args[0], None)
    fn = z3.Function('to_string:' + v.sort().name(), v.sort(), I.S.Str)
    return fn(v)
