"""Mapping of C++ types to Z3 sorts."""
import z3

from .ir import Program


def usable(p):
    """z3 refuses case distinctions in patterns"""
    if isinstance(p, z3.PatternRef):
        c = p.ctx
        return all(usable(z3.z3._to_expr_ref(z3.Z3_get_pattern(c.ref(), p.ast, i), c)) for i in range(z3.Z3_get_pattern_num_terms(c.ref(), p.ast)))
    if z3.is_quantifier(p):
        return False
    if z3.is_app(p):
        if p.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_IMPLIES):
            return False
        return all(usable(x) for x in p.children())
    return True


_forall = z3.ForAll


def safe_forall(vs, body, patterns=(), **kw):
    return _forall(vs, body, patterns=[p for p in patterns if usable(p)], **kw)


z3.ForAll = safe_forall


class Unsupported(Exception):
    pass


SEQ_T = {'std::vector', 'std::deque', 'std::list', 'std::initializer_list', 'std::array'}
MAP_T = {'std::map', 'std::unordered_map'}
SET_T = {'std::set', 'std::unordered_set'}
PTR_T = {'std::unique_ptr', 'std::shared_ptr'}
ATOMIC_T = {'std::atomic', 'std::__atomic_base', 'std::atomic_bool'}
LOCK_T = {'std::lock_guard', 'std::unique_lock', 'std::scoped_lock'}
EXC_Q = 'std::exception'


class Sorts:
    def __init__(self, prog: Program, entities=(), strings='opaque'):
        self.p = prog
        self.entities = set(entities)
        self.unordered = set()
        self.strings = strings
        self.cache = {}
        self.seqs = {}
        self.maps = {}
        self.recs = {}
        self.opaque = {}
        self.Val = z3.DeclareSort('Val')
        self.Fn = z3.DeclareSort('Fn')
        self.nullFn = z3.Const('nullFn', self.Fn)
        self.Str = z3.StringSort() if strings == 'theory' else z3.DeclareSort('Str')
        self.lits = {}
        self.noval = z3.Const('noval', self.Val)
        d = z3.Datatype('Event')
        d.declare('Ev', ('tag', z3.IntSort()), ('fn', self.Fn), ('obj', z3.IntSort()),
                  ('a', self.Val), ('b', self.Val), ('c', self.Val), ('lk', z3.IntSort()))
        self.Event = d.create()
        self.axioms = []

    # ---------------------------------------------------------------- strings
    def lit(self, s):
        if self.strings == 'theory':
            return z3.StringVal(s)
        if s not in self.lits:
            self.lits[s] = z3.Const('"%s"' % s, self.Str)
        return self.lits[s]

    def lit_axioms(self):
        if self.strings == 'theory' or len(self.lits) < 2:
            return []
        return [z3.Distinct(*self.lits.values())]

    # ---------------------------------------------------------------- sequences
    def seq(self, elem):
        k = elem.sexpr() if hasattr(elem, 'sexpr') else str(elem)
        if k not in self.seqs:
            d = z3.Datatype('Seq<%s>' % elem.name())
            d.declare('mkseq', ('len', z3.IntSort()), ('arr', z3.ArraySort(z3.IntSort(), elem)))
            s = d.create()
            self.seqs[k] = (s, elem)
            self.cache[('seqelem', s.name())] = elem
        return self.seqs[k][0]

    def is_seq(self, sort):
        return sort.kind() == z3.Z3_DATATYPE_SORT and sort.name().startswith('Seq<')

    def is_map(self, sort):
        return sort.kind() == z3.Z3_DATATYPE_SORT and sort.name().startswith('Map<')

    def mp(self, k, v, kind=''):
        key = (kind + k.name(), v.name())
        if key not in self.maps:
            d = z3.Datatype('Map<%s,%s>' % key)
            d.declare('mkmap', ('dom', z3.ArraySort(k, z3.BoolSort())), ('val', z3.ArraySort(k, v)))
            self.maps[key] = d.create()
        return self.maps[key]

    def pair(self, *sorts):
        key = 'Tup<%s>' % ','.join(s.name() for s in sorts)
        if key not in self.recs:
            d = z3.Datatype(key)
            d.declare('mktup', *[('f%d' % i, s) for i, s in enumerate(sorts)])
            self.recs[key] = d.create()
        return self.recs[key]

    def opq(self, name):
        if name not in self.opaque:
            self.opaque[name] = z3.DeclareSort('O:' + name)
        return self.opaque[name]

    # ---------------------------------------------------------------- classification
    def is_entity(self, name):
        """classes handled by reference (identity matters)"""
        if name in self.entities:
            return True
        r = self.p.records.get(name)
        if not r or not r.get('repo') or not r.get('poly'):
            return False
        return not self.is_exception(name)

    def is_exception(self, name):
        return any(b == 'std::exception' or b.startswith('std::') and ('exception' in b or b.endswith('error'))
                   for b in self.p.bases(name))

    def is_value_record(self, name):
        r = self.p.records.get(name)
        return bool(r and r.get('repo') and not self.is_entity(name) and not r.get('lambda'))

    # ---------------------------------------------------------------- type -> sort
    def sort(self, t):
        t0 = t
        t = self.p.norm(t)
        if t in self.cache:
            return self.cache[t]
        s = self._sort(t, t0)
        self.cache[t] = s
        return s

    def _sort(self, t, t0):
        i = self.p.ty(t)
        if i['k'] == '?':
            i = self.p.ty(t0)
        k = i['k']
        if k == 'bool':
            return z3.BoolSort()
        if k in ('int', 'enum'):
            return z3.IntSort()
        if k == 'float':
            return z3.Float64() if i['w'] == 64 else z3.Float32()
        if k in ('nullptr', 'memptr'):
            return z3.IntSort()
        if k == 'ptr':
            to = self.p.ty(i['to'])
            if to['k'] == 'func':
                return self.Fn
            if to['k'] == 'int' and to['w'] == 8:
                return self.Str
            return z3.IntSort()
        if k == 'array':
            return self.seq(self.sort(i['to']))
        if k == 'func':
            return self.Fn
        if k == 'record':
            tm = i.get('tmpl') or i['name']
            a = i.get('args') or []
            if tm in ('std::basic_string', 'std::__cxx11::basic_string', 'std::basic_string_view'):
                return self.Str
            if tm in SEQ_T:
                return self.seq(self.sort(a[0]))
            if tm in MAP_T:
                r = self.mp(self.sort(a[0]), self.sort(a[1]), 'hash:' if 'unordered' in tm else '')
                if 'unordered' in tm:
                    self.unordered.add(r.name())
                return r
            if tm in SET_T:
                r = self.mp(self.sort(a[0]), z3.BoolSort(), 'hashset:' if 'unordered' in tm else 'set:')
                if 'unordered' in tm:
                    self.unordered.add(r.name())
                return r
            if tm in ('std::pair', 'std::tuple'):
                return self.pair(*[self.sort(x) for x in a])
            if tm == 'std::function':
                return self.Fn
            if tm in PTR_T:
                return z3.IntSort()
            if tm in ATOMIC_T:
                return self.sort(a[0]) if a else z3.BoolSort()
            if tm == 'std::reference_wrapper':
                return z3.IntSort()
            name = i['name']
            if self.is_entity(name):
                return z3.IntSort()
            if self.is_value_record(name):
                return self.rec(name)
            return self.opq(name)
        raise Unsupported('type ' + str(t))

    def rec(self, name):
        if name in self.recs:
            return self.recs[name]
        fs = self.p.fields(name)
        d = z3.Datatype(name)
        self.recs[name] = None
        decl = []
        for c, n, t, _ in fs:
            if self.p.isref(t):
                decl.append(('%s::%s' % (c, n), z3.IntSort()))
            else:
                s = self.sort(t)
                if s is None:
                    raise Unsupported('recursive value type ' + name)
                decl.append(('%s::%s' % (c, n), s))
        if not decl:
            decl = [('%s::#empty' % name, z3.BoolSort())]
        d.declare('mk:' + name, *decl)
        self.recs[name] = d.create()
        self.cache[('recfields', name)] = [x[0] for x in decl]
        return self.recs[name]

    def rec_fields(self, sort):
        """field keys of a record datatype"""
        c = sort.constructor(0)
        return [sort.accessor(0, i).name() for i in range(c.arity())]

    def get(self, term, i):
        """field i of a datatype term, simplified when built by its constructor"""
        s = term.sort()
        if z3.is_app(term) and term.decl().eq(s.constructor(0)):
            return term.arg(i)
        return s.accessor(0, i)(term)

    def getf(self, term, key):
        s = term.sort()
        for i in range(s.constructor(0).arity()):
            if s.accessor(0, i).name() == key:
                return self.get(term, i)
        raise Unsupported('no field %s in %s' % (key, s))

    def setf(self, term, key, v):
        s = term.sort()
        n = s.constructor(0).arity()
        out, hit = [], False
        for i in range(n):
            if s.accessor(0, i).name() == key:
                out.append(v)
                hit = True
            else:
                out.append(self.get(term, i))
        if not hit:
            raise Unsupported('no field %s in %s' % (key, s))
        return s.constructor(0)(*out)

    def seti(self, term, i, v):
        s = term.sort()
        n = s.constructor(0).arity()
        return s.constructor(0)(*[v if j == i else self.get(term, j) for j in range(n)])

    # seq helpers
    def slen(self, s):
        return self.get(s, 0)

    def sarr(self, s):
        return self.get(s, 1)

    def at(self, s, i):
        return z3.Select(self.sarr(s), i)

    def mkseq(self, elem, n, arr):
        return self.seq(elem).constructor(0)(n, arr)

    def elem(self, s):
        return self.sarr(s).sort().range()

    def lit_seq(self, elem, items, arr=None):
        a = arr if arr is not None else z3.Const('nil:' + elem.name(), z3.ArraySort(z3.IntSort(), elem))
        for i, x in enumerate(items):
            a = z3.Store(a, i, x)
        return self.mkseq(elem, z3.IntVal(len(items)), a)

    def seq_eq(self, a, b):
        if a.eq(b):
            return z3.BoolVal(True)
        j = z3.FreshInt('j')
        es = self.elem(a)
        x, y = z3.Select(self.sarr(a), j), z3.Select(self.sarr(b), j)
        body = z3.Implies(z3.And(0 <= j, j < self.slen(a)), self.deep_eq(x, y))
        return z3.And(self.slen(a) == self.slen(b), z3.ForAll([j], body))

    def deep_eq(self, a, b):
        """Semantic equality: sequences by length and elements, records field by field."""
        if a.eq(b):
            return z3.BoolVal(True)
        s = a.sort()
        if self.is_seq(s):
            return self.seq_eq(a, b)
        if s.kind() == z3.Z3_DATATYPE_SORT and not self.is_map(s) and self.has_seq(s):
            n = s.constructor(0).arity()
            return z3.And(*[self.deep_eq(self.get(a, i), self.get(b, i)) for i in range(n)])
        if self.is_map(s):
            k = s.accessor(0, 0).range().domain()
            x = z3.FreshConst(k, 'k')
            da, db = self.get(a, 0), self.get(b, 0)
            va, vb = self.get(a, 1), self.get(b, 1)
            return z3.ForAll([x], z3.And(da[x] == db[x], z3.Implies(da[x], self.deep_eq(va[x], vb[x]))))
        return a == b

    def has_seq(self, s):
        k = ('hasseq', s.name())
        if k in self.cache:
            return self.cache[k]
        r = False
        if s.kind() == z3.Z3_DATATYPE_SORT:
            if self.is_seq(s) or self.is_map(s):
                r = True
            else:
                for i in range(s.constructor(0).arity()):
                    if self.has_seq(s.accessor(0, i).range()):
                        r = True
        self.cache[k] = r
        return r

    def box(self, v):
        f = z3.Function('box:' + v.sort().name(), v.sort(), self.Val)
        return f(v)

    def typeinv(self, t, v):
        """range facts that hold for every value of the C++ type"""
        i = self.p.ty(self.p.norm(t))
        out = []
        if i['k'] == 'int' or (i['k'] == 'enum' and i.get('w')):
            w, s = i['w'], i['s']
            if i['k'] == 'enum' and not i.get('fixed'):
                # unscoped enum without fixed type: values of the smallest bit field holding the enumerators
                vals = [e['v'] for e in self.p.enums.get(i['name'], [])]
                hi = max(vals + [1])
                b = max(hi, 1).bit_length()
                lo = 0 if min(vals + [0]) >= 0 else -(1 << b)
                out.append(z3.And(lo <= v, v < (1 << b)))
            elif s:
                out.append(z3.And(-(1 << (w - 1)) <= v, v < (1 << (w - 1))))
            else:
                out.append(z3.And(0 <= v, v < (1 << w)))
        elif z3.is_expr(v):
            out += self.sortinv(v)
        return out

    def sortinv(self, v):
        out = []
        s = v.sort()
        if self.is_seq(s):
            out.append(z3.And(self.slen(v) >= 0, self.slen(v) < (1 << 62)))
        elif s.kind() == z3.Z3_DATATYPE_SORT and not self.is_map(s) and s.name() != 'Event':
            for i in range(s.constructor(0).arity()):
                out += self.sortinv(self.get(v, i))
        return out
