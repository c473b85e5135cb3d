"""Lemmas used by the verifier, each discharged by the solver through its induction steps."""
import z3


def discharge(names):
    out = []
    for n in names:
        fn = LEMMAS.get(n)
        if fn is None:
            out.append(dict(lemma=n, result='assumed'))
            continue
        ok = True
        parts = []
        for part, hyps, goal in fn():
            s = z3.Solver()
            s.set('timeout', 5000)
            for h in hyps:
                s.add(h)
            s.add(z3.Not(goal))
            r = s.check()
            parts.append((part, str(r)))
            ok = ok and r == z3.unsat
        out.append(dict(lemma=n, result='proved' if ok else 'open', steps=len(parts)))
    return out


def counting():
    """g(0)=0, g(j+1)=g(j)+[p(j)]: base and step of each claim"""
    I = z3.IntSort()
    g = z3.Function('g', I, I)
    h = z3.Function('h', I, I)
    p = z3.Function('p', I, z3.BoolSort())
    q = z3.Function('q', I, z3.BoolSort())
    j, k, i = z3.Ints('j k i')
    x = z3.Int('x')

    def defn(f, pr):
        return [f(0) == 0, z3.ForAll([x], z3.Implies(x >= 0, f(x + 1) == f(x) + z3.If(pr(x), 1, 0)), patterns=[f(x + 1)]),
                z3.Implies(k >= 0, f(k + 1) == f(k) + z3.If(pr(k), 1, 0))]
    D = defn(g, p)
    b = lambda j: z3.And(0 <= g(j), g(j) <= j)
    yield 'bounds base', D, b(z3.IntVal(0))
    yield 'bounds step', D + [k >= 0, b(k)], b(k + 1)
    m = lambda j, k: z3.And(g(j) <= g(k), g(k) - g(j) <= k - j)
    yield 'monotone base', D, m(j, j)
    yield 'monotone step', D + [0 <= j, j <= k, m(j, k)], m(j, k + 1)
    st = lambda j, k: z3.Implies(p(j), g(j) < g(k))
    yield 'strict base', D + [z3.And(k == j, j >= 0)], st(j, j + 1) if False else z3.Implies(p(k), g(k) < g(k + 1))
    yield 'strict step', D + [0 <= j, j < k, st(j, k)], st(j, k + 1)
    E = D + defn(h, q)
    same = z3.ForAll([i], z3.Implies(i >= 0, p(i) == q(i)))
    yield 'congruence base', E + [same], g(0) == h(0)
    yield 'congruence step', E + [same, k >= 0, g(k) == h(k)], g(k + 1) == h(k + 1)
    neg = z3.ForAll([i], z3.Implies(i >= 0, p(i) == z3.Not(q(i))))
    yield 'complement base', E + [neg], g(0) == 0 - h(0)
    yield 'complement step', E + [neg, k >= 0, g(k) == k - h(k)], g(k + 1) == k + 1 - h(k + 1)


def filtering():
    """the element at kept position i exists: least j with g(j+1) = i+1 is kept and has g(j) = i"""
    I = z3.IntSort()
    g = z3.Function('g', I, I)
    p = z3.Function('p', I, z3.BoolSort())
    i, k, j = z3.Ints('i k j')
    D = [g(0) == 0, z3.Implies(k >= 0, g(k + 1) == g(k) + z3.If(p(k), 1, 0))]
    ex = lambda n: z3.Implies(z3.And(0 <= i, i < g(n)), z3.Exists([j], z3.And(0 <= j, j < n, p(j), g(j) == i)))
    yield 'existence base', D, ex(z3.IntVal(0))
    yield 'existence step', D + [k >= 0, ex(k)], ex(k + 1)


LEMMAS = {
    'counting function: bounds, monotonicity, congruence (by induction)': counting,
    'filtering: each kept position has an element (by induction)': filtering,
}
