"""Contracts of the registries (C26): a map from names to constructors."""
import re

import z3

from contracts.core import N, params_are
from engine.verify import CALL, contract, forall

Int = z3.IntSort()
REGISTER = 80

REGS = [('Instruction', N + 'InstructionRegistry', 'm_instruction_map'), ('Variable', N + 'VariableRegistry', 'm_variable_map')]


def registries():
    for kind, cls, mem in REGS:
        field = cls + '::' + mem

        def dom(c, v, f=field):
            return c.S.get(v[f], 0)

        def val(c, v, f=field):
            return c.S.get(v[f], 1)

        @contract(cls + '::Register' + kind, props=['C26'], modifies=['this.' + field], nparams=2)
        def register(c, dom=dom, val=val, field=field, kind=kind):
            name, make = c.old.arg(0), c.old.arg(1)
            known = z3.Select(dom(c, c.old), name)
            c.throws(N + 'InvalidOperationException', known)
            if c.mode == 'call':
                c.emit(REGISTER, obj=c.this, fn=make, args=[name])
            c.ensures('accepts a new name', lambda: c.result)
            c.ensures('the name creates with exactly this constructor', lambda: z3.And(
                z3.Select(dom(c, c.new), name), z3.Select(val(c, c.new), name) == make))
            c.ensures('nothing else changes', lambda: forall([name.sort()], lambda k: z3.Implies(k != name, z3.And(
                z3.Select(dom(c, c.new), k) == z3.Select(dom(c, c.old), k),
                z3.Implies(z3.Select(dom(c, c.old), k), z3.Select(val(c, c.new), k) == z3.Select(val(c, c.old), k))))))
            c.ensures('a refused name keeps every registration as it is', lambda: forall([name.sort()], lambda k: z3.And(
                z3.Select(dom(c, c.new), k) == z3.Select(dom(c, c.old), k),
                z3.Implies(z3.Select(dom(c, c.old), k), z3.Select(val(c, c.new), k) == z3.Select(val(c, c.old), k)))), on='throw')

        @contract(cls + '::Create', props=['C26'], modifies=['trace', 'alloc'])
        def create(c, dom=dom, val=val):
            name = c.old.arg(0)
            known = z3.Select(dom(c, c.old), name)
            c.requires('no registered constructor is null', forall([name.sort()], lambda k: z3.Implies(
                z3.Select(dom(c, c.old), k), z3.Select(val(c, c.old), k) != c.S.nullFn)))
            c.throws(N + 'InvalidOperationException', z3.Not(known))

            def made():
                if len(c.log) != 1:
                    return False
                e = c.log[0]
                return z3.And(e['tag'] == CALL, e['fn'] == z3.Select(val(c, c.old), name), c.result == e['ret'])
            c.ensures('creates with the constructor registered for the name, once', made)

        @contract(cls + '::IsRegistered' + kind + 'Name', props=['C26'])
        def known(c, dom=dom):
            c.ensures('says whether the name was registered', lambda: c.result == z3.Select(dom(c, c.old), c.old.arg(0)))

        def listed(L, dom=dom, q=cls + '::Registered' + kind + 'Names'):
            if L.k is None or L.c.f['q'] != q:
                return None
            S, out = L.S, []
            for n, w in L.changed(L.seq.sort()):
                out += [S.slen(w) == L.k, forall([Int], lambda i: z3.Implies(z3.And(0 <= i, i < L.k), S.at(w, i) == S.at(L.seq, i)))]
            return out

        @contract(cls + '::Registered' + kind + 'Names', props=['C26'], loops=[listed])
        def names(c, dom=dom):
            S = c.S
            c.ensures('lists only registered names', lambda: forall([Int], lambda i: z3.Implies(
                z3.And(0 <= i, i < S.slen(c.result)), z3.Select(dom(c, c.old), S.at(c.result, i)))))
            c.ensures('lists no name twice', lambda: forall([Int, Int], lambda i, j: z3.Implies(
                z3.And(0 <= i, i < j, j < S.slen(c.result)), S.at(c.result, i) != S.at(c.result, j))))
            i = z3.Int('li')
            c.ensures('lists every registered name', lambda: forall([S.at(c.result, 0).sort()], lambda k: z3.Implies(
                z3.Select(dom(c, c.old), k), z3.Exists([i], z3.And(0 <= i, i < S.slen(c.result), S.at(c.result, i) == k)))))

        # the template that registers a class under its own type name
        @contract(N + 'Register' + kind, props=['C26'], modifies=['trace', 'arg:0'], nparams=1)
        def by_type(c, cls=cls):
            made = re.search(r'<([\w:]+)>\(', c.f['id']).group(1)
            c.may_throw(N + 'InvalidOperationException')

            def once():
                reg = c.logged(REGISTER)
                if len(reg) != 1:
                    return False
                t = c.I.store.get('global:%s::Type' % made)
                if t is None:
                    return False
                return c.I.as_term(reg[0]['args'][0], None) == t
            c.ensures('registers once, under the name of the type', once)

            def right_type():
                """the constructor handed over makes one new object of the type (what its constructor does is not looked at)"""
                out, I = [], c.I
                I.new_object = lambda t, fobj, args: (out.append(I.p.norm(t)), I.alloc(I.p.norm(t)))[1]
                try:
                    v = I.call_value(c.logged(REGISTER)[0]['fn'], [], None)
                finally:
                    del I.new_object
                if out != [made]:
                    return False
                return z3.And(v != 0, c.V.dyn(v) == c.V.class_id(made))
            c.ensures('with a constructor that makes an object of the type', right_type)


registries()
