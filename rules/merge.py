"""Specifications of merging, shared by C07 and C08."""
from vlib import terms as t
from vlib.terms import mk
from vlib.spec import rewrite, lens
from rules.entry import kvp

V, K = 'Value', 'KeyValuePairs'
SCALARS = ('Null', 'Integer', 'Float', 'Boolean', 'String')
ERR = t.err(t.UNIT)


class Fns:
    def __init__(self, ctx):
        self.vm = ctx.body(adt=V, trait=None, name='merge')
        for nm in ('new_merged', 'merge', 'as_merged', 'new_unmerged', 'unmerge', 'as_unmerged'):
            setattr(self, 'k_' + nm, kvp(ctx, 'Body', nm))
            setattr(self, 'b_' + nm, kvp(ctx, 'Block', nm))


def fst(e):
    return t.f(e, '0', 'tup')


def snd(e):
    return t.f(e, '1', 'tup')


def conflict():
    return ('brk', ERR)


def entries_of(S, b):
    v = S.variant(b, K)
    p = S.vf(b, K, v)
    return t.entries(p) if v == 'Merged' else p


def block_union(S, old, new):
    """all labelled blocks of both; the same labels twice are an error"""
    def step(acc, e):
        v = S.variant(acc, K)
        p = S.vf(acc, K, v)
        if v == 'Merged':
            if S.decide(t.haskey(p, fst(e))):
                return conflict()
            return 'cont', S.mk(K, v, t.put(p, fst(e), snd(e)))
        if S.decide(t.any_(p, S.ev.lam(lambda o: t.eq(fst(o), fst(e))))):
            return conflict()
        return 'cont', S.mk(K, v, t.cat(p, t.lst(t.tup(fst(e), snd(e)))))
    return S.tryfold(entries_of(S, new), old, step)


def merged_body(S, fns, it):
    def step(acc, e):
        k = fst(e)
        good, v = S.res(S.call(fns.vm, snd(e)))
        if not good:
            return 'brk', t.err(v)
        if not S.decide(t.haskey(acc, k)):
            return 'cont', t.put(acc, k, v)
        old = t.get(acc, k)
        ov, nv = S.variant(old, V), S.variant(v, V)
        if ov not in ('Object', 'Block') or ov != nv:
            return conflict()
        a, b = S.vf(old, V, ov), S.vf(v, V, nv)
        if ov == 'Object':
            return 'cont', t.put(acc, k, S.mk(V, ov, t.cat(a, b)))
        fine, st = block_union(S, a, b)
        return ('cont', t.put(acc, k, S.mk(V, ov, st))) if fine else conflict()
    good, m = S.tryfold(it, t.EMPTYMAP, step)
    return t.ok(S.mk(K, 'Merged', m)) if good else m


def merged_block(S, fns, it):
    def step(acc, e):
        good, v = S.res(S.call(fns.k_merge, snd(e)))
        if not good:
            return 'brk', t.err(v)
        if S.decide(t.haskey(acc, fst(e))):
            return conflict()
        return 'cont', t.put(acc, fst(e), v)
    good, m = S.tryfold(it, t.EMPTYMAP, step)
    return t.ok(S.mk(K, 'Merged', m)) if good else m


def own_errors(v):
    """conflict errors are not told apart; errors of nested merges are kept"""
    def fn(x):
        if x.op == 'adt' and x.args[0] == t.RESULT and x.args[1] == 'Err':
            a = x.args[3]
            if a.op == 'adt' or a.op == 'tfbrk':
                return ERR
        if x.op == 'brk' and x.args:
            a = x.args[0]
            if a.op == 'adt' and a.args[0].endswith('Error') or a.op == 'tfbrk':
                return mk('brk', ERR)
        return x
    return lens(rewrite(v, fn))


def all_errors(v):
    """no error is told apart"""
    def fn(x):
        if x.op == 'adt' and x.args[0] == t.RESULT and x.args[1] == 'Err':
            return ERR
        if x.op == 'brk' and x.args:
            return mk('brk', ERR)
        if x.op == 'tfbrk':
            return ERR
        return x
    return lens(rewrite(v, fn))
