"""C18: lookups and edits of key-value pairs."""
from vlib import terms as t
from rules.c17 import kvp_seq

EXPLANATION = ('Value-flow normal forms of the lookups and edits of KeyValuePairs, for both forms, compared with their meaning on the '
               'stored sequence or map: first match, all matches in order, number of entries, every added entry kept, and the '
               'borrowed-key view holding every entry under all its label parts.')
TECHNIQUE = 'value-flow normal forms of lookups/edits compared with map/sequence semantics'
LEVEL_NOTE = 'All paths of each operation; std HashMap and Vec operations are trusted as modelled; key equality is C14.'
K = 'KeyValuePairs'


def run(ctx):
    n = 0

    def go(key, sel, spec, **kw):
        nonlocal n
        n += 1
        ctx.guard(key, lambda: ctx.equiv(ctx.body(**sel), spec, key=key, **kw))

    def single(S, x, k):
        if S.variant(x, K) == 'Merged':
            m = S.vf(x, K, 'Merged')
            return t.some(t.get(m, k)) if S.decide(t.haskey(m, k)) else t.NONE
        s = S.vf(x, K, 'Unmerged')
        hit = S.ev.lam(lambda e: t.eq(t.f(e, '0', 'tup'), k))
        if S.decide(t.any_(s, hit)):
            return t.some(t.f(t.head(t.seqfilter(s, lambda e: t.eq(t.f(e, '0', 'tup'), k))), '1', 'tup'))
        return t.NONE

    def index(S, x, k):
        r = single(S, x, k)
        o = S.opt(r)
        if o is None:
            S.panic()
        return o

    def many(S, x, k):
        if S.variant(x, K) == 'Merged':
            m = S.vf(x, K, 'Merged')
            return t.some(S.mk('OneOrMany', 'One', t.get(m, k))) if S.decide(t.haskey(m, k)) else t.NONE
        s = S.vf(x, K, 'Unmerged')
        r = t.seqmap(t.seqfilter(s, lambda e: t.eq(t.f(e, '0', 'tup'), k)), lambda e: t.f(e, '1', 'tup'))
        if S.decide(t.empty(r)):
            return t.NONE
        return t.some(S.mk('OneOrMany', 'Many', r))

    def length(S, x):
        if S.variant(x, K) == 'Merged':
            return t.length(t.entries(S.vf(x, K, 'Merged')))
        return t.length(S.vf(x, K, 'Unmerged'))
    go('KeyValuePairs::get_single', dict(adt=K, trait=None, name='get_single'), single)
    go('KeyValuePairs::get', dict(adt=K, trait=None, name='get'), many)
    go('KeyValuePairs::index', dict(adt=K, trait='Index', name='index'), index)
    go('KeyValuePairs::len', dict(adt=K, trait=None, name='len'), length)
    go('KeyValuePairs::is_empty', dict(adt=K, trait=None, name='is_empty'), lambda S, x: t.eq(length(S, x), t.ZERO))

    def extend(S, x, it):
        if S.variant(x, K) == 'Merged':
            return t.UNIT, {'self': S.mk(K, 'Merged', t.putall(S.vf(x, K, 'Merged'), it))}
        return t.UNIT, {'self': S.mk(K, 'Unmerged', t.cat(S.vf(x, K, 'Unmerged'), it))}
    for b in ctx.bodies(adt=K, trait='Extend', name='extend'):
        n += 1
        ctx.equiv(b, extend, key='KeyValuePairs::extend')
    # OneOrMany lengths
    def oom(S, x):
        if S.variant(x, 'OneOrMany') == 'One':
            return t.ONE
        return t.length(S.vf(x, 'OneOrMany', 'Many'))
    go('OneOrMany::len', dict(adt='OneOrMany', trait=None, name='len'), oom)
    go('OneOrMany::is_empty', dict(adt='OneOrMany', trait=None, name='is_empty'), lambda S, x: t.eq(oom(S, x), t.ZERO))
    # borrowed-key view
    def borrow_keys(S, x):
        labels = lambda e: t.tup(t.f(e, '0', 'tup'), t.f(e, '1', 'tup'))
        if S.variant(x, K) == 'Merged':
            return S.mk(K, 'Merged', t.tomap(S.each(t.entries(S.vf(x, K, 'Merged')), labels)))
        return S.mk(K, 'Unmerged', S.each(S.vf(x, K, 'Unmerged'), labels))
    go('KeyValuePairs::borrow_keys', dict(adt=K, trait=None, name='borrow_keys'), borrow_keys)
    ctx.floor(n, 9, 'operations')
