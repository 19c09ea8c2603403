"""C08: merging is deep and reports nested failures."""
from vlib import terms as t
from rules.entry import starts
from rules.merge import Fns, merged_body, merged_block, own_errors, entries_of, fst, snd, K, V, SCALARS

EXPLANATION = ('Value-flow normal forms of Value::merge, of merge/as_merged/new_merged of bodies and blocks (by value and by reference) '
               'and of unmerge/as_unmerged/new_unmerged/collect, compared with: every list element, object body and block body is merged '
               'through the recursive call and the first nested error is returned as it is; scalars are returned unchanged; a set of '
               'pairs already in merged form is returned unchanged; unmerging keeps every entry in order. With induction over the finite '
               'value tree the equations give the deep merge.')
TECHNIQUE = 'value-flow normal forms compared with structural recursion equations'
LEVEL_NOTE = 'All paths of the functions named; trees of any depth by structural induction; std collections are trusted as modelled.'


def run(ctx):
    f = Fns(ctx)
    go = lambda b, spec, key, o: ctx.equiv(b, spec, key=key, opaque=o, post=own_errors, tree=True)

    def forms(spec):
        def sp(S, x):
            if S.variant(x, K) == 'Merged':
                return t.ok(x)
            return spec(S, f, S.vf(x, K, 'Unmerged'))
        return sp
    for pre, spec, part in (('k_', merged_body, [f.vm]), ('b_', merged_block, [f.k_merge])):
        nm = 'MapValues' if pre == 'k_' else 'Block'
        go(getattr(f, pre + 'new_merged'), lambda S, it, spec=spec: spec(S, f, it), nm + '::new_merged', part)
        go(getattr(f, pre + 'merge'), forms(spec), nm + '::merge', part)
        go(getattr(f, pre + 'as_merged'), forms(spec), nm + '::as_merged', part)

        def unm(S, x):
            return S.mk(K, 'Unmerged', entries_of(S, x))
        ctx.equiv(getattr(f, pre + 'unmerge'), unm, key=nm + '::unmerge')
        ctx.equiv(getattr(f, pre + 'as_unmerged'), unm, key=nm + '::as_unmerged')
        ctx.equiv(getattr(f, pre + 'new_unmerged'), lambda S, it: S.mk(K, 'Unmerged', it), key=nm + '::new_unmerged')
    n = 0
    for b in ctx.bodies(adt='KeyValuePairs', trait='FromIterator', name='from_iter'):
        n += 1
        ctx.equiv(b, lambda S, it: S.mk(K, 'Unmerged', it), key='collect into ' + (b.j.get('self_ty') or '?'))
    ctx.floor(n, 2, 'FromIterator implementations')

    values(ctx, f, lambda v: v)
    starts(ctx, {'value::from_str'})


def values(ctx, f, post):
    """every nested part through the recursive merge"""
    def nested(block):
        def spec(S, x):
            v = S.variant(x, V)
            if v in SCALARS:
                return t.ok(x)
            p = S.vf(x, V, v)
            if v == 'Block':
                good, r = block(S, p)
            else:
                part = f.vm if v == 'List' else f.k_merge
                good, r = S.traverse(p, lambda e: S.call(part, e))
            return t.ok(S.mk(V, v, r)) if good else t.err(r)
        return spec

    def bodies_then_new(S, p):
        def each(e):
            good, r = S.res(S.call(f.k_merge, snd(e)))
            return t.ok(t.tup(fst(e), r)) if good else t.err(r)
        good, r = S.traverse(entries_of(S, p), each)
        if not good:
            return good, r
        return S.res(S.call(f.b_new_merged, r))

    def new(S, p):
        return S.res(S.call(f.b_new_merged, entries_of(S, p)))

    def whole(S, p):
        return S.res(S.call(f.b_merge, p))

    def seqarg(v):
        """new_merged of a set of pairs is new_merged of the sequence of its pairs"""
        from vlib.spec import rewrite
        from vlib.spec import bname
        nm = bname(f.b_new_merged)

        def fn(x):
            if x.op == 'call' and x.args[0] == nm and x.args[1].op == 'adt' and x.args[1].args[1] == 'Unmerged':
                return t.mk('call', nm, x.args[1].args[3])
            return x
        return rewrite(v, fn)
    ctx.equiv_any(f.vm, [nested(bodies_then_new), nested(new), nested(whole)], key='Value::merge',
                  opaque=[f.vm, f.k_merge, f.b_merge, f.b_new_merged], post=lambda v: post(seqarg(v)), tree=True)
