"""C09: building the block index."""
from vlib import terms as t
from rules.blocks import Fns, BB, BS, after, empty_body, fst, snd, blk

EXPLANATION = ('Value-flow normal forms of every way to build a block index. BlockBody::append adds the body at the end of the list '
               'stored under its complete label path and leaves every other entry as it was; BlockBody::extend and collect are the '
               'fold of append; Blocks::append does the same under the block type; Blocks::new, collect and extend are the fold of '
               'append over the whole sequence (or over its runs of equal type, each run appended in order to what is stored '
               'already, which is the same fold). Storing each block once, in order, under its own path follows by induction.')
TECHNIQUE = 'value-flow normal forms; induction over the label path and the sequence of blocks'
LEVEL_NOTE = ('All paths of all constructors, for any number of blocks and labels; HashMap, Vec, itertools::group_by and take_mut are '
              'trusted as modelled; key equality is C14.')


def run(ctx):
    f = Fns(ctx)

    def append(S, x, labels, body):
        if S.decide(t.empty(labels)):
            if S.variant(x, BB) == 'Body':
                return t.UNIT, {'self': S.mk(BB, 'Body', t.cat(S.vf(x, BB, 'Body'), t.lst(body)))}
            m = S.vf(x, BB, 'Labels', 'labels')
            return t.UNIT, {'self': S.mk(BB, 'Labels', empty=t.cat(S.vf(x, BB, 'Labels', 'empty'), t.lst(body)), labels=m)}
        h, rest = t.head(labels), t.tail(labels)
        if S.variant(x, BB) == 'Body':
            e, m = S.vf(x, BB, 'Body'), t.EMPTYMAP
        else:
            e, m = S.vf(x, BB, 'Labels', 'empty'), S.vf(x, BB, 'Labels', 'labels')
        old = t.get(m, h) if S.decide(t.haskey(m, h)) else empty_body(S)
        return t.UNIT, {'self': S.mk(BB, 'Labels', empty=e, labels=t.put(m, h, after(S, f.append, old, rest, body)))}
    ctx.equiv(f.append, append, key='BlockBody::append', names=['self', 'labels', 'body'], opaque=[f.append])

    def grow(S, x, it):
        return S.fold(it, x, lambda acc, e: after(S, f.append, acc, fst(e), snd(e)))
    ctx.equiv(f.bb_extend, lambda S, x, it: (t.UNIT, {'self': grow(S, x, it)}), key='BlockBody::extend',
              names=['self', 'iter'], opaque=[f.append])
    ctx.guard('BlockBody::from_iter', lambda: ctx.equiv(
        ctx.body(adt=BB, trait='FromIterator', name='from_iter'), lambda S, it: grow(S, empty_body(S), it),
        key='BlockBody::from_iter', opaque=[f.append]))
    for nm, sel in (('BlockBody::default', dict(adt=BB, trait='Default', name='default')), ('BlockBody::new', dict(adt=BB, trait=None, name='new'))):
        ctx.guard(nm, lambda: ctx.equiv(ctx.body(**sel), lambda S: empty_body(S), key=nm))

    def one(S, m, b):
        k = blk(S, b, 'type')
        old = t.get(m, k) if S.decide(t.haskey(m, k)) else empty_body(S)
        return t.put(m, k, after(S, f.append, old, blk(S, b, 'labels'), blk(S, b, 'body')))
    m_of = lambda S, x: S.f(x, BS, 'blocks')
    ctx.equiv(f.bs_append, lambda S, x, b: (t.UNIT, {'self': S.mk(BS, 'Blocks', one(S, m_of(S, x), b))}), key='Blocks::append',
              names=['self', 'block'], opaque=[f.append])

    # the whole sequence: as one fold of append ...
    def flat(S, it, x):
        return S.fold(it, x, lambda acc, b: after(S, f.bs_append, acc, b))

    def flat_map(S, it):
        return S.mk(BS, 'Blocks', S.fold(it, t.EMPTYMAP, lambda m, b: one(S, m, b)))

    # ... or run by run: every run of blocks of one type is appended in order to what is stored under that type
    def runs(S, it):
        gs = t.mk('groups', it, S.ev.lam(lambda b: blk(S, b, 'type')))

        def step(m, g):
            k = fst(g)
            if not S.decide(t.haskey(m, k)):
                m = t.put(m, k, empty_body(S))
            return S.fold(snd(g), m, lambda m, b: t.put(m, k, after(S, f.append, t.get(m, k), blk(S, b, 'labels'), blk(S, b, 'body'))))
        return S.mk(BS, 'Blocks', S.fold(gs, t.EMPTYMAP, step))

    def runs_extend(S, it):
        gs = t.mk('groups', it, S.ev.lam(lambda b: blk(S, b, 'type')))

        def step(m, g):
            k = fst(g)
            old = t.get(m, k) if S.decide(t.haskey(m, k)) else empty_body(S)
            add = t.seqmap(snd(g), lambda b: t.tup(blk(S, b, 'labels'), blk(S, b, 'body')))
            return t.put(m, k, S.fold(add, old, lambda acc, e: after(S, f.append, acc, fst(e), snd(e))))
        return S.mk(BS, 'Blocks', S.fold(gs, t.EMPTYMAP, step))
    new = lambda S: S.mk(BS, 'Blocks', t.EMPTYMAP)
    for nm, sel in (('Blocks::new', dict(adt=BS, trait=None, name='new')), ('Blocks::from_iter', dict(adt=BS, trait='FromIterator', name='from_iter'))):
        def both(nm=nm, sel=sel):
            b = ctx.body(**sel)
            return ctx.equiv_any(b, [flat_map, runs, runs_extend], key=nm, opaque=[f.append])
        ctx.guard(nm, both)
    ctx.guard('Blocks::extend', lambda: ctx.equiv_any(
        ctx.body(adt=BS, trait='Extend', name='extend'),
        [lambda S, x, it: (t.UNIT, {'self': flat(S, it, x)})], key='Blocks::extend', names=['self', 'iter'], opaque=[f.append, f.bs_append]))

    ctx.floor(ctx.calls, 5, 'calls analysed')
