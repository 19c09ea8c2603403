"""C10: queries of the block index."""
from vlib import terms as t
from rules.blocks import Fns, BB, BS, after, fst, snd

EXPLANATION = ('Value-flow normal forms of every query of BlockBody and Blocks compared with their meaning on the stored tree: '
               'len_blocks adds the stored bodies of this level and of every label, the flat iterators yield this level\'s bodies with '
               'an empty path followed by every nested one with its label in front, get/get_mut descend label by label, label_lens is '
               'the set of path lengths, label_lens_uniform is Some only when all of them are the same.')
TECHNIQUE = 'value-flow normal forms compared with structural recursion equations over the label tree'
LEVEL_NOTE = ('All paths of every query, for any depth by structural induction; HashMap, Vec and the std iterator adaptors are trusted '
              'as modelled; label equality and lookup by string is C14.')


def run(ctx):
    f = Fns(ctx)

    def bodies(S, x):
        return S.vf(x, BB, 'Body')

    def lab(S, x, n):
        return S.vf(x, BB, 'Labels', n)

    def isbody(S, x):
        return S.variant(x, BB) == 'Body'

    def m_of(S, x):
        return S.f(x, BS, 'blocks')

    def entries(S, x):
        return t.entries(m_of(S, x))
    n = 0

    def go(key, body, spec, o=(), **kw):
        nonlocal n
        n += 1
        ctx.equiv(body, spec, key=key, opaque=o, **kw)

    def by(name, key, adt, spec, o=(), trait=None, **kw):
        nonlocal n
        n += 1
        ctx.guard(key, lambda: ctx.equiv(ctx.body(adt=adt, trait=trait, name=name), spec, key=key, opaque=o, **kw))

    # counting
    def len_blocks(S, x):
        if isbody(S, x):
            return t.length(bodies(S, x))
        return t.add(t.length(lab(S, x, 'empty')), t.sum_(S.each(t.entries(lab(S, x, 'labels')), lambda e: S.call(f.len_blocks, snd(e)))))
    go('BlockBody::len_blocks', f.len_blocks, len_blocks, [f.len_blocks])
    by('len_blocks', 'Blocks::len_blocks', BS, lambda S, x: t.sum_(S.each(entries(S, x), lambda e: S.call(f.len_blocks, snd(e)))), [f.len_blocks])
    by('len', 'Blocks::len', BS, lambda S, x: t.length(entries(S, x)))
    by('is_empty', 'Blocks::is_empty', BS, lambda S, x: t.empty(entries(S, x)))

    # flat iterators
    def labtext(S, l):
        return S.vf(l, 'BlockLabel', S.variant(l, 'BlockLabel'))

    def flat(body):
        def spec(S, x):
            this = lambda s: S.each(s, lambda b: t.tup(t.NIL, b))
            if isbody(S, x):
                return this(bodies(S, x))
            nested = t.fm(t.entries(lab(S, x, 'labels')), S.ev.lam(lambda e: t.fm(S.call(body, snd(e)), S.ev.lam(
                lambda y: t.lst(t.tup(t.cat(t.lst(labtext(S, fst(e))), fst(y)), snd(y)))))))
            return t.cat(this(lab(S, x, 'empty')), nested)
        return spec

    def flat_all(body):
        return lambda S, x: t.fm(entries(S, x), S.ev.lam(lambda e: t.fm(S.call(body, snd(e)), S.ev.lam(
            lambda y: t.lst(t.tup(fst(e), fst(y), snd(y)))))))
    for nm in ('flat_iter', 'flat_iter_mut', 'flat_into_iter'):
        b = getattr(f, nm)
        go('BlockBody::' + nm, b, flat(b), [b])
        by(nm, 'Blocks::' + nm, BS, flat_all(b), [b])

    # plain iteration
    for b in ctx.bodies(adt=BS, trait='IntoIterator', name='into_iter'):
        go('into_iter of ' + str(b.j.get('self_ty')), b, lambda S, x: entries(S, x))
    by('iter', 'Blocks::iter', BS, lambda S, x: entries(S, x))
    by('iter_mut', 'Blocks::iter_mut', BS, lambda S, x: entries(S, x))

    # lookups
    def get(body):
        def spec(S, x, labels):
            if S.decide(t.empty(labels)):
                return t.some(x)
            if isbody(S, x):
                return t.NONE
            m = lab(S, x, 'labels')
            if not S.decide(t.haskey(m, t.head(labels))):
                return t.NONE
            return S.call(body, t.get(m, t.head(labels)), t.tail(labels))
        return spec

    # the same walk, written as a loop over the labels
    def get_walk(S, x, labels):
        def step(at, l):
            if isbody(S, at):
                return 'brk', t.NONE
            m = lab(S, at, 'labels')
            return ('cont', t.get(m, l)) if S.decide(t.haskey(m, l)) else ('brk', t.NONE)
        done, v = S.tryfold(labels, x, step)
        return t.some(v) if done else v

    def get_all(body):
        def spec(S, x, k, labels):
            m = m_of(S, x)
            if not S.decide(t.haskey(m, k)):
                return t.NONE
            return S.call(body, t.get(m, k), labels)
        return spec

    # the same places for change; nothing but the place handed out may differ afterwards
    def get_mut(S, x, labels):
        if S.decide(t.empty(labels)) or isbody(S, x):
            return get(f.get_mut)(S, x, labels), {}
        m, h = lab(S, x, 'labels'), t.head(labels)
        if not S.decide(t.haskey(m, h)):
            return t.NONE, {}
        old = t.get(m, h)
        new = t.put(m, h, after(S, f.get_mut, old, t.tail(labels)))
        return S.call(f.get_mut, old, t.tail(labels)), {'self': S.mk(BB, 'Labels', empty=lab(S, x, 'empty'), labels=new)}

    def get_mut_all(S, x, k, labels):
        m = m_of(S, x)
        if not S.decide(t.haskey(m, k)):
            return t.NONE, {}
        old = t.get(m, k)
        return S.call(f.get_mut, old, labels), {'self': S.mk(BS, 'Blocks', t.put(m, k, after(S, f.get_mut, old, labels)))}
    n += 1
    ctx.equiv_any(f.get, [get(f.get), get_walk], key='BlockBody::get', opaque=[f.get])
    go('BlockBody::get_mut', f.get_mut, get_mut, [f.get_mut], post=strip)
    by('get', 'Blocks::get', BS, get_all(f.get), [f.get])
    by('get_mut', 'Blocks::get_mut', BS, get_mut_all, [f.get_mut], post=strip)

    # shape of the labels
    def label_lens(S, x):
        if isbody(S, x):
            return t.toset(t.NIL if S.decide(t.empty(bodies(S, x))) else t.lst(t.ZERO))
        deeper = t.fm(t.entries(lab(S, x, 'labels')), S.ev.lam(lambda e: t.fm(S.call(f.label_lens, snd(e)), S.ev.lam(
            lambda n: t.lst(t.add(n, t.ONE))))))
        here = t.NIL if S.decide(t.empty(lab(S, x, 'empty'))) else t.lst(t.ZERO)
        return t.toset(t.cat(deeper, here))
    go('BlockBody::label_lens', f.label_lens, label_lens, [f.label_lens])

    def uniform(S, x):
        if isbody(S, x):
            return t.some(t.ZERO)
        e, m = lab(S, x, 'empty'), lab(S, x, 'labels')
        if S.decide(t.empty(t.entries(m))):
            return t.some(t.ZERO)
        if not S.decide(t.empty(e)):
            return t.NONE
        first = S.call(f.label_lens_uniform, snd(t.head(t.entries(m))))
        o = S.opt(first)
        if o is None:
            return t.NONE
        if S.decide(S.any(t.tail(t.entries(m)), lambda e: t.nnot(t.eq(S.call(f.label_lens_uniform, snd(e)), first)))):
            return t.NONE
        return t.some(t.add(o, t.ONE))
    go('BlockBody::label_lens_uniform', f.label_lens_uniform, uniform, [f.label_lens_uniform])
    go('BlockBody::is_label_lens_uniform', f.is_label_lens_uniform,
       lambda S, x: t.FALSE if S.opt(S.call(f.label_lens_uniform, x)) is None else t.TRUE, [f.label_lens_uniform])
    for nm in ('label_lens', 'label_lens_uniform', 'is_label_lens_uniform'):
        b = getattr(f, nm)
        by(nm, 'Blocks::' + nm, BS, lambda S, x, b=b: t.tomap(S.each(entries(S, x), lambda e: t.tup(fst(e), S.call(b, snd(e))))), [b])
    by('has_further_labels', 'BlockBody::has_further_labels', BB,
       lambda S, x: t.FALSE if isbody(S, x) else t.nnot(t.empty(t.entries(lab(S, x, 'labels')))))
    by('get_empty', 'BlockBody::get_empty', BB, lambda S, x: bodies(S, x) if isbody(S, x) else lab(S, x, 'empty'))
    by('get_labels', 'BlockBody::get_labels', BB, lambda S, x: t.NONE if isbody(S, x) else t.some(lab(S, x, 'labels')))
    ctx.floor(n, 25, 'queries')


def strip(v):
    """a mutable borrow is read as the place it points to"""
    from vlib.spec import rewrite

    def fn(x):
        return t.param(x.args[0]) if x.op == 'mutref' and len(x.args) == 1 else x
    return rewrite(v, fn)
