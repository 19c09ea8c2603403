"""C17: iterators of OneOrMany and KeyValuePairs."""
from vlib import terms as t
from vlib import eval as E

EXPLANATION = ('Each function handing out an iterator (iter, into_iter by value and by reference, keys, values) is reduced to the '
               'sequence its result yields, obtained by unfolding the `next` of the returned iterator type over its payload; it must '
               'be exactly the stored elements, in order, keys with their own values. For every Iterator type of the crate, size_hint '
               '(and any other overridden iterator method) is compared with its meaning on that sequence, for every variant.')
TECHNIQUE = 'value-flow normal forms: iterator values unfolded to the sequence they yield'
LEVEL_NOTE = ('All paths of all iterator constructors and of next/size_hint of every iterator type; std iterators are trusted to yield '
              'their contents and to report exact sizes.')


def kvp_seq(S, x):
    if S.variant(x, 'KeyValuePairs') == 'Merged':
        return t.entries(S.vf(x, 'KeyValuePairs', 'Merged'))
    return S.vf(x, 'KeyValuePairs', 'Unmerged')


def oom_seq(S, x):
    if S.variant(x, 'OneOrMany') == 'One':
        return t.lst(S.vf(x, 'OneOrMany', 'One'))
    return S.vf(x, 'OneOrMany', 'Many')


def seqview(S, v):
    return S.seq(v)


def run(ctx):
    n = 0
    def go(key, sel, spec):
        nonlocal n
        n += 1
        ctx.guard(key, lambda: ctx.equiv(ctx.body(**sel), spec, key=key, view=seqview))
    go('OneOrMany::iter', dict(adt='OneOrMany', trait=None, name='iter'), oom_seq)
    go('KeyValuePairs::iter', dict(adt='KeyValuePairs', trait=None, name='iter'), kvp_seq)
    go('KeyValuePairs::keys', dict(adt='KeyValuePairs', trait=None, name='keys'),
       lambda S, x: S.each(kvp_seq(S, x), lambda e: t.f(e, '0', 'tup')))
    go('KeyValuePairs::values', dict(adt='KeyValuePairs', trait=None, name='values'),
       lambda S, x: S.each(kvp_seq(S, x), lambda e: t.f(e, '1', 'tup')))
    for adt, spec in (('OneOrMany', oom_seq), ('KeyValuePairs', kvp_seq)):
        for b in ctx.bodies(adt=adt, trait='IntoIterator', name='into_iter'):
            n += 1
            key = 'into_iter of ' + b.j['self_ty']
            ctx.equiv(b, spec, key=key, view=seqview)
    ctx.floor(n, 8, 'iterator constructors')
    # iterator types
    k = 0
    types = set()
    for b in ctx.bodies(trait='Iterator') + ctx.bodies(trait='ExactSizeIterator') + ctx.bodies(trait='DoubleEndedIterator'):
        adt = b.j.get('self_adt')
        if not adt or adt not in ctx.prog.adts:
            continue
        types.add(adt)
    for im in ctx.prog.impls:
        if (im.get('trait') or '').endswith('ExactSizeIterator') and im.get('self_adt') in ctx.prog.adts:
            types.add(im['self_adt'])
    for adt in sorted(types):
        short = adt.split('::')[-1]
        ms = {}
        for b in ctx.bodies(adt=short):
            if (b.j.get('trait') or '').split('::')[-1] in ('Iterator', 'ExactSizeIterator', 'DoubleEndedIterator', 'FusedIterator'):
                ms[b.j['name']] = b
        if short not in ('OneOrManyIterator', 'OneOrManyIntoIterator', 'KeyValuePairsIterator', 'KeyValuePairsIntoIterator',
                         'KeyIterator', 'ValueIterator'):
            continue
        ctx.expect('size_hint' in ms, short + '::size_hint', '%s reports its size (size_hint)' % short)
        for nm, b in sorted(ms.items()):
            k += 1
            key = short + '::' + nm
            spec = METHODS.get(nm)
            if spec is None:
                ctx.bad(key, 'overridden iterator method without specification')
                continue
            ctx.equiv(b, spec(adt), key=key)
    ctx.floor(k, 12, 'iterator methods')


def payload(S, x, adt):
    v = S.ev.variant(S.ev.deref(x), adt)
    fs = S.prog.fields(adt, v)
    if len(fs) != 1:
        raise E.Unsupported('iterator variant with %d fields' % len(fs))
    return v, fs[0], t.vf(x, v, fs[0], adt)


def view(S, x, adt):
    v, n, p = payload(S, x, adt)
    return unfold(S, adt, v, n, p)


def unfold(S, adt, v, n, p):
    q = t.sym('payload')
    s = S.ev.seq_view(t.adt(adt, v, [(n, q)]))
    if s.op == 'adt':
        raise E.Unsupported('next does not step its payload')
    return t.subst(s, {q: p})


def m_next(adt):
    def spec(S, x):
        v, n, p = payload(S, x, adt)
        s = unfold(S, adt, v, n, p)
        if S.decide(t.empty(p)):
            return t.NONE, {'self': x}
        return t.some(t.head(s)), {'self': t.adt(adt, v, [(n, t.tail(p))])}
    return spec


def m_size(adt):
    def spec(S, x):
        n = t.length(view(S, x, adt))
        return t.tup(n, t.some(n))
    return spec


def m_len(adt):
    return lambda S, *a: t.length(view(S, a[0], adt))


METHODS = {'next': m_next, 'size_hint': m_size, 'len': m_len, 'count': m_len}
