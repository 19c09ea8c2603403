"""C12: every key once, duplicates rejected."""
from vlib import terms as t
from rules.de import visit, into, fails, methods, access, VALUE_METHODS
from rules.blocks import BB
from rules import c09

EXPLANATION = ('Value-flow normal forms of the map accesses of bodies and objects. The pending elements made from a body are exactly '
               'its attributes (each with its own expression) and the entries of the block index of all its blocks; those of an object '
               'are its elements. next_key takes the first pending element off, refuses a key that was seen, and remembers its own '
               'value; next_value hands out exactly that value. Every deserialize method of the body deserializer offers these pairs, '
               'and a block type is delivered as the one body or the sequence of all its bodies.')
TECHNIQUE = 'value-flow normal forms of the map accesses as state machines'
LEVEL_NOTE = ('All paths, any number of keys by induction over the pending elements; the visitor side is serde\'s contract; the block '
              'index itself is C09. Which error is raised is not compared.')


def run(ctx):
    new_blocks = ctx.body(adt='Blocks', trait=None, name='new')
    V = 'BodyValue'
    KINDS = ('Expression', 'Block')

    def unwrap(S, v):
        return S.vf(v, V, S.variant(v, V))
    st_body = access(ctx, 'MapAccess', lambda S, k: k, lambda S, v: v, unwrap)

    def ident(S, k):
        if S.variant(k, 'ObjectElementIdentifier') != 'Identifier':
            return None
        return S.vf(k, 'ObjectElementIdentifier', 'Identifier')
    st_obj = access(ctx, 'ObjectMapAccess', ident, lambda S, v: v, lambda S, v: v)

    # what is pending at first
    def elements(S, body):
        attrs = S.ev.lam(lambda e: t.lst(pair(S, e)) if S.variant(e, 'BodyElement') == 'Attribute' else t.NIL)
        blocks = S.ev.lam(lambda e: t.lst(S.vf(e, 'BodyElement', 'Block')) if S.variant(e, 'BodyElement') == 'Block' else t.NIL)
        index = S.call(new_blocks, t.fm(body, blocks))
        ents = t.entries(S.f(index, 'Blocks', 'blocks'))
        ents = S.each(ents, lambda e: t.tup(t.f(e, '0', 'tup'), S.mk(V, 'Block', t.f(e, '1', 'tup'))))
        return t.fm(body, attrs), ents

    def pair(S, e):
        a = S.vf(e, 'BodyElement', 'Attribute')
        a = S.f(a, 'Attribute', '0') if 'Attribute' in [p.split('::')[-1] for p in S.prog.adts] else a
        return t.tup(t.f(a, '0', 'tup'), S.mk(V, 'Expression', t.f(a, '1', 'tup')))

    # attributes before or after the blocks
    def pending(S, b, back=False):
        return st_body(S, t.cat(*(reversed(elements(S, b)) if back else elements(S, b))), t.NONE, t.toset(t.NIL))
    body_new = ctx.body(adt='MapAccess', trait=None, name='new')
    ctx.guard('MapAccess::new', lambda: ctx.equiv_any(
        body_new, [pending, lambda S, b: pending(S, b, True)], key='MapAccess::new', opaque=[new_blocks]))
    ctx.guard('ObjectMapAccess::new', lambda: ctx.equiv(
        ctx.body(adt='ObjectMapAccess', trait=None, name='new'),
        lambda S, o: st_obj(S, S.seq(o), t.NONE, t.toset(t.NIL)), key='ObjectMapAccess::new'))

    # the body deserializer offers them for whatever is asked for
    D = 'serde::de::body::Deserializer'
    ms = methods(ctx, 'Deserializer')
    n = 0
    for m in VALUE_METHODS:
        n += 1
        if m not in ms:
            ctx.bad('Deserializer::deserialize_' + m, 'not implemented')
            continue
        ctx.equiv_any(ms[m], [lambda S, x, *r, o=o: visit(S, 'map', r[-1], pending(S, S.f(x, D, 'body'), o)) for o in (False, True)],
                      key='Deserializer::deserialize_' + m, opaque=[new_blocks])

    # from text: the whole parsed body goes to the deserializer
    parse = ctx.body(path='parser::parse_str')
    d_new = lambda S, b: S.mk(D, 'Deserializer', body=b)
    d_from = ctx.body(adt='Deserializer', trait=None, name='from_str')

    def from_text(S, s):
        good, b = S.res(S.call(parse, s))
        return t.ok(d_new(S, b)) if good else t.err(t.UNIT)

    def typed(S, s):
        good, d = S.res(S.call(d_from, s))
        if not good:
            return t.err(d)
        good, v = S.res(S.call('Deserialize::deserialize', d))
        return t.ok(v) if good else t.err(t.UNIT)
    ctx.equiv(d_from, from_text, key='Deserializer::from_str', opaque=[parse], post=fails)
    ctx.guard('serde::de::from_str', lambda: ctx.equiv(ctx.body(path='serde::de::body::from_str'), typed, key='serde::de::from_str',
                                                       opaque=[d_from], post=fails))

    # blocks of one type

    def many(S, bs, v):
        return visit(S, 'seq', v, into(S, S.each(bs, lambda b: d_new(S, b))))

    def block(S, x, *r, back=False):
        if S.variant(x, BB) == 'Body':
            bs = S.vf(x, BB, 'Body')
            return visit(S, 'map', r[-1], pending(S, t.head(bs), back)) if S.decide(t.eq(t.length(bs), t.ONE)) else many(S, bs, r[-1])
        if S.decide(t.empty(t.entries(S.vf(x, BB, 'Labels', 'labels')))):
            return None     # never built (C09)
        return t.err(t.UNIT)

    def block_seq(S, x, v):
        if S.variant(x, BB) == 'Body':
            return many(S, S.vf(x, BB, 'Body'), v)
        if S.decide(t.empty(t.entries(S.vf(x, BB, 'Labels', 'labels')))):
            return None
        return t.err(t.UNIT)

    def block_opt(S, x, v):
        return visit(S, 'none', v) if S.decide(t.eq(S.call(blocks_len, x), t.ZERO)) else visit(S, 'some', v, x)
    blocks_len = ctx.body(adt=BB, trait=None, name='len_blocks')
    ms = methods(ctx, BB)
    for m in VALUE_METHODS:
        n += 1
        if m not in ms:
            ctx.bad('BlockBody::deserialize_' + m, 'not implemented')
            continue
        specs = {'seq': [block_seq], 'option': [block_opt]}.get(m) or [block, lambda S, x, *r: block(S, x, *r, back=True)]
        ctx.equiv_any(ms[m], specs, key='BlockBody::deserialize_' + m, opaque=[new_blocks, blocks_len], post=fails)
    ctx.floor(n, 2 * len(VALUE_METHODS), 'deserialize methods')
    # the index the blocks of one type are delivered from holds all of them
    c09.run(ctx)
