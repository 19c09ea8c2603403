"""C13: each expression kind deserializes as its own kind."""
from vlib import terms as t
from vlib import eval as E
from rules import c15
from rules.de import visit, into, fails, methods, VALUE_METHODS

EXPLANATION = ('Value-flow normal forms of all deserialize methods of Expression: which visitor method is called, with what payload, '
               'for every variant of the expression: unit for null, bool, u64 for a non-negative integer, i64 for a negative one, f64 '
               'for a number with fraction or exponent, borrowed or owned text as stored, a sequence of exactly the elements, a map '
               'access over exactly the object; tuples of a fixed length only with exactly that many elements; option is none exactly '
               'for null. The conversion of number text is C15, key handling of objects C12.')
TECHNIQUE = 'value-flow normal forms compared with the specified visitor call per variant'
LEVEL_NOTE = 'All paths of all deserialize methods and all variants; serde\'s visitors and sequence deserializers are trusted.'
X = 'Expression'


def run(ctx):
    num = {n: ctx.body(adt='Number', trait=None, name=n, mod='parser::number') for n in ('as_f64', 'as_u64', 'as_i64', 'is_float', 'is_unsigned')}
    obj_new = ctx.body(adt='ObjectMapAccess', trait=None, name='new')

    def number(S, n, v):
        def conv(f, vis):
            good, r = S.res(S.call(num[f], n))
            return visit(S, vis, v, r) if good else t.err(t.UNIT)
        if S.decide(S.call(num['is_float'], n)):
            return conv('as_f64', 'f64')
        if S.decide(S.call(num['is_unsigned'], n)):
            return conv('as_u64', 'u64')
        return conv('as_i64', 'i64')

    def any_(S, x, v):
        k = S.variant(x, X)
        if k == 'Null':
            return visit(S, 'unit', v)
        p = S.vf(x, X, k)
        if k == 'Number':
            return number(S, p, v)
        if k == 'Boolean':
            return visit(S, 'bool', v, p)
        if k == 'String':
            kind = S.ev.fork(t.mk('cowvariant', p), ('Borrowed', 'Owned'))
            return visit(S, 'borrowed_str' if kind == 'Borrowed' else 'string', v, p)
        if k == 'Tuple':
            return visit(S, 'seq', v, into(S, p))
        return visit(S, 'map', v, S.call(obj_new, p))

    def tuple_(S, x, n, v):
        if S.variant(x, X) == 'Tuple' and not S.decide(t.eq(t.length(S.vf(x, X, 'Tuple')), n)):
            return t.err(t.UNIT)
        return any_(S, x, v)
    SPEC = {'option': lambda S, x, v: visit(S, 'none', v) if S.variant(x, X) == 'Null' else visit(S, 'some', v, x),
            'newtype_struct': lambda S, x, n, v: visit(S, 'newtype_struct', v, x),
            'tuple': tuple_, 'tuple_struct': lambda S, x, name, n, v: tuple_(S, x, n, v)}
    ms = methods(ctx, X)
    for m in VALUE_METHODS:
        if m not in ms:
            ctx.bad('deserialize_' + m, 'not implemented')
            continue
        ctx.equiv(ms[m], SPEC.get(m) or (lambda S, x, *r: any_(S, x, r[-1])), key='deserialize_' + m,
                  opaque=list(num.values()) + [obj_new], post=fails)
    ctx.floor(len(ms), len(VALUE_METHODS), 'deserialize methods')
    # types with a textual and a binary form take their textual one
    for b in ctx.bodies(trait='Deserializer', name='is_human_readable'):
        ctx.equiv(b, lambda S, x: t.TRUE, key=b.j['path'])
    # the kind and the value of a number
    c15.accessors(ctx)
    # keys deserialize as their text
    ks = methods(ctx, 'Key')
    for m in VALUE_METHODS:
        if m not in ks:
            ctx.bad('Key::deserialize_' + m, 'not implemented')
            continue
        ctx.equiv(ks[m], lambda S, k, *r: visit(S, 'str', r[-1], S.vf(k, 'Key', S.variant(k, 'Key'))), key='Key::deserialize_' + m)
    ctx.guard('into_deserializer', lambda: ctx.equiv(
        ctx.body(adt=X, trait='IntoDeserializer', name='into_deserializer'), lambda S, x: x, key='into_deserializer'))
