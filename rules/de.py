"""Vocabulary of deserialization, shared by C12 and C13."""
from vlib import terms as t
from vlib import eval as E
from vlib.spec import rewrite, ANY

VALUE_METHODS = ('any bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct '
                 'newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any').split()


def visit(S, what, *args):
    return S.call('Visitor::visit_' + what, *args)


def into(S, v):
    return S.call('IntoDeserializer::into_deserializer', v)


def seed(S, s, d):
    return S.call('DeserializeSeed::deserialize', s, d)


def fails(v):
    """every error made here is the same error"""
    def fn(x):
        if x.op == 'adt' and x.args[0] == t.RESULT and x.args[1] == 'Err':
            return t.err(t.UNIT)
        return x
    return rewrite(v, fn)


def methods(ctx, adt):
    """deserialize_* of the Deserializer implementation of a type"""
    return {b.j['name'][len('deserialize_'):]: b for b in ctx.bodies(adt=adt, trait='Deserializer')
            if b.j['name'].startswith('deserialize_')}


def shape(ctx, adt):
    """fields of a map access: pending elements, pending value, keys seen"""
    p = ctx.adt(adt)
    fs = [v for v in ctx.prog.adts[p]['variants']][0]['fields']
    r = {}
    for x in fs:
        h = E.head_ty(E.norm_ty(x['ty'])).split('::')[-1]
        k = {'IntoIter': 'seq', 'Vec': 'seq', 'VecDeque': 'seq', 'Option': 'opt', 'HashSet': 'set', 'BTreeSet': 'set'}.get(h)
        if k is None or k in r:
            raise E.Unsupported('%s has an unexpected field %s: %s' % (adt, x['name'], x['ty']))
        r[k] = x['name']
    if set(r) != {'seq', 'opt', 'set'}:
        raise E.Unsupported('%s keeps no %s' % (adt, {'seq', 'opt', 'set'} - set(r)))
    return r


def access(ctx, adt, key, wrap, unwrap):
    """obligations of a MapAccess implementation over pending (key, value) pairs.
    key(S, k): the text of a key or None if unsupported; wrap/unwrap: pending value <-> what is deserialized"""
    sh = shape(ctx, adt)
    name = ctx.adt(adt).split('::')[-1]

    def state(S, seq, opt, seen):
        return S.mk(adt, name, **{sh['seq']: seq, sh['opt']: opt, sh['set']: seen})

    def parts(S, x):
        return [S.f(x, adt, sh[n]) for n in ('seq', 'opt', 'set')]

    def next_key(S, x, sd):
        seq, opt, seen = parts(S, x)
        if S.decide(t.empty(seq)):
            return t.ok(t.NONE), {}
        e = t.head(seq)
        k = key(S, t.f(e, '0', 'tup'))
        if k is None or S.decide(t.mk('inset', seen, k)):
            return t.err(t.UNIT), {'self': ANY}
        v = wrap(S, t.f(e, '1', 'tup'))
        after = {'self': state(S, t.tail(seq), t.some(v), t.mk('setadd', seen, k))}
        good, r = S.res(seed(S, sd, into(S, k)))
        return (t.ok(t.some(r)) if good else t.err(r)), after if good else {'self': ANY}

    def next_value(S, x, sd):
        seq, opt, seen = parts(S, x)
        v = S.opt(opt)
        if v is None:
            return None     # only after next_key (contract of MapAccess); C11 lists the panic
        return seed(S, sd, unwrap(S, v)), {'self': state(S, seq, t.NONE, seen)}
    ctx.guard(name + '::next_key_seed', lambda: ctx.equiv(
        ctx.body(adt=adt, trait='MapAccess', name='next_key_seed'), next_key, key=name + '::next_key_seed', names=['self', 'seed'], post=fails))
    ctx.guard(name + '::next_value_seed', lambda: ctx.equiv(
        ctx.body(adt=adt, trait='MapAccess', name='next_value_seed'), next_value, key=name + '::next_value_seed', names=['self', 'seed']))
    hints = ctx.bodies(adt=adt, trait='MapAccess', name='size_hint')
    for b in hints:
        ctx.equiv_any(b, [lambda S, x: t.some(t.length(parts(S, x)[0])), lambda S, x: t.NONE], key=name + '::size_hint')
    for extra in ctx.bodies(adt=adt, trait='MapAccess'):
        if extra.j['name'] not in ('next_key_seed', 'next_value_seed', 'size_hint'):
            ctx.bad(name + '::' + extra.j['name'], 'overrides a provided method of MapAccess that is not specified')
    return state
