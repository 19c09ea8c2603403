"""C16: variant accessors and names."""
from vlib import terms as t
from rules.messages import messages

EXPLANATION = ('Every accessor of Value, BodyElement, OneOrMany and KeyValuePairs is reduced, path by path over its type-checked '
               'MIR, to the term it returns; the term must equal the specified one for every variant of its subject: true/payload '
               'exactly for the own variant, otherwise the error naming the expected and the actual variant (or the documented panic).')
TECHNIQUE = 'path-sensitive value-flow normal forms of the accessors compared with a variant table'
LEVEL_NOTE = ('All paths of every accessor, for every variant; std operations (clone, Option/Result combinators) are trusted as '
              'modelled.')


def run(ctx):
    V = 'Value'
    variants = [v for v in ctx.prog.variants(ctx.adt(V))]
    scalars = {'Null', 'Integer', 'Float', 'Boolean', 'String'}
    ctx.expect(set(variants) == scalars | {'List', 'Object', 'Block'}, 'Value variants', 'variants of Value: %s' % variants)
    n = 0

    def val(name, spec):
        nonlocal n
        n += 1
        ctx.guard('Value::' + name, lambda: ctx.equiv(ctx.body(adt=V, trait=None, name=name), spec, key='Value::' + name, view=deref_mut))

    def name_of(S, x):
        return t.cstr(S.variant(x, V))

    def wrong(S, x, exp):
        return S.mk('errors::Error', 'UnexpectedVariant', enum_type=t.cstr('Value'), expected=t.cstr(exp), actual=name_of(S, x))
    val('variant_name', lambda S, x: name_of(S, x))
    for nm, vs in (('is_null', ['Null']), ('is_integer', ['Integer']), ('is_float', ['Float']), ('is_boolean', ['Boolean']),
                   ('is_string', ['String']), ('is_list', ['List']), ('is_map', ['Object']), ('is_body', ['Object']),
                   ('is_block', ['Block']), ('is_scalar', scalars), ('is_aggregate', {'List', 'Object', 'Block'})):
        val(nm, lambda S, x, vs=vs: t.cbool(S.variant(x, V) in vs))

    def acc(v, own):
        def spec(S, x):
            if S.variant(x, V) == v:
                return t.ok(S.vf(x, V, v))
            e = wrong(S, x, v)
            return t.err(t.tup(e, x) if own else e)
        return spec

    def unwrap(v):
        def spec(S, x):
            if S.variant(x, V) == v:
                return S.vf(x, V, v)
            S.panic()
        return spec
    for nm, v, own in (('integer', 'Integer', False), ('float', 'Float', False), ('boolean', 'Boolean', False),
                       ('borrow_str', 'String', False), ('borrow_string_mut', 'String', False), ('string', 'String', True),
                       ('borrow_list', 'List', False), ('borrow_list_mut', 'List', False), ('list', 'List', True),
                       ('borrow_map', 'Object', False), ('borrow_map_mut', 'Object', False), ('map', 'Object', True),
                       ('borrow_block', 'Block', False), ('borrow_block_mut', 'Block', False), ('block', 'Block', True)):
        val(nm, acc(v, own))
        val('unwrap_' + nm, unwrap(v))

    def tab(adt, name, spec):
        nonlocal n
        n += 1
        ctx.guard(adt + '::' + name, lambda: ctx.equiv(ctx.body(adt=adt, trait=None, name=name), spec, key=adt + '::' + name))

    def isv(adt, vs):
        return lambda S, x: t.cbool(S.variant(x, adt) in vs)

    def unv(adt, v):
        def spec(S, x):
            if S.variant(x, adt) == v:
                return S.vf(x, adt, v)
            S.panic()
        return spec
    tab('Expression', 'variant_name', lambda S, x: t.cstr(S.variant(x, 'Expression')))
    messages(ctx, {'UnexpectedVariant'})
    tab('BodyElement', 'is_attribute', isv('BodyElement', ['Attribute']))
    tab('BodyElement', 'is_block', isv('BodyElement', ['Block']))
    tab('BodyElement', 'unwrap_attribute', unv('BodyElement', 'Attribute'))
    tab('BodyElement', 'unwrap_block', unv('BodyElement', 'Block'))
    tab('OneOrMany', 'is_one', isv('OneOrMany', ['One']))
    tab('OneOrMany', 'is_many', isv('OneOrMany', ['Many']))
    tab('OneOrMany', 'unwrap_one', unv('OneOrMany', 'One'))
    tab('OneOrMany', 'unwrap_many', unv('OneOrMany', 'Many'))
    tab('KeyValuePairs', 'unwrap_merged', unv('KeyValuePairs', 'Merged'))
    tab('KeyValuePairs', 'unwrap_unmerged', unv('KeyValuePairs', 'Unmerged'))
    ctx.floor(n, 52, 'accessors')


def deref_mut(S, v):
    """&mut results as the place they refer to"""
    m = {}
    for x in t.subterms(v):
        if x.op == 'mutref':
            p = t.param(x.args[0])
            for s in x.args[1:]:
                p = S.ev.getstep(p, s.args)
            m[x] = p
    return t.subst(v, m) if m else v
