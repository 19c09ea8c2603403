"""C31: conversions into expressions and values keep kind and content."""
from vlib import terms as t
from vlib import eval as E
from rules import c15

EXPLANATION = ('Value-flow normal form of every From, FromIterator and new_* constructor of expressions, values, keys, block labels, '
               'object identifiers, body elements and blocks. The result is the variant of that kind and its payload is the argument '
               'itself: every element of a collection, in order, and nothing else. A conversion that has disappeared is reported too.')
TECHNIQUE = 'value-flow normal forms of constructors and conversions compared with identity-on-content specifications'
LEVEL_NOTE = 'All paths, all inputs. Copies (clone, to_string, Cow::Owned of text) count as the same content.'

VAL, EXPR = 'value::Value', 'parser::expression::Expression'
KEY, OEI, LAB, BE = 'Key', 'ObjectElementIdentifier', 'BlockLabel', 'BodyElement'


def run(ctx):
    n = 0
    V, X = ctx.adt('value::Value'), ctx.adt('Expression')
    K = ctx.adt('KeyValuePairs')
    NUM = c15.N if c15.N in ctx.prog.adts else ctx.adt('parser::number::Number')

    def wrap(adt, var):
        return lambda S, x: t.adt(ctx.adt(adt), var, [('0', x)])

    def of(target, src, trait='From'):
        bs = [b for b in ctx.bodies(trait=trait, name='from' if trait == 'From' else 'from_iter')
              if E.head_ty([E.norm_ty(a) for a in b.j['trait_args']][0]).split('::')[-1] == target
              and src([E.norm_ty(a) for a in b.j['trait_args']][1])]
        return bs

    def conv(target, srcname, src, spec, trait='From', least=1, **kw):
        nonlocal n
        key = '%s %s %s' % (target, 'from' if trait == 'From' else 'collected from', srcname)
        bs = of(target, src, trait)
        if len(bs) < least:
            ctx.bad(key, 'the conversion is gone')
            return
        for b in bs:
            n += 1
            ctx.equiv(b, spec, key=key, **kw)
    is_ = lambda *names: (lambda s: s in names)
    last = lambda *names: (lambda s: E.head_ty(s).split('::')[-1] in names and not s.startswith('('))
    # ---- expressions
    for T in c15.UINT + c15.INT + ['f32', 'f64']:
        def spec(S, v, T=T):
            frac = t.NONE
            if T[0] == 'f' and S.decide(c15.HASDOT):
                frac = t.some(c15.FRAC)
            pos = t.TRUE if T in c15.UINT else t.nnot(t.lt(v, t.cint(0))) if T in c15.INT else c15.SIGN
            num = t.adt(NUM, NUM.split('::')[-1], [('input', t.mk('call', 'to_string', v)), ('positive', pos), ('whole', c15.WHOLE),
                                                   ('fraction', frac), ('exponent', t.NONE)])
            return t.adt(X, 'Number', [('0', num)])
        conv('Expression', T, is_(T), spec, names=['n'], tree=True, post=lambda v: c15.canon(v, NUM))
    conv('Expression', 'Number', last('Number'), wrap(X, 'Number'))
    conv('Expression', 'bool', is_('bool'), wrap(X, 'Boolean'))
    conv('Expression', 'text', lambda s: s.startswith('std::borrow::Cow'), wrap(X, 'String'))
    conv('Expression', '&str', is_('&str'), wrap(X, 'String'))
    conv('Expression', 'Vec', lambda s: s.startswith('std::vec::Vec'), wrap(X, 'Tuple'))
    conv('Expression', '()', is_('()'), lambda S, x: t.adt(X, 'Null', []))
    conv('Expression', 'expressions', last('Expression'), wrap(X, 'Tuple'), trait='FromIterator')
    # ---- values
    for T, var in (('i64', 'Integer'), ('f64', 'Float'), ('bool', 'Boolean'), ('std::string::String', 'String'), ('&str', 'String')):
        conv('Value', T, is_(T), wrap(V, var))
    conv('Value', 'Vec of maps', lambda s: s.startswith('std::vec::Vec<KeyValuePairs'), wrap(V, 'Object'))
    conv('Value', 'block', lambda s: s.startswith('KeyValuePairs<std::vec::Vec'), wrap(V, 'Block'))
    conv('Value', 'map', lambda s: s.startswith('KeyValuePairs<') and not s.startswith('KeyValuePairs<std::vec::Vec'),
         lambda S, x: t.adt(V, 'Object', [('0', t.lst(x))]))
    conv('Value', 'Option of list', lambda s: s.startswith('std::option::Option'),
         lambda S, x: t.adt(V, 'List', [('0', t.NIL if S.opt(x) is None else S.opt(x))]))
    conv('Value', 'reference', lambda s: s.startswith('&') and s != '&str', lambda S, x: S.call('Into::into', x))
    conv('Value', 'values', last('Value'), wrap(V, 'List'), trait='FromIterator')
    un = lambda S, x: t.adt(K, 'Unmerged', [('0', x)])
    conv('KeyValuePairs', 'pairs', lambda s: True, un, trait='FromIterator', least=2)
    # ---- the rest
    conv('Key', '&str', is_('&str'), wrap(KEY, 'Identifier'))
    conv('Key', 'String', is_('std::string::String'), wrap(KEY, 'Identifier'))
    conv('ObjectElementIdentifier', '&str', is_('&str'), wrap(OEI, 'Identifier'))
    conv('BlockLabel', '&str', is_('&str'), wrap(LAB, 'Identifier'))
    conv('BodyElement', 'attribute', lambda s: s.startswith('('), wrap(BE, 'Attribute'))
    conv('BodyElement', 'block', last('Block'), wrap(BE, 'Block'))
    # ---- named constructors
    B = ctx.adt('parser::block::Block')

    def block(S, ty, labels, body):
        return t.adt(B, 'Block', [('type', ty), ('labels', labels), ('body', body)])

    def oneline(S, ty, labels, attr):
        a = S.opt(attr)
        return block(S, ty, labels, t.NIL if a is None else t.lst(t.adt(ctx.adt(BE), 'Attribute', [('0', a)])))
    obj = lambda S, x: t.adt(V, 'Object', [('0', x)])
    pair = lambda e, a, b: t.tup(a, b)
    NAMED = [
        (KEY, 'new_identifier', wrap(KEY, 'Identifier')), (KEY, 'new_identifier_owned', wrap(KEY, 'Identifier')),
        (KEY, 'new_string', wrap(KEY, 'String')), (KEY, 'new_string_owned', wrap(KEY, 'String')),
        ('Expression', 'new_tuple', wrap(X, 'Tuple')),
        ('Expression', 'new_object', lambda S, x: t.adt(X, 'Object', [('0', S.each(x, lambda e: t.tup(S.call('Into::into', t.f(e, '0', 'tup')),
                                                                                                      t.f(e, '1', 'tup'))))])),
        ('Value', 'new_list', wrap(V, 'List')),
        ('Value', 'new_map', lambda S, x: obj(S, S.each(x, lambda e: un(S, e)))),
        ('Value', 'new_single_map', lambda S, x: obj(S, t.lst(un(S, x)))),
        ('Value', 'new_block', lambda S, keys, x: t.adt(V, 'Block', [('0', un(S, t.lst(t.tup(keys, un(S, x)))))])),
        ('Block', 'new', block), ('Block', 'new_one_line', oneline),
    ]
    for a, nm, spec in NAMED:
        bs = [b for b in ctx.bodies(adt=a, name=nm, trait=None)]
        key = '%s::%s' % (a, nm)
        if len(bs) != 1:
            ctx.bad(key, '%d functions' % len(bs))
            continue
        n += 1
        ctx.equiv(bs[0], spec, key=key)
    for b in ctx.bodies(name='new_unmerged', trait=None):
        n += 1
        ctx.equiv(b, un, key='new_unmerged of ' + ('blocks' if 'Vec<' in b.j['self_ty'].split(',')[0] else 'maps'))
    ctx.floor(n, 50, 'conversions')
