"""C29: recursive length and merge-state queries."""
import re
from vlib import terms as t

EXPLANATION = ('For each implementation of ScalarLength and Mergeable and each len/is_empty, the value-flow normal form of every path is '
               'compared with its structural definition: a sum (conjunction) over every element of every container, 1 (true) for '
               'scalars and nulls, with the recursive call on components taken as correct (structural induction). The recursive '
               'calls must be on proper components of the subject.')
TECHNIQUE = 'value-flow normal forms compared with structural recursion equations'
LEVEL_NOTE = ('Each equation is decided for all paths; together with structural induction over the finite value tree they give the '
              'whole-tree statement. Arithmetic overflow of usize counts is ignored (a tree of 2^64 scalars does not fit in memory).')
LS, IM, IU = 'ScalarLength::len_scalar', 'Mergeable::is_merged', 'Mergeable::is_unmerged'


def total(S, seq, part, pick=None):
    from vlib.terms import lst
    def one(e):
        return S.ev.opaque(part, [pick(e) if pick else e])
    tr = S.ev.lam(lambda e: lst(one(e)))
    return t.sum_(t.fm(seq, tr))


def every(S, seq, part, pick=None):
    return t.nnot(t.any_(seq, S.ev.lam(lambda e: t.nnot(S.ev.opaque(part, [pick(e) if pick else e])))))


def snd(e):
    return t.f(e, '1', 'tup')


def run(ctx):
    n = 0
    V, K = 'Value', 'KeyValuePairs'
    sc = ('Null', 'Integer', 'Float', 'Boolean', 'String')

    def kvp(S, x):
        if S.variant(x, K) == 'Merged':
            return t.entries(S.vf(x, K, 'Merged'))
        return S.vf(x, K, 'Unmerged')

    def go(b, spec, key):
        nonlocal n
        n += 1
        ev = ctx.ev([])

        def leaf(name, fn):
            # lists and maps are looked through; values, sets of pairs and generic elements are not
            if name not in (LS, IM, IU):
                return False
            ty = ([a for a in fn.get('args') or [] if not a.startswith("'")] or [''])[0]
            return not re.match(r"^(&('[\w#]+ )?)*(std::vec::Vec<|\[|std::collections::HashMap<)", ty)
        ev.opaque_pred = leaf
        ctx.equiv_any(b, spec if isinstance(spec, list) else [spec], key=key, ev=ev)
    for b in ctx.bodies(trait='ScalarLength', name='len_scalar'):
        st = b.j['self_ty']
        adt = (b.j.get('self_adt') or '').split('::')[-1]
        key = 'len_scalar of ' + st
        if adt == V:
            def spec(S, x):
                v = S.variant(x, V)
                if v in sc:
                    return t.ONE
                return S.call(LS, S.vf(x, V, v)) if v == 'Block' else total(S, S.vf(x, V, v), LS)
        elif adt == K:
            def spec(S, x):
                return total(S, kvp(S, x), LS, snd)
        elif st.startswith('&'):
            spec = lambda S, x: S.call(LS, x)
        elif 'HashMap' in st:
            spec = lambda S, x: total(S, t.entries(x), LS, snd)
        else:
            spec = lambda S, x: total(S, x, LS)
        go(b, spec, key)
    ctx.floor(n, 38, 'len_scalar implementations')
    n0 = n
    for nm, T in (('is_merged', IM), ('is_unmerged', IU)):
        for b in ctx.bodies(trait='Mergeable', name=nm):
            st = b.j['self_ty']
            adt = (b.j.get('self_adt') or '').split('::')[-1]
            key = nm + ' of ' + st
            if adt == V:
                def spec(S, x, T=T):
                    v = S.variant(x, V)
                    if v in sc:
                        return t.TRUE
                    return S.call(T, S.vf(x, V, v)) if v == 'Block' else every(S, S.vf(x, V, v), T)
            elif adt == 'OneOrMany':
                def spec(S, x, T=T):
                    if S.variant(x, adt) == 'One':
                        return S.call(T, S.vf(x, adt, 'One'))
                    return every(S, S.vf(x, adt, 'Many'), T)
            elif adt == K:
                def pairs(S, x, T=T, nm=nm, pick=snd):
                    v = S.variant(x, K)
                    if v != ('Merged' if nm == 'is_merged' else 'Unmerged'):
                        return t.FALSE
                    return every(S, kvp(S, x), T, pick)
                # a pair is asked for the state of its second part (decided below for the implementation for pairs)
                spec = [pairs, lambda S, x, pairs=pairs: pairs(S, x, pick=None)]
            elif st.startswith('&'):
                spec = lambda S, x, T=T: S.call(T, x)
            elif 'HashMap' in st:
                spec = lambda S, x, T=T: every(S, t.entries(x), T, snd)
            elif st.startswith('('):
                spec = lambda S, x, T=T: S.call(T, snd(x))
            elif 'Vec<' in st:
                spec = lambda S, x, T=T: every(S, x, T)
            elif not b.j.get('self_adt') and b.j.get('impl') is None:
                continue        # the provided method of the trait
            else:
                ctx.bad(key, 'implementation without specification')
                continue
            go(b, spec, key)
    # every implementor overrides is_unmerged (the default is only the complement)
    for im in ctx.prog.impls:
        if (im.get('trait') or '').split('::')[-1] == 'Mergeable':
            ctx.expect(any(i.endswith('::is_unmerged') for i in im['items']), 'is_unmerged of ' + im['self_ty'],
                       'implements is_unmerged itself (the default is the complement of is_merged)')
    ctx.floor(n - n0, 14, 'merge state implementations')
    # lengths
    def vlen(S, x):
        v = S.variant(x, V)
        if v in sc:
            return t.ONE
        p = S.vf(x, V, v)
        if v == 'Block':
            return t.length(kvp(S, p))
        return t.length(p)
    ctx.guard('Value::len', lambda: ctx.equiv(ctx.body(adt=V, trait=None, name='len'), vlen, key='Value::len'))
    ctx.guard('Value::is_empty', lambda: ctx.equiv(ctx.body(adt=V, trait=None, name='is_empty'),
                                                 lambda S, x: t.eq(vlen(S, x), t.ZERO), key='Value::is_empty'))
    ctx.guard('KeyValuePairs::len', lambda: ctx.equiv(ctx.body(adt=K, trait=None, name='len'),
                                                     lambda S, x: t.length(kvp(S, x)), key='KeyValuePairs::len'))
    ctx.guard('KeyValuePairs::is_empty', lambda: ctx.equiv(ctx.body(adt=K, trait=None, name='is_empty'),
                                                          lambda S, x: t.eq(t.length(kvp(S, x)), t.ZERO), key='KeyValuePairs::is_empty'))
    ctx.guard('is_empty_scalar', lambda: ctx.equiv(ctx.body(name='is_empty_scalar'),
                                                  lambda S, x: t.eq(S.call(LS, x), t.ZERO), opaque=[LS], key='is_empty_scalar'))
