"""C25: safe indices stay in bounds and on character boundaries."""
from vlib import terms as t
from vlib import eval as E
from vlib import facts
from vlib.spec import rewrite, Spec, Ctx
from vlib.terms import mk

EXPLANATION = ('Value-flow normal form of safe_indices for every implementing type: text yields exactly the character offsets of itself, '
               'in order, byte inputs exactly 0 up to their length, and the wrapper what its inner input yields. take_till_match is '
               'expanded in a witness crate over an arbitrary input type and an arbitrary inner parser, type-checked against the '
               'current library, and the normal form of that expansion is compared with the definition: the first index at which the '
               'inner parser succeeds, with the text before it, its remaining input and its output; an error if there is none. '
               'Slicing happens only at safe indices.')
TECHNIQUE = 'value-flow normal forms; generic witness expansion of the macro'
LEVEL_NOTE = 'All inputs, all implementing types, all inner parsers. char_indices, len and the nom slicing primitives are trusted.'


def run(ctx):
    n = 0
    seen = set()
    for b in ctx.bodies(trait='SafeIndexing', name='safe_indices'):
        st = E.norm_ty(b.j['self_ty'])
        h = E.head_ty(st).split('::')[-1]
        n += 1
        if h == 'str' or st in ('&str', 'str') or h == 'CompleteStr':
            seen.add('text')
            ctx.equiv(b, lambda S, x: S.each(mk('char_indices', x), lambda e: t.f(e, '0', 'tup')), key='safe_indices of ' + st)
        elif h == 'Input':
            seen.add('wrapper')
            ctx.equiv(b, lambda S, x: S.call('SafeIndexing::safe_indices', t.f(x, 'inner', 'nom::types::Input')), key='safe_indices of ' + st)
        elif '[' in st or h == 'CompleteByteSlice':
            seen.add('bytes')
            ctx.equiv(b, lambda S, x: t.rng(t.ZERO, t.length(x)), key='safe_indices of ' + st)
        else:
            ctx.bad('safe_indices of ' + st, 'no specification for this input type')
    ctx.expect(seen == {'text', 'wrapper', 'bytes'}, 'input types', 'implemented for %s' % sorted(seen))
    ctx.floor(n, 5, 'implementations')
    witness(ctx)


def witness(ctx):
    try:
        F = facts.probe()
    except facts.BuildError as ex:
        ctx.bad('take_till_match', 'the witness expansion does not compile: ' + str(ex)[-800:])
        return
    prog = E.Program(F)
    sub = Ctx(ctx.prop, prog)

    def canon(v):
        def fn(v):
            if v.op == 'call' and v.args[0] == 'nom::need_more_err':
                return mk('call', 'an error')
            if v.op == 'adt' and v.args[1] == 'Err' and v.args[0] == t.RESULT:
                return mk('call', 'an error')
            if v.op == 'call' and v.args[0] == 'Slice::slice' and v.args[2].op == 'adt' and v.args[2].args[0].endswith('RangeTo'):
                return before(v.args[1], v.args[2].args[3])
            if v.op == 'call' and v.args[0] == 'InputTake::take':
                return before(v.args[1], v.args[2])
            if v.op == 'f' and v.args[1] == '0' and v.args[0].op == 'call' and v.args[0].args[0] == 'InputTake::take_split':
                return after(v.args[0].args[1], v.args[0].args[2])
            return v
        return rewrite(v, fn)

    def before(x, i):
        return t.f(t.call('InputTake::take_split', x, i), '1', 'tup')

    def after(x, i):
        return t.call('Slice::slice', x, t.adt('std::ops::RangeFrom', 'RangeFrom', [('start', i)]))

    def spec(S, x, inner):
        def run_at(i):
            return S.ev.apply(inner, [after(x, i)])
        hits = t.fm(S.call('SafeIndexing::safe_indices', x),
                    S.ev.lam(lambda i: t.lst(i) if S.res(run_at(i))[0] else t.NIL))
        if S.decide(t.empty(hits)):
            return mk('call', 'an error')
        at = t.head(hits)
        ok, v = S.res(run_at(at))
        if not ok:
            raise E.PathDead()
        return t.ok(t.tup(t.f(v, '0', 'tup'), t.tup(before(x, at), t.f(v, '1', 'tup'))))
    for form in ('till_match', 'till_match_fn'):
        b = [x for x in prog.bodies.values() if x.j['path'] == form]
        sub.equiv(b[0], spec, key='take_till_match' if form == 'till_match' else 'take_till_match of a function', names=['input', 'inner'], post=canon)
    ctx.obl += sub.obl
    ctx.viol += sub.viol
    ctx.analysed |= sub.analysed
    ctx.paths += sub.paths
