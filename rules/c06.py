"""C06: as_owned is the identity on contents."""
from vlib import terms as t
from vlib.terms import mk
from vlib.spec import fname

EXPLANATION = ('Value-flow normal forms over the type-checked MIR: for every AsOwned implementation of the crate each path of '
               'as_owned is reduced to a term over `self`; with as_owned on components read as identity (induction on the '
               'component), the term must be exactly `self`: every variant to the same variant, every field to its own field, '
               'every sequence and map rebuilt element by element in order. That nothing borrows is the trait bound '
               "Output: 'static, which the compiler checks and the rule requires to be present.")
TECHNIQUE = 'path-sensitive value-flow normal forms of every as_owned compared with the identity'
LEVEL_NOTE = ('All paths of every AsOwned implementation; std clone/map/collect are trusted as modelled, and Output being free of the '
              'input lifetime is the compiler\'s trait bound check.')
NAME = 'AsOwned::as_owned'


def run(ctx):
    bs = ctx.bodies(trait='AsOwned', name='as_owned')
    for b in bs:
        ev = ctx.ev()
        ev.identity.add(NAME)
        ctx.equiv(b, lambda S, me: me, key='as_owned of ' + (b.j.get('self_ty') or '?'), ev=ev)
    for b in ctx.bodies(trait=None, name='as_owned'):
        if b.j.get('self_adt') in ctx.prog.adts:
            ev = ctx.ev()
            ev.identity.add(NAME)
            ctx.equiv(b, lambda S, me: me, key='as_owned method of ' + b.j['self_adt'], ev=ev)
    ctx.floor(len(bs), 18, 'AsOwned implementations')
    have = {(b.j.get('self_adt') or '').split('::')[-1] for b in bs}
    ctx.extra['types'] = sorted(b.j.get('self_ty') or '?' for b in bs)
    want = {'KeyValuePairs', 'Block', 'BodyElement', 'BlockLabel', 'ObjectElementIdentifier', 'Number', 'Exponent', 'Expression', 'Key', 'Value'}
    ctx.expect(want <= have, 'coverage', 'AsOwned missing for %s' % sorted(want - have))
