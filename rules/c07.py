"""C07: merging loses nothing."""
from vlib import terms as t
from rules import c08
from rules.entry import starts
from rules.merge import Fns, merged_body, merged_block, all_errors, K

EXPLANATION = ('The merge loops of bodies and blocks (new_merged and everything reaching it: merge, as_merged) are reduced to a fold '
               'over the entries with a decision tree per entry; for every combination of presence of the key, kind of the stored and of the '
               'incoming value and presence of the labels the step must either stop with an error or keep the stored content and add '
               'the incoming one (new key, objects appended in order, blocks added under labels that are not there yet).')
TECHNIQUE = 'value-flow normal form of the merge loop (fold with per-entry decision tree) compared with the loss-free step'
LEVEL_NOTE = ('All paths of the merge functions for entry sequences of any length (induction over the fold). Value::merge on the '
              'contained values is C08; HashMap/Vec operations are trusted as modelled; key equality is C14.')


def run(ctx):
    f = Fns(ctx)
    opq = [f.vm]
    go = lambda b, spec, key, o: ctx.equiv(b, spec, key=key, opaque=o, post=all_errors, tree=True)

    def forms(spec):
        def sp(S, x):
            if S.variant(x, K) == 'Merged':
                return t.ok(x)
            return spec(S, f, S.vf(x, K, 'Unmerged'))
        return sp
    go(f.k_new_merged, lambda S, it: merged_body(S, f, it), 'MapValues::new_merged', opq)
    go(f.k_merge, forms(merged_body), 'MapValues::merge', opq)
    go(f.k_as_merged, forms(merged_body), 'MapValues::as_merged', opq)
    go(f.b_new_merged, lambda S, it: merged_block(S, f, it), 'Block::new_merged', [f.k_merge])
    go(f.b_merge, forms(merged_block), 'Block::merge', [f.k_merge])
    go(f.b_as_merged, forms(merged_block), 'Block::as_merged', [f.k_merge])
    c08.values(ctx, f, all_errors)
    starts(ctx, {'value::from_str'})
