"""C30: what the productions accept is what they return."""
from rules import grammar as R
from rules import syntax as Y
from rules.entry import starts

TECHNIQUE = 'path-sensitive value-flow analysis of the productions\' MIR, comparing the value returned on every path and loop iteration with the specified construction'
EXPLANATION = ('each production is reduced to the tree it returns on every path, as a term over the results of its sub-productions and the '
               'positions they were applied to, and compared with the specified construction: which variant, which part in which place, '
               'and for repetitions the list of the elements of every iteration in order')
LEVEL_NOTE = 'sound for every input up to the transfer functions of nom\'s input primitives; by induction over the productions'
P = 'parser::'
PARTS = ['identifier::identifier', 'number::number', 'literals::number::number', 'literals::key::key', 'block::block_label', 'boolean::boolean']


def run(ctx):
    r = R.Run(ctx)
    for n, spec in Y.GRAMMAR.items():
        r.check(P + n, spec)
    for n in PARTS:
        r.check(P + n, Y.TOKENS[n], anchors=R.lexical(P + n))
    for n in ('string', 'quoted_string', 'string_literal', 'heredoc_string'):
        r.check(P + 'string::' + n, Y.TOKENS['string::' + n], anchors=R.lexical(P + 'string::' + n), value=True)
    # and the entry points return the tree of the grammar
    starts(ctx)
    ctx.floor(len(ctx.obl), 31, 'productions')
