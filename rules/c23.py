"""C23: both grammars accept exactly their productions."""
from rules import grammar as R
from rules import syntax as Y

TECHNIQUE = 'path-sensitive value-flow analysis of the productions\' MIR over text positions, compared per path and per loop iteration with the specified productions'
EXPLANATION = ('each production is reduced to a decision tree over what comes next (literals, sub-productions accepting, end of input) and '
               'compared on every path with its specification: whether it accepts, rejects or aborts, and where it stops')
LEVEL_NOTE = 'sound for every input up to the transfer functions of nom\'s input primitives; by induction over the productions'
P = 'parser::'


def run(ctx):
    r = R.Run(ctx)
    for n, spec in Y.GRAMMAR.items():
        r.check(P + n, spec, value=False)
    ctx.floor(len(ctx.obl), 12, 'productions')
