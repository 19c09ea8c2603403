"""C21: whitespace, newlines and comments."""
from rules import grammar as R
from rules import syntax as Y

TECHNIQUE = 'path-sensitive value-flow analysis of the parsers\' MIR over text positions; per path and per loop iteration comparison with the specified grammar'
EXPLANATION = ('every parser of the whitespace module is reduced to a decision tree over the input (which literal or character '
               'class comes next) and compared, on every path, with the specification; loops are compared iteration by iteration')
LEVEL_NOTE = 'sound for every input up to the transfer functions of nom\'s input primitives'
W = Y.W


def run(ctx):
    r = R.Run(ctx)
    for n in ('inline_comment', 'hash_comment', 'slash_comment', 'line_comment', 'inline_whitespace', 'whitespace', 'newline'):
        r.check(W + n, getattr(Y, n), value=n in ('inline_comment', 'hash_comment', 'slash_comment', 'line_comment'),
                anchors={W + n: R.ANCHORS[W + n]} if W + n in R.ANCHORS else {})
    # who recognises whitespace: nothing else skips text
    for n, spec in Y.GRAMMAR.items():
        r.check('parser::' + n, spec, value=False)
    ctx.floor(len(ctx.obl), 25, 'whitespace parsers')
