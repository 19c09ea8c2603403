"""C24: heredocs."""
from rules import grammar as R
from rules import syntax as Y

TECHNIQUE = 'path-sensitive value-flow analysis of the heredoc parsers\' MIR over text positions, compared per path with the specified heredoc form'
EXPLANATION = ('the start marker, the end marker (with its indentation), the search for the first end marker, the content between them '
               'and the removal of indentation per line are compared on every path with the specification')
LEVEL_NOTE = 'sound for every input up to the transfer functions of nom\'s input primitives and of std\'s string iterators'
P = 'parser::string::'


def run(ctx):
    r = R.Run(ctx)
    for n in ('heredoc_begin', 'heredoc_end', 'heredoc_string'):
        r.check(P + n, getattr(Y, n), anchors=R.lexical(P + n))
    # a heredoc is passed on as it was read
    r.check(P + 'string', Y.string, anchors=R.lexical(P + 'string'))
    for n in ('expression::expression', 'single_value'):
        r.check('parser::' + n, Y.GRAMMAR[n])
    ctx.floor(len(ctx.obl), 6, 'heredoc parsers')
