"""C20: string escapes and quoted strings."""
from rules import grammar as R
from rules import syntax as Y

TECHNIQUE = 'path-sensitive value-flow analysis of the string parsers\' MIR over text positions, compared per path with the specified escape table and string grammar'
EXPLANATION = ('the escape parser, both quoted forms and the string alternative are reduced to decision trees over the input; the text of '
               'each escape, its digit limits, the numeric base, the code point conversion and the rejection (a failure with the '
               'invalid-code-point code) are compared on every path with the specification; the content loop is compared per iteration')
LEVEL_NOTE = 'sound for every input up to the transfer functions of nom\'s input primitives, from_str_radix and char::from_u32'
P = 'parser::string::'


def run(ctx):
    r = R.Run(ctx)
    for n in ('unescape', 'quoted_string', 'string_literal', 'string'):
        r.check(P + n, getattr(Y, n), anchors=R.lexical(P + n))
    # where which kind of string is allowed
    for n in ('block::block_label', 'literals::key::key'):
        r.check('parser::' + n, Y.TOKENS[n], anchors=R.lexical('parser::' + n))
    for n in ('expression::expression', 'single_value', 'object::object_element_identifier', 'attribute'):
        r.check('parser::' + n, Y.GRAMMAR[n])
    ctx.floor(len(ctx.obl), 10, 'string parsers')
