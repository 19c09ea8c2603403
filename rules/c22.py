"""C22: lexical form of identifiers, keywords, numbers, keys and block labels."""
from rules import grammar as R
from rules import syntax as Y

TECHNIQUE = 'path-sensitive value-flow analysis of the token parsers\' MIR over text positions, compared per path with the specified lexical grammar'
EXPLANATION = ('each token parser is reduced to a decision tree over the input (which literal or character class comes next, where '
               'maximal runs end) and compared on every path with the specified token: what it accepts, where it stops, what it yields')
LEVEL_NOTE = 'sound for every input up to the transfer functions of nom\'s input primitives and of the Unicode class predicates'
P = 'parser::'
TOKENS = [
    (P + 'identifier::identifier', Y.identifier), (P + 'null::null', Y.null), (P + 'boolean::boolean', Y.boolean),
    (P + 'number::number', Y.number),
    (P + 'literals::number::number', Y.value_number), (P + 'literals::key::key', Y.key), (P + 'block::block_label', Y.block_label),
]


def run(ctx):
    r = R.Run(ctx)
    for n, spec in TOKENS:
        r.check(n, spec, anchors=R.lexical(n))
    # no other keyword or key form
    for n in ('expression::expression', 'single_value', 'object::object_element_identifier'):
        r.check(P + n, Y.GRAMMAR[n])
    ctx.floor(len(ctx.obl), 10, 'token parsers')

