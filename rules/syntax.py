"""The specified grammar, as decision procedures over text positions (see vlib/gram.py for the vocabulary).

Every function takes (g, s, ...) and returns (rest, value) or raises GErr / GFail.
"""
from vlib import terms as t
from vlib import text as X
from vlib import gram as G
from vlib.gram import GErr, GFail
from vlib.terms import mk

W = 'parser::whitespace::'
P = 'parser::'


# ---------------------------------------------------------------- helpers
def iws(g, s):
    return X.ws(W + 'inline_whitespace', s)


def ws(g, s):
    return X.ws(W + 'whitespace', s)


def chars(g, cs):
    return g.cls(lambda c: anyof(c, cs))


def anyof(c, cs):
    r = t.FALSE
    for k in reversed(cs):
        r = t.bor(t.eq(c, t.c('char', k)), r)
    return r


def noneof(g, cs):
    return g.cls(lambda c: t.nnot(anyof(c, cs)))


def adt(g, name, variant, **fields):
    p = g.S.ctx.adt(name) if '::' not in name else name
    return t.adt(p, variant, list(fields.items()))


def field0(v):
    return [('0', v)]


def call(name):
    return lambda g, s: g.call(P + name, s)


# ---------------------------------------------------------------- whitespace and comments
def inline_comment(g, s):
    s, _ = g.tag(s, '/*')
    L = t.cstr('*/')
    if not g.ev.decide(mk('contains', s, L)):
        raise GErr()
    e = mk('find', s, L)
    return X.skip(e, t.cint(2)), X.upto(s, e)


def line_end(g, s):
    return g.alt(s, lambda x: g.tag(x, '\n'), lambda x: g.tag(x, '\r\n'))


def line_comment_of(mark):
    def p(g, s):
        s, _ = g.tag(s, mark)
        r, v = g.while0(s, noneof(g, '\r\n'))
        r, _ = line_end(g, r)
        return r, v
    return p


hash_comment = line_comment_of('#')
slash_comment = line_comment_of('//')


def line_comment(g, s):
    return g.alt(s, lambda x: hash_comment(g, x), lambda x: slash_comment(g, x))


def inline_whitespace(g, s):
    return g.many0(s, lambda x: g.alt(x, lambda y: inline_comment(g, y), lambda y: g.while1(y, chars(g, ' \t'))))


def whitespace(g, s):
    return g.many0(s, lambda x: g.alt(x, lambda y: line_comment(g, y), lambda y: inline_comment(g, y),
                                      lambda y: g.while1(y, chars(g, ' \t\r\n'))))


def newline(g, s):
    def one(x):
        def commented(y):
            r, v = inline_comment(g, y)
            r, _ = line_end(g, r)
            return r, v
        return g.alt(x, lambda y: line_comment(g, y), commented, lambda y: line_end(g, y))
    return g.many1(s, one)


# ---------------------------------------------------------------- lexical
def identifier(g, s):
    cont = g.cls(lambda c: t.bor(t.call('is_id_continue', c), t.eq(c, t.c('char', '-'))))
    r, v = g.while1(s, cont)
    h = t.head(mk('chars', s))
    if g.ev.decide(t.bor(G.classify('is_id_start', g.ev.head_char(h)), t.eq(h, t.c('char', '_')))):
        return r, v
    raise GErr()


def null(g, s):
    r, _ = g.tag(s, 'null')
    return r, t.UNIT


def boolean(g, s):
    def lit(w, v):
        return lambda x: (g.tag(x, w)[0], v)
    return g.alt(s, lit('true', t.TRUE), lit('false', t.FALSE))


def digits(g, s):
    return g.while1(s, G.DIGIT(g.ev))


def sign(g, s):
    """(rest, positive)"""
    r, c = g.opt(s, lambda x: g.oneof(x, '+-'))
    return r, t.cbool(c is None or c.args[1] == '+')


def exponent(g, s):
    r, _ = g.oneof(s, 'eE')
    r, pos = sign(g, r)
    r, d = digits(g, r)
    return r, adt(g, 'Exponent', 'Exponent', positive=pos, exponent=d)


def number(g, s):
    r, pos = sign(g, s)

    def whole(x):
        x, d = digits(g, x)
        x2, f = g.opt(x, lambda y: g.tag(y, '.'))
        if f is None:
            return x, (t.some(d), t.NONE)
        x3, f = g.opt(x2, lambda y: digits(g, y))
        return x3, (t.some(d), t.some(t.NIL if f is None else f))

    def fraction(x):
        x, _ = g.tag(x, '.')
        x, d = digits(g, x)
        return x, (t.NONE, t.some(d))
    r, (w, f) = g.alt(r, whole, fraction)
    r, e = g.opt(r, lambda y: exponent(g, y))
    p = g.S.ctx.adt('parser::number::Number')
    return r, t.adt(p, 'Number', [('input', X.upto(s, r)), ('positive', pos), ('whole', w), ('fraction', f),
                                  ('exponent', t.NONE if e is None else t.some(e))])


def exponent_opt(g, s):
    r, e = g.opt(s, lambda y: exponent(g, y))
    return r, t.NONE if e is None else t.some(e)


def value_number(g, s):
    """literals::number: a float literal, read as an i64 if it is one, else as an f64"""
    r, v = g.call('nom::recognize_float', s)
    ok, i = g.ev.res(t.call('parse:i64', v))
    p = g.S.ctx.adt('parser::literals::number::Number')
    if ok:
        return r, t.adt(p, 'Integer', field0(i))
    ok, f = g.ev.res(t.call('parse:f64', v))
    if ok:
        return r, t.adt(p, 'Float', field0(f))
    raise GErr()


def named_or_quoted(name, ident, quoted):
    def p(g, s):
        q = g.S.ctx.adt(name)

        def i(x):
            r, v = g.call(P + 'identifier::identifier', x)
            return r, t.adt(q, ident, field0(v))

        def l(x):
            r, v = g.call(P + 'string::string_literal', x)
            return r, t.adt(q, quoted, field0(v))
        return g.alt(s, i, l)
    return p


key = named_or_quoted('Key', 'Identifier', 'String')
block_label = named_or_quoted('BlockLabel', 'Identifier', 'StringLiteral')


# ---------------------------------------------------------------- strings
ESCAPES = {'a': '\x07', 'b': '\x08', 'f': '\x0c', 'n': '\n', 'r': '\r', 't': '\t', 'v': '\x0b', '\\': '\\', '"': '"', '?': '?'}


def radix_class(g, n):
    cs = [c for c in map(chr, range(128)) if c in G.digits_of(n)]
    return chars(g, cs)


def code_point(g, digits_, base):
    """the character with that code, if there is one"""
    c = t.call('char::from_u32', mk('radix', digits_, t.cint(base)))
    o = g.S.opt(c)
    if o is None:
        raise GErr()
    return t.charstr(o)


def custom_code(g, name):
    k = [v for v in g.S.ev.prog.adts['errors::InternalKind']['variants'] if v['name'] == name]
    return k[0]['disc']


def numeric_escape(prefix, most, base):
    def p(g, s):
        if prefix:
            s, _ = g.tag(s, prefix)
        r, d = g.upto_n(s, radix_class(g, base), most)
        return r, code_point(g, d, base)
    return p


def unescape(g, s):
    for k, v in ESCAPES.items():
        if g.ev.decide(X.starts(s, t.cstr(k))):
            return X.skip(s, t.cint(1)), t.cstr(v)
    try:
        return g.alt(s, *[lambda x, n=n: numeric_escape(*n)(g, x) for n in (('', 3, 8), ('x', 2, 16), ('u', 4, 16), ('U', 8, 16))])
    except GErr:
        raise GFail((custom_code(g, 'InvalidUnicodeCodePoint'),))


def escaped(g, s, cls):
    """runs of `cls` and escapes; stops at the first other character; must not end with an escape's backslash"""
    def step(st):
        if g.ev.decide(t.empty(st)):
            return None
        if not g.ev.decide(X.nospan(st, cls)):
            r, v = g.while0(st, cls)
        elif g.ev.decide(X.starts(st, t.cstr('\\'))):
            r = X.skip(st, t.cint(1))
            if g.ev.decide(t.empty(r)):
                raise GErr()
            r, v = g.call(P + 'string::unescape', r)
        else:
            return None
        if g.ev.decide(t.empty(r)):
            return None
        return r, [v]
    return g.loop(s, step)


def quoted(cs):
    """a closing quote has to follow the content, so where the text ends first there is no string"""
    def p(g, s):
        s, _ = g.tag(s, '"')
        F, A = escaped(g, s, noneof(g, cs))
        r, _ = g.tag(F, '"')
        return r, A[0]
    return p


quoted_string = quoted('\\"')
string_literal = quoted('\\"\r\n')


def string(g, s):
    return g.alt(s, lambda x: g.call(P + 'string::quoted_string', x), lambda x: g.call(P + 'string::heredoc_string', x))


def heredoc_begin(g, s):
    s, _ = g.tag(s, '<<')
    s, dash = g.opt(s, lambda x: g.tag(x, '-'))
    word = g.cls(lambda c: t.bor(t.call('char::is_alphanumeric', c), t.eq(c, t.c('char', '_'))))
    r, v = g.while1(s, word)
    line_end(g, r)
    return r, t.adt(g.S.ctx.adt('HereDoc'), 'HereDoc', [('identifier', v), ('indented', t.cbool(dash is not None))])


def heredoc_end(g, s, here):
    s, _ = line_end(g, s)
    s, blanks = g.while0(s, chars(g, ' \t'))
    r = g.word(s, g.S.f(here, 'HereDoc', 'identifier'))
    line_end(g, r)
    ind = g.S.f(here, 'HereDoc', 'indented')
    return r, X.slen(blanks) if g.ev.decide(ind) else t.ZERO


def heredoc_string(g, s):
    s, here = g.call(P + 'string::heredoc_begin', s)
    try:
        r, _ = g.call(P + 'string::heredoc_end', s, here)
        return r, t.NIL
    except GErr:
        pass
    s, _ = line_end(g, s)
    ends = t.fm(mk('char_indices', s), g.ev.lam(lambda e: t.lst(e) if g.ok(P + 'string::heredoc_end', X.skip(s, t.f(e, '0', 'tup')), here) else t.NIL))
    if g.ev.decide(t.empty(ends)):
        raise GErr()
    end = X.skip(s, t.f(t.head(ends), '0', 'tup'))
    r, ind = g.call(P + 'string::heredoc_end', end, here)
    content = X.upto(s, end)
    if g.ev.decide(t.eq(ind, t.ZERO)):
        return r, content
    sp = chars(g, ' ')
    x = t.sym('line')
    n = t.min_(ind, X.offs(x, X.aft(x, sp)))
    lines = t.fm(mk('split', content, t.cstr('\n')), t.lam(t.lift(n, lambda k: t.lst(X.skip(x, k))), x))
    return r, t.joined(lines, t.cstr('\n'))


# ---------------------------------------------------------------- configuration grammar
WHITE = {'inline': iws, 'any': ws}


def seq(g, s, gap, *ps):
    """the parsers one after the other with optional space before each and after the last; values of all"""
    vs = []
    for p in ps:
        s, v = p(gap(g, s))
        vs.append(v)
    return gap(g, s), vs


def tag_(g, L):
    return lambda x: g.tag(x, L)


def call_(g, n):
    return lambda x: g.call(P + n, x)


def mapped(p, f):
    def q(x):
        r, v = p(x)
        return r, f(v)
    return q


def tuple2(a, b):
    return t.tup(a, b)


def attribute(g, s):
    r, (i, _, e) = seq(g, s, iws, call_(g, 'identifier::identifier'), tag_(g, '='), call_(g, 'expression::expression'))
    return r, t.tup(i, e)


def block_labels(g, s):
    return g.many0(s, lambda x: labelled(g, x))


def labelled(g, x):
    r, v = seq(g, x, iws, call_(g, 'block::block_label'))
    return r, v[0]


def one_line_block(g, s):
    def attr(x):
        r, v = g.opt(x, call_(g, 'attribute::attribute'))
        return r, t.NIL if v is None else t.lst(adt(g, 'BodyElement', 'Attribute', **{'0': v}))
    r, (i, ls, _, b, _) = seq(g, s, iws, call_(g, 'identifier::identifier'), call_(g, 'block::block_labels'), tag_(g, '{'), attr, tag_(g, '}'))
    return r, adt(g, 'parser::block::Block', 'Block', type=i, labels=ls, body=b)


def block(g, s):
    r, (i, ls, _, _, b, _) = seq(g, s, iws, call_(g, 'identifier::identifier'), call_(g, 'block::block_labels'), tag_(g, '{'),
                                 call_(g, 'whitespace::newline'), call_(g, 'body::body'), tag_(g, '}'))
    return r, adt(g, 'parser::block::Block', 'Block', type=i, labels=ls, body=b)


def body_element(g, s):
    def as_(v):
        return lambda x: adt(g, 'BodyElement', v, **{'0': x})
    return g.alt(s, mapped(call_(g, 'attribute::attribute'), as_('Attribute')),
                 mapped(call_(g, 'block::one_line_block'), as_('Block')),
                 mapped(call_(g, 'block::block'), as_('Block')))


def body(g, s):
    def one(x):
        r, v = g.call(P + 'body::body_element', ws(g, x))
        r, _ = g.alt(r, call_(g, 'whitespace::newline'), lambda y: g.eof(y))
        return r, v
    r, vs = g.many0(s, one)
    return ws(g, r), vs


def bracketed_list(elem):
    def p(g, s):
        s, _ = g.tag(s, '[')
        r, vs = g.sep_list(ws(g, s), lambda x: g.tag(ws(g, x), ','), lambda x: g.call(P + elem, ws(g, x)))
        r = ws(g, r)
        if not g.ev.decide(t.empty(vs)):
            r, _ = g.opt(r, tag_(g, ','))
            r = ws(g, r)
        r, _ = g.tag(r, ']')
        return r, vs
    return p


tuple_ = bracketed_list('expression::expression')
list_ = bracketed_list('single_value')


def object_element_identifier(g, s):
    def expr(x):
        r, _ = g.call(P + 'expression::expression', x)
        return r, adt(g, 'ObjectElementIdentifier', 'Expression', **{'0': X.upto(s, r)})
    return g.alt(s, mapped(call_(g, 'identifier::identifier'), lambda i: adt(g, 'ObjectElementIdentifier', 'Identifier', **{'0': i})), expr)


def object_element(g, s):
    r, (i, _, e) = seq(g, s, iws, call_(g, 'object::object_element_identifier'), tag_(g, '='), call_(g, 'expression::expression'))
    return r, t.tup(i, e)


def object_(g, s):
    def one(x):
        r, v = g.call(P + 'object::object_element', ws(g, x))
        r, _ = g.alt(r, tag_(g, ','), call_(g, 'whitespace::newline'), lambda y: (g.peek(y, tag_(g, '}')), None))
        return r, v
    s, _ = g.tag(ws(g, s), '{')
    r, vs = g.many0(ws(g, s), one)
    r, _ = g.tag(ws(g, r), '}')
    return r, vs


def bracket_expression(g, s):
    s, _ = g.tag(ws(g, s), '(')
    r, v = g.call(P + 'expression::expression', ws(g, s))
    r, _ = g.tag(ws(g, r), ')')
    return r, v


def expression(g, s):
    def as_(v):
        return lambda x: adt(g, 'Expression', v, **{'0': x})
    return g.alt(s, mapped(call_(g, 'null::null'), lambda x: adt(g, 'Expression', 'Null')),
                 mapped(call_(g, 'number::number'), as_('Number')),
                 mapped(call_(g, 'boolean::boolean'), as_('Boolean')),
                 mapped(call_(g, 'string::string'), as_('String')),
                 mapped(call_(g, 'tuple::tuple'), as_('Tuple')),
                 mapped(call_(g, 'object::object'), as_('Object')),
                 lambda x: bracket_expression(g, x))


def config_file(g, s):
    r, v = g.call(P + 'body::body', s)
    g.eof(r)
    return r, v


# ---------------------------------------------------------------- value grammar
def single_value(g, s):
    def as_(v):
        return lambda x: adt(g, 'Value', v, **{'0': x})

    def num(x):
        N = 'parser::literals::number::Number'
        v = 'Integer' if g.S.variant(x, N) == 'Integer' else 'Float'
        return adt(g, 'Value', v, **{'0': g.S.vf(x, N, v)})
    return g.alt(s, mapped(call_(g, 'null::null'), lambda x: adt(g, 'Value', 'Null')),
                 mapped(call_(g, 'literals::number::number'), num),
                 mapped(call_(g, 'boolean::boolean'), as_('Boolean')),
                 mapped(call_(g, 'string::string'), as_('String')),
                 mapped(call_(g, 'list'), as_('List')),
                 mapped(call_(g, 'map_expression'), lambda m: adt(g, 'Value', 'Object', **{'0': t.lst(m)})))


def map_expression(g, s):
    s, _ = g.tag(ws(g, s), '{')
    r, v = g.call(P + 'map_values', ws(g, s))
    r, _ = g.tag(ws(g, r), '}')
    return r, v


def map_values(g, s):
    def one(x):
        r, v = g.call(P + 'attribute', ws(g, x))

        def comma(y):
            y, _ = g.tag(ws(g, y), ',')
            return ws(g, y), None
        r, _ = g.alt(r, comma, call_(g, 'whitespace::newline'), lambda y: g.eof(y))
        return r, v
    r, vs = g.many0(s, one)
    return ws(g, r), pairs(g, vs)


def pairs(g, vs):
    return adt(g, 'KeyValuePairs', 'Unmerged', **{'0': vs})


def value_attribute(g, s):
    def simple(x):
        r, (k, _, v) = seq(g, x, iws, call_(g, 'literals::key::key'), tag_(g, '='), call_(g, 'single_value'))
        return r, t.tup(k, v)

    def blockish(x):
        x, i = g.call(P + 'identifier::identifier', iws(g, x))
        x, ls = g.many0(x, lambda y: g.call(P + 'string::string_literal', iws(g, y)))
        r, vs = g.call(P + 'map_expression', iws(g, x))
        k = adt(g, 'Key', 'Identifier', **{'0': i})
        if g.ev.decide(t.empty(ls)):
            v = adt(g, 'Value', 'Object', **{'0': t.lst(vs)})
        else:
            v = adt(g, 'Value', 'Block', **{'0': pairs(g, t.lst(t.tup(ls, vs)))})
        return iws(g, r), t.tup(k, v)
    return g.alt(s, simple, blockish)


def value_body(g, s):
    r, v = g.call(P + 'map_values', s)
    g.eof(r)
    return r, v


GRAMMAR = {
    'attribute::attribute': attribute, 'block::block_labels': block_labels, 'block::one_line_block': one_line_block,
    'block::block': block, 'body::body_element': body_element, 'body::body': body, 'tuple::tuple': tuple_,
    'object::object_element_identifier': object_element_identifier, 'object::object_element': object_element,
    'object::object': object_, 'expression::expression': expression, 'config_file': config_file,
    'list': list_, 'single_value': single_value, 'map_expression': map_expression, 'attribute': value_attribute,
    'map_values': map_values, 'body': value_body,
}
TOKENS = {
    'identifier::identifier': identifier, 'null::null': null, 'boolean::boolean': boolean, 'number::number': number,
    'literals::number::number': value_number, 'literals::key::key': key, 'block::block_label': block_label,
    'string::unescape': unescape, 'string::quoted_string': quoted_string, 'string::string_literal': string_literal,
    'string::string': string, 'string::heredoc_begin': heredoc_begin, 'string::heredoc_end': heredoc_end,
    'string::heredoc_string': heredoc_string, 'whitespace::newline': newline,
}
G.Gram.specs.update({P + k: v for k, v in list(GRAMMAR.items()) + list(TOKENS.items())})
