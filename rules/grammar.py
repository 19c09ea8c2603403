"""The specified grammar, and the comparison of parser functions with it (used by C20-C24, C30, C15, C02)."""
import re
from vlib import terms as t
from vlib import text as X
from vlib import gram as G
from vlib import eval as E
from vlib.terms import mk
from vlib.spec import Spec, clip, where, fname

A = G.Anchor
W = 'parser::whitespace::'
LETTERS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
DIGITS = '0123456789'
BL, NL = ' \t', '\r\n'
IDF = LETTERS + '_' + G.NA
NUMF = DIGITS + '+-.'
NL1 = NL + '#/'
WS1 = BL + NL + '#/'
EXPRF = NUMF + 'ntf"<[{(' + WS1
VALF = NUMF + 'ntf"<[{' + WS1
# sub-parsers kept symbolic, with the outcomes assumed of them (checked where they are analysed)
WHITESPACE = {
    W + 'inline_whitespace': A(err=False, consumes=False, skips=frozenset(BL), eats=BL + '/'),
    W + 'whitespace': A(err=False, consumes=False, skips=frozenset(BL + NL), eats=WS1),
    W + 'newline': A(first=NL1),
}
X.SKIPPERS[W + 'whitespace'] = (W + 'inline_whitespace',)
LEXICAL = dict(WHITESPACE)
LEXICAL.update({
    'parser::identifier::identifier': A(first=IDF),
    'parser::null::null': A(first='n'), 'parser::boolean::boolean': A(first='tf'),
    'parser::number::number': A(first=NUMF), 'parser::literals::number::number': A(first=NUMF),
    'parser::string::unescape': A(fail=True), 'parser::string::string': A(fail=True, first='"<'),
    'parser::string::quoted_string': A(fail=True, first='"'),
    'parser::string::string_literal': A(fail=True, first='"'),
    'parser::string::heredoc_begin': A(first='<'), 'parser::string::heredoc_end': A(first='\r\n'), 'parser::string::heredoc_string': A(first='<'),
    'nom::recognize_float': A(first=NUMF),
})
ANCHORS = dict(LEXICAL)
IW, WS = W + 'inline_whitespace', W + 'whitespace'
LINE = dict(fail=True, first=BL + '/' + IDF, lead=(IW, IDF))
BRACES = dict(fail=True, first=WS1 + '{', lead=(WS, '{'))
EXPR = dict(fail=True, first=EXPRF, lead=(WS, NUMF + 'ntf"<[{('))
ANCHORS.update({
    'parser::expression::expression': A(**EXPR),
    'parser::tuple::tuple': A(fail=True, first='['), 'parser::object::object': A(**BRACES),
    'parser::object::object_element': A(fail=True, first=EXPRF + IDF),
    'parser::object::object_element_identifier': A(fail=True, first=EXPRF + IDF),
    'parser::attribute::attribute': A(**LINE), 'parser::block::block': A(**LINE), 'parser::block::one_line_block': A(**LINE),
    'parser::block::block_labels': A(err=False, fail=True, consumes=False), 'parser::block::block_label': A(fail=True, first=IDF + '"'),
    'parser::body::body_element': A(**LINE), 'parser::body::body': A(err=False, fail=True, consumes=False),
    'parser::literals::key::key': A(fail=True, first=IDF + '"'),
    'parser::attribute': A(fail=True, first=BL + '/' + IDF + '"', lead=(IW, IDF + '"')),
    'parser::single_value': A(fail=True, first=VALF, lead=(WS, NUMF + 'ntf"<[{')), 'parser::list': A(fail=True, first='['),
    'parser::map_values': A(err=False, fail=True, consumes=False), 'parser::map_expression': A(**BRACES),
})


ROOTS = {'parser::config_file', 'parser::body', 'parser::expression::expression', 'parser::body::body', 'parser::map_values', 'parser::single_value'}


def lexical(n):
    """the lexical anchors, with what is assumed of n (if anything is) checked on it"""
    a = dict(LEXICAL)
    if n in ANCHORS:
        a[n] = ANCHORS[n]
    return a


def brief(s):
    return re.sub(r'\b(?:parser|nom)::(?:\w+::)*(\w+)', r'\1', s)


class Run:
    def __init__(self, ctx):
        self.ctx = ctx

    def find(self, name):
        r = [b for b in self.ctx.prog.bodies.values() if b.j['kind'] != 'Closure' and E.npath(b.j['path']) == name
             and not b.j.get('trait')]
        if not r and name not in ROOTS:
            return None
        if len(r) != 1:
            raise E.Unsupported('parser %s: %d candidates' % (name, len(r)))
        return r[0]

    def check(self, name, spec, key=None, value=True, names=None, post=None, anchors=None):
        """the outcome of parser `name` is that of `spec(g, s, ...)` on every path"""
        ctx = self.ctx
        key = key or name

        def run():
            body = self.find(name)
            if body is None:        # no such function any more: what calls it is compared with its production in place
                return ctx.ok(key, 'no function of its own')
            an = dict(ANCHORS if anchors is None else anchors)
            me = an.pop(name, None)
            ev = G.GEv(ctx.prog, an, here=body.id)
            ctx.lastev = ev
            ps = ev.summary(body, names)
            ctx.note(ev, ps)
            S = Spec(ctx, ev)
            g = G.Gram(S)
            prm = [t.param((names[i] if names else None) or body.j['locals'][1 + i].get('name') or 'arg%d' % i)
                   for i in range(body.j['argc'])]
            bad = None
            for p in ps:
                r = self.one(ev, g, p, prm, spec, value, post, me)
                r = r and brief(r)
                if r and not bad:
                    bad = r
            if bad:
                ctx.bad(key, '%s: %s' % (where(body), bad))
            else:
                ctx.ok(key, '%d paths' % len(ps))
                ctx.sample({'function': name, 'paths': len(ps)})
        ctx.guard(key, run)

    def one(self, e, g, p, prm, spec, value, post, me):
        if p.kind == 'panic':
            return 'when %s: panics' % clip(E.show_path(p.decs))
        saved = (e.facts, e.mem, e.trace)
        e.facts, e.mem, e.trace = dict(p.facts), dict(p.mem), []

        def both():
            got = G.outcome(e, p.val)
            want = g.result(lambda s: spec(g, s, *prm[1:]), prm[0])
            return 'ok', (got, want)
        try:
            for q in e.explore(both):
                if q.kind == 'dead':
                    continue
                cond = clip(E.show_path(p.decs + [d for d in q.decs if d not in p.decs]), 1500)
                if q.kind == 'panic':
                    return 'when %s: panics' % cond
                got, want = q.val
                e.facts = dict(q.facts)
                if not value and got.op == 'gok' and want.op == 'gok':
                    got, want = mk('gok', got.args[0]), mk('gok', want.args[0])
                if post:
                    got, want = post(got), post(want)
                a, b = e.tidy(got, q.facts), e.tidy(want, q.facts)
                if a is not b and not self.same(e, a, b, q.facts):
                    x, y = t.difference(a, b)
                    extra = '' if x is a else ' (%s instead of %s)' % (clip(t.show(x), 500), clip(t.show(y), 500))
                    for x in (a, b):
                        for z in t.subterms(x):
                            if z.op == 'loop' and e.loops[z.args[0]][3]:
                                extra = '; loops differ: ' + clip(e.loops[z.args[0]][3], 500)
                    return 'when %s: %s, specification: %s%s' % (cond, clip(t.show(a), 500), clip(t.show(b), 500), extra)
                if me is not None:
                    if me.first is not None and a.op in ('gok', 'gfail') and me.consumes and len(prm) == 1:
                        for x, first in [(prm[0], me.first)] + ([(X.ws(me.lead[0], prm[0]), me.lead[1])] if me.lead else []):
                            P, empty = e.possible(x)
                            if not P <= first or empty is not False:
                                return 'when %s: can start with %s' % (cond, sorted(P - first)[:8] if not P <= first else 'nothing')
                    if a.op == 'gerr' and not me.err:
                        return 'when %s: rejects, but it is relied upon to accept everything' % cond
                    if a.op == 'gfail' and not me.fail:
                        return 'when %s: aborts the parse' % cond
                    if a.op == 'gok' and me.consumes and self.mayequal(e, a.args[0], prm[0], q.facts):
                        return 'when %s: accepts without consuming anything' % cond
        finally:
            e.facts, e.mem, e.trace = saved
        return None

    def same(self, e, a, b, facts):
        return False

    def mayequal(self, e, r, s, facts):
        if r is t.NIL:
            return e.possible(s)[1] is not False
        x = t.eq(r, s)
        if x is t.FALSE:
            return False
        return facts.get(x) is not False
