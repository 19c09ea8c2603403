"""C04: a successful parse consumed the whole input."""
from vlib import eval as E
from vlib import mirq
from rules.entry import starts
from rules import grammar as R
from rules import syntax as Y

EXPLANATION = ('Value-flow normal forms of every entry point that starts a grammar on a text (parse_str, value::from_str, '
               'Expression::parse, and every other public function found to start one): on every path that returns Ok the '
               'remaining input of exactly that grammar call is empty, the grammar is applied to exactly the given text, and the '
               'value returned is the one of that call. The remaining entry points hand their text to these (C05).')
TECHNIQUE = 'path-sensitive value-flow: emptiness of the remaining input guards every Ok return'
LEVEL_NOTE = ('All paths of all entry points; that a grammar function returns the true remaining input is nom\'s contract, and for the '
              'hand written parsers the grammar checks (C23).')


def grammars(ctx):
    """public or crate functions from an input to a nom result"""
    out = set()
    for b in ctx.prog.bodies.values():
        ty = b.j['locals'][0]['ty']
        if b.j['kind'] != 'Closure' and ('nom::Err<' in ty or 'nom::IResult' in ty):
            out.add(b.id)
    return out


def run(ctx):
    gr = grammars(ctx)
    starts(ctx)
    # what those grammars report as left over is what they did not consume
    r = R.Run(ctx)
    for n in ('config_file', 'body', 'expression::expression', 'body::body', 'map_values'):
        r.check('parser::' + n, Y.GRAMMAR[n], value=False)
    # no other function of the crate turns a grammar result into a plain one
    known = {'parser::parse_str', 'value::from_str', 'parser::expression::Expression::parse'}
    starters = 0
    for b in sorted(ctx.prog.bodies.values(), key=lambda b: b.id):
        if b.id in gr or b.j.get('root') in gr:
            continue
        for i, tm in mirq.calls(b):
            fn = mirq.callee(tm)
            dt = tm.get('dt') or ''
            if fn and ('nom::Err<' in dt or 'nom::IResult' in dt) and (fn.get('res') in gr or fn.get('id') in gr):
                starters += 1
                name = E.npath(b.j['path']).split('::{')[0]
                if name not in known and not helper_of(ctx, b, known):
                    ctx.bad('entry ' + name, 'starts the grammar %s; its handling of remaining input is not specified' % fn.get('path'))
    ctx.floor(starters, 3, 'grammar starts')


def helper_of(ctx, b, known):
    """a private function called only from the specified entry points is covered by their paths"""
    if b.j.get('pub'):
        return False
    callers = set()
    for c in ctx.prog.bodies.values():
        for i, tm in mirq.calls(c):
            fn = mirq.callee(tm)
            if fn and (fn.get('res') == b.id or fn.get('id') == b.id):
                callers.add(E.npath(c.j['path']).split('::{')[0])
    return bool(callers) and callers <= known
