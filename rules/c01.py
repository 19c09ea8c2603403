"""C01: parsing never panics."""
from vlib import eval as E
from rules import safe

TECHNIQUE = ('exact instance graph of the compiler (reachability), then path-sensitive value-flow analysis in which every operation that may panic '
             '(checked arithmetic, indexing, text cuts, unwrap/expect, diverging calls) must be discharged on every path')
EXPLANATION = ('each function reachable from the parse entry points is summarised with panics as outcomes; a panicking path must contradict what is known on it, '
               'or be impossible at every call of the function')
LEVEL_NOTE = ('sound for every input up to the precondition table of library functions; lengths and counts of things in memory are assumed not to overflow; '
              'stack exhaustion is C03, non-termination C02')
ENTRY = {'parser::parse_str', 'parser::parse_slice', 'parser::parse_reader', 'value::from_str', 'value::from_slice', 'value::from_reader',
         'parser::expression::Expression::parse'}


def take_modes(f, decs):
    """MergeBehaviour::TakeFirst and TakeLast are documented as unimplemented and are outside the property"""
    return any(a.op == 'variant' and v in ('TakeFirst', 'TakeLast') for a, v in decs)


def run(ctx):
    roots = [b for b in ctx.prog.bodies.values() if b.j['kind'] != 'Closure' and E.npath(b.j['path']) in ENTRY]
    ctx.expect(len(roots) == len(ENTRY), 'entry points', '%d of %d entry points found' % (len(roots), len(ENTRY)))
    safe.Safe(ctx, roots, [take_modes]).run(60)
