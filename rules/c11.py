"""C11: deserialization never panics."""
import re
from vlib import terms as t
from vlib import eval as E
from vlib.spec import clip, where
from rules import safe
from rules import c12

TECHNIQUE = ('exact instance graph of the compiler (reachability), then path-sensitive value-flow analysis in which every operation that may panic '
             'must be discharged on every path of its function or of every function that calls it')
EXPLANATION = ('each function reachable from the Deserializer, SeqAccess, MapAccess, EnumAccess and VariantAccess implementations and from serde::from_* '
               'is summarised with panics as outcomes; a panicking path must contradict what is known on it, or be impossible at every call')
LEVEL_NOTE = ('sound for every document and every Visitor that follows serde\'s protocol (next_value only after next_key gave a key), up to the precondition '
              'table of library functions')


def run(ctx):
    P = ctx.prog
    roots = [b for b in P.bodies.values() if b.j['kind'] != 'Closure' and
             ((b.j.get('trait') or '').startswith('serde') or re.match(r'serde::(\w+::)*from_\w+$', E.npath(b.j['path'])))]
    names = [E.npath(b.j['path']).split('::')[-1] for b in roots]
    for n in ('from_str', 'deserialize_any', 'next_key_seed', 'next_value_seed'):
        ctx.expect(n in names, 'entry ' + n, '%d entry points called %s' % (names.count(n), n))
    protocol = {}

    def after_key(f, decs):
        """next_value_seed finds the value next_key_seed put aside"""
        if f.j.get('name') != 'next_value_seed':
            return False
        gone = {a.args[0] for a, v in decs if a.op == 'variant' and v == 'None' and a.args[0].op == 'f' and a.args[0].args[0].op == 'p'}
        return any(pending(f, x.args[1]) for x in gone)

    def pending(f, field):
        k = (f.id, field)
        if k not in protocol:
            protocol[k] = None
            ctx.guard('protocol of %s' % E.npath(f.j['path']), lambda: check(f, field, k))
        return protocol[k]

    def check(f, field, k):
        adt = f.j.get('self_adt')
        sib = [b for b in roots if b.j.get('name') == 'next_key_seed' and b.j.get('self_adt') == f.j.get('self_adt')]
        if len(sib) != 1:
            raise E.Unsupported('no next_key_seed')
        ev = E.Ev(P)
        bad, n = None, 0
        for p in ev.summary(sib[0]):
            if p.kind != 'ok':
                continue
            ev.facts, ev.mem = dict(p.facts), dict(p.mem)

            def outcome():
                return 'ok', shape(ev, p, field, adt)
            for q in ev.explore(outcome):
                if q.kind == 'ok':
                    n += 1
                    key, val = q.val
                    if key and val != 'Some':
                        bad = bad or clip(E.show_path(p.decs + q.decs), 600)
        if bad or not n:
            ctx.bad('protocol of %s' % E.npath(f.j['path']), '%s gives a key without a value when %s' % (where(sib[0]), bad))
        else:
            protocol[k] = True
            ctx.ok('protocol of %s' % E.npath(f.j['path']), '%d outcomes' % n)

    def shape(ev, p, field, adt):
        """(whether a key is given, whether a value is kept)"""
        good, v = ev.res(p.val)
        if not good or ev.opt(v) is None:
            return False, None
        return True, 'None' if ev.opt(t.f(p.out['self'], field, adt)) is None else 'Some'

    safe.Safe(ctx, roots, [after_key]).run(40)
    # what is not supported, and clashing names, are errors: every answer is the specified one
    c12.run(ctx)
