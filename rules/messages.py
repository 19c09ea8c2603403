"""What the message of an error shows: everything the error holds, expected before actual."""
from vlib import terms as t
from vlib import eval as E

FIRST = {'UnexpectedVariant': ('expected', 'actual'), 'ErrorMergingKeys': ('existing_variant', 'incoming_variant'),
         'InvalidTupleLength': ('expected', 'actual')}


def messages(ctx, only=None):
    n = 0
    for b in ctx.bodies(trait='Display', name='fmt'):
        adt = b.j.get('self_adt') or ''
        if adt not in ctx.prog.adts or not adt.split('::')[-1].endswith('Error'):
            continue
        if ctx.prog.adts[adt].get('kind') == 'struct':
            continue

        def go(b=b, adt=adt):
            nonlocal n
            me = t.param('self')
            ev = ctx.ev()
            seen = {}
            for p in ev.summary(b, ['self', 'f']):
                v = next((d[1] for d in p.decs if d[0].op == 'variant' and d[0].args[0] is me), None)
                if v is None or only and v not in only:
                    continue
                shown = []
                if p.kind == 'ok' and isinstance(p.val, t.T):
                    shown = order(p.val, me)
                else:
                    ctx.bad('%s::%s' % (adt, v), 'its message cannot be written: %s' % p.kind)
                    continue
                seen.setdefault(v, []).append(shown)
            for v in ctx.prog.variants(adt):
                if only and v not in only:
                    continue
                key = 'message of %s::%s' % (adt.split('::')[-1] if '::de::' not in adt else 'de::Error', v)
                fs = fields(ctx, adt, v)
                n += 1
                for sh in seen.get(v) or [None]:
                    bad = None
                    if sh is None:
                        bad = 'no message found for %s' % v
                    elif set(sh) != set(fs):
                        bad = 'shows %s of its fields %s' % (sh, fs)
                    elif v in FIRST and sh.index(FIRST[v][0]) > sh.index(FIRST[v][1]):
                        bad = 'shows %s after %s' % FIRST[v]
                    ctx.expect(bad is None, key, '%s (%s:%s)' % (bad, b.j['file'], b.j.get('line')))
        ctx.guard('messages of ' + adt, go)
    ctx.floor(n, 1, 'error messages')
    return n


def fields(ctx, adt, v):
    a = ctx.prog.adts[adt]
    for x in a['variants']:
        if x['name'] == v:
            return [f['name'] for f in x['fields']]
    return []


def order(val, me):
    """the fields of `me` shown by a written message, in order"""
    r = []

    def go(x):
        if not isinstance(x, t.T):
            return
        if x.op == 'vf' and x.args[0] is me:
            if x.args[2] not in r:
                r.append(x.args[2])
            return
        for y in x.args:
            if isinstance(y, tuple):
                for z in y:
                    go(z)
            else:
                go(y)
    go(val)
    return r
