"""C15: numbers keep their sign, text and kind."""
from vlib import terms as t
from vlib import eval as E
from vlib.spec import rewrite, where
from rules import grammar as R
from rules import syntax as Y
from vlib.terms import mk

EXPLANATION = ('Value-flow normal forms of every accessor, conversion and comparison of Number. Each as_* conversion is the standard '
               'parser of its own type applied to the whole literal; integers are converted to their own decimal text with the sign '
               'flag "not below zero" for every integer type; floats keep their text, their sign bit and a fraction exactly when the '
               'text has one; integer equality is equality of the exactly parsed values. For float equality every path that can answer '
               '"equal" is shown to be guarded by equality of the two parsed values or by a difference below a tolerance of float '
               'rounding size relative to the magnitudes.')
TECHNIQUE = 'value-flow normal forms; guard analysis of the float comparison'
LEVEL_NOTE = 'All paths, all inputs. The standard parsers and formatters of numbers are trusted to round trip.'
UINT = ['u8', 'u16', 'u32', 'u64', 'u128']
INT = ['i8', 'i16', 'i32', 'i64', 'i128']
N = 'parser::number::Number'
X = 'parser::number::Exponent'
WHOLE, FRAC = mk('param', 'any whole part'), mk('param', 'any fraction text')


def accessors(ctx):
    path = ctx.adt('parser::number::Number') if 'parser::number::Number' in ctx.prog.adts else N
    meths = lambda nm, **k: [b for b in ctx.bodies(name=nm, **k) if b.j.get('self_adt') == path]

    def one(nm, spec, **k):
        bs = meths(nm, **k)
        if len(bs) != 1:
            ctx.bad(nm, '%d implementations of %s' % (len(bs), nm))
            return
        ctx.equiv(bs[0], spec, key='Number::' + nm)

    def isint(S, x):
        for n in ('fraction', 'exponent'):
            if S.opt(S.f(x, path, n)) is not None:
                return False
        return True
    one('is_signed', lambda S, x: t.cbool(isint(S, x)))
    one('is_float', lambda S, x: t.cbool(not isint(S, x)))
    one('is_unsigned', lambda S, x: S.f(x, path, 'positive') if isint(S, x) else t.FALSE)
    for T in UINT + INT + ['f32', 'f64']:
        one('as_' + T, lambda S, x, T=T: t.call('parse:' + T, S.f(x, path, 'input')), trait=None)
    one('deref', lambda S, x: S.f(x, path, 'input'), trait='Deref')
    return path, meths


def run(ctx):
    path, meths = accessors(ctx)
    # conversions
    for T in UINT + INT + ['f32', 'f64']:
        bs = [b for b in meths('from', trait='From') if [E.norm_ty(a) for a in b.j['trait_args']][-1] == T]
        if len(bs) != 1:
            ctx.bad('from ' + T, '%d conversions from %s' % (len(bs), T))
            continue
        if T in UINT:
            pos = lambda S, n: t.TRUE
        elif T in INT:
            pos = lambda S, n: t.nnot(t.lt(n, t.cint(0)))
        else:
            pos = lambda S, n: SIGN

        def spec(S, n, T=T, pos=pos):
            frac = t.NONE
            if T[0] == 'f' and S.decide(HASDOT):
                frac = t.some(FRAC)
            return t.adt(path, path.split('::')[-1], [('input', mk('call', 'to_string', n)), ('positive', pos(S, n)),
                                                      ('whole', WHOLE), ('fraction', frac), ('exponent', t.NONE)])
        ctx.equiv(bs[0], spec, key='from ' + T, names=['n'], tree=True, post=lambda v: canon(v, path))
    # owned copy
    equality(ctx, path, meths)
    literals(ctx)
    # the parsed number: text, sign and parts; the value grammar's own numbers
    r = R.Run(ctx)
    for nm in ('number::number', 'literals::number::number'):
        r.check('parser::' + nm, Y.TOKENS[nm], anchors=R.lexical('parser::' + nm))


n = t.param('n')
SIGN, HASDOT = mk('call', 'sign bit clear', n), mk('call', 'decimal text has a point', n)


def ismag(v):
    """the argument up to its sign"""
    if v is n:
        return True
    if v.op == 'call':
        if v.args[0] == 'f:Mul':
            return sum(1 for a in v.args[1:] if t.is_const(a) and abs(fval(a) or 0) == 1) == 1 and any(ismag(a) for a in v.args[1:])
        if v.args[0] in ('f:Neg',) or v.args[0].endswith('::abs'):
            return ismag(v.args[1])
    return False


def text(v):
    """decimal text of the number or of its negative, with or without its sign"""
    if v.op == 'call' and v.args[0] == 'to_string':
        return ismag(v.args[1])
    if v.op == 'call' and v.args[0].startswith('str::trim'):
        return text(v.args[1])
    return False


DOT = (t.cstr('.'), t.c('char', '.'))


def canon(v, path):
    def fn(v):
        if v.op == 'call':
            nm = v.args[0]
            if nm.endswith('::is_sign_positive') and v.args[1] is n:
                return SIGN
            if nm.endswith('::is_sign_negative') and v.args[1] is n:
                return t.nnot(SIGN)
            if nm == 'str::contains' and text(v.args[1]) and v.args[2] in DOT:
                return HASDOT
            if nm == 'str::find' and text(v.args[1]) and v.args[2] in DOT:
                return t.ite(HASDOT, t.some(t.param('at')), t.NONE)
        if v.op == 'split' and text(v.args[0]) and v.args[1] in DOT:
            w = mk('call', 'pieces', n)
            return t.cat(t.lst(WHOLE), w)
        if v.op == 'empty' and v.args[0] is mk('call', 'pieces', n):
            return t.nnot(HASDOT)
        if v.op == 'adt' and v.args[0] == path:
            fs = dict(zip(v.args[2], v.args[3:]))
            fs['whole'] = WHOLE

            def leaf(q):
                return t.some(FRAC) if q.op == 'adt' and q.args[1] == 'Some' else q
            fs['fraction'] = t.lift(fs['fraction'], leaf)
            return t.adt(path, v.args[1], [(k, fs[k]) for k in ('input', 'positive', 'whole', 'fraction', 'exponent')])
        return v
    return rewrite(v, fn)


def fval(a):
    if a.op == 'c':
        try:
            return float(a.args[1])
        except (TypeError, ValueError):
            return None
    if a.op == 'call' and a.args[0] in ('f:Mul', 'f:Div', 'f:Add', 'f:Sub'):
        x, y = fval(a.args[1]), fval(a.args[2])
        if x is None or y is None:
            return None
        return {'f:Mul': lambda: x * y, 'f:Div': lambda: x / y if y else None, 'f:Add': lambda: x + y, 'f:Sub': lambda: x - y}[a.args[0]]()
    return None


ROUND = 2.0 ** -48


def equality(ctx, path, meths):
    bs = meths('eq', trait='PartialEq')
    if len(bs) != 1:
        ctx.bad('Number ==', '%d implementations' % len(bs))
        return
    b = bs[0]
    for n in meths('ne', trait='PartialEq'):
        ctx.equiv(n, lambda S, x, y: t.nnot(S.call(b, x, y)), key='Number !=', opaque=[b])
    A, B = t.param('self'), t.param('other')

    def kind(S, x):
        if any(S.opt(S.f(x, path, n)) is not None for n in ('fraction', 'exponent')):
            return 'f64'
        return 'u128' if S.decide(S.f(x, path, 'positive')) else 'i128'

    def spec(S, x, y):
        kx, ky = kind(S, x), kind(S, y)
        k = 'f64' if 'f64' in (kx, ky) else 'u128' if kx == ky == 'u128' else 'i128'
        ox, vx = S.res(t.call('parse:' + k, S.f(x, path, 'input')))
        oy, vy = S.res(t.call('parse:' + k, S.f(y, path, 'input')))
        if not ox or not oy:
            return t.FALSE
        return None if k == 'f64' else t.eq(vx, vy)
    ctx.equiv(b, spec, key='Number == (integers, failures)', names=['self', 'other'])
    # floats
    ev = ctx.ev()
    ps = ev.summary(b, ['self', 'other'])
    p1, p2 = [t.call('parse:f64', t.f(x, 'input', path)) for x in (A, B)]
    u, w = t.vf(p1, 'Ok', '0', t.RESULT), t.vf(p2, 'Ok', '0', t.RESULT)
    same = t.call('f:Eq', *sorted((u, w), key=t.sortkey))

    def absd(v):
        return v.op == 'call' and v.args[0].endswith('::abs') and v.args[1].op == 'call' and v.args[1].args[0] == 'f:Sub' and \
            set(v.args[1].args[1:]) == {u, w}

    def mag(v):
        """bounded by the magnitudes of the two numbers"""
        if v.op != 'call':
            return False
        nm, a = v.args[0], v.args[1:]
        if nm.endswith('::abs'):
            return a[0] in (u, w)
        if nm.split('::')[-1] == 'min':
            return any(mag(x) for x in a) and all(mag(x) or (fval(x) or 0) >= 0 for x in a)
        if nm.split('::')[-1] == 'max':
            return all(mag(x) for x in a)
        if nm == 'f:Add':
            return all(mag(x) for x in a)
        return False

    def small(lhs, rhs):
        c = fval(rhs)
        if absd(lhs):
            if c is not None:
                return abs(c) <= 1e-300
            if rhs.op == 'call' and rhs.args[0] == 'f:Mul':
                cs = [x for x in rhs.args[1:] if fval(x) is not None]
                return len(cs) == 1 and abs(fval(cs[0])) <= ROUND and all(mag(x) for x in rhs.args[1:] if x not in cs)
        if lhs.op == 'call' and lhs.args[0] == 'f:Div' and absd(lhs.args[1]) and mag(lhs.args[2]):
            return c is not None and abs(c) <= ROUND
        return False

    def close(v):
        """holds only when the numbers are the same up to rounding"""
        if v is same:
            return True
        if v.op == 'call' and v.args[0] in ('f:Lt', 'f:Le'):
            return small(v.args[1], v.args[2])
        if v.op == 'call' and v.args[0] in ('f:Gt', 'f:Ge'):
            return small(v.args[2], v.args[1])
        return False
    nf = 0
    for p in ps:
        if p.kind == 'panic':
            ctx.bad('Number == panics', 'when ' + E.show_path(p.decs)[:300])
            continue
        if p.kind != 'ok':
            continue

        def split():
            return 'ok', t.cbool(ev.decide(p.val))
        saved = (ev.facts, ev.mem, ev.trace)
        ev.facts, ev.mem, ev.trace = dict(p.facts), dict(p.mem), []
        qs = ev.explore(split)
        ev.facts, ev.mem, ev.trace = saved
        for q in qs:
            if q.kind == 'dead':
                continue
            dec = {}
            for d in p.decs + q.decs:
                dec[d[0]] = d[1]
            if dec.get(mk('variant', p1)) != 'Ok' or dec.get(mk('variant', p2)) != 'Ok':
                continue
            nf += 1
            cond = E.show_path(p.decs + q.decs)[-400:]
            if q.val is t.TRUE:
                ctx.expect(any(v is True and close(a) for a, v in dec.items()), 'float equality is guarded by closeness',
                           'numbers compare equal when ' + cond)
            else:
                ctx.expect(dec.get(same) is False, 'equal floats are equal', 'numbers compare unequal when ' + cond)
    ctx.floor(nf, 5, 'float comparison paths')


def literals(ctx):
    """value grammar numbers"""
    LN = [p for p in ctx.prog.adts if p.endswith('literals::number::Number')]
    if len(LN) != 1:
        ctx.bad('literals::Number', 'type not found')
        return
    LN = LN[0]
    for b in ctx.bodies(trait='FromStr', name='from_str'):
        if b.j.get('self_adt') != LN:
            continue

        def spec(S, s):
            o, v = S.res(t.call('parse:i64', s))
            if o:
                return t.ok(t.adt(LN, 'Integer', [('0', v)]))
            o, v = S.res(t.call('parse:f64', s))
            if o:
                return t.ok(t.adt(LN, 'Float', [('0', v)]))
            return t.err(t.param('any error'))

        def post(v):
            return rewrite(v, lambda v: t.err(t.param('any error')) if v.op == 'adt' and v.args[1] == 'Err' and v.args[0] == t.RESULT else v)
        ctx.equiv(b, spec, key='literals::Number from text', names=['s'], post=post)
    for b in ctx.bodies(trait='From', name='from'):
        ta = [E.norm_ty(a) for a in b.j.get('trait_args') or []]
        if b.j.get('self_adt') == LN:
            V = {'i64': 'Integer', 'f64': 'Float'}.get(ta[-1])
            if V:
                ctx.equiv(b, lambda S, x, V=V: t.adt(LN, V, [('0', x)]), key='literals::Number from ' + ta[-1])
        elif E.head_ty(ta[-1]) == LN:
            VV = ctx.adt('value::Value')
            ctx.equiv(b, lambda S, x: t.adt(VV, S.variant(x, LN), [('0', S.vf(x, LN, S.variant(x, LN)))]), key='Value from literals::Number')
