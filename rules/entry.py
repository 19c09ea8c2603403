"""Specifications of the entry points, shared by C04 and C05."""
from vlib import terms as t
from vlib.spec import rewrite, bname

CE = 'errors::Error'


def from_err(v):
    """`?` on a std error is the From conversion, which C19 shows to be the wrapping variant"""
    def fn(x):
        if x.op == 'call' and x.args[0] == 'From::from<errors::Error>':
            a = x.args[1]
            src = a.args[0] if a.op == 'vf' and a.args[1] == 'Err' else None
            if src is not None and src.op == 'call':
                if src.args[0].startswith('Read::'):
                    return t.adt(CE, 'IOError', [('0', a)])
                if src.args[0] == 'str::from_utf8' or src.args[0] == 'String::from_utf8':
                    return t.adt(CE, 'InvalidUnicodeToParse', [('0', a)])
        return x
    return rewrite(v, fn)


def anyerr(v):
    """which error is not compared here"""
    if v.op == 'adt' and v.args[0] == t.RESULT and v.args[1] == 'Err':
        return t.err(t.UNIT)
    return v


def kvp(ctx, kind, name):
    """method `name` of the body ('Body': keys to values) or block ('Block': labels to bodies) instance of KeyValuePairs"""
    from vlib import eval as E
    r = []
    for b in ctx.bodies(adt='KeyValuePairs', trait=None, name=name):
        st = E.norm_ty(b.j.get('self_ty') or '')
        k = (E.ty_args(st) or [''])[0]
        if ('Key' in k and 'Vec<' not in k and kind == 'Body') or ('Vec<' in k and kind == 'Block'):
            r.append(b)
    if len(r) != 1:
        raise E.Unsupported('%s::%s: %d candidates' % (kind, name, len(r)))
    return r[0]


def own_err(v, merge):
    """which parse error is not compared here; the error of a merge is passed on"""
    if v.op == 'adt' and v.args[0] == t.RESULT and v.args[1] == 'Err':
        a = v.args[3]
        if a.op == 'vf' and a.args[0].op == 'call' and a.args[0].args[0] == bname(merge):
            return a.args[0]
        return t.err(t.UNIT)
    return v


def starts(ctx, only=None):
    """the functions that start a grammar on a text: the value is that of the grammar, which left nothing over"""
    from vlib import eval as E
    n = 0

    def entry(key, sel, gname, okv):
        nonlocal n
        if only and key not in only:
            return
        n += 1

        def go():
            b = ctx.body(**sel)
            g = [x for x in ctx.prog.bodies.values() if E.npath(x.j['path']) == gname]
            if len(g) != 1:
                raise E.Unsupported('grammar %s: %d candidates' % (gname, len(g)))

            def spec(S, s, *rest):
                good, v = S.res(S.call(g[0], s))
                if not good:
                    return t.err(t.UNIT)
                if not S.decide(t.empty(t.f(v, '0', 'tup'))):
                    return t.err(t.UNIT)
                return okv(S, t.f(v, '1', 'tup'), *rest)
            ctx.equiv(b, spec, key=key, opaque=[merge], post=lambda v: own_err(v, merge))
        ctx.guard(key, go)
    merge = kvp(ctx, 'Body', 'merge')

    def merged(S, body, how):
        m = S.opt(how)
        if m is None:
            return t.ok(body)
        if S.variant(m, 'MergeBehaviour') != 'Error':
            S.panic()
        r = S.call(merge, body)
        good, v = S.res(r)
        return t.ok(v) if good else t.err(v)
    entry('parser::parse_str', dict(path='parser::parse_str'), 'parser::config_file', lambda S, b: t.ok(b))
    entry('value::from_str', dict(path='value::from_str'), 'parser::body', merged)
    entry('Expression::parse', dict(adt='Expression', trait=None, name='parse'), 'parser::expression::expression', lambda S, b: t.ok(b))
    return n
