"""Obligations: comparing value-flow summaries with specifications, reporting, evidence."""
import json
import os
import sys
import time
from . import terms as t
from .terms import mk
from . import eval as E

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ctx:
    """one run of one check"""

    def __init__(self, prop, prog):
        self.prop = prop
        self.prog = prog
        self.obl = []            # (key, ok, text)
        self.viol = []           # (key, text)
        self.analysed = set()
        self.paths = 0
        self.calls = 0
        self.samples = []
        self.extra = {}
        self.assume = []
        self.t0 = time.time()

    # ------------------------------------------------------------ reporting
    def ok(self, key, text=''):
        self.obl.append((key, True, text))

    def bad(self, key, text):
        self.obl.append((key, False, text))
        self.viol.append((key, text))

    def expect(self, cond, key, text):
        if cond:
            self.ok(key, text)
        else:
            self.bad(key, text)
        return cond

    def floor(self, n, least, what):
        self.expect(n >= least, 'floor:' + what, '%s: %d analysed (at least %d expected)' % (what, n, least))

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def guard(self, key, fn):
        """an analysis that cannot be completed is a violation, never a silent pass"""
        try:
            return fn()
        except E.Unsupported as ex:
            self.bad(key, 'not analysable: %s' % ex)
        except Exception as ex:          # noqa
            if os.environ.get('VERIF_DEBUG'):
                raise
            self.bad(key, 'analysis failed: %s: %s' % (type(ex).__name__, str(ex)[:300]))

    # ------------------------------------------------------------ finding things
    def adt(self, last):
        """full path of the type named `last`"""
        r = [p for p in self.prog.adts if p == last or p.endswith('::' + last)]
        if len(r) != 1:
            raise E.Unsupported('type %s: %d candidates' % (last, len(r)))
        return r[0]

    def bodies(self, **kw):
        out = []
        for b in self.prog.bodies.values():
            j = b.j
            if j['kind'] == 'Closure':
                continue
            good = True
            for k, v in kw.items():
                if k == 'trait':
                    tr = j.get('trait')
                    g = (tr is None) if v is None else (tr is not None and E.npath(tr).split('::')[-1] == v)
                elif k == 'adt':
                    g = (j.get('self_adt') or '').split('::')[-1] == v
                elif k == 'self_ty':
                    g = v(j.get('self_ty') or '') if callable(v) else E.norm_ty(j.get('self_ty') or '') == v
                elif k == 'trait_args':
                    g = v([E.norm_ty(x) for x in j.get('trait_args') or []])
                elif k == 'mod':
                    g = ('::' + E.npath(j['path'])).find('::' + v + '::') >= 0 or E.npath(j['path']).startswith(v + '::')
                elif k == 'file':
                    g = j['file'].endswith(v)
                else:
                    g = j.get(k) == v
                if not g:
                    good = False
                    break
            if good:
                out.append(b)
        return sorted(out, key=lambda b: b.id)

    def body(self, **kw):
        r = self.bodies(**kw)
        if len(r) != 1:
            raise E.Unsupported('function %s: %d candidates' % (kw, len(r)))
        return r[0]

    # ------------------------------------------------------------ evaluation
    def ev(self, opaque=(), inline=None):
        """evaluator; opaque: bodies, ids or 'Trait::method' / path names kept uninterpreted"""
        ids = set()
        names = set()
        for o in opaque:
            if isinstance(o, E.Body):
                ids.add(o.id)
            else:
                names.add(o)

        def pred(name, fn):
            return fn.get('res') in ids or fn['id'] in ids or name in names
        return E.Ev(self.prog, opaque=pred, inline=inline)

    def summary(self, body, opaque=(), names=None, ev=None):
        ev = ev or self.ev(opaque)
        ps = ev.summary(body, names)
        self.note(ev, ps)
        return ev, ps

    def note(self, ev, ps):
        self.analysed |= ev.analysed
        self.paths += len(ps)
        self.calls += ev.calls_seen

    def equiv(self, body, spec, opaque=(), key=None, names=None, view=None, outs=None, ev=None, tree=False, post=None):
        """every path of `body` returns what `spec(S, params...)` returns under that path's conditions.
        spec returns a value, or (value, {param: final value of a &mut parameter})."""
        key = key or fname(body)

        def run():
            e = ev or self.ev(opaque)
            ps = e.summary(body, names)
            self.note(e, ps)
            S = Spec(self, e)
            j = body.j
            prm = [t.param((names[i] if names else None) or j['locals'][1 + i].get('name') or 'arg%d' % i) for i in range(j['argc'])]
            bad = None
            if tree:
                bad = self.compare_tree(e, S, ps, lambda: spec(S, *prm), post)
                ps2 = []
            else:
                ps2 = ps
            for p in ps2:
                r = self.compare(e, S, p, lambda: spec(S, *prm), view, outs, post)
                if r:
                    bad = bad or r
            if bad:
                self.bad(key, '%s: %s' % (where(body), bad))
            else:
                self.ok(key, '%d paths' % len(ps))
                self.sample({'function': fname(body), 'paths': len(ps),
                             'example': (E.show_path(ps[0].decs) + ' => ' + t.show(ps[0].val))[:240] if ps else ''})
            return not bad
        return self.guard(key, run)

    def equiv_any(self, body, specs, key=None, **kw):
        """the function means one of several equally acceptable specifications"""
        key = key or fname(body)
        first = None
        for sp in specs:
            n, m = len(self.obl), len(self.viol)
            if self.equiv(body, sp, key=key, **kw):
                del self.viol[m:]
                self.obl[n:] = [o for o in self.obl[n:] if o[1]]
                return True
            first = first or (self.obl[n:], self.viol[m:])
            del self.obl[n:], self.viol[m:]
        self.obl += first[0]
        self.viol += first[1]
        return False

    def compare(self, e, S, p, thunk, view=None, outs=None, post=None):
        saved = (e.facts, e.mem, e.trace)
        e.facts = dict(p.facts)
        e.mem = dict(p.mem)
        e.trace = []

        def both():
            got = p.val
            if p.kind == 'ok' and view is not None:
                got = view(S, got)
            try:
                w = thunk()
                kind = 'ok'
            except E.Panic as x:
                w, kind = mk('panic', x.msg), 'panic'
            return 'ok', (kind, w, got)
        try:
            sub = e.explore(both)
            for q in sub:
                if q.kind == 'dead':
                    continue
                kind, w, got = q.val
                wo = None
                if isinstance(w, tuple) and kind == 'ok':
                    w, wo = w
                cond = E.show_path(q.decs if not p.decs else p.decs + [d for d in q.decs if d not in p.decs])
                if w is None and wo is None:
                    continue        # not specified
                if kind != p.kind:
                    return 'when %s: %s, specification: %s' % (clip(cond), 'panics' if p.kind == 'panic' else 'returns ' + clip(t.show(got)),
                                                              'panics' if kind == 'panic' else 'returns ' + clip(t.show(w)))
                if kind == 'panic':
                    continue
                if w is not None:
                    a, b = self.norm(got, q.facts, e, post), self.norm(w, q.facts, e, post)
                    if a is not b:
                        return 'when %s: returns %s, specification: %s' % (clip(cond), clip(t.show(a)), clip(t.show(b)))
                exp = dict(wo or {})
                for n, v in (p.out or {}).items():
                    wv = exp.pop(n, t.param(n))
                    if wv is ANY:
                        continue
                    a, b = self.norm(v, q.facts, e, post), self.norm(wv, q.facts, e, post)
                    if a is not b:
                        return 'when %s: leaves %s = %s, specification: %s' % (clip(cond), n, clip(t.show(a)), clip(t.show(b)))
        finally:
            e.facts, e.mem, e.trace = saved
        return None

    def compare_tree(self, e, S, ps, thunk, post):
        """like compare, but the rewriting also applies to the conditions"""
        items = []
        for p in ps:
            if p.kind == 'dead':
                continue
            outs = [v for n, v in sorted((p.out or {}).items())]
            items.append((p.decs, mk('panic', 'x') if p.kind == 'panic' else mk('done', p.val, *outs)))
        names = sorted(next((p.out or {}) for p in ps)) if ps else []
        got = t.tree(items)

        def run():
            try:
                w = thunk()
            except E.Panic:
                return 'ok', mk('panic', 'x')
            wo = {}
            if isinstance(w, tuple):
                w, wo = w
            return 'ok', mk('done', w, *[wo.get(n, t.param(n)) for n in names])
        want = e.paths_tree([q for q in e.explore(run)])
        if post:
            got, want = post(got), post(want)
        if got is want:
            return None

        def both():
            r = []
            for x in (got, want):
                try:
                    r.append(e.force(x))
                except E.Panic:
                    r.append(mk('panic', 'x'))
            return 'ok', tuple(r)
        for q in e.explore(both):
            if q.kind == 'dead':
                continue
            a, b = [E.normalise(x, q.facts, e) for x in q.val]
            if a is not b:
                return 'when %s: %s, specification: %s' % (clip(E.show_path(q.decs)), clip(differ(a, b)[0]), clip(differ(a, b)[1]))
        return None

    def norm(self, v, facts, e, post):
        if post:
            v = post(v)
        return E.normalise(v, facts, e)


ANY = object()


def rewrite(v, fn, memo=None):
    """bottom-up rewriting of a term"""
    memo = {} if memo is None else memo
    if v in memo:
        return memo[v]
    if v.op == 'lam':
        x = t.sym()
        b = t.open_lam(v, x)
        b2 = rewrite(b, fn, memo)
        r = v if b2 is b else t.lam(b2, x)
        memo[v] = r
        return r

    def go(a):
        if isinstance(a, t.T):
            return rewrite(a, fn, memo)
        if isinstance(a, tuple):
            return tuple(go(x) for x in a)
        return a
    args = tuple(go(a) for a in v.args)
    r = v if all(x is y for x, y in zip(args, v.args)) else t.rebuild(v.op, args)
    r = fn(r)
    memo[v] = r
    return r


def lens(v):
    """a loop that only reads and writes one place of its state is a loop over that place"""
    def fn(x):
        if x.op in ('tfdone', 'tfstate', 'tfbrk') and x.args[0].op == 'tryfold' or x.op == 'fold':
            isfold = x.op == 'fold'
            tf = x if isfold else x.args[0]
            got = focus(tf, isfold)
            if got is None:
                return x
            new, back = got
            if isfold:
                return back(fn(new))
            if x.op == 'tfdone':
                return fn(mk('tfdone', new))
            if x.op == 'tfbrk':
                return fn(mk('tfbrk', new, *x.args[1:]))
            return back(fn(mk('tfstate', new)))
        return x
    return rewrite(v, fn)


def focus(tf, isfold):
    s, init, l = tf.args
    A, e = t.sym('A'), t.sym('E')
    tree = t.open_lam(l, t.tup(A, e))
    ls = list(t.leaves(tree))
    conts = [q if isfold else q.args[0] for q in ls if isfold or (q.op == 'cont' and len(q.args) == 1)]
    if not conts or any(q.op == 'cont' and len(q.args) != 1 for q in ls):
        return None
    moved = [q for q in conts if q is not A]
    if not moved:
        return None
    q = moved[0]
    P = t.sym('P')
    if q.op == 'put' and not t.occurs(q.args[1], A) and not t.occurs(q.args[1], e):
        K = q.args[1]
        if not all(w.op == 'put' and w.args[0] is A and w.args[1] is K for w in moved):
            return None
        view = mk('get', A, K)
        part = lambda w: w.args[2]
        init2 = t.get(init, K)
        back = lambda st: t.put(init, K, st)
    elif q.op == 'adt' and len(q.args) == 4:
        path, var, names = q.args[:3]
        if not all(w.op == 'adt' and w.args[:3] == q.args[:3] for w in moved):
            return None
        view = t.vf(A, var, names[0], path)
        part = lambda w: w.args[3]
        init2 = t.vf(init, var, names[0], path)
        back = lambda st: t.adt(path, var, [(names[0], st)])
    else:
        return None

    def leaf(q):
        if not isfold and q.op != 'cont':
            return q
        w = q if isfold else q.args[0]
        w = view if w is A else part(w)
        return w if isfold else mk('cont', w)
    new = t.subst(t.lift(tree, leaf), {view: P})
    if t.occurs(new, A):
        return None
    return (t.fold if isfold else t.tryfold)(s, init2, t.lam2(new, P, e)), back


TEXT = t.sym('any text')


def freetext(*variants):
    """the text inside these error variants is not compared"""
    def fn(v):
        if v.op == 'adt' and v.args[1] in variants and v.args[0].endswith('Error') and len(v.args) == 4:
            return mk('adt', *(v.args[:3] + (TEXT,)))
        return v
    return lambda v: rewrite(v, fn)


def differ(a, b):
    """the innermost difference of two terms"""
    while isinstance(a, t.T) and isinstance(b, t.T) and a.op == b.op and len(a.args) == len(b.args):
        if a.op == 'lam':
            x = t.sym('x')
            a, b = t.open_lam(a, x), t.open_lam(b, x)
            continue
        d = [(x, y) for x, y in zip(a.args, b.args) if x is not y and x != y]
        if len(d) != 1 or not isinstance(d[0][0], t.T) or not isinstance(d[0][1], t.T):
            break
        a, b = d[0]
    return t.show(a), t.show(b)


def clip(s, n=600):
    return s if len(s) <= n else s[:n] + '…'


def fname(body):
    return E.npath(body.j['path']) + ('' if not body.j.get('trait') else '')


def where(body):
    return '%s (%s:%d)' % (body.j['path'], body.j['file'], body.j['line'])


class Spec:
    """vocabulary of specifications; works on one path of the analysed function"""

    def __init__(self, ctx, ev):
        self.ctx, self.ev, self.prog = ctx, ev, ctx.prog

    def variant(self, x, adt):
        return self.ev.variant(x, self.path(adt))

    def path(self, adt):
        if adt in ('Option',):
            return t.OPTION
        if adt == 'Result':
            return t.RESULT
        if adt in self.prog.ext:
            return adt
        return self.ctx.adt(adt)

    def vf(self, x, adt, variant, n='0'):
        p = self.path(adt)
        x = self.ev.force(x)
        return t.vf(x, variant, str(n), p)

    def f(self, x, adt, n):
        return t.f(x, n, self.path(adt))

    def mk(self, adt, variant, *vals, **kw):
        p = self.path(adt)
        fs = self.prog.fields(p, variant)
        if fs is None and p in self.prog.ext and variant in self.prog.ext[p]:
            fs = [str(i) for i in range(len(vals))]
        if fs is None:
            raise E.Unsupported('no variant %s::%s' % (adt, variant))
        if kw:
            vals = [kw[n] for n in fs]
        if len(vals) != len(fs):
            raise E.Unsupported('%s::%s has %d fields' % (adt, variant, len(fs)))
        return t.adt(p, variant, list(zip(fs, vals)))

    def opt(self, x):
        return self.ev.opt(x)

    def res(self, x):
        return self.ev.res(x)

    def decide(self, b):
        return self.ev.decide(b)

    def panic(self, msg='specified'):
        raise E.Panic(msg)

    def call(self, what, *args):
        """the uninterpreted result of an opaque call"""
        if isinstance(what, E.Body):
            what = bname(what)
        return self.ev.opaque(what, list(args))

    def traverse(self, s, fn):
        """Ok of the images if every fn(x) is Ok, else the first error"""
        bad = t.fm(s, self.ev.lam(lambda x: (lambda r: t.NIL if r[0] else t.lst(r[1]))(self.res(fn(x)))))
        if self.decide(t.empty(bad)):
            def one(x):
                ok, v = self.res(fn(x))
                if not ok:
                    raise E.PathDead()
                return t.lst(v)
            return True, t.fm(s, self.ev.lam(one))
        return False, t.head(bad)

    def tryfold(self, s, init, step):
        """step(acc, e) -> ('cont', acc') or ('brk', x); returns (True, final) or (False, x)"""
        acc, e = t.sym('acc'), t.sym('e')
        r = t.tryfold(s, init, t.lam2(self.ev.tree(lambda: mk(*step(acc, e))), acc, e))
        if self.decide(t.tfdone(r)):
            return True, t.tfstate(r)
        return False, t.tfbrk(r, 0)

    def fold(self, s, init, step):
        acc, e = t.sym('acc'), t.sym('e')
        return t.fold(s, init, t.lam2(self.ev.tree(lambda: step(acc, e)), acc, e))

    def each(self, s, fn):
        """sequence of the images of the elements"""
        return t.fm(s, self.ev.lam(lambda x: t.lst(fn(x))))

    def all(self, s, fn):
        return t.nnot(self.any(s, lambda x: t.nnot(fn(x))))

    def any(self, s, fn):
        return t.any_(s, self.ev.lam(lambda x: t.TRUE if self.decide(fn(x)) else t.FALSE))

    def seq(self, x):
        """the sequence an iterator value yields"""
        x = self.ev.force(self.ev.deref(x))
        if x.op == 'adt':
            return self.ev.seq_view(x)
        return x


def bname(body):
    j = body.j
    if j.get('trait'):
        return E.npath(j['trait']).split('::')[-1] + '::' + j['name']
    p = E.npath(j['path'])
    return p


def known(prop):
    """committed known findings of a property: {key: text}"""
    out = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s ' % prop):
                rest = l[len('known: property=%s ' % prop):]
                k, _, txt = rest.partition(' :: ')
                out[k.strip()] = txt.strip()
    return out


def finish(ctx, level, explanation, tier='quick'):
    kn = known(ctx.prop)
    new = []
    seen = set()
    hit = []
    for k, txt in ctx.viol:
        if k in kn:
            if k not in hit:
                hit.append(k)
        else:
            if (k, txt) not in seen:
                seen.add((k, txt))
                new.append((k, txt))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    cov = {
        'explanation': explanation,
        'obligations': len(ctx.obl),
        'discharged': sum(1 for o in ctx.obl if o[1]),
        'functions_analysed': len(ctx.analysed),
        'paths_analysed': ctx.paths,
        'calls_analysed': ctx.calls,
        'samples': ctx.samples[:12],
        'obligation_keys': sorted(set(o[0] for o in ctx.obl))[:400],
    }
    cov.update(ctx.extra)
    ev = {'property': ctx.prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level,
          'coverage': cov, 'assumptions': ctx.assume, 'wall_s': round(time.time() - ctx.t0, 3), 'violations': len(new)}
    with open(os.path.join(VERIF, 'evidence', ctx.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for k in hit:
        print('KNOWN-FINDING: property=%s %s :: %s' % (ctx.prop, k, kn[k]))
    print('%s: %d obligations, %d discharged, %d functions, %d paths, %.1fs' % (
        ctx.prop, len(ctx.obl), cov['discharged'], len(ctx.analysed), ctx.paths, time.time() - ctx.t0))
    if new:
        rp = os.path.join(VERIF, 'work', 'report-%s.txt' % ctx.prop)
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        with open(rp, 'w') as f:
            for k, txt in new:
                f.write('%s\n    %s\n' % (k, txt))
        for k, txt in new:
            print('  violated: %s\n    %s' % (k, clip(txt, 1500)))
        print('VIOLATION property=%s replay=%s' % (ctx.prop, rp))
        return 1
    return 0
