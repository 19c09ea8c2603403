"""C19: errors are reported faithfully."""
from vlib import terms as t
from vlib import eval as E
from vlib import mirq
from vlib.spec import freetext, TEXT, rewrite, where, clip
from rules import grammar as R
from rules import syntax as Y
from rules.messages import messages

EXPLANATION = ('Value-flow normal forms of every error conversion of the library: internal code <-> kind (round trip over the declared '
               'discriminants), nom error -> crate error, context conversion (same number and order of entries, position kept, each '
               'custom code converted, severity kept), every From implementation into an error type, and the causes reported. In '
               'addition every call site of the crate that produces a Result with an error type is traced: its error must not be '
               'dropped (unused result, .ok(), unwrap_or*, is_ok as only use) except where listed with a reason.')
TECHNIQUE = 'value-flow normal forms of the error conversions; use-tracing of every Result call site in MIR'
LEVEL_NOTE = ('All paths of the conversions and all call sites. Message texts are compared only where they carry data. nom, serde and '
              'failure are trusted as dependencies.')
CE = 'errors::Error'
EK = 'nom::ErrorKind'
CX = 'nom::Context'
NE = 'nom::Err'


def conv(S, fn, inp):
    r = S.opt(fn(S, inp) if callable(fn) else S.ev.apply(fn, [inp]))
    return TEXT if r is None else r


def by_code(S, inp, code, fn, discs):
    """Some(error) for the codes of the declared kinds"""
    for name, d in discs:
        if S.decide(t.eq(code, t.cint(d))):
            if name == 'InvalidUnicode':
                return S.mk(CE, name, S.call('AsBytes::as_bytes', inp))
            return S.mk(CE, name, conv(S, fn, inp))
    return None


def unknown(v):
    """the fallback text is free"""
    return rewrite(v, lambda x: TEXT if x is t.cstr('UNKNOWN') else x.args[1] if x.op == 'call' and x.args[0] == 'to_string' else x)


def run(ctx):
    kinds = ctx.prog.adts[ctx.adt('InternalKind')]['variants']
    discs = [(v['name'], v['disc']) for v in kinds]
    ctx.expect({d[0] for d in discs} == {'InvalidUnicodeCodePoint', 'InvalidUnicode', 'InvalidNumber'}, 'InternalKind', 'kinds %s' % discs)
    ctx.expect(len({d[1] for d in discs}) == len(discs), 'InternalKind codes', 'distinct codes')

    free = freetext('ParseError', 'Bug')
    post = lambda v: unknown(free(v))
    n = 0

    def go(key, sel, spec, **kw):
        nonlocal n
        n += 1
        kw.setdefault('post', post)
        ctx.guard(key, lambda: ctx.equiv(ctx.body(**sel), spec, key=key, **kw))

    # codes
    def from_u32(S, v):
        for name, d in discs:
            if S.decide(t.eq(v, t.cint(d))):
                return t.some(S.mk('InternalKind', name))
        return t.NONE
    go('InternalKind::from_u32', dict(adt='InternalKind', trait=None, name='from_u32'), from_u32)

    def roundtrip():
        into = [b for b in ctx.bodies(trait='From', name='from') if 'InternalKind' in str(b.j.get('trait_args')) and b.j.get('self_ty') == 'u32']
        if len(into) != 1:
            raise E.Unsupported('From<InternalKind> for u32: %d' % len(into))
        ev = ctx.ev()
        frm = ctx.body(adt='InternalKind', trait=None, name='from_u32')
        S = __import__('vlib.spec', fromlist=['Spec']).Spec(ctx, ev)
        for name, d in discs:
            k = S.mk('InternalKind', name)
            ps = ev.explore(lambda: ('ok', ev.run_body(frm, [ev.run_body(into[0], [k])])))
            ctx.note(ev, ps)
            good = len(ps) == 1 and ps[0].kind == 'ok' and ps[0].val is t.some(k)
            ctx.expect(good, 'round trip of ' + name, 'from_u32(u32::from(%s)) = %s' % (name, t.show(ps[0].val) if ps else '?'))
    ctx.guard('round trip', roundtrip)

    def from_ic(S, inp, code, fn):
        r = by_code(S, inp, code, fn, discs)
        return t.NONE if r is None else t.some(r)
    go('Error::from_input_and_code', dict(adt='Error', mod='errors', trait=None, name='from_input_and_code'), from_ic)

    def custom(S, kind):
        return S.vf(kind, EK, 'Custom')

    fic = ctx.body(adt='Error', mod='errors', trait=None, name='from_input_and_code')

    def from_context(S, cx, fn):
        """the converted error of the first recognised custom entry (the most specific), or None"""
        if S.variant(cx, CX) == 'Code':
            kind = S.vf(cx, CX, 'Code', '1')
            if S.variant(kind, EK) != 'Custom':
                return t.NONE
            return S.call(fic, S.vf(cx, CX, 'Code', '0'), custom(S, kind), fn)

        def one(e):
            kind = t.f(e, '1', 'tup')
            if S.variant(kind, EK) != 'Custom':
                return t.NIL
            o = S.opt(S.call(fic, t.f(e, '0', 'tup'), custom(S, kind), fn))
            return t.NIL if o is None else t.lst(o)
        s = t.fm(S.vf(cx, CX, 'List'), S.ev.lam(one))
        return t.NONE if S.decide(t.empty(s)) else t.some(t.head(s))

    # from_err: Failure with a recognised custom entry anywhere gives that error, everything else a parse error
    def from_err(S, err, fn):
        if S.variant(err, NE) != 'Failure':
            return S.mk(CE, 'ParseError', TEXT)
        r = S.call(ctxb, S.vf(err, NE, 'Failure', '0'), fn)
        o = S.opt(r)
        return S.mk(CE, 'ParseError', TEXT) if o is None else o
    ctxb = ctx.body(adt='Error', mod='errors', trait=None, name='from_context')
    go('Error::from_err', dict(adt='Error', mod='errors', trait=None, name='from_err'), from_err, opaque=[ctxb])
    go('Error::from_context', dict(adt='Error', mod='errors', trait=None, name='from_context'), from_context, opaque=[fic])

    def as_str(S, inp):
        return t.some(inp)

    def as_bytes(S, inp):
        good, v = S.res(S.call('str::from_utf8', S.call('AsBytes::as_bytes', inp)))
        return t.some(v) if good else t.NONE
    # the public conversions hand over the offending text itself
    def pub(fn):
        def spec(S, err):
            if S.variant(err, NE) != 'Failure':
                return S.mk(CE, 'ParseError', TEXT)
            cx = S.vf(err, NE, 'Failure', '0')

            def img(inp, kind):
                if S.variant(kind, EK) != 'Custom':
                    return t.NIL
                r = by_code(S, inp, custom(S, kind), fn, discs)
                return t.NIL if r is None else t.lst(r)
            if S.variant(cx, CX) == 'Code':
                s = img(S.vf(cx, CX, 'Code', '0'), S.vf(cx, CX, 'Code', '1'))
            else:
                s = t.fm(S.vf(cx, CX, 'List'), S.ev.lam(lambda e: img(t.f(e, '0', 'tup'), t.f(e, '1', 'tup'))))
            return S.mk(CE, 'ParseError', TEXT) if S.decide(t.empty(s)) else t.head(s)
        return spec
    go('Error::from_err_str', dict(adt='Error', mod='errors', trait=None, name='from_err_str'), pub(as_str))
    go('Error::from_err_bytes', dict(adt='Error', mod='errors', trait=None, name='from_err_bytes'), pub(as_bytes))

    # make_custom_error: severity kept; every entry kept at its position
    def convert(S, cx, fn):
        def entry(inp, kind):
            if S.variant(kind, EK) == 'Custom':
                r = by_code(S, inp, custom(S, kind), fn, discs)
                if r is None:
                    r = S.mk(CE, 'ParseError', TEXT)
            else:
                r = S.mk(CE, 'ParseError', TEXT)
            return inp, S.mk(EK, 'Custom', r)
        if S.variant(cx, CX) == 'Code':
            return S.mk(CX, 'Code', *entry(S.vf(cx, CX, 'Code', '0'), S.vf(cx, CX, 'Code', '1')))
        return S.mk(CX, 'List', t.fm(S.vf(cx, CX, 'List'), S.ev.lam(lambda e: t.lst(t.tup(*entry(t.f(e, '0', 'tup'), t.f(e, '1', 'tup')))))))
    cc = ctx.body(adt='Error', mod='errors', trait=None, name='convert_context')
    go('Error::convert_context', dict(adt='Error', mod='errors', trait=None, name='convert_context'), convert)

    def make(S, err, fn):
        v = S.variant(err, NE)
        x = S.vf(err, NE, v, '0')
        if v == 'Incomplete':
            return err
        return S.mk(NE, v, S.call(cc, x, fn))

    def made(S, err, fn):
        v = S.variant(err, NE)
        x = S.vf(err, NE, v, '0')
        return err if v == 'Incomplete' else S.mk(NE, v, convert(S, x, fn))
    go('Error::make_custom_error', dict(adt='Error', mod='errors', trait=None, name='make_custom_error'), make, opaque=[cc])
    go('Error::make_custom_err_str', dict(adt='Error', mod='errors', trait=None, name='make_custom_err_str'), lambda S, e: made(S, e, as_str))
    go('Error::make_custom_err_bytes', dict(adt='Error', mod='errors', trait=None, name='make_custom_err_bytes'), lambda S, e: made(S, e, as_bytes))
    # From implementations into the error types
    k = 0
    for b in ctx.bodies(trait='From', name='from'):
        adt = (b.j.get('self_adt') or '')
        src = E.norm_ty((b.j.get('trait_args') or ['?'])[-1])
        key = 'From<%s> for %s' % (src, adt)
        if adt == 'errors::Error':
            want = {'std::io::Error': 'IOError', 'std::str::Utf8Error': 'InvalidUnicodeToParse'}.get(src)
        elif adt == 'errors::InternalKind':
            want = {'std::str::Utf8Error': 'InvalidUnicode', 'std::num::ParseIntError': 'InvalidNumber',
                    'std::num::ParseFloatError': 'InvalidNumber'}.get(src)
        elif adt.endswith('de::error::Error'):
            want = {'errors::Error': 'ParseError', 'std::num::ParseIntError': 'ParseIntError',
                    'std::num::ParseFloatError': 'ParseFloatError'}.get(src)
        else:
            continue
        k += 1
        if want is None:
            if src.startswith('nom::Err'):
                fe = ctx.body(adt='Error', mod='errors', trait=None, name='from_err_str')
                ctx.equiv(b, lambda S, e: S.mk('de::error::Error', 'ParseError', S.call(fe, e)), key=key, opaque=[fe])
            elif 'Compat' in src:
                ctx.equiv(b, lambda S, e: S.call('Compat::into_inner', t.f(e, '0', ctx.adt('de::error::Compat'))), key=key)
            else:
                ctx.bad(key, 'conversion without specification')
            continue
        if adt.endswith('InternalKind'):
            ctx.equiv(b, lambda S, e, want=want: S.mk('InternalKind', want), key=key)
        else:
            ctx.equiv(b, lambda S, e, want=want, adt=adt: S.mk(adt, want, e), key=key)
    for b in ctx.bodies(adt='Compat', trait='From', name='from'):
        src = E.norm_ty((b.j.get('trait_args') or ['?'])[-1])
        k += 1
        DE = 'de::error::Error'
        inner = (lambda S, e: e) if src.endswith('de::error::Error') else (lambda S, e: S.mk(DE, 'ParseError', e))
        ctx.equiv(b, lambda S, e, inner=inner: S.mk('de::error::Compat', 'Compat', S.call('Fail::compat', inner(S, e))),
                  key='From<%s> for Compat' % src)
    ctx.floor(k, 11, 'error conversions')
    go('Compat::custom', dict(adt='Compat', trait='Error', name='custom'),
       lambda S, m: S.mk('de::error::Compat', 'Compat', S.call('Fail::compat', S.mk('de::error::Error', 'Custom', m))))
    # the message of an error shows all it holds
    messages(ctx)
    # a failure inside a token or production is a failure of the whole parse
    r = R.Run(ctx)
    for nm in ('string::unescape', 'string::quoted_string', 'string::string_literal', 'string::string', 'literals::key::key', 'block::block_label'):
        r.check('parser::' + nm, Y.TOKENS[nm], value=False, anchors=R.lexical('parser::' + nm))
    for nm, spec in Y.GRAMMAR.items():
        r.check('parser::' + nm, spec, value=False)
    dropped(ctx)
    recovered(ctx)
    ctx.extra['conversions'] = k + n


DISCARD = {'ok', 'unwrap_or', 'unwrap_or_default', 'map_or', 'or', 'iter', 'into_iter', 'is_ok_and', 'is_none_or'}


def error_of(ty):
    """the error type of a Result type"""
    if E.head_ty(ty) not in ('std::result::Result', 'core::result::Result', 'Result'):
        return None
    a = [x for x in E.ty_args(ty) if not x.startswith("'")]
    return a[1] if len(a) > 1 else None


def interesting(err):
    if err is None:
        return False
    return any(x in err for x in ('errors::Error', 'error::Error', 'Error>', 'Compat', 'nom::Err<')) or err.endswith('Utf8Error') or err.endswith('io::Error') \
        or err.endswith('ParseIntError') or err.endswith('ParseFloatError')


def dropped(ctx):
    """no Result of the crate's error types is silently discarded"""
    sites = 0
    found = 0
    for b in sorted(ctx.prog.bodies.values(), key=lambda b: b.id):
        use = None
        name = E.npath(b.j['path'])
        for i, tm in mirq.calls(b):
            if mirq.nom_macro(tm):
                continue
            err = error_of(E.norm_ty(tm.get('dt') or ''))
            if interesting(err):
                sites += 1
                use = use or mirq.uses(b)
                if not tm['d']['p'] and tm['d']['l'] != 0 and not use.get(tm['d']['l']):
                    found += 1
                    ctx.bad('unused result in ' + name, 'the Result of %s (line %d) is never looked at' % ((mirq.callee(tm) or {}).get('path'), tm['line']))
            for o in [tm.get('f')] + list(tm.get('a') or []):
                fn = o.get('fn') if isinstance(o, dict) else None
                if not fn or E.nadt(fn.get('self_adt')) not in (t.RESULT, 'std::result::Result') or fn.get('name') not in DISCARD:
                    continue
                e2 = error_of(E.norm_ty(fn.get('self') or '')) if o is not tm.get('f') else error_of(E.norm_ty(E.strip_refs((tm.get('at') or ['?'])[0])))
                args = [E.norm_ty(x) for x in fn.get('args') or [] if not x.startswith("'")]
                e2 = e2 or (args[1] if len(args) > 1 else None)
                if not interesting(e2):
                    continue
                if e2.endswith('Utf8Error') and b.j['file'].endswith('errors.rs'):
                    continue        # rendering the offending bytes of an error that is itself reported
                if o is tm.get('f') and tm.get('a') and mirq.known_ok(b, i, tm['a'][0]):
                    continue        # on this path it is Ok
                found += 1
                ctx.bad('error discarded in ' + name, 'Result::%s throws away a %s (line %d)' % (fn['name'], e2, tm['line']))
    ctx.floor(sites, 60, 'Result producing call sites')
    if not found:
        ctx.ok('no discarded errors', '%d call sites' % sites)
    ctx.extra['result_call_sites'] = sites


class Watch(E.Ev):
    """notes the paths on which a failure was seen but neither reported nor kept"""

    def __init__(self, prog, here):
        named = {E.npath(b.j['path']) for b in prog.bodies.values() if b.j['kind'] != 'Closure'}
        super().__init__(prog, opaque=lambda name, fn: fn['crate'] in prog.facts and name in named)
        self.here = here
        self.failable = {}
        self.lost = []
        self.seen = 0

    def call(self, fn, args, tm):
        v = super().call(fn, args, tm)
        e = error_of(E.norm_ty(E.strip_refs((tm or {}).get('dt') or '')))
        if v is not None and v.op not in ('adt', 'case', 'ptr') and interesting(e) and 'nom::Err<' not in e:
            self.failable.setdefault(v, (self.fname(fn), (tm or {}).get('line'), e))
        return v

    def explore(self, thunk):
        before = dict(self.mem)
        ps = super().explore(thunk)
        for p in ps:
            if p.kind == 'ok':
                kept = [p.mem.get(c) for c in before if p.mem.get(c) is not before[c]]
                self.judge(p, ([p.val] if isinstance(p.val, t.T) else list(p.val) if isinstance(p.val, tuple) else []) + kept)
        return ps

    def loop_closed(self, hav, backs):
        for p in backs:
            self.judge(p, [self.rd(p, *key) for key in hav], True)

    def judge(self, p, vals, again=False):
        for atom, v in p.decs:
            if v == 'Err' and atom.op == 'variant' and atom.args[0] in self.failable:
                self.seen += 1
                if self.second_try(p, atom.args[0]):
                    continue
                if not self.reported([x for x in vals if isinstance(x, t.T)], atom.args[0], again):
                    self.lost.append((atom.args[0], p))

    def second_try(self, p, r):
        """integers of the value grammar that do not fit become floats: the text was converted after all"""
        return 'literals' in self.here.j['file'] and self.failable[r][2].endswith('ParseIntError') and any(
            v == 'Ok' and a.op == 'variant' and a.args[0].op == 'call' and a.args[0].args[0].startswith('parse:') and a.args[0].args[1:] == r.args[1:]
            for a, v in p.decs)

    def reported(self, vals, r, again):
        if not again:
            if not vals or vals[0] in (t.TRUE, t.FALSE):
                return True
            if vals[0].op not in ('adt', 'call', 'list', 'str', 'c', 'tup', 'f', 'vf'):
                return True         # an intermediate form: judged where it is used
        return any(x is r or x.op == 'adt' and x.args[0] == t.RESULT and x.args[1] == 'Err' for v in vals for x in t.subterms(v))


def recovered(ctx):
    """no failure is turned into a success: whoever sees one reports it, hands it on or keeps it"""
    seen, bodies, skipped = 0, 0, []
    found = {}
    for b in sorted(ctx.prog.bodies.values(), key=lambda b: b.id):
        ty = b.j['locals'][0]['ty']
        e = error_of(E.norm_ty(ty))
        if b.j['kind'] == 'Closure' or b.j.get('derived') or e is None or 'nom::Err<' in e or b.j['file'].endswith('errors.rs'):
            continue
        ev = Watch(ctx.prog, b)
        bodies += 1
        try:
            ev.summary(b)
        except (E.Unsupported, E.Panic, E.PathDead) as ex:
            skipped.append('%s: %s' % (E.npath(b.j['path']), ex))
            continue
        seen += ev.seen
        for r, p in ev.lost:
            found.setdefault((b, ev.failable[r][0]), (ev.failable[r], p))
    for (b, name), ((_, line, e), p) in found.items():
        ctx.bad('failure ignored in ' + E.npath(b.j['path']), '%s: when the %s of %s (line %s) is seen and %s the function goes on as if it had succeeded'
                % (where(b), e, name, line, clip(E.show_path(p.decs), 500)))
    ctx.floor(seen, 20, 'failures seen')
    if not found:
        ctx.ok('no failure ignored', '%d functions, %d failing paths' % (bodies, seen))
    ctx.extra['failing_paths'] = seen
    ctx.extra['not_explored'] = skipped
