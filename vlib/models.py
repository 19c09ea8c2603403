"""Transfer functions of std (and a few crate) operations over terms."""
import re
from . import terms as t
from .terms import mk

MODELS = {}


def m(*names):
    def d(fn):
        for n in names:
            MODELS[n] = fn
        return fn
    return d


# ---------------------------------------------------------------- helpers
def seq_of(ev, v, ty):
    """the sequence of elements a value iterates over"""
    from .eval import head_ty, Unsupported
    if v.op == 'ptr':
        inner = ev.deref(v)
        h = head_ty(ty)
        if h in ('std::collections::HashMap', 'std::collections::BTreeMap'):
            return t.entries(inner)
        return inner
    h = head_ty(ty)
    if h in ('std::collections::HashMap', 'std::collections::BTreeMap'):
        return t.entries(v)
    if h == 'std::option::Option':
        o = ev.opt(v)
        return t.NIL if o is None else t.lst(o)
    if h == 'std::result::Result':
        ok, p = ev.res(v)
        return t.lst(p) if ok else t.NIL
    return v


def take_seq(ev, v, ty='', drained=False):
    """sequence argument of an adaptor; what it leaves of a borrowed iterator is unknown, unless it always drains it"""
    if v.op == 'ptr':
        s = ev.deref(v)
        ev.store(v, t.NIL if drained else t.sym('rest'))
        return s
    return seq_of(ev, v, ty) if ty else v


def local_next(ev, ctx):
    """Iterator implemented by a type of the analysed crates: not a plain sequence"""
    from .eval import head_ty
    return head_ty(ctx.arg_ty(0)) in ev.prog.adts


def ident(ev, ctx, a):
    return a[0]


def val(ev, ctx, a):
    return ev.deref(a[0])


for n in ('Clone::clone', 'ToOwned::to_owned', 'Borrow::borrow', 'AsRef::as_ref', 'Deref::deref', 'Cow::into_owned',
          'Cow::to_mut', 'Option::as_ref', 'Option::cloned', 'Option::copied', 'Option::as_deref', 'String::as_str',
          'Vec::as_slice', 'IntoIter::as_slice', 'Iter::as_slice', 'String::into_boxed_str', 'Vec::into_boxed_slice', 'String::from', 'slice::to_vec',
          'slice::iter', '[T]::iter', '[T]::to_vec', 'Iterator::cloned', 'Iterator::copied', 'Result::as_ref',
          'hint::must_use', 'Box::new', 'str::to_owned', '[T]::into_vec', 'VecDeque::iter', 'HashSet::iter',
          'BTreeSet::iter', 'str::to_string', 'convert::identity', 'String::into_bytes', 'str::as_bytes', 'String::as_bytes',
          'Vec::into_iter', 'str::as_str', 'Rc::new', 'Arc::new', 'Box::into_inner', 'iter::IntoIterator',
          'Cow::as_ref', 'Iterator::fuse', 'str::as_ref', 'Result::copied', 'Result::cloned',
          'Option::as_slice', 'Box::leak', 'Box::from', 'AsOwned::as_owned', 'Cow::from', 'boxed::Box::new', 'String::into_string',
          'str::into_string', '[T]::as_slice', 'slice::from_ref'):
    MODELS[n] = val

for n in ('DerefMut::deref_mut', 'BorrowMut::borrow_mut', 'AsMut::as_mut', 'Vec::as_mut_slice', 'Iterator::by_ref',
          'BorrowMut::borrow_mut', 'Box::as_mut'):
    MODELS[n] = ident


@m('ToString::to_string', 'SpecToString::spec_to_string')
def to_string(ev, ctx, a):
    from .eval import strip_refs, head_ty
    ty = ctx.arg_ty(0)
    x = strip_refs(ty)
    h = head_ty(ty)
    v = ev.deref(a[0])
    if x in ('str', 'std::string::String') or h in ('std::borrow::Cow', 'std::string::String', 'nom::types::CompleteStr'):
        return v
    if x == 'char':
        return t.charstr(v)
    if re.match(r'^[A-Z]\w*$', x) or x == 'impl':
        return v      # generic `S: ToString`
    if h in ev.prog.adts:
        # a local type that is displayed: its Display implementation decides the text
        return t.call('to_string:' + h, v)
    r = t.call('to_string', v)
    (ev.int_text.add if re.match(r'^[iu](\d+|size)$', x) else ev.int_text.discard)(r)
    return r


@m('SeqDeserializer::new')
def seq_deserializer(ev, ctx, a):
    # what Vec::into_deserializer is
    return ev.opaque('IntoDeserializer::into_deserializer', list(a))


@m('Into::into', 'From::from', 'TryInto::try_into')
def conv(ev, ctx, a):
    from .eval import norm_ty, head_ty, strip_refs
    v = ev.deref(a[0])
    fn = ctx.fn
    args = [x for x in fn.get('args') or [] if not re.match(r"^'[\w#]+$", x)]
    if ctx.name == 'Into::into':
        src, dst = (args + ['', ''])[:2]
    else:
        dst, src = (args + ['', ''])[:2]
    return convert(ev, src, dst, v)


STRLIKE = ('std::string::String', 'std::borrow::Cow', 'str', 'std::boxed::Box')


def convert(ev, src, dst, v):
    from .eval import norm_ty, head_ty, Unsupported
    if norm_ty(src) == norm_ty(dst) or not dst:
        return v
    b = find_from(ev, src, dst)
    if b is not None:
        if b.id in ev.stack:
            return ev.opaque('From::from', [v])
        return ev.run_body(b, [v])
    hs, hd = head_ty(src), head_ty(dst)
    if hs in STRLIKE and hd in STRLIKE:
        return v
    if hs in ('std::vec::Vec', '[]') and hd in ('std::vec::Vec', 'std::collections::VecDeque', 'std::boxed::Box', 'std::borrow::Cow'):
        return v
    if hd == 'std::option::Option' and hs != hd:
        return t.some(v)
    if re.match(r'^[iu](8|16|32|64|128|size)$', norm_ty(src)) and re.match(r'^[iu](8|16|32|64|128|size)$', norm_ty(dst)):
        return v
    if re.match(r'^[A-Z]\w*$', norm_ty(src)) or re.match(r'^[A-Z]\w*$', norm_ty(dst)):
        return t.call('Into::into', v)
    return t.call('From::from<%s>' % norm_ty(dst), v)


def find_from(ev, src, dst):
    from .eval import ty_unify, npath
    found = []
    for im in ev.prog.impls:
        if npath(im.get('trait') or '').split('::')[-1] != 'From':
            continue
        gen = set(im.get('generics') or []) or {'T', 'U', 'V', 'K', 'S', 'I', 'E', 'O', 'B'}
        env = {}
        tr = [x for x in im.get('trait_args') or [] if not re.match(r"^'[\w#]+$", x)]
        if ty_unify(im['self_ty'], dst, gen, env) and tr and ty_unify(tr[-1], src, gen, env):
            bad = False
            found.append((len(env), im))
    if not found:
        return None
    found.sort(key=lambda x: x[0])
    im = found[0][1]
    for b in ev.prog.bodies.values():
        if b.j.get('impl') == im['id'] and b.j['name'] == 'from':
            return b
    return None


# ---------------------------------------------------------------- control
@m('Try::branch')
def branch(ev, ctx, a):
    from .eval import head_ty
    v = ev.deref(a[0])
    if head_ty(ctx.arg_ty(0)) == 'std::option::Option':
        o = ev.opt(v)
        if o is None:
            return t.adt(t.FLOW, 'Break', [('0', t.NONE)])
        return t.adt(t.FLOW, 'Continue', [('0', o)])
    ok, p = ev.res(v)
    if ok:
        return t.adt(t.FLOW, 'Continue', [('0', p)])
    return t.adt(t.FLOW, 'Break', [('0', t.err(p))])


@m('FromResidual::from_residual')
def residual(ev, ctx, a):
    from .eval import head_ty, ty_args
    v = ev.deref(a[0])
    if head_ty(ctx.arg_ty(0)) == 'std::option::Option':
        return t.NONE
    ok, e = ev.res(v)
    fr, to = ty_args(ctx.arg_ty(0)), ty_args(ctx.dt)
    if len(fr) == 2 and len(to) == 2:
        e = convert(ev, fr[1], to[1], e)
    return t.err(e)


@m('panicking::panic', 'panicking::panic_fmt', 'rt::begin_panic', 'panicking::unreachable_display', 'panicking::panic_display',
   'rt::panic_fmt', 'panicking::panic_explicit', 'panicking::panic_str_2015', 'panicking::unreachable', 'panicking::begin_panic',
   'panicking::assert_failed', 'panicking::panic_str')
def panic(ev, ctx, a):
    from .eval import Panic
    raise Panic('panic')


@m('Option::unwrap', 'Option::expect')
def opt_unwrap(ev, ctx, a):
    from .eval import Panic
    v = a[0]
    o = ev.opt(ev.deref(v))
    if o is None:
        raise Panic('unwrap')
    return o


@m('Result::unwrap', 'Result::expect')
def res_unwrap(ev, ctx, a):
    from .eval import Panic
    ok, p = ev.res(ev.deref(a[0]))
    if not ok:
        raise Panic('unwrap')
    return p


@m('Result::unwrap_err', 'Result::expect_err')
def res_unwrap_err(ev, ctx, a):
    from .eval import Panic
    ok, p = ev.res(ev.deref(a[0]))
    if ok:
        raise Panic('unwrap')
    return p


# ---------------------------------------------------------------- Option / Result
@m('Option::map')
def o_map(ev, ctx, a):
    o = ev.opt(ev.deref(a[0]))
    return t.NONE if o is None else t.some(ev.apply(a[1], [o]))


@m('Option::and_then')
def o_and_then(ev, ctx, a):
    o = ev.opt(ev.deref(a[0]))
    return t.NONE if o is None else ev.apply(a[1], [o])


@m('Option::filter')
def o_filter(ev, ctx, a):
    o = ev.opt(ev.deref(a[0]))
    if o is None or not ev.decide(ev.apply(a[1], [o])):
        return t.NONE
    return t.some(o)


@m('Option::flatten')
def o_flatten(ev, ctx, a):
    o = ev.opt(ev.deref(a[0]))
    return t.NONE if o is None else o


@m('Option::is_some')
def o_is_some(ev, ctx, a):
    return t.cbool(ev.opt(ev.deref(a[0])) is not None)


@m('Option::is_none')
def o_is_none(ev, ctx, a):
    return t.cbool(ev.opt(ev.deref(a[0])) is None)


@m('Option::is_some_and')
def o_is_some_and(ev, ctx, a):
    o = ev.opt(ev.deref(a[0]))
    return t.FALSE if o is None else ev.apply(a[1], [o])


@m('Option::is_none_or')
def o_is_none_or(ev, ctx, a):
    o = ev.opt(ev.deref(a[0]))
    return t.TRUE if o is None else ev.apply(a[1], [o])


@m('Option::unwrap_or')
def o_unwrap_or(ev, ctx, a):
    o = ev.opt(ev.deref(a[0]))
    return a[1] if o is None else o


@m('Option::unwrap_or_else')
def o_unwrap_or_else(ev, ctx, a):
    o = ev.opt(ev.deref(a[0]))
    return ev.apply(a[1], []) if o is None else o


@m('Option::unwrap_or_default')
def o_unwrap_or_default(ev, ctx, a):
    o = ev.opt(ev.deref(a[0]))
    return default_of(ev, ctx.dt) if o is None else o


@m('Option::ok_or')
def o_ok_or(ev, ctx, a):
    o = ev.opt(ev.deref(a[0]))
    return t.err(a[1]) if o is None else t.ok(o)


@m('Option::ok_or_else')
def o_ok_or_else(ev, ctx, a):
    o = ev.opt(ev.deref(a[0]))
    return t.err(ev.apply(a[1], [])) if o is None else t.ok(o)


@m('Option::map_or')
def o_map_or(ev, ctx, a):
    o = ev.opt(ev.deref(a[0]))
    return a[1] if o is None else ev.apply(a[2], [o])


@m('Option::map_or_else')
def o_map_or_else(ev, ctx, a):
    o = ev.opt(ev.deref(a[0]))
    return ev.apply(a[1], []) if o is None else ev.apply(a[2], [o])


@m('Option::or')
def o_or(ev, ctx, a):
    o = ev.opt(ev.deref(a[0]))
    return a[1] if o is None else t.some(o)


@m('Option::or_else')
def o_or_else(ev, ctx, a):
    o = ev.opt(ev.deref(a[0]))
    return ev.apply(a[1], []) if o is None else t.some(o)


@m('Option::and')
def o_and(ev, ctx, a):
    o = ev.opt(ev.deref(a[0]))
    return t.NONE if o is None else a[1]


@m('Option::zip')
def o_zip(ev, ctx, a):
    o = ev.opt(ev.deref(a[0]))
    p = ev.opt(ev.deref(a[1]))
    return t.NONE if o is None or p is None else t.some(t.tup(o, p))


@m('Option::take')
def o_take(ev, ctx, a):
    v = ev.deref(a[0])
    ev.store(a[0], t.NONE)
    return v


@m('Option::replace')
def o_replace(ev, ctx, a):
    v = ev.deref(a[0])
    ev.store(a[0], t.some(a[1]))
    return v


@m('Option::insert')
def o_insert(ev, ctx, a):
    ev.store(a[0], t.some(a[1]))
    return ev.sub_ptr(a[0], ('vf', 'Some', '0', t.OPTION)) if a[0].op == 'ptr' else a[1]


@m('Option::as_mut', 'Option::as_deref_mut')
def o_as_mut(ev, ctx, a):
    o = ev.opt(ev.deref(a[0]))
    if o is None:
        return t.NONE
    if a[0].op == 'ptr':
        return t.some(ev.sub_ptr(a[0], ('vf', 'Some', '0', t.OPTION)))
    return t.some(o)


@m('Option::iter', 'Option::into_iter')
def o_iter(ev, ctx, a):
    o = ev.opt(ev.deref(a[0]))
    return t.NIL if o is None else t.lst(o)


@m('Option::transpose')
def o_transpose(ev, ctx, a):
    o = ev.opt(ev.deref(a[0]))
    if o is None:
        return t.ok(t.NONE)
    ok, p = ev.res(o)
    return t.ok(t.some(p)) if ok else t.err(p)


@m('bool::then')
def b_then(ev, ctx, a):
    return t.some(ev.apply(a[1], [])) if ev.decide(a[0]) else t.NONE


@m('bool::then_some')
def b_then_some(ev, ctx, a):
    return t.some(a[1]) if ev.decide(a[0]) else t.NONE


@m('Result::map')
def r_map(ev, ctx, a):
    ok, p = ev.res(ev.deref(a[0]))
    return t.ok(ev.apply(a[1], [p])) if ok else t.err(p)


@m('Result::map_err')
def r_map_err(ev, ctx, a):
    ok, p = ev.res(ev.deref(a[0]))
    return t.ok(p) if ok else t.err(ev.apply(a[1], [p]))


@m('Result::and_then')
def r_and_then(ev, ctx, a):
    ok, p = ev.res(ev.deref(a[0]))
    return ev.apply(a[1], [p]) if ok else t.err(p)


@m('Result::or_else')
def r_or_else(ev, ctx, a):
    ok, p = ev.res(ev.deref(a[0]))
    return t.ok(p) if ok else ev.apply(a[1], [p])


@m('Result::ok')
def r_ok(ev, ctx, a):
    ok, p = ev.res(ev.deref(a[0]))
    return t.some(p) if ok else t.NONE


@m('Result::err')
def r_err(ev, ctx, a):
    ok, p = ev.res(ev.deref(a[0]))
    return t.NONE if ok else t.some(p)


@m('Result::is_ok')
def r_is_ok(ev, ctx, a):
    return t.cbool(ev.res(ev.deref(a[0]))[0])


@m('Result::is_err')
def r_is_err(ev, ctx, a):
    return t.cbool(not ev.res(ev.deref(a[0]))[0])


@m('Result::unwrap_or')
def r_unwrap_or(ev, ctx, a):
    ok, p = ev.res(ev.deref(a[0]))
    return p if ok else a[1]


@m('Result::unwrap_or_else')
def r_unwrap_or_else(ev, ctx, a):
    ok, p = ev.res(ev.deref(a[0]))
    return p if ok else ev.apply(a[1], [p])


@m('Result::map_or')
def r_map_or(ev, ctx, a):
    ok, p = ev.res(ev.deref(a[0]))
    return ev.apply(a[2], [p]) if ok else a[1]


# ---------------------------------------------------------------- comparisons
@m('PartialEq::eq', 'Equivalent::equivalent', 'Iterator::eq')
def eq_(ev, ctx, a):
    ty = ctx.arg_ty(0)
    if ty.lstrip('&').strip() in ('f32', 'f64'):
        return ev.binop('Eq', ev.deref(a[0]), ev.deref(a[1]), ty.lstrip('&').strip())
    return t.eq(strip_fnval(ev, a[0]), strip_fnval(ev, a[1]))


def strip_fnval(ev, v):
    return ev.deref(v)


@m('PartialEq::ne')
def ne_(ev, ctx, a):
    return t.nnot(eq_(ev, ctx, a))


def cmp_model(op):
    def f(ev, ctx, a):
        ty = ctx.arg_ty(0)
        if 'log::' in ty:
            return t.FALSE       # log macros: disabled logging has no effect on values
        return ev.binop(op, ev.deref(a[0]), ev.deref(a[1]), ty.lstrip('&').strip())
    return f


MODELS['PartialOrd::le'] = cmp_model('Le')
MODELS['PartialOrd::lt'] = cmp_model('Lt')
MODELS['PartialOrd::ge'] = cmp_model('Ge')
MODELS['PartialOrd::gt'] = cmp_model('Gt')


@m('Not::not')
def not_(ev, ctx, a):
    return t.nnot(a[0])


# ---------------------------------------------------------------- iterators
@m('IntoIterator::into_iter')
def into_iter(ev, ctx, a):
    from .eval import head_ty, strip_refs
    ty = ctx.arg_ty(0)
    v = a[0]
    if v.op == 'ptr':
        if re.match(r"^&('[\w#]+ )?mut ", ty):
            h = head_ty(ty)
            if h in ('std::collections::HashMap',):
                return t.entries(ev.deref(v))
            if h in ('std::vec::Vec', '[]', 'std::collections::VecDeque'):
                return ev.deref(v)
            return v      # &mut I where I: Iterator
        v = ev.deref(v)
    return seq_of(ev, v, ty)


@m('HashMap::iter', 'HashMap::iter_mut', 'HashMap::into_iter', 'HashMap::drain', 'BTreeMap::iter', 'BTreeMap::into_iter')
def map_iter(ev, ctx, a):
    mp = ev.deref(a[0])
    if ctx.name.endswith('drain'):
        ev.store(a[0], t.EMPTYMAP)
    return t.entries(mp)


@m('HashMap::keys', 'HashMap::into_keys')
def map_keys(ev, ctx, a):
    return t.seqmap(t.entries(ev.deref(a[0])), lambda e: t.f(e, '0', 'tup'))


@m('HashMap::values', 'HashMap::into_values', 'HashMap::values_mut')
def map_values(ev, ctx, a):
    return t.seqmap(t.entries(ev.deref(a[0])), lambda e: t.f(e, '1', 'tup'))


@m('[T]::iter_mut', 'Vec::iter_mut', 'VecDeque::iter_mut')
def vec_iter_mut(ev, ctx, a):
    return ev.deref(a[0])


@m('iter::once')
def once(ev, ctx, a):
    return t.lst(a[0])


@m('iter::empty')
def iempty(ev, ctx, a):
    return t.NIL


@m('Iterator::next')
def it_next(ev, ctx, a):
    p = a[0]
    s = ev.deref(p)
    s = ev.force(s)
    if p.op != 'ptr':
        return t.call('Iterator::next', s)
    if ev.decide(t.empty(s)):
        return t.NONE
    ev.store(p, t.tail(s))
    return t.some(t.head(s))


@m('DoubleEndedIterator::next_back')
def it_next_back(ev, ctx, a):
    s = ev.force(ev.deref(a[0]))
    if ev.decide(t.empty(s)):
        return t.NONE
    r = t.rev(s)
    ev.store(a[0], t.rev(t.tail(r)))
    return t.some(t.last(s))


@m('Iterator::nth')
def it_nth(ev, ctx, a):
    s = take_seq(ev, a[0])
    n = a[1]
    if n is t.ZERO:
        return t.NONE if ev.decide(t.empty(s)) else t.some(t.head(s))
    return t.call('Iterator::nth', s, n)


@m('Iterator::map')
def it_map(ev, ctx, a):
    s = take_seq(ev, a[0])
    return t.fm(s, ev.lam(lambda x: t.lst(ev.apply(a[1], [x])), of=s))


@m('Iterator::filter')
def it_filter(ev, ctx, a):
    s = take_seq(ev, a[0])
    return t.fm(s, ev.lam(lambda x: t.lst(x) if ev.decide(ev.apply(a[1], [x])) else t.NIL, of=s))


@m('Iterator::filter_map')
def it_filter_map(ev, ctx, a):
    s = take_seq(ev, a[0])

    def g(x):
        o = ev.opt(ev.apply(a[1], [x]))
        return t.NIL if o is None else t.lst(o)
    return t.fm(s, ev.lam(g, of=s))


@m('Iterator::flat_map')
def it_flat_map(ev, ctx, a):
    s = take_seq(ev, a[0])
    args = [x for x in ctx.fn.get('args') or [] if not x.startswith("'")]
    ty = args[1] if len(args) > 1 else ''
    return t.fm(s, ev.lam(lambda x: seq_of(ev, ev.apply(a[1], [x]), ty), of=s))


def item_ty(ty):
    """element type of an iterator / collection type string, best effort"""
    from .eval import ty_args, head_ty, strip_refs
    ty = strip_refs(ty)
    a = ty_args(ty)
    return a[-1] if a else ''


@m('Iterator::flatten')
def it_flatten(ev, ctx, a):
    s = take_seq(ev, a[0])
    ty = item_ty(ctx.arg_ty(0))

    def g(x):
        return seq_of(ev, x, ty) if 'Option' in ty[:24] or 'HashMap' in ty[:30] else x
    return t.fm(s, ev.lam(g, of=s))


@m('[T]::concat', 'slice::concat')
def concat(ev, ctx, a):
    return t.fm(ev.deref(a[0]), ev.lam(lambda x: x))


@m('Iterator::chain')
def it_chain(ev, ctx, a):
    args = [x for x in ctx.fn.get('args') or [] if not x.startswith("'")]
    return t.cat(take_seq(ev, a[0]), seq_of(ev, a[1], args[1] if len(args) > 1 else ''))


@m('Iterator::rev')
def it_rev(ev, ctx, a):
    return t.rev(take_seq(ev, a[0]))


@m('Iterator::enumerate')
def it_enum(ev, ctx, a):
    return t.enum(take_seq(ev, a[0]))


@m('Iterator::zip')
def it_zip(ev, ctx, a):
    l, r = ev.deref(a[0]), ev.deref(a[1])
    if l.op == 'call' and l.args[0] == 'iter::repeat':
        return t.seqmap(take_seq(ev, a[1]), lambda y: t.tup(l.args[1], y))
    if r.op == 'call' and r.args[0] == 'iter::repeat':
        return t.seqmap(take_seq(ev, a[0]), lambda x: t.tup(x, r.args[1]))
    return mk('zip', take_seq(ev, a[0]), r)


@m('Iterator::take')
def it_take(ev, ctx, a):
    return t.take(take_seq(ev, a[0]), a[1])


@m('Iterator::skip')
def it_skip(ev, ctx, a):
    return t.drop(take_seq(ev, a[0]), a[1])


@m('Iterator::take_while')
def it_take_while(ev, ctx, a):
    s = take_seq(ev, a[0])
    return mk('until', s, ev.lam(lambda x: t.nnot(ev.apply(a[1], [x])), of=s))


@m('Iterator::skip_while')
def it_skip_while(ev, ctx, a):
    s = take_seq(ev, a[0])
    return mk('from', s, ev.lam(lambda x: t.nnot(ev.apply(a[1], [x])), of=s))


@m('Iterator::count', 'ExactSizeIterator::len')
def it_count(ev, ctx, a):
    return t.length(take_seq(ev, a[0]) if ctx.name.endswith('count') else ev.deref(a[0]))


@m('Iterator::size_hint')
def it_size_hint(ev, ctx, a):
    # std iterators over collections report exact sizes
    n = t.length(ev.deref(a[0]))
    return t.tup(n, t.some(n))


@m('Iterator::sum')
def it_sum(ev, ctx, a):
    return t.sum_(t.fm(take_seq(ev, a[0]), ev.lam(lambda x: t.lst(x))))


@m('Iterator::last')
def it_last(ev, ctx, a):
    s = take_seq(ev, a[0], drained=True)
    return t.NONE if ev.decide(t.empty(s)) else t.some(t.last(s))


@m('Iterator::fold')
def it_fold(ev, ctx, a):
    s = take_seq(ev, a[0], drained=True)
    r = ev.seq_loop(s, {'acc': a[1]}, lambda e, st: ('back', {'acc': ev.apply(a[2], [st['acc'], e])}))
    return r[1]['acc']


def trying(ev, ctx):
    """(split, wrap) of the kind of value a try_ method short-circuits on"""
    from .eval import head_ty, Unsupported
    h = head_ty(ctx.dt)
    if h == 'std::option::Option':
        def split(x):
            o = ev.opt(x)
            return (o is not None), (t.NONE if o is None else o)
        return split, t.some
    if h == 'std::result::Result':
        def split(x):
            ok, p = ev.res(x)
            return ok, (p if ok else t.err(p))
        return split, t.ok
    raise Unsupported('%s of %s' % (ctx.name, ctx.dt))


@m('Iterator::try_fold')
def it_try_fold(ev, ctx, a):
    s = take_seq(ev, a[0])
    split, wrap = trying(ev, ctx)

    def step(e, st):
        ok, p = split(ev.apply(a[2], [st['acc'], e]))
        return ('back', {'acc': p}) if ok else ('ret', p)
    r = ev.seq_loop(s, {'acc': a[1]}, step)
    return wrap(r[1]['acc']) if r[0] == 'done' else r[1]


def captured_loop(ev, s, body):
    """a closure run for every element: its captured &mut state is summarised like a loop"""
    from .eval import Unsupported
    start = dict(ev.mem)
    hav = {}
    for _ in range(10):
        keep = ev.mem
        ev.mem = dict(start)
        for (c, path), sy in hav.items():
            ev.mem[c] = ev.setstep(ev.mem[c], path, sy)
        base = dict(ev.mem)
        e = t.sym('e')
        ps = ev.explore(lambda: body(e))
        ev.mem = keep
        new = False
        for p in ps:
            if p.kind != 'back':
                continue
            for c, v in base.items():
                w = p.mem.get(c)
                if v is None or w is v:
                    continue
                for path in ev.diff(v, w, ()):
                    if not any(hc == c and path[:len(hp)] == hp for hc, hp in hav):
                        for hk in [hk for hk in hav if hk[0] == c and hk[1][:len(path)] == path]:
                            del hav[hk]
                        hav[(c, path)] = t.sym('phi')
                        new = True
        if not new:
            break
    else:
        raise Unsupported('closure state does not stabilise')
    outs = []
    traces = []
    for p in ps:
        if p.kind == 'dead':
            continue
        traces += list(p.trace)
        if p.kind == 'back':
            outs.append((p.decs, 'back', {k: ev.rd(p, *k) for k in hav}))
        else:
            outs.append((p.decs, 'ret', (p.val,)))
    if traces:
        ev.trace.append(('loop', s, tuple(traces)))
    inits = {k: ev.setrd(start, k) for k in hav}
    r = ev.analyse(s, e, hav, inits, outs)
    if r[0] == 'done':
        for (c, path), v in r[1].items():
            ev.mem[c] = ev.setstep(ev.mem[c], path, v)
        return 'done', None
    return 'ret', r[1][0]


@m('Iterator::for_each')
def it_for_each(ev, ctx, a):
    from .eval import Panic
    s = take_seq(ev, a[0], drained=True)
    r = captured_loop(ev, s, lambda e: (ev.apply(a[1], [e]), ('back', None))[1])
    if r[0] == 'ret':
        raise Panic('for_each')
    return t.UNIT


@m('Iterator::try_for_each')
def it_try_for_each(ev, ctx, a):
    s = take_seq(ev, a[0])
    split, wrap = trying(ev, ctx)

    def body(e):
        ok, p = split(ev.apply(a[1], [e]))
        return ('back', None) if ok else ('ret', p)
    r = captured_loop(ev, s, body)
    return wrap(t.UNIT) if r[0] == 'done' else r[1]


@m('Iterator::all')
def it_all(ev, ctx, a):
    s = take_seq(ev, a[0])
    return t.nnot(t.any_(s, ev.lam(lambda x: t.nnot(ev.apply(a[1], [x])), of=s)))


@m('Iterator::any')
def it_any(ev, ctx, a):
    s = take_seq(ev, a[0])
    return t.any_(s, ev.lam(lambda x: ev.apply(a[1], [x]), of=s))


@m('[T]::contains', 'Vec::contains', 'VecDeque::contains')
def contains(ev, ctx, a):
    v = ev.deref(a[1])
    return t.any_(ev.deref(a[0]), ev.lam(lambda x: t.eq(x, v)))


def found(ev, s):
    if ev.decide(t.empty(s)):
        return t.NONE
    return t.some(t.head(s))


@m('Iterator::position')
def it_position(ev, ctx, a):
    s = take_seq(ev, a[0])
    p = ev.lam(lambda x: t.TRUE if ev.decide(ev.apply(a[1], [x])) else t.FALSE, of=s)
    return t.some(mk('firstidx', s, p)) if ev.decide(t.any_(s, p)) else t.NONE


@m('Iterator::find')
def it_find(ev, ctx, a):
    s = take_seq(ev, a[0])
    return found(ev, t.fm(s, ev.lam(lambda x: t.lst(x) if ev.decide(ev.apply(a[1], [x])) else t.NIL, of=s)))


@m('Iterator::find_map')
def it_find_map(ev, ctx, a):
    s = take_seq(ev, a[0])

    def g(x):
        o = ev.opt(ev.apply(a[1], [x]))
        return t.NIL if o is None else t.lst(o)
    return found(ev, t.fm(s, ev.lam(g, of=s)))


@m('Iterator::partition')
def it_partition(ev, ctx, a):
    s = take_seq(ev, a[0], drained=True)
    p = ev.lam(lambda x: ev.apply(a[1], [x]), of=s)
    yes = t.seqfilter(s, lambda x: t.open_lam(p, x))
    no = t.seqfilter(s, lambda x: t.nnot(t.open_lam(p, x)))
    return t.tup(yes, no)


@m('Iterator::unzip')
def it_unzip(ev, ctx, a):
    s = take_seq(ev, a[0], drained=True)
    return t.tup(t.seqmap(s, lambda x: t.f(x, '0', 'tup')), t.seqmap(s, lambda x: t.f(x, '1', 'tup')))


@m('Itertools::group_by', 'Itertools::chunk_by')
def group_by(ev, ctx, a):
    s = take_seq(ev, a[0])
    return mk('groups', s, ev.lam(lambda x: ev.apply(a[1], [x]), of=s))


@m('Iterator::collect', 'FromIterator::from_iter', 'Itertools::collect_vec')
def collect(ev, ctx, a):
    if ctx.name == 'Iterator::collect':
        ty = ctx.targ(1)
    elif ctx.name == 'Itertools::collect_vec':
        ty = 'std::vec::Vec<_>'
    else:
        ty = ctx.targ(0)
    s = take_seq(ev, a[0]) if ctx.name != 'FromIterator::from_iter' else seq_of(ev, a[0], ctx.targ(1))
    return collect_to(ev, s, ty)


def collect_to(ev, s, ty):
    from .eval import head_ty, ty_args, norm_ty, ty_unify, npath
    # crate-local FromIterator implementations
    for im in ev.prog.impls:
        if npath(im.get('trait') or '').split('::')[-1] != 'FromIterator':
            continue
        gen = {'T', 'U', 'V', 'K', 'S', 'I'}
        if ty_unify(im['self_ty'], ty, gen, {}):
            for b in ev.prog.bodies.values():
                if b.j.get('impl') == im['id'] and b.j['name'] == 'from_iter' and b.id not in ev.stack:
                    # several impls may exist for one type: choose by item type is not needed here
                    return ev.run_body(b, [s])
    h = head_ty(ty)
    if h in ('std::vec::Vec', 'std::collections::VecDeque', 'std::boxed::Box', 'std::string::String', 'std::borrow::Cow',
             'std::collections::LinkedList'):
        return s
    if h in ('std::collections::HashMap', 'std::collections::BTreeMap'):
        return t.tomap(s)
    if h in ('std::collections::HashSet', 'std::collections::BTreeSet'):
        return t.toset(s)
    if h == 'std::result::Result':
        bad = t.fm(s, ev.lam(lambda x: (lambda r: t.NIL if r[0] else t.lst(r[1]))(ev.res(x))))
        if ev.decide(t.empty(bad)):
            good = t.fm(s, ev.lam(lambda x: ok_only(ev, x)))
            return t.ok(collect_to(ev, good, ty_args(ty)[0]))
        return t.err(t.head(bad))
    if h == 'std::option::Option':
        bad = t.fm(s, ev.lam(lambda x: t.lst(t.UNIT) if ev.opt(x) is None else t.NIL))
        if ev.decide(t.empty(bad)):
            good = t.fm(s, ev.lam(lambda x: some_only(ev, x)))
            return t.some(collect_to(ev, good, ty_args(ty)[0]))
        return t.NONE
    if h == '()':
        return t.UNIT
    return t.call('collect:' + h, s)


def ok_only(ev, x):
    from .eval import PathDead
    ok, p = ev.res(x)
    if not ok:
        raise PathDead()
    return t.lst(p)


def some_only(ev, x):
    from .eval import PathDead
    o = ev.opt(x)
    if o is None:
        raise PathDead()
    return t.lst(o)


@m('Extend::extend', 'Vec::extend', 'VecDeque::extend')
def extend(ev, ctx, a):
    from .eval import head_ty
    h = head_ty(ctx.arg_ty(0))
    cur = ev.deref(a[0])
    args = [x for x in ctx.fn.get('args') or [] if not x.startswith("'")]
    s = seq_of(ev, a[1], args[-1] if args else '') if a[1].op != 'ptr' else take_seq(ev, a[1])
    if h == 'std::collections::HashMap':
        ev.store(a[0], t.putall(cur, s))
    elif h in ('std::vec::Vec', 'std::collections::VecDeque', 'std::string::String'):
        ev.store(a[0], t.cat(cur, s))
    elif h in ('std::collections::HashSet', 'std::collections::BTreeSet'):
        ev.store(a[0], t.setext(cur, s))
    else:
        return NotImplemented
    return t.UNIT


# ---------------------------------------------------------------- Vec / VecDeque / String
@m('Vec::new', 'Vec::with_capacity', 'VecDeque::new', 'VecDeque::with_capacity', 'String::new', 'String::with_capacity')
def new_seq(ev, ctx, a):
    return t.NIL


@m('HashMap::new', 'HashMap::with_capacity', 'HashMap::with_hasher', 'HashMap::with_capacity_and_hasher', 'BTreeMap::new')
def new_map(ev, ctx, a):
    return t.EMPTYMAP


@m('HashSet::new', 'BTreeSet::new', 'HashSet::with_capacity', 'HashSet::with_hasher', 'HashSet::with_capacity_and_hasher')
def new_set(ev, ctx, a):
    return t.toset(t.NIL)


def default_of(ev, ty):
    from .eval import head_ty, Unsupported
    h = head_ty(ty)
    if h in ('std::vec::Vec', 'std::string::String', 'std::collections::VecDeque', 'std::borrow::Cow', 'str'):
        return t.NIL
    if h in ('std::collections::HashMap', 'std::collections::BTreeMap'):
        return t.EMPTYMAP
    if h in ('std::collections::HashSet', 'std::collections::BTreeSet'):
        return t.toset(t.NIL)
    if h == 'std::option::Option':
        return t.NONE
    if h == 'bool':
        return t.FALSE
    if re.match(r'^[iu](8|16|32|64|128|size)$', h):
        return t.ZERO
    for b in ev.prog.bodies.values():
        if b.j.get('self_adt') == h and (b.j.get('trait') or '').endswith('Default') and b.j['name'] == 'default':
            return ev.run_body(b, [])
    return t.call('default:' + h)


@m('Default::default')
def default(ev, ctx, a):
    return default_of(ev, ctx.dt or ctx.targ(0))


@m('Vec::push', 'VecDeque::push_back')
def push(ev, ctx, a):
    ev.store(a[0], t.cat(ev.deref(a[0]), t.lst(a[1])))
    return t.UNIT


@m('VecDeque::push_front')
def push_front(ev, ctx, a):
    ev.store(a[0], t.cat(t.lst(a[1]), ev.deref(a[0])))
    return t.UNIT


@m('Vec::insert', 'VecDeque::insert', 'String::insert_str')
def vec_insert(ev, ctx, a):
    cur = ev.deref(a[0])
    x = t.lst(a[2]) if not ctx.name.endswith('insert_str') else a[2]
    if a[1] is t.ZERO:
        ev.store(a[0], t.cat(x, cur))
    elif a[1] is t.length(cur):
        ev.store(a[0], t.cat(cur, x))
    else:
        ev.store(a[0], t.call('insert_at', cur, a[1], x))
    return t.UNIT


@m('Vec::append', 'VecDeque::append')
def vec_append(ev, ctx, a):
    o = ev.deref(a[1])
    ev.store(a[0], t.cat(ev.deref(a[0]), o))
    ev.store(a[1], t.NIL)
    return t.UNIT


@m('Vec::extend_from_slice', 'String::push_str')
def vec_extend_slice(ev, ctx, a):
    ev.store(a[0], t.cat(ev.deref(a[0]), ev.deref(a[1])))
    return t.UNIT


@m('String::push')
def str_push(ev, ctx, a):
    ev.store(a[0], t.cat(ev.deref(a[0]), t.charstr(a[1])))
    return t.UNIT


@m('Add::add')
def add_op(ev, ctx, a):
    from .eval import head_ty
    if head_ty(ctx.arg_ty(0)) in ('std::string::String', 'std::borrow::Cow'):
        return t.cat(ev.deref(a[0]), ev.deref(a[1]))
    return ev.binop('Add', ev.deref(a[0]), ev.deref(a[1]), ctx.arg_ty(0).lstrip('&'))


@m('AddAssign::add_assign')
def add_assign(ev, ctx, a):
    from .eval import head_ty
    if head_ty(ctx.arg_ty(0)) in ('std::string::String', 'std::borrow::Cow'):
        ev.store(a[0], t.cat(ev.deref(a[0]), ev.deref(a[1])))
    else:
        ev.store(a[0], ev.binop('Add', ev.deref(a[0]), ev.deref(a[1]), 'usize'))
    return t.UNIT


@m('Vec::pop')
def vec_pop(ev, ctx, a):
    s = ev.force(ev.deref(a[0]))
    if ev.decide(t.empty(s)):
        return t.NONE
    ev.store(a[0], t.rev(t.tail(t.rev(s))))
    return t.some(t.last(s))


@m('String::pop')
def str_pop(ev, ctx, a):
    s = ev.deref(a[0])
    if s.op == 'fm' and s.args[0].op == 'split':
        x = t.sym('x')
        sep = {y.args[-1] if y.op == 'cat' else None for y in t.leaves(t.open_lam(s.args[1], x))}
        k = sep.pop() if len(sep) == 1 else None
        if k is not None and k.op == 'c' and k.args[0] == 'str' and len(k.args[1]) == 1:
            j = joined_but_last(s, t.add(t.length(s), t.cint(-1))) if len(k.args[1].encode()) == 1 else None
            if j is not None:
                ev.store(a[0], j)
                return t.some(t.c('char', k.args[1]))
    return NotImplemented


@m('VecDeque::pop_front')
def vec_pop_front(ev, ctx, a):
    return it_next(ev, ctx, a)


@m('Vec::len', '[T]::len', 'VecDeque::len', 'HashMap::len', 'HashSet::len', 'BTreeSet::len', 'str::len', 'String::len', 'BTreeMap::len')
def len_(ev, ctx, a):
    return t.length(ev.deref(a[0]))


@m('Vec::is_empty', '[T]::is_empty', 'VecDeque::is_empty', 'str::is_empty', 'String::is_empty', 'ExactSizeIterator::is_empty')
def is_empty(ev, ctx, a):
    return t.empty(ev.deref(a[0]))


@m('HashMap::is_empty', 'BTreeMap::is_empty')
def map_is_empty(ev, ctx, a):
    return t.mempty(ev.deref(a[0]))


@m('HashSet::is_empty', 'BTreeSet::is_empty')
def set_is_empty(ev, ctx, a):
    return t.empty(ev.deref(a[0]))


@m('[T]::first', 'VecDeque::front', '[T]::first_mut')
def first(ev, ctx, a):
    s = ev.deref(a[0])
    return t.NONE if ev.decide(t.empty(s)) else t.some(t.head(s))


@m('[T]::last', 'VecDeque::back')
def last(ev, ctx, a):
    s = ev.deref(a[0])
    return t.NONE if ev.decide(t.empty(s)) else t.some(t.last(s))


@m('[T]::split_first')
def split_first(ev, ctx, a):
    s = ev.deref(a[0])
    if ev.decide(t.empty(s)):
        return t.NONE
    return t.some(t.tup(t.head(s), t.tail(s)))


@m('[T]::get', 'Vec::get')
def slice_get(ev, ctx, a):
    s = ev.deref(a[0])
    i = a[1]
    if i is t.ZERO:
        return t.NONE if ev.decide(t.empty(s)) else t.some(t.head(s))
    if ev.decide(t.lt(i, t.length(s))):
        return t.some(t.nth(s, i))
    return t.NONE


@m('Vec::remove')
def vec_remove(ev, ctx, a):
    s = ev.deref(a[0])
    i = a[1]
    if i is t.ZERO:
        ev.store(a[0], t.tail(s))
        return t.head(s)
    ev.store(a[0], t.call('remove_at', s, i))
    return t.nth(s, i)


@m('Vec::swap_remove')
def vec_swap_remove(ev, ctx, a):
    s = ev.deref(a[0])
    ev.store(a[0], t.call('swap_remove_at', s, a[1]))
    return t.nth(s, a[1])


@m('Vec::drain', 'VecDeque::drain', 'String::drain')
def vec_drain(ev, ctx, a):
    s = ev.deref(a[0])
    r = a[1]
    if r.op == 'list' and all(x.op == 'c' for x in r.args):
        n = len(r.args)
        if [x.args[1] for x in r.args] == list(range(n)):
            ev.store(a[0], t.drop(s, t.cint(n)))
            return t.take(s, t.cint(n))
    if r.op == 'adt' and r.args[0].endswith('RangeFull'):
        ev.store(a[0], t.NIL)
        return s
    if r.op == 'adt' and r.args[0].endswith('RangeTo'):
        n = r.args[3]
        ev.store(a[0], t.drop(s, n))
        return t.take(s, n)
    ev.store(a[0], t.call('drain_rest', s, r))
    return t.call('drain', s, r)


@m('Vec::split_off')
def split_off(ev, ctx, a):
    s = ev.deref(a[0])
    ev.store(a[0], t.take(s, a[1]))
    return t.drop(s, a[1])


@m('Vec::clear', 'String::clear', 'VecDeque::clear')
def clear(ev, ctx, a):
    ev.store(a[0], t.NIL)
    return t.UNIT


@m('HashMap::clear')
def mclear(ev, ctx, a):
    ev.store(a[0], t.EMPTYMAP)
    return t.UNIT


@m('Vec::reserve', 'String::reserve', 'Vec::shrink_to_fit', 'HashMap::reserve', 'String::shrink_to_fit', 'VecDeque::reserve')
def nothing(ev, ctx, a):
    return t.UNIT


@m('Vec::retain')
def retain(ev, ctx, a):
    s = ev.deref(a[0])
    ev.store(a[0], t.fm(s, ev.lam(lambda x: t.lst(x) if ev.decide(ev.apply(a[1], [x])) else t.NIL)))
    return t.UNIT


@m('Vec::truncate', 'String::truncate')
def truncate(ev, ctx, a):
    s = ev.deref(a[0])
    ev.store(a[0], joined_but_last(s, a[1]) or t.take(s, a[1]))
    return t.UNIT


def joined_but_last(s, n):
    """a text of terminated parts without the last terminator: the parts, separated"""
    if s.op != 'fm' or n.op != 'add' or s.args[0].op != 'split':
        return None        # (splitting never gives an empty sequence)
    x = t.sym('x')
    b = t.open_lam(s.args[1], x)
    bs = list(t.leaves(b))
    sep = {y.args[-1] if y.op == 'cat' else None for y in bs}
    if len(sep) != 1 or None in sep:
        return None
    sep = sep.pop()
    if sep.op != 'c' or sep.args[0] != 'str' or t.add(n, t.length(sep)) not in (t.length(s), text_len(s)):
        return None

    def cut(y):
        return t.lst(t.cat(*y.args[:-1]))
    return t.joined(t.fm(s.args[0], t.lam(t.lift(b, cut), x)), sep)


def text_len(s):
    from . import text
    return text.slen(s)


@m('Ord::min', 'cmp::min')
def ord_min(ev, ctx, a):
    if re.match(r'^[iu](\d+|size)$', ctx.arg_ty(0)):
        return t.min_(a[0], a[1])
    return NotImplemented


@m('Vec::reverse', '[T]::reverse')
def reverse(ev, ctx, a):
    ev.store(a[0], t.rev(ev.deref(a[0])))
    return t.UNIT


@m('Index::index')
def index(ev, ctx, a):
    from .eval import head_ty
    s, i = ev.deref(a[0]), ev.deref(a[1])
    h = head_ty(ctx.arg_ty(0))
    if h == 'std::collections::HashMap':
        return t.get(s, i)
    return slice_index(s, i)


def slice_index(s, i):
    if i.op == 'adt':
        k = i.args[0].split('::')[-1]
        if k == 'RangeFrom':
            return t.drop(s, i.args[3])
        if k == 'RangeTo':
            return t.take(s, i.args[3])
        if k == 'RangeFull':
            return s
        return t.call('index', s, i)
    if i.op in ('range',):
        return t.call('slice', s, i.args[0], i.args[1])
    return t.nth(s, i)


@m('IndexMut::index_mut')
def index_mut(ev, ctx, a):
    i = ev.deref(a[1])
    if a[0].op == 'ptr':
        from .eval import head_ty
        if head_ty(ctx.arg_ty(0)) == 'std::collections::HashMap':
            return ev.sub_ptr(a[0], ('val', i))
        return ev.sub_ptr(a[0], ('nth', i))
    return t.nth(ev.deref(a[0]), i)


# ---------------------------------------------------------------- HashMap / HashSet
@m('HashMap::insert', 'BTreeMap::insert')
def map_insert(ev, ctx, a):
    mp = ev.deref(a[0])
    k = ev.deref(a[1])
    had = t.haskey(mp, k)
    ev.store(a[0], t.put(mp, k, a[2]))
    if had is t.FALSE:
        return t.NONE
    return t.ite(had, t.some(t.get(mp, k)), t.NONE)


@m('HashMap::get', 'BTreeMap::get')
def map_get(ev, ctx, a):
    mp, k = ev.deref(a[0]), ev.deref(a[1])
    if ev.decide(t.haskey(mp, k)):
        return t.some(t.get(mp, k))
    return t.NONE


@m('HashMap::get_mut')
def map_get_mut(ev, ctx, a):
    mp, k = ev.deref(a[0]), ev.deref(a[1])
    if ev.decide(t.haskey(mp, k)):
        return t.some(ev.sub_ptr(a[0], ('val', k)) if a[0].op == 'ptr' else t.get(mp, k))
    return t.NONE


@m('HashMap::contains_key')
def map_contains(ev, ctx, a):
    return t.haskey(ev.deref(a[0]), ev.deref(a[1]))


@m('HashMap::remove')
def map_remove(ev, ctx, a):
    mp, k = ev.deref(a[0]), ev.deref(a[1])
    if ev.decide(t.haskey(mp, k)):
        ev.store(a[0], t.call('without', mp, k))
        return t.some(t.get(mp, k))
    return t.NONE


ENTRY = 'std::collections::hash_map::Entry'


@m('HashMap::entry')
def map_entry(ev, ctx, a):
    mp, k = ev.deref(a[0]), ev.deref(a[1])
    e = mk('entry', a[0], k)
    if ev.decide(t.haskey(mp, k)):
        return mk('adt', ENTRY, 'Occupied', ('0',), e)
    return mk('adt', ENTRY, 'Vacant', ('0',), e)


def entry_of(ev, v):
    v = ev.deref(v)
    if v.op == 'adt':
        v = v.args[3]
    return v.args[0], v.args[1]


def entry_ptr(ev, mp, k):
    if mp.op == 'ptr':
        return ev.sub_ptr(mp, ('val', k))
    return t.get(mp, k)


@m('OccupiedEntry::get_mut', 'OccupiedEntry::into_mut')
def occ_get_mut(ev, ctx, a):
    mp, k = entry_of(ev, a[0])
    return entry_ptr(ev, mp, k)


@m('OccupiedEntry::get')
def occ_get(ev, ctx, a):
    mp, k = entry_of(ev, a[0])
    return t.get(ev.deref(mp), k)


@m('OccupiedEntry::insert')
def occ_insert(ev, ctx, a):
    mp, k = entry_of(ev, a[0])
    old = t.get(ev.deref(mp), k)
    ev.store(mp, t.put(ev.deref(mp), k, a[1]))
    return old


@m('OccupiedEntry::remove')
def occ_remove(ev, ctx, a):
    mp, k = entry_of(ev, a[0])
    cur = ev.deref(mp)
    ev.store(mp, t.call('without', cur, k))
    return t.get(cur, k)


@m('OccupiedEntry::key', 'VacantEntry::key', 'Entry::key', 'VacantEntry::into_key')
def occ_key(ev, ctx, a):
    return entry_of(ev, a[0])[1]


@m('VacantEntry::insert', 'Entry::insert_entry')
def vac_insert(ev, ctx, a):
    mp, k = entry_of(ev, a[0])
    ev.store(mp, t.put(ev.deref(mp), k, a[1]))
    return entry_ptr(ev, mp, k)


def or_insert(ev, v, mkval):
    v = ev.deref(v)
    mp, k = entry_of(ev, v)
    if v.args[1] == 'Vacant':
        ev.store(mp, t.put(ev.deref(mp), k, mkval()))
    return entry_ptr(ev, mp, k)


@m('Entry::or_insert')
def e_or_insert(ev, ctx, a):
    return or_insert(ev, a[0], lambda: a[1])


@m('Entry::or_insert_with')
def e_or_insert_with(ev, ctx, a):
    return or_insert(ev, a[0], lambda: ev.apply(a[1], []))


@m('Entry::or_default')
def e_or_default(ev, ctx, a):
    from .eval import ty_args
    return or_insert(ev, a[0], lambda: default_of(ev, ty_args(ctx.arg_ty(0))[1]))


@m('Entry::and_modify')
def e_and_modify(ev, ctx, a):
    v = ev.deref(a[0])
    mp, k = entry_of(ev, v)
    if v.args[1] == 'Occupied':
        ev.apply(a[1], [entry_ptr(ev, mp, k)])
    return v


@m('HashSet::insert', 'BTreeSet::insert')
def set_insert(ev, ctx, a):
    s = ev.deref(a[0])
    k = ev.deref(a[1])
    new = t.nnot(inset(s, k))
    ev.store(a[0], t.setext(s, t.lst(k)))
    return new


def inset(s, k):
    if s.op == 'toset' and s.args[0] is t.NIL:
        return t.FALSE
    if s.op == 'setadd' and s.args[1] is k:
        return t.TRUE
    return mk('inset', s, k)


@m('HashSet::contains', 'BTreeSet::contains')
def set_contains(ev, ctx, a):
    return inset(ev.deref(a[0]), ev.deref(a[1]))


# ---------------------------------------------------------------- memory
@m('mem::take')
def mem_take(ev, ctx, a):
    v = ev.deref(a[0])
    ev.store(a[0], default_of(ev, ctx.dt))
    return v


@m('mem::replace')
def mem_replace(ev, ctx, a):
    v = ev.deref(a[0])
    ev.store(a[0], a[1])
    return v


@m('mem::swap')
def mem_swap(ev, ctx, a):
    x, y = ev.deref(a[0]), ev.deref(a[1])
    ev.store(a[0], y)
    ev.store(a[1], x)
    return t.UNIT


@m('mem::drop', 'mem::forget')
def mem_drop(ev, ctx, a):
    return t.UNIT


@m('take_mut::take')
def take_mut(ev, ctx, a):
    v = ev.deref(a[0])
    ev.store(a[0], ev.apply(a[1], [v]))
    return t.UNIT


@m('Box::new_uninit')
def new_uninit(ev, ctx, a):
    return ev.ptr(ev.new_cell(None))


@m('boxed::box_assume_init_into_vec_unsafe', 'Box::assume_init')
def box_vec(ev, ctx, a):
    return ev.deref(a[0])


# ---------------------------------------------------------------- closures
@m('FnOnce::call_once', 'FnMut::call_mut', 'Fn::call')
def call_fn(ev, ctx, a):
    f = ev.deref(a[0])
    args = a[1]
    if args.op == 'tup':
        args = list(args.args)
    elif args is t.UNIT:
        args = []
    elif args.op == 'c':
        args = []
    else:
        
        from .eval import ty_args
        k = len(ty_args(ctx.arg_ty(1)))
        args = [t.f(args, str(i), 'tup') for i in range(k)]
    return ev.apply(f, args)


# ---------------------------------------------------------------- strings
@m('str::split')
def str_split(ev, ctx, a):
    return mk('split', ev.deref(a[0]), pattern(ev.value_arg(a[1])))


def pattern(p):
    """a character searched for is the text of that character"""
    return t.cstr(p.args[1]) if p.op == 'c' and p.args[0] == 'char' else p



@m('str::chars')
def str_chars(ev, ctx, a):
    return mk('chars', ev.deref(a[0]))


@m('str::bytes')
def str_bytes(ev, ctx, a):
    return mk('bytes', ev.deref(a[0]))


@m('str::char_indices')
def str_char_indices(ev, ctx, a):
    return mk('char_indices', ev.deref(a[0]))


@m('str::parse')
def str_parse(ev, ctx, a):
    from .eval import norm_ty, head_ty, npath
    ty = ctx.targ(0)
    h = head_ty(ty)
    if h in ev.prog.adts:
        for b in ev.prog.bodies.values():
            if b.j.get('self_adt') == h and npath(b.j.get('trait') or '').endswith('FromStr'):
                if b.id not in ev.stack:
                    return ev.run_body(b, [ev.deref(a[0])])
    return t.call('parse:' + norm_ty(ty), ev.deref(a[0]))


@m('FromStr::from_str')
def from_str(ev, ctx, a):
    from .eval import norm_ty
    return t.call('parse:' + norm_ty(ctx.targ(0)), ev.deref(a[0]))


@m('slice::join', '[T]::join')
def join(ev, ctx, a):
    return t.joined(ev.deref(a[0]), ev.deref(a[1]))


@m('str::trim_start_matches', 'str::trim_matches', 'str::trim_left_matches', 'str::trim_end_matches', 'str::starts_with', 'str::ends_with',
   'str::contains', 'str::strip_prefix')
def str_pat(ev, ctx, a):
    n = ctx.name.split('::')[-1].replace('trim_left_', 'trim_start_')
    x, p = ev.deref(a[0]), pattern(ev.value_arg(a[1]))
    if n == 'starts_with' and x in ev.int_text and p is t.cstr('-'):
        return t.lt(x.args[1], t.ZERO)      # the text of an integer
    if n == 'contains' and ctx.arg_ty(1) == 'char' and x.op == 'c' and x.args[0] == 'str':
        r = t.FALSE
        for k in reversed(x.args[1]):
            r = t.bor(t.eq(p, t.c('char', k)), r)
        return r
    return t.call('str::' + n, x, p)


# ---------------------------------------------------------------- formatting: only which values are shown matters
@m('Argument::new_display', 'Argument::new_debug', 'Argument::new_lower_hex', 'Argument::new_upper_hex')
def fmt_arg(ev, ctx, a):
    return t.call('shown:' + ctx.name.split('_', 1)[-1], ev.deref(a[0]))


@m('Arguments::new', 'Arguments::new_v1', 'Arguments::new_v1_formatted', 'Arguments::from_str', 'Arguments::new_const',
   'Arguments::from_str_nonconst')
def fmt_args(ev, ctx, a):
    return t.call('text', *[ev.deref(x) for x in a])


@m('fmt::format')
def fmt_format(ev, ctx, a):
    return a[0]


@m('char::to_string')
def char_to_string(ev, ctx, a):
    return t.charstr(ev.deref(a[0]))


@m('Hash::hash')
def hash_(ev, ctx, a):
    """text and bytes share terms but hash differently (length prefix instead of a terminator)"""
    from .eval import head_ty
    if head_ty(ctx.arg_ty(0)) in ('[]', 'std::vec::Vec') or re.match(r"^(&('[\w#]+ )?)*\[", ctx.arg_ty(0)):
        v = ev.deref(a[0])
        from_text = re.search(r'\bu8\b', ctx.arg_ty(0))
        if from_text:
            return ev.opaque('Hash::hash[bytes]', a)
    return NotImplemented
