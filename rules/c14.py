"""C14: equality, hashing and borrowing agree."""
from vlib import terms as t
from vlib import eval as E

EXPLANATION = ('Value-flow normal forms of every PartialEq, Hash, Borrow<str>, Deref and string comparison of the crate, derived or '
               'hand written. Keys and block labels: equality is equality of their text, the hash is the hash of their text, and '
               'borrowing, dereferencing and comparing with a string use the same text, whichever variant holds it. Every other type: '
               'equality holds exactly when the variants are the same and every field is equal, and a hash reads nothing but those '
               'fields. A type with its own notion of equality must not hash by its fields.')
TECHNIQUE = 'value-flow normal forms of equality/hash/borrow compared with each other'
LEVEL_NOTE = 'All implementations and all pairs of variants; equality and hash of std types are trusted. Numbers: equality is C15.'
TEXT = {'Key', 'BlockLabel'}
LABEL = {'Key': 'parser::literals::key::Key', 'BlockLabel': 'parser::block::BlockLabel',
         'ObjectElementIdentifier': 'parser::object::ObjectElementIdentifier'}
OWN = {'parser::number::Number'}


def text(S, x, adt):
    """the text of a key-like value, whichever variant holds it"""
    return S.vf(x, adt, S.variant(x, adt))


def run(ctx):
    prog = ctx.prog
    lib = [p for p in prog.adts]
    n = 0
    for p in sorted(lib):
        short = p.split('::')[-1]
        eqs = [b for b in prog.methods.get((p, 'std::cmp::PartialEq', 'eq'), [])]
        if not eqs:
            continue
        for b in eqs:
            ta = [E.head_ty(E.norm_ty(x)) for x in b.j.get('trait_args') or []]
            with_self = len(ta) < 2 or ta[1] == p
            key = '%s == %s' % (short, short if with_self else 'string')
            n += 1
            if not with_self:
                ctx.equiv(b, lambda S, x, y, p=p: string_eq(S, x, y, p), key=key)
            elif p in LABEL.values() and short in TEXT:
                ctx.equiv(b, lambda S, x, y, p=p: t.eq(text(S, x, p), text(S, y, p)), key=key)
            elif p not in OWN:
                ctx.equiv(b, lambda S, x, y, p=p: structural(S, x, y, p), key=key, names=['self', 'other'])
        for b in prog.methods.get((p, 'std::cmp::PartialEq', 'ne'), []):
            ta = [E.head_ty(E.norm_ty(x)) for x in b.j.get('trait_args') or []]
            with_self = len(ta) < 2 or ta[1] == p
            key = '%s != %s' % (short, short if with_self else 'string')
            if not with_self:
                ctx.equiv(b, lambda S, x, y, p=p: t.nnot(string_eq(S, x, y, p)), key=key)
            elif p in LABEL.values() and short in TEXT:
                ctx.equiv(b, lambda S, x, y, p=p: t.nnot(t.eq(text(S, x, p), text(S, y, p))), key=key)
            elif p in OWN:
                ctx.equiv(b, lambda S, x, y, eqs=eqs: t.nnot(S.call(eqs[0], x, y)), key=key, opaque=eqs)
            else:
                ctx.equiv(b, lambda S, x, y, p=p: t.nnot(structural(S, x, y, p)), key=key, names=['self', 'other'])
        for b in prog.methods.get((p, 'std::hash::Hash', 'hash_slice'), []):
            ctx.bad('hash of a slice of ' + short, 'hashed in a way of its own: %s' % (b.j['path'],))
        for b in prog.methods.get((p, 'std::hash::Hash', 'hash'), []):
            n += 1
            key = 'hash of ' + short
            if p in LABEL.values():
                ctx.equiv(b, lambda S, x, st, p=p: (None, {'state': S.call('Hash::hash@1', text(S, x, p), st)}), key=key,
                          names=['self', 'state'])
            elif p in OWN:
                own_hash(ctx, b, p, key)
            else:
                ctx.guard(key, lambda: field_hash(ctx, b, p, key))
    for short, p in sorted(LABEL.items()):
        for tr, nm in (('Borrow', 'borrow'), ('Deref', 'deref'), ('AsRef', 'as_ref'), (None, 'as_str'), (None, 'as_cow'), (None, 'unwrap')):
            for b in ctx.bodies(adt=short, trait=tr, name=nm):
                if short == 'ObjectElementIdentifier' and nm == 'as_str':
                    continue        # documented as unfinished for expressions
                n += 1
                ctx.equiv(b, lambda S, x, p=p: text(S, x, p), key='%s::%s' % (short, nm))
        if not ctx.bodies(adt=short, trait='Borrow', name='borrow'):
            ctx.bad(short + '::borrow', 'no longer borrows as str')
    ctx.floor(n, 30, 'implementations')


def string_eq(S, x, y, p):
    v = S.variant(x, p)
    if p.endswith('ObjectElementIdentifier') and v == 'Expression':
        return t.FALSE      # the text of an expression is not its value
    return t.eq(S.vf(x, p, v), y)


def structural(S, x, y, p):
    a = S.prog.adts[p]
    if len(a['variants']) == 1 and a['kind'] == 'struct':
        v = a['variants'][0]
    else:
        vx, vy = S.variant(x, p), S.variant(y, p)
        if vx != vy:
            return t.FALSE
        v = next(z for z in a['variants'] if z['name'] == vx)
    for f in v['fields']:
        if a['kind'] == 'struct':
            l, r = S.f(x, p, f['name']), S.f(y, p, f['name'])
        else:
            l, r = S.vf(x, p, v['name'], f['name']), S.vf(y, p, v['name'], f['name'])
        if f['ty'] in ('f64', 'f32'):
            e = t.call('f:Eq', *sorted((l, r), key=t.sortkey))
        else:
            e = t.eq(l, r)
        if not S.decide(e):
            return t.FALSE
    return t.TRUE


def field_hash(ctx, b, p, key):
    """the hasher only ever receives parts of the value"""
    if b.j.get('derived'):
        ctx.ok(key, 'derived')
        return
    ev = ctx.ev()
    ps = ev.summary(b, ['self', 'state'])
    ctx.note(ev, ps)
    for q in ps:
        v = (q.out or {}).get('state')
        while v is not None and v.op == 'call' and v.args[0] == 'Hash::hash@1':
            for x in t.subterms(v.args[1]):
                if x.op in ('call', 'sym'):
                    ctx.bad(key, 'hashes %s' % t.show(v.args[1])[:80])
                    return
            v = v.args[2]
        if q.kind != 'ok' or v is not t.param('state'):
            ctx.bad(key, 'does not only hash the parts of the value: %s' % t.show(v)[:120])
            return
    ctx.ok(key, '%d paths' % len(ps))


def own_hash(ctx, b, p, key):
    if b.j.get('derived'):
        ctx.bad(key, '%s hashes its fields (derived) but compares by value: equal values such as 1.0 and 1.00 hash differently' % p)
    else:
        ctx.bad(key, 'hash of a type with its own equality is not specified')
