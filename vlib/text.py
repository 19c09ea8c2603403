"""Terms for positions in a text (suffixes of the parsed input).

    skip(s, n)   s without its first n bytes         aft(s, cls)  s without its longest prefix of characters in cls
    upto(s, r)   the part of s before its suffix r   offs(s, r)   length of that part
    slen(s)      length of s                         starts(s, L) s starts with the literal L
    nospan(s, cls)  the first character of s is not in cls (or s is empty)
    itend(loop, init.., i) / itseq(loop, init.., j)  final state / collected items of a loop

Every position is a suffix of the one it was computed from, so lengths are compared by comparing positions.
"""
from . import terms as t
from .terms import mk

# operations whose result position is strictly shorter than their argument whenever they succeed (set by vlib/gram.py)
CONSUMING = set()
# loops whose single state is a position that only moves forward (set by vlib/gram.py)
ADVANCING = set()
PURETEXT = set()


def blen(lit):
    return len(lit.args[1].encode())


def skip(s, n):
    if n is t.ZERO:
        return s
    if n.op == 'case':
        return t.case(n.args[0], n.args[1], [skip(s, b) for b in n.args[2:]])
    if s.op == 'case':
        return t.case(s.args[0], s.args[1], [skip(b, n) for b in s.args[2:]])
    if n.op == 'dead' or s.op == 'dead':
        return t.DEAD
    if n.op == 'slen':
        if n.args[0] is s:
            return t.NIL
    if n.op == 'offs' and n.args[0] is s:
        return n.args[1]
    if n.op == 'add':
        for i, x in enumerate(n.args):
            if x.op == 'offs' and x.args[0] is s:
                return skip(x.args[1], t.add(*(n.args[:i] + n.args[i + 1:])))
            if x.op == 'offs' and x.args[0].op == 'skip' and x.args[0].args[0] is s and len(n.args) == 2 and \
                    n.args[1 - i].op == 'c' and x.args[0].args[1].op == 'c' and n.args[1 - i].args[1] >= x.args[0].args[1].args[1]:
                return skip(x.args[1], t.cint(n.args[1 - i].args[1] - x.args[0].args[1].args[1]))
    if s.op == 'skip':
        return skip(s.args[0], t.add(s.args[1], n))
    if n.op == 'c' and s.op == 'c' and s.args[0] == 'str':
        b = s.args[1].encode()
        k = n.args[1]
        try:
            return t.cstr(b[k:].decode()) if k < len(b) else t.NIL
        except UnicodeDecodeError:
            pass
    return mk('skip', s, n)


def aft(s, cls):
    if s is t.NIL:
        return t.NIL
    if s.op == 'case':
        return t.case(s.args[0], s.args[1], [aft(b, cls) for b in s.args[2:]])
    if s.op == 'aft' and s.args[1] is cls:
        return s
    return mk('aft', s, cls)


def upto(s, r):
    if r is s:
        return t.NIL
    if r is t.NIL:
        return s
    for i, x in enumerate((s, r)):
        if x.op == 'case':
            return t.case(x.args[0], x.args[1], [upto(b, r) if i == 0 else upto(s, b) for b in x.args[2:]])
        if x.op == 'dead':
            return x
    return mk('upto', s, r)


# skippers: operations that skip what they can and never fail; later ones subsume what earlier ones skip
SKIPPERS = {}


def ws(name, s):
    if s is t.NIL:
        return s
    if s.op == 'case':
        return t.case(s.args[0], s.args[1], [ws(name, b) for b in s.args[2:]])
    if s.op == 'dead':
        return s
    if s.op == 'ws':
        if s.args[0] == name:
            return s
        if s.args[0] in SKIPPERS.get(name, ()):
            return ws(name, s.args[1])
    return mk('ws', name, s)


def offs(s, r):
    if r is s:
        return t.ZERO
    if r.op == 'case':
        return t.case(r.args[0], r.args[1], [offs(s, b) for b in r.args[2:]])
    if r.op == 'skip' and r.args[0] is s:
        return r.args[1]
    if r is t.NIL:
        return slen(s)
    d = dist(s, r)
    if d is not None:
        return t.cint(d)
    return mk('offs', s, r)


def dist(s, r):
    """constant distance from s to r"""
    def split(x):
        if x.op == 'skip' and x.args[1].op == 'c':
            return x.args[0], x.args[1].args[1]
        return x, 0
    (a, m), (b, n) = split(s), split(r)
    if a is b and n >= m:
        return n - m
    return None


def slen(s):
    if s is t.NIL:
        return t.ZERO
    if s.op == 'c' and s.args[0] == 'str':
        return t.cint(blen(s))
    if s.op == 'case':
        return t.case(s.args[0], s.args[1], [slen(b) for b in s.args[2:]])
    if s.op == 'upto':
        return offs(*s.args)
    return mk('slen', s)


def hook_sub(a, b):
    if a.op == 'slen' and b.op == 'slen' and descends(b.args[0], a.args[0]):
        return offs(a.args[0], b.args[0])
    return None


def descends(r, s):
    q = r
    while q is not None:
        if q is s:
            return True
        q = parent(q)
    return False


def starts(s, lit):
    if s is t.NIL:
        return t.FALSE
    if s.op == 'c' and s.args[0] == 'str':
        return t.cbool(s.args[1].startswith(lit.args[1]))
    if s.op == 'case':
        return t.case(s.args[0], s.args[1], [starts(b, lit) for b in s.args[2:]])
    if s.op == 'find' and s.args[1].args[1].startswith(lit.args[1]):
        return t.TRUE
    return mk('starts', s, lit)


def nospan(s, cls):
    if s is t.NIL:
        return t.TRUE
    if s.op == 'c' and s.args[0] == 'str':
        r = t.open_lam(cls, t.c('char', s.args[1][0]))
        if r in (t.TRUE, t.FALSE):
            return t.nnot(r)
    if s.op == 'aft' and s.args[1] is cls:
        return t.TRUE
    return mk('nospan', s, cls)


def parent(r):
    """the position a position was computed from"""
    if r.op in ('skip', 'aft', 'find'):
        return r.args[0]
    if r.op == 'ws':
        return r.args[1]
    if r.op == 'f' and r.args[1] == '0' and r.args[0].op == 'vf' and r.args[0].args[1] == 'Ok':
        k = r.args[0].args[0]
        if k.op == 'call' and len(k.args) > 1:
            return k.args[1]
    if r.op == 'itend' and r.args[1] in ADVANCING:
        return r.args[0]
    return None


def strict(r):
    if r.op == 'skip':
        return r.args[1].op == 'c'
    if r.op == 'f':
        return r.args[0].args[0].args[0] in CONSUMING
    return False


def step_null(r):
    """r is the position it was computed from"""
    if r.op == 'aft':
        return nospan(*r.args)
    p = parent(r)
    a, b = (r, p) if t.sortkey(r) <= t.sortkey(p) else (p, r)
    return mk('eq', a, b)


def eqpos(a, b):
    """equality of two positions, or None"""
    for x, y in ((a, b), (b, a)):
        steps = []
        q = x
        while q is not None and q is not y:
            steps.append(q)
            q = parent(q)
        if q is y and steps:
            if any(strict(z) for z in steps):
                return t.FALSE
            if steps == [x] and x.op != 'aft':
                return None
            r = t.TRUE
            for z in steps:
                r = t.band(step_null(z), r)
            return r
    return None


def hook_eq(a, b):
    for x, y in ((a, b), (b, a)):
        if x.op == 'offs' and y is t.ZERO:
            return t.eq(x.args[1], x.args[0])
        if x.op == 'slen':
            if y is t.ZERO:
                return t.empty(x.args[0])
            if y.op == 'slen':
                r = eqpos(x.args[0], y.args[0])
                if r is not None:
                    return r
                if related(x.args[0], y.args[0]):
                    return t.eq(x.args[0], y.args[0])
        if x.op == 'head' and x.args[0].op == 'chars' and y.op == 'c' and y.args[0] == 'char':
            return starts(x.args[0].args[0], t.cstr(y.args[1]))
        if x.op == 'upto' and y.op == 'c' and y.args[0] == 'str' and x.args[1].op == 'skip' and x.args[1].args[0] is x.args[0] and \
                x.args[1].args[1] is t.call('len_utf8', t.head(mk('chars', x.args[0]))):
            # the text of the first character
            return starts(x.args[0], y) if len(y.args[1]) == 1 else t.FALSE
        if x is t.NIL or (x.op == 'c' and x.args == ('str', '')):
            if y.op in ('upto', 'skip', 'aft'):
                return t.empty(y)
    if a.op in POS or b.op in POS:
        r = eqpos(a, b)
        if r is not None:
            return r
    return None


POS = ('skip', 'aft', 'find', 'f', 'itend', 'ws')


def related(a, b):
    for x, y in ((a, b), (b, a)):
        q = x
        while q is not None:
            if q is y:
                return True
            q = parent(q)
    return False


def hook_lt(a, b):
    if b.op == 'offs' and a is t.ZERO:
        return t.nnot(t.eq(b.args[1], b.args[0]))
    if a.op == 'offs' and b.op == 'c':
        if b.args[1] <= 0:
            return t.FALSE
        return t.nnot(t.lt(t.cint(b.args[1] - 1), a))
    if a.op == 'slen' and b.op == 'slen':
        if descends(b.args[0], a.args[0]):
            return t.FALSE
        if descends(a.args[0], b.args[0]):
            return t.nnot(t.eq(b, a))
    if b.op == 'slen':
        return t.nnot(t.empty(skip(b.args[0], a)))
    if a.op == 'slen' and b is t.ONE:
        return t.empty(a.args[0])
    if a.op == 'slen' and b is t.ZERO:
        return t.FALSE
    return None


def hook_empty(s):
    if s.op == 'chars':
        return t.empty(s.args[0])
    if s.op == 'upto':
        return t.eq(s.args[1], s.args[0])
    return None


def hook_head(s):
    if s.op == 'chars':
        x = s.args[0]
        if x.op == 'upto':
            return t.head(mk('chars', x.args[0]))
        if x.op == 'c' and x.args[0] == 'str' and x.args[1]:
            return t.c('char', x.args[1][0])
        if x.op == 'case':
            return t.case(x.args[0], x.args[1], [t.head(mk('chars', b)) for b in x.args[2:]])
    return None


def hook_length(s):
    if s.op == 'until' and s.args[0].op in ('bytes', 'chars'):
        k = run_class(s.args[1], s.args[0].op == 'bytes')
        if k is not None:
            return offs(s.args[0].args[0], aft(s.args[0].args[0], k))
    return None


def hook_trim(r, i=None):
    """what is left of a text after removing a leading character up to n times"""
    from . import gram
    s, init, l = r.args
    if s.op in ('bytes', 'chars') and init is t.ZERO:
        return counted_run(s, l, i)
    if s.op != 'range' or s.args[0] is not t.ZERO:
        return None
    a, e = t.sym(), t.sym()
    b = t.open_lam(l, t.tup(a, e))
    if b.op != 'case' or b.args[0].op != 'starts' or b.args[0].args[0] is not a:
        return None
    k = b.args[0].args[1].args[1]
    go = dict(zip(b.args[1], b.args[2:]))
    y, n = go.get(True), go.get(False)
    if len(k) != 1 or ord(k) > 127 or y is not mk('cont', skip(a, t.ONE)) or n is None or n.op != 'brk' or \
            i is not None and n.args[i:i + 1] != (a,):
        return None
    c = t.sym('c')
    cls = gram.canon(t.lam(t.eq(c, t.c('char', k)), c))
    return skip(init, t.min_(s.args[1], offs(init, aft(init, cls))))


def counted_run(s, l, i):
    """counting the leading characters of a class, up to n of them"""
    a, e = t.sym(), t.sym()
    b = t.open_lam(l, t.tup(a, e))
    for y in t.leaves(b):
        if y.op == 'cont':
            if y is not mk('cont', t.add(a, t.ONE)):
                return None
        elif y.op != 'brk' or i is not None and y.args[i:i + 1] != (a,):
            return None
    ats = {x for x in t.subterms(b) if x.op in ('eq', 'lt') and t.occurs(x, a)}
    lims = {([y for y in x.args if y is not a] or [None])[0] for x in ats if x.op == 'eq' or x.args[0] is a}
    if len(lims) > 1 or len(ats) != len([x for x in ats if x.op == 'eq' or x.args[0] is a]):
        return None
    n = lims.pop() if lims else None
    if n is not None:
        if t.occurs(n, a) or t.occurs(n, e):
            return None
        if any(y.op != 'brk' for y in t.leaves(t.subst(b, {x: t.cbool(x.op == 'eq') for x in ats}))):
            return None
        b = t.subst(b, {x: t.cbool(x.op == 'lt') for x in ats})
    stop = t.lift(b, lambda y: t.cbool(y.op == 'brk'))
    if t.occurs(stop, a):
        return None
    k = run_class(t.lam(stop, e), s.op == 'bytes')
    if k is None:
        return None
    x = s.args[0]
    run = offs(x, aft(x, k))
    return run if n is None else t.min_(n, run)


def first_unlike(s, l):
    """the text, the class and the limit of a search for the first position below n at which the text does not continue a run"""
    if s.op != 'range' or s.args[0] is not t.ZERO:
        return None
    from . import gram
    i = t.sym()
    b = t.open_lam(l, i)
    b = b.args[0] if b.op == 'not' else None
    if b is None or b.op != 'starts' or len(b.args[1].args[1]) != 1 or ord(b.args[1].args[1]) > 127:
        return None
    x = b.args[0]
    if x.op != 'skip' or x.args[1] is not i or t.occurs(x.args[0], i) or t.occurs(s.args[1], i):
        return None
    c = t.sym('c')
    cls = gram.canon(t.lam(t.eq(c, t.c('char', b.args[1].args[1])), c))
    return offs(x.args[0], aft(x.args[0], cls)), s.args[1]


def hook_any(s, l):
    r = first_unlike(s, l)
    return None if r is None else t.lt(r[0], r[1])


def hook_first(s):
    """the first element of a search"""
    if s.op == 'fm' and s.args[0].op == 'range':
        i = t.sym()
        b = t.open_lam(s.args[1], i)
        ls = {y.op if y is not t.lst(i) else 'found' for y in t.leaves(b)}
        if ls <= {'found', 'list'} and all(y is t.NIL or y is t.lst(i) for y in t.leaves(b)):
            r = first_unlike(s.args[0], t.lam(t.lift(b, lambda y: t.cbool(y is not t.NIL)), i))
            if r is not None:
                return r[0]
    return None


def run_class(stop, byte):
    """the class of ASCII characters whose leading run ends where `stop` holds"""
    from . import gram
    x = t.sym('c')
    b = t.open_lam(stop, x)
    if byte:
        m = {}
        for y in t.subterms(b):
            if y.op == 'c' and y.args[0] == 'int':
                if not 0 <= y.args[1] < 128:
                    return None
                m[y] = t.c('char', chr(y.args[1]))
            elif y.op not in ('s', 'eq', 'not', 'case', 'c', 'lam', 'bv'):
                return None
        b = t.subst(b, m)
    k = gram.canon(t.lam(t.nnot(b), x))
    return k if gram.ascii_only(k) else None


t.REBUILD.update({
    'skip': lambda a: skip(*a),
    'aft': lambda a: aft(*a),
    'ws': lambda a: ws(*a),
    'upto': lambda a: upto(*a),
    'offs': lambda a: offs(*a),
    'slen': lambda a: slen(*a),
    'starts': lambda a: starts(*a),
    'nospan': lambda a: nospan(*a),
})
t.HOOKS.update(length=hook_length, sub=hook_sub, eq=hook_eq, lt=hook_lt, empty=hook_empty, head=hook_head, trim=hook_trim, any=hook_any, first=hook_first)
