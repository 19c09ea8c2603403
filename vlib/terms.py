"""Hash-consed value terms with algebraic normal forms.

A term denotes the value a piece of code produces, as a function of its
parameters.  Content-preserving operations (borrow, deref, clone, to_owned ...)
are erased when terms are built, containers are described by a small sequence
algebra (list / cat / fm = flat-map), so that a loop that pushes and an
iterator chain that collects build the same term.
Binders use maximal-height naming, so alpha-equivalent terms are identical.
"""
import itertools

_table = {}
_fresh = itertools.count(1)


class T:
    __slots__ = ('op', 'args', 'size', 'bh', 'syms', 'key', '__weakref__')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return id(self) >> 4

    def __eq__(self, o):
        return self is o


_EMPTY = frozenset()


def mk(op, *args):
    k = (op, args)
    t = _table.get(k)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        size = 1
        bh = 0
        syms = _EMPTY
        for a in args:
            if type(a) is T:
                size += a.size
                if a.bh > bh:
                    bh = a.bh
                if a.syms:
                    syms = syms | a.syms if syms else a.syms
            elif type(a) is tuple:
                for b in a:
                    if type(b) is T:
                        size += b.size
                        if b.bh > bh:
                            bh = b.bh
                        if b.syms:
                            syms = syms | b.syms if syms else b.syms
                    elif type(b) is tuple:
                        for c_ in b:
                            if type(c_) is T:
                                size += c_.size
                                bh = max(bh, c_.bh)
                                if c_.syms:
                                    syms = syms | c_.syms if syms else c_.syms
        if op == 'lam':
            bh = args[0]
        elif op == 's':
            syms = frozenset([t_id(args)])
        t.size = size
        t.bh = bh
        t.syms = syms
        t.key = None
        _table[k] = t
    return t


def t_id(args):
    return args


def sortkey(t):
    """structural total order, independent of creation order for closed terms"""
    if t.key is None:
        t.key = (t.size, _flat(t))
    return t.key


def _flat(x):
    if type(x) is T:
        return '(' + x.op + ' ' + ' '.join(_flat(a) for a in x.args) + ')'
    if type(x) is tuple:
        return '[' + ' '.join(_flat(a) for a in x) + ']'
    return repr(x)


# ---------------------------------------------------------------- leaves
def sym(name='x'):
    return mk('s', name, next(_fresh))


def param(name):
    return mk('p', name)


def c(kind, v):
    return mk('c', kind, v)


NIL = mk('list')
TRUE = c('bool', True)
FALSE = c('bool', False)
UNIT = c('unit', ())


def cbool(b):
    return TRUE if b else FALSE


def cint(n):
    return c('int', n)


def cstr(s):
    return c('str', s) if s else NIL


ZERO = cint(0)
ONE = cint(1)


def is_const(t):
    return t.op == 'c'


# ---------------------------------------------------------------- products / sums
# extra simplifications of text positions (vlib/text.py, only loaded by the grammar checks)
HOOKS = {}

OPTION = 'Option'
RESULT = 'Result'
FLOW = 'ControlFlow'


def adt(path, variant, fields):
    """fields: list of (name, term) in declaration order"""
    names = tuple(n for n, _ in fields)
    vals = tuple(v for _, v in fields)
    if vals:
        v0 = vals[0]
        # eta: rebuilding a value from all of its own fields is that value
        if v0.op == 'vf' and v0.args[1] == variant and v0.args[2] == names[0] and v0.args[3] == path:
            base = v0.args[0]
            if all(v.op == 'vf' and v.args[0] is base and v.args[1] == variant and v.args[2] == n
                   for n, v in fields):
                return base
        if v0.op == 'f' and v0.args[1] == names[0] and v0.args[2] == path:
            base = v0.args[0]
            if all(v.op == 'f' and v.args[0] is base and v.args[1] == n for n, v in fields):
                return base
    return mk('adt', path, variant, names, *vals)


def some(t):
    return adt(OPTION, 'Some', [('0', t)])


NONE = mk('adt', OPTION, 'None', ())


def ok(t):
    return adt(RESULT, 'Ok', [('0', t)])


def err(t):
    return adt(RESULT, 'Err', [('0', t)])


def tup(*ts):
    if len(ts) == 0:
        return UNIT
    t0 = ts[0]
    if len(ts) >= 2 and t0.op == 'f' and t0.args[1] == '0' and t0.args[2] == 'tup':
        base = t0.args[0]
        if all(t.op == 'f' and t.args[0] is base and t.args[1] == str(i) for i, t in enumerate(ts)):
            return base
    return mk('tup', *ts)


def f(t, name, adtp):
    """field `name` of a struct (adtp = path) or tuple (adtp = 'tupN')"""
    if t.op == 'adt':
        if name in t.args[2]:
            return t.args[3 + t.args[2].index(name)]
    elif t.op == 'tup':
        return t.args[int(name)]
    elif t.op == 'case':
        return case(t.args[0], t.args[1], [f(b, name, adtp) for b in t.args[2:]])
    elif t.op == 'setf':
        if t.args[1] == name:
            return t.args[3]
        return f(t.args[0], name, adtp)
    elif t.op in ('panic', 'dead'):
        return t
    return mk('f', t, name, adtp)


def setf(t, name, adtp, v):
    if t.op == 'tup':
        a = list(t.args)
        a[int(name)] = v
        return tup(*a)
    if t.op == 'adt':
        names = t.args[2]
        vals = list(t.args[3:])
        vals[names.index(name)] = v
        return adt(t.args[0], t.args[1], list(zip(names, vals)))
    if v.op == 'f' and v.args[0] is t and v.args[1] == name:
        return t
    return mk('setf', t, name, adtp, v)


def vf(t, variant, name, adtp):
    if t.op == 'adt':
        if t.args[1] == variant and name in t.args[2]:
            return t.args[3 + t.args[2].index(name)]
        return mk('dead')
    if t.op == 'case':
        if t.args[0].op == 'variant' and False:
            pass
        return case(t.args[0], t.args[1], [vf(b, variant, name, adtp) for b in t.args[2:]])
    if t.op in ('panic', 'dead'):
        return t
    return mk('vf', t, variant, name, adtp)


DEAD = mk('dead')


# ---------------------------------------------------------------- case trees
def case(atom, vals, branches):
    """decision on `atom`; canonical: ordered atoms, no redundant tests"""
    vb = [(v, b) for v, b in zip(vals, branches) if b is not DEAD]
    if atom.op == 'variant':
        vb = [(v, b) for v, b in vb if not contradicts(b, atom.args[0], v)]
    if not vb:
        return DEAD
    if len(vb) == 1:
        return vb[0][1]
    first = vb[0][1]
    if all(b is first for _, b in vb):
        return first
    # ordering: smallest atom on top
    k = sortkey(atom)
    small = None
    for _, b in vb:
        if b.op == 'case':
            a2 = b.args[0]
            if a2 is atom:
                small = atom
                break
            if sortkey(a2) < k and (small is None or sortkey(a2) < sortkey(small)):
                small = a2
    if small is not None:
        if small is atom:
            vb2 = [(v, cof(b, atom, v)) for v, b in vb]
            return case(atom, [v for v, _ in vb2], [b for _, b in vb2])
        allvals = []
        for _, b in vb:
            if b.op == 'case' and b.args[0] is small:
                for v in b.args[1]:
                    if v not in allvals:
                        allvals.append(v)
        allvals.sort(key=repr)
        outs = []
        for v in allvals:
            outs.append(case(atom, [x for x, _ in vb], [cof(b, small, v) for _, b in vb]))
        return case(small, allvals, outs)
    vb.sort(key=lambda x: repr(x[0]))
    if atom.op == 'variant':
        # a case that rebuilds its own subject
        subj = atom.args[0]
        cand = [subj] + [b for _, b in vb]
        seen = set()
        for cnd in cand:
            if cnd in seen:
                continue
            seen.add(cnd)
            if all(ctx_eq(cnd, b, subj, v) for v, b in vb):
                return cnd
    if set(v for v, _ in vb) == {True, False}:
        d = dict(vb)
        if d[True] is TRUE and d[False] is FALSE:
            return atom
        if d[True] is FALSE and d[False] is TRUE:
            return mk('not', atom)
    return mk('case', atom, tuple(v for v, _ in vb), *[b for _, b in vb])


def ctx_eq(cnd, b, subj, v):
    if cnd is b:
        return True
    if cnd is subj:
        return b.op == 'adt' and not b.args[2] and b.args[1] == v
    if b.op == 'list' and cnd.op == 'list' and len(b.args) == len(cnd.args):
        return all(ctx_eq(x, y, subj, v) for x, y in zip(cnd.args, b.args))
    if b.op == 'tup':
        return all(ctx_eq(f(cnd, str(i), 'tup'), y, subj, v) for i, y in enumerate(b.args))
    return False


def contradicts(b, subj, v):
    """b uses the payload of another variant of subj than v"""
    k = (b, subj, v)
    r = CONTRA.get(k)
    if r is None:
        r = CONTRA[k] = (b.op == 'vf' and b.args[0] is subj and b.args[1] != v
                         or b.op != 'case' and b.op != 'fm' and any(contradicts(a, subj, v) for a in b.args if isinstance(a, T)))
    return r


CONTRA = {}


def cof(t, atom, v):
    """t under the assumption atom == v (tree level only)"""
    if t.op != 'case':
        return t
    if t.args[0] is atom:
        if v in t.args[1]:
            return cof(t.args[2 + t.args[1].index(v)], atom, v)
        return DEAD
    return case(t.args[0], t.args[1], [cof(b, atom, v) for b in t.args[2:]])


def tree(paths):
    """paths: list of ([(atom, value)...], leaf) coming from one decision tree"""
    if not paths:
        return DEAD
    if len(paths) == 1 and not paths[0][0]:
        return paths[0][1]
    for ds, leaf in paths:
        if not ds:
            return leaf
    atom = paths[0][0][0][0]
    groups = {}
    order = []
    for ds, leaf in paths:
        a, v = ds[0]
        assert a is atom, (a, atom)
        if v not in groups:
            groups[v] = []
            order.append(v)
        groups[v].append((ds[1:], leaf))
    return case(atom, order, [tree(groups[v]) for v in order])


def tup_tree(ts):
    """tree of tuples from a list of trees"""
    def go(i, acc):
        if i == len(ts):
            return tup(*acc)
        return lift(ts[i], lambda q: go(i + 1, acc + [q]))
    return go(0, [])


def lift(t, fn):
    """apply fn to the leaves of a case tree"""
    if t.op == 'case':
        return case(t.args[0], t.args[1], [lift(b, fn) for b in t.args[2:]])
    if t.op == 'dead':
        return t
    return fn(t)


def leaves(t):
    if t.op == 'case':
        for b in t.args[2:]:
            yield from leaves(b)
    else:
        yield t


def tree_paths(t, pre=()):
    if t.op == 'case':
        for v, b in zip(t.args[1], t.args[2:]):
            yield from tree_paths(b, pre + ((t.args[0], v),))
    else:
        yield pre, t


# ---------------------------------------------------------------- binders
def lam(body, s):
    """abstract symbol s"""
    h = body.bh + 1
    return mk('lam', h, subst_raw(body, s, mk('bv', h)))


def subst_raw(t, s, r, memo=None):
    """replace symbol without re-normalising (used only to close binders)"""
    if s.args not in t.syms:
        return t
    if memo is None:
        memo = {}
    if t is s:
        return r
    x = memo.get(t)
    if x is None:
        x = mk(t.op, *[_sr(a, s, r, memo) for a in t.args])
        memo[t] = x
    return x


def _sr(a, s, r, memo):
    if type(a) is T:
        return subst_raw(a, s, r, memo)
    if type(a) is tuple:
        return tuple(_sr(b, s, r, memo) for b in a)
    return a


def open_lam(l, arg):
    """body of the lambda with its bound variable replaced by arg"""
    h, body = l.args
    return _open(body, h, arg, {})


def _open(t, h, arg, memo):
    if t.bh < h and not _hasbv(t, h):
        return t
    x = memo.get(t)
    if x is not None:
        return x
    if t.op == 'bv':
        x = arg if t.args[0] == h else t
    elif t.op == 'lam' and t.args[0] == h:
        x = t  # shadow (cannot happen for our heights)
    elif t.op == 'lam':
        s = sym()
        b = open_lam(t, s)
        b = _open(b, h, arg, {})
        x = lam(b, s)
    else:
        x = rebuild(t.op, [_o(a, h, arg, memo) for a in t.args])
    memo[t] = x
    return x


_bvcache = {}


def _hasbv(t, h):
    k = (t, h)
    r = _bvcache.get(k)
    if r is None:
        if t.op == 'bv':
            r = t.args[0] == h
        else:
            r = any(_hb(a, h) for a in t.args)
        _bvcache[k] = r
    return r


def _hb(a, h):
    if type(a) is T:
        return _hasbv(a, h)
    if type(a) is tuple:
        return any(_hb(b, h) for b in a)
    return False


def _o(a, h, arg, memo):
    if type(a) is T:
        return _open(a, h, arg, memo)
    if type(a) is tuple:
        return tuple(_o(b, h, arg, memo) for b in a)
    return a


def subst(t, m, memo=None):
    """replace terms (keys of m: symbols or arbitrary terms without bound variables), renormalising"""
    if memo is None:
        memo = {}
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    if t.op in ('c', 'p', 's', 'bv', 'dead'):
        r = t
    elif t.op == 'lam':
        s = sym()
        b = open_lam(t, s)
        b = subst(b, m, memo)
        r = lam(b, s)
    else:
        args = [_sb(a, m, memo) for a in t.args]
        if all(x is y or x == y for x, y in zip(args, t.args)):
            r = t
        else:
            r = rebuild(t.op, args)
    memo[t] = r
    return r


def _sb(a, m, memo):
    if type(a) is T:
        return subst(a, m, memo)
    if type(a) is tuple:
        return tuple(_sb(b, m, memo) for b in a)
    return a


def occurs(t, s):
    """does term s occur in t"""
    if t is s:
        return True
    if s.op == 's' and s.args not in t.syms:
        return False
    for a in t.args:
        if type(a) is T and occurs(a, s):
            return True
        if type(a) is tuple:
            for b in a:
                if type(b) is T and occurs(b, s):
                    return True
    return False


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    if t in seen:
        return
    seen.add(t)
    yield t
    for a in t.args:
        if type(a) is T:
            yield from subterms(a, seen)
        elif type(a) is tuple:
            for b in a:
                if type(b) is T:
                    yield from subterms(b, seen)


# ---------------------------------------------------------------- sequences
def lst(*ts):
    return mk('list', *ts)


def cat(*ss):
    out = []
    for s in ss:
        if s.op == 'cat':
            out.extend(s.args)
        else:
            out.append(s)
    res = []
    for s in out:
        if s is NIL:
            continue
        if s.op == 'dead':
            return DEAD
        if res and s.op == 'c' and res[-1].op == 'c' and s.args[0] == 'str' and res[-1].args[0] == 'str':
            res[-1] = cstr(res[-1].args[1] + s.args[1])
            continue
        if res and res[-1].op == 'list' and s.op == 'list':
            res[-1] = lst(*(res[-1].args + s.args))
        else:
            res.append(s)
    # head :: tail of the same sequence
    i = 0
    while i + 1 < len(res):
        a, b = res[i], res[i + 1]
        if a.op == 'list' and b.op == 'tail' and a.args and a.args[-1].op == 'head' and a.args[-1].args[0] is b.args[0]:
            pre = lst(*a.args[:-1])
            res[i:i + 2] = ([pre] if pre is not NIL else []) + [b.args[0]]
        elif b.op == 'list' and a.op == 'rev' and a.args[0].op == 'tail' and a.args[0].args[0].op == 'rev' and b.args[0] is mk('last', a.args[0].args[0].args[0]):
            # all but the last, and the last
            post = lst(*b.args[1:])
            res[i:i + 2] = [a.args[0].args[0].args[0]] + ([post] if post is not NIL else [])
        else:
            i += 1
    if not res:
        return NIL
    if len(res) == 1:
        return res[0]
    return mk('cat', *res)


def rng(a, b):
    """the integers a .. b-1"""
    if a.op == 'c' and b.op == 'c':
        if a.args[1] >= b.args[1]:
            return NIL
        if b.args[1] - a.args[1] <= 8:
            return lst(*[cint(i) for i in range(a.args[1], b.args[1])])
    if b is ZERO:
        return NIL
    return mk('range', a, b)


def enum(s):
    if s.op == 'list':
        return lst(*[tup(cint(i), x) for i, x in enumerate(s.args)])
    return mk('enum', s)


def nth(s, i):
    if i.op == 'c' and i.args[0] == 'int':
        n = i.args[1]
        if s.op == 'list':
            return s.args[n] if n < len(s.args) else DEAD
        if n == 0:
            return head(s)
    if s.op == 'dead':
        return s
    if i.op == 'firstidx' and i.args[0] is s:
        x = sym()
        return head(fm(s, lam(ite(open_lam(i.args[1], x), lst(x), NIL), x)))
    return mk('nth', s, i)


def setnth(s, i, v):
    if s.op == 'list' and i.op == 'c' and i.args[1] < len(s.args):
        a = list(s.args)
        a[i.args[1]] = v
        return lst(*a)
    return mk('setnth', s, i, v)


def norm_dom(s, l):
    """iterate over the elements themselves instead of over their indices"""
    if s.op == 'range' and s.args[0] is ZERO and s.args[1].op == 'len':
        v = s.args[1].args[0]
        x = sym()
        e = sym()
        b = subst(open_lam(l, x), {mk('nth', v, x): e})
        if not occurs(b, x):
            return v, lam(b, e)
    elif s.op == 'enum':
        x = sym()
        e = sym()
        b = subst(open_lam(l, x), {mk('f', x, '1', 'tup'): e})
        if not occurs(b, x):
            return s.args[0], lam(b, e)
    return s, l


def separated(s, l):
    """a text of parts where every part but the first comes after the same separator"""
    x, e = sym(), sym()
    b = subst(open_lam(l, x), {mk('f', x, '1', 'tup'): e})
    i = mk('f', x, '0', 'tup')
    b0, b1 = subst(b, {i: ZERO}), subst(b, {lt(ZERO, i): TRUE, eq(ZERO, i): FALSE})
    if occurs(b0, x) or occurs(b1, x):
        return None
    b1 = lift(b1, lambda y: lift(y.args[1], lambda z: cat(y.args[0], z)) if y.op == 'cat' and len(y.args) == 2 else y)
    seps = {y.args[0] if y.op == 'cat' else None for y in leaves(b1)}
    if len(seps) != 1 or None in seps:
        return None
    sep = seps.pop()
    if sep.op != 'c' or sep.args[0] != 'str' or lift(b0, lambda y: cat(sep, y)) is not b1:
        return None
    return joined(fm(s.args[0], lam(lift(b0, lst), e)), sep)


def fm(s, l):
    """flat-map: l maps an element to a sequence"""
    if s.op in ('range', 'enum'):
        s, l = norm_dom(s, l)
    if s is NIL:
        return NIL
    if s.op == 'dead':
        return DEAD
    if s.op == 'list':
        return cat(*[open_lam(l, x) for x in s.args])
    if s.op == 'cat':
        return cat(*[fm(x, l) for x in s.args])
    if s.op == 'case':
        return case(s.args[0], s.args[1], [fm(b, l) for b in s.args[2:]])
    h, body = l.args
    if body is NIL:
        return NIL
    if body.op == 'list' and len(body.args) == 1 and body.args[0].op == 'bv' and body.args[0].args[0] == h:
        return s
    if s.op == 'fm':
        inner = s.args[1]
        x = sym()
        b = open_lam(inner, x)
        b2 = lift(b, lambda q: fm(q, l))
        return fm(s.args[0], lam(b2, x))
    if s.op == 'enum':
        r = separated(s, l)
        if r is not None:
            return r
    return mk('fm', s, l)


def seqmap(s, fn):
    x = sym()
    return fm(s, lam(lst(fn(x)), x))


def seqfm(s, fn):
    x = sym()
    return fm(s, lam(fn(x), x))


def seqfilter(s, fn):
    """fn gives a boolean term"""
    x = sym()
    p = fn(x)
    return fm(s, lam(ite(p, lst(x), NIL), x))


def rev(s):
    if s.op == 'list':
        return lst(*reversed(s.args))
    if s.op == 'cat':
        return cat(*[rev(x) for x in reversed(s.args)])
    if s.op == 'rev':
        return s.args[0]
    if s.op == 'fm':
        b = s.args[1].args[1]
        if all(x.op == 'list' and len(x.args) <= 1 for x in leaves(b)):
            return fm(rev(s.args[0]), s.args[1])
    return mk('rev', s)


def ite(b, x, y):
    if b is TRUE:
        return x
    if b is FALSE:
        return y
    if x is y:
        return x
    if b.op == 'not':
        return ite(b.args[0], y, x)
    if b.op == 'case':
        return case(b.args[0], b.args[1], [ite(q, x, y) for q in b.args[2:]])
    if b.op == 'dead':
        return DEAD
    return case(b, (True, False), (x, y))


def nnot(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == 'not':
        return b.args[0]
    if b.op == 'case':
        return case(b.args[0], b.args[1], [nnot(q) for q in b.args[2:]])
    if b.op == 'dead':
        return b
    return ite(b, FALSE, TRUE) if False else mk('not', b)


def band(a, b):
    return ite(a, b, FALSE)


def bor(a, b):
    return ite(a, TRUE, b)


def any_(s, l):
    """some element satisfies l (an lambda to bool)"""
    if s.op in ('range', 'enum'):
        s, l = norm_dom(s, l)
    if s.op == 'range' and HOOKS:
        r = HOOKS['any'](s, l)
        if r is not None:
            return r
    body = l.args[1]
    if body is FALSE or s is NIL:
        return FALSE
    if s.op == 'list':
        r = FALSE
        for x in reversed(s.args):
            r = bor(open_lam(l, x), r)
        return r
    if s.op == 'cat':
        r = FALSE
        for x in reversed(s.args):
            r = bor(any_(x, l), r)
        return r
    if s.op == 'case':
        return case(s.args[0], s.args[1], [any_(b, l) for b in s.args[2:]])
    if body is TRUE:
        return nnot(empty(s)) if s.op != 'fm' else _anyfm(s, l)
    if s.op == 'fm':
        return _anyfm(s, l)
    if s.op == 'rev':
        return any_(s.args[0], l)
    return mk('any', s, l)


def _anyfm(s, l):
    x = sym()
    b = open_lam(s.args[1], x)
    p = lift(b, lambda q: any_(q, l))
    return any_(s.args[0], lam(p, x))


def seqany(s, fn):
    x = sym()
    return any_(s, lam(fn(x), x))


def empty(s):
    if s.op in ('chars', 'upto'):
        r = HOOKS['empty'](s) if HOOKS else None
        if r is not None:
            return r
    if s.op == 'list':
        return cbool(not s.args)
    if s.op == 'cat':
        r = TRUE
        for x in reversed(s.args):
            r = band(empty(x), r)
        return r
    if s.op == 'case':
        return case(s.args[0], s.args[1], [empty(b) for b in s.args[2:]])
    if s.op == 'fm':
        body = s.args[1].args[1]
        if all(x.op == 'list' and len(x.args) > 0 for x in leaves(body)):
            return empty(s.args[0])
        x = sym()
        b = open_lam(s.args[1], x)
        p = lift(b, lambda q: nnot(empty(q)))
        return nnot(any_(s.args[0], lam(p, x)))
    if s.op == 'rev':
        return empty(s.args[0])
    if s.op == 'split':
        return FALSE          # str::split gives at least one piece
    if s.op == 'entries':
        return mempty(s.args[0])
    if s.op == 'enum':
        return empty(s.args[0])
    if s.op == 'range':
        return nnot(lt(s.args[0], s.args[1]))
    if s.op == 'c' and s.args[0] == 'str':
        return cbool(s.args[1] == '')
    if s.op == 'dead':
        return s
    if s.op == 'toset':
        return empty(s.args[0])
    if s.op == 'from':
        return nnot(any_(s.args[0], s.args[1]))
    if s.op == 'take' and s.args[1].op == 'c' and s.args[1].args[1] >= 1:
        return empty(s.args[0])
    return mk('empty', s)


def mempty(m):
    if m.op == 'tomap':
        return empty(m.args[0])
    if m.op == 'put':
        return FALSE
    if m.op == 'case':
        return case(m.args[0], m.args[1], [mempty(b) for b in m.args[2:]])
    return mk('empty', m)


def length(s):
    if s.op == 'enum':
        return length(s.args[0])
    if s.op == 'range' and s.args[0] is ZERO:
        return s.args[1]
    if s.op == 'list':
        return cint(len(s.args))
    if s.op == 'cat':
        return add(*[length(x) for x in s.args])
    if s.op == 'case':
        return case(s.args[0], s.args[1], [length(b) for b in s.args[2:]])
    if s.op == 'fm':
        body = s.args[1].args[1]
        if all(x.op == 'list' and len(x.args) == 1 for x in leaves(body)):
            return length(s.args[0])
        return sum_(fm(s.args[0], _mapbody(s.args[1], lambda q: lst(length(q)))))
    if s.op == 'rev':
        return length(s.args[0])
    if s.op == 'entries':
        return mk('len', s.args[0])
    if s.op == 'c' and s.args[0] == 'str':
        return cint(len(s.args[1].encode()))
    if s.op == 'dead':
        return s
    if s.op == 'until' and s.args[0].op == 'take':
        return min_(s.args[0].args[1], length(mk('until', s.args[0].args[0], s.args[1])))
    h = HOOKS.get('length')
    if h:
        r = h(s)
        if r is not None:
            return r
    return mk('len', s)


def min_(a, b):
    if sortkey(b) < sortkey(a):
        a, b = b, a
    return case(lt(a, b), (True, False), [a, b])


def joined(parts, sep):
    """the texts in sequence `parts`, separated by `sep`"""
    if parts.op == 'fm':
        x = sym('x')
        b = lift(open_lam(parts.args[1], x), lambda y: lift(y.args[0], lst) if y.op == 'list' and len(y.args) == 1 else y)
        parts = fm(parts.args[0], lam(b, x))
    return mk('joined', parts, sep)


def _mapbody(l, fn):
    x = sym()
    return lam(lift(open_lam(l, x), fn), x)


def toset(s):
    """the set of the elements: their order does not matter"""
    if s.op == 'case':
        return case(s.args[0], s.args[1], [toset(b) for b in s.args[2:]])
    if s.op == 'toset':
        return s
    if s.op == 'cat':
        s = cat(*sorted(set(s.args), key=sortkey))
    if s.op == 'fm' and s.args[1].args[1].op == 'list':
        # every element adds the same
        x, y = sym(), sym()
        b = open_lam(s.args[1], x)
        if b is open_lam(s.args[1], y):
            return ite(empty(s.args[0]), toset(NIL), toset(b))
    return mk('toset', s)


def setext(m, s):
    """the set with every element of the sequence added"""
    if s.op == 'toset':
        s = s.args[0]
    if s is NIL:
        return m
    if m.op == 'toset':
        return toset(cat(m.args[0], s))
    if m.op == 'setext':
        return setext(m.args[0], cat(m.args[1], s))
    if m.op == 'setadd':
        return setext(m.args[0], cat(lst(m.args[1]), s))
    if s.op == 'list' and len(s.args) == 1:
        return mk('setadd', m, s.args[0])
    if s.op == 'cat':
        s = cat(*sorted(set(s.args), key=sortkey))
    return mk('setext', m, s)


def sum_(s):
    if s.op == 'list':
        return add(*s.args) if s.args else ZERO
    if s.op == 'cat':
        return add(*[sum_(x) for x in s.args])
    if s.op == 'case':
        return case(s.args[0], s.args[1], [sum_(b) for b in s.args[2:]])
    if s.op == 'fm':
        body = s.args[1].args[1]
        if all(x is lst(ONE) for x in leaves(body)):
            return length(s.args[0])
    return mk('sum', s)


def head(s):
    if s.op in ('chars', 'fm') and HOOKS:
        r = HOOKS['head' if s.op == 'chars' else 'first'](s)
        if r is not None:
            return r
    if s.op == 'range':
        return s.args[0]
    if s.op == 'enum':
        return tup(ZERO, head(s.args[0]))
    if s.op == 'list':
        return s.args[0] if s.args else DEAD
    if s.op == 'cat' and s.args[0].op == 'list':
        return s.args[0].args[0]
    if s.op == 'take' and s.args[1].op == 'c' and s.args[1].args[1] >= 1:
        return head(s.args[0])
    if s.op == 'case':
        return case(s.args[0], s.args[1], [head(b) for b in s.args[2:]])
    if s.op == 'dead':
        return s
    if s.op == 'from' and s.args[0].op not in ('chars', 'upto'):
        x = sym()
        return head(fm(s.args[0], lam(ite(open_lam(s.args[1], x), lst(x), NIL), x)))
    if s.op == 'fm':
        body = s.args[1].args[1]
        ls = set(leaves(body))
        ls.discard(NIL)
        if ls and all(x.op == 'list' and len(x.args) >= 1 for x in ls):
            # first element of the first non-empty image
            x = sym()
            b = open_lam(s.args[1], x)
            nonempty = lift(b, lambda q: nnot(empty(q)))
            if nonempty is TRUE:
                h = head(s.args[0])
                if not (h.op == 'head' and h.args[0].op == 'fm'):
                    return lift(open_lam(s.args[1], h), head)
            flt = fm(s.args[0], lam(ite(nonempty, lst(x), NIL), x))
            if flt is not s:
                return lift(open_lam(s.args[1], mk('head', flt)), lambda q: head(q) if q is not NIL else DEAD)
    return mk('head', s)


def tail(s):
    if s.op == 'list':
        return lst(*s.args[1:]) if s.args else NIL
    if s.op == 'cat' and s.args[0].op == 'list':
        return cat(lst(*s.args[0].args[1:]), *s.args[1:])
    if s.op == 'case':
        return case(s.args[0], s.args[1], [tail(b) for b in s.args[2:]])
    if s.op == 'dead':
        return s
    if s.op == 'fm':
        body = s.args[1].args[1]
        if all(x.op == 'list' and len(x.args) == 1 for x in leaves(body)):
            return fm(tail(s.args[0]), s.args[1])
    return mk('tail', s)


def last(s):
    if s.op == 'list' and s.args:
        return s.args[-1]
    if s.op == 'dead':
        return s
    return mk('last', s)


def take(s, n):
    if n is ZERO:
        return NIL
    if n is ONE:
        if s.op == 'list':
            return lst(*s.args[:1])
        return mk('take', s, n)
    return mk('take', s, n)


def drop(s, n):
    if n is ZERO:
        return s
    if n is ONE:
        return tail(s)
    return mk('drop', s, n)


# ---------------------------------------------------------------- maps
EMPTYMAP = mk('tomap', NIL)


def tomap(s):
    if s.op == 'entries':
        return s.args[0]
    if s.op == 'case':
        return case(s.args[0], s.args[1], [tomap(b) for b in s.args[2:]])
    last = s if s.op == 'list' else s.args[-1] if s.op == 'cat' else NIL
    if last.op == 'list' and last is not NIL:
        m = tomap(cat(*s.args[:-1])) if s.op == 'cat' else EMPTYMAP
        for x in last.args:
            m = put(m, f(x, '0', 'tup'), f(x, '1', 'tup'))
        return m
    return mk('tomap', s)


def put(m, k, v):
    if m.op == 'put' and m.args[1] is k:
        return put(m.args[0], k, v)
    if m.op == 'call' and m.args[0] == 'without' and m.args[2] is k:
        return put(m.args[1], k, v)
    if v.op == 'get' and v.args[0] is m and v.args[1] is k:
        return m
    return mk('put', m, k, v)


def putall(m, s):
    if m is EMPTYMAP:
        return tomap(s)
    if s is NIL:
        return m
    if s.op == 'list':
        for x in s.args:
            m = put(m, f(x, '0', 'tup'), f(x, '1', 'tup'))
        return m
    if m.op == 'tomap':
        return tomap(cat(m.args[0], s))
    return mk('putall', m, s)


def get(m, k):
    if m.op == 'put' and m.args[1] is k:
        return m.args[2]
    if m.op == 'case':
        return case(m.args[0], m.args[1], [get(b, k) for b in m.args[2:]])
    return mk('get', m, k)


def haskey(m, k):
    if m.op == 'put' and m.args[1] is k:
        return TRUE
    if m is EMPTYMAP:
        return FALSE
    if m.op == 'case':
        return case(m.args[0], m.args[1], [haskey(b, k) for b in m.args[2:]])
    return mk('haskey', m, k)


def entries(m):
    if m.op == 'case':
        return case(m.args[0], m.args[1], [entries(b) for b in m.args[2:]])
    if m is EMPTYMAP:
        return NIL
    return mk('entries', m)


def fold(s, init, l):
    """l maps (accumulator, element) to the next accumulator"""
    if s is NIL:
        return init
    if s.op == 'list' and len(s.args) <= 4:
        a = init
        for x in s.args:
            a = open_lam(l, tup(a, x))
        return a
    if s.op == 'case':
        return case(s.args[0], s.args[1], [fold(b, init, l) for b in s.args[2:]])
    if s.op == 'fm':
        # fold over the mapped elements
        acc, e = sym(), sym()
        inner = open_lam(s.args[1], e)
        return fold(s.args[0], init, lam2(lift(inner, lambda q: fold(q, acc, l)), acc, e))
    if s.op == 'cat':
        for x in s.args:
            init = fold(x, init, l)
        return init
    if s.op == 'enum' or s.op == 'range':
        acc = sym()
        e = sym()
        b = open_lam(l, tup(acc, e))
        s2, l2 = norm_dom(s, lam(b, e))
        if s2 is not s:
            e = sym()
            return fold(s2, init, lam2(open_lam(l2, e), acc, e))
    return mk('fold', s, init, l)


def lam2(body, acc, e):
    z = sym()
    return lam(subst(body, {acc: f(z, '0', 'tup'), e: f(z, '1', 'tup')}), z)


def tryfold(s, init, l):
    if s.op == 'fm':
        body = s.args[1].args[1]
        if all(x.op == 'list' and len(x.args) <= 1 for x in leaves(body)):
            acc, e = sym(), sym()
            inner = open_lam(s.args[1], e)
            nxt = lift(inner, lambda q: mk('cont', acc) if q is NIL else open_lam(l, tup(acc, q.args[0])))
            return tryfold(s.args[0], init, lam2(nxt, acc, e))
    return mk('tryfold', s, init, l)


def tf_leaves(r, fn):
    """rewrite what the early exits of a try-fold carry"""
    if r.op != 'tryfold':
        return r
    s, init, l = r.args
    a, e = sym(), sym()
    body = lift(open_lam(l, tup(a, e)), lambda q: fn(q, a, e) if q.op == 'brk' else q)
    return tryfold(s, init, lam2(body, a, e))


def tfdone(r):
    return mk('tfdone', tf_leaves(r, lambda q, a, e: mk('brk')))


def tfstate(r, *i):
    if HOOKS and not i and r.op == 'tryfold':
        v = HOOKS['trim'](r)
        if v is not None:
            return v
    return mk('tfstate', tf_leaves(r, lambda q, a, e: mk('brk')), *i)


def errs(r):
    """the same try-fold with the payloads, if every early exit carries an Err"""
    s, init, l = r.args
    a, e = sym(), sym()
    n = []

    def go(b, known):
        if b.op == 'case':
            q = b.args[0]
            return case(q, b.args[1], [go(x, known | {q.args[0]} if q.op == 'variant' and k == 'Err' else known)
                                       for k, x in zip(b.args[1], b.args[2:])])
        if b.op != 'brk':
            return b
        w = b.args[0]
        n.append(w)
        if w.op == 'adt' and w.args[0] == RESULT and w.args[1] == 'Err':
            return mk('brk', w.args[3], *b.args[1:])
        if w in known:
            return mk('brk', vf(w, 'Err', '0', RESULT), *b.args[1:])
        raise LookupError
    try:
        r = tryfold(s, init, lam2(go(open_lam(l, tup(a, e)), frozenset()), a, e))
        return r if n else None
    except LookupError:
        return None


def tfbrk(r, i=0):
    """what an early exit carries in place i"""
    if r.op != 'tryfold':
        return mk('tfbrk', r, i)
    const = set()
    if HOOKS:
        v = HOOKS['trim'](r, i)
        if v is not None:
            return v
    inner = errs(r) if i == 0 else None
    if inner is not None:
        return err(tfbrk(inner))

    def pick(q, a, e):
        w = q.args[i]
        const.add(None if occurs(w, a) or occurs(w, e) else w)
        return mk('brk', w)
    new = tf_leaves(r, pick)
    if len(const) == 1 and None not in const:
        return const.pop()
    return mk('tfbrk', new, 0)


# ---------------------------------------------------------------- arithmetic
def add(*ts):
    n = 0
    out = []
    for t in ts:
        if t.op == 'add':
            for x in t.args:
                if x.op == 'c':
                    n += x.args[1]
                else:
                    out.append(x)
        elif t.op == 'c' and t.args[0] == 'int':
            n += t.args[1]
        elif t.op == 'dead':
            return t
        else:
            out.append(t)
    out.sort(key=sortkey)
    if n:
        out.append(cint(n))
    if not out:
        return ZERO
    if len(out) == 1:
        return out[0]
    for i, x in enumerate(out):
        if x.op == 'case':
            rest = out[:i] + out[i + 1:]
            return case(x.args[0], x.args[1], [add(b, *rest) for b in x.args[2:]])
    return mk('add', *out)


def sub(a, b):
    if a.op == 'c' and b.op == 'c':
        return cint(a.args[1] - b.args[1])
    if b.op == 'c' and b.args[0] == 'int':
        return add(a, cint(-b.args[1]))
    if a is b:
        return ZERO
    if HOOKS:
        r = HOOKS['sub'](a, b)
        if r is not None:
            return r
    return mk('sub', a, b)


def charstr(c):
    """the text that consists of one character"""
    return cstr(c.args[1]) if c.op == 'c' else lst(c)


COUNTS = ('len', 'slen', 'offs', 'count')


def counted(y):
    """a count plus a positive constant: the count and the constant"""
    if len(y.args) == 2:
        for z, k in (y.args, y.args[::-1]):
            if k.op == 'c' and k.args[0] == 'int' and k.args[1] > 0 and z.op in COUNTS:
                return z, k.args[1]
    return None, 0


def eq(a, b):
    if a is b:
        return TRUE
    if HOOKS:
        r = HOOKS['eq'](a, b)
        if r is not None:
            return r
    if a.op == 'c' and b.op == 'c':
        if a.args[0] == b.args[0] or {a.args[0], b.args[0]} <= {'int', 'float'}:
            return cbool(a.args[1] == b.args[1])
    if a.op == 'adt' and b.op == 'adt' and a.args[0] == b.args[0]:
        if a.args[1] != b.args[1]:
            return FALSE
        r = TRUE
        for x, y in zip(reversed(a.args[3:]), reversed(b.args[3:])):
            r = band(eq(x, y), r)
        return r
    if a.op == 'tup' and b.op == 'tup' and len(a.args) == len(b.args):
        r = TRUE
        for x, y in zip(reversed(a.args), reversed(b.args)):
            r = band(eq(x, y), r)
        return r
    for x, y in ((a, b), (b, a)):
        if x.op == 'c' and x.args[0] == 'bool':
            return y if x.args[1] else nnot(y)
        if x.op == 'case':
            return case(x.args[0], x.args[1], [eq(q, y) for q in x.args[2:]])
    if a.op == 'discr' and b.op == 'discr' and a.args[1:] == b.args[1:] and len(a.args[2]) <= 12:
        vs = [d[1] for d in a.args[2]]
        va, vb = mk('variant', a.args[0]), mk('variant', b.args[0])
        two = lambda v: _r_case([vb, vs] + [cbool(v == w) for w in vs])
        return _r_case([va, vs] + [two(v) for v in vs])
    # lengths against zero
    for x, y in ((a, b), (b, a)):
        if x.op == 'c' and x.args[0] == 'int' and y.op == 'add':
            z, k = counted(y)
            if z is not None:
                return eq(cint(x.args[1] - k), z) if x.args[1] >= k else FALSE
        if x is ZERO and y.op == 'len':
            return empty(y.args[0])
        if x is ZERO and y.op == 'sum' and y.args[0].op == 'fm':
            # a sum of constant counts is zero if each of them is
            b = y.args[0].args[1].args[1]
            if all(q.op == 'list' and all(k.op == 'c' and k.args[0] == 'int' and k.args[1] >= 0 for k in q.args) for q in leaves(b)):
                return nnot(any_(y.args[0].args[0], _mapbody(y.args[0].args[1], lambda q: cbool(any(k.args[1] for k in q.args)))))
        if x is NIL:
            return empty(y)
        if x.op == 'c' and x.args == ('str', ''):
            return empty(y)
    if sortkey(b) < sortkey(a):
        a, b = b, a
    return mk('eq', a, b)


def lt(a, b):
    """a < b on integers"""
    if HOOKS:
        r = HOOKS['lt'](a, b)
        if r is not None:
            return r
    if a.op == 'c' and b.op == 'c':
        return cbool(a.args[1] < b.args[1])
    if a.op == 'c' and b.op == 'add' or b.op == 'c' and a.op == 'add':
        c, y = (a, b) if a.op == 'c' else (b, a)
        z, k = counted(y)
        if z is not None:
            n = c.args[1] - k
            if y is b:
                return lt(cint(n), z) if n >= 0 else TRUE
            return lt(z, cint(n)) if n > 0 else FALSE
    if a is ZERO and b.op == 'len':
        return nnot(empty(b.args[0]))
    if b is ONE and a.op == 'len':
        return empty(a.args[0])
    if b is ZERO and a.op == 'len':
        return FALSE
    if a is b:
        return FALSE
    if a.op == 'firstidx' and b is length(a.args[0]):
        return TRUE
    for i, x in enumerate((a, b)):
        if x.op == 'case':
            return case(x.args[0], x.args[1], [lt(q, b) if i == 0 else lt(a, q) for q in x.args[2:]])
    return mk('lt', a, b)


def call(name, *args):
    for a in args:
        if a.op == 'dead':
            return a
    return mk('call', name, *args)


def variantis(t, v):
    """boolean: t is of variant v; only for display / specs"""
    return mk('variantis', t, v)


# ---------------------------------------------------------------- rebuild dispatch
def _r_adt(a):
    return adt(a[0], a[1], list(zip(a[2], a[3:])))


def _r_case(a):
    atom = a[0]
    if atom.op == 'dead':
        return DEAD
    if atom.op == 'variant':
        s = atom.args[0]
        if s.op == 'adt':
            if s.args[1] in a[1]:
                return a[2 + a[1].index(s.args[1])]
            return DEAD
        if s.op == 'case':
            return case(s.args[0], s.args[1], [_r_case([mk('variant', b)] + list(a[1:])) for b in s.args[2:]])
    if atom is TRUE or atom is FALSE:
        v = atom is TRUE
        return a[2 + a[1].index(v)] if v in a[1] else DEAD
    if atom.op == 'not':
        d = dict(zip(a[1], a[2:]))
        return ite(atom.args[0], d.get(False, DEAD), d.get(True, DEAD))
    if atom.op == 'case':
        return case(atom.args[0], atom.args[1], [_r_case([b] + list(a[1:])) for b in atom.args[2:]])
    return case(atom, a[1], a[2:])


def _r_variant(a):
    return mk('variant', a[0])


REBUILD = {
    'adt': _r_adt,
    'tup': lambda a: tup(*a),
    'f': lambda a: f(*a),
    'vf': lambda a: vf(*a),
    'setf': lambda a: setf(*a),
    'case': _r_case,
    'variant': _r_variant,
    'cat': lambda a: cat(*a),
    'fm': lambda a: fm(*a),
    'rev': lambda a: rev(*a),
    'not': lambda a: nnot(*a),
    'any': lambda a: any_(*a),
    'toset': lambda a: toset(*a),
    'setext': lambda a: setext(*a),
    'empty': lambda a: empty(*a),
    'len': lambda a: length(*a),
    'joined': lambda a: joined(*a),
    'sum': lambda a: sum_(*a),
    'head': lambda a: head(*a),
    'tail': lambda a: tail(*a),
    'take': lambda a: take(*a),
    'drop': lambda a: drop(*a),
    'tomap': lambda a: tomap(*a),
    'put': lambda a: put(*a),
    'putall': lambda a: putall(*a),
    'get': lambda a: get(*a),
    'haskey': lambda a: haskey(*a),
    'entries': lambda a: entries(*a),
    'add': lambda a: add(*a),
    'sub': lambda a: sub(*a),
    'eq': lambda a: eq(*a),
    'lt': lambda a: lt(*a),
    'range': lambda a: rng(*a),
    'enum': lambda a: enum(*a),
    'nth': lambda a: nth(*a),
    'setnth': lambda a: setnth(*a),
    'fold': lambda a: fold(*a),
    'tryfold': lambda a: tryfold(*a),
    'call': lambda a: call(*a),
}


def rebuild(op, args):
    fn = REBUILD.get(op)
    if fn:
        return fn(args)
    return mk(op, *args)


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if type(t) is tuple:
        return '[' + ', '.join(show(x) for x in t) + ']'
    if type(t) is not T:
        return str(t)
    o, a = t.op, t.args
    if o == 'c':
        return repr(a[1]) if a[0] != 'unit' else '()'
    if o == 'p':
        return str(a[0])
    if o == 's':
        return '%s#%s' % a
    if o == 'bv':
        return 'x%d' % a[0]
    if o == 'lam':
        k = showclass(a[0], a[1])
        if k:
            return k
        return '\\x%d. %s' % (a[0], show(a[1]))
    if o == 'adt':
        n = a[0].split('::')[-1]
        v = a[1] if a[1] == n else n + '::' + str(a[1])
        if not a[2]:
            return v
        return v + '{' + ', '.join('%s: %s' % (x, show(y)) for x, y in zip(a[2], a[3:])) + '}'
    if o == 'tup':
        return '(' + ', '.join(map(show, a)) + ')'
    if o == 'f':
        return '%s.%s' % (show(a[0]), a[1])
    if o == 'vf':
        return '%s.%s.%s' % (show(a[0]), a[1], a[2])
    if o == 'case':
        return 'case %s {' % show(a[0]) + '; '.join('%s => %s' % (v, show(b)) for v, b in zip(a[1], a[2:])) + '}'
    if o == 'call':
        return '%s(%s)' % (a[0], ', '.join(map(show, a[1:])))
    return '%s(%s)' % (o, ', '.join(map(show, a)))


def showclass(n, b):
    """[abc] / [^abc]: a class of characters given by its exceptions"""
    inn, out = [], []
    while b.op == 'case' and b.args[1] in ((False, True), (True, False)) and b.args[0].op == 'eq':
        ks = [x for x in b.args[0].args if x.op == 'c' and x.args[0] == 'char']
        vs = [x for x in b.args[0].args if x.op == 'bv' and x.args[0] == n]
        if not ks or not vs:
            return None
        i = b.args[1].index(True)
        (inn if b.args[2 + i] is TRUE else out).append(ks[0].args[1])
        if b.args[2 + i] not in (TRUE, FALSE):
            return None
        b = b.args[3 - i]
    if not inn and not out:
        return None

    def rng(cs):
        cs = sorted(set(map(ord, cs)))
        r, i = '', 0
        while i < len(cs):
            j = i
            while j + 1 < len(cs) and cs[j + 1] == cs[j] + 1:
                j += 1
            lo, hi = repr(chr(cs[i]))[1:-1], repr(chr(cs[j]))[1:-1]
            r += lo if i == j else lo + hi if j == i + 1 else lo + '-' + hi
            i = j + 1
        return r
    if b is FALSE and not out:
        return '[%s]' % rng(inn)
    if b is TRUE and not inn:
        return '[^%s]' % rng(out)
    return '[%s | %s%s]' % (rng(inn), show(b), ' except ' + rng(out) if out else '')


def difference(a, b):
    """the smallest pair of subterms in which two terms differ"""
    while type(a) is T and type(b) is T and a.op == b.op and len(a.args) == len(b.args):
        d = [(x, y) for x, y in zip(a.args, b.args) if x is not y and x != y]
        if len(d) != 1:
            break
        a, b = d[0]
    return a, b
