"""Grammar functions (nom parsers) as decision procedures over text positions.

`GEv` extends the path-sensitive value-flow evaluator with transfer functions for nom's input primitives, so that the
combinator macros, expanded to plain control flow in MIR, become decision trees over facts of the form "the rest starts
with L", "the longest run of class C is empty", "the sub-parser P accepts here".  Loops without an iterator (many0,
separated_list, ...) become state machines; two loops are the same iff their one-iteration decision trees are the same.

`Gram` is the vocabulary in which the specification grammar is written (rules/grammar.py).
"""
import functools
import re
from . import terms as t
from .terms import mk
from . import eval as E
from . import models as M
from . import text as X

NERR = 'nom::Err'
CTX = mk("gctx")
GERR = t.err(t.adt(NERR, 'Error', [('0', CTX)]))


def gok(rest, val):
    return t.ok(t.tup(rest, val))


NA = '\x80'    # stands for every character outside ASCII
ALL = frozenset([chr(i) for i in range(128)] + [NA])
_CLS = {}


def chkey(c):
    return c if ord(c) < 128 else NA


def in_class(cls, c):
    """whether character c (or every character outside ASCII) is in the class: True / False / None"""
    if c == NA:
        x = t.sym('c')
        b = t.open_lam(cls, x)
        k = (NA, cls)
        if k not in _CLS:
            _CLS[k] = nonascii(b, x)
        return _CLS[k]
    k = (c, cls)
    if k not in _CLS:
        r = reduce_class(t.open_lam(cls, t.c('char', c)))
        _CLS[k] = True if r is t.TRUE else False if r is t.FALSE else None
    return _CLS[k]


def reduce_class(b):
    if b.op == 'call' and len(b.args) > 1 and b.args[1].op == 'c':
        return classify(b.args[0], b.args[1], *b.args[2:])
    if b.op == 'case':
        d = reduce_class(b.args[0])
        if d in (t.TRUE, t.FALSE):
            v = d is t.TRUE
            return reduce_class(b.args[2 + b.args[1].index(v)])
        rs = {reduce_class(x) for x in b.args[2:]}
        if len(rs) == 1:
            return rs.pop()
    return b


def nonascii(b, x):
    r = residual(b, x)
    return True if r is t.TRUE else False if r is t.FALSE else None


ASCII_ONLY = {
    'char::is_digit', 'AsChar::is_dec_digit', 'AsChar::is_hex_digit', 'AsChar::is_oct_digit', 'char::is_ascii_alphanumeric',
    'char::is_ascii_alphabetic', 'char::is_ascii_hexdigit', 'char::is_ascii_whitespace', 'char::is_ascii_punctuation',
    'char::is_ascii_uppercase', 'char::is_ascii_lowercase', 'char::is_ascii_control', 'char::is_ascii_digit', 'char::is_ascii',
    'char::is_ascii_graphic',
}


def residual(b, x):
    """the class restricted to characters outside ASCII"""
    if b.op == 'eq' and x in b.args and any(a.op == 'c' and ord(a.args[1]) < 128 for a in b.args):
        return t.FALSE
    if b.op == 'lt' and x in b.args:
        if b.args[1].op == 'c' and ord(b.args[1].args[1]) < 128:
            return t.FALSE
        if b.args[0].op == 'c' and ord(b.args[0].args[1]) < 128:
            return t.TRUE
    if b.op == 'call' and b.args[0] in ASCII_ONLY and len(b.args) > 1 and b.args[1] is x:
        return t.FALSE
    if b.op == 'case':
        d = residual(b.args[0], x)
        bs = [residual(y, x) for y in b.args[2:]]
        if d in (t.TRUE, t.FALSE):
            return bs[b.args[1].index(d is t.TRUE)]
        return t.case(d, b.args[1], bs)
    if b.op == 'not':
        return t.nnot(residual(b.args[0], x))
    return b


_CANON = {}


def canon(cls):
    """normal form of a class of characters: exceptions in code-point order, then the rule for all other characters"""
    if cls in _CANON:
        return _CANON[cls]
    x = t.sym('c')
    b = t.open_lam(cls, x)
    R = residual(b, x)
    r = R
    rl = t.lam(R, x)
    for i in reversed(range(128)):
        ch = chr(i)
        v, w = in_class(cls, ch), in_class(rl, ch)
        if v is None:
            _CANON[cls] = cls
            return cls
        if v != w:
            r = t.case(t.eq(x, t.c('char', ch)), (True, False), [t.cbool(v), r])
    r = t.lam(r, x)
    _CANON[cls] = _CANON[r] = r
    return r


def members(cls):
    return frozenset(chr(i) for i in range(128) if in_class(cls, chr(i)) is True)


def ascii_only(cls):
    x = t.sym('c')
    return residual(t.open_lam(cls, x), x) is t.FALSE


def digits_of(radix):
    return set('0123456789abcdefghijklmnopqrstuvwxyz'[:radix]) | set('0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'[:radix])


class Anchor:
    """assumed outcome of a sub-parser; each assumption is checked where that parser is analysed"""

    def __init__(self, err=True, fail=False, consumes=True, first=None, skips=None, lead=None, eats=None):
        self.err, self.fail, self.consumes = err, fail, consumes
        # (skipper, characters): after skipping, an accepted (or aborting) input starts with one of these
        self.lead = None if lead is None else (lead[0], frozenset(lead[1]))
        # the characters an accepted (or aborting) input can start with; NA stands for every non-ASCII character
        self.first = None if first is None else frozenset(first)
        # never fails, skips a maximal run, its value does not matter; characters its result cannot start with
        self.skips = skips
        # the characters anything it skips can start with
        self.eats = None if eats is None else frozenset(eats)


def offset_const(n, ph):
    """n - ph, if that is a constant"""
    if n is ph:
        return 0
    if n.op == 'add' and ph in n.args and len(n.args) == 2:
        k = [x for x in n.args if x is not ph][0]
        if k.op == 'c':
            return k.args[1]
    return None


class GEv(E.Ev):
    def __init__(self, prog, anchors, here=None, opaque=None):
        self.anch = anchors
        self.here = here
        X.CONSUMING.clear()
        X.ADVANCING.clear()
        X.CONSUMING.update(n for n, a in anchors.items() if a.consumes)

        def opq(name, fn):
            return name in anchors or (opaque is not None and opaque(name, fn))
        super().__init__(prog, opaque=opq, inline=lambda n, fn: True, maxpaths=3000)
        self.skippers = {n for n, a in anchors.items() if a.skips is not None}
        self.poss_memo = {}
        self.models = dict(M.MODELS)
        self.models.update(GM)
        self.loops = []
        self.unsafe_cuts = []

    # ------------------------------------------------------------ outcomes
    def variant(self, x, adtp=None, names=None):
        x = self.force(x)
        if x.op == 'adt':
            return x.args[1]
        if adtp == 'nom::Context':
            return 'Code'
        if adtp == NERR:
            k = x.args[0] if x.op == 'vf' and x.args[1] == 'Err' else None
            names = ['Error', 'Failure']
            if k is not None and k.op == 'call' and k.args[0] in self.anch and not self.anch[k.args[0]].fail:
                return 'Error'
        if adtp == t.RESULT and x.op == 'call' and x.args[0] in self.anch:
            a = self.anch[x.args[0]]
            if not a.err and not a.fail:
                return 'Ok'
            if self.excluded(x):
                return 'Err'
        return super().variant(x, adtp, names)

    def excluded(self, x):
        """the sub-parser cannot accept here: the first character is not one it starts with"""
        a = self.anch[x.args[0]]
        if len(x.args) < 2:
            return False
        for s, first in self.firsts(x.args[0], x.args[1]):
            P, e = self.possible(s)
            if e is True or not (P & first):
                return True
        return False

    def firsts(self, name, s):
        """the positions at which a sub-parser applied to s needs certain characters"""
        a = self.anch.get(name)
        r = []
        if a is not None and a.first is not None:
            r.append((s, a.first))
        if a is not None and a.lead is not None:
            r.append((X.ws(a.lead[0], s), a.lead[1]))
        return r

    def opaque(self, name, args):
        if name in self.skippers:
            s = self.deref(args[0])
            return gok(X.ws(name, s), t.call(name + ':value', s))
        return super().opaque(name, args)

    # ------------------------------------------------------------ what the first character can be
    def possible(self, s):
        """(characters s can start with, whether s is empty: True / False / None) on this path"""
        P, e = self.direct(s)
        if s.op != 'c' and s is not t.NIL:
            # what is known after the optional space at s: either s starts with that, or with space
            for n in self.skippers:
                a, w = self.anch[n], X.ws(n, s)
                if a.eats is not None and w is not s and w.op == 'ws':
                    Q, f = self.direct(w)
                    if f is False:
                        P, e = P & (Q | a.eats), False
        return P, e

    def direct(self, s):
        if s is t.NIL:
            return frozenset(), True
        P, e = ALL, None
        if s.op == 'c' and s.args[0] == 'str':
            return frozenset([chkey(s.args[1][0])]), False
        if s.op == 'ws':
            a = self.anch[s.args[0]]
            P = P - a.skips
            Q, f = self.direct(s.args[1])
            if a.eats is not None and not Q & a.eats:
                P, e = P & Q, f
            for n in X.SKIPPERS.get(s.args[0], ()):
                y = X.ws(n, s.args[1])      # skipping that less first makes no difference
                if a.eats is not None and n in self.anch and y is not s and y.op == 'ws':
                    Q, f = self.direct(y)
                    if not Q & a.eats:
                        P, e = P & Q, f
        elif s.op == 'aft':
            P = frozenset(c for c in P if in_class(s.args[1], c) is not True)
        for a, w in self.facts.items():
            if not a.args or not isinstance(a.args[0], t.T):
                if a.op == 'call' and isinstance(w, bool) and len(a.args) > 1 and a.args[1].op == 'head' and \
                        a.args[1].args[0].op == 'chars' and a.args[1].args[0].args[0] is s:
                    n, more = a.args[0], a.args[2:]
                    P = frozenset(c for c in P if c == NA or classify(n, t.c('char', c), *more) in (t.cbool(w), a))
                continue
            if a.op == 'lt' and w is True and a.args[1].op == 'offs' and a.args[1].args[0] is s and a.args[0].op == 'c':
                r = a.args[1].args[1]
                if r.op == 'aft' and r.args[0] is s:
                    P = frozenset(c for c in P if in_class(r.args[1], c) is not False)
                    e = False
                continue
            if a.args[0] is s:
                if a.op == 'starts':
                    k = chkey(a.args[1].args[1][0])
                    if w is True:
                        P = P & {k}
                        e = False
                    elif len(a.args[1].args[1]) == 1 and k != NA:
                        P = P - {k}
                elif a.op == 'empty':
                    e = w
                elif a.op == 'nospan':
                    if w is True:
                        P = frozenset(c for c in P if in_class(a.args[1], c) is not True)
                    else:
                        P = frozenset(c for c in P if in_class(a.args[1], c) is not False)
                        e = False
            elif a.op == 'variant':
                k = a.args[0] if w == 'Ok' else a.args[0].args[0] if w == 'Failure' and a.args[0].op == 'vf' else None
                if k is not None and k.op == 'call' and len(k.args) > 1 and k.args[0] in self.anch:
                    for q, first in self.firsts(k.args[0], k.args[1]):
                        if q is s:
                            P = P & first
                            e = False
        return frozenset() if e is True else P, e

    # ------------------------------------------------------------ theory of positions
    def known(self, atom):
        v = super().known(atom)
        if v is not None:
            return v
        op = atom.op
        if op == 'variant' and atom.args[0].op == 'call' and len(atom.args[0].args) == 2 and atom.args[0].args[0] in self.anch:
            # nothing left, or something it cannot start with
            name, s = atom.args[0].args
            a = self.anch[name]
            if a.consumes and a.err and isinstance(s, t.T):
                P, e = self.possible(s)
                if e is True or a.first is not None and e is False and not P & a.first:
                    return 'Err'
        if op in ('starts', 'nospan', 'empty') and isinstance(atom.args[0], t.T):
            P, e = self.possible(atom.args[0])
            if op == 'empty':
                if e is None and not P:
                    return True
                if e is not None:
                    return e
            elif op == 'starts':
                k = chkey(atom.args[1].args[1][0])
                if k not in P or e is True:
                    return False
                if len(P) == 1 and e is False and k != NA and len(atom.args[1].args[1]) == 1:
                    return True
            else:
                if e is True or all(in_class(atom.args[1], c) is False for c in P):
                    return True
                if e is False and all(in_class(atom.args[1], c) is True for c in P):
                    return False
        if op == 'call' and len(atom.args) > 1 and isinstance(atom.args[1], t.T) and atom.args[1].op == 'head' and atom.args[1].args[0].op == 'chars':
            P, e = self.possible(atom.args[1].args[0].args[0])
            r = {None if c == NA else classify(atom.args[0], t.c('char', c), *atom.args[2:]) for c in P}
            if r == {t.TRUE} or r == {t.FALSE}:
                return r == {t.TRUE}
        if op == 'starts':
            s, lit = atom.args
            L = lit.args[1]
            for a, w in self.facts.items():
                if a.op == 'starts' and a.args[0] is s:
                    m = a.args[1].args[1]
                    if w is True:
                        if m.startswith(L):
                            return True
                        if not L.startswith(m):
                            return False
                    elif L.startswith(m):
                        return False
                elif a.op == 'empty' and a.args[0] is s and w is True:
                    return False
                elif a.op == 'nospan' and a.args[0] is s:
                    q = t.open_lam(a.args[1], t.c('char', L[0]))
                    if w is True and q is t.TRUE or w is False and q is t.FALSE:
                        return False
            if s.op == 'aft':
                if t.open_lam(s.args[1], t.c('char', L[0])) is t.TRUE:
                    return False
        elif op == 'lt' and atom.args[1].op == 'offs' and atom.args[0].op == 'c':
            n, o = atom.args[0].args[1], atom.args[1]
            for a, w in self.facts.items():
                if a.op == 'lt' and a.args[1] is o and a.args[0].op == 'c':
                    if w is True and a.args[0].args[1] >= n:
                        return True
                    if w is False and a.args[0].args[1] <= n:
                        return False
                elif a.op == 'nospan' and w is True and o.args[1] is X.aft(*a.args):
                    return False
                elif a.op == 'empty' and w is True and a.args[0] is o.args[0]:
                    return n < 0
        elif op == 'empty':
            s = atom.args[0]
            for a, w in self.facts.items():
                if a.op == 'starts' and a.args[0] is s and w is True:
                    return False
                if a.op == 'nospan' and a.args[0] is s and w is False:
                    return False
        elif op == 'nospan':
            s, cls = atom.args
            for a, w in self.facts.items():
                if a.op == 'starts' and a.args[0] is s and w is True:
                    q = t.open_lam(cls, t.c('char', a.args[1].args[1][0]))
                    if q in (t.TRUE, t.FALSE):
                        return q is t.FALSE
                elif a.op == 'empty' and a.args[0] is s and w is True:
                    return True
                elif a.op == 'lt' and w is True and a.args[1].op == 'offs' and a.args[1].args[0] is s and \
                        a.args[1].args[1] is X.aft(s, cls):
                    return False
                elif a.op == 'nospan' and a.args[0] is s:
                    # subclass
                    r = self.subclass(cls, a.args[1]) if w is True else self.subclass(a.args[1], cls)
                    if r:
                        return w
        return None

    def subclass(self, a, b):
        """every character of class a is in class b"""
        if a is b:
            return True
        x = t.sym('c')
        ra, rb = residual(t.open_lam(a, x), x), residual(t.open_lam(b, x), x)
        return members(a) <= members(b) and (ra is t.FALSE or rb is t.TRUE or ra is rb)

    def lit_here(self, s, n):
        """the literal known to be the first n bytes of s on this path"""
        for a, w in self.facts.items():
            if a.op == 'starts' and a.args[0] is s and w is True:
                L = a.args[1].args[1].encode()
                if len(L) >= n:
                    try:
                        return t.cstr(L[:n].decode())
                    except UnicodeDecodeError:
                        return None
        return None

    def head_char(self, c):
        """the constant a first character is known to be"""
        if c.op == 'head' and c.args[0].op == 'chars':
            s = c.args[0].args[0]
            for a, w in self.facts.items():
                if a.op == 'starts' and a.args[0] is s and w is True:
                    return t.c('char', a.args[1].args[1][0])
        return c

    def cut_ok(self, s, n):
        pass

    def before(self, s, n):
        self.cut_ok(s, n)
        if not self.boundary(s, n):
            self.unsafe_cuts.append((s, n))
        r = self.cut(s, n)
        if n.op == 'c':
            L = self.lit_here(s, n.args[1])
            if L is not None:
                return r, L
        return r, X.upto(s, r)

    def cut(self, s, n):
        """the position n bytes into s: the end of a run if that run is exactly that long"""
        if n.op == 'c':
            for a, w in list(self.facts.items()):
                if a.op == 'lt' and w is True and a.args[0] is t.cint(n.args[1] - 1) and a.args[1].op == 'offs' and a.args[1].args[0] is s \
                        and a.args[1].args[1] is not t.NIL and not self.decide(t.lt(n, a.args[1])):
                    return t.NIL if self.facts.get(t.empty(a.args[1].args[1])) is True else a.args[1].args[1]
        return X.skip(s, n)

    def ascii_class(self, cls):
        return ascii_only(cls)

    def longer(self, s, cls, n):
        """the longest prefix of s in the class has more than n bytes on this path"""
        return t.nnot(X.nospan(s, cls)) if n == 0 else t.lt(t.cint(n), X.offs(s, X.aft(s, cls)))

    def classes_at(self, s):
        """the ASCII classes of which s is known to start with at least one character"""
        r = []
        for a, w in self.facts.items():
            c = None
            if a.op == 'nospan' and a.args[0] is s and w is False:
                c = a.args[1]
            elif a.op == 'lt' and w is True and a.args[1].op == 'offs' and a.args[1].args[0] is s and a.args[1].args[1].op == 'aft':
                c = a.args[1].args[1].args[1]
            if c is not None and c not in r and self.ascii_class(c):
                r.append(c)
        return r

    def span_bound(self, s, r):
        """(class, most bytes) of the text from s to r if it is a bounded, non-empty run of an ASCII class on this path"""
        for cls in self.classes_at(s):
            if True:
                e = X.aft(s, cls)
                if r is e or r is t.NIL and self.known(t.empty(e)) is True:
                    for f, v in list(self.facts.items()):
                        if f.op == 'lt' and v is False and f.args[1] is X.offs(s, e) and f.args[0].op == 'c':
                            return cls, f.args[0].args[1]
                n = X.dist(s, r)
                if n is not None:
                    if n >= 1 and self.holds(self.longer(s, cls, n - 1)):
                        return cls, n
        return None

    def holds(self, b):
        if b is t.TRUE:
            return True
        if b.op == 'case' and set(b.args[1]) == {True, False}:
            v = self.known(b.args[0])
            if v is None:
                return False
            return self.holds(b.args[2 + b.args[1].index(v)])
        return self.known(b) is True

    def boundary(self, s, n):
        """n is known to be a character boundary of s, within s"""
        if n.op == 'case':
            return all(self.boundary(s, x) for x in n.args[2:])
        if n.op == 'offs' and X.descends(n.args[1], s) or n.op == 'slen':
            return True
        if n.op == 'c':
            k = n.args[1]
            if k == 0 or self.lit_here(s, k) is not None:
                return True
            for cls in self.classes_at(s):
                if self.holds(self.longer(s, cls, k - 1)):
                    return True
            if k == 1:
                P, e = self.possible(s)
                if e is False and NA not in P:
                    return True
        return n is first_len(s) or X.skip(s, n).op != 'skip'

    # ------------------------------------------------------------ loops as state machines
    def state_loop(self, fr, header, blocks, m0, hav, ps, one):
        keys = list(hav)
        backs = [p for p in ps if p.kind == 'back']
        others = [p for p in ps if p.kind != 'back']
        for p in ps:
            if p.kind not in ('back', 'ret', 'exit', 'panic'):
                raise E.Unsupported('loop outcome %s' % p.kind)
        news = {k: [self.rd(p, *k) for p in backs] for k in keys}

        def inc(v, phi):
            if v is phi:
                return t.NIL
            if v.op == 'cat' and v.args[0] is phi:
                r = t.cat(*v.args[1:])
                return None if t.occurs(r, phi) else r
            return None
        # collections that are only appended to are outputs, unless an iteration looks at them
        accs = [k for k in keys if all(inc(v, hav[k]) is not None for v in news[k]) and
                not any(t.occurs(v, hav[k]) for k2 in keys if k2 != k for v in news[k2])]
        while True:
            state = [k for k in keys if k not in accs]
            items = []
            for i, p in enumerate(backs):
                items.append((p.decs, mk('cont', t.tup(*[news[k][i] for k in state]), t.tup(*[inc(news[k][i], hav[k]) for k in accs]))))
            for p in others:
                items.append((p.decs, mk('stop')))
            tree = t.tree(items)
            seen = [k for k in accs if t.occurs(tree, hav[k])]
            if not seen:
                break
            accs = [k for k in accs if k not in seen]
        if not state:
            raise E.Unsupported('loop without state')
        init = [self.setrd(m0, k) for k in state]
        phis = [hav[k] for k in state]
        # states kept as an index into a text become positions
        conv = {}
        for j, ph in enumerate(phis):
            uses = [(x.args[0], offset_const(x.args[1], ph)) for x in t.subterms(tree) if x.op == 'skip' and t.occurs(x.args[1], ph)]
            if not uses or any(k is None for _, k in uses) or len({x for x, _ in uses}) != 1:
                continue
            s, k = uses[0][0], t.cint(min(k for _, k in uses))
            R = t.sym('pos')
            tr2 = t.subst(tree, {ph: t.sub(X.offs(s, R), k)})

            def leaf(q, j=j, s=s, k=k):
                if q.op != 'cont':
                    return q
                vs = list(q.args[0].args)
                vs[j] = X.skip(s, t.add(vs[j], k))
                return mk('cont', t.tup(*vs), q.args[1])
            tr2 = t.lift(tr2, leaf)
            if not any(x.op == 'offs' and x.args[1] is R for x in t.subterms(tr2)):
                tree = tr2
                conv[j] = (s, k)
                phis[j] = R
                init[j] = X.skip(s, t.add(init[j], k))
        F, A = self.machine(tree, phis, init, len(accs))
        mem = dict(m0)
        saved = self.mem
        self.mem = mem
        for c, v in saved.items():
            if c not in mem:
                mem[c] = v
        for j, k in enumerate(state):
            v = F[j]
            if j in conv:
                v = t.sub(X.offs(conv[j][0], v), conv[j][1])
            self.mem[k[0]] = self.setstep(self.mem[k[0]], k[1], v)
        for j, k in enumerate(accs):
            self.mem[k[0]] = self.setstep(self.mem[k[0]], k[1], t.cat(self.setrd(m0, k), A[j]))
        # the iteration that leaves the loop
        fr.active = fr.active | {header}
        try:
            kind, v = one()
        finally:
            fr.active = fr.active - {header}
        if kind == 'back':
            raise E.PathDead()
        if kind == 'ret':
            return 'ret', v
        if kind == 'exit':
            return 'goto', v
        raise E.Unsupported('loop exit %s' % kind)

    def machine(self, tree, phis, init, nacc):
        """final state and collected items of the loop with this one-iteration tree"""
        z = t.sym('state')
        m = {p: (z if len(phis) == 1 else t.f(z, str(i), 'tup')) for i, p in enumerate(phis)}
        l = t.lam(t.subst(tree, m), z)
        i = self.loop_id(l, len(phis), nacc)
        F = [mk('itend', i, *init) if len(phis) == 1 else mk('itend', i, *(init + [t.cint(j)])) for j in range(len(phis))]
        if len(phis) == 1:
            F = [mk('itend', init[0], i, t.ZERO)]
            A = [mk('itseq', init[0], i, t.cint(j)) for j in range(nacc)]
        else:
            F = [mk('itend', t.tup(*init), i, t.cint(j)) for j in range(len(phis))]
            A = [mk('itseq', t.tup(*init), i, t.cint(j)) for j in range(nacc)]
        return F, A

    def loop_id(self, l, n, k):
        diff = None
        for j, (l2, n2, k2, _) in enumerate(self.loops):
            if (n2, k2) == (n, k):
                d = self.loop_diff(l2, l)
                if d is None:
                    return mk('loop', j)
                diff = diff or d
        self.loops.append((l, n, k, diff))
        i = mk('loop', len(self.loops) - 1)
        z = t.sym('state')
        if n == 1 and all(X.descends(q.args[0].args[0], z) for q in t.leaves(t.open_lam(l, z)) if q.op == 'cont'):
            X.ADVANCING.add(i)
        return i

    def loop_diff(self, a, b):
        if a is b:
            return None
        z = t.sym('state')
        ta, tb = t.open_lam(a, z), t.open_lam(b, z)

        def both():
            r = []
            for x in (ta, tb):
                r.append(self.force(x))
            return 'ok', tuple(r)
        for q in self.explore(both):
            if q.kind == 'dead':
                continue
            if q.kind != 'ok':
                return 'panic'
            x, y = [self.tidy(v, q.facts) for v in q.val]
            if x is not y:
                return 'in one iteration, when %s: %s / %s' % (E.show_path(q.decs), t.show(x), t.show(y))
        return None

    def tidy(self, v, facts):
        """normal form of a value under the facts of a path"""
        m = {}
        for a, w in facts.items():
            if w is True:
                if a.op == 'empty':
                    m[a.args[0]] = t.NIL
                elif a.op == 'eq' and a.args[0].op != 'c' and a.args[1].op != 'c':
                    for x, y in ((a.args[0], a.args[1]), (a.args[1], a.args[0])):
                        if X.parent(x) is y:
                            m[x] = y
                elif a.op == 'nospan':
                    m[X.aft(*a.args)] = a.args[0]
                elif a.op == 'lt' and a.args[1].op == 'offs' and a.args[0].op == 'c' and \
                        facts.get(t.lt(t.cint(a.args[0].args[1] + 1), a.args[1])) is False:
                    s, e = a.args[1].args
                    k = X.skip(s, t.cint(a.args[0].args[1] + 1))
                    if facts.get(t.empty(e)) is True:
                        m[k] = t.NIL
                    else:
                        m[e] = k
                elif a.op == 'starts':
                    L = a.args[1].args[1]
                    m[first_len(a.args[0])] = t.cint(len(L[0].encode()))
                    m[t.head(mk('chars', a.args[0]))] = t.c('char', L[0])
                    b = L.encode()
                    for k in range(1, len(b) + 1):
                        try:
                            m[mk('upto', a.args[0], X.skip(a.args[0], t.cint(k)))] = t.cstr(b[:k].decode())
                        except UnicodeDecodeError:
                            pass
        if m:
            for _ in range(4):
                y = t.subst(v, m)
                if y is v:
                    break
                v = y
        return E.normalise(v, facts, self)


# ---------------------------------------------------------------- transfer functions of nom's input primitives
GM = {}


def g(*names):
    def deco(fn):
        for n in names:
            GM[n] = fn
        return fn
    return deco


def lit(v):
    if v.op == 'c' and v.args[0] == 'str':
        return v
    if v.op == 'c' and v.args[0] == 'char':
        return t.cstr(v.args[1])
    return None


@g('Compare::compare')
def compare(ev, ctx, a):
    s, L = ev.deref(a[0]), ev.deref(a[1])
    k = lit(L)
    at = X.starts(s, k) if k is not None else mk('startsv', s, L)
    return t.adt('nom::CompareResult', 'Ok' if ev.decide(at) else 'Error', [])


@g('InputTake::take_split')
def take_split(ev, ctx, a):
    s, n = ev.deref(a[0]), ev.deref(a[1])
    r, b = ev.before(s, n)
    return t.tup(r, b)


@g('InputTake::take')
def take(ev, ctx, a):
    return ev.before(ev.deref(a[0]), ev.deref(a[1]))[1]


@g('Slice::slice', 'Index::index')
def slice_(ev, ctx, a):
    s, r = ev.deref(a[0]), ev.force(ev.deref(a[1]))
    if r.op == 'adt':
        n = r.args[0].split('::')[-1]
        if n == 'RangeFrom':
            ev.cut_ok(s, r.args[3])
            return ev.cut(s, r.args[3])
        if n == 'RangeTo':
            return ev.before(s, r.args[3])[1]
        if n == 'RangeFull':
            return s
    if r.op == 'range':
        ev.cut_ok(s, r.args[0])
        return ev.before(X.skip(s, r.args[0]), t.sub(r.args[1], r.args[0]))[1]
    if ctx.name == 'Index::index':
        m = M.MODELS.get('Index::index')
        if m:
            return m(ev, ctx, a)
        return NotImplemented
    raise E.Unsupported('slice with %s' % t.show(r))


@g('InputIter::iter_elements', 'str::chars')
def iter_elements(ev, ctx, a):
    return mk('chars', ev.deref(a[0]))


@g('InputIter::iter_indices', 'str::char_indices')
def iter_indices(ev, ctx, a):
    return mk('char_indices', ev.deref(a[0]))


@g('num::from_str_radix', 'u32::from_str_radix', 'u64::from_str_radix', 'u16::from_str_radix', 'u8::from_str_radix')
def from_str_radix(ev, ctx, a):
    s, n = ev.deref(a[0]), ev.deref(a[1])
    v = t.call(ctx.name, s, n)
    if s.op in ('upto', 'skip', 'aft', 'p', 's', 'f', 'ws', 'find', 'itend'):
        base, rest = s.args if s.op == 'upto' else (s, t.NIL)
        sp = ev.span_bound(base, rest)
        if sp and n.op == 'c':
            radix = n.args[1]
            k = radix if members(sp[0]) <= digits_of(radix) else None
            for q in (2, 8, 10, 16):
                if k and q < radix and members(sp[0]) <= digits_of(q):
                    k = q
                    break
            bits = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64}[ctx.name.split('::')[0]]
            if k and radix ** sp[1] <= 2 ** bits:
                return t.ok(mk('radix', s, n))
    return v


@g('InputLength::input_len', 'str::len', 'String::len')
def input_len(ev, ctx, a):
    s = ev.deref(a[0])
    for f, w in ev.facts.items():
        if f.op == 'empty' and w is True and f.args[0].op == 'aft' and f.args[0].args[0] is s:
            return X.offs(s, f.args[0])
    return X.slen(s)


@g('AtEof::at_eof')
def at_eof(ev, ctx, a):
    return t.TRUE


@g('nom::need_more', 'internal::need_more', 'nom::need_more_err', 'internal::need_more_err', 'util::need_more', 'util::need_more_err')
def need_more(ev, ctx, a):
    return GERR


@g('Convert::convert')
def convert(ev, ctx, a):
    return a[0]


@g('AsChar::as_char')
def as_char(ev, ctx, a):
    return ev.head_char(ev.deref(a[0]))


@g('AsChar::len', 'char::len_utf8')
def char_len(ev, ctx, a):
    c = ev.head_char(ev.deref(a[0]))
    if c.op == 'c':
        return t.cint(len(c.args[1].encode()))
    return t.call('len_utf8', c)


def first_len(s):
    """the number of bytes of the first character of s"""
    return t.call('len_utf8', t.head(mk('chars', s)))


@g('InputIter::slice_index')
def chars_index(ev, ctx, a):
    s, n = ev.deref(a[0]), ev.deref(a[1])
    if n is t.ZERO:
        return t.some(t.ZERO)
    if n is not t.ONE:
        return NotImplemented
    if ev.decide(t.empty(s)):
        return t.NONE
    return t.some(char_len(ev, ctx, [t.head(mk('chars', s))]))


def cls_of(ev, f, neg=False):
    """the class of characters a predicate accepts"""
    def one(c):
        b = ev.decide(ev.apply(f, [c]))
        return t.cbool(b != neg)
    return canon(ev.lam(one, 'c'))


def span(ev, s, cls):
    r = X.aft(s, cls)
    if ev.facts.get(t.empty(r)) is True:
        r = t.NIL
    return r, X.upto(s, r)


def text_pattern(ev, p):
    """the class of characters a text pattern of one character or a predicate stands for"""
    if p.op == 'c':
        k = lit(p)
        if k is None or len(k.args[1]) != 1:
            return None
        ch = t.c('char', k.args[1])
        return canon(ev.lam(lambda c: t.eq(c, ch), 'c'))
    try:
        return cls_of(ev, p)
    except E.Unsupported:
        return None


@g('str::trim_start_matches', 'str::trim_left_matches')
def trim_start(ev, ctx, a):
    cls = text_pattern(ev, ev.value_arg(a[1]))
    if cls is None:
        return M.str_pat(ev, ctx, a)
    return span(ev, ev.deref(a[0]), cls)[0]


@g('str::starts_with')
def starts_with(ev, ctx, a):
    k = lit(ev.value_arg(a[1]))
    return X.starts(ev.deref(a[0]), k) if k is not None else M.str_pat(ev, ctx, a)


@g('str::strip_prefix')
def strip_prefix(ev, ctx, a):
    s, k = ev.deref(a[0]), lit(ev.value_arg(a[1]))
    if k is None:
        return M.str_pat(ev, ctx, a)
    return t.some(ev.cut(s, t.cint(len(k.args[1].encode())))) if ev.decide(X.starts(s, k)) else t.NONE


@g('InputTakeAtPosition::split_at_position')
def split_at_position(ev, ctx, a):
    s = ev.deref(a[0])
    r, b = span(ev, s, cls_of(ev, a[1], True))
    return gok(r, b)


@g('InputTakeAtPosition::split_at_position1')
def split_at_position1(ev, ctx, a):
    s = ev.deref(a[0])
    cls = cls_of(ev, a[1], True)
    if ev.decide(X.nospan(s, cls)):
        return GERR
    r, b = span(ev, s, cls)
    return gok(r, b)


@g('InputIter::position')
def position(ev, ctx, a):
    s = ev.deref(a[0])
    cls = cls_of(ev, a[1], True)
    n = X.slen(X.upto(s, X.aft(s, cls)))
    if ev.decide(t.empty(X.aft(s, cls))):
        return t.NONE
    return t.some(n)


def fixed_class(pred):
    def fn(ev):
        x = t.sym('c')
        return canon(t.lam(pred(x), x))
    return fn


DIGIT = fixed_class(lambda c: t.call('AsChar::is_dec_digit', c))
BLANK = fixed_class(lambda c: t.bor(t.eq(c, t.c('char', ' ')), t.eq(c, t.c('char', '\t'))))


@g('nom::digit', 'nom::digit1', 'character::digit', 'nom::digit0')
def digit(ev, ctx, a):
    s = ev.deref(a[0])
    cls = DIGIT(ev)
    if not ctx.name.endswith('0') and ev.decide(X.nospan(s, cls)):
        return GERR
    return gok(*span(ev, s, cls))


@g('nom::space0', 'nom::space1', 'nom::space')
def space(ev, ctx, a):
    s = ev.deref(a[0])
    cls = BLANK(ev)
    if not ctx.name.endswith('0') and ev.decide(X.nospan(s, cls)):
        return GERR
    return gok(*span(ev, s, cls))


def spans(cls, *names):
    @g(*['nom::' + n for n in names])
    def fn(ev, ctx, a):
        s = ev.deref(a[0])
        k = cls(ev)
        if not ctx.name.endswith('0') and ev.decide(X.nospan(s, k)):
            return GERR
        return gok(*span(ev, s, k))


def any_of(*cs):
    return fixed_class(lambda x: functools.reduce(t.bor, [t.eq(x, t.c('char', c)) for c in cs]))


NOLINE = fixed_class(lambda x: t.nnot(t.bor(t.eq(x, t.c('char', '\r')), t.eq(x, t.c('char', '\n')))))


for k_, n_ in (('is_hex_digit', 'hex_digit'), ('is_oct_digit', 'oct_digit'), ('is_alpha', 'alpha'), ('is_alphanum', 'alphanumeric')):
    spans(fixed_class(lambda x, k_=k_: classify('AsChar::' + k_, x)), n_, n_ + '0', n_ + '1')
spans(any_of(' ', '\t', '\r', '\n'), 'multispace', 'multispace0', 'multispace1')


@g('nom::anychar', 'character::anychar')
def anychar(ev, ctx, a):
    s = ev.deref(a[0])
    if ev.decide(t.empty(s)):
        return GERR
    c = t.head(mk('chars', s))
    return gok(ev.cut(s, char_len(ev, ctx, [c])), c)


@g('nom::rest')
def rest(ev, ctx, a):
    s = ev.deref(a[0])
    return gok(t.NIL, s)


@g('nom::not_line_ending')
def not_line_ending(ev, ctx, a):
    s = ev.deref(a[0])
    r, b = span(ev, s, NOLINE(ev))
    if ev.decide(X.starts(r, t.cstr('\r'))) and not ev.decide(X.starts(r, t.cstr('\r\n'))):
        return GERR
    return gok(r, b)


@g('nom::eol', 'nom::line_ending')
def eol(ev, ctx, a):
    s = ev.deref(a[0])
    for L in ('\n', '\r\n'):
        if ev.decide(X.starts(s, t.cstr(L))):
            return gok(X.skip(s, t.cint(len(L))), t.cstr(L))
    return GERR


@g('AsChar::is_dec_digit', 'AsChar::is_alpha', 'AsChar::is_alphanum', 'AsChar::is_hex_digit', 'AsChar::is_oct_digit',
   'char::is_alphanumeric', 'char::is_alphabetic', 'char::is_numeric', 'char::is_ascii_digit', 'char::is_whitespace',
   'char::is_ascii_hexdigit', 'char::is_ascii_alphanumeric', 'char::is_ascii_alphabetic', 'char::is_ascii_whitespace',
   'char::is_ascii_punctuation', 'char::is_ascii', 'char::is_ascii_uppercase', 'char::is_ascii_lowercase',
   'char::is_ascii_control', 'char::is_ascii_graphic', 'char::is_control', 'char::is_uppercase', 'char::is_lowercase')
def char_class(ev, ctx, a):
    c = ev.head_char(ev.deref(a[0]))
    n = ctx.name
    if n == 'char::is_ascii_digit':
        n = 'AsChar::is_dec_digit'
    return classify(n, c)


def classify(n, c, *more):
    if c.op == 'c':
        ch = c.args[1]
        if ord(ch) < 128:
            k = n.split('::')[-1]
            r = {'is_dec_digit': ch.isdigit(), 'is_alpha': ch.isalpha(), 'is_alphanum': ch.isalnum(),
                 'is_hex_digit': ch in '0123456789abcdefABCDEF', 'is_oct_digit': ch in '01234567',
                 'is_alphanumeric': ch.isalnum(), 'is_alphabetic': ch.isalpha(), 'is_numeric': ch.isdigit(),
                 'is_whitespace': ch in ' \t\n\r\x0b\x0c',
                 'is_ascii_hexdigit': ch in '0123456789abcdefABCDEF', 'is_ascii_alphanumeric': ch.isalnum(),
                 'is_ascii_alphabetic': ch.isalpha(), 'is_ascii_whitespace': ch in ' \t\n\r\x0c',
                 'is_ascii_punctuation': ch in '!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~', 'is_ascii': True,
                 'is_ascii_uppercase': ch.isupper(), 'is_ascii_lowercase': ch.islower(),
                 'is_ascii_control': ord(ch) < 32 or ord(ch) == 127, 'is_ascii_graphic': 32 < ord(ch) < 127,
                 'is_control': ord(ch) < 32 or ord(ch) == 127, 'is_uppercase': ch.isupper(), 'is_lowercase': ch.islower(),
                 'is_id_start': ch.isalpha(), 'is_id_continue': ch.isalnum() or ch == '_'}.get(k)
            if k == 'is_digit':
                base = more[0].args[1]
                r = ch in '0123456789abcdefghijklmnopqrstuvwxyz'[:base] + '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'[:base]
            if r is not None:
                return t.cbool(r)
    return t.call(n, c, *more)


@g('char::is_digit', 'char::to_digit')
def is_digit(ev, ctx, a):
    c = ev.head_char(ev.deref(a[0]))
    n = ctx.name
    if n == 'char::to_digit':
        return t.call(n, c, a[1])
    if a[1].op == 'c' and a[1].args[1] == 10:
        return classify('AsChar::is_dec_digit', c)
    return classify(n, c, a[1])


@g('unic_ucd_ident::is_id_start', 'unic_ucd_ident::is_id_continue', 'id::is_id_start', 'id::is_id_continue')
def ident(ev, ctx, a):
    return classify(ctx.name.split('::')[-1], ev.head_char(ev.deref(a[0])))


@g('FindToken::find_token')
def find_token(ev, ctx, a):
    s, c = ev.deref(a[0]), ev.head_char(ev.deref(a[1]))
    if s.op == 'c' and s.args[0] == 'str':
        r = t.FALSE
        for ch in reversed(s.args[1]):
            r = t.bor(t.eq(c, t.c('char', ch)), r)
        return r
    return NotImplemented


@g('FindSubstring::find_substring')
def find_substring(ev, ctx, a):
    s, L = ev.deref(a[0]), ev.deref(a[1])
    if ev.decide(mk('contains', s, L)):
        return t.some(X.offs(s, mk('find', s, L)))
    return t.NONE


@g('Offset::offset')
def offset(ev, ctx, a):
    return X.offs(ev.deref(a[0]), ev.deref(a[1]))


@g('ExtendInto::new_builder')
def new_builder(ev, ctx, a):
    return t.NIL


@g('ExtendInto::extend_into')
def extend_into(ev, ctx, a):
    acc = ev.deref(a[1])
    ev.store(a[1], t.cat(acc, ev.deref(a[0])))
    return t.UNIT


@g('ParseTo::parse_to')
def parse_to(ev, ctx, a):
    """`s.parse().ok()`"""
    from .eval import head_ty, npath
    ty = ctx.targ(1)
    h = head_ty(ty)
    r = None
    for b in ev.prog.bodies.values():
        if b.j.get('self_adt') == h and npath(b.j.get('trait') or '').endswith('FromStr'):
            r = ev.run_body(b, [ev.deref(a[0])])
    if r is None:
        r = t.call('parse:' + E.norm_ty(ty), ev.deref(a[0]))
    ok, v = ev.res(r)
    return t.some(v) if ok else t.NONE


@g('nom::recognize_float')
def recognize_float(ev, ctx, a):
    return ev.opaque('nom::recognize_float', a)


# ---------------------------------------------------------------- specification vocabulary
class GErr(Exception):
    pass


class GFail(Exception):
    def __init__(self, codes=(), inner=None):
        self.codes, self.inner = codes, inner


class Gram:
    """grammar combinators with nom's semantics, acting on the current path"""

    def __init__(self, S):
        self.S, self.ev = S, S.ev

    specs = {}      # specification of each named production, used for those that no longer are functions of their own

    # primitives: return (rest, value); raise GErr / GFail
    def tag(self, s, L):
        if self.ev.decide(X.starts(s, t.cstr(L))):
            return X.skip(s, t.cint(len(L.encode()))), t.cstr(L)
        raise GErr()

    def oneof(self, s, chars):
        for c in chars:
            if self.ev.decide(X.starts(s, t.cstr(c))):
                return X.skip(s, t.cint(len(c.encode()))), t.c('char', c)
        raise GErr()

    def cls(self, pred):
        x = t.sym('c')
        return canon(t.lam(pred(x), x))

    def while0(self, s, cls):
        return span(self.ev, s, cls)

    def while1(self, s, cls):
        if self.ev.decide(X.nospan(s, cls)):
            raise GErr()
        return self.while0(s, cls)

    def upto_n(self, s, cls, n):
        """one to n characters of an ASCII class"""
        r, v = self.while1(s, cls)
        if self.ev.decide(t.lt(t.cint(n - 1), X.offs(s, X.aft(s, cls)))):
            r = self.ev.cut(s, t.cint(n))
            return r, X.upto(s, r)
        return r, v

    def eof(self, s):
        if self.ev.decide(t.empty(s)):
            return s, t.NIL
        raise GErr()

    def call(self, name, s, *args):
        if name in self.specs and name not in self.ev.prog.names():
            return self.specs[name](self, s, *args)
        r = self.ev.opaque(name, [s] + list(args))
        ok, v = self.ev.res(r)
        if ok:
            return t.f(v, '0', 'tup'), t.f(v, '1', 'tup')
        k = self.ev.variant(v, NERR)
        if k == 'Error':
            raise GErr()
        raise GFail((), t.vf(v, 'Failure', '0', NERR))

    def ok(self, name, s, *args):
        try:
            self.call(name, s, *args)
            return True
        except (GErr, GFail):
            return False

    def word(self, s, w):
        """the text w (not a literal)"""
        if self.ev.decide(mk('startsv', s, w)):
            return X.skip(s, X.slen(w))
        raise GErr()

    def alt(self, s, *ps):
        for p in ps:
            try:
                return p(s)
            except GErr:
                pass
        raise GErr()

    def opt(self, s, p):
        try:
            r, v = p(s)
            return r, v
        except GErr:
            return s, None

    def peek(self, s, p):
        p(s)
        return s

    def loop(self, init, step):
        """step(state) -> (state, items) or None to stop.  Returns (state, items) at the first stop."""
        ph = t.sym('state')

        def one():
            try:
                r = step(ph)
            except (GErr, GFail):
                r = None
            if r is None:
                return 'ok', mk('stop')
            return 'ok', mk('cont', t.tup(r[0]), t.tup(*r[1]))
        ps = self.ev.explore(one)
        nacc = 0
        for p in ps:
            if p.kind == 'ok' and p.val.op == 'cont':
                nacc = len(p.val.args[1].args)
        tree = self.ev.paths_tree([p for p in ps])
        F, A = self.ev.machine(tree, [ph], [init], nacc)
        # the step at which it stops may fail: failures propagate
        if step(F[0]) is not None:
            raise E.PathDead()
        return F[0], A

    def many0(self, s, p):
        def step(st):
            try:
                r, v = p(st)
            except GErr:
                return None
            if self.ev.decide(t.eq(r, st)):
                return None
            return r, [t.lst(v)]
        F, A = self.loop(s, step)
        return F, A[0]

    def many1(self, s, p):
        """nom 4's many1 reports an error for a failure of its first element as a failure without its code"""
        try:
            r, v = p(s)
        except GFail:
            raise GFail()
        r2, vs = self.many0(r, p)
        return r2, t.cat(t.lst(v), vs)

    def sep_list(self, s, sep, p):
        try:
            r, v = p(s)
        except GErr:
            return s, t.NIL
        if self.ev.decide(t.eq(r, s)):
            raise GErr()

        def step(st):
            try:
                r2, _ = sep(st)
                if self.ev.decide(t.eq(X.slen(r2), X.slen(st))):
                    return None
                r3, v3 = p(r2)
            except GErr:
                return None
            if self.ev.decide(t.eq(X.slen(r3), X.slen(r2))):
                return None
            return r3, [t.lst(v3)]
        F, A = self.loop(r, step)
        return F, t.cat(t.lst(v), A[0])

    def result(self, p, s):
        """term for the outcome of p on s"""
        try:
            r, v = p(s)
        except GErr:
            return mk('gerr')
        except GFail as e:
            return mk('gfail', tuple(sorted(e.codes)), e.inner if e.inner is not None else t.UNIT)
        return mk('gok', r, v)


def outcome(ev, v):
    """the same for a computed IResult"""
    ok, x = ev.res(v)
    if ok:
        return mk('gok', t.f(x, '0', 'tup'), t.f(x, '1', 'tup'))
    k = ev.variant(x, NERR)
    if k == 'Error':
        return mk('gerr')
    x = ev.force(x)
    p = t.vf(x, 'Failure', '0', NERR)
    codes = set()
    inner = t.UNIT
    for q in t.subterms(p):
        if q.op == 'adt' and q.args[0].endswith('ErrorKind') and q.args[1] == 'Custom':
            codes.add(q.args[3].args[1] if q.args[3].op == 'c' else t.show(q.args[3]))
        if q.op == 'vf' and q.args[1] == 'Failure' and q.args[3] == NERR:
            inner = q
    return mk('gfail', tuple(sorted(codes)), inner)
