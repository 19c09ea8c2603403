"""Path-sensitive value-flow summaries of MIR bodies.

`Ev.summary(body)` gives, for every feasible path of a function, the value it
returns and the final value of everything reachable through `&mut` parameters,
as terms over the parameters (vlib/terms.py).  No concrete execution and no
solver: branch conditions are kept as uninterpreted atoms, loops are summarised
by data-flow (havoc, iterate to a fixpoint, classify as map / filter / fold /
search), std calls have algebraic transfer functions (vlib/models.py), local
calls are inlined and everything else is an uninterpreted operation.
"""
import functools
import re
from . import terms as t
from .terms import mk, T

TRANSPARENT = {
    'std::boxed::Box', 'std::ptr::Unique', 'std::ptr::NonNull', 'std::mem::ManuallyDrop', 'std::mem::MaybeUninit',
    'std::borrow::Cow', 'nom::types::CompleteStr', 'nom::types::CompleteByteSlice', 'std::cell::Ref',
    'std::mem::maybe_dangling::MaybeDangling', 'std::mem::MaybeDangling',
}
SHORT = {'std::option::Option': t.OPTION, 'std::result::Result': t.RESULT, 'std::ops::ControlFlow': t.FLOW}


class Unsupported(Exception):
    pass


class PathDead(Exception):
    pass


class Panic(Exception):
    def __init__(self, msg=''):
        self.msg = msg


class OuterBack(Exception):
    """control reached the header of an enclosing loop"""

    def __init__(self, frame, bb):
        self.frame, self.bb = frame, bb


@functools.lru_cache(maxsize=None)
def npath(p):
    """normalised path: crates merged, generics stripped"""
    p = re.sub(r'^(failure::core|core|alloc)::', 'std::', p)
    out = []
    d = 0
    i = 0
    while i < len(p):
        if p.startswith('::<', i):
            # skip a turbofish, but keep `<impl str>`
            if p.startswith('::<impl ', i):
                j = i + 3
                depth = 1
                while depth:
                    ch = p[j]
                    depth += (ch == '<') - (ch == '>' and p[j - 1] != '-')
                    j += 1
                out.append('::' + p[i + 8:j - 1])
                i = j
                continue
            j = i + 3
            depth = 1
            while depth:
                ch = p[j]
                depth += (ch == '<') - (ch == '>' and p[j - 1] != '-')
                j += 1
            i = j
            continue
        out.append(p[i])
        i += 1
    return ''.join(out)


def nadt(p):
    if p is None:
        return None
    p = re.sub(r'^(failure::core|core|alloc)::', 'std::', p)
    return SHORT.get(p, p)


def strip_refs(ty):
    while True:
        ty = ty.strip()
        m = re.match(r"^&('[\w#]+ )?(mut )?(.*)$", ty, re.S)
        if m:
            ty = m.group(3)
            continue
        return ty


def head_ty(ty):
    """outermost type constructor of a type string, references stripped"""
    ty = strip_refs(ty)
    m = re.match(r'^([\w:]+)(<|$)', ty)
    if m:
        return re.sub(r'^(failure::core|core|alloc)::', 'std::', m.group(1))
    if ty.startswith('['):
        return '[]'
    if ty.startswith('('):
        return '()'
    return ty


def ty_args(ty):
    ty = strip_refs(ty)
    i = ty.find('<')
    if ty.startswith('('):
        inner = ty[1:-1]
    elif i < 0:
        return []
    else:
        inner = ty[i + 1:ty.rfind('>')]
    out, d, cur = [], 0, ''
    for k, ch in enumerate(inner):
        if ch in '<([{':
            d += 1
        elif ch in ')]}' or (ch == '>' and inner[k - 1] != '-'):
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return [x for x in out if not re.match(r"^'[\w#]+$", x)]


def norm_ty(ty):
    ty = re.sub(r"'[\w#]+ ?", '', ty)
    ty = re.sub(r'<, ', '<', ty)
    ty = re.sub(r'<>', '', ty)
    ty = ty.replace('failure::core::', 'std::').replace('alloc::', 'std::') if 'alloc::' in ty and 'std::alloc' not in ty else ty.replace('failure::core::', 'std::')
    return ty.strip()


def ty_unify(pat, ty, generics, env):
    """match a declared type (with generic names) against a concrete one, ignoring lifetimes"""
    pat, ty = norm_ty(pat), norm_ty(ty)
    if pat in generics:
        if pat in env:
            return env[pat] == ty
        env[pat] = ty
        return True
    if pat == ty:
        return True
    if pat.startswith('&') and ty.startswith('&'):
        pm, tm = pat.startswith('&mut '), ty.startswith('&mut ')
        if pm != tm:
            return False
        n = 5 if pm else 1
        return ty_unify(pat[n:], ty[n:], generics, env)
    if pat.startswith('&') or ty.startswith('&'):
        return False
    if pat.startswith('[') or ty.startswith('['):
        if pat.startswith('[') and ty.startswith('['):
            return ty_unify(pat[1:-1].split(';')[0], ty[1:-1].split(';')[0], generics, env)
        return False
    if head_ty(pat) != head_ty(ty):
        return False
    a, b = ty_args(pat), ty_args(ty)
    # default type arguments may be printed on one side only
    n = min(len(a), len(b))
    if not n and (a or b):
        return False
    return all(ty_unify(x, y, generics, env) for x, y in zip(a[:n], b[:n]))


class Frame:
    __slots__ = ('body', 'cells', 'active', 'owner')

    def __init__(self, body):
        self.body = body
        self.cells = None
        self.active = set()


class Body:
    """a MIR body with its control-flow facts"""

    def __init__(self, j):
        self.j = j
        self.id = j['id']
        self.blocks = j['blocks']
        self._loops = None

    def succs(self, b):
        tm = self.blocks[b]['t']
        k = tm['k']
        if k == 'goto':
            out = [tm['t']]
        elif k == 'switch':
            out = [x[1] for x in tm['tg']]
            if tm.get('else') is not None:
                out.append(tm['else'])
        elif k in ('call', 'assert', 'drop'):
            out = [tm['t']] if tm.get('t') is not None else []
        elif k in ('return', 'unreachable', 'resume'):
            out = []
        else:
            out = [tm['t']] if tm.get('t') is not None else []
        return [s for s in out if not self.blocks[s]['c']]

    def loops(self):
        """header -> set of blocks of its natural loop"""
        if self._loops is not None:
            return self._loops
        order, seen, onstack = [], set(), set()
        back = []
        stack = [(0, iter(self.succs(0)))]
        seen.add(0)
        onstack.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s in onstack:
                    back.append((b, s))
                elif s not in seen:
                    seen.add(s)
                    onstack.add(s)
                    stack.append((s, iter(self.succs(s))))
                    break
            else:
                onstack.discard(b)
                order.append(b)
                stack.pop()
        preds = {}
        for b in seen:
            for s in self.succs(b):
                preds.setdefault(s, []).append(b)
        loops = {}
        for b, h in back:
            body = loops.setdefault(h, {h})
            work = [b]
            while work:
                x = work.pop()
                if x in body:
                    continue
                body.add(x)
                work.extend(preds.get(x, []))
        self._loops = loops
        return loops

    def live_in(self, header):
        """locals that may be read at or after `header` before being overwritten (borrowed ones always)"""
        if not hasattr(self, '_live'):
            n = len(self.blocks)
            use, deff, borrowed = [set() for _ in range(n)], [set() for _ in range(n)], set()

            def op(o, u, d):
                if isinstance(o, dict) and o.get('k') in ('copy', 'move'):
                    pl(o['p'], u, d)

            def pl(p, u, d):
                if p['l'] not in d:
                    u.add(p['l'])
                for e in p['p']:
                    if e['k'] == 'index' and e.get('l') is not None and e['l'] not in d:
                        u.add(e['l'])
            for i, bl in enumerate(self.blocks):
                u, d = use[i], deff[i]
                for s in bl['s']:
                    if s['k'] != '=':
                        continue
                    r = s['r']
                    for key in ('o', 'a', 'b', 'c', 'v'):
                        v = r.get(key)
                        if isinstance(v, list):
                            for x in v:
                                op(x, u, d)
                        else:
                            op(v, u, d)
                    if isinstance(r.get('p'), dict):
                        pl(r['p'], u, d)
                        if r['k'] in ('ref', 'rawptr') and r.get('mut'):
                            borrowed.add(r['p']['l'])
                    if s['p']['p']:
                        pl(s['p'], u, d)
                    else:
                        d.add(s['p']['l'])
                tm = bl['t']
                if tm['k'] == 'call':
                    op(tm['f'], u, d)
                    for a in tm['a']:
                        op(a, u, d)
                    if tm.get('d'):
                        if tm['d']['p']:
                            pl(tm['d'], u, d)
                        else:
                            d.add(tm['d']['l'])
                elif tm['k'] in ('switch', 'assert'):
                    op(tm.get('o'), u, d)
                    for key in ('len', 'index', 'a', 'b'):
                        op(tm.get(key), u, d)
                elif tm['k'] == 'return':
                    if 0 not in d:
                        u.add(0)
            live = [set() for _ in range(n)]
            changed = True
            while changed:
                changed = False
                for i in range(n - 1, -1, -1):
                    o = set()
                    for s in self.succs(i):
                        o |= live[s]
                    new = use[i] | (o - deff[i])
                    if new != live[i]:
                        live[i] = new
                        changed = True
            self._live = live
            self._borrowed = borrowed
        return self._live[header] | self._borrowed


class Program:
    """all crates' facts, indexed"""

    def __init__(self, facts):
        self.facts = facts
        self.bodies = {}
        self.adts = {}
        self.impls = []
        self.statics = {}
        self.closures_at = {}
        self.promoted = {}
        self.ctor = {}
        self._names = None
        self.methods = {}
        for cr, F in facts.items():
            for b in F['bodies']:
                self.bodies[b['id']] = Body(b)
                if b['kind'] == 'Closure':
                    self.closures_at[(b['file'], b['line'], b['col'])] = b['id']
                for i, pb in enumerate(b.get('promoted') or []):
                    self.promoted[(b['id'], i)] = Body(pb)
            for a in F['adts']:
                self.adts[a['path']] = a
                for v in a['variants']:
                    self.ctor[(a['path'], v['name'])] = a
            self.impls += F['impls']
            for b in F['bodies']:
                if b.get('trait') and b.get('self_adt') and b['kind'] != 'Closure':
                    k = (b['self_adt'], npath(b['trait']), b['path'].split('::')[-1])
                    self.methods.setdefault(k, []).append(self.bodies[b['id']])
            for s in F['statics']:
                self.statics[s['path']] = s
        self.ext = {}
        for b in self.bodies.values():
            for blk in b.j['blocks']:
                for st in blk['s']:
                    r = st.get('r')
                    if r and r.get('k') == 'discr':
                        a = nadt(r.get('adt') or '')
                        if a and a not in self.adts:
                            self.ext[a] = [d[1] for d in r['variants']]

    def names(self):
        """paths of the free functions"""
        if self._names is None:
            self._names = {npath(b.j['path']) for b in self.bodies.values() if b.j['kind'] != 'Closure' and not b.j.get('trait')}
        return self._names

    def fns(self, **kw):
        """bodies matching attributes (self_adt, trait, name, path, ...)"""
        out = []
        for b in self.bodies.values():
            j = b.j
            if all((j.get(k) if k not in ('trait',) else npath(j.get(k) or '')) == v for k, v in kw.items()):
                out.append(b)
        return out

    def fn(self, **kw):
        r = self.fns(**kw)
        if len(r) != 1:
            raise Unsupported('expected exactly one function %s, found %d' % (kw, len(r)))
        return r[0]

    def fields(self, path, variant):
        a = self.adts.get(path)
        if a is None:
            return None
        for v in a['variants']:
            if v['name'] == variant:
                return [x['name'] for x in v['fields']]
        return None

    def variants(self, path):
        if path == t.OPTION:
            return ['None', 'Some']
        if path == t.RESULT:
            return ['Ok', 'Err']
        a = self.adts.get(path)
        return [v['name'] for v in a['variants']] if a else self.ext.get(path)


class Path:
    def __init__(self, decs, kind, val, mem, facts, trace):
        self.decs, self.kind, self.val, self.mem, self.facts, self.trace = decs, kind, val, mem, facts, trace


class Ev:
    def __init__(self, prog, opaque=None, inline=None, maxpaths=4000):
        self.prog = prog
        self.gens = [{}]
        self.elem_of = {}
        self.int_text = set()
        self.opaque_pred = opaque or (lambda name, fn: False)
        self.identity = set()
        self.inline_pred = inline or (lambda name, fn: False)
        self.mem = {}
        self.facts = {}
        self.trace = []
        self.prefix = []
        self.decs = []
        self.alts = []
        self.ncell = 0
        self.loop_memo = {}
        self.stack = []
        self.fnitems = {}
        self.vadt = {}
        self.maxpaths = maxpaths
        self.analysed = set()
        self.calls_seen = 0
        from . import models
        self.models = models.MODELS

    # ------------------------------------------------------------ paths
    def explore(self, thunk):
        saved = (self.mem, self.facts, self.trace, self.prefix, self.decs, self.alts)
        out = []
        work = [[]]
        n = 0
        base_trace = list(self.trace)
        cell0 = cells = self.ncell
        while work:
            prefix = work.pop()
            n += 1
            self.ncell = cell0
            if n > self.maxpaths:
                raise Unsupported('too many paths')
            self.mem = dict(saved[0])
            self.facts = dict(saved[1])
            self.trace = list(base_trace)
            self.prefix = prefix
            self.decs = []
            self.alts = []
            stack = list(self.stack)
            try:
                kind, val = thunk()
            except PathDead:
                kind, val = 'dead', None
            except Panic as e:
                kind, val = 'panic', mk('panic', e.msg)
            self.stack = stack
            cells = max(cells, self.ncell)
            for i in range(len(prefix), len(self.decs)):
                for v in self.alts[i]:
                    work.append([d[1] for d in self.decs[:i]] + [v])
            out.append(Path(self.decs, kind, val, self.mem, self.facts, self.trace[len(base_trace):]))
        self.mem, self.facts, self.trace, self.prefix, self.decs, self.alts = saved
        self.ncell = cells
        return out

    def known(self, atom):
        v = self.facts.get(atom)
        if v is not None:
            return v
        if atom.op == 'eq':
            a, b = atom.args
            for x, y in ((a, b), (b, a)):
                if y.op == 'c':
                    if x.op == 'len':
                        e = self.facts.get(mk('empty', x.args[0]))
                        if e is True or e is False and y is t.ZERO:
                            return e is True and y is t.ZERO
                    for fa, fv in self.facts.items():
                        if fv is True and fa.op == 'eq':
                            p, q = fa.args
                            if (p is x and q.op == 'c' and q is not y) or (q is x and p.op == 'c' and p is not y):
                                return False
        if atom.op == 'empty':
            for fa, fv in self.facts.items():
                if fv is True and fa.op == 'eq' and fa.args[0].op == 'c' and fa.args[1].op == 'len' and fa.args[1].args[0] is atom.args[0]:
                    return fa.args[0] is t.ZERO
        return None

    def fork(self, atom, vals, why=None):
        if atom.op == 'empty' and atom.args[0].op == 'tail' and self.facts.get(t.empty(atom.args[0].args[0])) is False:
            # nothing after the first of a sequence that has one
            n = t.eq(t.ONE, t.length(atom.args[0].args[0]))
            if n.op == 'eq':
                atom = n
        v = self.known(atom)
        if v is not None:
            if v not in vals:
                raise PathDead()
            return v
        vals = self.feasible(atom, list(vals))
        if len(vals) == 1:
            self.facts[atom] = vals[0]
            return vals[0]
        i = len(self.decs)
        if i < len(self.prefix):
            v = self.prefix[i]
            alts = []
        else:
            v = vals[0]
            alts = vals[1:]
        self.decs.append((atom, v))
        self.alts.append(alts)
        self.facts[atom] = v
        return v

    def feasible(self, atom, vals):
        """values an atom about the first element passing a filter can have: the element passes the filter"""
        if len(vals) < 2:
            return vals
        for h in t.subterms(atom):
            if h.op == 'head' and h.args[0].op == 'fm':
                b = t.open_lam(h.args[0].args[1], h)
                c = t.lift(b, lambda q: t.nnot(t.empty(q)))
                if c.op != 'case':
                    continue
                left = [v for v in vals if t.cof(c, atom, v) is not t.FALSE]
                if left:
                    vals = left
        return vals

    def force(self, x):
        """decide the case analysis at the root of a term"""
        while x.op == 'case':
            v = self.fork(x.args[0], x.args[1])
            x = x.args[2 + x.args[1].index(v)]
        if x.op == 'dead':
            raise PathDead()
        if x.op == 'panic':
            raise Panic(x.args[0])
        return x

    def decide(self, b):
        b = self.force(b)
        if b is t.TRUE:
            return True
        if b is t.FALSE:
            return False
        if b.op == 'not':
            return not self.decide(b.args[0])
        if b.op == 'c':
            raise Unsupported('boolean expected, got %s' % b)
        return self.fork(b, (True, False))

    def variant(self, x, adtp=None, names=None):
        x = self.force(x)
        if x.op == 'adt':
            return x.args[1]
        names = names or self.prog.variants(adtp)
        if not names:
            raise Unsupported('variants of %s' % adtp)
        atom = mk('variant', x)
        if adtp:
            self.vadt[atom] = adtp
        return self.fork(atom, sorted(names))

    def opt(self, x):
        """None or the payload of an Option"""
        x = self.force(x)
        if self.variant(x, t.OPTION) == 'None':
            return None
        return t.vf(x, 'Some', '0', t.OPTION)

    def res(self, x):
        """(True, ok) or (False, err)"""
        x = self.force(x)
        v = self.variant(x, t.RESULT)
        return v == 'Ok', t.vf(x, v, '0', t.RESULT)

    def tree(self, fn):
        """term computed by fn (which may fork), as a decision tree"""
        ps = self.explore(lambda: ('ok', fn()))
        return self.paths_tree(ps)

    def paths_tree(self, ps):
        items = []
        for p in ps:
            items.append((p.decs, t.DEAD if p.kind == 'dead' else p.val))
        return t.tree(items)

    def lam(self, fn, name='e', of=None):
        """lambda term for a Python function that may fork, on the elements of a sequence"""
        x = t.sym(name)
        if of is not None:
            self.elem_of[x] = of
        before = self.mem
        ps = self.explore(lambda: ('ok', fn(x)))
        for p in ps:
            if p.kind in ('ok',):
                for c, v in before.items():
                    if p.mem.get(c) is not v:
                        raise Unsupported('closure with side effects')
        return t.lam(self.paths_tree(ps), x)

    # ------------------------------------------------------------ memory
    def new_cell(self, v=None):
        self.ncell += 1
        self.mem[self.ncell] = v
        return self.ncell

    def ptr(self, cell, path=()):
        return mk('ptr', cell, path)

    def getstep(self, v, s):
        if v is None:
            return None
        k = s[0]
        if k == 'f':
            return t.f(v, s[1], s[2])
        if k == 'vf':
            if v.op == 'case':
                v = self.force(v)
            return t.vf(v, s[1], s[2], s[3])
        if k == 'val':
            return t.get(v, s[1])
        if k == 'nth':
            return t.nth(v, s[1])
        if k == 'nthback':
            return t.last(v) if s[1] == 1 else mk('nthback', v, t.cint(s[1]))
        raise Unsupported('step %s' % (s,))

    def read(self, cell, path=()):
        v = self.mem.get(cell)
        for s in path:
            v = self.getstep(v, s)
        return v

    def setstep(self, v, path, new):
        if not path:
            return new
        s = path[0]
        inner = self.getstep(v, s) if v is not None else None
        inner = self.setstep(inner, path[1:], new)
        k = s[0]
        if v is None:
            v = mk('undef')
        if k == 'f':
            if v.op not in ('adt', 'tup', 'setf', 'undef') and s[2] != 'tup':
                a = self.prog.adts.get(s[2])
                if a and len(a['variants']) == 1:
                    fs = [x['name'] for x in a['variants'][0]['fields']]
                    return t.adt(s[2], a['variants'][0]['name'],
                                 [(n, inner if n == s[1] else t.f(v, n, s[2])) for n in fs])
            return t.setf(v, s[1], s[2], inner)
        if k == 'vf':
            fs = ['0'] if s[3] in (t.OPTION, t.RESULT, t.FLOW) else self.prog.fields(s[3], s[1])
            if fs is None:
                raise Unsupported('write into variant of %s' % s[3])
            return t.adt(s[3], s[1], [(n, inner if n == s[2] else t.vf(v, s[1], n, s[3])) for n in fs])
        if k == 'val':
            return t.put(v, s[1], inner)
        if k == 'nth':
            return t.setnth(v, s[1], inner)
        raise Unsupported('write step %s' % (s,))

    def write(self, cell, path, new):
        self.mem[cell] = self.setstep(self.mem.get(cell), path, new)

    def deref(self, p):
        """value behind a reference (identity on erased references)"""
        while p is not None and p.op == 'ptr':
            p = self.read(p.args[0], p.args[1])
        return p

    def store(self, p, v):
        """write through a &mut"""
        if p.op != 'ptr':
            self.trace.append(('write', p, v))
            return
        cur = self.read(p.args[0], p.args[1])
        if cur is not None and cur.op == 'ptr' and not (v is not None and v.op == 'ptr'):
            return self.store(cur, v)
        self.write(p.args[0], p.args[1], v)

    def sub_ptr(self, p, *steps):
        while True:
            v = self.read(p.args[0], p.args[1])
            if v is not None and v.op == 'ptr':
                p = v
            else:
                break
        return self.ptr(p.args[0], p.args[1] + tuple(steps))

    # ------------------------------------------------------------ places & operands
    def place(self, fr, p):
        cell, path = fr.cells[p['l']], ()
        pend = None
        for s in p['p']:
            k = s['k']
            if k == 'deref':
                v = self.read(cell, path)
                if v is not None and v.op == 'ptr':
                    cell, path = v.args
            elif k == 'down':
                pend = s['v']
            elif k == 'field':
                a = nadt(s.get('adt'))
                if a in TRANSPARENT or a == '<cow>':
                    pend = None
                    continue
                v = self.read(cell, path)
                if v is not None and v.op == 'ptr' and a is not None and not path:
                    # an owned wrapper around a pointer (Pin, &mut adaptors)
                    pass
                if v is not None and v.op == 'clo':
                    v = v.args[1 + s['i']]
                    if v.op == 'upv':
                        cell, path = v.args[0], ()
                    else:
                        cell, path = self.new_cell(v), ()
                    pend = None
                    continue
                if pend is not None and a is None:
                    raise Unsupported('downcast without type')
                step = ('vf', pend, s.get('n', str(s['i'])), a) if pend is not None else ('f', s.get('n', str(s['i'])), a or 'tup')
                pend = None
                path = path + (step,)
            elif k == 'index':
                i = self.read(fr.cells[s['l']])
                path = path + (('nth', i),)
            elif k == 'cindex':
                if s.get('end'):
                    path = path + (('nthback', s['i']),)
                else:
                    path = path + (('nth', t.cint(s['i'])),)
            elif k == 'subslice':
                v = self.read(cell, path)
                frm, to = s.get('from', 0), s.get('to', 0)
                if s.get('end') and to == 0:
                    v = t.drop(v, t.cint(frm))
                else:
                    v = mk('subslice', v, t.cint(frm), t.cint(to))
                cell, path = self.new_cell(v), ()
            else:
                raise Unsupported('projection %s' % k)
        return cell, path

    def operand(self, fr, o):
        if o['k'] in ('copy', 'move'):
            c, p = self.place(fr, o['p'])
            v = self.read(c, p)
            if v is None:
                return mk('undef')
            return v
        return self.const(o)

    def const(self, o):
        if 'fn' in o:
            return self.fnitem(o['fn'])
        ty = o['ty']
        if 'closure' in o and o['closure']:
            return mk('clo', o['closure'])
        m = re.search(r'\{closure@([^:]+):(\d+):(\d+): \d+:\d+\}$', ty)
        if m:
            for (fl, ln, col), bid in self.prog.closures_at.items():
                if fl == m.group(1) and ln == int(m.group(2)) and col + 1 == int(m.group(3)):
                    return mk('clo', bid)
            raise Unsupported('closure constant %s' % ty)
        if 'v' in o:
            v = o['v']
            if ty == 'bool':
                return t.cbool(v)
            if strip_refs(ty) == 'str' or ty.endswith('str'):
                return t.cstr(v)
            if strip_refs(ty) == 'char':
                return t.c('char', v if isinstance(v, str) else chr(v))
            if isinstance(v, bool):
                return t.cbool(v)
            if isinstance(v, int):
                return t.cint(v)
            if isinstance(v, str):
                try:
                    return t.cint(int(v))
                except ValueError:
                    return t.cstr(v)
        if 'f' in o:
            return t.c('float', float(o['f']))
        if ty == '()':
            return t.UNIT
        if 'static' in o:
            s = self.prog.statics.get(o['static'])
            if s and s.get('value') is not None:
                v = s['value']
                return t.cstr(v) if isinstance(v, str) else t.cint(v)
            return mk('static', o['static'])
        if 'bytes' in o and o['bytes'] is not None and 'path' not in o:
            return t.c('bytes', tuple(o['bytes']))
        if 'prom' in o:
            pb = self.prog.promoted.get(tuple(o['prom']))
            if pb is not None:
                return self.run_body(pb, [])
        return mk('const', o.get('path') or o.get('s') or ty, norm_ty(ty))

    def fnitem(self, fn):
        key = fn.get('res') or fn['id']
        k = key + '|' + ','.join(fn.get('args') or [])
        self.fnitems[k] = fn
        return mk('fnitem', k)

    # ------------------------------------------------------------ rvalues
    def rvalue(self, fr, r, dst_ty=None):
        k = r['k']
        if k == 'use':
            return self.operand(fr, r['o'])
        if k == 'ref' or k == 'rawptr':
            c, p = self.place(fr, r['p'])
            if r.get('mut') and r['mut'] not in ('const', 'Const', False):
                v = self.read(c, p)
                if v is not None and v.op == 'ptr' and r['p']['p'] and r['p']['p'][-1]['k'] == 'deref':
                    return v
                return self.ptr(c, p)
            v = self.read(c, p)
            if v is None:
                return self.ptr(c, p)
            return v
        if k == 'cast':
            v = self.operand(fr, r['o'])
            frm, to = r.get('from') or '', r.get('ty') or ''
            if v.op == 'discr' and to != 'isize' and to[:1] in 'iu':
                by = {n: d for d, n in v.args[2]}
                nm = self.variant(v.args[0], v.args[1], sorted(by))
                return t.cint(by[nm])
            if re.match(r'^[iuf](8|16|32|64|128|size)$', to) and re.match(r'^([iuf](8|16|32|64|128|size)|char|bool)$', frm):
                if v.op == 'c' and v.args[0] == 'int' and to[0] in 'iu':
                    return v
                if v.op == 'c' and v.args[0] == 'char':
                    return t.cint(ord(v.args[1]))
                return t.call('cast:%s:%s' % (frm, to), v)
            if v.op == 'discr' and to:
                return v
            return v
        if k == 'bin':
            return self.binop(r['op'], self.operand(fr, r['a']), self.operand(fr, r['b']), r.get('ty') or '')
        if k == 'un':
            v = self.operand(fr, r['a'])
            op = r['op']
            if op == 'Not':
                return self.boolmap(v, t.nnot) if r.get('ty', 'bool') == 'bool' or v.op in ('not', 'eq', 'lt', 'case', 'any', 'empty', 'haskey') or v in (t.TRUE, t.FALSE) else t.nnot(v)
            if op == 'Neg':
                if v.op == 'c' and v.args[0] in ('int', 'float'):
                    return t.c(v.args[0], -v.args[1])
                return t.call('neg', v)
            if op == 'PtrMetadata':
                return t.length(self.deref(v))
            return t.call('un:' + op, v)
        if k == 'discr':
            c, p = self.place(fr, r['p'])
            v = self.read(c, p)
            adtp = nadt(r.get('adt'))
            return mk('discr', v, adtp or '', tuple((d[0], d[1]) for d in r['variants']))
        if k == 'agg':
            a = r['a']
            vals = [self.operand(fr, o) for o in r['o']]
            if a == 'tuple':
                return t.tup(*vals)
            if a == 'array':
                return t.lst(*vals)
            if a == 'closure':
                return mk('clo', r['id'], *vals)
            if a == 'adt':
                p = nadt(r['adt'])
                if p in TRANSPARENT:
                    return vals[0] if vals else t.UNIT
                if p == 'std::ops::Range':
                    return t.rng(vals[0], vals[1])
                return t.adt(p, r['v'], list(zip(r['f'], vals)))
            if a == 'rawptr':
                return vals[0]
            raise Unsupported('aggregate %s' % a)
        if k == 'repeat':
            return mk('repeat', self.operand(fr, r['o']), str(r.get('n')))
        raise Unsupported('rvalue %s' % k)

    def boolmap(self, v, fn):
        return fn(v)

    def binop(self, op, a, b, ty):
        isf = ty in ('f32', 'f64')
        if op.endswith('WithOverflow'):
            return t.tup(self.binop(op[:-12], a, b, ty), t.FALSE)
        if op.endswith('Unchecked'):
            op = op[:-9]
        a, b = self.deref(a), self.deref(b)
        if isf:
            if op in ('Gt', 'Ge'):
                a, b = b, a
                op = 'Lt' if op == 'Gt' else 'Le'
            if op in ('Eq', 'Add', 'Mul', 'Ne') and t.sortkey(b) < t.sortkey(a):
                a, b = b, a
            if op == 'Ne':
                return t.nnot(t.call('f:Eq', a, b))
            return t.call('f:' + op, a, b)
        if op == 'Add':
            return t.add(a, b)
        if op == 'Sub':
            return t.sub(a, b)
        if op == 'Eq':
            return t.eq(a, b)
        if op == 'Ne':
            return t.nnot(t.eq(a, b))
        if op == 'Lt':
            return t.lt(a, b)
        if op == 'Gt':
            return t.lt(b, a)
        if op == 'Le':
            return t.nnot(t.lt(b, a))
        if op == 'Ge':
            return t.nnot(t.lt(a, b))
        if op == 'BitAnd' and ty == 'bool':
            return t.band(a, b)
        if op == 'BitOr' and ty == 'bool':
            return t.bor(a, b)
        if op == 'BitXor' and ty == 'bool':
            return t.ite(a, t.nnot(b), b)
        if op == 'Mul' and a.op == 'c' and b.op == 'c':
            return t.cint(a.args[1] * b.args[1])
        if op == 'Offset':
            return mk('offset', a, b)
        if op in ('Mul', 'BitAnd', 'BitOr', 'BitXor') and t.sortkey(b) < t.sortkey(a):
            a, b = b, a
        return t.call('op:' + op, a, b)

    # ------------------------------------------------------------ execution
    def generics(self, body, at):
        """what the type parameters of a function stand for in a call with arguments of types `at`"""
        if body.j['kind'] == 'Closure':
            return self.gens[-1]
        out = {}
        for i, ty in enumerate(at[:body.j['argc']]):
            p = body.j['locals'][1 + i]['ty']
            if re.match(r'^[A-Z]\w{0,2}$', p) and p != ty:
                out[p] = ty
        return out

    def run_body(self, body, args, at=()):
        """value returned by `body` applied to args (current path)"""
        self.gens.append(self.generics(body, at))
        try:
            return self.run_in(body, args)
        finally:
            self.gens.pop()

    def run_in(self, body, args):
        if len(self.stack) > 60:
            raise Unsupported('inlining too deep')
        self.analysed.add(body.id)
        fr = Frame(body)
        fr.cells = [self.new_cell(None) for _ in body.j['locals']]
        for i, a in enumerate(args):
            self.mem[fr.cells[1 + i]] = a
        self.stack.append(body.id)
        r = self.run_from(fr, 0)
        self.stack.pop()
        if body.j['locals'][0]['ty'] == '()':
            return t.UNIT
        return r

    def run_from(self, fr, bb):
        loops = fr.body.loops()
        while True:
            if bb in loops and bb not in fr.active:
                r = self.natural_loop(fr, bb, loops[bb])
                if r[0] == 'ret':
                    return r[1]
                bb = r[1]
                continue
            nxt = self.run_block(fr, bb)
            if nxt is None:
                v = self.mem[fr.cells[0]]
                return t.UNIT if v is None else v
            if nxt in fr.active:
                raise OuterBack(fr, nxt)
            bb = nxt

    def run_block(self, fr, bb):
        """execute one block; next block or None on return"""
        bl = fr.body.blocks[bb]
        for s in bl['s']:
            if s['k'] == '=':
                v = self.rvalue(fr, s['r'])
                c, p = self.place(fr, s['p'])
                pl = s['p']['p']
                if pl and pl[0]['k'] == 'deref' and c == fr.cells[s['p']['l']]:
                    # store through an erased reference: keep it visible as an effect
                    ty = fr.body.j['locals'][s['p']['l']]['ty']
                    if ty.startswith('&'):
                        self.trace.append(('write', self.read(c, p), v))
                        continue
                self.write(c, p, v)
            elif s['k'] == 'setdiscr':
                raise Unsupported('set discriminant')
        tm = bl['t']
        k = tm['k']
        if k == 'goto':
            return tm['t']
        if k == 'return':
            return None
        if k == 'drop':
            return tm['t']
        if k == 'assert':
            self.check_assert(fr, tm)
            return tm['t']
        if k == 'unreachable':
            raise PathDead()
        if k == 'switch':
            v = self.operand(fr, tm['o'])
            return self.switch(v, tm)
        if k == 'call':
            args = [self.operand(fr, a) for a in tm['a']]
            f = tm['f']
            fn = f.get('fn')
            if fn is None:
                v = self.apply(self.operand(fr, f), args)
            else:
                v = self.call(fn, args, tm)
            if tm.get('t') is None:
                raise Panic('diverging call')
            if v is not None:
                c, p = self.place(fr, tm['d'])
                self.write(c, p, v)
            return tm['t']
        if k == 'resume':
            raise PathDead()
        if tm.get('t') is not None:
            return tm['t']
        raise Unsupported('terminator %s' % k)

    def check_assert(self, fr, tm):
        pass

    def switch(self, v, tm):
        v = self.force(v)
        if v.op == 'discr':
            subj, adtp, variants = v.args
            if adtp in TRANSPARENT and adtp == 'std::borrow::Cow':
                name = self.fork(mk('cowvariant', subj), ('Borrowed', 'Owned'))
            else:
                name = self.variant(subj, adtp or None, [n for _, n in variants])
            d = [x for x, n in variants if n == name]
            if not d:
                raise PathDead()
            for val, tg in tm['tg']:
                if val == d[0]:
                    return tg
            return tm['else']
        if tm['ty'] == 'bool':
            b = self.decide(v)
            for val, tg in tm['tg']:
                if bool(val) == b:
                    return tg
            return tm['else']
        for val, tg in tm['tg']:
            cst = t.c('char', chr(val)) if tm['ty'] == 'char' else t.cint(val)
            if self.decide(t.eq(v, cst)):
                return tg
        return tm['else']

    # ------------------------------------------------------------ calls
    def apply(self, f, args):
        """call a function value"""
        f = self.deref(f)
        f = self.force(f)
        if f.op == 'clo':
            body = self.prog.bodies.get(f.args[0])
            if body is None:
                raise Unsupported('no body for closure %s' % f.args[0])
            if body.id in self.stack:
                raise Unsupported('recursive closure')
            n = body.j['argc'] - 1
            if n != len(args):
                if n == 1:
                    args = [t.tup(*args)]
                elif len(args) == 1:
                    args = [t.f(args[0], str(i), 'tup') for i in range(n)]
            # captured variables live in cells for the duration of the call
            env = mk('clo', f.args[0], *[mk('upv', self.new_cell(x)) if x.op != 'upv' else x for x in f.args[1:]])
            return self.run_body(body, [env] + list(args))
        if f.op == 'fnitem':
            fn = self.fnitems[f.args[0]]
            return self.call(fn, list(args), None)
        return t.call('apply', f, *[self.deref(a) for a in args])

    def fname(self, fn):
        """canonical name of a callee: Trait::method, Type::method or path"""
        if fn.get('trait'):
            return npath(fn['trait']).split('::')[-1] + '::' + fn['name']
        p = npath(fn['path'])
        if fn['crate'] in self.prog.facts:
            return p
        parts = p.split('::')
        return '::'.join(parts[-2:])

    def call(self, fn, args, tm):
        self.calls_seen += 1
        name = self.fname(fn)
        at = (tm or {}).get('at') or []
        dt = (tm or {}).get('dt') or ''
        if self.gens[-1]:
            at, dt = [self.known_ty(x) for x in at], self.known_ty(dt)
        ctx = Call(fn, name, at, dt)
        # constructors used as functions
        v = self.ctor(fn, args)
        if v is not None:
            return v
        body = None
        if fn.get('res'):
            body = self.prog.bodies.get(fn['res'])
        if body is None and not fn.get('unresolved') and not fn.get('virtual') and not fn.get('trait'):
            body = self.prog.bodies.get(fn['id'])
        if body is not None and body.j['kind'] == 'Closure' and name in ('FnOnce::call_once', 'FnMut::call_mut', 'Fn::call'):
            return self.models[name](self, ctx, args)
        if name in self.identity or name == 'Clone::clone' and body is not None and body.j.get('derived'):
            return self.deref(args[0])
        if self.opaque_pred(name, fn):
            return self.opaque(name, args)
        if body is not None:
            dty = body.j['locals'][0]['ty']
            if self.inline_pred(name, fn) or not (('nom::Err<' in dty and not dty.startswith('nom::Err<')) or 'nom::IResult' in dty):
                if body.id in self.stack:
                    return self.opaque(name, args)
                m = self.models.get('local:' + name)
                if m:
                    return m(self, ctx, args)
                return self.run_body(body, args, at)
            return self.opaque(name, args)
        if fn.get('trait') and args:
            # dispatch on the shape of the receiver
            rv = self.deref(args[0])
            if rv is not None and rv.op == 'case':
                rv = self.force(rv)
            if rv is not None and rv.op == 'adt' and rv.args[0] in self.prog.adts:
                tr = npath(fn['trait'])
                bs = self.prog.methods.get((rv.args[0], tr, fn['name']), [])
                if len(bs) == 1 and bs[0].id not in self.stack:
                    return self.run_body(bs[0], args)
                if not bs and tr.endswith('iter::Iterator') and args[0].op != 'ptr':
                    args = [self.seq_view(rv)] + list(args[1:])
        m = self.models.get(name)
        if m is not None:
            r = m(self, ctx, args)
            if r is not NotImplemented:
                return r
        return self.opaque(name, args)

    def known_ty(self, ty):
        g = self.gens[-1]
        return re.sub(r'\b(%s)\b(?!::)' % '|'.join(g), lambda m: g[m.group(1)], ty)

    def seq_view(self, v):
        """the sequence yielded by an iterator type of the analysed crates (payload = one sequence)"""
        bs = self.prog.methods.get((v.args[0], 'std::iter::Iterator', 'next'), [])
        if len(bs) != 1 or len(v.args) != 4 or bs[0].id in self.stack:
            return v
        phi = t.sym('it')

        def one():
            c = self.new_cell(t.adt(v.args[0], v.args[1], [(v.args[2][0], phi)]))
            r = self.run_body(bs[0], [self.ptr(c)])
            o = self.opt(r)
            return 'ok', (o, self.mem[c])
        ps = [p for p in self.explore(one) if p.kind != 'dead']
        e = t.sym('e')
        items = []
        for p in ps:
            if p.kind != 'ok' or p.trace:
                return v
            o, st = p.val
            if (t.empty(phi), True) in p.decs:
                if o is not None:
                    return v
                continue
            if o is None or st is not t.adt(v.args[0], v.args[1], [(v.args[2][0], t.tail(phi))]):
                return v
            m = {t.head(phi): e}
            items.append(([(t.subst(a, m), x) for a, x in p.decs if a is not t.empty(phi)], t.lst(t.subst(o, m))))
        body = t.tree(items)
        if t.occurs(body, phi):
            return v
        return t.fm(v.args[3], t.lam(body, e))

    def ctor(self, fn, args):
        p = npath(fn['path'])
        parts = p.split('::')
        if fn['crate'] in self.prog.facts:
            a = '::'.join(parts[:-1])
            if (a, parts[-1]) in self.prog.ctor:
                fs = self.prog.fields(a, parts[-1])
                return t.adt(a, parts[-1], list(zip(fs, args)))
            if (p, parts[-1]) in self.prog.ctor:
                fs = self.prog.fields(p, parts[-1])
                return t.adt(p, parts[-1], list(zip(fs, args)))
        last2 = '::'.join(parts[-2:])
        if last2 in ('Option::Some', 'v1::Some'):
            return t.some(args[0])
        if last2 in ('Result::Ok', 'v1::Ok'):
            return t.ok(args[0])
        if last2 in ('Result::Err', 'v1::Err'):
            return t.err(args[0])
        if last2 in ('Cow::Owned', 'Cow::Borrowed') or parts[-1] in ('CompleteStr',):
            return args[0]
        return None

    def opaque(self, name, args):
        """uninterpreted operation; arguments behind &mut get a new uninterpreted value"""
        vals = [self.value_arg(a) for a in args]
        r = t.call(name, *vals)
        self.trace.append(('call', name, tuple(vals)))
        for i, a in enumerate(args):
            if a.op == 'ptr':
                self.store(a, t.call(name + '@%d' % i, *vals))
        return r

    def value_arg(self, a):
        a = self.deref(a)
        if a is None:
            return mk('undef')
        if a.op == 'clo':
            body = self.prog.bodies.get(a.args[0])
            if body is not None and body.j['argc'] <= 3 and not any(x.op == 'ptr' for x in a.args[1:]):
                n = body.j['argc'] - 1
                try:
                    if n == 1:
                        return self.lam(lambda x: self.apply(a, [x]))
                    if n == 0:
                        return mk('thunk', self.tree(lambda: self.apply(a, [])))
                    return self.lam(lambda x: self.apply(a, [t.f(x, str(i), 'tup') for i in range(n)]))
                except Unsupported:
                    return a
            return a
        if a.op == 'fnitem':
            fn = self.fnitems[a.args[0]]
            return mk('fnref', self.fname(fn))
        if any(x.op == 'ptr' for x in t.subterms(a)):
            m = {x: self.value_arg(x) for x in t.subterms(a) if x.op == 'ptr'}
            a = t.subst(a, m)
        return a

    # ------------------------------------------------------------ loops over sequences (models, specs)
    def seq_loop(self, s, init, step):
        """Iterate `step(elem, state) -> ('back', state') | ('ret', value)` over s.
        state: dict key -> term.  Returns ('done', state) or ('ret', value)."""
        s = self.force(s) if s.op == 'case' else s
        e = t.sym('e')
        phis = {k: t.sym(str(k)) for k in init}

        def one():
            kind, v = step(e, dict(phis))
            if kind == 'back':
                return kind, tuple(v[k] for k in init)
            return kind, v
        before = self.mem
        ps = self.explore(one)
        outs = []
        for p in ps:
            if p.kind == 'dead':
                continue
            if p.trace:
                self.trace.append(('loop', s, tuple(p.trace)))
            if p.kind == 'back':
                outs.append((p.decs, 'back', dict(zip(init, p.val))))
            else:
                outs.append((p.decs, 'ret', (p.val,)))
        r = self.analyse(s, e, phis, init, outs)
        if r[0] == 'done':
            return r
        return 'ret', r[1][0]

    def analyse(self, s, e, phis, inits, outs):
        """Summarise one-iteration outcomes.
        outs: (decisions, 'back', {key: new}) | (decisions, 'ret', payload terms)"""
        keys = list(phis)
        rets = [o for o in outs if o[1] == 'ret']
        allphi = [phis[k] for k in keys]

        def has_phi(x, only=None):
            return any(t.occurs(x, p) for p in (allphi if only is None else only))

        # accumulators that do not change are not accumulators
        if rets:
            pred = t.tree([(d, t.TRUE if k == 'ret' else t.FALSE) for d, k, _ in outs])
            free = not has_phi(pred)
            if free:
                p = t.any_(s, t.lam(pred, e))
                if self.decide(p):
                    found = t.head(t.fm(s, t.lam(t.ite(pred, t.lst(e), t.NIL), e)))
                    idx = t.tree([(d, t.cint(i)) for i, (d, _, _) in enumerate(outs)])
                    idx = t.subst(idx, {e: found})
                    leaf = self.force(idx)
                    o = outs[leaf.args[1]]
                    if o[1] == 'back':
                        raise PathDead()
                    m = {e: found}
                    if any(has_phi(x) for x in o[2]):
                        pre = mk('until', s, t.lam(pred, e))
                        st = self.finals(pre, e, phis, inits, outs)
                        for k in keys:
                            m[phis[k]] = st[k]
                    return 'ret', tuple(t.subst(x, m) for x in o[2])
                if all(o[2][0].op == 'exit' for o in rets):
                    # a loop that stops at an element visits the elements before it; here these are all of them
                    s = mk('until', s, t.lam(pred, e))
                st = self.finals(s, e, phis, inits, outs)
                return 'done', st
            # exits that depend on the accumulators
            if all(not has_phi(o[2][0]) or True for o in rets) and all(
                    o[2][0].op == 'adt' and o[2][0].args[1] == 'Err' and o[2][0].args[0] == t.RESULT for o in rets):
                wrap = t.err
                strip = lambda q: q.args[3]
            else:
                wrap = strip = lambda q: q
            z = t.sym('z')
            items = []
            nextra = max(len(o[2]) for o in rets)
            places = [{o[2][i].args[0] if i < len(o[2]) and o[2][i].op == 'cellv' else None for o in rets} for i in range(nextra)]

            def same(i):
                return i > 0 and len(places[i]) == 1 and None not in places[i]

            def cell(i):
                return mk('cellv', min(places[i]), t.tfbrk(r, i)) if same(i) else None
            for d, k, v in outs:
                if k == 'back':
                    items.append((d, mk('cont', *[v[x] for x in keys])))
                else:
                    items.append((d, mk('brk', strip(v[0]), *[x.args[1] if same(i) else x for i, x in enumerate(v[1:], 1)])))
            tr = t.tree(items)
            acc = t.sym('acc')
            m = {phis[k]: (t.f(acc, str(i), 'tup') if len(keys) > 1 else acc) for i, k in enumerate(keys)}
            tr = t.subst(tr, m)
            init = t.tup(*[inits[k] for k in keys]) if len(keys) > 1 else (inits[keys[0]] if keys else t.UNIT)
            r = t.tryfold(s, init, t.lam2(tr, acc, e))
            if self.decide(t.tfdone(r)):
                return 'done', {k: (t.tfstate(r, i) if len(keys) > 1 else t.tfstate(r)) for i, k in enumerate(keys)}
            return 'ret', (wrap(t.tfbrk(r, 0)),) + tuple(
                x if x is not None else t.tfbrk(r, i) for i, x in ((i, cell(i)) for i in range(1, nextra)))
        return 'done', self.finals(s, e, phis, inits, outs)

    def finals(self, s, e, phis, inits, outs):
        keys = list(phis)
        trees = {}
        for k in keys:
            trees[k] = t.tree([(d, v[k] if kind == 'back' else t.DEAD) for d, kind, v in outs])
        res = {}
        rest = []
        for k in keys:
            r = self.classify(s, e, phis[k], [phis[x] for x in keys if x != k], inits[k], trees[k])
            if r is None:
                rest.append(k)
            else:
                res[k] = r
        if rest:
            # dependency closure
            deps = {k: {x for x in rest if t.occurs(trees[k], phis[x])} | {k} for k in rest}
            # accumulators already summarised that others depend on need their own state
            for k in rest:
                for x in keys:
                    if x not in rest and t.occurs(trees[k], phis[x]):
                        deps[k].add(x)
                        deps.setdefault(x, {y for y in keys if t.occurs(trees[x], phis[y])} | {x})
            ch = True
            while ch:
                ch = False
                for k in list(deps):
                    new = set(deps[k])
                    for x in deps[k]:
                        new |= deps.get(x, {x})
                    if new != deps[k]:
                        deps[k] = new
                        ch = True
            for k in rest:
                group = [x for x in keys if x in deps[k]]
                acc = t.sym('acc')
                if len(group) == 1:
                    b = t.subst(trees[k], {phis[k]: acc})
                    res[k] = t.fold(s, inits[k], t.lam2(b, acc, e))
                else:
                    m = {phis[x]: t.f(acc, str(i), 'tup') for i, x in enumerate(group)}
                    b = t.tup_tree([t.subst(trees[x], m) for x in group])
                    fo = t.fold(s, t.tup(*[inits[x] for x in group]), t.lam2(b, acc, e))
                    res[k] = t.f(fo, str(group.index(k)), 'tup')
        return res

    def classify(self, s, e, phi, others, init, tr):
        """closed form of an accumulator, or None"""
        if tr is t.DEAD:
            return init
        if any(t.occurs(tr, o) for o in others):
            return None
        if tr is phi:
            return init
        # boolean or / and
        if tr.op == 'case' or tr.op in ('not',):
            pass
        tt = t.subst(tr, {phi: t.TRUE})
        ff = t.subst(tr, {phi: t.FALSE})
        if t.occurs(tr, phi) and not t.occurs(tt, phi) and not t.occurs(ff, phi) and self.is_boolish(tr, phi):
            if tt is t.TRUE:
                return t.bor(init, t.any_(s, t.lam(ff, e)))
            if ff is t.FALSE:
                return t.band(init, t.nnot(t.any_(s, t.lam(t.nnot(tt), e))))
        for atoms, _ in t.tree_paths(tr):
            if any(t.occurs(a, phi) for a, _ in atoms):
                return None
        ls = set(t.leaves(tr))
        ls.discard(t.DEAD)

        def free(x):
            return not t.occurs(x, phi)

        def app(q):
            if q is phi:
                return t.NIL
            if q.op == 'cat' and q.args[0] is phi:
                r = t.cat(*q.args[1:])
                return r if free(r) else None
            return None

        def pre(q):
            if q is phi:
                return t.NIL
            if q.op == 'cat' and q.args[-1] is phi:
                r = t.cat(*q.args[:-1])
                return r if free(r) else None
            return None

        def addx(q):
            if q is phi:
                return t.NIL
            if q.op == 'add' and sum(1 for x in q.args if x is phi) == 1:
                r = t.add(*[x for x in q.args if x is not phi])
                return t.lst(r) if free(r) else None
            return None

        def putx(q):
            items = []
            while q.op in ('put', 'putall'):
                if not all(free(x) for x in q.args[1:]):
                    return None
                items.insert(0, t.lst(t.tup(q.args[1], q.args[2])) if q.op == 'put' else q.args[1])
                q = q.args[0]
            return t.cat(*items) if q is phi else None

        def setx(q):
            items = []
            while q.op in ('setadd', 'setext'):
                if not free(q.args[1]):
                    return None
                items.insert(0, t.lst(q.args[1]) if q.op == 'setadd' else q.args[1])
                q = q.args[0]
            return t.cat(*items) if q is phi else None
        for fn, build in ((setx, lambda x: t.setext(init, x)), (app, lambda x: t.cat(init, x)), (addx, lambda x: t.add(init, t.sum_(x))),
                          (putx, lambda x: t.putall(init, x))):
            if all(fn(q) is not None for q in ls):
                return build(t.fm(s, t.lam(t.lift(tr, fn), e)))
        if all(pre(q) is not None for q in ls):
            if all(pre(q).op == 'list' and len(pre(q).args) <= 1 for q in ls):
                return t.cat(t.rev(t.fm(s, t.lam(t.lift(tr, pre), e))), init)
        return None

    def is_boolish(self, tr, phi):
        for q in t.subterms(tr):
            if q.op == 'case' and q.args[0] is phi:
                return True
            if q.op == 'not' and q.args[0] is phi:
                return True
        return any(q is phi for q in t.leaves(tr)) and any(q in (t.TRUE, t.FALSE) for q in t.leaves(tr))

    # ------------------------------------------------------------ natural loops
    def phi(self, init):
        """the value a variable has at the start of an arbitrary iteration, init before the first"""
        return t.sym('phi')

    def loop_closed(self, hav, backs):
        """the iterations of a loop are known: {variable: its phi}, paths that go round again"""

    def natural_loop(self, fr, header, blocks):
        live = fr.body.live_in(header)
        frame_cells = {c: i for i, c in enumerate(fr.cells)}
        m0 = {c: v for c, v in self.mem.items()}
        for c, i in frame_cells.items():
            if i not in live:
                m0[c] = None
        hav = {}

        def one():
            """one iteration from the header"""
            bb = header
            loops = fr.body.loops()
            try:
                while True:
                    if bb in loops and bb not in fr.active:
                        r = self.natural_loop(fr, bb, loops[bb])
                        if r[0] == 'ret':
                            return 'ret', r[1]
                        nxt = r[1]
                    else:
                        nxt = self.run_block(fr, bb)
                    if nxt is None:
                        v = self.mem[fr.cells[0]]
                        return 'ret', t.UNIT if v is None else v
                    if nxt == header:
                        return 'back', None
                    if nxt in fr.active:
                        return 'outer', nxt
                    if nxt not in blocks and bb in blocks:
                        while not fr.body.blocks[nxt]['s'] and fr.body.blocks[nxt]['t']['k'] == 'goto' and \
                                fr.body.blocks[nxt]['t']['t'] not in blocks | fr.active | set(loops):
                            nxt = fr.body.blocks[nxt]['t']['t']
                        exits.append(nxt)
                        inouter = any(nxt in fr.body.loops()[h] for h in fr.active if h != header)
                        if inouter:
                            return 'exit', nxt
                    bb = nxt
            except OuterBack as ob:
                if ob.frame is fr and ob.bb == header:
                    return 'back', None
                raise
        exits = []
        fr.active = fr.active | {header}
        # the same loop, entered in the same state on another path of the function, has the same iterations
        memo = (fr.body.id, header, tuple(fr.cells), tuple(sorted(fr.active)), tuple(m0.items()), tuple(self.facts.items()))
        known = self.loop_memo.get(memo)
        try:
            for rnd in range(0 if known else 12):
                saved_mem = self.mem
                self.mem = dict(m0)
                for (c, path), s in hav.items():
                    self.mem[c] = self.setstep(self.mem[c], path, s)
                start = dict(self.mem)
                tr0 = list(self.trace)
                ps = self.explore(one)
                self.mem = saved_mem
                new = False
                for p in ps:
                    if p.kind != 'back':
                        continue
                    for c, v in start.items():
                        w = p.mem.get(c)
                        if v is None or w is v:
                            continue
                        for path in self.diff(v, w, ()):
                            if not any(hc == c and path[:len(hp)] == hp for hc, hp in hav):
                                # keep only the outermost
                                for hk in [hk for hk in hav if hk[0] == c and hk[1][:len(path)] == path]:
                                    del hav[hk]
                                hav[(c, path)] = self.phi(self.setrd(start, (c, path)))
                                new = True
                if not new:
                    break
            else:
                if not known:
                    raise Unsupported('loop does not stabilise')
        finally:
            fr.active = fr.active - {header}
        if known:
            hav, ps, start, self.ncell = dict(known[0]), known[1], known[2], max(self.ncell, known[3])
        else:
            ps = [p for p in ps if p.kind != 'dead']
            self.loop_memo[memo] = (dict(hav), ps, start, self.ncell)
        # find the iterator
        it = None
        backs = [p for p in ps if p.kind == 'back']
        self.loop_closed(hav, backs)
        for (c, path), s in hav.items():
            if backs and all(self.rd(p, c, path) is t.tail(s) and (t.empty(s), False) in p.decs for p in backs):
                it = ('seq', (c, path), s)
                break
        if it is None:
            for (c, path), s in hav.items():
                if not backs or not all(self.rd(p, c, path) is t.add(s, t.ONE) for p in backs):
                    continue
                for a, v in backs[0].decs:
                    if a.op == 'lt' and a.args[0] is s and v is True and not any(t.occurs(a.args[1], q) for q in hav.values()):
                        it = ('idx', (c, path), s, a)
                        break
                if it:
                    break
        if it is None and not backs:
            # no path goes round: plain control flow
            for c, v in m0.items():
                self.mem[c] = v
            fr.active = fr.active | {header}
            try:
                kind, v = one()
            finally:
                fr.active = fr.active - {header}
            if kind == 'ret':
                return 'ret', v
            if kind == 'exit':
                return 'goto', v
            raise Unsupported('loop exit %s' % kind)
        if it is None:
            r = self.state_loop(fr, header, blocks, m0, hav, ps, one)
            if r is not None:
                return r
            raise Unsupported('loop without a recognised iterator in %s (line %s)' % (
                fr.body.j['path'], fr.body.blocks[header]['t'].get('line')))
        key, phi = it[1], it[2]
        s0 = self.setrd(m0, key)
        e = t.sym('e')
        if it[0] == 'seq':
            seq = s0
            guard, gval = t.empty(phi), False
            sub = {t.head(phi): e}
        else:
            seq = t.rng(s0, it[3].args[1])
            guard, gval = it[3], True
            sub = {phi: e}
        outs, sources = [], []
        phis = {k: s for k, s in hav.items() if k != key}
        carried = {c for c, _ in hav}      # on an early exit they hold the value of the last iteration
        traces = []

        def leaving(c, v):
            # what is left of the iterator after an early exit is some unknown rest
            if it[0] == 'seq' and c == key[0] and v is not None and t.occurs(v, phi):
                return self.setstep(v, key[1], t.sym('rest'))
            return v
        for p in ps:
            d = [(a, v) for a, v in p.decs]
            if (guard, not gval) in d:
                continue
            d = [(t.subst(a, sub), v) for a, v in d if a is not guard]
            if p.trace:
                traces += list(p.trace)
            if p.kind == 'back':
                outs.append((d, 'back', {k: t.subst(self.rd(p, *k), sub) for k in phis}))
            elif p.kind in ('ret', 'panic'):
                payload = [p.val]
                for c in m0:
                    if c not in frame_cells and m0[c] is not None and (p.mem.get(c) is not start.get(c) or c in carried):
                        payload.append(mk('cellv', c, leaving(c, p.mem[c])))
                outs.append((d, 'ret', tuple(t.subst(x, sub) for x in payload)))
            elif p.kind == 'exit':
                payload = [mk('exit', p.val)]
                for c in p.mem:
                    if m0.get(c) is not None and (p.mem.get(c) is not start.get(c) or c in carried):
                        payload.append(mk('cellv', c, leaving(c, p.mem[c])))
                    elif c in frame_cells and m0.get(c) is None and p.mem.get(c) is not None:
                        payload.append(mk('cellv', c, p.mem[c]))
                outs.append((d, 'ret', tuple(t.subst(x, sub) for x in payload)))
            else:
                raise Unsupported('loop outcome %s' % p.kind)
            sources.append(p)
        # every early exit says what becomes of the same places
        cells = sorted({x.args[0] for o in outs if o[1] == 'ret' for x in o[2] if x.op == 'cellv'})
        for i, o in enumerate(outs):
            if o[1] == 'ret':
                has = {x.args[0]: x for x in o[2] if x.op == 'cellv'}
                for c in cells:
                    if c not in has:
                        v = sources[i].mem.get(c)
                        has[c] = mk('cellv', c, mk('undef') if v is None else t.subst(leaving(c, v), sub))
                outs[i] = (o[0], 'ret', (o[2][0],) + tuple(has[c] for c in cells))
        if traces:
            self.trace.append(('loop', seq, tuple((x[0],) + tuple(x[1:]) for x in traces)))
        for o in outs:
            for x in ([v for v in o[2].values()] if o[1] == 'back' else o[2]):
                if t.occurs(x, phi) and it[0] == 'seq':
                    # uses the rest of the iterator
                    raise Unsupported('loop body uses its own iterator')
        inits = {k: self.setrd(m0, k) for k in phis}
        flags = {}
        for k in list(phis):
            # a flag that is the same from the second element on: a test of the position
            ph, init = phis[k], inits[k]
            if init not in (t.TRUE, t.FALSE) or any(o[2][k] is not t.nnot(init) for o in outs if o[1] == 'back'):
                continue
            if any(t.occurs(a, ph) and a is not ph for o in outs for a, v in o[0]) or not any(a is ph for o in outs for a, v in o[0]):
                continue
            e2 = t.sym('e')
            later = t.lt(t.ZERO, t.f(e2, '0', 'tup'))
            m = {e: t.f(e2, '1', 'tup'), ph: t.nnot(later) if init is t.TRUE else later}
            new = []
            for d, kind, v in outs:
                d = [(later, (w is not init.args[1])) if a is ph else (t.subst(a, m), w) for a, w in d]
                v = {x: t.subst(y, m) for x, y in v.items() if x != k} if kind == 'back' else tuple(t.subst(x, m) for x in v)
                new.append((d, kind, v))
            flags[k] = t.ite(t.empty(seq), init, t.nnot(init))
            outs, seq, e = new, t.enum(seq), e2
            phis = {x: y for x, y in phis.items() if x != k}
            inits.pop(k)
        r = self.analyse(seq, e, phis, inits, outs)
        if flags and r[0] == 'done':
            r[1].update(flags)
        if r[0] == 'ret':
            v = r[1][0]
            for x in r[1][1:]:
                if x.op != 'cellv':
                    raise Unsupported('early exit changes state that depends on the iteration')
                self.mem[x.args[0]] = x.args[1]
            if v.op == 'panic':
                raise Panic(v.args[0])
            if v.op == 'exit':
                return 'goto', v.args[0]
            return 'ret', v
        for c in m0:
            self.mem[c] = m0[c]
        for (c, path), v in r[1].items():
            self.mem[c] = self.setstep(self.mem[c], path, v)
        c, path = key
        self.mem[c] = self.setstep(self.mem[c], path, t.NIL if it[0] == 'seq' else it[3].args[1])
        # leave through the exhausted-iterator exit
        fr.active = fr.active | {header}
        try:
            bb = header
            if it[0] == 'idx':
                self.facts[t.lt(it[3].args[1], it[3].args[1])] = False
            while bb in blocks:
                nxt = self.run_block(fr, bb)
                if nxt is None:
                    v = self.mem[fr.cells[0]]
                    return 'ret', t.UNIT if v is None else v
                if nxt == header:
                    raise Unsupported('exhausted loop iterates')
                bb = nxt
        finally:
            fr.active = fr.active - {header}
        return 'goto', bb

    def state_loop(self, fr, header, blocks, m0, hav, ps, one):
        """loops that are not driven by an iterator (see vlib/gram.py)"""
        return None

    def rd(self, p, c, path):
        v = p.mem.get(c)
        for s in path:
            v = self.getstep(v, s)
        return v if v is not None else mk('undef')

    def setrd(self, mem, key):
        v = mem.get(key[0])
        for s in key[1]:
            v = self.getstep(v, s)
        return v

    def diff(self, a, b, path):
        """smallest places in which two values differ"""
        if a is b:
            return []
        if b is None:
            return []
        if a.op == 'adt' and b.op == 'adt' and a.args[0] == b.args[0] and a.args[1] == b.args[1] and a.args[2]:
            single = self.prog.adts.get(a.args[0])
            out = []
            isstruct = single is not None and len(single['variants']) == 1 and single['kind'] != 'enum'
            if isstruct:
                for n, x, y in zip(a.args[2], a.args[3:], b.args[3:]):
                    out += self.diff(x, y, path + (('f', n, a.args[0]),))
                return out
            if single is not None and len(a.args[2]) == 1 and a.args[0] not in (t.OPTION, t.RESULT):
                for n, x, y in zip(a.args[2], a.args[3:], b.args[3:]):
                    out += self.diff(x, y, path + (('vf', a.args[1], n, a.args[0]),))
                return out
        if a.op == 'tup' and b.op == 'tup' and len(a.args) == len(b.args):
            out = []
            for i, (x, y) in enumerate(zip(a.args, b.args)):
                out += self.diff(x, y, path + (('f', str(i), 'tup'),))
            return out
        if b.op == 'adt' and a.op != 'adt':
            ad = self.prog.adts.get(b.args[0])
            if ad is not None and len(ad['variants']) == 1 and ad['kind'] != 'enum':
                out = []
                for n, y in zip(b.args[2], b.args[3:]):
                    out += self.diff(t.f(a, n, b.args[0]), y, path + (('f', n, b.args[0]),))
                return out
            if ad is not None and len(b.args[2]) == 1 and b.args[0] not in (t.OPTION, t.RESULT) and self.facts.get(mk('variant', a)) == b.args[1]:
                # the same variant as before: its payload
                var, n = b.args[1], b.args[2][0]
                return self.diff(t.vf(a, var, n, b.args[0]), b.args[3], path + (('vf', var, n, b.args[0]),))
        return [path]

    # ------------------------------------------------------------ entry
    def summary(self, body, names=None):
        """paths of a function applied to symbolic parameters.
        Each path: decs, kind ('ok'/'panic'), val = returned term, .out = {param: final value} for &mut params"""
        j = body.j
        cells = {}
        self.int_text = set()

        def run():
            args = []
            cells.clear()
            for i in range(j['argc']):
                lo = j['locals'][1 + i]
                n = (names[i] if names else None) or lo.get('name') or 'arg%d' % i
                p = t.param(n)
                if re.match(r"^&('[\w#]+ )?mut ", lo['ty']):
                    c = self.new_cell(p)
                    cells[n] = c
                    args.append(self.ptr(c))
                else:
                    args.append(p)
            v = self.run_body(body, args)
            out = {n: self.finalize(self.mem[c], cells) for n, c in cells.items()}
            return 'ok', (self.finalize(v, cells), out)
        ps = self.explore(run)
        res = []
        for p in ps:
            if p.kind == 'dead':
                continue
            if p.kind == 'ok':
                p.val, p.out = p.val
            else:
                p.out = {}
            res.append(p)
        return res

    def finalize(self, v, cells):
        """replace pointers into parameters by references to them"""
        inv = {c: n for n, c in cells.items()}
        m = {}
        for x in t.subterms(v):
            if x.op == 'ptr':
                if x.args[0] in inv:
                    m[x] = mk('mutref', inv[x.args[0]], *[mk('step', *s) for s in x.args[1]])
                else:
                    m[x] = self.read(x.args[0], x.args[1])
        if m:
            v = t.subst(v, m)
            if any(x.op == 'ptr' for x in t.subterms(v)):
                return self.finalize(v, cells)
        return v


class Call:
    __slots__ = ('fn', 'name', 'at', 'dt')

    def __init__(self, fn, name, at, dt):
        self.fn, self.name, self.at, self.dt = fn, name, at, dt

    def arg_ty(self, i):
        if i < len(self.at):
            return self.at[i]
        return ''

    def targ(self, i):
        a = self.fn.get('args') or []
        a = [x for x in a if not re.match(r"^'[\w#]+$", x)]
        return a[i] if i < len(a) else ''


# ---------------------------------------------------------------- comparing with a specification
def normalise(x, facts, ev):
    m = {}
    for a, v in facts.items():
        if a.op == 'variant':
            adtp = ev.vadt.get(a)
            if adtp == t.OPTION and v == 'None':
                m[a.args[0]] = t.NONE
            elif adtp and adtp in ev.prog.adts and not ev.prog.fields(adtp, v):
                m[a.args[0]] = t.adt(adtp, v, [])
        elif v is True and a.op == 'empty':
            m[a.args[0]] = t.NIL
        elif v is True and a.op == 'eq' and a.args[0].op == 'c':
            m[a.args[1]] = a.args[0]
            if a.args[0] is t.ONE and a.args[1].op == 'len':
                # the only element
                m[mk('last', a.args[1].args[0])] = t.head(a.args[1].args[0])
        elif v is True and a.op == 'eq' and a.args[1].op == 'c':
            m[a.args[0]] = a.args[1]
        elif v is True or v is False:
            m[a] = t.cbool(v)
    for _ in range(3):
        if not m:
            break
        y = t.subst(x, m)
        if y is x:
            break
        x = y
    # decided case analyses
    x = decide_cases(x, facts)
    # a value rebuilt from its own parts, some of which are known on this path
    inv = {}
    for k, v in m.items():
        if k.op == 'f' or k.op == 'vf':
            inv[k] = v
    for _ in range(4):
        rep = {}
        for q in t.subterms(x):
            if q.op == 'adt' and q.args[2]:
                o = rebuilt(q, inv, facts)
                if o is not None:
                    rep[q] = o
        if not rep:
            break
        x = t.subst(x, rep)
    return x


def rebuilt(q, inv, facts):
    path, var, names = q.args[0], q.args[1], q.args[2]
    for n, v in zip(names, q.args[3:]):
        if v.op == 'f' and v.args[1] == n and v.args[2] == path:
            X = v.args[0]
            if all(w is t.f(X, k, path) or inv.get(t.f(X, k, path)) is w for k, w in zip(names, q.args[3:])):
                return X
        if v.op == 'vf' and v.args[1] == var and v.args[2] == n and v.args[3] == path:
            X = v.args[0]
            if facts.get(mk('variant', X)) == var and \
                    all(w is t.vf(X, var, k, path) or inv.get(t.vf(X, var, k, path)) is w for k, w in zip(names, q.args[3:])):
                return X
    return None


def decide_cases(x, facts, memo=None):
    if memo is None:
        memo = {}
    if x in memo:
        return memo[x]
    if x.op == 'lam':
        s = t.sym()
        r = t.lam(decide_cases(t.open_lam(x, s), facts), s)
    elif x.op == 'case' and x.args[0] in facts:
        v = facts[x.args[0]]
        r = decide_cases(x.args[2 + x.args[1].index(v)], facts, memo) if v in x.args[1] else t.DEAD
    elif not x.args or x.op in ('c', 'p', 's', 'bv'):
        r = x
    else:
        args = []
        for a in x.args:
            if type(a) is T:
                args.append(decide_cases(a, facts, memo))
            elif type(a) is tuple:
                args.append(tuple(decide_cases(b, facts, memo) if type(b) is T else b for b in a))
            else:
                args.append(a)
        r = t.rebuild(x.op, args)
    memo[x] = r
    return r


def show_path(decs):
    out = []
    for a, v in decs:
        if a.op == 'variant':
            out.append('%s is %s' % (t.show(a.args[0]), v))
        elif v is True:
            out.append(t.show(a))
        elif v is False:
            out.append('not ' + t.show(a))
        else:
            out.append('%s = %s' % (t.show(a), v))
    return ' and '.join(out) or 'always'
