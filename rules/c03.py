"""C03: recursion follows the nesting of the input only, and is bounded."""
import itertools
import re
from vlib import terms as t
from vlib import text as X
from vlib import eval as E
from vlib import facts
from vlib import models as M
from vlib.spec import clip, where
from rules import grammar as R
from rules import c02
from rules.c01 import ENTRY

TECHNIQUE = ('cycles of the compiler\'s instance graph; path-sensitive dataflow over text positions (recursive productions are applied behind an opening '
             'bracket) and over data (arguments of recursive calls are proper parts of a parameter); bound on the depth')
EXPLANATION = ('every cycle of productions passes an opening bracket that is still open where the recursive production is applied; every cycle of other '
               'functions passes to a proper part of one of its arguments (never the rest of a sequence, except of the labels of a block)')
LEVEL_NOTE = ('sound for every input up to the transfer functions of nom\'s input primitives and the premise that a production leaves brackets balanced (C23); '
              'recursion inside user-provided Deserialize implementations is not part of the crate')
GRAMMARS = [('configuration grammar', {'parser::parse_str', 'parser::parse_slice', 'parser::parse_reader', 'parser::expression::Expression::parse'}),
            ('value grammar', {'value::from_str', 'value::from_slice', 'value::from_reader'})]
OPEN, CLOSE = '[{(', ']})'
LABEL = 'parser::block::BlockLabel'


class Nest(c02.Check):
    """the recursive productions: positions of their applications relative to opening brackets"""
    def __init__(self, ctx):
        super().__init__(ctx)
        self.whole = {}
        for x in self.reach.nodes.values():
            if x['b'] in self.P.bodies:
                self.whole.setdefault(x['b'], set()).update(
                    self.reach.nodes[m]['b'] for m in x['e'] if self.reach.nodes[m]['b'] in self.P.bodies)
        self.free = {}      # production -> productions applied without an opening bracket in between
        self.bounded = {}   # production -> False if some recursive application has no depth test

    def production(self, f, heads):
        ctx, n = self.ctx, E.npath(f.j['path'])
        ev = self.evaluator(f, heads)
        ps = ev.summary(f)
        ctx.note(ev, ps)
        start = t.param(f.j['locals'][1].get('name') or 'arg0')
        inits = {start: None}
        inits.update((x, init) for _, vs, _ in ev.turns for x, init, _ in vs if init is not None)
        ints = {t.param(f.j['locals'][i].get('name') or 'arg%d' % (i - 1)) for i in range(1, f.j['argc'] + 1)
                if f.j['locals'][i]['ty'] in ('usize', 'u8', 'u16', 'u32', 'u64', 'i32', 'isize')}
        free = self.free.setdefault(n, {})
        nobound = self.bounded.setdefault(n, set())
        napp = 0
        for _, vs, backs in ev.turns:
            for x, init, key in vs:
                for p in backs:
                    new = ev.rd(p, *key)
                    if new.op != 'offs' and X.descends(new, x) and self.level(new, x, p.facts) < 0:
                        return 'an iteration of the loop in %s leaves brackets that it did not open' % where(f)
        for paths, origin in [(ps, {start: None})] + [(backs, inits) for _, _, backs in ev.turns]:
            for p in paths:
                for k in self.calls(p.trace, heads):
                    if k is None:
                        return '%s: a recursive production is applied in an iteration over a collection' % where(f)
                    napp += 1
                    if not self.inside(X.skip(k.args[1], t.ZERO), origin, p.facts):
                        free.setdefault(k.args[0], 'when %s: %s' % (clip(R.brief(E.show_path(p.decs)), 600), clip(R.brief(t.show(k)), 300)))
                    if not any(self.counted(a, ints, p.facts) for a in k.args[2:]):
                        nobound.add(k.args[0])
        ctx.sample({'production': n, 'paths': len(ps), 'applications': napp, 'without bracket': sorted(free)})
        return None

    def counted(self, a, ints, fs):
        """the argument is a parameter one further, tested against a constant"""
        for x in ints:
            if a is t.add(x, t.ONE) or a is t.sub(x, t.ONE):
                for q, v in fs.items():
                    if q.op in ('lt', 'le', 'eq') and x in q.args and any(b.op == 'c' for b in q.args):
                        return True
        return False

    def level(self, pos, origin, fs):
        """brackets opened less brackets closed between two positions"""
        n, q = 0, pos
        while q is not origin:
            if q.op == 'skip' and q.args[1].op == 'c':
                k = q.args[1].args[1]
                for a, v in fs.items():
                    if v is True and a.op == 'starts' and a.args[0] is q.args[0] and len(a.args[1].args[1]) <= k:
                        lit = a.args[1].args[1]
                        n += sum((c in OPEN) - (c in CLOSE) for c in lit)
                        break
            q = X.parent(q)
            if q is None:
                return -1
        return n

    def inside(self, pos, origin, fs):
        """a bracket opened since the production started is still open"""
        if pos.op == 'case':
            return all(self.inside(b, origin, fs) for b in pos.args[2:])
        for o, init in origin.items():
            if X.descends(pos, o):
                n = self.level(pos, o, fs)
                if n > 0 or n == 0 and init is not None and self.inside(init, origin, fs):
                    return True
        return False

    def run(self):
        ctx, P = self.ctx, self.P
        roots = [b for b in P.bodies.values() if b.j['kind'] != 'Closure' and E.npath(b.j['path']) in ENTRY]
        ctx.expect(len(roots) == len(ENTRY), 'entry points', '%d of %d entry points found' % (len(roots), len(ENTRY)))
        heads = self.setup(roots)
        hn = {self.names[i] for i in heads}
        self.each_production('nesting in', hn)
        g = {n: {m for m in ms if m in hn} for n, ms in self.free.items()}
        loop = c02.cyclic(g)
        ctx.expect(not loop, 'recursion of productions', 'applied again without an opening bracket in between: %s' % '; '.join(
            '%s -> %s %s' % (n, m, self.free[n][m]) for n in sorted(loop) for m in sorted(g[n] & loop)))
        for what, names in GRAMMARS:
            via, g = self.graph([b for b in roots if E.npath(b.j['path']) in names])
            here = sorted(n for n in hn if any(self.names[i] == n for i in g if i in self.names))
            ub = sorted({m for n in self.bounded for m in self.bounded[n] if m in here and n in here})
            key = 'depth of nesting in the %s' % what
            if ub:
                ctx.bad(key, '%s: each opening bracket of the input adds stack frames and nothing counts or limits them' % ', '.join(ub))
            else:
                ctx.ok(key)


class DataEv(E.Ev):
    def __init__(self, prog, members):
        super().__init__(prog, opaque=lambda name, fn: self.member(name, fn))
        self.members = members
        self.models = {k: v for k, v in M.MODELS.items() if k != 'AsOwned::as_owned'}
        self.made = []
        self.args = []
        self.open = set()   # variables of loops whose iterations are not known
        self.bound = {}     # symbols of iterations and closures -> what they are drawn from

    def call(self, fn, args, tm):
        self.args.append([v for v in map(self.deref, args) if v is not None and v.op not in ('clo', 'fnitem')])
        self.fn = fn
        try:
            return super().call(fn, args, tm)
        finally:
            self.args.pop()

    def phi(self, init):
        x = super().phi(init)
        self.bound[x] = [init]
        self.open.add(x)
        return x

    def loop_closed(self, hav, backs):
        for (c, path), x in hav.items():
            self.open.discard(x)
            self.bound[x] = self.bound[x][:1] + [self.rd(p, c, path) for p in backs]

    def member(self, name, fn):
        if name in ('FromIterator::from_iter', 'Extend::extend') and self.plain((fn.get('args') or [''])[0]):
            return False
        return name in self.members

    def plain(self, ty):
        """a collection of the standard library: collecting into it runs nothing but the iterator"""
        ty = E.norm_ty(ty)
        h = E.head_ty(ty).split('::')[-1]
        if h in ('Option', 'Result'):
            return bool(E.ty_args(ty)) and self.plain(E.ty_args(ty)[0])
        return h in HOLDERS[:6] or h == 'String'

    def opaque(self, name, args):
        if self.member(name, self.fn):
            fn = self.fn
            # an empty list is as deep as any sequence that is empty on this path
            none = sorted((a.args[0] for a, v in self.facts.items() if a.op == 'empty' and v is True and a.args[0] is not t.NIL), key=t.show)
            k = t.call(name, *[t.mk('oneof', *none) if v is t.NIL and none else v for v in map(self.value_arg, args)])
            self.made.append((k, bool(fn.get('unresolved')), fn.get('res')))
            src = [self.value_arg(a) for xs in self.args[:-1] for a in xs]
            for x in t.subterms(k):
                if x.op == 's' and x not in self.bound:
                    self.bound[x] = src
        return super().opaque(name, args)


class Data:
    """recursive functions on data"""
    def __init__(self, ctx, nest):
        self.ctx, self.P, self.nest = ctx, ctx.prog, nest
        self.R = nest.reach
        self.which = None

    def names(self, b):
        """names under which calls of the function appear"""
        n = [E.npath(b.j['path'])]
        if b.j.get('trait'):
            n.append(E.npath(b.j['trait']).split('::')[-1] + '::' + b.j['name'])
        return n

    def part(self, x, which):
        """the given part of every element of a sequence of tuples"""
        if which is None:
            return x
        if x.op == 'list':
            return t.mk('list', *[t.f(e, which, 'tup') for e in x.args])
        return t.f(x, which, 'tup')

    def drawn(self, x, p, seen=()):
        """x is the sequence p, a rest of it or an element of it"""
        if x is p or x in seen:
            return True
        if x.op in ('head', 'tail'):
            return self.drawn(x.args[0], p, seen)
        return x.op == 's' and x in self.bound and all(self.drawn(a, p, seen + (x,)) for a in self.bound[x])

    def rank(self, x, p):
        """bound on the nesting of x relative to parameter p (to a part of its elements); None: no bound"""
        op = x.op
        if x is p:
            return 0 if self.which is None else None
        if op == 'f' and x.args[-1] == 'tup' and self.which is not None:
            return 0 if x.args[1] == self.which and self.drawn(x.args[0], p) else None
        if op == 'p':
            return None
        if op == 's':
            if x not in self.bound:
                return None
            if x in self.busy:
                return self.busy[x]
            # the least bound that one more iteration does not exceed
            self.busy[x] = -2000
            for i in range(2):
                rs = [self.rank(a, p) for a in self.bound[x]]
                r = None if None in rs else max(rs, default=None)
                if r is None or r <= self.busy[x]:
                    break
                self.busy[x] = r
            else:
                r = None
            del self.busy[x]
            return r
        if op == 'oneof':
            return min((r for r in (self.rank(a, p) for a in x.args) if r is not None), default=None)
        if op in ('c', 'nil', 'fnref', 'dead', 'clo') or not x.args:
            return -1000
        if op == 'lam':
            return self.rank(x.args[-1], p)
        if op in ('f', 'vf'):
            r = self.rank(x.args[0], p)
            return r if r is None or x.args[-1] in ('tup', t.RESULT, t.OPTION) else r - 1
        if op == 'tail' and x.args[0] is p and self.labels:
            return -1
        if op == 'get':
            return self.rank(x.args[0], p)
        skip = {'call': 1, 'case': 2, 'adt': 2}.get(op, 0)
        rs = [self.rank(a, p) for a in x.args[skip:] if isinstance(a, t.T)]
        if None in rs:
            return None
        r = max(rs, default=-1000)
        return r + 1 if op == 'adt' and x.args[0] not in (t.RESULT, t.OPTION) else r

    def variants(self, x, p):
        """(the variant p has when a call with x is made, the variant of x), None where unknown"""
        if x.op != 'adt' or any(y.op in ('case', 'oneof', 's', 'lam', 'dead') for y in t.subterms(x)):
            return None, None
        of = {y.args[1] for y in t.subterms(x) if y.op == 'vf' and y.args[0] is p}
        return (of.pop() if len(of) == 1 else None), x.args[1]

    def params(self, b):
        return [t.param(b.j['locals'][i].get('name') or 'arg%d' % (i - 1)) for i in range(1, b.j['argc'] + 1)]

    def component(self, c):
        """None, or why recursion in the component is not structural"""
        P, ctx = self.P, self.ctx
        fs = [P.bodies[i] for i in sorted(c) if P.bodies[i].j['kind'] != 'Closure' and not P.bodies[i].j.get('derived')]
        by = {}
        self.bound, self.busy = {}, {}
        for b in fs:
            for n in self.names(b):
                by.setdefault(n, []).append(b)
        for b in (P.bodies[i] for i in c):
            if b.j.get('derived'):
                for n in self.names(b):
                    by.setdefault(n, [])
        edges = []
        for b in fs:
            ev = DataEv(P, set(by))
            ps = ev.summary(b)
            ctx.note(ev, ps)
            self.bound.update(ev.bound)
            near = self.near(b)
            for k, generic, res in set(ev.made):
                if any(x in ev.open for x in t.subterms(k)):
                    continue        # seen before all the variables of the loop were known
                for g in by[k.args[0]]:
                    if g.id == res or res not in c and (g.id in near or not any(h.id in near for h in by[k.args[0]])):
                        edges.append((b, g, k, generic))
        # one parameter of each function that shrinks along every cycle
        why = None
        def measures(b):
            """the arguments; for sequences of a generic type also the first or second parts of their elements"""
            xs = [(i, None) for i in range(max(1, b.j['argc']))]
            return xs + [(i, w) for i in range(b.j['argc']) for w in '01' if b.j['locals'][i + 1]['ty'].isalnum() and b.j['locals'][i + 1]['ty'][0].isupper()]
        choices = itertools.product(*[measures(b) for b in fs])
        for choice in itertools.islice(choices, 4000):
            at = {b.id: i for b, (i, _) in zip(fs, choice)}
            which = {b.id: w for b, (_, w) in zip(fs, choice)}
            # calls that keep the size; a call on a value rebuilt as another variant goes from the one variant to the other
            split = {b.id: {None} for b in fs}
            for b, g, k, generic in edges:
                if at[b.id] < len(self.params(b)) and at[g.id] < len(k.args) - 1:
                    w, v = self.variants(k.args[1 + at[g.id]], self.params(b)[at[b.id]])
                    split[b.id].add(w)
                    split[g.id].add(v)
            zero = {(i, v): set() for i in split for v in split[i]}
            bad = None
            for b, g, k, generic in edges:
                if at[b.id] >= len(self.params(b)) or at[g.id] >= len(k.args) - 1:
                    bad = 'a recursive function without arguments'
                    break
                p = self.params(b)[at[b.id]]
                self.labels = LABEL in b.j['locals'][at[b.id] + 1]['ty']
                self.which = which[b.id]
                r = self.rank(self.part(k.args[1 + at[g.id]], which[g.id]), p)
                if r is None or r > 0 or r < -500:
                    bad = '%s calls %s' % (where(b), clip(t.show(k), 500))
                    break
                # a method of a type parameter, called by an implementation for a type built from it, is another instance: types shrink
                if r == 0 and not (generic and b.j.get('trait') and not b.j['self_ty'].isalnum()):
                    w, v = self.variants(k.args[1 + at[g.id]], p)
                    for x in split[b.id] if w is None else (w,):
                        zero[b.id, x] |= {(g.id, y) for y in (split[g.id] if v is None else (v,))}
            if bad is None:
                loop = c02.cyclic(zero)
                if not loop:
                    if any(LABEL in b.j['locals'][at[b.id] + 1]['ty'] for b in fs):
                        self.by_labels.append(E.npath(fs[0].j['path']))
                    return None
                loop = {i for i, _ in loop}
                bad = '; '.join('%s calls %s' % (where(b), clip(t.show(k), 400)) for b, g, k, generic in edges if b.id in loop and g.id in loop and any(y[0] == g.id for x in zero if x[0] == b.id for y in zero[x]))
            why = why or bad
        return 'not on a proper part of an argument: ' + (why or 'no recursive call was seen')

    def near(self, b):
        """bodies run by a function and its closures"""
        g = self.nest.whole
        seen, work = set(), [b.id] + [c.id for c in self.P.bodies.values() if c.j['kind'] == 'Closure' and c.j.get('parent') == b.id]
        while work:
            i = work.pop()
            for j in g.get(i, ()):
                if j not in seen:
                    seen.add(j)
                    if self.P.bodies[j].j['kind'] == 'Closure':
                        work.append(j)
        return seen

    def run(self):
        ctx, P = self.ctx, self.P
        n = 0
        self.by_labels = []
        for c in c02.components(self.nest.whole):
            if any(self.nest.parser(i) and P.bodies[i].j['kind'] != 'Closure' for i in c):
                continue
            n += 1
            names = sorted({E.npath(P.bodies[i].j['path']) for i in c if P.bodies[i].j['kind'] != 'Closure'})
            key = 'recursion of %s' % names[0]

            def one(c=c, key=key):
                bad = self.component(c)
                if bad:
                    ctx.bad(key, bad)
                else:
                    ctx.ok(key, '%d functions' % len(c))
            ctx.guard(key, one)
        key = 'depth of nesting of block labels'
        if self.by_labels:
            ctx.bad(key, '%s: each label of a block adds a stack frame and nothing limits the number of labels' % ', '.join(self.by_labels))
        else:
            ctx.ok(key)
        ctx.extra['recursive components on data'] = n
        ctx.floor(n, 5, 'recursive components')


HOLDERS = ('Vec', 'HashMap', 'HashSet', 'BTreeMap', 'BTreeSet', 'VecDeque', 'IntoIter', 'Iter', 'IterMut', 'Keys', 'Values')


def direct(ty, adts, holders=HOLDERS):
    """types of the crate that a field holds itself, not as elements of a collection"""
    holder = re.compile(r'(?<!\w)(?:%s)<|\[' % '|'.join(map(re.escape, holders)))
    m = holder.search(ty)
    while m:
        n, i = 0, m.end() - 1
        while i < len(ty):
            n += (ty[i] in '<[(') - (ty[i] in '>])' and ty[i - 1:i + 1] != '->')
            if n == 0:
                break
            i += 1
        ty = ty[:m.start()] + '_' + ty[i + 1:]
        m = holder.search(ty)
    return {p for p in adts if re.search(r'(?<![\w:])%s(?!\w|::)' % re.escape(p), ty)}


def chains(ctx):
    """no type is a chain of boxes: dropping, cloning, comparing or printing one recurses along it"""
    adts = ctx.prog.adts
    fields = {p: [f['ty'] for v in a['variants'] for f in v['fields']] for p, a in adts.items()}
    params = {q for tys in fields.values() for ty in tys for q in re.findall(r'(?<![\w:\'])[A-Z]\w?(?![\w:])', ty)}
    # generic types of the crate that keep their parameters in collections
    holders = HOLDERS + tuple(p for p, tys in fields.items() if not any(direct(ty, params) for ty in tys))
    g = {p: set().union(*[direct(f['ty'], adts, holders) for v in a['variants'] for f in v['fields']] or [set()]) for p, a in adts.items()}
    loop = c02.cyclic(g)
    ctx.expect(not loop, 'types', 'holds itself other than as an element of a collection: %s' % ', '.join(sorted(loop)))
    ctx.floor(len(g), 10, 'types')


def run(ctx):
    chains(ctx)
    nest = Nest(ctx)
    nest.run()
    Data(ctx, nest).run()
