"""C02: parsing terminates, and no nested construct is parsed twice."""
from vlib import terms as t
from vlib import text as X
from vlib import eval as E
from vlib import gram as G
from vlib import reach as RE
from vlib import facts
from vlib.spec import clip, where
from rules import grammar as R
from rules.c01 import ENTRY

TECHNIQUE = ('recursion graph of the compiler\'s instance graph, and path-sensitive dataflow over text positions: order of the positions at which '
             'recursive productions are applied, progress of every loop, left recursion')
EXPLANATION = ('on every path of every recursive production, each recursive application starts where or after the previous one has accepted; '
               'applications that may start where the production itself started form no cycle; every loop moves its position forward on every iteration')
LEVEL_NOTE = ('sound for every input up to the transfer functions of nom\'s input primitives; by induction each piece of text is parsed once per nesting level, '
              'so the number of applications is linear in the input (the cost of lexical steps is not bounded here)')
HEADS = ('parser::expression::expression', 'parser::body::body', 'parser::single_value', 'parser::map_values')


def rest_of(k):
    return t.f(t.vf(k, 'Ok', '0', t.RESULT), '0', 'tup')


class Turns:
    """records the iterations of every loop"""
    def begin(self):
        self.turns, self.seen, self.looped = [], {}, set()

    def natural_loop(self, fr, header, blocks):
        self.looped.add((fr.body.id, header))
        return super().natural_loop(fr, header, blocks)

    def state_loop(self, fr, header, blocks, m0, hav, ps, one):
        if id(ps) not in self.seen:
            self.seen[id(ps)] = ps
            self.turns.append((fr.body, [(hav[k], self.setrd(m0, k), k) for k in hav], [p for p in ps if p.kind == 'back']))
        return super().state_loop(fr, header, blocks, m0, hav, ps, one)


class TurnEv(Turns, G.GEv):
    pass


class PlainEv(Turns, E.Ev):
    pass


class Check:
    def __init__(self, ctx):
        self.ctx, self.P = ctx, ctx.prog
        self.left = {}
        self.reach = RE.Reach(self.P, facts.load())
        self.covered = set()

    # ------------------------------------------------------------ recursion
    def graph(self, roots):
        via = self.reach.closure_of(roots)
        g = {b: set() for b in via}
        for b, vs in via.items():
            for v in vs:
                g[v].add(b)
        return via, g

    def owner(self, i):
        b = self.P.bodies[i]
        while b.j['kind'] == 'Closure':
            b = self.P.bodies[b.j['parent']]
        return b

    def parser(self, i):
        return 'nom::Err' in self.P.bodies[i].j['locals'][0]['ty'] or 'IResult' in self.P.bodies[i].j['locals'][0]['ty']

    # ------------------------------------------------------------ one production
    def evaluator(self, f, heads):
        n = E.npath(f.j['path'])
        an = {k: v for k, v in R.ANCHORS.items() if k in heads or k in self.flat and k in R.LEXICAL}
        if n not in heads:
            an.pop(n, None)
        for h in heads:
            an.setdefault(h, G.Anchor(fail=True))
        ev = TurnEv(self.P, an)
        ev.begin()
        return ev

    def behind(self, ev, pos, start, fs):
        """pos is certainly after start"""
        if pos is t.NIL:
            return ev.possible(start)[1] is False
        r = X.eqpos(pos, start)
        saved, ev.facts = ev.facts, dict(fs)
        try:
            return r is t.FALSE or r is not None and self.never(ev, r)
        finally:
            ev.facts = saved

    def after(self, ev, pos, origin, fs):
        """pos is certainly after where the production started"""
        for o, init in origin.items():
            if X.descends(pos, o):
                if self.behind(ev, pos, o, fs) or init is not None and self.after(ev, init, origin, fs):
                    return True
        return False

    def never(self, ev, b):
        """b is false on the path"""
        if b.op == 'c':
            return b is t.FALSE
        if b.op == 'not':
            return ev.known(b.args[0]) is True
        if b.op == 'case':
            v = ev.known(b.args[0])
            if v is not None:
                return v in b.args[1] and self.never(ev, b.args[2 + b.args[1].index(v)])
            return all(self.never(ev, x) for x in b.args[2:])
        return ev.known(b) is False

    def calls(self, trace, heads):
        r = []
        for x in trace:
            if x[0] == 'call' and x[1] in heads:
                r.append(t.call(x[1], *x[2]))
            elif x[0] == 'loop':
                r += [None] * len(self.calls(x[2], heads))
        return r

    def production(self, f, heads):
        ctx, n = self.ctx, E.npath(f.j['path'])
        ev = self.evaluator(f, heads)
        ps = ev.summary(f)
        ctx.note(ev, ps)
        self.covered |= ev.looped
        start = t.param(f.j['locals'][1].get('name') or 'arg0')
        napp = 0
        inits = {start: None}
        inits.update((x, init) for _, vs, _ in ev.turns for x, init, _ in vs if init is not None)
        edges = self.left.setdefault(n, set())
        for what, paths, origin in [('', ps, {start: None})] + [
                (' in an iteration of the loop in %s' % where(b), backs, inits) for b, vs, backs in ev.turns]:
            for p in paths:
                ks = self.calls(p.trace, heads)
                napp += len(ks)
                if None in ks:
                    return '%s%s: a recursive production is applied in an iteration over a collection' % (where(f), what)
                for i, k in enumerate(ks):
                    at = X.skip(k.args[1], t.ZERO)
                    if not self.after(ev, at, origin, p.facts):
                        edges.add(k.args[0])
                    for q in ks[:i]:
                        if not X.descends(at, rest_of(q)):
                            return 'when %s%s: %s is applied at %s, which is not known to be after what %s has parsed' % (
                                clip(R.brief(E.show_path(p.decs)), 900), what, R.brief(k.args[0]), clip(R.brief(t.show(at)), 250),
                                clip(R.brief(t.show(q)), 250))
        bad = self.progress(ev, heads)
        if bad:
            return bad
        ctx.sample({'production': n, 'paths': len(ps), 'iterations': sum(len(b) for _, _, b in ev.turns), 'applications': napp})
        return None

    def progress(self, ev, heads=()):
        """every loop moves forward on every iteration, past everything parsed in it"""
        for b, vs, backs in ev.turns:
            good = False
            why = ''
            for x, init, key in vs:
                r = [self.advances(ev, p, x, ev.rd(p, *key), heads) for p in backs]
                if all(a is None for a in r):
                    good = True
                    break
                if not why or ev.rd(backs[0], *key).op not in ('cat', 'list'):
                    why = next(a for a in r if a)
            if not good:
                return 'the loop in %s may not move forward: %s' % (where(b), why)
        return None

    def advances(self, ev, p, x, new, heads):
        old, fs = x, p.facts
        if new.op == 'offs':            # an index into a text: the position it stands for
            old = t.sym('pos')
            m = {x: X.offs(new.args[0], old)}
            new = t.subst(new.args[1], m)
            fs = {t.subst(a, m): v for a, v in fs.items()}
        if not X.descends(new, old):
            return '%s becomes %s' % (t.show(old), clip(R.brief(t.show(new)), 300))
        if not self.behind(ev, new, old, fs):
            return 'unchanged when %s' % clip(R.brief(E.show_path(p.decs)), 500)
        for k in self.calls(p.trace, heads):
            if k is None or not X.descends(new, rest_of(k)):
                return 'what %s has parsed is parsed again' % (k and k.args[0])
        return None

    # ------------------------------------------------------------ the whole
    def setup(self, roots):
        """recursive productions that are cut out so that the rest is not recursive"""
        ctx, P = self.ctx, self.P
        via, g = self.graph(roots)
        self.g = g
        self.names = names = {i: E.npath(P.bodies[i].j['path']) for i in g}
        sccs = [c for c in components(g) if any(self.parser(i) and P.bodies[i].j['kind'] != 'Closure' for i in c)]
        main = [c for c in sccs if any(names[i] in HEADS for i in c)]
        # the grammar as a whole, and each recursion below it on its own
        self.groups = []
        for rec in ([set().union(*main)] if main else []) + [c for c in sccs if c not in main]:
            heads = [i for i in rec if names[i] in HEADS]
            while True:
                left = cyclic({i: {j for j in g[i] if j not in heads} for i in rec if i not in heads})
                if not left:
                    break
                heads.append(min((i for i in left if P.bodies[i].j['kind'] != 'Closure'), key=lambda i: (-len(g[i]), i)))
            above = reaches(g, rec)
            inner = reached(g, heads, set(heads))
            top = sorted((i for i in (above if self.groups == [] and main else rec) if i in heads or
                          i not in inner and P.bodies[i].j['kind'] != 'Closure' and self.parser(i)), key=lambda i: names[i])
            self.groups.append((heads, top, {n for n in R.ANCHORS if n not in {names[i] for i in above}}))
        heads = [i for hs, _, _ in self.groups for i in hs]
        ctx.expect(len(main) >= 1 and len(heads) >= 2, 'recursion', '%d recursive productions in %d recursive components' % (len(heads), len(sccs)))
        return heads

    def each_production(self, what, hn):
        """analyse every recursive production with its group's recursive productions as applications"""
        ctx, P = self.ctx, self.P
        for heads, top, flat in self.groups:
            self.flat = flat
            for i in top:
                key = '%s %s' % (what, self.names[i])

                def one(i=i, key=key, heads=heads):
                    bad = self.production(P.bodies[i], {self.names[j] for j in heads})
                    if bad:
                        ctx.bad(key, bad)
                    else:
                        ctx.ok(key)
                ctx.guard(key, one)

    def run(self):
        ctx, P = self.ctx, self.P
        roots = [b for b in P.bodies.values() if b.j['kind'] != 'Closure' and E.npath(b.j['path']) in ENTRY]
        heads = self.setup(roots)
        hn = {self.names[i] for i in heads}
        self.each_production('applications in', hn)
        loop = cyclic({n: {m for m in ms if m in hn} for n, ms in self.left.items()})
        ctx.expect(not loop, 'left recursion', 'applied before anything is consumed: %s' % ', '.join(
            '%s -> %s' % (n, ' '.join(sorted(ms))) for n, ms in sorted(self.left.items()) if ms))
        # the loops of everything else
        todo = {}
        nloops = 0
        for i in self.g:
            for h in P.bodies[i].loops():
                nloops += 1
                if (i, h) not in self.covered:
                    todo.setdefault(self.owner(i).id, set()).add((i, h))
        for i in sorted(todo):
            f = P.bodies[i]
            key = 'loops of %s' % E.npath(f.j['path'])

            def one(f=f, key=key, want=todo[i]):
                n = E.npath(f.j['path'])
                if self.parser(f.id):
                    ev = TurnEv(P, {k: v for k, v in R.ANCHORS.items() if k != n}, here=f.id)
                else:
                    ev = PlainEv(P)
                ev.begin()
                ps = ev.summary(f)
                ctx.note(ev, ps)
                bad = self.progress(ev)
                self.covered |= ev.looped
                if not bad and not want <= self.covered:
                    bad = '%s: a loop is not analysed' % where(f)
                if bad:
                    ctx.bad(key, bad)
                else:
                    ctx.ok(key, '%d loops' % len(ev.looped))
            ctx.guard(key, one)
        ctx.extra['loops'] = nloops
        ctx.floor(nloops, 4, 'loops')


def reached(g, starts, stop):
    seen, work = set(), [j for s in starts for j in g.get(s, ())]
    while work:
        i = work.pop()
        if i in seen or i in stop:
            continue
        seen.add(i)
        work += g.get(i, ())
    return seen


def reaches(g, targets):
    r = set(targets)
    while True:
        n = {i for i in g if i not in r and g[i] & r}
        if not n:
            return r
        r |= n


def components(g):
    """strongly connected components that contain a cycle"""
    r = []
    left = cyclic(g)
    while left:
        i = min(left)
        down = reached(g, [i], ())
        c = {j for j in left if j in down and i in reached(g, [j], ())}
        r.append(c | {i})
        left -= r[-1]
    return r


def cyclic(g):
    """nodes on a cycle"""
    r = set()
    for i in g:
        seen, work = set(), list(g[i])
        while work:
            j = work.pop()
            if j in seen or j not in g:
                continue
            seen.add(j)
            work += g[j]
        if i in seen:
            r.add(i)
    return r


def run(ctx):
    Check(ctx).run()
