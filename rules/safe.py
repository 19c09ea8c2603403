"""No reachable panic (C01, C11): every operation that may panic is discharged on every path of the function that contains it,
or on every path of every function that calls it."""
from vlib import terms as t
from vlib import eval as E
from vlib import gram as G
from vlib import strict as ST
from vlib import reach as RE
from vlib import facts
from vlib.spec import clip, where
from rules import grammar as R


def tame(tm):
    """checked operations that cannot fail: counts and lengths of what is held in memory do not overflow"""
    m = tm.get('m') or ''
    return m == 'overflow:Add' and tm.get('ty') in ('usize', 'u64')


class Safe:
    def __init__(self, ctx, roots, exempt=()):
        self.ctx, self.prog = ctx, ctx.prog
        self.roots = {b.id for b in roots}
        self.exempt = list(exempt)
        self.reach = RE.Reach(self.prog, facts.load())
        drops = [b for b in self.prog.bodies.values() if E.npath(b.j.get('trait') or '') in ('std::ops::Drop', 'core::ops::Drop')]
        self.via = self.reach.closure_of(list(roots) + drops)
        self.roots |= {b.id for b in drops}
        self.names = E.Ev(self.prog)
        self.done = {}

    # ------------------------------------------------------------ sites
    def owner(self, i):
        b = self.prog.bodies[i]
        while b.j['kind'] == 'Closure':
            b = self.prog.bodies[b.j['parent']]
        return b

    def sites(self, b):
        """[(block, what)] of the operations of b that may panic"""
        r = []
        for i, blk in enumerate(b.j['blocks']):
            if blk.get('c'):
                continue
            tm = blk['t']
            if tm['k'] == 'assert':
                if not tame(tm):
                    r.append((i, tm.get('m') or 'assertion'))
            elif tm['k'] == 'call':
                fn = tm['f'].get('fn')
                if fn is None:
                    continue
                name = self.names.fname(fn)
                if tm.get('t') is None:
                    r.append((i, name))
                elif fn.get('res') not in self.prog.bodies and (name in ST.PARTIAL or name in ST.PARTIAL_MODELLED):
                    r.append((i, name))
        return r

    # ------------------------------------------------------------ one function
    def analyse(self, f, inlined=()):
        """(panicking conditions, sites no path reaches) of a function, with the functions in `inlined` not kept symbolic"""
        k = (f.id, tuple(sorted(inlined)))
        if k in self.done:
            return self.done[k]
        self.done[k] = r = self._analyse(f, inlined)
        return r

    def _analyse(self, f, inlined):
        n = E.npath(f.j['path'])
        parser = n.startswith('parser::') or n.startswith('utils::')
        if parser:
            an = {k: v for k, v in R.ANCHORS.items() if k != n and k not in inlined}
            ev = ST.TextEv(self.prog, an, here=f.id)
        else:
            ev = ST.PlainEv(self.prog)
        out = []
        ps = ev.summary(f)
        self.ctx.note(ev, ps)
        for p in ps:
            if p.kind == 'panic':
                out.append((p.decs, 'when %s: %s' % (clip(E.show_path(p.decs), 700), t.show(p.val) if isinstance(p.val, t.T) else p.val)))
                continue
            for v in [p.val] + list((p.out or {}).values()):
                for x in t.subterms(v):
                    if x.op == 'panic':
                        out.append((p.decs, 'when %s: %s within %s' % (clip(E.show_path(p.decs), 500), t.show(x), clip(t.show(v), 300))))
        for c in getattr(ev, 'unproved', ()):
            out.append(([], 'an index is not kept at a character boundary: %s' % clip(c, 500)))
        return out, ev

    def missed(self, f, ev):
        """operations in closures that are built but never run by the analysis"""
        r = []
        ran = {b for b, _ in ev.entered}
        for i in self.via:
            if self.owner(i) is f and i not in ran:
                b = self.prog.bodies[i]
                ss = self.sites(b)
                if ss and self.built(b, ev):
                    r.append('%s in %s' % (ss[0][1], where(b)))
        return r

    def built(self, b, ev):
        if b.j['kind'] != 'Closure':
            return True
        par = self.prog.bodies[b.j['parent']]
        for k, blk in enumerate(par.j['blocks']):
            if (par.id, k) in ev.entered and b.id in str(blk):
                return True
        return False

    # ------------------------------------------------------------ the whole
    def run(self, floor):
        ctx = self.ctx
        self.what = {}
        todo, nsites = [], 0
        for i in self.via:
            ss = self.sites(self.prog.bodies[i])
            if ss:
                nsites += len(ss)
                f = self.owner(i)
                self.what.setdefault(f.id, []).extend(w for _, w in ss)
        for fid in sorted(self.what):
            ctx.guard(self.key(self.prog.bodies[fid]), lambda: self.settle(self.prog.bodies[fid]))
        ctx.extra['panicking operations'] = nsites
        ctx.extra['reachable functions'] = len(self.via)
        ctx.floor(len(self.via), floor, 'functions reachable from the entry points')

    def key(self, f):
        return 'panics of %s' % E.npath(f.j['path'])

    def settle(self, f):
        """f never panics, or never where it is called"""
        ctx = self.ctx
        r = self.trouble(f, ())
        if r is None:
            ctx.ok(self.key(f), ', '.join(sorted(set(self.what[f.id]))))
            ctx.sample({'function': where(f), 'operations': sorted(set(self.what[f.id]))[:6]})
        else:
            ctx.bad(self.key(f), r)

    def trouble(self, f, chain):
        """why f may panic, or None; `chain`: the functions called by f whose precondition is at stake"""
        if f in chain:
            return '%s is recursive and panics %s' % (where(f), self.why)
        inl = tuple(E.npath(g.j['path']) for g in chain)
        out, ev = self.analyse(f, inl)
        if not chain:
            m = self.missed(f, ev)
            if m:
                return 'not analysed: %s' % m[0]
        elif f.j['kind'] != 'Closure' and chain[-1].id not in {b for b, _ in ev.entered}:
            if any(self.built_in(chain[-1], b, k) for b, k in ev.entered):
                return '%s: the call of %s is not analysed' % (where(f), where(chain[-1]))
        out = [o for o in out if not self.exempted(f, o)]
        if not out:
            return None
        why = '%s: %s' % (where(f), out[0][1])
        if f.id in self.roots or E.npath(f.j['path']) in R.ANCHORS or len(chain) > 4:
            return why          # an entry point, or a production, which may meet any text
        self.why = why
        callers = []
        for b in [i for i in self.via if self.owner(i) is f]:
            for c in self.via[b]:
                o = self.owner(c)
                if o is not f and o not in callers:
                    callers.append(o)
        if f.id in self.via[f.id]:
            return '%s (recursive)' % why
        if not callers:
            return why
        for c in callers:
            r = self.trouble(c, chain + (f,))
            if r:
                return r
        return None

    def built_in(self, g, b, k):
        return g.id in str(self.prog.bodies[b].j['blocks'][k])

    def exempted(self, f, o):
        return any(x(f, o[0]) for x in self.exempt)
