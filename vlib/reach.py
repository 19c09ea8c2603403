"""Which bodies of the crate a set of entry points can run: the instance graph of the compiler driver (driver/src/mono.rs)."""


class Reach:
    def __init__(self, prog, facts):
        self.prog = prog
        self.nodes = {}
        self.of = {}
        for cr, F in facts.items():
            for x in F['mono']:
                k = (cr, x['n'])
                self.nodes[k] = dict(x, e=[(cr, m) for m in x['e']])
                self.of.setdefault(x['b'], []).append(k)

    def instances(self, bodies):
        return [k for b in bodies for k in self.of.get(b.id, ()) if (not self.nodes[k]['root'] or self.nodes[k]['root'] == b.id)]

    def closure_of(self, roots):
        """body id -> ids of bodies that run it"""
        work = self.instances(roots)
        seen = set(work)
        via = {self.nodes[k]['b']: [] for k in work}
        while work:
            k = work.pop()
            b = self.nodes[k]['b']
            for m in self.nodes[k]['e']:
                c = self.nodes[m]['b']
                if c not in via:
                    via[c] = []
                if b not in via[c]:
                    via[c].append(b)
                if m not in seen:
                    seen.add(m)
                    work.append(m)
        return {b: v for b, v in via.items() if b in self.prog.bodies}
