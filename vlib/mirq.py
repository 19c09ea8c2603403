"""Queries over the MIR facts: calls, locals' uses."""
from . import eval as E


def calls(body):
    """(block index, terminator) of every call"""
    for i, blk in enumerate(body.j['blocks']):
        if blk.get('c'):
            continue
        tm = blk['t']
        if tm.get('k') == 'call':
            yield i, tm


def callee(tm):
    f = tm.get('f')
    return f.get('fn') if isinstance(f, dict) else None


def places(x, out):
    """every place mentioned in a statement/terminator piece"""
    if isinstance(x, dict):
        if 'l' in x and 'p' in x and isinstance(x['p'], list):
            out.append(x)
            for e in x['p']:
                places(e, out)
        else:
            for v in x.values():
                places(v, out)
    elif isinstance(x, list):
        for v in x:
            places(v, out)


def uses(body):
    """local -> number of reads (drops and storage markers do not count)"""
    n = {}
    for blk in body.j['blocks']:
        for s in blk['s']:
            if s.get('k') in ('live', 'dead', 'nop'):
                continue
            out = []
            for k, v in s.items():
                if k != 'p':
                    places(v, out)
            if s.get('p') and s['p']['p']:
                out.append(s['p'])
            for p in out:
                n[p['l']] = n.get(p['l'], 0) + 1
        tm = blk['t']
        if tm.get('k') == 'drop':
            continue
        out = []
        for k, v in tm.items():
            if k != 'd':
                places(v, out)
        if isinstance(tm.get('d'), dict) and tm['d'].get('p'):
            out.append(tm['d'])
        for p in out:
            n[p['l']] = n.get(p['l'], 0) + 1
    return n


def nom_macro(tm):
    """the construct comes out of a macro of the parser library"""
    return any(m.split('::')[0] == 'nom' for m in tm.get('mac') or [])


def own(body, prog):
    """the function a closure belongs to"""
    j = body.j
    return j.get('parent') or j['path']


def defs(body):
    """local -> its whole assignments: ('s', rvalue) or ('c', call terminator)"""
    out = {}
    for blk in body.j['blocks']:
        for s in blk['s']:
            if isinstance(s.get('r'), dict) and isinstance(s.get('p'), dict) and not s['p']['p']:
                out.setdefault(s['p']['l'], []).append(('s', s['r']))
        tm = blk['t']
        if tm.get('k') == 'call' and isinstance(tm.get('d'), dict) and not tm['d']['p']:
            out.setdefault(tm['d']['l'], []).append(('c', tm))
    return out


def origin(op, ds):
    """the local an operand is a plain copy, move or shared borrow of"""
    if not isinstance(op, dict) or op.get('k') not in ('copy', 'move') or op['p']['p']:
        return None
    l = op['p']['l']
    while True:
        d = ds.get(l)
        if not d or len(d) != 1 or d[0][0] != 's':
            return l
        r = d[0][1]
        if r['k'] == 'use':
            o = r['o']
            if o.get('k') not in ('copy', 'move') or o['p']['p']:
                return l
            l = o['p']['l']
        elif r['k'] == 'ref' and not r.get('mut') and (not r['p']['p'] or [x['k'] for x in r['p']['p']] == ['deref']):
            l = r['p']['l']
        else:
            return l


def known_ok(body, at, op):
    """every path to block `at` went through the branch of an is_ok/is_err test on which the Result `op` is Ok"""
    ds = defs(body)
    l = origin(op, ds)
    if l is None:
        return False
    for i, tm in calls(body):
        fn = callee(tm) or {}
        if fn.get('name') not in ('is_ok', 'is_err') or tm.get('t') is None or len(tm['a']) != 1 or origin(tm['a'][0], ds) != l:
            continue
        sw = body.j['blocks'][tm['t']]
        if sw['t'].get('k') != 'switch' or origin(sw['t']['o'], ds) != tm['d']['l'] or tm['d']['p']:
            continue
        zero = [b for v, b in sw['t']['tg'] if v == 0 or v == '0']
        good = zero[0] if fn['name'] == 'is_err' and zero else sw['t'].get('else') if fn['name'] == 'is_ok' else None
        if good is None or good == (zero[0] if zero and fn['name'] == 'is_ok' else sw['t'].get('else')):
            continue
        # from the entry and from every assignment of the Result, the only way here leads through that branch
        starts = {0}
        for k, blk in enumerate(body.j['blocks']):
            if assigns(blk, l):
                starts.add(k if blk['t'].get('k') != 'call' or (blk['t'].get('d') or {}).get('l') != l else blk['t'].get('t'))
        if not any(at in reach(body, x, (tm['t'], good)) for x in starts - {None}):
            return True
    return False


def reach(body, start, without=None):
    seen, todo = {start}, [start]
    while todo:
        b = todo.pop()
        for s in body.succs(b):
            if (b, s) != without and s not in seen:
                seen.add(s)
                todo.append(s)
    return seen


def assigns(blk, l):
    tm = blk['t']
    return any(isinstance(s.get('r'), dict) and (s.get('p') or {}).get('l') == l for s in blk['s']) \
        or tm.get('k') == 'call' and (tm.get('d') or {}).get('l') == l
