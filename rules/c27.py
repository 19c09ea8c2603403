"""C27: parsing and deserialization have no side effects."""
import re
from vlib import facts
from vlib import eval as E

EXPLANATION = ('Effect (may-call) analysis: every function item referenced anywhere in the MIR of the library, called or passed along, '
               'including those inside macro expansions, derives and closures, is resolved to its defining crate and module and must lie '
               'in a module that cannot reach the outside world; the only input/output allowed is reading from a reader. No static of '
               'the library is mutable or has interior mutability and nothing uses a thread-local; no unsafe block, function, '
               'implementation or foreign item exists; and a witness crate that requires Send and Sync of every public tree, value, '
               'error and index type is type-checked against the current library.')
TECHNIQUE = 'may-call effect analysis over MIR, HIR unsafe query, compile-time Send/Sync witness'
LEVEL_NOTE = 'Every call site of the library. External crates on the list are trusted to be free of effects; log only calls the installed logger.'

CRATES = {'alloc', 'core', 'failure', 'itertools', 'log', 'nom', 'serde', 'serde_core', 'take_mut', 'unic_ucd_ident', 'ferrous_chloride'}
STD_OK = ('collections', 'panicking', 'hash', 'error', 'num', 'f32', 'f64', 'ascii', 'string', 'vec')
READ_OK = ('Read', 'BufRead', 'error', 'Error', 'cursor', 'Cursor', 'ErrorKind', 'Bytes', 'Take', 'Chain')
DENY_CORE = ('core::sync::atomic::fence',)


def parts(did):
    """'std[308e]::io::stdio::_print' -> ('std', ['io', 'stdio', '_print'])"""
    p = did.split('::')
    return re.sub(r'\[.*', '', p[0]), [x for x in p[1:]]


def fns(x):
    if isinstance(x, dict):
        if isinstance(x.get('fn'), dict):
            yield x['fn'], x
        for v in x.values():
            yield from fns(v)
    elif isinstance(x, list):
        for v in x:
            yield from fns(v)


def verdict(fn):
    """None if free of effects, else what it can do"""
    crate, mods = parts(fn['id'])
    if crate not in CRATES and crate != 'std':
        return 'calls into crate %s, which is not known to be free of effects' % crate
    if 'io' in mods[:1]:
        rest = mods[1:]
        if any(m in READ_OK or m.startswith('{impl') and 'rror' in fn['path'] for m in rest) or (fn.get('trait') or '').endswith(('io::Read', 'io::BufRead')):
            return None
        if fn.get('trait') and not fn['trait'].split('::')[-2:-1] == ['io']:
            return None         # a formatting, conversion or drop implementation of an io type
        return 'input/output other than reading from a reader'
    if crate == 'std':
        if mods and mods[0] in STD_OK:
            return None
        if mods and mods[0] == 'thread' and 'panicking' in mods:
            return None
        return 'std::%s can reach the outside world or global state' % '::'.join(mods)
    if crate == 'core' and mods[:2] == ['panic', 'catch_unwind']:
        return None
    return None


def run(ctx):
    F = ctx.prog.facts['ferrous_chloride']
    sites = 0
    seen = {}
    for b in F['bodies']:
        ctx.analysed.add(b['id'])
        for fn, _ in fns(b['blocks']):
            sites += 1
            k = fn['id']
            if k not in seen:
                seen[k] = verdict(fn)
            if seen[k]:
                ctx.bad('effect %s in %s' % (E.npath(fn['path']), E.npath(b['path'])), '%s (%s:%s): %s' % (
                    b['path'], b['file'], b['line'], seen[k]))
    for k, v in sorted(seen.items()):
        if not v:
            ctx.obl.append(('callee ' + k.split('::{')[0], True, ''))
    ctx.calls = sites
    ctx.extra['distinct_callees'] = len(seen)
    ctx.floor(sites, 2000, 'referenced functions')
    for s in F['statics']:
        ctx.expect(not s['mut'] and s['freeze'], 'static ' + s['path'], '%s: %s is mutable global state (%s:%s)' % (s['path'], s['ty'], s['file'], s['line']))
    tl = re.compile(r'\b(LocalKey|LazyLock|OnceLock|ThreadId)\b|thread_local')
    for b in F['bodies']:
        for l in b['locals']:
            if tl.search(l['ty']):
                ctx.bad('thread-local or lazy global in ' + E.npath(b['path']), '%s (%s:%s)' % (l['ty'], b['file'], b['line']))
                break
    for u in F['unsafe']:
        ctx.bad('%s in %s' % (u['what'], u['file']), '%s at %s:%s' % (u['what'], u['file'], u['line']))
    if not F['unsafe']:
        ctx.ok('no unsafe code')
    try:
        P = facts.probe()
        ctx.expect(any(b['path'] == 'sharing::all' for b in P['probe']['bodies']), 'Send and Sync', 'witness present')
        ctx.extra['types_required_to_be_send_and_sync'] = sum(1 for b in P['probe']['bodies'] if b['path'] == 'sharing::all' for _ in fns(b['blocks']))
    except facts.BuildError as ex:
        m = [l for l in str(ex).splitlines() if l.startswith('error') or 'within `' in l or '= help' in l]
        ctx.bad('Send and Sync', 'the witness does not type-check: ' + '; '.join(m)[:900])
