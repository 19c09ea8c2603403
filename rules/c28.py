"""C28: every feature configuration works and exposes the same core API."""
import json
import re
from vlib import facts

EXPLANATION = ('The library is type-checked in three configurations (default features, no default features, all features) and the tool '
               'against it. Every public item with its signature, every re-export, every type with its fields, every implementation '
               'and the MIR of every function are then compared pairwise: a difference is only allowed inside the serde modules, in '
               'implementations of serde traits, and in the re-exports of the serde module.')
TECHNIQUE = 'cross-configuration comparison of resolved items, signatures, implementations and MIR'
LEVEL_NOTE = 'All feature combinations the manifest defines. Runtime behaviour of dependencies is assumed the same in all of them.'
CONF = (('no default features', 'nodefault', ('-p', 'ferrous-chloride', '--no-default-features')),
        ('all features', 'all', ('-p', 'ferrous-chloride', '--all-features')))


def norm(x):
    s = json.dumps(x, sort_keys=True)
    s = re.sub(r'([a-z_0-9]+)\[[0-9a-f]{4}\]', r'\1', s)
    return re.sub(r'\{impl#\d+\}', '{impl}', s)


def is_serde(s):
    return re.search(r'(^|[^\w])serde(_core)?::|(^|::)serde$', s) is not None


def tables(F):
    out = {}
    for i in F['items']:
        out.setdefault('item ' + i['path'], []).append(norm([i['kind'], i['sig'], i['reach']]))
    for e in F['exports']:
        if e['pub']:
            out.setdefault('export %s::%s' % (e['mod'], e['name']), []).append(norm(e['res']))
    for a in F['adts']:
        out.setdefault('type ' + a['path'], []).append(norm([a['kind'], a['pub'], a['variants']]))
    for i in F['impls']:
        out.setdefault('impl %s for %s' % (i['trait'], i['self_ty']), []).append(norm([i.get('trait_args')]))
    for b in F['bodies']:
        out.setdefault('body ' + b['path'], []).append(norm({k: b[k] for k in ('locals', 'blocks') if k in b}))
    return {k: sorted(v) for k, v in out.items()}


def allowed(k, v):
    if is_serde(k.split(' ', 1)[1]):
        return True
    return k.startswith('export ') and all(is_serde(json.loads(x) or '') for x in v)


def run(ctx):
    base = tables(ctx.prog.facts['ferrous_chloride'])
    ctx.ok('the tool builds against the library', 'default features')
    ctx.expect(len(ctx.prog.facts['fecl']['bodies']) > 3, 'tool', 'analysed')
    ctx.expect(any(k.startswith('item serde::de') for k in base), 'serde module present by default', 'default features')
    ctx.expect(any(k.startswith('item ') and k.endswith('from_str') and 'serde' in k for k in base), 'serde entry points present by default', '')
    for b in ctx.prog.facts['ferrous_chloride']['bodies']:
        ctx.analysed.add(b['id'])
    for what, name, args in CONF:
        try:
            F = facts.load(name, args, ('ferrous_chloride',))['ferrous_chloride']
        except facts.BuildError as ex:
            m = [l for l in str(ex).splitlines() if l.startswith('error') or l.strip().startswith('-->')]
            ctx.bad('builds with ' + what, '; '.join(m)[:800] or str(ex)[-500:])
            continue
        ctx.ok('builds with ' + what)
        other = tables(F)
        same = 0
        for k in sorted(set(base) | set(other)):
            a, b = base.get(k), other.get(k)
            if a == b:
                same += 1
                continue
            if name == 'nodefault' and allowed(k, (a or []) + (b or [])):
                continue
            d = 'missing with default features' if a is None else 'missing with ' + what if b is None else 'differs between default features and ' + what
            ctx.bad('%s (%s)' % (k, what), d)
        ctx.extra['identical_entries ' + what] = same
        ctx.calls += same
        ctx.floor(same, 1500, 'entries identical with ' + what)
        ctx.ok('identical API and code with ' + what, '%d entries' % same)
        if name == 'nodefault':
            left = [k for k in other if k.startswith('item serde')]
            ctx.expect(not left, 'serde module only with the serde feature', ', '.join(left[:3]))
