"""C26: the fecl tool writes output only for a successfully parsed input."""
from vlib import terms as t
from vlib import eval as E
from vlib.terms import mk

EXPLANATION = ('Path-sensitive effect-order analysis of the tool from main on: every path through the command is enumerated with the '
               'ordered list of the library and system calls it makes and the outcomes it has tested. The output is created or '
               'written only after the reader call has returned Ok; a path that reports success has tested every fallible call and '
               'wrote the whole text exactly once; every other path ends in a message and a non-zero exit; the input is standard '
               'input exactly for "-" and otherwise the file of the first argument, the output likewise for the second; the merge '
               'argument is Some(Error) exactly when the flag is absent; the arguments are declared that way on the command named '
               'parse, which is attached and leads to this code, and no other command ends in success.')
TECHNIQUE = 'path-sensitive effect-order (typestate) analysis over MIR'
LEVEL_NOTE = 'All paths of the tool. clap, the operating system and the library itself (C01, C05, C13) are trusted.'

SINK = ('File::create', 'io::stdout', 'fs::write', 'OpenOptions::open',
        'Write::write', 'Write::write_all', 'Write::write_fmt', 'Write::flush', 'fs::remove_file', 'fs::rename', 'fs::copy',
        'File::set_len', 'BufWriter::new', 'BufWriter::with_capacity', 'File::create_new')
PRINT = ('stdio::_print', 'io::_print', 'stdio::_eprint', 'io::_eprint')
WRITES = ('Write::write_all', 'Write::write_fmt', 'fs::write')


def calls(trace):
    for x in trace:
        if x[0] == 'call':
            yield x[1], x[2]
        elif x[0] == 'loop':
            yield 'loop', ()


def run(ctx):
    prog = ctx.prog
    lib = lambda fn: (fn.get('res') or fn['id']).startswith('ferrous_chloride[')
    main = [b for b in prog.bodies.values() if b.id.startswith('fecl[') and b.j['path'] == 'main']
    if len(main) != 1:
        ctx.bad('main', 'no main function in the tool')
        return
    mp = [b for b in ctx.bodies(name='make_parser') if b.id.startswith('fecl[')]
    clapid = {b.id for b in mp}
    ev = E.Ev(prog, opaque=lambda n, fn: lib(fn) or (fn.get('res') or fn['id']) in clapid or isclap(prog, fn))
    ev.models = dict(ev.models, **{'OpenOptions::open': open_options})
    ps = ev.summary(main[0])
    ctx.note(ev, ps)
    nok = nfail = 0
    reads = set()
    for p in ps:
        cond = E.show_path(p.decs)[-500:]
        dec = {a: v for a, v in p.decs}
        cs = list(calls(p.trace))
        # calls are pure terms in the summary; the first occurrence of each is the call
        seen, order = set(), []
        for c in cs:
            if c[0] in WRITES or c not in seen:
                order.append(c)
            seen.add(c)
        ret_ok = p.kind == 'ok' and (p.val is t.UNIT or p.val.op == 'adt' and p.val.args[1] == 'Ok')
        exits = [c for c in order if c[0] == 'process::exit']
        # 1. nothing is written before a successful parse
        parsed = None
        for nm, a in order:
            if nm.split('::')[-1] in ('from_reader', 'parse_reader', 'from_str', 'from_slice', 'parse_str', 'parse_slice'):
                r = t.call(nm, *a)
                if dec.get(mk('variant', r)) == 'Ok':
                    parsed = r
                else:
                    parsed = parsed or False
            elif nm in SINK or nm == 'loop':
                ctx.expect(bool(parsed), 'written only after a successful parse',
                           '%s happens when the input has not been parsed: %s' % (nm, cond))
        zero = bool(exits) and exits[-1][1][0].op == 'c' and exits[-1][1][0].args[1] in (0, '0')
        if missing_arg(dec):
            continue        # an argument with a declared default is always present
        if ret_ok and not exits or zero:
            nok += 1
            success(ctx, p, order, dec, parsed, cond, ev)
        else:
            nfail += 1
            msg = any(nm in PRINT for nm, a in order)
            nz = bool(exits) and exits[-1][1][0].op == 'c' and exits[-1][1][0].args[1] not in (0, '0')
            err = p.kind == 'ok' and p.val.op == 'adt' and p.val.args[1] == 'Err' and not exits
            pan = p.kind == 'panic' and not exits
            ctx.expect((nz and msg) or err or pan, 'a failure is reported and exits non-zero',
                       'failure path ends with %s%s: %s' % ('exit ' + t.show(exits[-1][1][0]) if exits else t.show(p.val)[:80],
                                                          '' if msg else ' and no message', cond))
    ctx.floor(nok, 8, 'successful paths')
    ctx.floor(nfail, 5, 'failing paths')
    declared(ctx, mp)


def open_options(ev, ctx, a):
    """opening with the options of File::create or of File::open is that function"""
    x, opts = ev.deref(a[0]), set()
    while x.op == 'call' and x.args[0].startswith('OpenOptions::') and len(x.args) == 3 and x.args[2] in (t.TRUE, t.FALSE):
        o = x.args[0].split('::')[1]
        if not any(o == k for k, v in opts):
            opts.add((o, x.args[2] is t.TRUE))
        x = x.args[1]
    on = {k for k, v in opts if v}
    if x.op == 'call' and x.args[0] in ('OpenOptions::new', 'File::options'):
        if on == {'write', 'create', 'truncate'}:
            return ev.opaque('File::create', [a[1]])
        if on == {'read'}:
            return ev.opaque('File::open', [a[1]])
    return NotImplemented


def isclap(prog, fn):
    return False


def missing_arg(dec):
    return any(a.op == 'variant' and a.args[0].op == 'call' and a.args[0].args[0].endswith('::value_of') and v == 'None' and
               a.args[0].args[2] in (t.cstr('input'), t.cstr('output')) for a, v in dec.items())


def arg(nm, args_like, dec):
    for a, v in dec.items():
        if a.op == 'variant' and a.args[0].op == 'call' and a.args[0].args[0].endswith('::value_of') and a.args[0].args[2] is t.cstr(nm):
            return t.vf(a.args[0], 'Some', '0', t.OPTION)
    return None


def success(ctx, p, order, dec, parsed, cond, ev):
    subs = set()
    for a, v in dec.items():
        if a.op == 'call' and a.args[0] == 'eq' or a.op == 'eq':
            xs = [x for x in a.args if not isinstance(x, str)]
            if v is True and any('::subcommand' in str(y.args[0]) for x in xs for y in t.subterms(x) if y.op == 'call') and \
                    not any(y.op == 'call' and y.args[0].endswith('::value_of') for x in xs for y in t.subterms(x)):
                for x in xs:
                    if x.op == 'c':
                        subs.add(x.args[1])
        if a.op == 'variant' and v == 'Some':
            for y in t.subterms(a):
                if y.op == 'call' and y.args[0].endswith('::subcommand_matches') and y.args[2].op == 'c':
                    subs.add(y.args[2].args[1])
    ctx.expect(subs == {'parse'}, 'parsing is the parse command', 'reports success for the command %s: %s' % (sorted(map(str, subs)), cond))
    if not ctx.expect(bool(parsed), 'success only after parsing', 'reports success without a parsed input: ' + cond):
        return
    # every fallible call has been tested
    for nm, a in order:
        r = t.call(nm, *a)
        v = dec.get(mk('variant', r))
        if v == 'Err':
            ctx.bad('success despite a failed call', '%s failed: %s' % (nm, cond))
        if nm in WRITES or nm in ('File::create', 'File::open', 'Write::flush'):
            ctx.expect(v == 'Ok', 'the outcome of %s is checked' % nm, 'success without testing %s: %s' % (nm, cond))
    # input
    inp, out = arg('input', None, dec), arg('output', None, dec)
    dash = lambda x: dec.get(t.eq(t.cstr('-'), x)) if x is not None else None
    i, o = dash(inp), dash(out)
    ctx.expect(i is not None and o is not None, 'paths are compared with "-"', cond)
    names = [nm for nm, a in order]
    src = parsed.args[1]
    if i is True:
        ctx.expect(unwrap(src) is t.call('io::stdin') and 'File::open' not in names, 'input "-" is standard input', '%s: %s' % (t.show(src)[:120], cond))
    elif i is False:
        want = t.vf(t.call('File::open', inp), 'Ok', '0', t.RESULT)
        ctx.expect(unwrap(src) is want and 'io::stdin' not in names, 'any other input is that file', '%s: %s' % (t.show(src)[:120], cond))
    # merging
    nm = [v for a, v in dec.items() if a.op == 'call' and a.args[0].endswith('::is_present') and a.args[2] is t.cstr('no_merge')]
    merge = parsed.args[2] if len(parsed.args) > 2 else None
    merge = ev.force(merge) if merge is not None and merge.op != 'case' else merge
    has = merge is not None and merge.op == 'adt' and merge.args[1] == 'Some'
    mb = t.vf(merge, 'Some', '0', t.OPTION) if has else None
    some = has and mb.op == 'adt' and mb.args[0].split('::')[-1] == 'MergeBehaviour' and mb.args[1] == 'Error'
    ctx.expect(len(nm) == 1 and (merge is t.NONE if nm[0] else some), 'merged exactly without --no-merge',
               'merge argument %s: %s' % (t.show(merge)[:80] if merge is not None else '?', cond))
    # output
    ws = [(nm, a) for nm, a in order if nm in WRITES]
    if ctx.expect(len(ws) == 1, 'written once', '%d writes: %s' % (len(ws), cond)):
        nm, a = ws[0]
        dst = unwrap(a[0])
        if dst.op == 'call' and dst.args[0] in ('BufWriter::new', 'LineWriter::new'):
            after = order[order.index(ws[0]):]
            ctx.expect(any(x == 'Write::flush' and dec.get(mk('variant', t.call(x, *y))) == 'Ok' for x, y in after),
                       'buffered output is flushed and checked', cond)
            dst = unwrap(dst.args[1])
        if o is True:
            ctx.expect(dst is t.call('io::stdout') and 'File::create' not in names and 'fs::write' not in names,
                       'output "-" is standard output', '%s: %s' % (t.show(dst)[:120], cond))
        elif o is False:
            w1 = t.vf(t.call('File::create', out), 'Ok', '0', t.RESULT)
            ctx.expect((dst is w1 or nm == 'fs::write' and dst is out) and 'io::stdout' not in names, 'any other output is that file',
                       '%s: %s' % (t.show(dst)[:120], cond))
        val = t.vf(parsed, 'Ok', '0', t.RESULT)
        ctx.expect(any(x.op == 'call' and str(x.args[0]).startswith('shown:') and x.args[1] is val for x in t.subterms(a[1])), 'the parsed document is what is written', t.show(a[1])[:200])
    ctx.expect(not any(nm in ('stdio::_print', 'io::_print') for nm, a in order), 'nothing else is printed', cond)


def unwrap(x):
    """a buffered reader or writer over the same stream"""
    while x.op == 'call' and x.args[0] in ('BufReader::new', 'Stdin::lock', 'Stdout::lock'):
        x = x.args[1]
    return x


def declared(ctx, mp):
    """the flags mean what the command reads"""
    if len(mp) != 1:
        ctx.bad('argument declarations', 'make_parser not found')
        return

    def go():
        ev, ps = ctx.summary(mp[0])
        decl = {}
        for p in ps:
            # the command line that is returned, with its parse command and that command's arguments
            under = lambda x, nm: [y for y in t.subterms(x) if y.op == 'call' and y.args[0] == nm]
            sub = [a for z in ('App::subcommand', 'App::subcommands') for x in under(p.val, z) for a in x.args[2:]]
            named = [x.args[1] for a in sub for x in under(a, 'SubCommand::with_name')]
            ctx.expect(named == [t.cstr('parse')], 'the parse command is declared', '%s' % [t.show(x) for x in named])
            attached = [x for a in sub for x in under(a, 'Arg::with_name')]
            for k in ('input', 'output', 'no_merge'):
                ctx.expect(any(x.args[1] is t.cstr(k) for x in attached), '%s is an argument of the parse command' % k, '')
            for nm, a in calls(p.trace):
                if nm.startswith('Arg::') and a:
                    ch, x = [], t.call(nm, *a)
                    while x.op == 'call' and x.args[0].startswith('Arg::') and x.args[0] != 'Arg::with_name':
                        ch.append((x.args[0].split('::')[1], x.args[2:]))
                        x = x.args[1]
                    if x.op == 'call' and x.args[0] == 'Arg::with_name':
                        k = x.args[1].args[1] if x.args[1].op == 'c' else '?'
                        if len(ch) >= len(decl.get(k, [])):
                            decl[k] = ch
        d = {k: dict(v) for k, v in decl.items()}
        one = lambda k, m: (d.get(k, {}).get(m) or [None])[0]
        ctx.expect(one('no_merge', 'long') is t.cstr('no-merge'), 'flag --no-merge', t.show(one('no_merge', 'long') or t.UNIT))
        ctx.expect(one('no_merge', 'takes_value') in (None, t.FALSE) and 'default_value' not in d.get('no_merge', {}), 'flag takes no value', '')
        for k, i in (('input', 1), ('output', 2)):
            ix, df = one(k, 'index'), one(k, 'default_value')
            ctx.expect(ix is not None and ix.op == 'c' and ix.args[1] in (i, str(i)), '%s is argument %d' % (k, i), t.show(ix or t.UNIT))
            ctx.expect(df is t.cstr('-') or one(k, 'required') is t.TRUE, '%s is always present' % k, t.show(df or t.UNIT))
    ctx.guard('argument declarations', go)
