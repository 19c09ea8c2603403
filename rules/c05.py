"""C05: text, byte and reader entry points agree."""
from vlib import terms as t
from rules.entry import from_err, starts, CE
from rules import c06

EXPLANATION = ('Value-flow normal forms of parse_slice, parse_reader, value::from_slice and value::from_reader: the bytes (or the whole '
               'content of the reader) go through strict UTF-8 decoding only, the decoded text as it is goes to parse_str / from_str '
               'with the same merge argument, the result is returned unchanged (its owned copy for readers, see C06), and a decoding '
               'or reading failure is returned as that error.')
TECHNIQUE = 'path-sensitive value-flow normal forms of the entry points compared with their defining composition'
LEVEL_NOTE = 'All paths of the four entry points. read_to_string and from_utf8 are trusted to read everything and to decode strictly.'


def run(ctx):
    for mod, base, sl, rd in (('parser', 'parse_str', 'parse_slice', 'parse_reader'), ('value', 'from_str', 'from_slice', 'from_reader')):
        def one(mod=mod, base=base, sl=sl, rd=rd):
            b = ctx.body(path='%s::%s' % (mod, base))

            def slc(S, x, *rest):
                good, v = S.res(S.call('str::from_utf8', x))
                if not good:
                    return t.err(S.mk(CE, 'InvalidUnicodeToParse', v))
                return S.call(b, v, *rest)

            def rdr(S, x, *rest):
                r = t.call('Read::read_to_string', x, t.NIL)
                good, v = S.res(r)
                if not good:
                    return t.err(S.mk(CE, 'IOError', v))
                good, v = S.res(S.call(b, t.call('Read::read_to_string@1', x, t.NIL), *rest))
                return t.ok(t.call('AsOwned::as_owned', v)) if good else t.err(v)
            def bytes_first(decode, failure):
                # the bytes are read to the end and then decoded
                def spec(S, x, *rest):
                    good, v = S.res(t.call('Read::read_to_end', x, t.NIL))
                    if not good:
                        return t.err(S.mk(CE, 'IOError', v))
                    good, v = S.res(t.call(decode, t.call('Read::read_to_end@1', x, t.NIL)))
                    if not good:
                        return t.err(failure(S, v))
                    good, v = S.res(S.call(b, v, *rest))
                    return t.ok(t.call('AsOwned::as_owned', v)) if good else t.err(v)
                return spec
            rdrs = [rdr, bytes_first('str::from_utf8', lambda S, v: S.mk(CE, 'InvalidUnicodeToParse', v)),
                    bytes_first('String::from_utf8', lambda S, v: S.mk(CE, 'InvalidUnicodeToParse', t.call('FromUtf8Error::utf8_error', v))),
                    bytes_first('String::from_utf8', lambda S, v: S.mk(CE, 'IOError', t.call('Error::new', t.adt('std::io::ErrorKind', 'InvalidData', []), v)))]
            own = ['AsOwned::as_owned', b]
            ctx.guard('%s::%s' % (mod, sl), lambda: ctx.equiv(ctx.body(path='%s::%s' % (mod, sl)), slc, key='%s::%s' % (mod, sl), opaque=own, post=from_err))
            ctx.guard('%s::%s' % (mod, rd), lambda: ctx.equiv_any(ctx.body(path='%s::%s' % (mod, rd)), rdrs, key='%s::%s' % (mod, rd), opaque=own, post=from_err))
        ctx.guard(mod, one)
    ctx.floor(len(ctx.obl), 4, 'entry points')
    # the text itself goes to the grammar as it is; the copy a reader returns is an equal one
    starts(ctx, {'parser::parse_str', 'value::from_str'})
    c06.run(ctx)
