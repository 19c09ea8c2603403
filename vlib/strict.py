"""Evaluation that treats every operation of the crate that may panic as a branch: for C01 and C11.

On top of the ordinary path summaries: overflow, bounds and division checks the compiler inserts, and calls of
library functions with a precondition, fork into "holds" and "panics"; a path is only left out when its
condition contradicts what is known on it."""
import re
from . import terms as t
from . import text as X
from . import eval as E
from . import gram as G
from .terms import mk

# library functions that panic outside their precondition; (evaluator, call, arguments) -> the precondition
PARTIAL = {}


def p(*names):
    def deco(fn):
        for n in names:
            PARTIAL[n] = fn
        return fn
    return deco


def at_most(i, s):
    return t.nnot(t.lt(t.length(s), i))


@p('Vec::remove', 'Vec::swap_remove', '[T]::swap_remove', 'VecDeque::swap_remove_back')
def p_remove(ev, ctx, a):
    s = ev.deref(a[0])
    return t.nnot(t.empty(s)) if a[1] is t.ZERO else t.lt(ev.deref(a[1]), t.length(s))


@p('Vec::insert', 'Vec::split_off', '[T]::split_at', '[T]::split_at_mut', '[T]::rotate_left', '[T]::rotate_right', 'VecDeque::insert')
def p_upto(ev, ctx, a):
    return at_most(ev.deref(a[1]), ev.deref(a[0]))


@p('Vec::drain', 'VecDeque::drain', 'String::drain')
def p_drain(ev, ctx, a):
    s, r = ev.deref(a[0]), ev.deref(a[1])
    if ctx.name.startswith('String'):
        return None
    return in_range(s, r)


def in_range(s, r):
    if r.op == 'list' and all(x.op == 'c' for x in r.args):
        n = max([x.args[1] for x in r.args] or [-1]) + 1
        return t.nnot(t.empty(s)) if n == 1 else at_most(t.cint(n), s)
    if r.op == 'adt':
        k = r.args[0].split('::')[-1]
        if k == 'RangeFull':
            return t.TRUE
        if k in ('RangeTo', 'RangeFrom'):
            return at_most(r.args[3], s)
    if r.op == 'range':
        return t.band(at_most(r.args[1], s), t.nnot(t.lt(r.args[1], r.args[0])))
    return None


@p('Index::index', 'IndexMut::index_mut')
def p_index(ev, ctx, a):
    h = E.head_ty(ctx.arg_ty(0))
    s, i = ev.deref(a[0]), ev.force(ev.deref(a[1]))
    if h and h.split('::')[-1] in ('HashMap', 'BTreeMap'):
        return None
    if re.match(r'^(&(mut )?)*(str|.*String|.*Cow<.*str>|.*CompleteStr.*)$', re.sub(r"'\w+ ?", '', ctx.arg_ty(0) or '')):
        return 'text' if isinstance(ev, G.GEv) else None
    if i.op in ('adt', 'range', 'list'):
        return in_range(s, i)
    return t.lt(i, t.length(s))


@p('u32::from_str_radix', 'u8::from_str_radix', 'u16::from_str_radix', 'u64::from_str_radix', 'i64::from_str_radix', 'u128::from_str_radix',
   'i32::from_str_radix', 'i128::from_str_radix', 'usize::from_str_radix', 'char::to_digit', 'char::is_digit', 'char::from_digit')
def p_radix(ev, ctx, a):
    r = ev.deref(a[1])
    return t.TRUE if r.op == 'c' and 2 <= r.args[1] <= 36 else None


@p('Iterator::step_by', '[T]::chunks', '[T]::windows', '[T]::chunks_exact', '[T]::chunks_mut', '[T]::rchunks')
def p_positive(ev, ctx, a):
    n = ev.deref(a[1])
    return t.TRUE if n.op == 'c' and n.args[1] > 0 else t.lt(t.ZERO, n)


@p('String::truncate')
def p_truncate(ev, ctx, a):
    """a cut at the start of the last separator is at a character boundary"""
    from . import models as M
    s, n = ev.deref(a[0]), ev.deref(a[1])
    if M.joined_but_last(s, n) is not None or n is t.ZERO:
        return t.TRUE
    return None


@p('Iterator::sum')
def p_sum(ev, ctx, a):
    """numbers of elements held in memory: trusted like + on usize"""
    return t.TRUE if ctx.dt == 'usize' else None


for n in ('String::remove', 'String::insert', 'String::insert_str', 'String::split_off', 'String::replace_range', 'str::split_at', 'str::split_at_mut',
          'RefCell::borrow', 'RefCell::borrow_mut', '[T]::copy_from_slice', '[T]::clone_from_slice', 'process::exit', 'process::abort',
          'Option::unwrap_unchecked', 'Result::unwrap_unchecked', 'hint::unreachable_unchecked', 'Div::div', 'Rem::rem', 'Sub::sub', 'Mul::mul',
          'str::get_unchecked', '[T]::get_unchecked', 'Duration::from_secs_f64', 'char::from_u32_unchecked', '[T]::select_nth_unstable',
          'Vec::extend_from_within', '[T]::swap', 'Instant::sub', 'thread::spawn', 'JoinHandle::join', 'panic::resume_unwind',
          'str::slice_unchecked', 'Iterator::product', 'i64::abs', 'i32::abs', 'i128::abs', 'isize::abs', 'i64::pow', 'u64::pow',
          'usize::pow', 'u32::pow', 'i32::pow', 'u128::pow', 'i128::pow', 'u8::pow', 'usize::div_euclid', 'usize::next_power_of_two'):
    PARTIAL[n] = lambda ev, ctx, a: None
# reported by their models, or diverging
PARTIAL_MODELLED = {'Option::unwrap', 'Option::expect', 'Result::unwrap', 'Result::expect', 'Result::unwrap_err', 'Result::expect_err',
                    'InputTake::take', 'InputTake::take_split', 'Slice::slice', 'take_mut::take'}


class Strict:
    """mixin: panics are outcomes; `entered` records the blocks some path reached"""
    def setup(self):
        self.entered = set()
        self.reasons = []

    def summary(self, body, names=None):
        self.setup()
        return super().summary(body, names)

    def run_block(self, fr, bb):
        self.entered.add((fr.body.id, bb))
        return super().run_block(fr, bb)

    def tidied(self, v):
        return v

    def may_panic(self, why):
        raise E.Panic(why)

    def check_assert(self, fr, tm):
        m = tm.get('m') or ''
        if m.startswith('overflow:'):
            ty = tm.get('ty') or ''
            op = m.split(':')[1]
            if op in ('Add', 'Mul') and ty in ('usize', 'u64', 'isize', 'i64') and op == 'Add':
                return          # lengths, positions and counts of things held in memory
            a, b = [self.deref(self.operand(fr, tm[k])) for k in ('a', 'b')]
            a, b = self.tidied(a), self.tidied(b)
            if a.op == 'c' and b.op == 'c':
                return
            if op == 'Sub' and ty.startswith('u'):
                if self.decide(t.lt(a, b)):
                    self.may_panic('subtraction underflows')
                return
            self.may_panic('arithmetic may overflow')
        elif m.startswith('bounds') or 'len' in tm:
            i, n = self.deref(self.operand(fr, tm['index'])), self.deref(self.operand(fr, tm['len']))
            if not self.decide(t.lt(i, n)):
                self.may_panic('index out of bounds')
        else:
            v = self.operand(fr, tm['o'])
            if self.decide(v) != tm.get('e', True):
                self.may_panic(m or 'assertion')

    def call(self, fn, args, tm):
        name = self.fname(fn)
        f = PARTIAL.get(name)
        if f is not None and fn.get('res') not in self.prog.bodies:
            dt = (tm or {}).get('dt') or ''
            c = f(self, E.Call(fn, name, (tm or {}).get('at') or [], dt), args)
            if c is None:
                self.may_panic('%s outside its precondition' % name)
            if c != 'text' and not self.decide(c):
                self.may_panic('%s outside its precondition' % name)
        return super().call(fn, args, tm)


class TextEv(Strict, G.GEv):
    def setup(self):
        super().setup()
        self.inits, self.assumed, self.unproved = {}, {}, []

    def phi(self, init):
        x = super().phi(init)
        self.inits[x] = init
        return x

    def tidied(self, v):
        return self.tidy(v, self.facts)

    def cut_ok(self, s, n):
        n = self.tidied(n)
        if not self.at_boundary(s, n):
            self.may_panic('cut at %s of %s not known to be at a character boundary within it' % (t.show(n), t.show(s)))

    def at_boundary(self, s, n):
        if self.boundary(s, n):
            return True
        if n.op == 'case':
            saved = self.facts
            for v, x in zip(n.args[1], n.args[2:]):
                self.facts = dict(saved)
                self.facts[n.args[0]] = v
                ok = self.at_boundary(s, x)
                self.facts = saved
                if not ok:
                    return False
            return True
        # not beyond the end of a run of one-byte characters
        for a, w in self.facts.items():
            if a.op == 'lt' and (a.args[0] is n and w is True or a.args[1] is n and w is False):
                e = a.args[1] if a.args[0] is n else a.args[0]
                if e.op == 'offs' and e.args[0] is s and e.args[1].op == 'aft' and e.args[1].args[0] is s and self.ascii_class(e.args[1].args[1]):
                    return True
        if n.op == 'c' and s.op == 'find' and self.holds(mk('contains', *s.args)):
            return n.args[1] in {len(s.args[1].args[1][:k].encode()) for k in range(len(s.args[1].args[1]) + 1)}
        # the index an iteration over the characters of s gives
        if n.op in ('f', 'head') and (n.op == 'head' or n.args[1] == '0' and n.args[0].op == 'head'):
            q = n.args[0] if n.op == 'head' else n.args[0].args[0]
            while q.op == 'tail':
                q = q.args[0]
            if self.indices(q, n.op == 'f') is s:
                return True
            i = self.inits.get(q)
            if i is not None and self.indices(i, n.op == 'f') is s:
                self.assumed[q] = None
                return True
        x = n.args[0] if n.op == 'f' and n.args[1] == '0' else n
        if x in self.elem_of and self.indices(self.elem_of[x], x is not n) is s:
            return True
        # an index kept from iteration to iteration
        if n in self.inits:
            if self.assumed.get(n, s) is s and self.at_boundary(s, self.inits[n]):
                self.assumed[n] = s
                return True
        if n.op == 'add' and len(n.args) == 2:
            for a, k in (n.args, n.args[::-1]):
                if k.op == 'c' and a.op != 'c' and self.at_boundary(s, a) and self.at_boundary(X.skip(s, a), k):
                    return True
        return False

    def indices(self, q, pairs):
        """the text whose character indices (with the characters, if pairs) q is a tail of"""
        while q.op == 'tail':
            q = q.args[0]
        if pairs:
            return q.args[0] if q.op == 'char_indices' else None
        if q.op == 'fm':
            x = t.sym('x')
            b = t.open_lam(q.args[1], x)
            if b.op == 'list' and len(b.args) == 1 and b.args[0] is t.f(x, '0', 'tup'):
                return self.indices(q.args[0], True)
        return None

    def loop_closed(self, hav, backs):
        for key, x in hav.items():
            if x not in self.assumed:
                continue
            s = self.assumed[x]
            for p in backs:
                v = self.rd(p, *key)
                if s is None:
                    ok = v is x or v is t.tail(x)
                else:
                    saved = self.facts
                    self.facts = dict(p.facts)
                    ok = self.at_boundary(s, v)
                    self.facts = saved
                if not ok:
                    self.unproved.append('%s after an iteration when %s' % (t.show(v), E.show_path(p.decs)))


class PlainEv(Strict, E.Ev):
    pass
