"""Vocabulary of the block index, shared by C09 and C10."""
from vlib import terms as t
from vlib.spec import bname

BB, BS = 'BlockBody', 'Blocks'


class Fns:
    def __init__(self, ctx):
        for nm in ('append', 'get', 'get_mut', 'flat_iter', 'flat_iter_mut', 'flat_into_iter', 'len_blocks', 'label_lens',
                   'label_lens_uniform', 'is_label_lens_uniform'):
            setattr(self, nm, ctx.body(adt=BB, trait=None, name=nm))
        self.bs_append = ctx.body(adt=BS, trait=None, name='append')
        self.bb_extend = ctx.body(adt=BB, trait='Extend', name='extend')


def after(S, body, *args):
    """value of the first (&mut) argument after calling body"""
    return S.call(bname(body) + '@0', *args)


def empty_body(S):
    return S.mk(BB, 'Body', t.NIL)


def fst(e):
    return t.f(e, '0', 'tup')


def snd(e):
    return t.f(e, '1', 'tup')


def blk(S, e, n):
    return S.f(e, 'block::Block', n)
