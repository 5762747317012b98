from ..dsl import *
from .. import alg
from fractions import Fraction as Fr

NAMES = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div', '<': 'lt', '<=': 'le', '>': 'gt', '>=': 'ge', '==': 'eq', '!=': 'ne', '&&': 'and', '||': 'or'}


def nm(op):
    return NAMES[op]


def leaf(p, name, sh, n=3):
    if sh == 's':
        return p.s(name)
    if sh == 'v':
        return p.v(name, n)
    return p.m(name, 2, 2)


def konst(p, name, sh, how, n=3):
    if sh == 's':
        return p.const(name, 's', how='c' if how in ('c', 'ceig', 'view') else 'num')
    if sh == 'v':
        return p.const(name, 'v', n, how=how)
    return p.const(name, 'm', 2, 2, how=how)


def hist2(p):
    p.hist = ['set', 'diff', 'set', 'diff']
    return p
