"""C02: sum, prod, norm, dot, transpose"""
from ..dsl import *
from .common import *

BOUNDS = 'sum/prod/norm over vectors of length 1..9 and matrices up to 4x3, element ranges of 0..8 expressions (all zero patterns up to 4 factors, any two factors zero beyond), products of matrices of every shape up to 4x4 by 4x3; 2 successive evaluations, all zero patterns of factors; the growable catalogue entries also at length 9 and 17 (quick: some paths); empty vectors and matrices'
CFG = {'quick': {'prog_time': 60}}


def programs(tier, rng):
    ps = []
    deep = tier == 'thorough'

    def new(name, e=None, **kw):
        p = P(name)
        for k, v in kw.items():
            setattr(p, k, v)
        ps.append(p)
        return p
    for f in ('sum', 'prod', 'norm'):
        for n in (1, 2, 3) + ((4, 5) if deep else (4,) if f != 'prod' else ()):
            p = new('%s.v%d' % (f, n), maxpaths=600)
            p.e = Red(f, p.v('x', n))
            if f == 'prod' and n > 2 and not deep:
                p.hist = ['set', 'eval', 'adj']
        for r, c in ((2, 2), (1, 2), (2, 1)) + (((2, 3), (3, 2)) if f != 'prod' or deep else ()):
            p = new('%s.m%d%d' % (f, r, c), maxpaths=600)
            p.e = Red(f, p.m('x', r, c))
            if f == 'prod' and r * c > 2:
                p.hist = ['set', 'eval', 'adj']
        if f != 'norm':
            scl(new, f)
        p = new('%s.sub.v' % f, maxpaths=200, bind='bind')
        x, y = p.v('x', 2), p.s('y')
        p.e = Red(f, x * y) * y + x[0]
        p = new('%s.sub2.v' % f, maxpaths=200)
        x, y = p.v('x', 2), p.v('y', 2)
        p.e = sin(Red(f, x - y)) * Red(f, y)
        p.hist = ['set', 'diff']
        p = new('%s.sub.m' % f, maxpaths=200)
        x, y = p.m('x', 2, 2), p.s('y')
        p.e = Red(f, exp(x)) * y
        hist2(p)
        p = new('%s.views' % f, maxpaths=300)
        x = p.v('x', 3)
        p.e = Red(f, x.head(2)) * x[2] + Red(f, x.tail(2))
        p.hist = ['set', 'diff']
        p = new('%s.same' % f, maxpaths=300)
        x = p.v('x', 2)
        p.e = Red(f, x * x) - Red(f, x)
        p.hist = ['set', 'eval', 'adj']
        p = new('%s.dot' % f, maxpaths=300)
        a, x = p.m('a', 2, 2), p.v('x', 2)
        p.e = Red(f, dot(a, x))
        p.hist = ['set', 'eval', 'adj']
    # ranges of expressions
    for f in ('sum', 'prod'):
        for n in (1, 2, 3):
            p = new('%s.range%d.leaf' % (f, n), maxpaths=600)
            x = p.v('x', n)
            p.e = p.each(f, x, lambda v: v)
            if n == 3 and f == 'prod' and not deep:
                p.hist = ['set', 'eval', 'adj']
            p = new('%s.range%d.expr' % (f, n), maxpaths=600, bind='bind')
            x, y = p.v('x', n), p.s('y')
            p.e = p.each(f, x, lambda v: v * y + y)
            p.hist = ['set', 'eval', 'adj']
        p = new('%s.range0' % f)
        x, y = p.v('x', 2), p.s('y')
        p.e = p.each(f, x, lambda v: sin(v), n=0)
        p = new('%s.range0.outer' % f)
        x, y = p.v('x', 2), p.s('y')
        p.e = p.each(f, x, lambda v: sin(v), n=0) * y + x[1]
        for k in (1, 2, 3):
            p = new('%s.vecs%d' % (f, k), maxpaths=600)
            ls = [p.v('x%d' % i, 2) for i in range(k)]
            p.e = VarsIter(f, ls, lambda v: v)
            if f == 'prod' and k > 1:
                p.hist = ['set', 'eval', 'adj']
        p = new('%s.vecs.expr' % f, maxpaths=600)
        ls = [p.v('x%d' % i, 2) for i in range(2)]
        y = p.s('y')
        p.e = VarsIter(f, ls, lambda v: v * y)
        p.hist = ['set', 'diff']
        p = new('%s.mats' % f, maxpaths=600)
        ls = [p.m('x%d' % i, 1, 2) for i in range(2)]
        p.e = VarsIter(f, ls, lambda v: v)
        p.hist = ['set', 'eval', 'adj']
        p = new('%s.repeat' % f, maxpaths=200)
        a, b = p.s('a'), p.s('b')
        p.e = VarsIter(f, [a, b, a], lambda v: v)
        p.hist = ['set', 'eval', 'adj', 'adj']
        p = new('%s.repeat.expr' % f, maxpaths=200)
        a, b = p.s('a'), p.s('b')
        p.e = VarsIter(f, [a, b, a], lambda v: v * b)
        p.hist = ['set', 'eval', 'adj']
        p = new('%s.range.of.%s' % (f, f), maxpaths=300)
        x = p.v('x', 2)
        p.e = p.each(f, x, lambda v: Red(f, v * x))
        p.hist = ['set', 'eval', 'adj']
        p = new('%s.range.exp' % f, maxpaths=300)
        x = p.v('x', 3)
        p.e = log(p.each(f, x, lambda v: exp(v)))
        p.hist = ['set', 'eval', 'adj']
        p = new('%s.range.sq' % f, maxpaths=300)
        x = p.v('x', 3)
        p.e = p.each(f, x, lambda v: pw(2, v)) * 3
        p.hist = ['set', 'eval', 'adj']
    # matrix products
    dims = [(2, 2, 0), (2, 3, 0), (3, 2, 0), (1, 2, 0), (2, 1, 0), (1, 1, 0), (2, 2, 2), (2, 3, 2), (3, 2, 1), (1, 2, 3), (2, 1, 2), (1, 3, 1)]
    if deep:
        dims += [(3, 3, 0), (3, 3, 3), (3, 2, 3), (4, 2, 0)]
    for r, k, c in dims:
        p = new('dot.%d%d%d' % (r, k, c))
        a = p.m('a', r, k)
        b = p.v('b', k) if c == 0 else p.m('b', k, c)
        p.e = dot(a, b)
        p = new('dot.%d%d%d.sub' % (r, k, c), bind='bind')
        a = p.m('a', r, k)
        b = p.v('b', k) if c == 0 else p.m('b', k, c)
        y = p.s('y')
        p.e = dot(a * y, sin(b)) * y
        hist2(p)
    # every shape up to 4x4x3, and beyond
    for r in (1, 2, 3, 4):
        for k in (1, 2, 3, 4):
            for c in (0, 1, 2, 3):
                if (r, k, c) in dims:
                    continue
                p = new('dot.%d%d%d' % (r, k, c))
                a = p.m('a', r, k)
                b = p.v('b', k) if c == 0 else p.m('b', k, c)
                p.e = dot(a, b)
                p.hist = ['set', 'diff']
    for r, k, c in ((6, 2, 0), (2, 6, 0), (5, 3, 4), (1, 7, 1)):
        p = new('dot.%d%d%d' % (r, k, c))
        a = p.m('a', r, k)
        b = p.v('b', k) if c == 0 else p.m('b', k, c)
        p.e = dot(a, b)
        p.hist = ['set', 'diff']
    for f in ('sum', 'norm', 'prod'):
        for kind, r, c in (('v', 6, 1), ('v', 9, 1), ('m', 4, 3), ('m', 3, 4), ('m', 1, 5), ('m', 5, 1)):
            p = new('%s.big.%s%d%d' % (f, kind, r, c))
            x, y = p.var('x', kind, r, c), p.s('y')
            if f == 'prod':
                # two entries may vanish, the others are positive
                a, b = rng.sample(range(r * c), 2)
                p.assume = lambda env, a=a, b=b, n=r * c: [assume(env['x'][i], '>') for i in range(n) if i not in (a, b)]
                p.hist = ['set', 'eval', 'adj']
                p.e = Red(f, x)
            else:
                p.e = Red(f, x * y)
    for f in ('sum', 'prod'):
        for n in (5, 8):
            p = new('%s.range.big%d' % (f, n))
            x, y = p.v('x', n), p.s('y')
            if f == 'prod':
                a, b = rng.sample(range(n), 2)
                p.assume = lambda env, a=a, b=b, n=n: [assume(env['x'][i], '>') for i in range(n) if i not in (a, b)]
                p.e = p.each(f, x, lambda v: v)
            else:
                p.e = p.each(f, x, lambda v: v * y)
            p.hist = ['set', 'eval', 'adj']
        p = new('%s.vecs.big' % f)
        ls = [p.v('x%d' % i, 3) for i in range(3)]
        if f == 'prod':
            p.assume = lambda env: [assume(env['x%d' % i][j], '>') for i in range(3) for j in range(3) if (i, j) not in ((0, 2), (1, 1), (2, 2))]
        p.e = VarsIter(f, ls, lambda v: v)
        p.hist = ['set', 'eval', 'adj']
    for r, c in ((4, 2), (1, 6), (3, 5), (4, 4)):
        p = new('tr.%d%d' % (r, c))
        x, y = p.m('x', r, c), p.s('y')
        p.e = tr(x * y)
    p = new('dot.same')
    a = p.m('a', 2, 2)
    p.e = dot(a, a)
    p = new('dot.chain')
    a, b, v = p.m('a', 2, 2), p.m('b', 2, 2), p.v('v', 2)
    p.e = dot(a, dot(b, v))
    p = new('dot.chain2', bind='bind')
    a, b, v = p.m('a', 2, 2), p.m('b', 2, 2), p.v('v', 2)
    p.e = summ(dot(dot(a, b), v) * v)
    hist2(p)
    # transpose
    for r, c in ((2, 3), (3, 2), (2, 2), (1, 3), (3, 1)):
        p = new('tr.%d%d' % (r, c))
        p.e = tr(p.m('x', r, c))
        p = new('tr.%d%d.sub' % (r, c), bind='bind')
        x, y = p.m('x', r, c), p.s('y')
        p.e = tr(x * y) * y
        hist2(p)
    p = new('tr.vec')
    p.e = tr(p.v('x', 3))
    p = new('tr.vec.dot')
    x, y = p.v('x', 2), p.v('y', 2)
    p.e = dot(tr(x), y)
    p = new('tr.quad', bind='bind')
    x, a = p.v('x', 2), p.m('a', 2, 2)
    p.e = dot(tr(x), dot(a, x))
    p = new('tr.tr')
    x = p.m('x', 2, 3)
    p.e = tr(tr(x))
    p = new('tr.outer')
    x = p.m('x', 2, 1)
    p.e = dot(x, tr(x))
    p = new('tr.gram')
    x = p.m('x', 2, 3)
    p.e = norm(dot(x, tr(x)))
    p.hist = ['set', 'eval', 'adj']
    p = new('norm.diff')
    x, y = p.v('x', 3), p.v('y', 3)
    p.e = norm(x - y)
    p = new('norm.rect')
    x, y = p.m('x', 2, 3), p.m('y', 2, 3)
    p.e = norm(x * y + x)
    p.hist = ['set', 'eval', 'adj']
    # ranges of constants
    for f in ('sum', 'prod'):
        for n in (0, 1, 2, 3):
            p = P('kit.%s%d' % (f, n))
            k = p.const('k', 'v', 3, how='eig')
            p.bind = 'none'
            p.e = p.each(f, k, lambda v: v, n=n)
            p.hist = ['eval', 'kset', 'eval']
            ps.append(p)
            p = P('kit.%s%d.mul' % (f, n))
            k, x = p.const('k', 'v', 3, how='eig'), p.s('x')
            p.e = p.each(f, k, lambda v: v * 2.0, n=n) * x + x
            ps.append(p)
            if n:
                p = P('kit.%s%d.v' % (f, n))
                k, x = p.const('k', 'm', 2, 3, how='eig'), p.v('x', 2)
                p.e = x * p.each(f, k, lambda v: v, n=n)
                ps.append(p)
    from .zoo import huge
    ps += huge(lambda k: k.startswith(('sum', 'norm', 'dot', 'tr')), deep)
    from .zoo import empties
    ps += empties(('sum', 'prod', 'norm', 'red'))
    return ps


def scl(new, f):
    p = new('%s.scl' % f, bind='bind')
    p.e = Red(f, p.s('x'))
    p = new('%s.scl.sub' % f)
    x, y = p.s('x'), p.s('y')
    p.e = Red(f, x * y + x) * y
    hist2(p)
