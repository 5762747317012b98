"""Wishart log-density"""
from .pdfs import *

BOUNDS = 'fully symbolic 1x1 and 2x2 symmetric matrices (definite and not), 3x3 and 4x4 (5x5 thorough) with one symbolic entry of each matrix at a time, every position in turn, all real degrees of freedom, up to 3 successive evaluations; degrees of freedom also as int, size_t, float'


def programs(tier, rng):
    ps = []
    deep = tier == 'thorough'
    for m in ('vv', 'kv', 'vk'):
        for n in (1, 2):
            for how in ('view', 'eig', 'ceig'):
                if m == 'vv' and how != 'view':
                    continue
                for tag, mode, hist in (('', 'any', ['set', 'eval', 'adj']), ('.2', 'any', ['set', 'diff', 'set', 'diff']), ('.3', 'in', ['set', 'eval', 'adj', 'set', 'eval', 'adj', 'adj'])):
                    p = P('wishart.%s.%d.%s%s' % (m, n, how, tag))
                    x = arg(p, 'x', 'm', m[0], n, how)
                    v = arg(p, 'v', 'm', m[1], n, how)
                    k = p.const('n', 's', how='num' if how == 'eig' else 'c')
                    p.e = Pdf('wishart', x, v, k, mode=mode)
                    p.hist = hist
                    p.bind = 'bind' if how == 'eig' or tag == '.2' else 'raw'
                    p.maxpaths = 3000 if deep else 100 if tag == '.2' else 300
                    p.heavy = n == 2 and tag != ''
                    ps.append(p)
    # inside, outside (in a chosen way), inside
    for which in 'xv':
        for bad in ('indef', 'neg', 'negd'):
            for order in (('ok', 'bad', 'ok'), ('bad', 'ok', 'bad')):
                for m in ('vv', 'vk' if which == 'x' else 'kv'):
                    p = P('wishart.%s.move.%s.%s.%s' % (m, which, bad, order[0]))
                    x = arg(p, 'x', 'm', m[0], 2, 'view')
                    v = arg(p, 'v', 'm', m[1], 2, 'view')
                    p.e = Pdf('wishart', x, v, p.const('n', 's', how='c'), mode='any')

                    def ak(env, k, which=which, bad=bad, order=order):
                        for u in 'xv':
                            pd2(env[u], bad if u == which and order[k] == 'bad' else 'ok')
                        assume(sub(env['n'][0], Fr(1)), '>')
                    p.assume_k = ak
                    p.hist = ['set', 'diff'] * (2 if m == 'vv' and not deep else 3)
                    p.heavy = True
                    p.bind = 'bind' if m == 'vv' else 'raw'
                    p.maxpaths = 300
                    ps.append(p)
    # larger matrices: some entries symbolic, every position in turn
    q = 0
    for n in (3, 4, 5) if deep else (3, 4):
        pos = [(i, j) for i in range(n) for j in range(i + 1)]
        for a in range(len(pos)):
            for m in ('vv', 'kv', 'vk'):
                if m != 'vv' and (a + q) % 3 and not deep or n > 3 and a % 2 and not deep:
                    continue
                for mode in ('in', 'any'):
                    q += 1
                    p = P('wishart.%s.large%d.%d.%s' % (m, n, a, mode), maxpaths=60)
                    x = arg(p, 'x', 'm', m[0], n, ('view', 'ceig')[q % 2])
                    v = arg(p, 'v', 'm', m[1], n, ('ceig', 'view')[q % 2])
                    fx, fv = pos[a], pos[(a * 2 + 1) % len(pos)]
                    free = {'x': fx, 'v': fv} if mode == 'in' else {'x': fx} if q % 4 < 2 else {'v': fv}

                    def fix(l, i, j, k, free=free, n=n):
                        if l.kind == 's' or free.get(l.name) == (i, j):
                            return None
                        return SPD[n][(k + (l.name == 'v')) % 2][i][j]
                    p.fix = fix
                    p.e = Pdf('wishart', x, v, p.const('n', 's', how='num' if q % 3 else 'c'), mode=mode)
                    p.hist = ['set', 'eval', 'adj'] if mode == 'in' else ['set', 'diff', 'set', 'diff'] if n == 3 else ['set', 'diff']
                    p.bind = 'bind' if q % 2 else 'raw'
                    ps.append(p)
    # degrees of freedom held in an integer
    for m in ('vv', 'kv', 'vk'):
        for n in (1, 2):
            for i, how in enumerate(('int', 'size', 'cint', 'float')):
                for mode in ('in', 'any'):
                    p = P('wishart.%s.%d.%s.%s' % (m, n, how, mode), maxpaths=100)
                    x = arg(p, 'x', 'm', m[0], n, ('eig', 'ceig')[i % 2])
                    v = arg(p, 'v', 'm', m[1], n, ('eig', 'ceig')[i % 2])
                    k = p.const('n', 's', how=how, values=(1.5, 4, 2.25) if how == 'float' else (2, 3, 5))
                    p.e = Pdf('wishart', x, v, k, mode=mode)
                    p.hist = ['set', 'diff', 'set', 'diff'] if n == 1 else ['set', 'eval', 'adj']
                    p.bind = 'bind' if i % 2 else 'raw'
                    ps.append(p)
    p = P('wishart.comp')
    x, v, y = p.spd('x', 2), p.spd('v', 2), p.s('y')
    p.e = Pdf('wishart', x * exp(y), v * 2, p.const('n', 's', how='c'), mode='in') * y
    p.hist = ['set', 'diff']
    ps.append(p)
    p = P('wishart.gram')
    x, v = p.spd('x', 2), p.spd('v', 2)
    p.e = Pdf('wishart', x, v + x, 3, mode='in')
    p.hist = ['set', 'eval', 'adj']
    ps.append(p)
    p = P('wishart.ph')
    x, v, y = p.spd('x', 2), p.spd('v', 2), p.s('y')
    w = p.ph('w')
    p.e = Glue(let(w, Pdf('wishart', x, v, 4, mode='in')), w * y + w)
    p.hist = ['set', 'eval', 'adj']
    ps.append(p)
    p = P('wishart.two')
    x, v, u = p.spd('x', 1), p.spd('v', 1), p.spd('u', 1)
    p.e = Pdf('wishart', x, v, 2, mode='in') + Pdf('wishart', u, v, 3, mode='in')
    p.hist = ['set', 'diff', 'set', 'diff']
    ps.append(p)
    p = P('wishart.same')
    x = p.spd('x', 2)
    p.e = Pdf('wishart', x, x, 4, mode='in')
    p.hist = ['set', 'eval', 'adj']
    ps.append(p)
    return ps
