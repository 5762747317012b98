"""program families shared by the log-density properties"""
from ..dsl import *
from .common import *

SHAPES = {'normal': ['sss', 'vss', 'vvs', 'vsv', 'vvv', 'vsm', 'vvm'],
          'cauchy': ['sss', 'vss', 'vsv', 'vvs', 'vvv'],
          'uniform': ['sss', 'vss', 'vsv', 'vvs', 'vvv'],
          'bernoulli': ['ss', 'vs', 'vv']}
PAR = {'normal': 'xms', 'cauchy': 'xms', 'uniform': 'xlh', 'bernoulli': 'np'}


def arg(p, name, sh, kind, n, how):
    """kind 'v' variable, 'k' constant; matrices are symmetric"""
    if kind == 'v':
        if sh == 'm':
            return p.spd(name, n)
        return p.s(name) if sh == 's' else p.v(name, n)
    if sh == 's':
        return p.const(name, 's', how='num' if how in ('num', 'eig') else 'c')
    if sh == 'm':
        return p.const(name, 'm', n, n, how=how, sym=True)
    return p.const(name, 'v', n, how=how)


def masks(k):
    for i in range(2 ** k):
        m = ''.join('vk'[(i >> j) & 1] for j in range(k))
        if 'v' in m:
            yield m


def family(f, tier, rng, n=2):
    ps = []
    deep = tier == 'thorough'
    hows = ['view', 'eig', 'ceig']
    q = 0
    for sh in SHAPES[f]:
        for m in masks(len(sh)):
            variants = [('', 'any', ['set', 'eval', 'adj'])]
            if 'k' not in m or deep:
                variants.append(('2', 'in', ['set', 'eval', 'adj', 'set', 'eval', 'adj', 'adj']))
            else:
                variants.append(('2', 'any', ['set', 'diff', 'set', 'diff']))
            if 'k' in m:
                variants.append(('3', 'in', ['set', 'diff', 'set', 'eval', 'adj']))
            for tag, mode, hist in variants:
                for how in (hows if deep and 'k' in m else [hows[q % 3]]):
                    q += 1
                    nm_ = '%s.%s.%s%s' % (f, sh, m, tag) + ('.' + how if deep and 'k' in m else '')
                    p = P(nm_)
                    args = [arg(p, PAR[f][i], sh[i], m[i], n, how) for i in range(len(sh))]
                    p.e = Pdf(f, *args, mode=mode)
                    p.hist = hist
                    p.bind = 'bind' if q % 2 else 'raw'
                    p.maxpaths = 6000 if deep else 300 if f == 'uniform' and tag and 'k' in m else 700
                    if 'm' in sh and tag and mode == 'any':
                        p.maxpaths = 1500 if deep else 200
                    ps.append(p)
        # composite operands and use inside a larger program
        p = P('%s.%s.comp' % (f, sh))
        p.maxpaths = 1500 if deep else 200
        y = p.s('y')
        args = []
        for i in range(len(sh)):
            a = arg(p, PAR[f][i], sh[i], 'v', n, 'eig')
            if f == 'bernoulli' and i == 1:
                a = Un('sigmoid', a)
            elif f == 'bernoulli':
                # observations stay constants
                p.vars.remove(a)
                a = arg(p, 'obs', sh[i], 'k', n, 'eig')
            elif sh[i] == 'm':
                a = a * exp(y)
            elif i == 2 and f != 'uniform':
                a = exp(a) * exp(y)
            else:
                a = a * y
            args.append(a)
        p.e = Pdf(f, *args, mode='in') * y
        p.bind = 'bind'
        p.hist = ['set', 'diff']
        ps.append(p)
        # the same variable in several places, sums of densities
        if 'm' not in sh and f != 'bernoulli':
            p = P('%s.%s.shared' % (f, sh))
            p.maxpaths = 1500 if deep else 200
            x = arg(p, 'x', sh[0], 'v', n, '')
            a = arg(p, 'a', sh[1], 'v', n, '')
            b = arg(p, 'b', sh[2], 'v', n, '')
            w = p.ph('w')
            if f == 'uniform':
                p.e = Glue(let(w, Pdf(f, x, a, b, mode='in')), w * 2 + Pdf(f, x, a - 1, b + 1, mode='in'))
            else:
                p.e = Glue(let(w, Pdf(f, x, a, b, mode='in')), w * 2 + Pdf(f, x if sh[0] == sh[1] else x * 2, a * a if sh[0] == sh[1] else a, b, mode='in'))
            p.hist = ['set', 'diff']
            ps.append(p)
        # history: leave the support and come back; seeds; constants evaluated before
        p = P('%s.%s.again' % (f, sh))
        p.maxpaths = 6000 if deep else 700
        args = [arg(p, PAR[f][i], sh[i], 'v', 1 if 'v' in sh and 'm' not in sh else n, 'eig') for i in range(len(sh))]
        if 'm' in sh:
            p.maxpaths = 1500 if deep else 200
        p.e = Pdf(f, *args, mode='any')
        p.hist = ['set', 'diff', 'set', 'diff', 'diff']
        ps.append(p)
    # sizes
    for sh in SHAPES[f]:
        if 'v' in sh:
            for k in ((1, 3, 4, 5, 7) if deep else (1, 3, 5)):
                if 'm' in sh and (k > 3 or k == 3 and not deep) or k > 5 and f == 'bernoulli':
                    continue
                p = P('%s.%s.n%d' % (f, sh, k))
                p.maxpaths = 3000 if deep else 500
                args = [arg(p, PAR[f][i], sh[i], 'v', k, 'eig') for i in range(len(sh))]
                p.e = Pdf(f, *args, mode='any' if k == 1 else 'in')
                p.hist = ['set', 'eval', 'adj']
                p.heavy = 'm' in sh and k >= 3
                ps.append(p)
        # constants of other lengths, for every mask
    for sh in SHAPES[f]:
        if 'v' not in sh:
            continue
        for m in masks(len(sh)):
            if 'k' not in m:
                continue
            for k in ((1, 3, 4) if deep else (1, 3)):
                if 'm' in sh and k == 3 and not deep:
                    continue
                p = P('%s.%s.%s.len%d' % (f, sh, m, k))
                p.maxpaths = 3000 if deep else 300
                q += 1
                args = [arg(p, PAR[f][i], sh[i], m[i], k, hows[q % 3]) for i in range(len(sh))]
                p.e = Pdf(f, *args, mode='any' if k == 1 else 'in')
                p.hist = ['set', 'eval', 'adj', 'adj']
                p.heavy = 'm' in sh and k >= 3
                ps.append(p)
    ps += transitions(f, deep)
    ps += long(f, deep)
    ps += whole_numbers(f, deep)
    return ps


def pd2(a, ok):
    """2x2 (column-major) positive definite / not, in a named way"""
    d = sub(mul(a[0], a[3]), mul(a[1], a[1]))
    if ok == 'ok':
        assume(a[0], '>')
        assume(d, '>')
    elif ok == 'indef':
        assume(a[0], '>')
        assume(a[3], '>')
        assume(d, '<')
    elif ok == 'neg':
        assume(a[0], '<')
    elif ok == 'negd':
        assume(a[0], '>')
        assume(a[3], '<')


def transitions(f, deep):
    """one program evaluated inside, outside and inside the support again, outside in a chosen way"""
    ps = []
    for sh in SHAPES[f]:
        if f == 'bernoulli':
            bads = [('n', 0), ('n', -1)] if sh[0] == 'v' else []
        elif f == 'uniform':
            bads = [('lo', 0), ('hi', 0)] + ([('lo', -1), ('hi', -1)] if 'v' in sh else [])
        elif 'm' in sh:
            bads = ['indef', 'neg', 'negd']
        else:
            bads = [('s', 0)] + ([('s', -1)] if sh[2] == 'v' else [])
        for b, bad in enumerate(bads):
            for order in (('ok', 'bad', 'ok'), ('bad', 'ok', 'bad')):
                p = P('%s.%s.move%d.%s' % (f, sh, b, order[0]))
                p.maxpaths = 3000 if deep else 300
                args = [arg(p, PAR[f][i], sh[i], 'v' if f != 'bernoulli' or i else 'k', 2, 'view') for i in range(len(sh))]
                p.e = Pdf(f, *args, mode='any')

                def ak(env, k, p=p, bad=bad, order=order, f=f, sh=sh):
                    ok = order[k] == 'ok'
                    if 'm' in sh:
                        pd2(env['s'], 'ok' if ok else bad)
                    elif f in ('normal', 'cauchy'):
                        n = len(env['s'])
                        i = bad[1] % n
                        for j, t in enumerate(env['s']):
                            assume(t, '<=' if not ok and j == i else '>')
                    elif f == 'uniform':
                        n = max(len(env[v]) for v in 'xlh')
                        i = bad[1] % n
                        for j in range(n):
                            x, l, h = (env[v][j if len(env[v]) > 1 else 0] for v in 'xlh')
                            if not ok and j == i:
                                assume(sub(x, l) if bad[0] == 'lo' else sub(h, x), '<=')
                            elif ok:
                                assume(sub(x, l), '>')
                                assume(sub(h, x), '>')
                p.assume_k = ak
                p.hist = ['set', 'diff'] * (3 if deep or b == 0 and f != 'uniform' else 2)
                p.bind = 'bind'
                if f != 'bernoulli':
                    ps.append(p)
    return ps


SPD = {3: ['4 1 -1;1 3 0.5;-1 0.5 2', '2 0 1;0 5 2;1 2 3'], 4: ['4 1 0 -1;1 3 1 0;0 1 5 2;-1 0 2 4', '3 0 1 0;0 2 0 1;1 0 4 1;0 1 1 6'],
       5: ['4 1 0 0 -1;1 5 2 0 0;0 2 4 1 0;0 0 1 3 1;-1 0 0 1 6', '6 1 1 0 0;1 5 0 0 1;1 0 4 -1 0;0 0 -1 7 2;0 1 0 2 5']}
SPD = {n: [[[Fr(x) for x in r.split()] for r in t.split(';')] for t in T] for n, T in SPD.items()}


def number(f, name, i, j, n, q, kind):
    """a value inside the support"""
    i = i + 3 * q
    if kind == 'm':
        return SPD[n][q % 2][i - 3 * q][j]
    if f == 'uniform':
        return {'x': Fr(i * 5 % 7 - 3, 4), 'l': -1 - Fr(i % 5, 4), 'h': 1 + Fr(i * 3 % 5, 2)}[name]
    if f == 'bernoulli':
        return {'n': Fr((i * i + q) % 2), 'p': Fr(1 + i * 5 % 7, 8)}[name]
    return {'x': Fr(i * 3 % 7, 2) - 1, 'm': Fr(i * 2 % 5, 4) - 1, 's': Fr(1, 2) + Fr(i * 3 % 4, 4)}[name]


def long(f, deep):
    """longer vectors and larger matrices: all scalars and some elements symbolic, the rest fixed numbers"""
    ps = []
    q = 0
    for sh in SHAPES[f]:
        if 'v' not in sh:
            continue
        for n in ((3, 4, 5) if deep else (3, 4)) if 'm' in sh else (6, 9, 17, 33) if deep else (6, 9, 17):
            for m in masks(len(sh)):
                if m.count('k') > 1 and n not in (4, 9):
                    continue
                pos = {'m': [(0, 0), (n - 1, n - 1), (1, 0), (n - 1, n - 2)], 'v': [(i, 0) for i in (0, n - 1, n // 2, n - 2)]}
                for t, mode in enumerate(('in', 'any', 'in2')):
                    if 'm' in sh and mode == 'in2' and n > 3 and not deep:
                        continue
                    if n == 17 and mode == 'in' or n in (6, 17) and 'k' in m and mode == 'in2':
                        continue
                    q += 1
                    p = P('%s.%s.%s.long%d.%s' % (f, sh, m, n, mode), maxpaths=2000 if deep else 120 if f == 'uniform' else 60)
                    args = [arg(p, PAR[f][i], sh[i], m[i], n, ('view', 'eig', 'ceig')[q % 3]) for i in range(len(sh))]
                    # which elements stay symbolic
                    free = {}
                    vs = [i for i in range(len(sh)) if sh[i] != 's' and PAR[f][i] != 'n']
                    for w, i in enumerate(vs):
                        P_ = pos[sh[i]]
                        if mode == 'any':
                            # outside the support through one element, here in the scale or a bound
                            if i == len(sh) - 1 or f == 'uniform' and w == q % len(vs):
                                free[PAR[f][i]] = [P_[q % len(P_)]]
                        else:
                            free[PAR[f][i]] = [P_[(q + w) % len(P_)]] + ([P_[(q + w + 1) % len(P_)]] if sh[i] == 'v' and f != 'uniform' else [])
                    if f == 'bernoulli' and mode != 'any' and q % 2:
                        free['n'] = [(n - 1, 0)]

                    sc = [PAR[f][i] for i in range(len(sh)) if sh[i] == 's']
                    sc = sc[q % len(sc)] if sc else ''
                    if f == 'uniform' or f == 'cauchy' and mode != 'any':
                        # either a scalar or elements
                        q2 = q // 3 % 2
                        if sc and q2:
                            free = {}
                        else:
                            sc = ''

                    def fix(l, i, j, k, free=free, f=f, n=n, mode=mode, sc=sc):
                        if l.kind == 's' and (f not in ('cauchy', 'uniform') or l.name == sc):
                            return None
                        return None if (i, j) in free.get(l.name, ()) else number(f, l.name, i, j, n, k, l.kind)
                    p.fix = fix
                    p.e = Pdf(f, *args, mode='any' if mode == 'any' else 'in')
                    p.hist = {'in': ['set', 'eval', 'adj'], 'any': ['set', 'diff', 'set', 'diff'] if n < 9 and 'm' not in sh and f != 'uniform' else ['set', 'diff'], 'in2': ['set', 'diff', 'set', 'diff']}[mode]
                    p.bind = 'bind' if q % 2 else 'raw'
                    ps.append(p)
    return ps


def whole_numbers(f, deep):
    """constants that are int, bool, size_t, float or integer vectors: any integers of a small set, the variables all reals"""
    ps = []
    q = 0
    for sh in SHAPES[f]:
        for m in masks(len(sh)):
            # integer matrices combine with real ones in Bernoulli only
            ks = [i for i in range(len(sh)) if m[i] == 'k' and (i == 0 if f == 'bernoulli' else sh[i] == 's')]
            if not ks:
                continue
            if f == 'bernoulli':
                # counts outside {0, 1} as well
                hows = ['int', 'bool', 'size', 'cint', 'cbool', 'float'] if sh[0] == 's' else ['inteig', 'cinteig', 'intview']
            else:
                hows = ['int', 'cint', 'size', 'float'] if deep or len(ks) == 2 else [('int', 'cint', 'size', 'float')[q % 4], ('int', 'cint')[q // 2 % 2]]
            for how in dict.fromkeys(hows):
                for mode in ('any', 'in'):
                    q += 1
                    p = P('%s.%s.%s.%s.%s' % (f, sh, m, how, mode), maxpaths=1500 if deep else 150)
                    n = 2 if 'm' in sh or f == 'bernoulli' or q % 2 else 3
                    args = []
                    for i in range(len(sh)):
                        nm_ = PAR[f][i]
                        if i in ks:
                            vals = (0, 1, 2, -1) if f == 'bernoulli' and how in ('int', 'cint') else (0, 1, 3) if f == 'bernoulli' and how[:3] != 'boo' and how != 'cbool' else None
                            if f == 'bernoulli' and mode == 'in':
                                vals = (0, 1)
                            if f != 'bernoulli' and how == 'size':
                                vals = (0, 1, 3)
                            args.append(p.const(nm_, 's' if sh[i] == 's' else 'v', n, how=how, values=vals))
                        else:
                            args.append(arg(p, nm_, sh[i], m[i], n, ('eig', 'ceig', 'view')[q % 3]))
                    p.e = Pdf(f, *args, mode=mode)
                    p.hist = ['set', 'diff', 'set', 'diff'] if mode == 'in' else ['set', 'eval', 'adj']
                    if f == 'uniform' and mode == 'in':
                        p.hist = ['set', 'diff']
                    p.bind = 'bind' if q % 2 else 'raw'
                    ps.append(p)
    return ps
