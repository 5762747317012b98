"""C13: accumulation and re-evaluation"""
from .zoo import *

BOUNDS = 'every node kind (catalogue vp/props/zoo.py) under fixed and random histories of up to 8 steps from {change all values, change some values, evaluate, differentiate backward with an arbitrary seed, combined differentiation, reset adjoints}; up to 9 repetitions; vectors up to length 17'


def programs(tier, rng):
    ps = []
    deep = tier == 'thorough'
    for k in sorted(ZOO):
        q = new('t', k)
        upd = not noupd(q)
        heavy = any(t in k for t in ('FullPivLU', 'LDLT', 'wishart', 'uniform', 'vsm', 'vvm'))
        H = {'acc': ['set', 'diff', 'diff', 'reset', 'diff'], 'chg': ['set', 'diff', 'part', 'diff', 'part1', 'diff']}
        if not upd:
            H['acc'] = ['set', 'eval', 'adj', 'adj', 'reset', 'adj', 'diff']
            H['chg'] = ['set', 'eval', 'eval', 'adj', 'part', 'diff'] + ([] if heavy else ['part1', 'eval', 'adj'])
        if heavy and not deep:
            H['acc'] = ['set', 'eval', 'adj', 'reset', 'adj']
        big = k.startswith(('cauchy', 'normal')) and k.endswith('.sub')
        for h, hist in H.items():
            if big and h == 'chg':
                hist = ['set', 'eval', 'eval', 'adj', 'part', 'reset', 'diff']
            p = new('%s.%s' % (h, k), k)
            p.hist = hist
            p.bind = 'bind' if (len(ps) // 2) % 2 else 'raw'
            p.maxpaths = 400 if not deep else 2000
            ps.append(p)
        for r in range(3 if deep else 1):
            if heavy and not deep:
                continue
            p = new('rnd%d.%s' % (r, k), k)
            hist = ['construct', 'set'] if rng.random() < .3 else ['set']
            fresh = False
            sets = 1
            for i in range(rng.randint(3, 7 if deep else 5)):
                c = ['diff', 'diff', 'reset', 'part', 'part1', 'set']
                if not upd:
                    c += ['eval', 'eval'] + ['adj'] * (3 if fresh else 0)
                s = rng.choice(c)
                if s in ('part', 'part1', 'set'):
                    sets += 1
                    if sets > 3:
                        continue
                    fresh = False
                elif s in ('eval', 'diff'):
                    fresh = True
                hist.append(s)
                if big and s in ('adj', 'diff'):
                    hist.append('reset')
            hist.append('diff')
            p.hist = hist
            p.maxpaths = 100 if not deep else 1000
            p.bind = rng.choice(['raw', 'bind'])
            ps.append(p)
    for k in growable():
        p = new('big.%s' % k, k, grow=GROW, maxpaths=150 if deep else 40)
        p.hist = ['set', 'diff', 'part', 'diff'] if noupd(p) else ['set', 'eval', 'adj']
        p.bind = 'bind'
        ps.append(p)
    # many repetitions
    for k in sorted(ZOO):
        q = new('t', k)
        if not noupd(q) or any(t in k for t in ('app.', 'det', 'wishart', 'vsm', 'vvm', 'uniform', 'bernoulli', '.sub', 'if', 'prod', 'cmp', 'log.', 'normal', 'cauchy', 'sizes', 'heads', 'tails')):
            continue
        p = new('many.%s' % k, k, maxpaths=20)
        p.hist = ['set'] + ['diff'] * 5 + ['part', 'eval', 'eval', 'eval'] + ['adj'] * 4 + ['reset', 'diff', 'part', 'diff']
        p.bind = 'bind' if len(ps) % 2 else 'raw'
        ps.append(p)
    # default seed
    for k in ('un.sin', 'sum.v', 'prod.v', 'normal.vvv', 'eq.many', 'if.s', 'upd.two', 'det.LLT'):
        p = new('default.%s' % k, k)
        p.hist = ['set', 'diff', 'diff']
        p.seeds = 'default'
        p.bind = 'bind' if len(ps) % 2 else 'raw'
        ps.append(p)
    from .zoo import huge
    ps += huge(lambda k: k.startswith(('eq.', 'sum', 'norm', 'dot', 'tr', 'if', 'glue')) or k in ('un.exp.v', 'bin.mul.vv', 'bin.div.mm', 'bin.add.vs', 'pow.3.sub'), deep, ('set', 'diff', 'reset', 'part', 'diff'))
    return ps
