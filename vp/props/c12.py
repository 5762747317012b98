"""C12: cache binding"""
from .zoo import *

BOUNDS = 'every node kind (catalogue vp/props/zoo.py) bound to exactly sized buffers of arbitrary content, evaluated, rebound to fresh buffers of other arbitrary content while the old ones are freed; pairs of scalar expressions; vectors of length 1-5, matrices up to 5x5, ranges whose terms differ in size'


def programs(tier, rng):
    ps = []
    deep = tier == 'thorough'
    for k in sorted(ZOO):
        p = new('re.%s' % k, k)
        p.hist = ['set', 'eval', 'adj', 'rebind', 'diff']
        ps.append(p)
        if deep:
            p = new('re2.%s' % k, k)
            p.hist = ['construct', 'set', 'rebind', 'diff', 'set', 'eval', 'adj', 'rebind', 'eval', 'adj']
            ps.append(p)
        p = new('pre.%s' % k, k)
        p.hist = ['construct', 'set', 'diff']
        p.bind = 'bind'
        ps.append(p)
    for k in growable():
        p = new('big.%s' % k, k, grow=GROW, maxpaths=150 if deep else 40)
        p.hist = ['set', 'eval', 'adj']
        ps.append(p)
    # two expressions over the same variables, bound to distinct buffers, used alternately
    names = [k for k in sorted(ZOO) if not any(t in k for t in ('eq', 'upd', 'glue', 'foreach', 'app', 'vars', 'view'))]
    for i, k in enumerate(names):
        p = new('two.%s' % k, k)
        if any(v.role != 'in' for v in p.vars):
            continue
        s = [v for v in p.vars if not v.sym]
        if not s:
            continue
        v = s[i % len(s)]
        p.e2 = [lambda: exp(v) * v, lambda: v * v + v, lambda: sin(v) - v][i % 3]()
        p.hist = ['set', 'eval', 'eval2', 'adj', 'adj2'] if i % 2 else ['construct', 'construct2', 'set', 'eval2', 'eval', 'adj2', 'adj']
        p.bind = 'raw' if i % 3 else 'bind'
        ps.append(p)
    # pairs: every kind next to another inside one expression
    sc = []
    for k in names:
        q = new('t', k)
        if q.e.kind == 's' and len(q.vars) <= 2 and not any(t in k for t in ('tan', 'acos', 'asin', 'uniform', 'log.', 'cmp')):
            sc.append(k)
    m = 70 if deep else 30
    for i in range(m):
        k1, k2 = rng.choice(sc), rng.choice(sc)
        p = P('pair.%d.%s.%s' % (i, k1, k2), maxpaths=40)
        e1 = ZOO[k1](p)
        for v in p.vars:
            v.name += '_'
        for v in p.consts:
            v.name += '_'
            v.text = retext(v)
        e2 = ZOO[k2](p)
        y, w = p.s('yy'), p.ph('ww')
        p.e = [lambda: e1 * e2, lambda: Glue(let(w, e1), w * e2 + w), lambda: Glue(let(w, e1 + e2), w * w), lambda: ifel(y < 0, e1, e2 + 1.0) * y,
               lambda: Glue(let(w, e1), e2 * w)][i % 5]()
        p.vars = [v for v in p.vars if v not in (y, w) or v.name in p.e.cpp()]
        p.hist = ['set', 'eval', 'adj']
        ps.append(p)
    return ps

