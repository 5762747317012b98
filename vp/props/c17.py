"""C17: value types"""
from .zoo import *
from . import c11, c14, c15
from .pdfs import whole_numbers, SHAPES

BOUNDS = 'every node kind (catalogue vp/props/zoo.py) over single-precision variables and constants, evaluated twice; constants held in int, size_t, bool and float (2-4 values each) in every operator, function and condition; vectors of length 1-5, matrices up to 5x5; rounding itself is not modelled'


def programs(tier, rng):
    ps = []
    deep = tier == 'thorough'
    for i, k in enumerate(sorted(ZOO)):
        if k in ('un.erf.v', 'un.erf.sub', 'un.tanh.v', 'un.tanh.sub'):
            continue            # Eigen uses rational approximations for single-precision arrays
        heavy = any(t in k for t in ('FullPivLU', 'LDLT', 'wishart', 'uniform', 'vsm', 'vvm'))
        p = P('float.%s' % k, maxpaths=1000 if deep else 150)
        p.T = 'float'
        p.e = ZOO[k](p)
        p.hist = ['set', 'diff', 'part', 'diff'] if not heavy or deep else ['set', 'diff']
        if not any(v.role == 'upd' for v in p.vars) and i % 2:
            p.hist = ['set', 'eval', 'adj'] + ([] if heavy and not deep else ['set', 'eval', 'adj'])
        p.bind = 'bind' if i % 3 else 'raw'
        ps.append(p)
    for p in c11.programs('quick', rng):
        if p.name != 'mix4' and (deep or not p.name.startswith(('rnd', 'pair'))):
            ps.append(as_type(p, 'float'))
    for i, p in enumerate(c15.programs('quick', rng)):
        if deep or not p.name.startswith('rnd') or i % 8 == 0:
            ps.append(as_type(p, 'float'))
    ps += c14.whole_numbers(deep)
    for f in SHAPES:
        ps += whole_numbers(f, deep)
    return ps
