"""C01: elementwise functions and arithmetic operators"""
from ..dsl import *
from .common import *

BOUNDS = 'vectors of length 3 (also 5..7), matrices 2x2 and 2x3 (also 1x1..4x3), scalars; operands: leaf, sub-view, composite; powers -6..11; 2 successive evaluations; the growable catalogue entries also at length 9 and 17 (quick: some paths); empty vectors and matrices'


def programs(tier, rng):
    ps = []
    deep = tier == 'thorough'
    # unary functions on leaves of every shape, composite operands
    for f in UNARY + ['-']:
        for sh in 'svm':
            p = P('un.%s.%s' % (f, sh))
            x = leaf(p, 'x', sh)
            p.e = Un(f, x)
            ps.append(p)
        for sh in 'sv' if not deep else 'svm':
            p = P('un.%s.%s.sub' % (f, sh))
            x, y = leaf(p, 'x', sh), leaf(p, 'y', 's')
            p.e = Un(f, x * y if f not in ('asin', 'acos') else x - y)
            p.bind = 'bind'
            ps.append(p)
            p = P('un.%s.%s.op' % (f, sh))
            x, y = leaf(p, 'x', sh), leaf(p, 'y', sh)
            p.e = y * Un(f, x) + x
            p.hist = ['set', 'diff', 'set', 'diff']
            ps.append(p)
    for f in ('sin', 'exp', 'sqrt', '-', 'log', 'sigmoid'):
        p = P('un.%s.view' % f)
        x = p.v('x', 4)
        p.e = Un(f, x.tail(3)) * x[0] + Un(f, x.head(3))
        ps.append(p)
    # binary operators
    combos = ['ss', 'sv', 'vs', 'vv', 'sm', 'ms', 'mm']
    for op in ARITH:
        for a, b in combos:
            p = P('bin.%s.%s%s' % (nm(op), a, b))
            x, y = leaf(p, 'x', a), leaf(p, 'y', b)
            p.e = Bin(op, x, y)
            ps.append(p)
            p = P('bin.%s.%s%s.sub' % (nm(op), a, b))
            x, y = leaf(p, 'x', a), leaf(p, 'y', b)
            p.e = Bin(op, x * x, exp(y))
            p.bind = 'bind'
            ps.append(p)
            if deep or (a, b) in (('s', 's'), ('v', 's'), ('s', 'v')):
                p = P('bin.%s.%s%s.sub2' % (nm(op), a, b))
                x, y = leaf(p, 'x', a), leaf(p, 'y', b)
                p.e = Bin(op, sin(x), y * y) * x
                p.hist = ['set', 'diff', 'set', 'diff']
                ps.append(p)
        for a in 'svm':
            p = P('bin.%s.same.%s' % (nm(op), a))
            x = leaf(p, 'x', a)
            p.e = Bin(op, Bin(op, x, x), x)
            ps.append(p)
        p = P('bin.%s.views' % nm(op))
        x = p.v('x', 3)
        p.e = Bin(op, x.head(2), x.tail(2))
        ps.append(p)
        p = P('bin.%s.elem' % nm(op))
        x = p.v('x', 3)
        p.e = Bin(op, x[1], x)
        ps.append(p)
        p = P('bin.%s.rect' % nm(op))
        x = p.m('x', 2, 3)
        y = p.m('y', 2, 3)
        p.e = Bin(op, x, y)
        ps.append(p)
    # bigger operands
    for k, f in enumerate(UNARY + ['-']):
        p = P('un.%s.big' % f)
        x = p.v('x', 7) if k % 2 else p.m('x', 3, 4)
        p.e = Un(f, x)
        ps.append(p)
    for op in ARITH:
        for k, (a, b) in enumerate((('v', 's'), ('s', 'v'), ('v', 'v'), ('m', 's'), ('s', 'm'), ('m', 'm'))):
            p = P('bin.%s.big.%s%s' % (nm(op), a, b))
            d = {'v': (6, 1), 'm': (4, 3), 's': (1, 1)}
            x, y = p.var('x', a, *d[a]), p.var('y', b, *d[b])
            p.e = Bin(op, x, y) if k % 2 else Bin(op, x, y * 2.0)
            ps.append(p)
        for r, c in ((1, 3), (3, 1), (1, 1)):
            p = P('bin.%s.m%d%d' % (nm(op), r, c))
            x, y, z = p.m('x', r, c), p.m('y', r, c), p.s('z')
            p.e = Bin(op, z, Bin(op, x, y)) * z
            ps.append(p)
    for n in (-6, -5, -4, 6, 7, 8, 9, 11):
        for sh in 'sv':
            p = P('pow.%d.%s' % (n, sh))
            p.e = pw(n, leaf(p, 'x', sh))
            ps.append(p)
    for n in (-2, -1, 0, 1, 2, 3):
        p = P('pow.%d.big' % n)
        p.e = pw(n, p.m('x', 3, 2))
        ps.append(p)
        p = P('pow.%d.view' % n)
        x = p.v('x', 5)
        p.e = pw(n, x.tail(3)) * x[0]
        ps.append(p)
    # powers
    for n in (-3, -2, -1, 0, 1, 2, 3, 4, 5):
        for sh in 'svm':
            if sh == 'm' and not deep and n not in (-1, 0, 1, 3):
                continue
            p = P('pow.%d.%s' % (n, sh))
            x = leaf(p, 'x', sh)
            p.e = pw(n, x)
            ps.append(p)
            if sh != 'm' or deep:
                p = P('pow.%d.%s.sub' % (n, sh))
                x, y = leaf(p, 'x', sh), leaf(p, 'y', 's')
                p.e = pw(n, x * y) * x
                p.bind = 'bind'
                ps.append(p)
        if n < 0:
            ps += [pow0(n, 's'), pow0(n, 'v')]
    from .zoo import huge
    ps += huge(lambda k: k.startswith(('bin.', 'pow.')) or k.startswith('un.') and k.endswith('.v'), deep)
    from .zoo import empties
    ps += empties(('un', 'bin', 'cmp', 'pow'))
    return ps


def pow0(n, sh):
    """base 0 with negative power: value inf, contribution -inf"""
    if sh == 's':
        body = '''ad::Var<double> x; auto e = ad::bind(ad::pow<%d>(x)); x.get() = 0; x.get_adj() = vp_in(0);
vp_out(0, ad::evaluate(e)); ad::evaluate_adj(e, vp_in(1)); vp_out(1, x.get_adj()); vp_out(2, x.get());''' % n

        def spec(inp):
            return [(0, 'value', INF), (1, 'adjoint', -INF), (2, 'x', Fr(0))]
    else:
        body = '''ad::Var<double, ad::vec> x(2); auto e = ad::bind(ad::pow<%d>(x)); x.get(0,0) = vp_in(2); x.get(1,0) = 0; x.get_adj(0,0) = vp_in(0); x.get_adj(1,0) = vp_in(1);
{ auto r = ad::evaluate(e); vp_out(0, r(0)); vp_out(1, r(1)); } Eigen::ArrayXd s(2); s(0) = vp_in(3); s(1) = vp_in(4); ad::evaluate_adj(e.get(), s); vp_out(2, x.get_adj(0,0)); vp_out(3, x.get_adj(1,0));''' % n

        def spec(inp):
            x = inp(2)
            assume(x, '!=')
            return [(0, 'value[0]', alg.powi(x, n)), (1, 'value[1]', INF),
                    (2, 'adjoint[0]', add(inp(0), mul(inp(3), mul(Fr(n), alg.powi(x, n - 1))))), (3, 'adjoint[1]', -INF)]
    return Prog('pow.%d.%s.at0' % (n, sh), body, spec)
