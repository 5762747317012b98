"""C14: constants"""
from .zoo import *
from .zoo import ad_const

BOUNDS = 'every node kind (catalogue vp/props/zoo.py) with each variable, or all but one, replaced by a constant of each flavour; all-constant expressions of every function and operator; vectors of length 2-3, matrices up to 2x3; scalar constants also held in int, size_t, bool and float (2-3 values each) in every operator, function and condition; constants made from Eigen expressions, columns and blocks of larger matrices, transposes, arrays and fixed-size vectors'
# catalogue entries whose variables cannot be constants (element lambdas, views, assignment targets) or do not compile with them
SKIP = ('.it', 'vars', 'sizes', 'heads', 'tails', 'foreach', 'view', 'upd', 'app.ou', 'k.', 'glue', 'eq.sumit')


class PK(P):
    """declares the variables in `mask` as constants"""

    def __init__(self, name, mask, hows, **kw):
        P.__init__(self, name, **kw)
        self.mask, self.hows, self.n = mask, hows, 0
        # functions of one argument take constants, not plain numbers or matrices
        self.noplain = any(t in name for t in ('.sub', 'un.', 'sum', 'prod', 'norm', 'pow', 'tr', 'det'))

    def pick(self, name, kind, r, c, sym=False):
        i = self.n
        self.n += 1
        if i in self.mask:
            h = self.hows[i % len(self.hows)]
            if kind == 's':
                h = 'num' if h == 'eig' and i % 2 and not self.noplain else 'c'
            elif h == 'eig' and self.noplain:
                h = 'ceig'
            return self.const(name, kind, r, c, how=h, sym=sym)
        return self.var(name, kind, r, c, sym=sym)

    def s(self, name): return self.pick(name, 's', 1, 1)
    def v(self, name, n): return self.pick(name, 'v', n, 1)
    def m(self, name, r, c=None): return self.pick(name, 'm', r, r if c is None else c)
    def spd(self, name, n): return self.pick(name, 'm', n, n, True)


def programs(tier, rng):
    ps = []
    deep = tier == 'thorough'
    HOWS = [('ceig', 'view', 'eig'), ('view', 'eig', 'ceig'), ('eig', 'ceig', 'view')]
    q = 0
    for k in sorted(ZOO):
        if any(t in k for t in SKIP) and k not in ('glue3',):
            continue
        t = PK('t', (), HOWS[0])
        ZOO[k](t)
        n = t.n
        kinds = [v.kind for v in t.vars if v.role == 'in']
        masks = [(i,) for i in range(n)] if n > 1 else []
        if n > 2:
            masks += [tuple(j for j in range(n) if j != i) for i in range(n)]
        for mask in masks:
            for hi in range(3 if deep else 1):
                q += 1
                p = PK('%s.%s%s' % (k, ''.join(map(str, mask)), '.%d' % hi if deep else ''), mask, HOWS[(q + hi) % 3], maxpaths=200)
                p.e = ZOO[k](p)
                direct = all(c.how != 'view' for c in p.consts)
                # what the constants were made from changes afterwards: no effect unless viewed
                p.hist = ['set', 'diff', 'set', 'kset', 'eval', 'adj'] if direct else ['set', 'diff', 'set', 'eval', 'adj']
                if any(t in k for t in ('FullPivLU', 'uniform', 'wishart', 'vsm', 'vvm')):
                    p.hist = ['construct', 'kset', 'set', 'eval', 'adj'] if direct else ['set', 'eval', 'adj']
                p.bind = 'bind' if q % 2 else 'raw'
                ps.append(p)
    # constant views follow their memory where the node reads it on evaluation
    for i, (nm_, f) in enumerate([(op, lambda p, v, op=op: Bin(op, v, p.const('k', 'v', 2, how='view'))) for op in ARITH] + [
            (op + 'r', lambda p, v, op=op: Bin(op, p.const('k', 'v', 2, how='view'), exp(v))) for op in ARITH] + [
            ('dot', lambda p, v: dot(p.const('k', 'm', 2, 2, how='view'), v)), ('sum', lambda p, v: summ(v * p.const('k', 'v', 2, how='view'))),
            ('if', lambda p, v: ifel(v[0] < v[1], v * 2, p.const('k', 'v', 2, how='view'))),
            ('assign', lambda p, v: (lambda w: Glue(let(w, v * p.const('k', 'v', 2, how='view')), w * w))(p.ph('w', 'v', 2)))]):
        p = P('follow.' + nm_)
        v = p.v('a', 2)
        p.e = f(p, v)
        p.hist = ['set', 'eval', 'kset', 'eval', 'adj', 'kset', 'set', 'diff']
        p.bind = 'bind' if i % 2 else 'raw'
        ps.append(p)
    # expressions of constants only
    def fold(name, mk):
        for hi, how in enumerate(('c', 'view') if not deep else ('c', 'view', 'ceig')):
            p = P('fold.%s.%s' % (name, how))
            p.bind = 'none'

            def K(n, sh, r=2, c=2, sym=False):
                if sh == 's':
                    return p.const(n, 's', how='c')
                return p.const(n, sh, r, c if sh == 'm' else 1, how={'c': 'ceig'}.get(how, how), sym=sym)
            p.e = mk(K)
            if how == 'view' and not any(c.kind != 's' for c in p.consts):
                continue
            p.hist = ['eval', 'kset', 'eval']
            direct = all(c.how != 'view' for c in p.consts)
            if not direct:
                p.hist = ['eval']
            ps.append(p)
    for f in UNARY + ['-']:
        for sh in 'svm':
            fold('%s.%s' % (f, sh), lambda K, f=f, sh=sh: Un(f, K('k', sh)))
    for op in ARITH:
        for a, b in ('ss', 'sv', 'vs', 'vv', 'sm', 'ms', 'mm'):
            fold('%s.%s%s' % (nm(op), a, b), lambda K, op=op, a=a, b=b: Bin(op, K('k', a), K('k2', b)))
        fold('%s.nest' % nm(op), lambda K, op=op: Bin(op, Bin(op, K('k', 's'), K('k2', 's')), sin(K('k3', 's'))))
    for op in COMP:
        fold('cmp.%s' % nm(op), lambda K, op=op: Bin(op, K('k', 's'), K('k2', 's')))
    for n in (-2, -1, 0, 1, 2, 3):
        for sh in 'sv':
            fold('pow%d.%s' % (n, sh), lambda K, n=n, sh=sh: pw(n, K('k', sh)))
    for f in ('sum', 'prod', 'norm'):
        for sh in 'vm':
            fold('%s.%s' % (f, sh), lambda K, f=f, sh=sh: Red(f, K('k', sh, 2, 3)))
    fold('dot.mv', lambda K: dot(K('k', 'm', 2, 2), K('k2', 'v')))
    fold('dot.mm', lambda K: dot(K('k', 'm', 2, 3), K('k2', 'm', 3, 2)))
    fold('tr', lambda K: tr(K('k', 'm', 2, 3)))
    # the condition may be any number: zero is false, everything else is true
    for sh in 'svm':
        fold('if.num.%s' % sh, lambda K, sh=sh: ifel(K('c', 's'), K('k', sh), K('k2', sh)))
        fold('if.expr.%s' % sh, lambda K, sh=sh: ifel(K('c', 's') * K('c2', 's'), K('k', sh), K('k2', sh)))
        fold('if.cmp.%s' % sh, lambda K, sh=sh: ifel(K('c', 's') < K('c2', 's'), K('k', sh), K('k2', sh)))
    fold('if.log', lambda K: ifel((K('c', 's') < K('c2', 's')).land(K('c3', 's') != 1), K('k', 's'), K('k2', 's')))
    fold('land', lambda K: K('c', 's').land(K('c2', 's')))
    fold('lor', lambda K: K('c', 's').lor(K('c2', 's')))
    for i in range(1, 8):
        for sh in 'svm':
            p = P('if.mix.%s.%d' % (sh, i))
            L = lambda n, j, s: p.const(n, s, 2, 2 if s == 'm' else 1, how='c' if s == 's' else 'ceig') if i >> j & 1 else leaf(p, n, s, 2)
            c = L('c', 0, 's')
            p.e = ifel(c, L('a', 1, sh), L('b', 2, sh)) if i != 7 else ifel(c, L('a', 1, sh), L('b', 2, sh)) * p.s('x')
            p.bind = 'bind' if i % 2 else 'raw'
            p.hist = ['set', 'diff', 'set', 'kset', 'eval', 'adj']
            ps.append(p)
    # constants assigned to placeholders and folded into in-place updates
    for sh in 'svm':
        for hi, how in enumerate(('ceig', 'view', 'eig') if sh != 's' else ('c', 'num')):
            for op in ('=', '+=', '-=', '*=', '/='):
                for rh in ('s', sh) if op != '=' and sh != 's' else (sh,):
                    if how == 'num' and rh != 's':
                        continue
                    if rh != sh and hi:
                        continue
                    p = P('asg%s.%s%s.%s' % (nm(op[0]) if op != '=' else '', sh, rh, how))
                    c_ = 2 if sh == 'm' else 1
                    w = p.ph('w', sh, 2, c_) if op == '=' else p.upd('u', sh, 2, c_)
                    k = konst(p, 'k', rh, how if rh != 's' else 'c' if how != 'num' else 'num', 2)
                    x = leaf(p, 'x', sh, 2)
                    p.e = Glue(Assign(w, op, k), w * x) if op == '=' else Glue(Assign(w, op, k), w * x)
                    p.hist = ['set', 'eval', 'adj', 'kset', 'set', 'eval', 'adj'] if how != 'view' else ['set', 'eval', 'adj']
                    p.bind = 'bind' if hi % 2 else 'raw'
                    ps.append(p)
    fold('det.FullPivLU', lambda K: Det('det', 'DetFullPivLU', K('k', 'm'), 'inv'))
    fold('det.LLT', lambda K: Det('det', 'DetLLT', K('k', 'm', 2, 2, True), 'pd'))
    fold('log_det.LLT', lambda K: Det('log_det', 'LogDetLLT', K('k', 'm', 2, 2, True), 'pd'))
    # plain numbers, integers and Eigen objects on either side
    for i, v in enumerate((3, -2, 2.5, 0.5, 1, -1)):
        for op in ARITH:
            for sh in 'svm':
                if sh == 'm' and i > 1:
                    continue
                p = P('num.%s.%s.%d' % (nm(op), sh, i))
                x = leaf(p, 'x', sh, 2)
                p.e = Bin(op, Bin(op, x, v), x) if i % 2 else Bin(op, x, v)
                ps.append(p)
                p = P('numr.%s.%s.%d' % (nm(op), sh, i))
                x = leaf(p, 'x', sh, 2)
                p.e = Bin(op, v, x) if i % 2 else x * Bin(op, v, x)
                ps.append(p)
    ps += whole_numbers(deep)
    ps += eigen_objects(deep)
    # ranges of constants
    for f in ('sum', 'prod'):
        for n in (0, 1, 2, 3):
            p = P('fold.it.%s%d' % (f, n))
            k = p.const('k', 'v', 3, how='eig')
            p.bind = 'none'
            p.e = p.each(f, k, lambda v: v, n=n)
            p.hist = ['eval', 'kset', 'eval']
            ps.append(p)
            p = P('fold.it.%s%d.mul' % (f, n))
            k, x = p.const('k', 'v', 3, how='eig'), p.s('x')
            p.e = p.each(f, k, lambda v: v * 2.0, n=n) * x + x
            ps.append(p)
            if n:
                p = P('fold.it.%s%d.v' % (f, n))
                k, x = p.const('k', 'm', 2, 3, how='eig'), p.v('x', 2)
                p.e = x * p.each(f, k, lambda v: v, n=n)
                ps.append(p)
    from .zoo import huge
    ps += huge(lambda k: k.startswith('k.'), deep)
    return ps


def whole_numbers(deep):
    """constants held in int, bool, size_t, float or integer vectors and matrices: their numbers are those of the real line"""
    ps = []
    q = 0

    def new(name, f, bind=None):
        nonlocal q
        q += 1
        p = P('whole.' + name, maxpaths=300)
        p.e = f(p)
        p.bind = 'bind' if q % 2 else 'raw'
        p.hist = ['set', 'diff', 'set', 'eval', 'adj']
        ps.append(p)
    HOWS = ('int', 'cint', 'size', 'csize', 'bool', 'cbool', 'float', 'cfloat')
    for op in ARITH + COMP + ['&&', '||']:
        for h in HOWS:
            for sh in 'svm':
                if sh != 's' and not deep and (h not in ('int', 'csize', 'cbool', 'float') or op not in ARITH and (q + ord(h[0])) % 3):
                    continue
                nz = {'float': (0.5, -2.25), 'cfloat': (0.5, -2.25), 'bool': (1, 1), 'cbool': (1, 1)}.get(h, (1, 3, 2) if 'size' in h else (1, -3, 2))
                K = lambda p, op=op, h=h, vals=None: p.const('k', 's', how=h, values=vals)
                new('%s.%s.%s' % (nm(op), sh, h), lambda p: Bin(op, leaf(p, 'x', sh, 2), K(p, vals=nz if op == '/' else None)))
                new('%s.%s.%s.left' % (nm(op), sh, h), lambda p: (lambda x: Bin(op, K(p), x) * x)(leaf(p, 'x', sh, 2)))
                if sh == 's':
                    new('%s.%s.%s.sub' % (nm(op), sh, h), lambda p: (lambda x, y: Bin(op, sin(x) * y, K(p, vals=nz if op == '/' else None)) * y)(leaf(p, 'x', sh, 2), p.s('y')))
    # functions of such constants
    for f in UNARY + ['-']:
        for h in ('cint', 'cbool'):
            if h != 'cint' and not deep and f in ('sinh', 'cosh', 'asin', 'acos'):
                continue
            vals = (1, 4) if f in ('log', 'sqrt') else (0, 1) if f in ('asin', 'acos') else None
            if h == 'cbool' and f in ('log', 'sqrt'):
                vals = (1, 1)
            new('un.%s.%s' % (f, h), lambda p: Un(f, p.const('k', 's', how=h, values=vals)) * p.s('x'))
    for n in (-3, -2, -1, 0, 1, 2, 3, 4):
        for h in ('cint', 'csize', 'cfloat'):
            vals = (0.5, -2.25) if h == 'cfloat' else (1, 2, 3) if h == 'csize' else (1, -2, 3)
            new('pow%d.%s' % (n, h), lambda p: pw(n, p.const('k', 's', how=h, values=vals)) * p.s('x'))
    ps += [pow0(n, t) for n in (-1, -2, -3) for t in ('double', 'float', 'int', 'unsigned', 'short')]
    for f in ('sum', 'prod', 'norm'):
        for sh in 'vm':
            for h in ('cinteig', 'intview'):
                new('%s.%s.%s' % (f, sh, h), lambda p: Red(f, p.const('k', sh, 2, 2 if sh == 'm' else 1, how=h, values=(1, -2, 3))) * p.s('x'))
    # beyond 32 bits, and beyond the integers a float holds
    for h in ('csize', 'size'):
        for op in '+-*/':
            new('big.%s.%s' % (nm(op), h), lambda p: Bin(op, p.s('x'), p.const('k', 's', how=h, values=(2, 5000000001, 1 << 40))) * p.s('y'))
            new('big.%s.%s.v' % (nm(op), h), lambda p: Bin(op, p.const('k', 's', how=h, values=(3, 5000000001, 1 << 40)), exp(p.v('x', 2))))
    for op in '+-*/':
        new('big.%s.int' % nm(op), lambda p: Bin(op, p.s('x'), p.const('k', 's', how='cint', values=(16777217, -2147483647, 3))) * p.s('y'))
    # conditions and branches
    for h in HOWS:
        for sh in 'svm':
            new('if.cond.%s.%s' % (sh, h), lambda p: (lambda x: ifel(p.const('k', 's', how=h), x * x, sin(x)))(leaf(p, 'x', sh, 2)))
        new('asg.%s' % h, lambda p: (lambda w, x: Glue(let(w, x * p.const('k', 's', how=h)), w * x))(p.ph('w'), p.s('x')))
    return ps


def pow0(n, t):
    """a constant 0 of any type to a negative power: infinity, as of a double 0"""
    body = '''ad::Var<double> x; x.get() = vp_in(0); x.get_adj() = vp_in(1); volatile %s z0 = 0; %s z = z0;
auto e = ad::bind(x + ad::pow<%d>(ad::constant(z))); vp_out(0, ad::evaluate(e)); ad::evaluate_adj(e, vp_in(2)); vp_out(1, x.get_adj());
vp_out(2, ad::pow<%d>(ad::constant(z)).get());''' % (t, t, n, n)

    def spec(inp):
        return [(0, 'value', INF), (1, 'adjoint', alg.add(inp(1), inp(2))), (2, 'the constant', INF)]
    return Prog('whole.pow%d.%s.at0' % (n, t), body, spec)


def eigen_objects(deep):
    """constants made from Eigen expressions, parts of larger matrices, arrays and fixed-size matrices"""
    ps = []

    def new(name, f):
        p = P('eigen.' + name, maxpaths=200)
        p.e = f(p)
        p.bind = 'bind' if len(ps) % 2 else 'raw'
        p.hist = ['set', 'diff', 'kset', 'set', 'eval', 'adj']
        ps.append(p)
    for h in ('expr', 'cexpr', 'col', 'ccol', 'arr', 'carr', 'cfix', 'map', 'cmap', 'cget', 'ccget'):
        K = lambda p, n=2, h=h: p.const('k', 'v', n, how=h)
        for op in ARITH:
            new('%s.v.%s' % (nm(op), h), lambda p: Bin(op, p.v('x', 2), K(p)) * p.s('y'))
            new('%s.v.%s.left' % (nm(op), h), lambda p: Bin(op, K(p), exp(p.v('x', 2))))
            new('%s.s.%s' % (nm(op), h), lambda p: (lambda x: Bin(op, sin(x) * x, K(p, 3)))(p.s('x')))
        new('dot.%s' % h, lambda p: dot(p.m('a', 2, 3), K(p, 3)) * p.s('y'))
        new('if.%s' % h, lambda p: ifel(p.s('c') < p.s('d'), p.v('x', 2), K(p)))
        new('cmp.%s' % h, lambda p: (lambda x: (x < K(p)) * x)(p.v('x', 2)))
        if h not in ('arr', 'carr', 'cfix', 'col'):
            for f in ('normal', 'cauchy', 'uniform'):
                new('%s.x.%s' % (f, h), lambda p: Pdf(f, K(p), p.s('m'), p.s('s'), mode='in'))
                new('%s.mean.%s' % (f, h), lambda p: Pdf(f, p.v('x', 2), K(p), p.s('s'), mode='in'))
        if h[0] == 'c' and h != 'col':
            for f in ('sum', 'prod', 'norm'):
                new('%s.%s' % (f, h), lambda p: Red(f, K(p)) * p.s('y'))
            new('sin.%s' % h, lambda p: sin(K(p)) * p.s('y'))
            new('pow.%s' % h, lambda p: pw(3, K(p)) * p.s('y'))
            new('asg.%s' % h, lambda p: (lambda w, x: Glue(let(w, K(p)), w * x))(p.ph('w', 'v', 2), p.v('x', 2)))
    for h in ('expr', 'cexpr', 'ccol', 'ctr', 'carr', 'arr', 'map', 'cmap', 'cget', 'ccget'):
        K = lambda p, r=2, c=2, h=h: p.const('k', 'm', r, c, how=h)
        for op in ARITH:
            new('%s.m.%s' % (nm(op), h), lambda p: Bin(op, p.m('x', 2), K(p)) * p.s('y'))
            new('%s.m.%s.left' % (nm(op), h), lambda p: Bin(op, K(p), exp(p.m('x', 2))))
            new('%s.ms.%s' % (nm(op), h), lambda p: (lambda x: Bin(op, sin(x) * x, K(p, 3, 2)))(p.s('x')))
        if h not in ('arr', 'carr'):
            new('dot.m.%s' % h, lambda p: dot(K(p, 2, 3), p.v('x', 3)))
            new('dot.mr.%s' % h, lambda p: dot(p.m('x', 2, 3), K(p, 3, 2)))
        new('if.m.%s' % h, lambda p: ifel(p.s('c') < p.s('d'), p.m('x', 2), K(p)))
        if h[0] == 'c':
            for f in ('sum', 'prod', 'norm'):
                new('%s.m.%s' % (f, h), lambda p: Red(f, K(p)) * p.s('y'))
            new('tr.m.%s' % h, lambda p: tr(K(p, 2, 3)) * p.m('x', 3, 2))
        if h in ('expr', 'cexpr'):
            new('wishart.%s' % h, lambda p: Pdf('wishart', p.const('k', 'm', 1, 1, how=h), p.spd('v', 1), 4, mode='in'))
            new('normal.cov.%s' % h, lambda p: Pdf('normal', p.v('x', 1), p.s('m'), p.const('k', 'm', 1, 1, how=h), mode='in'))
    return ps
