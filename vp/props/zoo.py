"""a catalogue of expressions, one or more per node kind and kind of child; used by the cross-cutting properties"""
from ..dsl import *
from .common import *

ZOO = {}


def Iter_(p, f, n, body):
    p.iters.add(n)
    return Iter(f, n, body)


EXCL_UPD = set()


def z(name):
    def d(f):
        ZOO[name] = f
        return f
    return d


def Z(name, f):
    ZOO[name] = f


for f in UNARY + ['-']:
    Z('un.%s' % f, lambda p, f=f: Un(f, p.s('a')))
    Z('un.%s.v' % f, lambda p, f=f: Un(f, p.v('a', 2)))
    Z('un.%s.sub' % f, lambda p, f=f: Un(f, p.v('a', 2) - p.s('b')) * p.s('c'))
for op in ARITH:
    for a, b in ('ss', 'sv', 'vs', 'vv', 'sm', 'ms', 'mm'):
        Z('bin.%s.%s%s' % (nm(op), a, b), lambda p, op=op, a=a, b=b: Bin(op, leaf(p, 'a', a, 2), leaf(p, 'b', b, 2)))
        Z('bin.%s.%s%s.sub' % (nm(op), a, b), lambda p, op=op, a=a, b=b: Bin(op, sin(leaf(p, 'a', a, 2)), exp(leaf(p, 'b', b, 2))))
for op in ('<', '>=', '==', '!='):
    Z('cmp.%s' % nm(op), lambda p, op=op: Bin(op, p.s('a'), p.s('b') * 2) * p.s('c'))
Z('log.and', lambda p: (p.s('a') < p.s('b')).land(p.s('c') < 1) * p.s('d'))
Z('log.or', lambda p: (p.s('a') < p.s('b')).lor(p.s('c') < 1) * p.s('d'))
for n in (-2, -1, 0, 1, 2, 3):
    Z('pow.%d' % n, lambda p, n=n: pw(n, p.s('a')))
    Z('pow.%d.sub' % n, lambda p, n=n: pw(n, p.v('a', 2) * p.s('b')))
for f in ('sum', 'prod'):
    Z('%s.v' % f, lambda p, f=f: Red(f, p.v('a', 3)))
    Z('%s.m' % f, lambda p, f=f: Red(f, p.m('a', 2, 2)))
    Z('%s.sub' % f, lambda p, f=f: Red(f, p.v('a', 2) * p.s('b') + p.v('c', 2)))
    Z('%s.it' % f, lambda p, f=f: p.each(f, p.v('a', 3), lambda v: v * 2))
    Z('%s.it.leaf' % f, lambda p, f=f: p.each(f, p.v('a', 3), lambda v: v))
    Z('%s.it2' % f, lambda p, f=f: (lambda b: p.eachi(f, 2, lambda v, w: sin(v) * w + b, p.v('a', 2), p.v('c', 2)))(p.s('b')))
    Z('%s.vars' % f, lambda p, f=f: VarsIter(f, [p.v('a', 2), p.v('b', 2)], lambda v: v * v))
    Z('%s.varsleaf' % f, lambda p, f=f: VarsIter(f, [p.s('a'), p.s('b'), p.s('c')], lambda v: v))
for f in ('sum', 'prod', 'for_each'):
    # terms of one type whose sizes, and so whose temporaries, differ
    Z('%s.varsizes' % f, lambda p, f=f: VarsIter(f, [p.v('a', 1), p.v('b', 3), p.v('c', 2)], lambda v: summ(sin(v) * 2)))
    Z('%s.heads' % f, lambda p, f=f: (lambda a: Iter_(p, f, 3, summ(exp(ItHead(a)) * ItHead(a))))(p.v('a', 3)))
    Z('%s.tails' % f, lambda p, f=f: (lambda a: Iter_(p, f, 3, norm(sin(ItHead(a, 'tail')))))(p.v('a', 3)))
Z('sum.matsizes', lambda p: VarsIter('sum', [p.m('a', 1, 2), p.m('b', 3, 1), p.m('c', 2, 2)], lambda v: prod(v * 2) + norm(v)))
Z('norm.v', lambda p: norm(p.v('a', 3)))
Z('norm.sub', lambda p: norm(p.v('a', 2) - p.v('b', 2)))
Z('dot.mv', lambda p: dot(p.m('a', 2, 3), p.v('b', 3)))
Z('dot.mm', lambda p: dot(p.m('a', 2, 3), p.m('b', 3, 2)))
Z('dot.sub', lambda p: dot(p.m('a', 2, 2) * p.s('c'), sin(p.v('b', 2))))
Z('dot.dot', lambda p: (lambda a: dot(a, dot(a, p.v('b', 2))))(p.m('a', 2, 2)))
Z('dot.tr', lambda p: (lambda a: dot(tr(a), a))(p.m('a', 2, 2)))
Z('tr', lambda p: tr(p.m('a', 2, 3)))
Z('tr.sub', lambda p: tr(p.m('a', 2, 3) * p.s('b')))
Z('tr.tr', lambda p: tr(tr(p.m('a', 2, 3))))
for d, dom in (('FullPivLU', 'inv'), ('LDLT', 'ldlt'), ('LLT', 'pd')):
    for f, pre in (('det', 'Det'), ('log_det', 'LogDet')):
        Z('%s.%s' % (f, d), lambda p, f=f, d=d, pre=pre, dom=dom: Det(f, pre + d, p.m('a', 2, 2) if dom == 'inv' else p.spd('a', 2), dom))
        if dom != 'ldlt':
            Z('%s.%s.sub' % (f, d), lambda p, f=f, d=d, pre=pre, dom=dom: (lambda a: Det(f, pre + d, a + a, dom))(p.m('a', 2, 2) if dom == 'inv' else p.spd('a', 2)))
Z('if.s', lambda p: (lambda a, b: ifel(a < b, a * b, b))(p.s('a'), p.s('b')))
Z('if.v', lambda p: (lambda a, b: ifel(p.s('c') < 1, a * b, b))(p.v('a', 2), p.v('b', 2)))
Z('if.m', lambda p: (lambda a, b: ifel(p.s('c') >= 1, a, b * a))(p.m('a', 2, 2), p.m('b', 2, 2)))
Z('if.nest', lambda p: (lambda a, b: ifel(a < b, ifel(b < 0, a, b * b), sin(a)))(p.s('a'), p.s('b')))
Z('if.op', lambda p: (lambda a, b: ifel(a < b, a, b) * ifel(a < 0, b, a))(p.s('a'), p.s('b')))
Z('if.num', lambda p: (lambda b: ifel(p.s('c'), p.s('a') * b, b * 1))(p.s('b')))
Z('if.numexpr', lambda p: (lambda a, d: ifel(p.s('c') - d * 2, a * d, a * exp(d)))(p.v('a', 2), p.s('d')))
for sh in 'svm':
    Z('eq.%s' % sh, lambda p, sh=sh: (lambda a, w: Glue(let(w, a * a), w + w))(leaf(p, 'a', sh, 2), p.ph('w', sh, 2, 2 if sh == 'm' else 1)))
    Z('eq.%s.last' % sh, lambda p, sh=sh: (lambda a, w: Glue(let(p.ph('w2', sh, 2, 2 if sh == 'm' else 1), a + a), let(w, a * a)))(leaf(p, 'a', sh, 2), p.ph('w', sh, 2, 2 if sh == 'm' else 1)))
    Z('eq.%s.chain' % sh, lambda p, sh=sh: (lambda a, w, u: Glue(let(w, a * a), let(u, w * a), u + w))(leaf(p, 'a', sh, 2), p.ph('w', sh, 2, 2 if sh == 'm' else 1), p.ph('u', sh, 2, 2 if sh == 'm' else 1)))
Z('eq.prod', lambda p: (lambda a, w: Glue(let(w, prod(a)), w * w))(p.v('a', 2), p.ph('w')))
Z('eq.sumit', lambda p: (lambda a, w: Glue(let(w, p.each('sum', a, lambda v: v * v)), w * w))(p.v('a', 2), p.ph('w')))
Z('eq.tmp', lambda p: (lambda a, w: Glue(let(w, sin(a) * exp(a)), let(p.ph('u'), w + a), w * a))(p.s('a'), p.ph('w')))
Z('eq.many', lambda p: (lambda a, b, w, u, x: Glue(let(w, a * b), let(u, w + a), let(x, sin(u)), w * u * x))(p.s('a'), p.s('b'), p.ph('w'), p.ph('u'), p.ph('x')))
Z('foreach', lambda p: (lambda a, w: Glue(p.eachi('for_each', 2, lambda v, o: let(o, v * v), a, w), norm(w)))(p.v('a', 2), p.ph('w', 'v', 2)))
Z('foreach.val', lambda p: p.each('for_each', p.v('a', 3), lambda v: v * v))
Z('glue', lambda p: Glue(p.s('a') * p.s('b'), p.s('c') * 2))
Z('glue.v', lambda p: Glue(p.s('a') * p.s('b'), p.v('c', 2) * p.v('d', 2)))
Z('glue3', lambda p: (lambda a, w, u: Glue(let(w, -a), let(u, w * w), summ(u)))(p.v('a', 2), p.ph('w', 'v', 2), p.ph('u', 'v', 2)))
for op in ('+=', '-=', '*=', '/='):
    for sh, rh in (('s', 's'), ('v', 's'), ('v', 'v'), ('m', 'm'), ('m', 's')):
        Z('upd%s.%s%s' % (nm(op[0]), sh, rh), lambda p, op=op, sh=sh, rh=rh: (lambda u, a: Glue(Assign(u, op, a * a if op != '/=' else exp(a)), u + u))(p.upd('u', sh, 2, 2 if sh == 'm' else 1), leaf(p, 'a', rh, 2)))
Z('upd.two', lambda p: (lambda u, a: Glue(Assign(u, '*=', a), Assign(u, '+=', a), u * a))(p.upd('u'), p.s('a')))
Z('upd.leaf', lambda p: (lambda u, a: Glue(Assign(u, '*=', a), u))(p.upd('u'), p.s('a')))
Z('eq.upd', lambda p: (lambda u, a, w: Glue(let(w, Assign(u, '*=', a)), w * a))(p.upd('u'), p.s('a'), p.ph('w')))
from .pdfs import SHAPES, PAR, arg
for f in ('normal', 'cauchy', 'uniform', 'bernoulli'):
    for sh in SHAPES[f]:
        Z('%s.%s' % (f, sh), lambda p, f=f, sh=sh: Pdf(f, *[arg(p, PAR[f][i], sh[i], 'k' if PAR[f][i] == 'n' else 'v', 2, 'eig') for i in range(len(sh))], mode='in'))
        if f != 'bernoulli':
            def sub(p, f=f, sh=sh):
                y = p.s('y')
                A = []
                for i in range(len(sh)):
                    a = arg(p, PAR[f][i], sh[i], 'v', 2, 'eig')
                    A.append(a * exp(y) if sh[i] == 'm' else exp(a) * exp(y) if i == 2 and f != 'uniform' else a * y)
                return Pdf(f, *A, mode='in') * y
            Z('%s.%s.sub' % (f, sh), sub)
Z('bernoulli.vs.sub', lambda p: Pdf('bernoulli', p.const('k', 'v', 2, how='ceig'), Un('sigmoid', p.s('a') * p.s('b')), mode='in'))
Z('bernoulli.vv.sub', lambda p: Pdf('bernoulli', p.const('k', 'v', 2, how='ceig'), Un('sigmoid', p.v('a', 2) * p.s('b')), mode='in'))
Z('wishart', lambda p: Pdf('wishart', p.spd('a', 2), p.spd('b', 2), 4, mode='in'))
Z('wishart.sub', lambda p: Pdf('wishart', p.spd('a', 2) * exp(p.s('c')), p.spd('b', 2) * 2, 4, mode='in'))
Z('wishart.kv', lambda p: Pdf('wishart', p.const('k', 'm', 2, 2, how='ceig', sym=True), p.spd('b', 2), 4, mode='in'))
Z('wishart.vk', lambda p: Pdf('wishart', p.spd('b', 2), p.const('k', 'm', 2, 2, how='ceig', sym=True), 4, mode='in'))
# constants as operands
for sh in 'svm':
    Z('k.%s.add' % sh, lambda p, sh=sh: leaf(p, 'a', sh, 2) * konst(p, 'k', sh, 'c' if sh == 's' else 'ceig', 2) - konst(p, 'k2', 's', 'num'))
    Z('k.%s.div' % sh, lambda p, sh=sh: konst(p, 'k', sh, 'c' if sh == 's' else 'view', 2) / exp(leaf(p, 'a', sh, 2)))
Z('k.dot', lambda p: dot(p.const('k', 'm', 2, 2, how='eig'), p.v('a', 2)))
Z('k.dot2', lambda p: dot(p.m('a', 2, 2), p.const('k', 'v', 2, how='view')))
Z('k.sum', lambda p: summ(p.v('a', 2) * p.const('k', 'v', 2, how='ceig')))
Z('k.fold', lambda p: p.s('a') * (ad_const(p, 'k') * 2 + sin(ad_const(p, 'k2'))))
Z('k.if', lambda p: ifel(p.s('a') < ad_const(p, 'k'), p.s('a2') * 1, p.s('b') * 2))
# kinds of leaf
Z('view.elem', lambda p: (lambda a: a[0] * a[2] + sin(a[1]))(p.v('a', 3)))
Z('view.ht', lambda p: (lambda a: a.head(2) * a.tail(2))(p.v('a', 3)))
# larger compositions in the style of the user guide
Z('app.linreg', lambda p: (lambda X, w, b, y: Glue(norm(dot(X, w) + b - y)))(p.const('X', 'm', 3, 2, how='view'), p.v('w', 2), p.s('b'), p.const('y', 'v', 3, how='view')))


@z('app.nn')
def _nn(p):
    W1, b, W2, x = p.m('W1', 2, 2), p.v('b', 2), p.m('W2', 2, 2), p.const('x', 'v', 2, how='ceig')
    h, g = p.ph('h', 'v', 2), p.ph('g', 'v', 2)
    return Glue(let(h, sin(dot(W1, x) + b)), let(g, dot(W2, h) + h), norm(g))


@z('app.regress')
def _reg(p):
    w, b, s = p.s('w'), p.s('b'), p.s('s')
    x, y = p.const('x', 'v', 2, how='view'), p.const('y', 'v', 2, how='view')
    return Pdf('normal', y, x * w + b, s, mode='in') + Pdf('normal', w, 0.0, ad_const(p, 'sw'), mode='in') + Pdf('normal', b, 0.0, ad_const(p, 'sb'), mode='in') + Pdf('uniform', s, ad_const(p, 'lo'), ad_const(p, 'hi'), mode='in')


@z('app.bs')
def _bs(p):
    S, K, r = p.s('S'), p.s('K'), p.s('r')
    d, w = p.ph('d'), p.ph('w')
    phi = lambda t: (erf(t * 0.5) + 1.0) * 0.5
    return Glue(let(d, log(S / K) + r), let(w, d - r), S * phi(d) - K * phi(w) * exp(-r))


@z('app.ou')
def _ou(p):
    x, a = p.v('x', 3), p.s('a')
    w = p.ph('w', 'v', 3)
    return Glue(let(w[0], x[0] * a), let(w[1], w[0] * a + x[1]), let(w[2], w[1] * a + x[2]), summ(w) * a)


def ad_const(p, n):
    return p.const(n, 's', how='c')


def new(name, zoo, grow=None, **kw):
    p = P(name, **kw)
    p.maxpaths = kw.get('maxpaths', 200)
    p.grow = grow or {}
    p.e = ZOO[zoo](p)
    return p


def has(e, t):
    return t in e.cpp()


def noupd(p):
    return not any(v.role == 'upd' for v in p.vars)


GROW = {1: 1, 2: 4, 3: 5}


def growable():
    """entries that also make sense at larger dimensions"""
    for k in sorted(ZOO):
        if k.startswith(('app.', 'det.', 'log_det.', 'wishart', 'uniform', 'bernoulli', 'cauchy')) or any(t in k for t in ('vsm', 'vvm', 'sizes', 'atan.sub', 'acos.sub', 'asin.sub')):
            continue
        if k.startswith('prod') and not k.endswith(('.v', '.it')):
            continue
        p = new('t', k)
        if all(v.kind == 's' for v in p.vars):
            continue
        yield k


HUGE = {1: 1, 2: 9, 3: 17}


def huge(sel, deep, hist=('set', 'eval', 'adj')):
    """catalogue entries at sizes beyond every small-vector special case"""
    ps = []
    for k in growable():
        if sel(k) and not (k.startswith('prod') or '.m' in k and k.startswith('dot') and not deep):
            p = new('huge.%s' % k, k, grow=HUGE, maxpaths=60 if deep else 8)
            p.hist = list(hist)
            p.bind = 'bind' if len(ps) % 2 else 'raw'
            ps.append(p)
    return ps


# ---- empty vectors and matrices
EMPTY = {}
for f in UNARY + ['-']:
    EMPTY['un.' + f] = lambda p, f=f: summ(Un(f, p.v('a', 0))) + p.s('c')
for op in ARITH:
    EMPTY['bin.%s.vs' % nm(op)] = lambda p, op=op: summ(Bin(op, p.v('a', 0), p.s('b'))) * p.s('c')
    EMPTY['bin.%s.sv' % nm(op)] = lambda p, op=op: summ(Bin(op, p.s('b') * 2, p.v('a', 0))) * p.s('c')
    EMPTY['bin.%s.vv' % nm(op)] = lambda p, op=op: summ(Bin(op, p.v('a', 0), p.v('b', 0))) + p.s('c')
    EMPTY['bin.%s.vk' % nm(op)] = lambda p, op=op: prod(Bin(op, sin(p.v('a', 0)), 2.5)) * p.s('c')
    EMPTY['bin.%s.kv' % nm(op)] = lambda p, op=op: prod(Bin(op, p.s('c'), p.const('k', 'v', 0, how='ceig')))
    EMPTY['bin.%s.ms' % nm(op)] = lambda p, op=op: norm(Bin(op, p.m('a', 0, 2), p.s('b'))) * p.s('c')
    EMPTY['bin.%s.sm' % nm(op)] = lambda p, op=op: summ(Bin(op, p.s('b'), p.m('a', 2, 0))) * p.s('c')
    EMPTY['bin.%s.vector' % nm(op)] = lambda p, op=op: Bin(op, p.v('a', 0), p.s('b'))
for op in ('<', '=='):
    EMPTY['cmp.%s' % nm(op)] = lambda p, op=op: summ(Bin(op, p.v('a', 0), p.s('b'))) + p.s('c')
for n in (-1, 0, 3):
    EMPTY['pow.%d' % n] = lambda p, n=n: summ(pw(n, p.v('a', 0))) + p.s('c')
for f in ('sum', 'prod', 'norm'):
    EMPTY['%s.v' % f] = lambda p, f=f: Red(f, p.v('a', 0))
    EMPTY['%s.m' % f] = lambda p, f=f: Red(f, p.m('a', 0, 0)) * p.s('b')
    EMPTY['%s.sub' % f] = lambda p, f=f: Red(f, p.v('a', 0) * 2) * p.s('c')
EMPTY['red.dot.inner'] = lambda p: summ(dot(p.m('a', 2, 0), p.v('b', 0))) + p.s('c')
EMPTY['red.dot.outer'] = lambda p: summ(dot(p.m('a', 0, 2), p.v('b', 2))) + p.s('c')
EMPTY['red.tr'] = lambda p: summ(tr(p.m('a', 0, 2))) + p.s('c')
EMPTY['asg.='] = lambda p: (lambda w: Glue(let(w, p.v('a', 0) * 2), summ(w) * p.s('c')))(p.ph('w', 'v', 0))
EMPTY['asg.s'] = lambda p: (lambda w: Glue(let(w, summ(p.v('a', 0) * p.s('b')) + p.s('c')), w * w))(p.ph('w'))
for op in '+-*/':
    EMPTY['asg.%s' % op] = lambda p, op=op: (lambda u: Glue(Assign(u, op + '=', p.s('b')), summ(u) * p.s('c')))(p.upd('u', 'v', 0))
EMPTY['if.v'] = lambda p: summ(ifel(p.s('c') < 0, p.v('a', 0) * 2, p.v('b', 0))) + p.s('d')


def empties(which):
    ps = []
    for k in sorted(EMPTY):
        if k.startswith(which):
            for b in ('raw', 'bind'):
                p = P('empty.%s.%s' % (k, b))
                p.e = EMPTY[k](p)
                p.hist = ['set', 'diff', 'set', 'diff'] if any(v.role == 'upd' for v in p.vars) else ['set', 'diff', 'set', 'eval', 'adj']
                p.bind = b
                ps.append(p)
    return ps
