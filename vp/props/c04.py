"""C04: placeholders, in-place updates, sequencing, for_each"""
from ..dsl import *
from .common import *

BOUNDS = 'straight-line programs of up to 10 statements over scalars, vectors of length 2..5, 2x2, 3x2 and 2x4 matrices; placeholders used 0..3 times; every updating operator with scalar and same-shape right-hand sides; assignments and updates inside the operands of unary functions, powers, reductions, transposes (and of binary operators and products: assignments only); for_each over 1..9 elements (thorough 16), including recurrences; 2 evaluations; the growable catalogue entries also at length 9 and 17 (quick: some paths); empty vectors and matrices'


def opeq(u, op, e):
    return Assign(u, op + '=', e)


def programs(tier, rng):
    ps = []
    deep = tier == 'thorough'

    def new(name, **kw):
        p = P(name)
        for k, v in kw.items():
            setattr(p, k, v)
        ps.append(p)
        return p
    # ---------------- single placeholder, used 0..3 times, every root kind
    for sh in 'svm':
        for used in (0, 1, 2, 3):
            p = new('ph.%s.used%d' % (sh, used), bind='bind' if used % 2 else 'raw')
            x, y = leaf(p, 'x', sh, 2), leaf(p, 'y', sh, 2)
            w = p.ph('w', sh, 2, 2)
            rhs = {0: x + y, 1: sin(w) * x, 2: w * w + y, 3: w * exp(w) + x * w}[used]
            p.e = Glue(let(w, x * y), rhs)
        p = new('ph.%s.alone' % sh)
        x = leaf(p, 'x', sh, 2)
        w = p.ph('w', sh, 2, 2)
        p.e = let(w, x * x)
        p = new('ph.%s.chain' % sh)
        x = leaf(p, 'x', sh, 2)
        w, v = p.ph('w', sh, 2, 2), p.ph('v', sh, 2, 2)
        p.e = Glue(let(w, sin(x)), let(v, w * w + x), v * w)
        hist2(p)
        p = new('ph.%s.chain3' % sh, bind='bind')
        x, y = leaf(p, 'x', sh, 2), p.s('y')
        w, v, u = p.ph('w', sh, 2, 2), p.ph('v', sh, 2, 2), p.ph('u', sh, 2, 2)
        p.e = Glue(let(w, x * y), let(v, w * y + w), let(u, v * w + x), u * v * w)
        hist2(p)
        p = new('ph.%s.unusedmid' % sh)
        x = leaf(p, 'x', sh, 2)
        w, v = p.ph('w', sh, 2, 2), p.ph('v', sh, 2, 2)
        p.e = Glue(let(w, sin(x)), let(v, w * w), w * x)
        hist2(p)
        p = new('ph.%s.last' % sh)
        x = leaf(p, 'x', sh, 2)
        w, v = p.ph('w', sh, 2, 2), p.ph('v', sh, 2, 2)
        p.e = Glue(let(w, exp(x)), let(v, w * w + x))
        hist2(p)
    # definitions with every kind of root
    def roots(p, x, m, y):
        yield 'neg', -y, 's'
        yield 'exp', exp(y), 's'
        yield 'add', y + y, 's'
        yield 'pow0', pw(0, y), 's'
        yield 'pow1', pw(1, y), 's'
        yield 'pow2', pw(2, y), 's'
        yield 'sum', summ(x), 's'
        yield 'prod', prod(x), 's'
        yield 'prodsub', prod(x * y), 's'
        yield 'norm', norm(x), 's'
        yield 'range', p.each('sum', x, lambda v: v * y), 's'
        yield 'rangep', p.each('prod', x, lambda v: v * y), 's'
        yield 'if', ifel(y < 0, y * 2, y * y), 's'
        yield 'det', Det('det', 'DetLLT', p.spd('q', 2), 'pd'), 's'
        yield 'logdet', Det('log_det', 'LogDetLLT', p.spd('q', 2), 'pd'), 's'
        yield 'normal', Pdf('normal', x, y, 1, mode='in'), 's'
        yield 'normalm', Pdf('normal', x, y, p.spd('q', 2), mode='in'), 's'
        yield 'cauchy', Pdf('cauchy', x, y, 1, mode='in'), 's'
        yield 'uniform', Pdf('uniform', x, y, p.s('hi'), mode='in'), 's'
        yield 'bernoulli', Pdf('bernoulli', p.const('n', 's', how='c'), y, mode='in'), 's'
        yield 'wishart', Pdf('wishart', p.spd('q', 2), p.spd('q2', 2), 4, mode='in'), 's'
        yield 'dot', dot(m, x), 'v'
        yield 'dotm', dot(m, m), 'm'
        yield 'tr', tr(m * y), 'm'
        yield 'expv', exp(x), 'v'
        yield 'mulv', x * y, 'v'
        yield 'mulv2', y * x, 'v'
        yield 'powv', pw(3, x), 'v'
        yield 'powv1', pw(1, x), 'v'
        yield 'ifv', ifel(y < 0, x * 2, x * x), 'v'
        yield 'glue', Glue(let(p.ph('w2'), y * y), y + y), 's'
        yield 'eq', let(p.ph('w2'), y * y), 's'
        yield 'foreach', p.each('for_each', x, lambda v: v * y), 's'
        yield 'sumv', VarsIter('sum', [p.v('a', 2), p.v('b', 2)], lambda v: v * x), 'v'
        yield 'prodv', VarsIter('prod', [p.v('a', 2), p.v('b', 2)], lambda v: v + x), 'v'
    class Dummy:
        def __getattr__(self, k):
            return lambda *a, **kw: Leaf('z', 's', 1, 1, 'in')
    tmp = P('tmp')
    names = [r[0] for r in roots(tmp, tmp.v('x', 2), tmp.m('m', 2, 2), tmp.s('y'))]
    for nme in names:
        for trail in (False, True):
            p = P('root.%s%s' % (nme, '.trail' if trail else ''))
            p.maxpaths = 200
            x, m, y = p.v('x', 2), p.m('m', 2, 2), p.s('y')
            g = roots(p, x, m, y)
            for r, e, sh in g:
                # only keep the declarations this root needs
                if r == nme:
                    break
                p.vars = [v for v in p.vars if v in (x, m, y)]
                p.consts = []
                p.iters = set()
            g.close()
            w = p.ph('w', sh, 2, 2)
            p.vars = [w if v is w else v for v in p.vars]
            if trail:
                # something bound after the placeholder, whose slots must not overlap
                p.e = Glue(let(w, e), exp(y) * w) if sh == 's' else Glue(let(w, e), summ(w * w) * exp(y))
                p.hist = ['set', 'diff']
            else:
                p.e = Glue(let(w, e), w * y)
                p.hist = ['set', 'eval', 'adj']
            if nme in ('cauchy', 'uniform', 'normal', 'normalm', 'wishart', 'prod', 'prodsub', 'rangep', 'prodv'):
                p.hist = ['set', 'eval', 'adj']
            ps.append(p)
    # placeholders on elements and views of a vector
    p = new('ph.view.elem')
    x = p.v('x', 2)
    w = p.ph('w', 'v', 2)
    p.e = Glue(let(w[0], x[0] * x[1]), let(w[1], sin(w[0])), w[0] * w[1] + summ(w))
    hist2(p)
    p = new('ph.view.head')
    x, y = p.v('x', 2), p.s('y')
    w = p.ph('w', 'v', 3)
    p.e = Glue(let(w.head(2), x * y), let(w[2], y * y), summ(w * w))
    p = new('ph.view.tail', bind='bind')
    x, y = p.v('x', 2), p.s('y')
    w = p.ph('w', 'v', 3)
    p.e = Glue(let(w.tail(2), exp(x)), let(w[0], y * y), prod(w))
    p.hist = ['set', 'diff']
    # for_each
    for n in (1, 2, 3):
        p = new('foreach.ph.%d' % n)
        x, y = p.v('x', n), p.s('y')
        w = p.ph('w', 'v', n)
        p.e = Glue(p.eachi('for_each', n, lambda a, b: let(a, b * y + b), w, x), summ(w * w) * y)
        hist2(p)
    p = new('foreach.last')
    x, y = p.v('x', 3), p.s('y')
    w = p.ph('w', 'v', 3)
    p.e = p.eachi('for_each', 3, lambda a, b: let(a, b * y), w, x)
    p = new('foreach.exprs')
    x, y = p.v('x', 3), p.s('y')
    p.e = p.each('for_each', x, lambda v: v * y)
    p = new('foreach.glue', bind='bind')
    x, y = p.v('x', 2), p.s('y')
    w = p.ph('w', 'v', 2)
    p.e = Glue(let(w[0], x[0] * y), p.eachi('for_each', 2, lambda a, b: a * b, x, w) * y, summ(x))
    p.e = Glue(p.eachi('for_each', 2, lambda a, b: let(a, sin(b)), w, x), p.eachi('for_each', 2, lambda a, b: a * b, w, x))
    hist2(p)
    # recurrences and long sequences
    for n in (4, 6, 9) + ((16,) if deep else ()):
        p = new('foreach.rec.%d' % n, bind='bind' if n == 6 else 'raw')
        y, z = p.s('y'), p.s('z')
        w = p.ph('w', 'v', n + 1)
        body = (lambda a, b: let(b, a * z)) if n > 4 else (lambda a, b: let(b, a * z + y))
        p.e = Glue(let(w[0], y * 1.0), p.eachi('for_each', n, body, w.head(n), w.tail(n)))
        p.hist = ['set', 'diff', 'set', 'diff']
        p = new('foreach.acc.%d' % n)
        u, x, z = p.upd('u'), p.v('x', n), p.s('z')
        p.e = Glue(p.each('for_each', x, lambda v: opeq(u, '+', v * z)), u * z)
        p.hist = ['set', 'diff', 'set', 'diff']
        p = new('glue.long.%d' % n)
        x, y = p.s('x'), p.s('y')
        st, a, b = [], x, y
        for i in range(n):
            w = p.ph('w%d' % i)
            st.append(let(w, a * y if i % 2 else b + a))
            a, b = w, a
        p.e = Glue(*(st + [a * x]))
        p.hist = ['set', 'diff', 'set', 'diff']
    for n in (5,):
        for op in ARITH:
            p = new('op.%s.long%d' % (nm(op), n))
            u, x, y = p.upd('u', 'v', n), p.v('x', n), p.s('y')
            p.e = Glue(opeq(u, op, x * y), summ(u * x))
            p.hist = ['set', 'diff', 'set', 'diff']
            p = new('op.%s.rect' % nm(op))
            u, x, y = p.upd('u', 'm', 3, 2), p.m('x', 3, 2), p.s('y')
            p.e = Glue(opeq(u, op, y * y), u * x)
            p.hist = ['set', 'diff', 'set', 'diff']
        p = new('ph.long.v')
        x, y = p.v('x', n), p.s('y')
        w = p.ph('w', 'v', n)
        p.e = Glue(let(w, x * y), summ(w * w) * y)
        p = new('ph.rect')
        x, y = p.m('x', 2, 4), p.s('y')
        w = p.ph('w', 'm', 2, 4)
        p.e = Glue(let(w, sin(x)), w * y + x)
        hist2(p)
    # ---------------- in-place updates
    for op in ARITH:
        for a, b in ('ss', 'vs', 'vv', 'ms', 'mm'):
            p = new('op.%s.%s%s' % (nm(op), a, b), bind='bind' if a == b else 'raw')
            u = p.upd('u', a, 2, 2)
            x = leaf(p, 'x', b, 2)
            y = p.s('y')
            p.e = Glue(opeq(u, op, x * y), u * y)
            p = new('op.%s.%s%s.self' % (nm(op), a, b))
            u = p.upd('u', a, 2, 2)
            x = leaf(p, 'x', b, 2)
            p.e = Glue(opeq(u, op, (x * u if a == b else x * summ(u))), u * x)
            hist2(p)
        p = new('op.%s.twice' % nm(op), bind='bind')
        u, x, y = p.upd('u'), p.s('x'), p.s('y')
        p.e = Glue(opeq(u, op, x), opeq(u, op, y * u), u * x)
        hist2(p)
        p = new('op.%s.last' % nm(op))
        u, x = p.upd('u'), p.s('x')
        p.e = opeq(u, op, x * x)
        p = new('op.%s.last.v' % nm(op))
        u, x = p.upd('u', 'v', 2), p.v('x', 2)
        p.e = opeq(u, op, x * u)
        p = new('op.%s.mixed' % nm(op))
        u, x, y = p.upd('u'), p.s('x'), p.s('y')
        w = p.ph('w')
        p.e = Glue(let(w, u * y), opeq(u, op, w * x), w * u + x)
        p = new('op.%s.leaf' % nm(op))
        u, x = p.upd('u', 'v', 2), p.v('x', 2)
        p.e = Glue(opeq(u, op, x), norm(u) * x[0])
        p = new('op.%s.foreach' % nm(op))
        u, x = p.upd('u'), p.v('x', 2)
        p.e = Glue(p.each('for_each', x, lambda v: opeq(u, op, v)), u * u)
        hist2(p)
        p = new('op.%s.const' % nm(op))
        u, x = p.upd('u', 'v', 2), p.s('x')
        p.e = Glue(opeq(u, op, 2.0), u * x)
        p = new('op.%s.elem' % nm(op))
        u, x = p.upd('u', 'v', 2), p.s('x')
        p.e = Glue(opeq(u[1], op, x * x), summ(u) * x)
        p = new('op.%s.def' % nm(op))
        u, x, y = p.upd('u'), p.s('x'), p.s('y')
        w = p.ph('w')
        p.e = Glue(let(w, opeq(u, op, x * y)), w * exp(y) + w)
        hist2(p)
        for op2 in ARITH:
            p = new('op.%s.%s' % (nm(op), nm(op2)))
            u, x, y = p.upd('u'), p.s('x'), p.s('y')
            p.e = Glue(opeq(u, op, sin(x)), opeq(u, op2, y * x), u * u)
            p.hist = ['set', 'diff']
            if deep:
                p = new('op.%s.%s.v' % (nm(op), nm(op2)))
                u, x, y = p.upd('u', 'v', 3), p.v('x', 3), p.s('y')
                p.e = Glue(opeq(u, op, sin(x)), opeq(u, op2, y), opeq(u, op, u * x), summ(u * u))
                p.hist = ['set', 'diff']
    p = new('op.two', bind='bind')
    u, v, x = p.upd('u'), p.upd('v'), p.s('x')
    p.e = Glue(opeq(u, '+', v * x), opeq(v, '*', u), opeq(u, '-', v), u * v)
    hist2(p)
    p = new('op.statement4')
    u, x, y = p.upd('u'), p.s('x'), p.s('y')
    w, z = p.ph('w'), p.ph('z')
    p.e = Glue(let(w, x * y), opeq(u, '+', w * w), let(z, u * w), opeq(u, '/', exp(z)), u * z + w)
    p.hist = ['set', 'diff']
    p = new('glue.values')
    x, y = p.s('x'), p.v('y', 2)
    p.e = Glue(let(p.ph('w'), x * x), y * x)
    # larger straight-line programs
    for k in range(12 if deep else 6):
        ps.append(random_slp(k, rng, 5 if deep else 4))
    from .zoo import huge
    ps += huge(lambda k: k.startswith(('eq', 'upd', 'foreach', 'for_each', 'glue')), deep)
    from .zoo import empties
    ps += empties('asg')
    ps += nested(deep)
    return ps


def nested(deep):
    """an assignment or update inside the operand of every construct that always passes its seed on"""
    from .c16 import outers
    ps = []
    total = lambda e: e if e.kind == 's' else summ(e)
    j = 0
    for kind in 'svm':
        O = outers(kind)
        for o in O:
            # densities and determinants return early for seed 0, comparisons and conditionals do not pass seeds on, ranges would assign repeatedly
            if o.startswith(('normal', 'cauchy', 'uniform', 'bern', 'det', 'logdet', 'if', 'it', 'pit', 'cmp', 'let', 'seq')) or o in ('untan', 'unasin', 'unacos', 'unlog', 'unsqrt') and not deep:
                continue
            for form in ('stm', 'def', 'upd', 'defupd'):
                j += 1
                if 'upd' in form and o.startswith(('bin', 'dot', 'kl', 'kr')):
                    continue        # its sibling may read the variable after the backward pass has restored it
                if not deep and (form != 'stm' or o[:2] == 'un' and kind != 's') and (j % 2 if kind == 's' else j % 4 != 1 if o[:2] == 'un' else j % 2):
                    continue
                p = P('nested.%s.%s.%s' % (kind, o, form), maxpaths=300 if deep else 12)
                a, b = leaf(p, 'a', kind, 2), leaf(p, 'b', kind, 2)
                c = 2 if kind == 'm' else 1
                if 'upd' in form:
                    w = p.upd('u', kind, 2, c)
                    e = O[o](p, Assign(w, '*=', sin(a) * b))
                else:
                    w = p.ph('w', kind, 2, c)
                    e = O[o](p, let(w, a * b))
                if form.startswith('def'):
                    z = p.ph('zz', e.kind, e.r, e.c)
                    p.e = Glue(let(z, e), total(w * w) * total(z) + total(w))
                else:
                    p.e = Glue(e, total(w * w))
                p.hist = ['set', 'diff'] if j % 8 == 5 else ['set', 'diff', 'set', 'diff']
                p.bind = 'bind' if j % 3 else 'raw'
                ps.append(p)
    return ps


def random_slp(k, rng, n):
    p = P('slp.%d' % k)
    x, y = p.s('x'), p.s('y')
    v = p.v('v', 2)
    ups = [p.upd('u0'), p.upd('u1')]
    S = [x, y, ups[0], ups[1], v[0]]
    st = []
    for i in range(n):
        a, b = rng.choice(S), rng.choice(S)
        e = rng.choice([lambda: a * b, lambda: a + b * b, lambda: a - b, lambda: a * sin(b), lambda: -a * 2, lambda: exp(a) * b, lambda: summ(v * a)])()
        if rng.random() < 0.5:
            w = p.ph('w%d' % i)
            st.append(let(w, e))
            S.append(w)
        else:
            st.append(opeq(rng.choice(ups), rng.choice('+-*'), e))
    a, b = rng.choice(S), rng.choice(S)
    st.append(a * b + S[-1])
    p.e = Glue(*st)
    p.hist = ['set', 'diff', 'set', 'diff']
    return p
