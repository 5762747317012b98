"""C05: conditionals, comparisons, logical operators"""
from ..dsl import *
from .common import *

BOUNDS = 'all comparison/logical operators on scalars, vectors of length 2, 2x2 matrices and broadcasts; conditionals nested to depth 3 with scalar, vector and matrix branches, as operand/condition/definition/last of a sequence; the growable catalogue entries also at length 9 and 17 (quick: some paths); empty vectors and matrices'


def programs(tier, rng):
    ps = []
    deep = tier == 'thorough'

    def new(name, **kw):
        p = P(name)
        p.maxpaths = 200
        for k, v in kw.items():
            setattr(p, k, v)
        ps.append(p)
        return p
    # comparisons alone
    for op in COMP:
        for a, b in ('ss', 'sv', 'vs', 'vv', 'mm', 'sm', 'ms'):
            p = new('cmp.%s.%s%s' % (nm(op), a, b), maxpaths=400)
            x, y = leaf(p, 'x', a, 2), leaf(p, 'y', b, 2)
            p.e = Bin(op, x, y)
            p.hist = ['set', 'eval', 'adj'] + (['set', 'eval', 'adj'] if a + b == 'ss' else [])
        p = new('cmp.%s.sub' % nm(op), bind='bind')
        x, y = p.s('x'), p.s('y')
        p.e = Bin(op, x * y, x + 1)
        p.hist = ['set', 'diff', 'set', 'diff']
        p = new('cmp.%s.num' % nm(op))
        x = p.s('x')
        p.e = Bin(op, x, 1)
    for op in ('&&', '||'):
        for c1, c2 in (('<', '>'), ('==', '!='), ('>=', '<='), ('<', '==')):
            p = new('log.%s.%s.%s' % (nm(op), nm(c1), nm(c2)))
            x, y, z = p.s('x'), p.s('y'), p.s('z')
            p.e = Bin(op, Bin(c1, x, y), Bin(c2, y, z))
            hist2(p)
        p = new('log.%s.vec' % nm(op), maxpaths=600)
        x, y = p.v('x', 2), p.s('y')
        p.e = Bin(op, x < y, x.eq(1))
        p.hist = ['set', 'diff']
        for a, b in ('sv', 'vs', 'vv', 'sm', 'ms', 'mm'):
            p = new('log.%s.%s%s' % (nm(op), a, b), maxpaths=600, bind='bind' if b == 'v' else 'raw')
            x, y = leaf(p, 'x', a, 2), leaf(p, 'y', b, 2)
            p.e = Bin(op, x < 1, y >= 2)
            p.hist = ['set', 'diff']
        for a, b in ('sv', 'vs', 'vv'):
            # numbers that are 0 and 1 already: an operand of a comparison result and a constant truth value
            p = new('log.%s.use.%s%s' % (nm(op), a, b), maxpaths=600)
            x, y = leaf(p, 'x', a, 2), leaf(p, 'y', b, 2)
            p.e = Bin(op, x < 1, y.eq(2)) * (x + y)
            p.hist = ['set', 'diff']
        p = new('log.%s.nest' % nm(op))
        x, y = p.s('x'), p.s('y')
        p.e = ifel(Bin(op, Bin(op, x < y, y < 1), x.ne(0)), x, y)
        hist2(p)
        p = new('log.%s.mixnest' % nm(op))
        x, y = p.s('x'), p.s('y')
        p.e = ifel((x < y).land(y < 1).lor(Bin(op, x > 2, y > 2)), x * y, sin(y))
        hist2(p)
    # conditionals
    for op in COMP:
        for sh in 'svm':
            p = new('if.%s.%s' % (nm(op), sh), bind='bind' if sh == 'v' else 'raw')
            c, x, y = p.s('c'), leaf(p, 'x', sh, 2), leaf(p, 'y', sh, 2)
            p.e = ifel(Bin(op, c, 1), x * y, x - y)
            if sh != 's':
                hist2(p)
        p = new('if.%s.dep' % nm(op))
        x, y = p.s('x'), p.s('y')
        p.e = ifel(Bin(op, x * x, y), x * y, sin(x))
    for sh in 'svm':
        # both branches leaves
        p = new('if.leaf.%s' % sh)
        c, x, y = p.s('c'), leaf(p, 'x', sh, 2), leaf(p, 'y', sh, 2)
        p.e = ifel(c < 0, x, y)
        p = new('if.mixed.%s' % sh)
        c, x = p.s('c'), leaf(p, 'x', sh, 2)
        p.e = ifel(c < 0, x, exp(x) * c)
        # operand of other nodes
        for k, f in enumerate((lambda e, x: sin(e), lambda e, x: e * x, lambda e, x: x - e, lambda e, x: pw(2, e), lambda e, x: -e + e,
                               lambda e, x: pw(1, e), lambda e, x: x / e)):
            p = new('if.operand%d.%s' % (k, sh), bind='bind' if k % 2 else 'raw')
            c, x = p.s('c'), leaf(p, 'x', sh, 2)
            if k == 6:
                p.e = f(ifel(c < 0, exp(x), exp(x) * 2), x)
            else:
                p.e = f(ifel(c < 0, x * x, x), x)
            hist2(p)
        for k, f in enumerate((summ, prod, lambda e: norm(e) if e.kind != 's' else e * e)):
            p = new('if.red%d.%s' % (k, sh), maxpaths=300)
            c, x = p.s('c'), leaf(p, 'x', sh, 2)
            p.e = f(ifel(c < 0, x * x if k != 1 else x * 2, x))
            p.hist = ['set', 'eval', 'adj']
        # definition of a placeholder, and last of a sequence
        p = new('if.def.%s' % sh)
        c, x = p.s('c'), leaf(p, 'x', sh, 2)
        w = p.ph('w', sh, 2, 2)
        p.e = Glue(let(w, ifel(c < 0, x * c, x * x)), w * w * exp(c))
        hist2(p)
        p = new('if.seq.%s' % sh, bind='bind')
        c, x = p.s('c'), leaf(p, 'x', sh, 2)
        w = p.ph('w', sh, 2, 2)
        p.e = Glue(let(w, x * x), ifel(c < 0, w, w * c))
        hist2(p)
        p = new('if.seq2.%s' % sh)
        c, x = p.s('c'), leaf(p, 'x', sh, 2)
        w, z = p.ph('w'), p.ph('z', sh, 2, 2)
        p.e = Glue(let(w, c * c), let(z, ifel(w < 1, x * w, sin(x))), ifel(w > c, z, z * x))
        hist2(p)
        # nesting
        p = new('if.nest.%s' % sh)
        c, d, x, y = p.s('c'), p.s('d'), leaf(p, 'x', sh, 2), leaf(p, 'y', sh, 2)
        p.e = ifel(c < 0, ifel(d < c, x, y * x), ifel(d >= 1, x * x, y))
        hist2(p)
        p = new('if.nestop.%s' % sh)
        c, d, x, y = p.s('c'), p.s('d'), leaf(p, 'x', sh, 2), leaf(p, 'y', sh, 2)
        p.e = ifel(c < 0, sin(ifel(d < c, x, y * x)), ifel(d >= 1, x * x, y) * y)
        hist2(p)
    p = new('if.cond.if')
    x, y = p.s('x'), p.s('y')
    p.e = ifel(ifel(x < y, y < 1, y > 2), x * y, x + y)
    hist2(p)
    p = new('if.cond.if.leaf')
    x, y, c = p.s('x'), p.s('y'), p.s('c')
    p.e = ifel(ifel(x < y, c, y), x * y, x + y)
    hist2(p)
    p = new('if.cond.expr')
    x, y = p.s('x'), p.s('y')
    p.e = ifel(x - y, x * y, x + y)
    hist2(p)
    p = new('if.cond.leaf')
    x, y = p.s('x'), p.s('y')
    p.e = ifel(x, x * y, x + y)
    hist2(p)
    p = new('if.cond.ph')
    x, y = p.s('x'), p.s('y')
    w = p.ph('w')
    p.e = Glue(let(w, x * y), ifel(w < 1, w * x, w))
    hist2(p)
    p = new('if.chain')
    x, y = p.s('x'), p.s('y')
    p.e = ifel(x < 0, -x, x) * ifel(y < 0, -y, y) + ifel(x < y, x, y)
    hist2(p)
    p = new('if.const.branch')
    x, y = p.s('x'), p.s('y')
    p.e = ifel(x < y, 3.0, y * x)
    hist2(p)
    p = new('if.const.branch2')
    x, y = p.s('x'), p.s('y')
    p.e = sin(ifel(x < y, y * x, 2.5)) * x
    hist2(p)
    p = new('if.const.both')
    x, y = p.s('x'), p.s('y')
    p.e = ifel(x < y, 1.0, 2.0) * x
    hist2(p)
    p = new('if.in.range')
    x, y = p.v('x', 2), p.s('y')
    p.e = p.each('sum', x, lambda v: ifel(v < y, v * v, y))
    hist2(p)
    p = new('if.in.prodrange')
    x, y = p.v('x', 2), p.s('y')
    p.e = p.each('prod', x, lambda v: ifel(v < y, v, y * 2))
    p.hist = ['set', 'eval', 'adj']
    p = new('if.in.foreach')
    x, y = p.v('x', 2), p.s('y')
    w = p.ph('w', 'v', 2)
    p.e = Glue(p.eachi('for_each', 2, lambda a, b: let(a, ifel(b < y, b * y, b)), w, x), summ(w * w))
    p.hist = ['set', 'diff']
    p = new('if.dot')
    a, x, c = p.m('a', 2, 2), p.v('x', 2), p.s('c')
    p.e = dot(ifel(c < 0, a, a * 2), ifel(c < 1, x, sin(x)))
    hist2(p)
    p = new('if.tr')
    a, c = p.m('a', 2, 3), p.s('c')
    p.e = tr(ifel(c < 0, a, a * c))
    hist2(p)
    p = new('if.update')
    u, x, c = p.upd('u'), p.s('x'), p.s('c')
    p.e = Glue(Assign(u, '+=', ifel(c < 0, x * x, x)), u * c)
    hist2(p)
    p = new('if.pdf', maxpaths=64)
    x, m, s = p.s('x'), p.s('m'), p.s('s')
    p.e = ifel(s > 0, Pdf('normal', x, m, exp(s), mode='in'), x * m)
    p.hist = ['set', 'eval', 'adj']
    p = new('if.pdf.arg', maxpaths=64)
    x, m, s = p.s('x'), p.s('m'), p.s('s')
    p.e = Pdf('normal', x, ifel(x < m, m, x * 2), exp(s), mode='in')
    p.hist = ['set', 'eval', 'adj']
    p = new('if.depth3')
    x, y = p.s('x'), p.s('y')
    p.e = ifel(x < 0, ifel(y < 0, ifel(x < y, x, y), x * y), ifel(y < 0, sin(y), ifel(x > y, x, ifel(x.eq(y), x * y * 3, y))))
    hist2(p)
    # comparisons as numbers (indicator): no gradient flows
    p = new('cmp.cond.vecsum')
    x, y = p.v('x', 2), p.s('y')
    p.e = ifel(summ(x) < y, summ(x), y * y)
    hist2(p)
    # branches that assign placeholders or update variables in place: only the selected branch acts
    for cnd in ('dep', 'indep'):
        for k in range(6):
            p = new('if.stmt%d.%s' % (k, cnd), bind='bind' if k % 2 else 'raw')
            x, y = p.s('x'), p.s('y')
            if k < 3:
                u = p.upd('u')
                c = u < 2 if cnd == 'dep' else x < y
                e = ifel(c, Glue(Assign(u, '+*/'[k] + '=', y if k == 0 else exp(y)), u * y), u * x)
                p.e = e * 2.0 + x
            elif k == 3:
                u = p.upd('u')
                c = u * x > y if cnd == 'dep' else x > 1
                p.e = ifel(c, Glue(Assign(u, '-=', x * x), u * u), Glue(Assign(u, '*=', y), u + x)) * y
            elif k == 4:
                w = p.ph('w')
                c = w > 0 if cnd == 'dep' else y > 0
                p.e = Glue(let(w, x * y), ifel(c, w * w, sin(w) * x) * w)
            else:
                w, v = p.ph('w'), p.ph('v')
                c = w > 0 if cnd == 'dep' else y > 0
                p.e = Glue(let(w, x * y), let(v, ifel(c, w * w, x * 1.0)), v * w + v)
            p.hist = ['set', 'diff', 'set', 'diff']
    for k, f in enumerate(('for_each', 'sum', 'prod')):
        p = new('if.in.%s' % f, maxpaths=300)
        x, y = p.v('x', 3), p.s('y')
        p.e = p.each(f, x, lambda v: ifel(v < y, v * y, sin(v)))
        p.hist = ['set', 'eval', 'adj']
        p = new('if.of.%s' % f, maxpaths=300)
        x, y = p.v('x', 2), p.s('y')
        p.e = ifel(y < 1, p.each(f, x, lambda v: v * y), y * 1.0)
        p.hist = ['set', 'diff', 'set', 'diff']
    from .zoo import huge
    ps += huge(lambda k: k.startswith('if.'), deep)
    from .zoo import empties
    ps += empties(('if', 'cmp'))
    return ps
