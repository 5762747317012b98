"""C16: arbitrary compositions"""
from .zoo import *
from .pdfs import SHAPES, PAR, arg

BOUNDS = 'every construct directly inside every other (elements: scalars, vectors of 2, 2x2 matrices; quick: all unary/power pairs on scalars, representatives elsewhere); random well-typed programs (per seed) of up to 12 nodes, depth 4, 3 statements, vectors of length 2-3, matrices up to 2x3 over all constructs; every evaluation interface on the catalogue vp/props/zoo.py'
CFG = {'quick': {'prog_time': 25}}


class Gen:
    def __init__(self, p, rng, deep):
        self.p, self.rng, self.deep = p, rng, deep
        self.pool = []          # usable leaves: variables and defined placeholders
        self.n = 0
        self.branches = 0
        self.big = 0            # densities and determinants used
        self.pds = []
        self.budget = rng.randint(5, 13) if deep else rng.randint(4, 9)
        self.vn = rng.choice((2, 2, 3)) if not deep else rng.choice((2, 3))
        self.uid = 0
        self.mdims = [(2, 2), (2, self.vn), (self.vn, 2)]
        if rng.random() < .4:
            a, b = rng.choice([(3, 3), (1, 3), (3, 1), (1, 2), (2, 1), (1, 1), (2, 3), (3, 2)])
            self.mdims = [(a, b), (b, a), (2, 2)]

    def name(self, t):
        self.uid += 1
        return '%s%d' % (t, self.uid)

    def leaf(self, kind, dims):
        r, c = dims
        rng = self.rng
        have = [l for l in self.pool if l.kind == kind and (l.r, l.c) == (r, c)]
        if have and rng.random() < .72 or len(have) >= 3:
            return rng.choice(have)
        x = rng.random()
        if x < .12 and self.pool:
            k = self.p.const(self.name('k'), kind, r, c, how='c' if kind == 's' else rng.choice(['ceig', 'view']))
            return k
        if kind == 's' and x < .3:
            vs = [l for l in self.pool if l.kind == 'v']
            if vs:
                v = rng.choice(vs)
                return v[rng.randrange(v.r)]
        if kind == 'v' and x < .25:
            vs = [l for l in self.pool if l.kind == 'v' and l.r > r]
            if vs:
                v = rng.choice(vs)
                return v.head(r) if rng.random() < .5 else v.tail(r)
        l = self.p.var(self.name('x'), kind, r, c)
        self.pool.append(l)
        return l

    def dims(self, kind):
        if kind == 's':
            return (1, 1)
        if kind == 'v':
            return (self.vn, 1)
        return self.rng.choice(self.mdims)

    def pos(self, kind, dims, d):
        """an expression that is positive everywhere"""
        e = self.expr(kind, dims, d)
        return self.rng.choice([lambda: exp(e), lambda: e * e + 1.0, lambda: Un('sigmoid', e), lambda: Un('cosh', e)])()

    def expr(self, kind, dims, d, top=False):
        rng = self.rng
        self.n += 1
        if d <= 0 or self.n > self.budget:
            l = self.leaf(kind, dims)
            return l
        k = self.pick(kind, dims, top)
        return k(d - 1)

    def pick(self, kind, dims, top):
        rng = self.rng
        O = []

        def add(w, f):
            O.append((w, f))
        E = lambda k, dm: lambda d: self.expr(k, dm, d)
        one = (1, 1)
        here = lambda d: self.expr(kind, dims, d)
        add(3, lambda d: Un(rng.choice(['sin', 'cos', 'exp', 'atan', 'erf', 'sigmoid', 'tanh', 'sinh', 'cosh', '-']), here(d)))
        add(1, lambda d: Un(rng.choice(['log', 'sqrt']), self.pos(kind, dims, d)))
        add(1, lambda d: Un(rng.choice(['tan', 'asin', 'acos']), self.pure_leaf(kind, dims)))
        add(1, lambda d: pw(rng.choice([0, 1, 2, 2, 3]), here(d)))
        add(.5, lambda d: pw(rng.choice([-1, -2]), self.pos(kind, dims, d)))
        add(6, lambda d: Bin(rng.choice('+-**'), here(d), here(d)))
        add(1, lambda d: Bin('/', here(d), self.pos(kind, dims, d)))
        add(1, lambda d: Bin(rng.choice(['+', '-', '*']), here(d), float(rng.choice([2, 0.5, -3]))))
        add(.6, lambda d: Bin(rng.choice(['-', '*']), float(rng.choice([2, 0.5, -3])), here(d)))
        if kind != 's':
            add(3, lambda d: Bin(rng.choice(['+', '-', '*']), self.expr('s', one, d), here(d)))
            add(3, lambda d: Bin(rng.choice(['+', '-', '*']), here(d), self.expr('s', one, d)))
            add(.7, lambda d: Bin('/', here(d), self.pos('s', one, d)))
            add(.7, lambda d: Bin('/', self.expr('s', one, d), self.pos(kind, dims, d)))
        if self.branches < (3 if self.deep else 2):
            def cond(d):
                self.branches += 1
                c = Bin(rng.choice(['<', '<=', '>', '>=']), self.expr('s', one, min(d, 1)), rng.choice([1.0, -1.0, 0.0]))
                if rng.random() < .2:
                    c = Bin(rng.choice(['&&', '||']), c, Bin('<', self.leafs(), 2.0))
                return ifel(c, here(d), here(d))
            add(1.5, cond)
        if kind == 's':
            add(2, lambda d: Red(rng.choice(['sum', 'prod', 'norm']), self.expr('v', (self.vn, 1), d)))
            add(1.5, lambda d: Red(rng.choice(['sum', 'norm']), (lambda dm: self.expr('m', dm, d))(self.dims('m'))))
            add(2, self.iter)
            if self.big < 1 and not self.pds:
                add(2.5, self.pdf)
                add(1, self.det)
        if kind == 'v':
            def mv(d):
                k = rng.choice([c for _, c in self.mdims])
                m = self.expr('m', (dims[0], k), d)
                return dot(m, self.expr('v', (k, 1), d))
            add(3, mv)
        if kind == 'm':
            def mm(d):
                k = rng.choice([c for _, c in self.mdims])
                return dot(self.expr('m', (dims[0], k), d), self.expr('m', (k, dims[1]), d))
            add(2, mm)
            add(2, lambda d: tr(self.expr('m', (dims[1], dims[0]), d)))
        t = rng.random() * sum(w for w, _ in O)
        for w, f in O:
            t -= w
            if t <= 0:
                return f
        return O[0][1]

    def leafs(self):
        return self.leaf('s', (1, 1))

    def pure_leaf(self, kind, dims):
        """a variable, so that the domain is easy to state"""
        have = [l for l in self.p.vars if l.role == 'in' and l.kind == kind and (l.r, l.c) == dims and not l.sym]
        if have and self.rng.random() < .6:
            return self.rng.choice(have)
        l = self.p.var(self.name('x'), kind, *dims)
        self.pool.append(l)
        return l

    def iter(self, d):
        rng = self.rng
        x = self.leaf('v', (self.vn, 1))
        while not isinstance(x, Leaf):
            x = self.leaf('v', (self.vn, 1))
        y = self.leafs()
        f = rng.choice(['sum', 'sum', 'prod'])
        b = rng.randrange(6)
        return self.p.each(f, x, lambda v: [lambda: v * y, lambda: sin(v) + y, lambda: v * v, lambda: exp(v - y), lambda: v, lambda: (v - y) * (v + 2.0)][b]())

    def pdf(self, d):
        rng = self.rng
        self.big += 1
        f = rng.choice(['normal', 'normal', 'cauchy', 'bernoulli', 'uniform', 'wishart'])
        if f == 'wishart':
            a, b = self.p.spd(self.name('S'), 2), self.p.spd(self.name('S'), 2)
            return Pdf('wishart', a * exp(self.leafs()) if rng.random() < .4 else a, b * 2.0 if rng.random() < .4 else b, 4, mode='in')
        sh = rng.choice(SHAPES[f])
        A = []
        for i, s in enumerate(sh):
            kind, dims = (s, {'s': (1, 1), 'v': (2, 1), 'm': (2, 2)}[s])
            if f == 'bernoulli':
                A.append(arg(self.p, self.name('n'), s, 'k', 2, 'ceig') if i == 0 else Un('sigmoid', self.expr(kind, dims, min(d, 1))))
            elif s == 'm':
                a = self.p.spd(self.name('S'), 2)
                A.append(a if rng.random() < .6 else a * exp(self.leafs()))
            elif i == 2 and f != 'uniform':
                A.append(exp(self.expr(kind, dims, min(d, 1))))
            elif f == 'uniform':
                l = self.leaf(kind, dims)
                A.append(l if rng.random() < .5 else l * 2.0)
            else:
                A.append(self.expr(kind, dims, min(d, 1)))
        if not any(not a.isconst for a in A):
            A[-1] = exp(self.pure_leaf(A[-1].kind, (A[-1].r, A[-1].c))) if f != 'bernoulli' else Un('sigmoid', self.pure_leaf(A[-1].kind, (A[-1].r, A[-1].c)))
        return Pdf(f, *A, mode='in')

    def det(self, d):
        rng = self.rng
        self.big += 1
        f = rng.choice(['det', 'log_det'])
        pre = {'det': 'Det', 'log_det': 'LogDet'}[f]
        if rng.random() < .5:
            return Det(f, pre + 'LLT', self.p.spd(self.name('S'), 2) * 2.0, 'pd')
        m = self.pure_leaf('m', (2, 2))
        return Det(f, pre + 'FullPivLU', m if rng.random() < .6 else m * 2.0, 'inv')

    def program(self):
        rng, p = self.rng, self.p
        st = []
        for i in range(rng.choice([0, 0, 1, 1, 2, 3])):
            kind = rng.choice('sssvvm')
            x = rng.random()
            if x < .12:
                u = p.upd(self.name('u'), kind, *self.dims(kind))
                op = rng.choice(['+=', '-=', '*='])
                rk = rng.choice(['s', kind])
                e = self.expr(rk, (u.r, u.c) if rk != 's' else (1, 1), 2)
                if isinstance(e, (Leaf, Sub, Const)):
                    e = e * e
                st.append(Assign(u, op, e))
                self.pool.append(u)
            elif x < .22:
                w = p.ph(self.name('w'), 'v', self.vn)
                src = self.pure_leaf('v', (self.vn, 1))
                y = self.leafs()
                b = rng.randrange(3)
                st.append(p.eachi('for_each', self.vn, lambda o, v: let(o, [lambda: v * y, lambda: sin(v), lambda: v * v + y][b]()), w, src))
                self.pool.append(w)
            else:
                dims = self.dims(kind)
                e = self.expr(kind, dims, 3)
                if e.isconst:
                    e = e * self.pure_leaf(kind, dims)
                if isinstance(e, (Leaf, Sub, Const, ItElem)):
                    e = e * self.leaf(kind, dims) if rng.random() < .5 else exp(e)
                    if e.isconst:
                        e = e * self.pure_leaf(kind, dims)
                if kind == 'v' and rng.random() < .25:
                    # element by element
                    w = p.ph(self.name('w'), 'v', 2)
                    a = self.expr('s', (1, 1), 2)
                    if a.isconst or isinstance(a, (Leaf, Sub)):
                        a = a * self.pure_leaf('s', (1, 1))
                    st.append(let(w[0], a))
                    st.append(let(w[1], w[0] * self.pure_leaf('s', (1, 1))))
                    self.pool.append(w)
                else:
                    w = p.ph(self.name('w'), kind, *dims)
                    st.append(let(w, e))
                    self.pool.append(w)
            self.n = 0
        kind = rng.choice('ssssvvm')
        dims = self.dims(kind)
        self.budget = max(3, self.budget - 2 * len(st))
        e = self.expr(kind, dims, 4, True)
        ws = [l for l in self.pool if l.role in ('ph', 'upd') and l.kind == kind and (l.r, l.c) == dims]
        if ws and rng.random() < .8:
            e = e * rng.choice(ws)
        if e.isconst or isinstance(e, (Leaf, Sub, Const)):
            e = e * self.pure_leaf(kind, dims)
        p.e = Glue(*(st + [e])) if st else e
        used = p.e.cpp()
        return p


def rand(i, rng, deep):
    p = P('rnd.%d' % i)
    g = Gen(p, rng, deep)
    g.program()
    p.subshapes = i % 2 == 0
    p.maxpaths = 300 if deep else 40
    upd = any(v.role == 'upd' for v in p.vars)
    p.bind = rng.choice(['raw', 'bind'])
    p.iface = rng.choice(['std', 'get', 'move', 'lv']) if p.bind == 'bind' else 'std'
    if any(t in p.e.cpp() for t in ('FullPivLU', 'wishart', 'uniform')):
        p.hist = ['construct', 'set', 'eval', 'adj']
    else:
        p.hist = rng.choice([['set', 'diff'], ['set', 'eval', 'adj'], ['construct', 'set', 'diff']] + ([] if upd else [['set', 'eval', 'part', 'eval', 'adj']]))
    if upd and p.hist[-2:] == ['eval', 'adj']:
        pass
    return p


# ------------------------------------------------------------------ every construct directly inside every other
def inners(kind):
    """expressions of the given shape, one per construct, over fresh variables"""
    I = {}
    d = {'s': 1, 'v': 2, 'm': 2}[kind]
    L = lambda p, n: leaf(p, n, kind, d)
    for f in UNARY + ['-']:
        I['un' + f] = lambda p, f=f: Un(f, L(p, 'a'))
    for op in ARITH:
        I['bin' + nm(op)] = lambda p, op=op: Bin(op, L(p, 'a'), L(p, 'b'))
        if kind != 's':
            I['binsx' + nm(op)] = lambda p, op=op: Bin(op, p.s('a'), L(p, 'b'))
            I['binxs' + nm(op)] = lambda p, op=op: Bin(op, L(p, 'a'), p.s('b'))
        I['sq' + nm(op)] = lambda p, op=op: (lambda a: Bin(op, a, a))(L(p, 'a'))
        I['kl' + nm(op)] = lambda p, op=op: Bin(op, 2.0, L(p, 'a'))
        I['kr' + nm(op)] = lambda p, op=op: Bin(op, L(p, 'a'), -2.0)
    for n in (-2, -1, 0, 1, 2, 3):
        I['pow%d' % n] = lambda p, n=n: pw(n, L(p, 'a'))
    I['if'] = lambda p: ifel(p.s('c') < 1.0, L(p, 'a'), L(p, 'b'))
    if kind == 's':
        for r in ('sum', 'prod', 'norm'):
            I[r + 'v'] = lambda p, r=r: Red(r, p.v('a', 2))
        I['summ'] = lambda p: Red('sum', p.m('a', 2, 2))
        I['sumit'] = lambda p: p.each('sum', p.v('a', 2), lambda v: v * 2.0)
        I['prodit'] = lambda p: p.each('prod', p.v('a', 2), lambda v: v * 2.0)
        I['fe'] = lambda p: p.each('for_each', p.v('a', 2), lambda v: v * v)
        I['elem'] = lambda p: p.v('a', 3)[1]
        I['det'] = lambda p: Det('det', 'DetLLT', p.spd('a', 2), 'pd')
        I['logdet'] = lambda p: Det('log_det', 'LogDetLLT', p.spd('a', 2), 'pd')
        I['normal'] = lambda p: Pdf('normal', p.s('a'), p.s('b'), p.s('c'), mode='in')
        I['cauchy'] = lambda p: Pdf('cauchy', p.v('a', 2), p.s('b'), p.s('c'), mode='in')
        I['uniform'] = lambda p: Pdf('uniform', p.s('a'), p.s('b'), p.s('c'), mode='in')
        I['bern'] = lambda p: Pdf('bernoulli', p.const('n', 's', how='c'), p.s('b'), mode='in')
    if kind == 'v':
        I['dot'] = lambda p: dot(p.m('a', 2, 2), p.v('b', 2))
        I['head'] = lambda p: p.v('a', 3).head(2)
        I['tail'] = lambda p: p.v('a', 3).tail(2)
        I['sumit'] = lambda p: p.eachi('sum', 2, lambda v: v * p.v('b', 2), p.v('a', 2))
    if kind == 'm':
        I['dot'] = lambda p: dot(p.m('a', 2, 2), p.m('b', 2, 2))
        I['tr'] = lambda p: tr(p.m('a', 2, 2))
    W = lambda p, n: p.ph(n, kind, d, 2 if kind == 'm' else 1)
    I['let'] = lambda p: let(W(p, 'w'), L(p, 'a') * L(p, 'b'))
    I['seq'] = lambda p: Glue(let(W(p, 'w'), sin(L(p, 'a'))), exp(L(p, 'b')))
    return I


def outers(kind):
    """constructs with a hole of the given shape"""
    O = {}
    d = {'s': 1, 'v': 2, 'm': 2}[kind]
    L = lambda p, n: leaf(p, n, kind, d)
    for f in UNARY + ['-']:
        O['un' + f] = lambda p, e, f=f: Un(f, e)
    for op in ARITH:
        O['binl' + nm(op)] = lambda p, e, op=op: Bin(op, e, L(p, 'y'))
        O['binr' + nm(op)] = lambda p, e, op=op: Bin(op, L(p, 'y'), e)
        if kind == 's':
            O['binlv' + nm(op)] = lambda p, e, op=op: Bin(op, e, p.v('y', 2))
            O['binrv' + nm(op)] = lambda p, e, op=op: Bin(op, p.v('y', 2), e)
        else:
            O['binls' + nm(op)] = lambda p, e, op=op: Bin(op, e, p.s('y'))
            O['binrs' + nm(op)] = lambda p, e, op=op: Bin(op, p.s('y'), e)
        O['kl' + nm(op)] = lambda p, e, op=op: Bin(op, 3.0, e)
        O['kr' + nm(op)] = lambda p, e, op=op: Bin(op, e, -3.0)
    for n in (-2, -1, 0, 1, 2, 3):
        O['pow%d' % n] = lambda p, e, n=n: pw(n, e)
    O['ift'] = lambda p, e: ifel(p.s('q') < 1.0, e, L(p, 'y'))
    O['ife'] = lambda p, e: ifel(p.s('q') < 1.0, L(p, 'y'), e)
    W = lambda p, n: p.ph(n, kind, d, 2 if kind == 'm' else 1)
    O['seq'] = lambda p, e: Glue(e, L(p, 'y') * L(p, 'z'))

    def via(p, e):
        if isinstance(e, (Leaf, Sub)):
            e = e * 1.0
        w = W(p, 'ww')
        return Glue(let(w, e), w * w)
    O['let'] = via

    def it(p, e):
        return p.eachi('sum', 2, lambda v: v * e, p.v('y', 2))
    O['it'] = it
    if kind == 's':
        O['ifc'] = lambda p, e: ifel(e < 1.0, p.s('y'), p.s('z'))
        O['ifn'] = lambda p, e: ifel(e, p.s('y'), p.s('z'))
        O['cmp'] = lambda p, e: (p.s('y') > e) * p.s('z')
        O['pit'] = lambda p, e: p.eachi('prod', 2, lambda v: v + e, p.v('y', 2))
        for f in ('normal', 'cauchy', 'uniform'):
            for i in range(3):
                def pdf(p, e, f=f, i=i):
                    a = [p.s('y'), p.s('z'), p.s('t')]
                    a[i] = e
                    return Pdf(f, *a, mode='in')
                O['%s%d' % (f, i)] = pdf
        O['bern1'] = lambda p, e: Pdf('bernoulli', p.const('obs', 's', how='c'), e, mode='in')
    if kind == 'v':
        for r in ('sum', 'prod', 'norm'):
            O[r] = lambda p, e, r=r: Red(r, e)
        O['dot'] = lambda p, e: dot(p.m('y', 2, 2), e)
        for f in ('normal', 'cauchy', 'uniform'):
            for i in range(3):
                def pdf(p, e, f=f, i=i):
                    a = [p.v('y', 2), p.s('z'), p.s('t')]
                    a[i] = e
                    return Pdf(f, *a, mode='in')
                O['%s%d' % (f, i)] = pdf
        O['bern1'] = lambda p, e: Pdf('bernoulli', p.const('obs', 'v', 2, how='ceig'), e, mode='in')
    if kind == 'm':
        for r in ('sum', 'prod', 'norm'):
            O[r] = lambda p, e, r=r: Red(r, e)
        O['dotl'] = lambda p, e: dot(e, p.v('y', 2))
        O['dotr'] = lambda p, e: dot(p.m('y', 2, 2), e)
        O['tr'] = lambda p, e: tr(e)
        O['det'] = lambda p, e: Det('det', 'DetFullPivLU', e, 'inv')
        O['logdet'] = lambda p, e: Det('log_det', 'LogDetFullPivLU', e, 'inv')
    return O


ALG = ('un-', 'unexp', 'unlog', 'unsqrt', 'pow-1', 'pow0', 'pow2', 'binadd', 'binsub', 'binmul', 'bindiv', 'klmul', 'kldiv', 'krsub', 'sqmul')
FEWV = {'un-', 'unexp', 'pow2', 'binadd', 'binmul', 'binsxmul', 'binxsdiv', 'if', 'dot', 'head', 'sumit', 'let', 'seq', 'tr'}
FEWU = {'un-', 'pow2', 'binmul', 'dot', 'tr', 'let'}


FEWS = {'un-', 'unexp', 'pow2', 'binadd', 'binsub', 'binmul', 'bindiv', 'klmul', 'krsub', 'if', 'let', 'seq', 'elem', 'sumv', 'normal', 'prodit'}


def sensible(kind, o, i):
    if o in ('it', 'pit') and i in ('let', 'seq'):
        return False        # the same placeholder would be assigned by every term
    if o in ('unasin', 'unacos') and i == 'uncosh':
        return False        # no point of the domain
    if kind == 's' and o[:2] == 'un' and o != 'un-' and i == 'pow0':
        return False        # a number the compiler folds
    return True


def quick_pair(kind, o, i):
    u = o.startswith('un') or o.startswith('pow')
    if kind == 's':
        if u:
            return i[:2] not in ('kl', 'kr', 'sq') or i in ALG
        if o[:4] in ('binl', 'binr') and 'v' in o[4:] or o[:2] in ('kl', 'kr') or o[-1] in '012':
            return i in FEWS
        return i in ALG or i[:2] not in ('un', 'kl', 'kr', 'sq') and i[:3] != 'pow'
    if o in ('det', 'logdet'):
        return i in ('tr', 'un-')
    return i in FEWU if u and o != 'un-' else i in FEWV


def pairs(deep, rng):
    ps = []
    for kind in 'svm':
        I, O = inners(kind), outers(kind)
        for o in O:
            for i in I:
                if not sensible(kind, o, i) or not deep and not quick_pair(kind, o, i):
                    continue
                p = P('pair.%s.%s.%s' % (kind, o, i))
                e = I[i](p)
                p.e = O[o](p, e)
                if o[:2] == 'un' or o[:3] == 'pow' or o == 'tr':
                    p.e = p.e * p.s('out')      # never at the root, where it would have to be a node of its own
                p.hist = ['set', 'diff']
                p.maxpaths = 60
                p.heavy = kind == 'm' and o in ('det', 'logdet')
                ps.append(p)
    return ps


def programs(tier, rng):
    ps = []
    deep = tier == 'thorough'
    for i in range(600 if deep else 160):
        ps.append(rand(i, rng, deep))
    # every interface on every kind of node
    IF = [('bind', 'get', ['set', 'diff']), ('bind', 'lv', ['set', 'eval', 'adj']), ('bind', 'move', ['set', 'diff']), ('bind', 'move', ['set', 'eval', 'adj']), ('tmp', 'std', ['set', 'diff'])]
    for j, k in enumerate(sorted(ZOO)):
        for q in (range(len(IF)) if deep else [j % len(IF), (j + 2) % len(IF)]):
            b, f, h = IF[q]
            p = new('if%d.%s' % (q, k), k)
            p.bind, p.iface, p.hist = b, f, list(h)
            p.subshapes = True
            ps.append(p)
    for j, (b, f, h) in enumerate(IF):
        for k in ('un.sin', 'sum.v', 'prod.v', 'normal.vvv', 'eq.many', 'if.s'):
            p = new('default%d.%s' % (j, k), k)
            p.bind, p.iface, p.hist = b, f, ['set', 'diff', 'diff'] if 'diff' in h else ['set', 'eval', 'adj']
            p.seeds = 'default'
            ps.append(p)
    ps += pairs(deep, rng)
    ps += shapes(deep)
    return ps


MAPS = [{1: 1, 2: 3, 3: 3}, {1: 1, 2: 1, 3: 3}, {1: 1, 2: 3, 3: 1}, {1: 1, 2: 1, 3: 1}, {1: 2, 2: 3, 3: 2}, {1: 1, 2: 4, 3: 3}]


def shapes(deep):
    """catalogue entries at other shapes: 3x3, rows, columns, 1x1, vectors of one element"""
    ps = []
    for j, k in enumerate(growable()):
        if k.startswith('view') or k.endswith(('heads', 'tails')):
            continue
        mat = '.m' in k or k.startswith(('tr', 'dot')) or k.endswith(('.ms', '.sm', '.mm'))
        for q, g in enumerate(MAPS):
            if not deep and not mat and (j + q) % 3:
                continue
            try:
                p = new('shape%d.%s' % (q, k), k, grow=g, maxpaths=60 if deep else 12)
                p.e.cpp()
            except AssertionError:
                continue        # shapes which do not fit together
            p.bind = ('raw', 'bind', 'bind')[(j + q) % 3]
            p.iface = ('std', 'get', 'lv', 'move')[(j + q) % 4] if p.bind == 'bind' else 'std'
            p.hist = ['set', 'diff'] if (j + q) % 2 or any(v.role == 'upd' for v in p.vars) else ['set', 'eval', 'adj']
            p.subshapes = q % 2 == 0
            ps.append(p)
    return ps
