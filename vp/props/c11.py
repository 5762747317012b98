"""C11: forward mode"""
from ..dsl import *
from .common import *

BOUNDS = 'scalar programs of up to 12 straight-line steps over up to 4 inputs (all functions, all ordered pairs of functions, all operators), two successive directions, nested forward variables (second order) for the arithmetic operators'
PRE = 'using namespace ad;\n'
FUN = ['-', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'exp', 'log', 'sqrt', 'erf']


class FW(Prog):
    """straight-line forward-mode program: steps ('let', name, E) | ('set', name, E) | ('add', name, E) | ('addself', name) | ('num+', name, c)"""
    level = 'raw'

    def __init__(self, name, ins, steps, outs, consts=(), twice=True, assume=None, maxpaths=200, init='ctor'):
        self.name, self.maxpaths, self.info, self.pre = name, maxpaths, '', ''
        self.ins, self.steps, self.outs, self.consts, self.twice, self.ass, self.init = ins, steps, outs, consts, twice, assume, init

    def body(self):
        L = ['using namespace ad;']
        k = 0
        o = 0
        runs = 2 if self.twice else 1
        for run in range(runs):
            L.append('{')
            for n in self.consts:
                L.append('ad::ForwardVar<double> %s(vp_in(%d));' % (n, k))
                k += 1
            for q, n in enumerate(self.ins):
                st = self.init if self.init != 'mix' else ('ctor', 'set', 'ref')[q % 3]
                if st == 'ctor':
                    L.append('double v%s_ = vp_in(%d), d%s_ = vp_in(%d); ad::ForwardVar<double> %s(v%s_, d%s_);' % (n, k, n, k + 1, n, n, n))
                elif st == 'set':
                    L.append('ad::ForwardVar<double> %s; %s.set_value(vp_in(%d)); %s.set_adjoint(vp_in(%d));' % (n, n, k, n, k + 1))
                else:
                    L.append('ad::ForwardVar<double> %s(0.25, 4.0); %s.get_value() = vp_in(%d); %s.get_adjoint() = vp_in(%d);' % (n, n, k, n, k + 1))
                k += 2
            for s in self.steps:
                t = s[0]
                if t == 'let':
                    L.append('ad::ForwardVar<double> %s = %s;' % (s[1], s[2].cpp()))
                elif t == 'set':
                    L.append('%s = %s;' % (s[1], s[2].cpp()))
                elif t == 'add':
                    L.append('%s += %s;' % (s[1], s[2].cpp()))
                elif t == 'num':
                    L.append('%s += %r;' % (s[1], float(s[2])))
            for n in self.outs:
                L.append('vp_out(%d, %s.get_value()); vp_out(%d, %s.get_adjoint());' % (o, n, o + 1, n))
                o += 2
            L.append('}')
        return '\n'.join(L)

    def spec(self, inp):
        k = 0
        o = 0
        res = []
        for run in range(2 if self.twice else 1):
            env = {}
            dirs = []
            for n in self.consts:
                env[n] = [inp(k)]
                k += 1
            for n in self.ins:
                env[n] = [inp(k)]
                dirs.append((alg.KEYS[('var', 'x%d' % k)].id, inp(k + 1)))
                k += 2
            if self.ass:
                self.ass(env)
            for s in self.steps:
                if s[0] in ('let', 'set'):
                    env[s[1]] = s[2].ev(env).d
                elif s[0] == 'add':
                    env[s[1]] = [add(env[s[1]][0], s[2].ev(env).d[0])]
                else:
                    env[s[1]] = [add(env[s[1]][0], Fr(s[2]))]
            for n in self.outs:
                v = env[n][0]
                d = Fr(0)
                for a, t in dirs:
                    d = add(d, mul(alg.diff(v, a), t))
                res.append((o, 'value of %s (run %d)' % (n, run), v))
                res.append((o + 1, 'adjoint of %s (run %d)' % (n, run), d))
                o += 2
        return res


def V(n):
    return Leaf(n, 's', 1, 1, 'in')


class FNum(E):
    """ForwardVar built from a number"""
    def __init__(self, x):
        self.x = x
        self.kind, self.r, self.c = 's', 1, 1

    def cpp(self):
        return 'ad::ForwardVar<double>(%r)' % float(self.x)

    def ev(self, env):
        return scal(Fr(self.x))


def F(f, a):
    return Un(f, a)


def programs(tier, rng):
    ps = []
    deep = tier == 'thorough'
    x, y, z, w, u, v, c = map(V, 'xyzwuvc')

    def P_(name, ins, steps, outs, **k):
        ps.append(FW(name, ins, steps, outs, **k))
    for f in FUN:
        for init in ('ctor', 'set', 'ref'):
            P_('un.%s.%s' % (f, init), 'x', [('let', 'w', F(f, x))], 'wx', init=init)
        P_('un.%s.const' % f, 'x', [('let', 'w', F(f, c))], 'wc', consts='c')
        P_('un.%s.again' % f, 'xy', [('let', 'w', F(f, x)), ('let', 'u', F(f, w if f in ('-', 'sin', 'cos', 'atan', 'erf') else y)), ('set', 'w', w * u + F(f, x))], 'wu')
        P_('un.%s.self' % f, 'x', [('let', 'w', F(f, x) * x), ('add', 'w', F(f, x))], 'w')
        P_('un.%s.acc' % f, 'xy', [('let', 'w', x * y), ('add', 'w', F(f, y)), ('add', 'w', w), ('set', 'x', F(f, x))], 'wx', twice=False)
    for op in '+-*/':
        for tag, a, b in (('xy', x, y), ('xx', x, x), ('xc', x, c), ('cx', c, x), ('cc', c, c)):
            P_('bin.%s.%s' % (nm(op), tag), 'xy', [('let', 'w', Bin(op, a, b))], 'wxyc', consts='c', init='mix')
        P_('bin.%s.num' % nm(op), 'x', [('let', 'w', Bin(op, x, FNum(1.5))), ('let', 'u', Bin(op, FNum(-2.5), x))], 'wu')
        P_('bin.%s.assign' % nm(op), 'xy', [('set', 'x', Bin(op, x, y)), ('set', 'y', Bin(op, y, x)), ('let', 'w', Bin(op, x, y))], 'wxy')
        for op2 in '+-*/':
            P_('bin.%s.%s' % (nm(op), nm(op2)), 'xyz', [('let', 'w', Bin(op, x, Bin(op2, y, z))), ('let', 'u', Bin(op2, Bin(op, x, y), z))], 'wu', twice=False)
            P_('bin.%s.%s.same' % (nm(op), nm(op2)), 'xy', [('let', 'w', Bin(op, Bin(op2, x, y), x)), ('let', 'u', Bin(op2, w, Bin(op, w, y)))], 'wu', twice=False)
    for f in FUN:
        for g in FUN:
            if f in ('asin', 'acos') and g in ('exp',) or f == 'tan' and g in ('tan',):
                pass
            P_('comp.%s.%s' % (f, g), 'x', [('let', 'w', F(f, F(g, x)))], 'w', twice=False)
        for op in '+-*/':
            P_('comp.%s.%s' % (f, nm(op)), 'xy', [('let', 'w', F(f, Bin(op, x, y))), ('let', 'u', Bin(op, F(f, x), y)), ('let', 'v', Bin(op, y, F(f, x)))], 'wuv', twice=False)
    # in-place addition
    P_('add.xx', 'x', [('add', 'x', x)], 'x')
    P_('add.xx2', 'x', [('add', 'x', x), ('add', 'x', x), ('add', 'x', x)], 'x')
    P_('add.xy', 'xy', [('add', 'x', y), ('add', 'y', x)], 'xy')
    P_('add.num', 'x', [('num', 'x', 2.5), ('num', 'x', -1.0)], 'x')
    P_('add.expr', 'xy', [('add', 'x', x * y), ('add', 'x', F('sin', x))], 'xy')
    P_('add.chain', 'xy', [('let', 'w', FNum(0)), ('add', 'w', x), ('add', 'w', y), ('add', 'w', x), ('add', 'w', w)], 'wxy')
    P_('add.const', 'x', [('add', 'x', c), ('add', 'c', x)], 'xc', consts='c')
    P_('assign.num', 'xy', [('set', 'x', FNum(3)), ('let', 'w', x * y)], 'wxy')
    P_('assign.copy', 'xy', [('let', 'w', x), ('set', 'x', x * y), ('set', 'y', w)], 'wxy')
    P_('assign.self', 'x', [('set', 'x', x), ('let', 'w', x)], 'wx')
    # loops: polynomial, power, accumulate
    st = [('let', 'w', FNum(1))]
    for i in range(4):
        st.append(('set', 'w', w * x))
    P_('loop.pow', 'x', st, 'w')
    st = [('let', 'w', FNum(0))]
    for i in range(4):
        st += [('set', 'w', w * x), ('num', 'w', i + 1)]
    P_('loop.horner', 'x', st, 'w')
    st = [('let', 'w', FNum(0)), ('let', 'u', x)]
    for i in range(3):
        st += [('add', 'w', u * y), ('set', 'u', u * F('sin', u))]
    P_('loop.acc', 'xy', st, 'wu', twice=False)
    P_('readme', 'xy', [('let', 'w', F('sin', x) + F('cos', y))], 'w')
    P_('mix4', 'xyzw', [('let', 'u', F('sin', x * y) + F('cos', F('exp', y) * z) - F('log', w * w) * z), ('let', 'v', u / (F('sqrt', w) + x * x * u))], 'uv', twice=False, maxpaths=40)
    # linearity in the direction: one point, two directions and their combination
    for nm_, e in (('sin', 'sin(x * y) + x'), ('div', 'x / y - y * y'), ('erf', 'erf(x) * y'), ('neg', '-(x * y) + exp(x - y)')):
        ps.append(lin(nm_, e))
    ps.append(nested('poly', 'x * y * x + y - x * x', lambda a, b: sub(add(mul(mul(a, b), a), b), mul(a, a))))
    ps.append(nested('quot', 'x / y', alg.div))
    ps.append(nested('negquot', '(x - y) / (x * y)', lambda a, b: alg.div(sub(a, b), mul(a, b))))
    ps.append(nested('acc', 'acc', lambda a, b: add(mul(a, b), mul(mul(a, b), a)), 'auto acc = x * y; acc += acc * x;'))
    # random straight-line programs
    for i in range(60 if deep else 12):
        ps.append(rnd(i, rng, deep))
    return ps


def lin(name, e):
    body = '''using namespace ad;
double a = vp_in(0), b = vp_in(1), al = vp_in(2), be = vp_in(3);
auto f = [&](double dx, double dy) { ad::ForwardVar<double> x(a, dx), y(b, dy); ad::ForwardVar<double> r = %s; return r.get_adjoint(); };
double d1 = f(vp_in(4), vp_in(5)), d2 = f(vp_in(6), vp_in(7));
double d3 = f(al * vp_in(4) + be * vp_in(6), al * vp_in(5) + be * vp_in(7));
vp_out(0, d3 - (al * d1 + be * d2)); vp_out(1, f(0, 0));''' % e

    def spec(inp):
        if '/ y' in e:
            assume(inp(1), '!=')
        return [(0, 'linearity in the direction', Fr(0)), (1, 'derivative in the zero direction', Fr(0))]
    return Prog('linear.' + name, body, spec)


def nested(name, e, f, pre=''):
    """second directional derivatives with forward variables over forward variables"""
    body = '''using namespace ad;
typedef ad::ForwardVar<double> D; typedef ad::ForwardVar<D> DD;
DD x(D(vp_in(0), vp_in(1)), D(vp_in(2), vp_in(3))), y(D(vp_in(4), vp_in(5)), D(vp_in(6), vp_in(7)));
%s DD r = %s;
vp_out(0, r.get_value().get_value()); vp_out(1, r.get_value().get_adjoint()); vp_out(2, r.get_adjoint().get_value()); vp_out(3, r.get_adjoint().get_adjoint());''' % (pre, e)

    def spec(inp):
        a, b = inp(0), inp(4)
        ka, kb = (alg.KEYS[('var', 'x%d' % k)].id for k in (0, 4))
        if '/' in e:
            assume(b, '!=')
            if '(x * y)' in e:
                assume(a, '!=')
        t = f(a, b)
        fa, fb = alg.diff(t, ka), alg.diff(t, kb)
        d1 = add(mul(fa, inp(1)), mul(fb, inp(5)))
        d2 = add(mul(fa, inp(2)), mul(fb, inp(6)))
        # total: second-order mixed plus first order of the mixed seed
        dd = add(mul(fa, inp(3)), mul(fb, inp(7)))
        for p, dp in ((ka, inp(1)), (kb, inp(5))):
            for q, dq in ((ka, inp(2)), (kb, inp(6))):
                dd = add(dd, mul(mul(alg.diff(alg.diff(t, p), q), dp), dq))
        return [(0, 'value', t), (1, 'derivative, first direction', d1), (2, 'derivative, second direction', d2), (3, 'mixed derivative', dd)]
    return Prog('nested.' + name, body, spec)


def rnd(i, rng, deep):
    names = ['x', 'y', 'z']
    defd = list(names)
    steps = []
    depth = {n: 0 for n in names}

    def lf(md):
        c = [n for n in defd if depth[n] <= md]
        return rng.choice(c)
    for k in range(rng.randint(4, 8 if deep else 6)):
        t = rng.random()
        if t < .35:
            f = rng.choice(['-', 'sin', 'cos', 'atan', 'exp', 'erf', 'sin'])
            a = lf(1)
            e, d = F(f, V(a)), depth[a] + (f != '-')
        elif t < .6:
            f = rng.choice(['log', 'sqrt', 'asin', 'tan', 'acos'])
            a = lf(0)
            e, d = F(f, V(a)), depth[a] + 1
        else:
            op = rng.choice('++--***/')
            a, b = lf(2), lf(2 if op != '/' else 0)
            e, d = Bin(op, V(a), V(b)), max(depth[a], depth[b])
        r = rng.random()
        if r < .45 or len(defd) == 3:
            n = 't%d' % k
            steps.append(('let', n, e))
            defd.append(n)
            depth[n] = d
        else:
            n = rng.choice(defd)
            if r < .7:
                steps.append(('add', n, e))
                depth[n] = max(depth[n], d)
            else:
                steps.append(('set', n, e))
                depth[n] = d
    return FW('rnd.%d' % i, names, steps, defd, twice=False, maxpaths=40, init='mix')
