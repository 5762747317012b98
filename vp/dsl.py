"""Program builder: one abstract syntax tree gives both the C++ program (public
FastAD API, compiled and executed symbolically) and its mathematical meaning
(exact symbolic values), from which the expected outputs are derived."""
import re
from fractions import Fraction as Fr
from . import alg
from .alg import RF, INF, NAN


def assume(t, rel):
    alg.CTX.assume_sign(t, rel)


def decide(t, rel):
    if type(t) is float:
        return {'<': t < 0, '<=': t <= 0, '>': t > 0, '>=': t >= 0, '==': t == 0, '!=': t != 0}[rel]
    return alg.CTX.decide(t, rel)


def add(a, b):
    if type(a) is float or type(b) is float:
        if type(a) is float and type(b) is float:
            return a + b
        return a if type(a) is float else b
    return alg.add(a, b)


def neg(a):
    return -a if type(a) is float else alg.neg(a)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if type(a) is float or type(b) is float:
        if type(b) is not float:
            a, b = b, a
        if type(a) is float:
            return a * b
        s = alg.CTX.sign(a)
        return NAN if s == 0 else (b if s > 0 else -b)
    return alg.mul(a, b)


def div(a, b):
    assume(b, '!=')
    return alg.div(a, b)


class NegInf(float):
    """-inf whose gradient is that of another term"""
    def __new__(cls, g):
        o = float.__new__(cls, -INF)
        o.grad = g
        return o


class Arr:
    """s: scalar, v: column vector, m: matrix; data column major"""
    __slots__ = ('kind', 'r', 'c', 'd')

    def __init__(self, kind, r, c, d):
        self.kind, self.r, self.c, self.d = kind, r, c, list(d)

    def map(self, f):
        return Arr(self.kind, self.r, self.c, [f(x) for x in self.d])

    def at(self, i, j):
        return self.d[i + j * self.r]


def scal(x):
    return Arr('s', 1, 1, [x])


def det_of(a, n):
    """Leibniz/Laplace determinant of a function a(i,j)"""
    def rec(rows, cols):
        if not rows:
            return Fr(1)
        r0 = rows[0]
        t = Fr(0)
        for q, c in enumerate(cols):
            m = mul(a(r0, c), rec(rows[1:], cols[:q] + cols[q + 1:]))
            t = add(t, m if q % 2 == 0 else neg(m))
        return t
    return rec(tuple(range(n)), tuple(range(n)))


def adjugate(a, n):
    """adj[i][j] = cofactor(j, i)"""
    out = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            rows = [r for r in range(n) if r != j]
            cols = [c for c in range(n) if c != i]
            m = det_of(lambda p, q: a(rows[p], cols[q]), n - 1)
            out[i][j] = m if (i + j) % 2 == 0 else neg(m)
    return out


# ------------------------------------------------------------------ expressions
class E:
    isconst = False

    def __add__(self, o): return Bin('+', self, o)
    def __radd__(self, o): return Bin('+', o, self)
    def __sub__(self, o): return Bin('-', self, o)
    def __rsub__(self, o): return Bin('-', o, self)
    def __mul__(self, o): return Bin('*', self, o)
    def __rmul__(self, o): return Bin('*', o, self)
    def __truediv__(self, o): return Bin('/', self, o)
    def __rtruediv__(self, o): return Bin('/', o, self)
    def __neg__(self): return Un('-', self)
    def __lt__(self, o): return Bin('<', self, o)
    def __le__(self, o): return Bin('<=', self, o)
    def __gt__(self, o): return Bin('>', self, o)
    def __ge__(self, o): return Bin('>=', self, o)
    def eq(self, o): return Bin('==', self, o)
    def ne(self, o): return Bin('!=', self, o)
    def land(self, o): return Bin('&&', self, o)
    def lor(self, o): return Bin('||', self, o)

    def dims(self):
        return (self.kind, self.r, self.c)


def wrap(x):
    if isinstance(x, E):
        return x
    return Num(x)


class Num(E):
    """a literal number"""
    isconst = True

    def __init__(self, x):
        self.x = x
        self.kind, self.r, self.c = 's', 1, 1

    def cpp(self):
        if isinstance(self.x, int):
            return str(self.x) if self.x >= 0 else '(%d)' % self.x
        return '(%r)' % float(self.x)

    def ev(self, env):
        return scal(Fr(self.x))


class Leaf(E):
    """a variable (input, placeholder, or in-place updated)"""

    def __init__(self, name, kind, r, c, role, sym=False):
        self.name, self.kind, self.r, self.c, self.role, self.sym = name, kind, r, c, role, sym

    def cpp(self):
        return self.name

    def ev(self, env):
        return Arr(self.kind, self.r, self.c, env[self.name])

    def idx(self):
        return self.name, list(range(self.r * self.c))

    def __getitem__(self, i):
        return Sub(self, 's', i, 1, '%s[%s]' % (self.name, i))

    def head(self, n):
        return Sub(self, 'v', 0, n, '%s.head(%d)' % (self.name, n))

    def tail(self, n):
        return Sub(self, 'v', self.r - n, n, '%s.tail(%d)' % (self.name, n))


class Sub(E):
    def __init__(self, base, kind, off, n, text):
        self.base, self.kind, self.off, self.text = base, kind, off, text
        self.r, self.c = n, 1
        self.role = base.role

    def cpp(self):
        return self.text

    def ev(self, env):
        return Arr(self.kind, self.r, 1, env[self.base.name][self.off:self.off + self.r])

    def idx(self):
        return self.base.name, list(range(self.off, self.off + self.r))


class ItElem(E):
    """the element the lambda of sum/prod/for_each works on: x[i_]"""

    def __init__(self, base):
        self.base = base
        self.kind, self.r, self.c = 's', 1, 1
        self.i = None
        self.role = base.role

    def cpp(self):
        return '%s[i_]' % self.base.cpp()

    def pos(self, i):
        return self.base.off + i if isinstance(self.base, Sub) else i

    def name_(self):
        return self.base.base.name if isinstance(self.base, Sub) else self.base.name

    def ev(self, env):
        return scal(env[self.name_()][self.pos(env['#i'])])

    def idx(self):
        return self.name_(), [self.pos]


class ItHead(E):
    """a view whose length depends on the index: x.head(i_ + 1) or x.tail(i_ + 1)"""

    def __init__(self, base, end='head'):
        self.base, self.end = base, end
        self.kind, self.r, self.c = 'v', base.r, 1
        self.role = base.role

    def cpp(self):
        return '%s.%s(i_ + 1)' % (self.base.cpp(), self.end)

    def ev(self, env):
        k = env['#i'] + 1
        d = env[self.base.name]
        return Arr('v', k, 1, d[:k] if self.end == 'head' else d[len(d) - k:])


class Const(E):
    """constant of a given flavour; its numbers are program inputs"""
    isconst = True

    def __init__(self, name, kind, r, c, how, text):
        self.name, self.kind, self.r, self.c, self.how, self.text = name, kind, r, c, how, text

    def cpp(self):
        return self.text

    def ev(self, env):
        return Arr(self.kind, self.r, self.c, env[self.name])


# flavours with whole numbers
INTS = {'csize': 'size_t', 'cfloat': 'float', 'int': 'int', 'cint': 'int', 'bool': 'bool', 'cbool': 'bool', 'size': 'size_t', 'inteig': '', 'cinteig': '', 'intview': '', 'float': 'float'}


def retype(text, T):
    """the program text over another value type"""
    if T == 'double':
        return text
    text = re.sub(r'\bdouble\b', T, text)
    text = re.sub(r'\b(VectorX|MatrixX|ArrayX|ArrayXX)d\b', r'\1f', text)
    return re.sub(r'(?<![\w.])(\d+\.\d+)(?![\w.])', r'\1f', text)


def as_type(p, T):
    p.name, p.T = T + '.' + p.name, T
    body = p.body
    p.body = lambda: retype(body(), T)
    p.pre = retype(p.pre, T)
    return p


def retext(k):
    n = k.name
    if k.how in ('view', 'intview'):
        return 'ad::constant_view(%s.data(), %d)' % (n, k.r) if k.kind == 'v' else 'ad::constant_view(%s.data(), %d, %d)' % (n, k.r, k.c)
    how = k.how
    if how in ('expr', 'cexpr'):        # an Eigen expression
        n = '(1.0 * %s)' % n
    elif how in ('col', 'ccol'):        # part of a larger matrix
        n = '%s.col(1)' % n if k.kind == 'v' else '%s.block(1, 0, %d, %d)' % (n, k.r, k.c)
    elif how == 'ctr':
        n = '%s.transpose()' % n
    elif how == 'ccget':
        n += '_c'
    return 'ad::constant(%s)' % n if how[0] == 'c' and how != 'col' else n


def decl(k):
    """declaration of the object a vector or matrix constant is made from, and where its element (i, j) is"""
    n, r, c = k.name, k.r, k.c
    if k.how in ('col', 'ccol'):
        return ('Eigen::MatrixXd %s(%d, 3);' % (n, r), lambda i, j: '%s(%d, 1)' % (n, i)) if k.kind == 'v' else \
            ('Eigen::MatrixXd %s(%d, %d);' % (n, r + 2, c + 1), lambda i, j: '%s(%d, %d)' % (n, i + 1, j))
    if k.how == 'ctr':
        return 'Eigen::MatrixXd %s(%d, %d);' % (n, c, r), lambda i, j: '%s(%d, %d)' % (n, j, i)
    at = lambda i, j: '%s(%d, %d)' % (n, i, j)
    if k.how == 'cfix':
        return 'Eigen::Matrix<double, %d, %d> %s;' % (r, c, n), at
    dims = r if k.kind == 'v' else '%d, %d' % (r, c)
    if k.how in ('map', 'cmap'):        # memory elsewhere
        return 'Eigen::{0}Xd {1}_b({2}); Eigen::Map<Eigen::{0}Xd> {1}({1}_b.data(), {2});'.format('Vector' if k.kind == 'v' else 'Matrix', n, dims), at
    if k.how == 'cget':                 # the values of a variable
        return 'ad::Var<double, ad::%s> %s_v(%s); auto& %s = %s_v.get();' % ('vec' if k.kind == 'v' else 'mat', n, dims, n, n), at
    if k.how == 'ccget':
        return 'ad::Var<double, ad::{0}> {1}_v({2}); const auto& {1}_c = {1}_v.get(); auto& {1} = {1}_v.get();'.format('vec' if k.kind == 'v' else 'mat', n, dims), at
    if k.how in ('arr', 'carr'):
        return 'Eigen::Array%sd %s(%s);' % (('X', n, r) if k.kind == 'v' else ('XX', n, '%d, %d' % (r, c))), at
    return 'Eigen::%sX%s %s(%s);' % ('Vector' if k.kind == 'v' else 'Matrix', 'i' if k.how in INTS else 'd', n, r if k.kind == 'v' else '%d, %d' % (r, c)), at


def whole(x, values):
    for v in values[:-1]:
        if decide(sub(x, Fr(v)), '=='):
            return Fr(v)
    assume(sub(x, Fr(values[-1])), '==')
    return Fr(values[-1])


class ItConst(E):
    """constant made from the element (or column) of a constant's source inside a range lambda"""
    isconst = True

    def __init__(self, base):
        self.base = base
        self.kind, self.r, self.c = ('s', 1, 1) if base.kind == 'v' else ('v', base.r, 1)

    def cpp(self):
        if self.kind == 's':
            return 'ad::constant(%s(i_))' % self.base.name
        return 'ad::constant(Eigen::VectorXd(%s.col(i_)))' % self.base.name

    def ev(self, env):
        i, d = env['#i'], env[self.base.name]
        if self.kind == 's':
            return scal(d[i])
        return Arr('v', self.r, 1, d[i * self.r:(i + 1) * self.r])


def f_sigmoid(t):
    return alg.div(Fr(1), alg.add(Fr(1), alg.f_exp(alg.neg(t))))


def d_log(t):
    assume(t, '>')
    return alg.f_log(t)


def d_sqrt(t):
    assume(t, '>')
    return alg.f_sqrt(t)


def d_tan(t):
    assume(alg.f_cos(t), '!=')
    return alg.f_tan(t)


def d_asin(t):
    assume(alg.sub(Fr(1), t), '>')
    assume(alg.add(Fr(1), t), '>')
    return alg.f_asin(t)


def d_acos(t):
    d_asin(t)
    return alg.f_acos(t)


UN = {'-': alg.neg, 'sin': alg.f_sin, 'cos': alg.f_cos, 'tan': d_tan, 'asin': d_asin, 'acos': d_acos, 'atan': alg.f_atan,
      'exp': alg.f_exp, 'log': d_log, 'sqrt': d_sqrt, 'erf': alg.f_erf, 'sigmoid': f_sigmoid,
      'sinh': alg.f_sinh, 'cosh': alg.f_cosh, 'tanh': alg.f_tanh}
UNARY = [k for k in UN if k != '-']


class Un(E):
    def __init__(self, f, a):
        self.f, self.a = f, wrap(a)
        self.kind, self.r, self.c = self.a.dims()
        self.isconst = self.a.isconst

    def cpp(self):
        if self.f == '-':
            return '(-%s)' % self.a.cpp()
        return 'ad::%s(%s)' % (self.f, self.a.cpp())

    def ev(self, env):
        return self.a.ev(env).map(UN[self.f])


def _cmp(rel):
    return lambda a, b: Fr(1) if decide(sub(a, b), rel) else Fr(0)


BIN = {'+': add, '-': sub, '*': mul, '/': div,
       '<': _cmp('<'), '<=': _cmp('<='), '>': _cmp('>'), '>=': _cmp('>='), '==': _cmp('=='), '!=': _cmp('!='),
       '&&': lambda a, b: Fr(1) if decide(a, '!=') and decide(b, '!=') else Fr(0),
       '||': lambda a, b: Fr(1) if decide(a, '!=') or decide(b, '!=') else Fr(0)}
ARITH = ['+', '-', '*', '/']
COMP = ['<', '<=', '>', '>=', '==', '!=']


class Bin(E):
    def __init__(self, op, a, b):
        self.op, self.a, self.b = op, wrap(a), wrap(b)
        big = self.b if self.a.kind == 's' else self.a
        self.kind, self.r, self.c = big.dims()
        self.isconst = self.a.isconst and self.b.isconst

    def cpp(self):
        return '(%s %s %s)' % (self.a.cpp(), self.op, self.b.cpp())

    def ev(self, env):
        a, b = self.a.ev(env), self.b.ev(env)
        f = BIN[self.op]
        if a.kind == 's' and b.kind != 's':
            return b.map(lambda y: f(a.d[0], y))
        if b.kind == 's' and a.kind != 's':
            return a.map(lambda x: f(x, b.d[0]))
        return Arr(a.kind, a.r, a.c, [f(x, y) for x, y in zip(a.d, b.d)])


class Pow(E):
    def __init__(self, n, a):
        self.n, self.a = n, wrap(a)
        self.kind, self.r, self.c = self.a.dims()
        self.isconst = self.a.isconst

    def cpp(self):
        return 'ad::pow<%d>(%s)' % (self.n, self.a.cpp())

    def ev(self, env):
        def f(t):
            if self.n < 0:
                assume(t, '!=')
            return alg.powi(t, self.n)
        return self.a.ev(env).map(f)


class Red(E):
    """sum / prod / norm of the elements"""

    def __init__(self, f, a):
        self.f, self.a = f, wrap(a)
        self.kind, self.r, self.c = 's', 1, 1
        self.isconst = self.a.isconst

    def cpp(self):
        return 'ad::%s(%s)' % (self.f, self.a.cpp())

    def ev(self, env):
        a = self.a.ev(env)
        t = Fr(1) if self.f == 'prod' else Fr(0)
        for x in a.d:
            t = mul(t, x) if self.f == 'prod' else add(t, mul(x, x) if self.f == 'norm' else x)
        return scal(t)


class Iter(E):
    """sum / prod / for_each over a range of indices (element lambda)"""

    def __init__(self, f, n, body):
        self.f, self.n = f, n
        self.body = body
        self.kind, self.r, self.c = body.dims()
        self.isconst = body.isconst and f != 'for_each'

    def cpp(self):
        return 'ad::%s(it%d.begin(), it%d.end(), [&](size_t i_) { return %s; })' % (self.f, self.n, self.n, self.body.cpp())

    def ev(self, env):
        if self.f == 'for_each':
            r = None
            for i in range(self.n):
                env['#i'] = i
                r = self.body.ev(env)
            return r
        k = self.body.r * self.body.c
        t = [Fr(1) if self.f == 'prod' else Fr(0)] * k
        for i in range(self.n):
            env['#i'] = i
            a = self.body.ev(env)
            t = [mul(x, y) if self.f == 'prod' else add(x, y) for x, y in zip(t, a.d)]
        return Arr(self.kind, self.r, self.c, t)


class VarsIter(E):
    """sum/prod over a std::vector of variables xs_ = {a, b, ...}; lambda over its element"""

    def __init__(self, f, leaves, mkbody):
        self.f, self.leaves = f, leaves
        self.bodies = [mkbody(l) for l in leaves]
        self.proxy = Leaf('v_', leaves[0].kind, leaves[0].r, leaves[0].c, 'in')
        self.text = mkbody(self.proxy).cpp()
        self.kind, self.r, self.c = self.bodies[0].dims()

    def cpp(self):
        l = self.leaves[0]
        S = {'s': 'scl', 'v': 'vec', 'm': 'mat'}[l.kind]
        return '[&]() { std::vector<ad::VarView<double, ad::%s>> vs_{%s}; return ad::%s(vs_.begin(), vs_.end(), [&](const auto& v_) { return %s; }); }()' % (
            S, ', '.join(x.name for x in self.leaves), self.f, self.text)

    def ev(self, env):
        k = self.r * self.c
        t = [Fr(1) if self.f == 'prod' else Fr(0)] * k
        a = None
        for b in self.bodies:
            a = b.ev(env)
            t = [mul(x, y) if self.f == 'prod' else add(x, y) for x, y in zip(t, a.d)]
        if self.f == 'for_each':
            return a
        return Arr(self.kind, self.r, self.c, t)


class Dot(E):
    def __init__(self, a, b):
        self.a, self.b = wrap(a), wrap(b)
        self.kind = 'v' if self.b.kind == 'v' else 'm'
        self.r, self.c = self.a.r, self.b.c
        self.isconst = self.a.isconst and self.b.isconst

    def cpp(self):
        return 'ad::dot(%s, %s)' % (self.a.cpp(), self.b.cpp())

    def ev(self, env):
        a, b = self.a.ev(env), self.b.ev(env)
        d = []
        for j in range(b.c):
            for i in range(a.r):
                t = Fr(0)
                for k in range(a.c):
                    t = add(t, mul(a.at(i, k), b.at(k, j)))
                d.append(t)
        return Arr(self.kind, self.r, self.c, d)


class Tr(E):
    def __init__(self, a):
        self.a = wrap(a)
        self.kind, self.r, self.c = 'm', self.a.c, self.a.r
        self.isconst = self.a.isconst

    def cpp(self):
        return 'ad::transpose(%s)' % self.a.cpp()

    def ev(self, env):
        a = self.a.ev(env)
        return Arr('m', self.r, self.c, [a.at(j, i) for j in range(self.c) for i in range(self.r)])


def bound_entries(a, B=10):
    for x in a.d:
        if type(x) is RF:
            assume(alg.sub(Fr(B), x), '>=')
            assume(alg.add(Fr(B), x), '>=')


class Det(E):
    """domain: 'inv' |det| >= eps, 'ldlt' minors >= eps (|entry| <= B); 'pd' positive definite"""
    B, eps = 10, Fr(1, 1000)

    def __init__(self, f, decomp, a, dom='inv'):
        self.f, self.decomp, self.a, self.dom = f, decomp, wrap(a), dom
        self.kind, self.r, self.c = 's', 1, 1
        self.isconst = self.a.isconst

    def cpp(self):
        return 'ad::%s<ad::%s>(%s)' % (self.f, self.decomp, self.a.cpp())

    def ev(self, env):
        a = self.a.ev(env)
        d = det_of(a.at, a.r)
        if self.dom == 'pd':
            for k in range(1, a.r):
                assume(det_of(a.at, k), '>')
            assume(d, '>')
        elif self.dom == 'ldlt':
            # definite, bounded away from singularity
            bound_entries(a, self.B)
            s = decide(a.at(0, 0), '>')
            for k in range(1, a.r + 1):
                m = det_of(a.at, k)
                if not s and k % 2:
                    m = neg(m)
                assume(sub(m, self.eps), '>=')
        else:
            bound_entries(a, self.B)
            if decide(d, '>'):
                assume(sub(d, self.eps), '>=')
            else:
                assume(add(d, self.eps), '<=')
        if self.f == 'log_det':
            return scal(alg.log_abs(d))
        return scal(d)


class IfElse(E):
    def __init__(self, c, a, b):
        self.cnd, self.a, self.b = wrap(c), wrap(a), wrap(b)
        self.kind, self.r, self.c = self.a.dims()

    def cpp(self):
        return 'ad::if_else(%s, %s, %s)' % (self.cnd.cpp(), self.a.cpp(), self.b.cpp())

    def ev(self, env):
        c = self.cnd.ev(env).d[0]
        return self.a.ev(env) if decide(c, '!=') else self.b.ev(env)


class Assign(E):
    """w = e, w op= e"""

    def __init__(self, w, op, e):
        self.w, self.op, self.e = w, op, wrap(e)
        self.kind, self.r, self.c = w.dims()

    def cpp(self):
        return '(%s %s %s)' % (self.w.cpp(), self.op, self.e.cpp())

    def ev(self, env):
        e = self.e.ev(env)
        n = self.r * self.c
        rhs = e.d * n if e.kind == 's' and self.kind != 's' else e.d
        name, ix = self.w.idx()
        ix = [i(env['#i']) if callable(i) else i for i in ix]
        cur = list(env[name])
        for k, i in enumerate(ix):
            if self.op == '=':
                cur[i] = rhs[k]
            else:
                cur[i] = BIN[self.op[0]](cur[i], rhs[k])
        env[name] = cur
        return Arr(self.kind, self.r, self.c, [cur[i] for i in ix])


class Glue(E):
    def __init__(self, *es):
        self.es = [wrap(e) for e in es]
        self.kind, self.r, self.c = self.es[-1].dims()

    def cpp(self):
        t = self.es[0].cpp()
        for e in self.es[1:]:
            t = '(%s, %s)' % (t, e.cpp())
        return t

    def ev(self, env):
        for e in self.es:
            r = e.ev(env)
        return r


# ------------------------------------------------------------------ log densities
def bc(a, n):
    return a.d * n if a.kind == 's' else a.d


class Pdf(E):
    """mode: 'in' assume inside the support; 'any' decide (value -inf outside)"""

    def __init__(self, f, *args, **kw):
        self.f = f
        self.args = [wrap(a) for a in args]
        self.mode = kw.get('mode', 'any')
        self.kind, self.r, self.c = 's', 1, 1

    def cpp(self):
        return 'ad::%s_adj_log_pdf(%s)' % (self.f, ', '.join(a.cpp() for a in self.args))

    def out(self, t, rel):
        """True when t violates 't rel 0'"""
        if self.mode == 'in':
            assume(t, rel)
            return False
        return not decide(t, rel)

    def ev(self, env):
        A = [a.ev(env) for a in self.args]
        return scal(getattr(self, 'ev_' + self.f)(*A))

    def ev_normal(self, x, m, s):
        n = max(a.r for a in (x, m, s))
        X, M = bc(x, n), bc(m, n)
        z = [sub(p, q) for p, q in zip(X, M)]
        if s.kind != 'm':
            bad = False
            for t in s.d:
                if self.out(t, '>'):
                    bad = True
                    break
            if bad:
                return -INF
            S = bc(s, n)
            t = Fr(0)
            for p, q in zip(z, S):
                r = alg.div(p, q)
                t = sub(t, mul(Fr(1, 2), mul(r, r)))
                t = sub(t, alg.f_log(q))
            return t
        for k in range(1, n + 1):
            if self.out(det_of(s.at, k), '>'):
                return -INF
        d = det_of(s.at, n)
        ad = adjugate(s.at, n)
        q = Fr(0)
        for i in range(n):
            for j in range(n):
                q = add(q, mul(mul(z[i], ad[i][j]), z[j]))
        return sub(mul(Fr(-1, 2), alg.div(q, d)), mul(Fr(1, 2), alg.log_abs(d)))

    def ev_cauchy(self, x, m, s):
        n = max(a.r for a in (x, m, s))
        X, M = bc(x, n), bc(m, n)
        for t in s.d:
            if self.out(t, '>'):
                return -INF
        S = bc(s, n)
        t = Fr(0)
        for p, q, g in zip(X, M, S):
            z = sub(p, q)
            # -log(g (1 + z^2/g^2)) = log g - log(g^2 + z^2)
            t = add(t, sub(alg.f_log(g), alg.log_abs(add(mul(g, g), mul(z, z)))))
        return t

    def ev_uniform(self, x, lo, hi):
        n = max(a.r for a in (x, lo, hi))
        X, L, H = bc(x, n), bc(lo, n), bc(hi, n)
        for p, a, b in zip(X, L, H):
            if self.out(sub(p, a), '>') or self.out(sub(b, p), '>'):
                return -INF
        t = Fr(0)
        for a, b in zip(L, H):
            t = sub(t, alg.log_abs(sub(b, a)))
        return t

    def ev_bernoulli(self, x, p):
        n = max(x.r, p.r)
        X, P = bc(x, n), bc(p, n)
        t = Fr(0)
        inf = False
        for k in range(n):
            u, q = X[k], P[k]
            one = decide(sub(u, Fr(1)), '==')
            if not one and self.out(u, '=='):
                return -INF
            if self.mode == 'in':
                assume(q, '>')
                assume(sub(Fr(1), q), '>')
            # clip
            if not decide(q, '>'):
                c = 0
            elif not decide(sub(Fr(1), q), '>'):
                c = 1
            else:
                c = None
            if c is None:
                t = add(t, alg.f_log(q if one else sub(Fr(1), q)))
            elif (c == 1) != one:
                inf = True
        # an impossible observation at a clipped probability: the value is -inf; that element adds no
        # gradient, the other elements (probability strictly between 0 and 1) add theirs
        return NegInf(t) if inf else t

    def ev_wishart(self, x, v, n):
        p = x.r
        n = n.d[0]
        for a in (x, v):
            for k in range(1, p + 1):
                if self.out(det_of(a.at, k), '>'):
                    return -INF
        if self.out(sub(sub(n, Fr(p)), Fr(-1)), '>'):
            return -INF
        dx, dv = det_of(x.at, p), det_of(v.at, p)
        av = adjugate(v.at, p)
        tr = Fr(0)
        for i in range(p):
            for j in range(p):
                tr = add(tr, mul(av[i][j], x.at(j, i)))
        t = mul(mul(Fr(1, 2), sub(n, Fr(p + 1))), alg.log_abs(dx))
        t = sub(t, mul(Fr(1, 2), alg.div(tr, dv)))
        return sub(t, mul(mul(Fr(1, 2), n), alg.log_abs(dv)))


# short names
def fn(name):
    return lambda a: Un(name, a)


sin, cos, tan, asin, acos, atan, exp, log, sqrt, erf, sigmoid = map(fn, ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'exp', 'log', 'sqrt', 'erf', 'sigmoid'))
def pw(n, a): return Pow(n, a)
def summ(a): return Red('sum', a)
def prod(a): return Red('prod', a)
def norm(a): return Red('norm', a)
def dot(a, b): return Dot(a, b)
def tr(a): return Tr(a)
def ifel(c, a, b): return IfElse(c, a, b)
def let(w, e): return Assign(w, '=', e)


# ------------------------------------------------------------------ programs
SHAPE = {'s': 'scl', 'v': 'vec', 'm': 'mat'}
GARB = 10000


class Prog:
    """a C++ body and a function computing the expected outputs"""
    level = 'raw'

    def __init__(self, name, cpp, spec, pre='', maxpaths=200, info=''):
        self.name, self._cpp, self._spec, self.pre, self.maxpaths, self.info = name, cpp, spec, pre, maxpaths, info

    def body(self):
        return self._cpp

    def spec(self, inp):
        return self._spec(inp)


class P(Prog):
    def __init__(self, name, maxpaths=200, info=''):
        self.name, self.maxpaths, self.info = name, maxpaths, info
        self.pre = ''
        self.vars = []
        self.consts = []
        self.e = None
        self.bind = 'raw'
        self.hist = ['set', 'eval', 'adj', 'set', 'eval', 'adj']
        self.assume = None
        self.assume_k = None
        self.nocheckval = False
        self.garbage = True
        self.seeds = None
        self._built = None
        self.iters = set()
        self.adj0 = True
        self.e2 = None
        self.iface = 'std'      # how evaluation is requested: std, get, lv, move, tmp
        self.subshapes = False
        self.grow = {}          # dimension -> larger dimension, applied to every declaration
        self.fix = None         # (leaf, i, j, times set before) -> number, or None to leave that element symbolic
        self.T = 'double'       # value type of variables and constants
        self.fixmap = {}        # input -> its fixed number

    # ---- declarations
    def var(self, name, kind='s', r=1, c=1, sym=False, role='in'):
        r, c = self.grow.get(r, r), self.grow.get(c, c)
        if kind == 's':
            r = c = 1
        if kind == 'v':
            c = 1
        l = Leaf(name, kind, r, c, role, sym)
        self.vars.append(l)
        return l

    def s(self, name): return self.var(name)
    def v(self, name, n): return self.var(name, 'v', n)
    def m(self, name, r, c=None): return self.var(name, 'm', r, r if c is None else c)
    def spd(self, name, n): return self.var(name, 'm', n, n, sym=True)
    def ph(self, name, kind='s', r=1, c=1): return self.var(name, kind, r, c, role='ph')
    def upd(self, name, kind='s', r=1, c=1): return self.var(name, kind, r, c, role='upd')

    def const(self, name, kind='s', r=1, c=1, how='num', sym=False, values=None):
        r, c = self.grow.get(r, r), self.grow.get(c, c)
        if kind == 's':
            r = c = 1
        if kind == 'v':
            c = 1
        k = Const(name, kind, r, c, how, None)
        k.text = retext(k)
        k.values = values or ((0, 1) if how in ('bool', 'cbool') else (-2.25, 0.5, 1) if how in ('float', 'cfloat') else (-1, 0, 2) if how in INTS and 'size' not in how else (0, 1, 2) if how in INTS else None)
        k.sym = sym
        self.consts.append(k)
        return k

    def each(self, f, x, mk, n=None):
        """sum/prod/for_each over the elements of vector leaf x"""
        n = x.r if n is None else n
        self.iters.add(n)
        return Iter(f, n, mk(ItConst(x) if isinstance(x, Const) else ItElem(x)))

    def eachi(self, f, n, mk, *leaves):
        n = self.grow.get(n, n)
        self.iters.add(n)
        return Iter(f, n, mk(*[ItElem(x) for x in leaves]))

    # ---- code generation together with the plan of the specification
    def build(self):
        if self._built:
            return self._built
        L = []
        plan = []
        ctr = [0]
        outs = [0]

        def newin():
            ctr[0] += 1
            return ctr[0] - 1

        def newout():
            outs[0] += 1
            return outs[0] - 1

        for v in self.vars:
            L.append('ad::Var<double, ad::%s> %s%s;' % (SHAPE[v.kind], v.name, '' if v.kind == 's' else '(%d)' % v.r if v.kind == 'v' else '(%d, %d)' % (v.r, v.c)))
        for k in sorted(self.iters):
            L.append('std::vector<size_t> it%d; for (size_t q_ = 0; q_ < %d; ++q_) it%d.push_back(q_);' % (k, k, k))

        fills = {}

        def fill(target, kind, r, c, sym, lhs, leaf_=None):
            ks = [None] * (r * c)
            for j in range(c):
                for i in range(r):
                    if sym and i < j:
                        continue
                    k = newin()
                    ks[i + j * r] = k
                    if sym:
                        ks[j + i * r] = k
            vs = getattr(leaf_, 'values', None)
            for j in range(c):
                for i in range(r):
                    if vs:          # a whole number
                        L.append('{ double q_ = vp_in(%d); %s = %s%s; }' % (ks[i + j * r], lhs(i, j), ''.join('q_ == %s ? %s : ' % (x, x) for x in vs[:-1]), vs[-1]))
                    else:
                        L.append('%s = vp_in(%d);' % (lhs(i, j), ks[i + j * r]))
            if self.fix and leaf_ is not None:
                q = fills[leaf_.name] = fills.get(leaf_.name, -1) + 1
                for j in range(c):
                    for i in range(r):
                        if not sym or i >= j:
                            x = self.fix(leaf_, i, j, q)
                            if x is not None:
                                self.fixmap[ks[i + j * r]] = Fr(x)
            return ks

        for k in self.consts:
            if k.kind == 's':
                L.append('%s %s;' % (INTS.get(k.how, 'double'), k.name))
                ks = fill(k.name, 's', 1, 1, False, lambda i, j: k.name, k)
            else:
                dec, lhs = decl(k)
                L.append(dec)
                ks = fill(k.name, k.kind, k.r, k.c, k.sym, lhs, k)
            plan.append(('const', k, ks))

        def get(v):
            return lambda i, j: '%s.get(%d,%d)' % (v.name, i, j)

        def geta(v):
            return lambda i, j: '%s.get_adj(%d,%d)' % (v.name, i, j)
        if self.adj0:
            for v in self.vars:
                if v.role == 'in':
                    plan.append(('adj0', v, fill(v.name, v.kind, v.r, v.c, False, geta(v))))
        exprs = {'': (self.e, 'e_')}
        if self.e2 is not None:
            exprs['2'] = (self.e2, 'f_')
        alias = {k: v[1] for k, v in exprs.items()}
        done = set()

        def bindraw(t, first=True):
            T = alias[t]
            g = GARB + 2000 * len(done) + (0 if t == '' else 20000)
            done.add((t, len(done)))
            if first:
                L.append('auto sz%s = %s.bind_cache_size();' % (T, T))
                L.append('double *vb%s, *ab%s;' % (T, T))
            L.append('vb%s = (double*)malloc(sz%s(0) * sizeof(double)); ab%s = (double*)malloc(sz%s(1) * sizeof(double));' % (T, T, T, T))
            if self.garbage:
                L.append('for (size_t q_ = 0; q_ < sz%s(0); ++q_) vb%s[q_] = vp_in(%d + (long)q_);' % (T, T, g))
                L.append('for (size_t q_ = 0; q_ < sz%s(1); ++q_) ab%s[q_] = vp_in(%d + (long)q_);' % (T, T, g + 1000))
            L.append('{ auto pp_ = %s.bind_cache({vb%s, ab%s});' % (T, T, T))
            for nme, fld, i in (('values', 'val', 0), ('adjoints', 'adj', 1)):
                o = newout()
                L.append('vp_out(%d, (double)((long)(pp_.%s - %sb%s) - (long)sz%s(%d)));' % (o, fld, 'va'[i], T, T, i))
                plan.append(('zero', o, 'slots consumed minus bind_cache_size, ' + nme))
            L.append('}')

        built = set()

        def construct(t=''):
            if t in built:
                return
            built.add(t)
            e, T = exprs[t]
            if self.bind == 'bind':
                L.append('auto %s = ad::bind(%s);' % (T, e.cpp()))
                E_ = T + '.get()'
            elif self.bind == 'tmp':
                E_ = '(%s)' % e.cpp()
            elif self.bind == 'none':
                L.append('auto %s = %s;' % (T, e.cpp()))
                o = newout()
                L.append('vp_out(%d, ad::util::is_constant_v<decltype(%s)> ? 1.0 : 0.0);' % (o, T))
                plan.append(('num', o, 'constants-only expression is folded', 1))
                E_ = T
            else:
                L.append('auto %s = %s;' % (T, e.cpp()))
                E_ = T
                bindraw(t)
            for nm, want in (('rows', e.r), ('cols', e.c), ('size', e.r * e.c)):
                o = newout()
                L.append('vp_out(%d, (double)%s.%s());' % (o, E_, nm))
                plan.append(('num', o, nm + '()', want))
            if self.subshapes:
                for q, x in enumerate(subexprs(e)[1:9]):
                    L.append('{ auto q_ = %s;' % x.cpp())
                    for nm, want in (('rows', x.r), ('cols', x.c), ('size', x.r * x.c)):
                        o = newout()
                        L.append('vp_out(%d, (double)q_.%s());' % (o, nm))
                        plan.append(('num', o, nm + '() of sub-expression %s' % x.cpp()[:60], want))
                    L.append('}')

        def outval(e):
            os = []
            if e.kind == 's':
                o = newout()
                L.append('vp_out(%d, r_);' % o)
                os.append(o)
            else:
                for j in range(e.c):
                    for i in range(e.r):
                        o = newout()
                        L.append('vp_out(%d, r_(%d,%d));' % (o, i, j))
                        os.append(o)
            return os

        def outvars():
            os = {}
            for v in self.vars:
                ids = []
                for j in range(v.c):
                    for i in range(v.r):
                        o = newout()
                        L.append('vp_out(%d, %s.get(%d,%d));' % (o, v.name, i, j))
                        ids.append(o)
                os[v.name] = ids
            return os

        def seed(e):
            if e.kind == 's':
                k = newin()
                return [k], 'vp_in(%d)' % k
            ks = []
            L.append('%s seed_(%s);' % ('Eigen::ArrayXd' if e.kind == 'v' else 'Eigen::ArrayXXd', '%d' % e.r if e.kind == 'v' else '%d, %d' % (e.r, e.c)))
            for j in range(e.c):
                for i in range(e.r):
                    k = newin()
                    ks.append(k)
                    L.append('seed_(%d,%d) = vp_in(%d);' % (i, j, k))
            if self.iface in ('get', 'lv'):     # as an Eigen expression
                L.append('Eigen::%s sm_ = seed_.matrix();' % ('VectorXd' if e.kind == 'v' else 'MatrixXd'))
                return ks, 'sm_.array()'
            return ks, 'seed_'

        def outadj():
            os = {}
            for v in self.vars:
                if v.role == 'ph':
                    continue
                ids = []
                for j in range(v.c):
                    for i in range(v.r):
                        o = newout()
                        L.append('vp_out(%d, %s.get_adj(%d,%d));' % (o, v.name, i, j))
                        ids.append(o)
                os[v.name] = ids
            return os

        nadj = 0
        for h in self.hist:
            if h == 'set':
                ins = {}
                for v in self.vars:
                    if v.role != 'ph':
                        ins[v.name] = fill(v.name, v.kind, v.r, v.c, v.sym, get(v), v)
                plan.append(('set', ins))
                continue
            if h == 'setafter':      # build the expression before the variables get their values
                construct()
                continue
            if h == 'kset':             # change the memory constants were made from
                construct()
                for k in self.consts:
                    if k.kind == 's':
                        ks = fill(k.name, 's', 1, 1, False, lambda i, j: k.name, k)
                    else:
                        ks = fill(k.name, k.kind, k.r, k.c, k.sym, decl(k)[1], k)
                    if k.how in ('view', 'intview'):
                        plan.append(('const', k, ks))
                continue
            if h[:4] in ('part',):      # change some variables only
                ins = {}
                vs = [v for v in self.vars if v.role != 'ph']
                for q, v in enumerate(vs):
                    if (q % 2 == 0) == (h == 'part'):
                        ins[v.name] = fill(v.name, v.kind, v.r, v.c, v.sym, get(v), v)
                plan.append(('set', ins))
                continue
            t = ''
            if h[-1] == '2':
                t, h = '2', h[:-1]
            if h == 'construct':
                construct(t)
                continue
            construct(t)
            T = alias[t]
            e = exprs[t][0]
            if h == 'eval':
                L.append('{ auto r_ = ad::evaluate(%s);' % {'get': T + '.get()', 'move': 'std::move(%s)' % T}.get(self.iface if self.bind == 'bind' else '', T))
                os = outval(e)
                ov = outvars()
                L.append('}')
                plan.append(('eval', os, ov, t))
            elif h in ('adj', 'diff'):
                for v in self.vars:
                    if v.role != 'in' and nadj:
                        L.append('%s.reset_adj();' % v.name)
                nadj += 1
                L.append('{')
                ks, st = (None, '') if self.seeds == 'default' else seed(e)
                if st:
                    st = ', ' + st
                if h == 'adj':
                    if self.bind == 'bind' and self.iface != 'lv':
                        T = T + '.get()'
                    L.append('ad::evaluate_adj(%s%s);' % (T, st))
                    os = []
                else:
                    if self.bind == 'tmp':
                        T = 'ad::bind(%s)' % e.cpp()
                    elif self.bind == 'bind':
                        T = {'get': T + '.get()', 'move': 'std::move(%s)' % T}.get(self.iface, T)
                    if self.bind == 'tmp':      # the value of a temporary is used within the full expression
                        L.append('[&](auto&& r_) {')
                        os = outval(e)
                        L.append('}(ad::autodiff(%s%s));' % (T, st))
                    else:
                        L.append('auto r_ = ad::autodiff(%s%s);' % (T, st))
                        os = outval(e)
                oa = outadj()
                ov = outvars()
                L.append('}')
                plan.append((h, ks, os, oa, ov, t))
            elif h == 'reset':
                for v in self.vars:
                    L.append('%s.reset_adj();' % v.name)
                plan.append(('reset',))
            elif h == 'rebind':
                i = '%d_' % len(L)
                T = exprs[t][1]
                L.append('double *ov%s = vb%s, *oa%s = ab%s;' % (i, T, i, T))
                bindraw(t, False)
                L.append('free(ov%s); free(oa%s);' % (i, i))
            elif h in ('copy', 'move'):
                n = 'c%d_' % len(L)
                L.append('auto %s = %s;' % (n, T if h == 'copy' else 'std::move(%s)' % T))
                alias[t] = n
            elif h in ('copydead', 'movedead'):   # the original is destroyed
                n = 'c%d_' % len(L)
                L.append('auto p%s = new auto(%s); auto %s = %s; delete p%s;' % (n, T, n, ('*p%s' if h == 'copydead' else 'std::move(*p%s)') % n, n))
                alias[t] = n
            else:
                raise ValueError(h)
        if self.bind == 'raw':
            for t in built:
                L.append('free(vb%s); free(ab%s);' % (exprs[t][1], exprs[t][1]))
        text = '\n'.join(L)
        text = retype(text, self.T)
        self._built = text, plan, ctr[0], outs[0]
        return self._built

    def body(self):
        return self.build()[0]

    def spec(self, inp):
        plan = self.build()[1]
        res = []
        env0 = {}
        adj = {}
        last = {}
        for v in self.vars:
            env0[v.name] = [Fr(0)] * (v.r * v.c)
            adj[v.name] = [Fr(0)] * (v.r * v.c)
        roles = {v.name: v for v in self.vars}
        invars = {}
        nset = 0

        inp_ = inp
        for k, x in sorted(self.fixmap.items()):
            assume(sub(inp_(k), x), '==')

        def inp(k):
            return self.fixmap[k] if k in self.fixmap else inp_(k)
        before = {}

        def evaluate(t):
            env = dict(env0)
            before[t] = dict(env0)
            a = (self.e2 if t else self.e).ev(env)
            return a, env

        def at_fixed(t, n, i, v):
            """the value as a function of one element that has a fixed number"""
            x = alg.var('x%d' % invars[n][i])
            env = dict(before[t])
            env[n] = [x if k == invars[n][i] else y for k, y in zip(invars[n], env[n])]
            return (self.e2 if t else self.e).ev(env).d

        def expect_val(a, os):
            for i, o in enumerate(os):
                res.append((o, 'value[%d]' % i, -INF if type(a.d[i]) is NegInf else a.d[i]))

        for st in plan:
            t = st[0]
            if t == 'const':
                env0[st[1].name] = [whole(inp(k), st[1].values) if st[1].values else inp(k) for k in st[2]]
            elif t == 'adj0':
                adj[st[1].name] = [inp(k) for k in st[2]]
            elif t == 'zero':
                res.append((st[1], st[2], Fr(0)))
            elif t == 'num':
                res.append((st[1], st[2], Fr(st[3])))
            elif t == 'set':
                for n, ks in st[1].items():
                    env0[n] = [inp(k) for k in ks]
                    invars[n] = ks
                if self.assume:
                    self.assume(env0)
                if self.assume_k:
                    self.assume_k(env0, nset)
                nset += 1
            elif t == 'reset':
                for n in adj:
                    adj[n] = [Fr(0)] * len(adj[n])
            elif t == 'eval':
                a, env = evaluate(st[3])
                last[st[3]] = (a, env)
                expect_val(a, st[1])
                self.expect_vars(res, env, st[2], 'after evaluation')
                for v in self.vars:
                    if v.role == 'ph':
                        env0[v.name] = env[v.name]
            elif t in ('adj', 'diff'):
                _, ks, os, oa, ov, which = st
                if t == 'diff':
                    a, env = evaluate(which)
                    last[which] = (a, env)
                    expect_val(a, os)
                    for v in self.vars:
                        if v.role == 'ph':
                            env0[v.name] = env[v.name]
                else:
                    a, env = last[which]
                seeds = [inp(k) for k in ks] if ks is not None else [Fr(1)] * len(a.d)
                for v in self.vars:
                    n = v.name
                    if v.role == 'ph':
                        continue
                    base = [Fr(0)] * len(adj[n]) if v.role == 'upd' else adj[n]
                    new = []
                    for i in range(v.r * v.c):
                        g = base[i]
                        off = v.sym and (i % v.r) != (i // v.r)
                        fixed = self.fixmap.get(invars[n][i])
                        x = inp(invars[n][i])
                        ad = a.d if fixed is None else at_fixed(which, n, i, v)
                        aid = alg.KEYS[('var', 'x%d' % invars[n][i])].id
                        for s, f in zip(seeds, ad):
                            if type(f) is NegInf:
                                f = f.grad
                            if type(f) is float:
                                continue            # outside the support: unchanged
                            d = alg.diff(f, aid)
                            if fixed is not None:
                                d = alg.subst(d, {aid: fixed})
                            if off:
                                d = alg.mul(Fr(1, 2), d)
                            g = alg.add(g, alg.mul(s, d))
                        new.append(g)
                    adj[n] = new
                    for i, o in enumerate(oa[n]):
                        res.append((o, 'adjoint of %s[%d]' % (n, i), new[i]))
                vals = dict(env)
                for v in self.vars:
                    if v.role == 'upd':
                        vals[v.name] = env0[v.name]
                self.expect_vars(res, vals, ov, 'after differentiation')
        return res

    def expect_vars(self, res, env, ov, when):
        for n, os in ov.items():
            for i, o in enumerate(os):
                res.append((o, 'value of %s[%d] %s' % (n, i, when), env[n][i]))


def subexprs(e):
    """e and the sub-expressions that can stand alone"""
    out = []

    def go(x):
        if isinstance(x, (list, tuple)):
            for y in x:
                go(y)
        elif isinstance(x, E):
            if isinstance(x, (Num, Leaf, Sub, Const, ItElem, ItConst)):
                return
            if (not isinstance(x, (Assign, Glue)) and not getattr(x, "isconst", False)) or not out:
                out.append(x)
            if isinstance(x, (Iter, VarsIter)):
                return
            for y in vars(x).values():
                go(y)
    go(e)
    return out
