"""Exact symbolic real arithmetic: rational functions over atoms.

A double in the analysed program is one of
  * Fraction          a concrete real
  * RF                a rational function (numerator polynomial / product of
                      factor polynomials) with Fraction coefficients over atoms
  * float             only inf, -inf and nan (IEEE specials)

Atoms are inputs, exp(m), log|p|, sqrt(p), sin(t), cos(t), |p|, asin, atan, erf
or constants.  Everything that needs a case split (sign of a denominator, of a
logarithm's argument, ...) asks the current path context CTX.
"""
from fractions import Fraction as Fr
import math
import mpmath as mp
mp.mp.dps = 40

INF = float('inf')
NAN = float('nan')

CTX = None          # current path context, see paths.py


class Unsupported(Exception):
    pass


class Atom:
    __slots__ = ('id', 'kind', 'name', 'arg', 'poly', 'special', 'z')

    def __init__(self, id, kind, name, arg=None, poly=None):
        self.id = id
        self.kind = kind        # var exp log logc sqrt sin cos abs uf const
        self.name = name
        self.arg = arg          # RF (exp/sin/cos/uf) or Fraction (logc/const)
        self.poly = poly        # Poly (log/sqrt/abs)
        self.special = kind in ('sqrt', 'cos', 'abs')
        self.z = None


ATOMS = []
KEYS = {}
FACTORS = []            # list of Poly
FKEYS = {}
HAVE_SPECIAL = False
DIFFC = {}


def reset():
    global HAVE_SPECIAL
    ATOMS.clear()
    KEYS.clear()
    FACTORS.clear()
    FKEYS.clear()
    DIFFC.clear()
    HAVE_SPECIAL = False


def atom(kind, key, name, arg=None, poly=None):
    global HAVE_SPECIAL
    k = (kind, key)
    a = KEYS.get(k)
    if a is None:
        a = Atom(len(ATOMS), kind, name, arg, poly)
        ATOMS.append(a)
        KEYS[k] = a
        if a.special:
            HAVE_SPECIAL = True
    return a


# ------------------------------------------------------------------ monomials
def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            e = x[1] + y[1]
            if e:
                out.append((x[0], e))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def mono_pow(a, n):
    return tuple((i, e * n) for i, e in a)


# ------------------------------------------------------------------ polynomials (dict mono->Fraction)
def padd(p, q):
    if len(p) < len(q):
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        v = r.get(m)
        if v is None:
            r[m] = c
        else:
            v = v + c
            if v:
                r[m] = v
            else:
                del r[m]
    return r


def pscale(p, c):
    if not c:
        return {}
    return {m: v * c for m, v in p.items()}


def psub(p, q):
    return padd(p, pscale(q, -1))


def pmul(p, q):
    if not p or not q:
        return {}
    if len(p) == 1 and () in p:
        return pscale(q, p[()])
    if len(q) == 1 and () in q:
        return pscale(p, q[()])
    r = {}
    if len(p) * len(q) > 60000:
        raise Unsupported('polynomial too large')
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mono_mul(m1, m2)
            c = c1 * c2
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v += c
                if v:
                    r[m] = v
                else:
                    del r[m]
    if HAVE_SPECIAL:
        r = preduce(r)
    return r


def preduce(p):
    while True:
        hit = None
        for m in p:
            for a, e in m:
                if ATOMS[a].special and e >= 2:
                    hit = (m, a, e)
                    break
            if hit:
                break
        if not hit:
            return p
        # rewrite every monomial with this atom at once
        a = hit[1]
        A = ATOMS[a]
        if A.kind == 'sqrt':
            base = A.poly
        elif A.kind == 'abs':
            base = pmul(A.poly, A.poly)
        else:                               # cos^2 = 1 - sin^2
            s = sin_atom(A.arg)
            base = {(): Fr(1), ((s.id, 2),): Fr(-1)}
        out = {}
        for m, c in p.items():
            e = 0
            for x, y in m:
                if x == a:
                    e = y
            if e >= 2:
                rest = tuple((x, y) if x != a else (x, e % 2) for x, y in m if x != a or e % 2)
                t = {rest: c}
                for _ in range(int(e) // 2):
                    t = pmul_raw(t, base)
                out = padd(out, t)
            else:
                out = padd(out, {m: c})
        p = out


def pmul_raw(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mono_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            elif m in r:
                del r[m]
    return r


def ppow(p, n):
    r = {(): Fr(1)}
    for _ in range(n):
        r = pmul(r, p)
    return r


def pkey(p):
    return frozenset(p.items())


def mono_order(m):
    return (sum((e for _, e in m), 0), m)


def plead(p):
    return max(p, key=mono_order)


def pconst(p):
    """the constant value of p or None"""
    if not p:
        return Fr(0)
    if len(p) == 1 and () in p:
        return p[()]
    return None


def pvars(p):
    s = set()
    for m in p:
        for a, _ in m:
            s.add(a)
    return s


def lexkey(m):
    return m


def pdivexact(p, q):
    """p / q if q divides p exactly (plain polynomial division, no relations), else None"""
    if len(q) == 1:
        (mq, cq), = q.items()
        out = {}
        inv = mono_pow(mq, -1)
        for m, c in p.items():
            r = mono_mul(m, inv)
            for a, e in r:
                if e < 0 and ATOMS[a].kind != 'exp':
                    return None
            out[r] = c / cq
        return out
    if len(p) < len(q):
        return None
    vs = sorted(pvars(p) | pvars(q))
    if not pvars(q) <= pvars(p):
        return None
    # dense exponent vectors, lex order
    idx = {v: i for i, v in enumerate(vs)}
    n = len(vs)

    def conv(p):
        o = {}
        for m, c in p.items():
            e = [0] * n
            for a, k in m:
                e[idx[a]] = k
            o[tuple(e)] = c
        return o
    P, Q = conv(p), conv(q)
    lq = max(Q)
    cq = Q[lq]
    quo = {}
    steps = 0
    while P:
        lp = max(P)
        d = tuple(x - y for x, y in zip(lp, lq))
        for i, v in enumerate(d):
            if v < 0 and ATOMS[vs[i]].kind != 'exp':
                return None
        steps += 1
        if steps > 400:
            return None
        c = P[lp] / cq
        quo[d] = quo.get(d, 0) + c
        for m, cc in Q.items():
            k = tuple(x + y for x, y in zip(d, m))
            v = P.get(k, 0) - c * cc
            if v:
                P[k] = v
            elif k in P:
                del P[k]
    out = {}
    for d, c in quo.items():
        out[tuple((vs[i], e) for i, e in enumerate(d) if e)] = c
    return out


def intern_factor(p):
    k = pkey(p)
    f = FKEYS.get(k)
    if f is None:
        f = len(FACTORS)
        FACTORS.append(p)
        FKEYS[k] = f
    return f


def factor(p):
    """p = c * unit * prod factors ; returns (c, unit_mono, {fid: e}); p nonzero"""
    # common monomial
    it = iter(p)
    common = dict(next(it))
    alla = set(common)
    for m in it:
        d = dict(m)
        alla |= set(d)
        for a in list(common):
            e = d.get(a, 0)
            common[a] = min(common[a], e)
        for a in d:
            if a not in common and d[a] < 0:
                common[a] = d[a]
    for a in list(common):
        # atoms missing in some monomial: min with 0 handled above through d.get
        if not common[a]:
            del common[a]
    cm = tuple(sorted(common.items()))
    if cm:
        inv = mono_pow(cm, -1)
        p = {mono_mul(m, inv): c for m, c in p.items()}
    unit = tuple((a, e) for a, e in cm if ATOMS[a].kind == 'exp')
    fs = {}
    for a, e in cm:
        if ATOMS[a].kind != 'exp':
            f = intern_factor({((a, 1),): Fr(1)})
            fs[f] = fs.get(f, 0) + e
    c = pconst(p)
    if c is not None:
        return c, unit, fs
    lead = plead(p)
    c = p[lead]
    if c != 1:
        p = {m: v / c for m, v in p.items()}
    if pkey(p) not in FKEYS:
        # trial division by known factors
        pv = pvars(p)
        for f, q in enumerate(FACTORS):
            if len(q) == 1 or len(q) > len(p):
                continue
            if not pvars(q) <= pv:
                continue
            while True:
                r = pdivexact(p, q)
                if r is None:
                    break
                fs[f] = fs.get(f, 0) + 1
                p = r
                if len(p) < len(q):
                    break
            if len(p) == 1:
                break
        cc = pconst(p)
        if cc is not None:
            return c * cc, unit, fs
        if len(p) == 1:
            c2, u2, f2 = factor(p)
            for f, e in f2.items():
                fs[f] = fs.get(f, 0) + e
            return c * c2, mono_mul(unit, u2), fs
        l2 = p[plead(p)]
        if l2 != 1:
            c *= l2
            p = {m: v / l2 for m, v in p.items()}
    f = intern_factor(p)
    fs[f] = fs.get(f, 0) + 1
    return c, unit, fs


def expand_factors(fs):
    r = {(): Fr(1)}
    for f, e in fs.items():
        for _ in range(e):
            r = pmul(r, FACTORS[f])
    return r


# ------------------------------------------------------------------ rational functions
class RF:
    __slots__ = ('num', 'den', '_k')

    def __init__(self, num, den=()):
        self.num = num
        self.den = den          # sorted tuple of (fid, exp>0)
        self._k = None

    def key(self):
        if self._k is None:
            self._k = (pkey(self.num), self.den)
        return self._k

    def __repr__(self):
        return show(self)


def mk(num, den):
    """den: dict fid->exp; simplify and wrap; returns Fraction when constant"""
    if not num:
        return Fr(0)
    if den:
        nd = {}
        for f, e in den.items():
            if e <= 0:
                continue
            q = FACTORS[f]
            while e > 0:
                if len(q) == 1:
                    # single atom factor: cancel common monomial
                    (m, _), = q.items()
                    a = m[0][0]
                    if ATOMS[a].special and ATOMS[a].kind in ('sqrt', 'abs'):
                        pass
                    ok = True
                    for mm in num:
                        if not any(x == a and y >= 1 for x, y in mm):
                            ok = False
                            break
                    if not ok:
                        break
                    inv = ((a, -1),)
                    num = {mono_mul(mm, inv): c for mm, c in num.items()}
                    e -= 1
                else:
                    if len(num) < 2:
                        break
                    r = pdivexact(num, q)
                    if r is None:
                        break
                    num = r
                    e -= 1
            if e > 0:
                nd[f] = e
        den = tuple(sorted(nd.items()))
    else:
        den = ()
    if not den:
        c = pconst(num)
        if c is not None:
            return c
    return RF(num, den)


def var(name):
    a = atom('var', name, name)
    return RF({((a.id, 1),): Fr(1)})


def atom_rf(a, e=1):
    return RF({((a.id, e),): Fr(1)})


def lift(x):
    if type(x) is RF:
        return x
    return RF({(): x} if x else {})


def isreal(x):
    return type(x) is RF or type(x) is Fr


def add(a, b):
    ta, tb = type(a), type(b)
    if ta is Fr and tb is Fr:
        return a + b
    if ta is Fr:
        if not a:
            return b
        a = lift(a)
    elif tb is Fr:
        if not b:
            return a
        b = lift(b)
    if a.den == b.den:
        if not a.den:
            n = padd(a.num, b.num)
            c = pconst(n)
            return RF(n) if c is None else c
        return mk(padd(a.num, b.num), dict(a.den))
    da, db = dict(a.den), dict(b.den)
    den = dict(da)
    for f, e in db.items():
        if den.get(f, 0) < e:
            den[f] = e
    na, nb = a.num, b.num
    for f, e in den.items():
        for _ in range(e - da.get(f, 0)):
            na = pmul(na, FACTORS[f])
        for _ in range(e - db.get(f, 0)):
            nb = pmul(nb, FACTORS[f])
    return mk(padd(na, nb), den)


def neg(a):
    if type(a) is Fr:
        return -a
    return RF({m: -c for m, c in a.num.items()}, a.den)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    ta, tb = type(a), type(b)
    if ta is Fr and tb is Fr:
        return a * b
    if ta is Fr:
        a, b = b, a
        tb = Fr
    if tb is Fr:
        if not b:
            return Fr(0)
        if b == 1:
            return a
        return RF({m: c * b for m, c in a.num.items()}, a.den)
    den = dict(a.den)
    for f, e in b.den:
        den[f] = den.get(f, 0) + e
    return mk(pmul(a.num, b.num), den)


def inv(a):
    """1/a, a != 0 established by the caller"""
    if type(a) is Fr:
        return 1 / a
    c, unit, fs = factor(a.num)
    num = {mono_pow(unit, -1): 1 / c}
    for f, e in a.den:
        # cancel between den and fs
        k = min(e, fs.get(f, 0))
        if k:
            fs[f] -= k
            e -= k
        for _ in range(e):
            num = pmul(num, FACTORS[f])
    den = {}
    for f, e in fs.items():
        if e <= 0:
            continue
        q = FACTORS[f]
        if len(q) == 1:
            (m, _), = q.items()
            A = ATOMS[m[0][0]]
            if A.kind == 'sqrt':
                # 1/s^e = s^(e%2) / P^ceil(e/2)
                k = (e + 1) // 2
                if e % 2:
                    num = pmul(num, {((A.id, 1),): Fr(1)})
                c2, u2, f2 = factor(A.poly)
                num = {mono_mul(m2, mono_pow(u2, -k)): v / c2 ** k for m2, v in num.items()}
                for ff, ee in f2.items():
                    den[ff] = den.get(ff, 0) + ee * k
                continue
            if A.kind == 'abs' and e >= 1:
                k = (e + 1) // 2
                if e % 2:
                    num = pmul(num, {((A.id, 1),): Fr(1)})
                c2, u2, f2 = factor(A.poly)
                num = {mono_mul(m2, mono_pow(u2, -2 * k)): v / c2 ** (2 * k) for m2, v in num.items()}
                for ff, ee in f2.items():
                    den[ff] = den.get(ff, 0) + ee * 2 * k
                continue
        den[f] = den.get(f, 0) + e
    return mk(num, den)


def div(a, b):
    return mul(a, inv(b))


def powi(a, n):
    r = Fr(1)
    if n < 0:
        a = inv(a)
        n = -n
    for _ in range(n):
        r = mul(r, a)
    return r


# ------------------------------------------------------------------ signs
def psign(p, pos):
    """'+' '-' '0+' '0-' '0' or None, using atoms known positive"""
    if not p:
        return '0'
    s = None
    strict = False
    for m, c in p.items():
        zero = False
        sg = 1 if c > 0 else -1
        for a, e in m:
            A = ATOMS[a]
            if A.kind == 'exp' or pos.get(a) == 1:
                continue
            if pos.get(a) == -1:
                if e % 2:
                    sg = -sg
                continue
            if A.kind in ('sqrt', 'abs') or (e % 2 == 0):
                zero = True
                continue
            if A.kind == 'const':
                continue
            if A.kind == 'logc':
                continue
            return None
        if s is None:
            s = sg
        elif s != sg:
            return None
        if not zero:
            strict = True
    return ('+' if s > 0 else '-') if strict else ('0+' if s > 0 else '0-')


def sign_poly(a):
    """(poly whose sign equals that of a); a RF; factors known nonzero"""
    n = a.num
    for f, e in a.den:
        if e % 2:
            n = pmul(n, FACTORS[f])
    return n


# ------------------------------------------------------------------ functions
def split_terms(t):
    """yield (coeff, RF unit-term) for t = sum coeff*term"""
    if type(t) is Fr:
        if t:
            yield t, Fr(1)
        return
    for m, c in t.num.items():
        u = mk({m: Fr(1)}, dict(t.den))
        if type(u) is RF and len(u.num) == 1:
            (mm, cc), = u.num.items()
            if cc != 1:
                u = RF({mm: Fr(1)}, u.den)
                c = c * cc
        yield c, u


def f_exp(t):
    if type(t) is float:
        if t != t:
            return NAN
        return INF if t > 0 else Fr(0)
    if type(t) is Fr and not t:
        return Fr(1)
    r = Fr(1)
    for c, u in split_terms(t):
        if type(u) is RF and not u.den and len(u.num) == 1:
            (m, _), = u.num.items()
            if len(m) == 1 and m[0][1] == 1 and c.denominator == 1:
                A = ATOMS[m[0][0]]
                if A.kind == 'log':
                    b = mk(A.poly, {})
                    b = f_abs(b)
                    r = mul(r, powi(b, int(c)))
                    continue
                if A.kind == 'logc':
                    r = mul(r, A.arg ** int(c))
                    continue
        k = u.key() if type(u) is RF else u
        a = atom('exp', k, 'exp', arg=u)
        if c.denominator == 1:
            c = int(c)
        r = mul(r, RF({((a.id, c),): Fr(1)}))
    return r


def _primes(n):
    out = []
    d = 2
    while d * d <= n and d < 2000:
        while n % d == 0:
            out.append(d)
            n //= d
        d += 1
    if n > 1:
        out.append(n)
    return out


def log_const(c):
    """log of positive Fraction"""
    r = Fr(0)
    for p in _primes(c.numerator):
        r = add(r, atom_rf(atom('logc', p, 'log%d' % p, arg=Fr(p))))
    for p in _primes(c.denominator):
        r = sub(r, atom_rf(atom('logc', p, 'log%d' % p, arg=Fr(p))))
    return r


def log_poly(p):
    """log|p|"""
    c, unit, fs = factor(p)
    r = log_const(abs(c))
    for a, e in unit:
        r = add(r, mul(Fr(e), ATOMS[a].arg))
    for f, e in fs.items():
        r = add(r, mul(Fr(e), log_factor(f)))
    return r


def log_factor(f):
    q = FACTORS[f]
    if len(q) == 1:
        (m, _), = q.items()
        A = ATOMS[m[0][0]]
        if A.kind == 'sqrt':
            return mul(Fr(1, 2), log_poly(A.poly))
        if A.kind == 'abs':
            return log_poly(A.poly)
    a = atom('log', pkey(q), 'log', poly=q)
    return atom_rf(a)


def log_abs(t):
    """log|t| for t != 0"""
    if type(t) is Fr:
        return log_const(abs(t))
    r = log_poly(t.num)
    for f, e in t.den:
        r = sub(r, mul(Fr(e), log_factor(f)))
    return r


def f_log(t):
    if type(t) is float:
        return INF if t == INF else NAN
    s = CTX.sign(t)
    if s < 0:
        return NAN
    if s == 0:
        return -INF
    return log_abs(t)


def isq(n):
    r = math.isqrt(n)
    return r if r * r == n else None


def squarefree_split(n):
    """n = k^2 * m"""
    k = 1
    m = 1
    for p in set(_primes(n)):
        e = 0
        x = n
        while x % p == 0:
            x //= p
            e += 1
        k *= p ** (e // 2)
        if e % 2:
            m *= p
    return k, m


def f_sqrt(t):
    if type(t) is float:
        return INF if t == INF else NAN
    s = CTX.sign(t)
    if s < 0:
        return NAN
    if s == 0:
        return Fr(0)
    if type(t) is Fr:
        t = RF({(): t})
    c, unit, fs = factor(t.num)
    fs = dict(fs)
    for f, e in t.den:
        fs[f] = fs.get(f, 0) - e
    out = Fr(1)
    inner = {(): Fr(1)}
    half = tuple((a, Fr(e) / 2 if (isinstance(e, Fr) or e % 2) else e // 2) for a, e in unit)
    if half:
        half = tuple((a, int(e) if Fr(e).denominator == 1 else e) for a, e in half)
        out = mul(out, RF({half: Fr(1)}))
    sgn = 1
    if c < 0:
        sgn = -1
        c = -c
    n = c.numerator * c.denominator
    k, m = squarefree_split(n)
    out = mul(out, Fr(k, c.denominator))
    inner = {(): Fr(m * sgn)}
    pull = Fr(1)
    for f, e in fs.items():
        k = e // 2           # floor: e = 2k + r
        if k:
            base = RF(FACTORS[f])
            pull = mul(pull, powi(base, k)) if k > 0 else mul(pull, inv(powi(base, -k)))
        if e - 2 * k:
            inner = pmul(inner, FACTORS[f])
    if type(pull) is RF:
        pull = f_abs(pull)
    else:
        pull = abs(pull)
    out = mul(out, pull)
    ci = pconst(inner)
    if ci is not None and ci == 1:
        return out
    a = atom('sqrt', pkey(inner), 'sqrt', poly=inner)
    return mul(out, atom_rf(a))


def f_abs(t):
    if type(t) is float:
        return abs(t)
    if type(t) is Fr:
        return abs(t)
    sg = CTX.sign_cheap(t)
    if sg is not None:
        return t if sg >= 0 else neg(t)
    # |N/D| = prod |factors|
    c, unit, fs = factor(t.num)
    r = RF({unit: abs(c)}) if unit else abs(c)
    fs = dict(fs)
    for f, e in t.den:
        fs[f] = fs.get(f, 0) - e
    for f, e in fs.items():
        if not e:
            continue
        q = FACTORS[f]
        base = RF(q)
        ae = abs(e)
        if ae >= 2:
            p2 = powi(mul(base, base), ae // 2)
            r = mul(r, p2 if e > 0 else inv(p2))
        if ae % 2:
            sg = CTX.sign_cheap(base)
            if sg is not None:
                b = base if sg >= 0 else neg(base)
            elif len(q) == 1 and ATOMS[next(iter(q))[0][0]].kind in ('abs', 'sqrt'):
                b = base
            else:
                b = atom_rf(atom('abs', pkey(q), 'abs', poly=q))
            r = mul(r, b if e > 0 else inv(b))
    return r


def canon_sign(t):
    """(s, t') with t = s*t', t' having positive leading coefficient"""
    if type(t) is Fr:
        return (1, t) if t >= 0 else (-1, -t)
    l = plead(t.num)
    if t.num[l] < 0:
        return -1, neg(t)
    return 1, t


def sin_atom(t):
    return atom('sin', t.key() if type(t) is RF else t, 'sin', arg=t)


def f_sin(t):
    if type(t) is float:
        return NAN
    if type(t) is Fr and not t:
        return Fr(0)
    s, u = canon_sign(t)
    return mul(Fr(s), atom_rf(sin_atom(u)))


def f_cos(t):
    if type(t) is float:
        return NAN
    if type(t) is Fr and not t:
        return Fr(1)
    s, u = canon_sign(t)
    sin_atom(u)
    return atom_rf(atom('cos', u.key() if type(u) is RF else u, 'cos', arg=u))


def f_tan(t):
    if type(t) is float:
        return NAN
    return CTX.fdiv(f_sin(t), f_cos(t))


def odd_uf(name, t):
    if type(t) is Fr and not t:
        return Fr(0)
    s, u = canon_sign(t)
    a = atom('uf', (name, u.key() if type(u) is RF else u), name, arg=u)
    return mul(Fr(s), atom_rf(a))


def f_asin(t):
    if type(t) is float:
        return NAN
    if CTX.sign(sub(Fr(1), t)) < 0 or CTX.sign(add(Fr(1), t)) < 0:
        return NAN
    return odd_uf('asin', t)


def const(name):
    if name == 'two_over_sqrt_pi':
        return mul(Fr(2), inv(f_sqrt(const('pi'))))
    return atom_rf(atom('const', name, name))


def f_acos(t):
    r = f_asin(t)
    if type(r) is float:
        return r
    return sub(mul(Fr(1, 2), const('pi')), r)


def f_atan(t):
    if type(t) is float:
        return NAN if t != t else mul(Fr(1, 2) if t > 0 else Fr(-1, 2), const('pi'))
    return odd_uf('atan', t)


def f_erf(t):
    if type(t) is float:
        return NAN if t != t else (Fr(1) if t > 0 else Fr(-1))
    return odd_uf('erf', t)


def f_sinh(t):
    if type(t) is float:
        return t
    e = f_exp(t)
    return mul(Fr(1, 2), sub(e, inv(e)))


def f_cosh(t):
    if type(t) is float:
        return abs(t)
    e = f_exp(t)
    return mul(Fr(1, 2), add(e, inv(e)))


def f_tanh(t):
    if type(t) is float:
        return NAN if t != t else (Fr(1) if t > 0 else Fr(-1))
    e2 = f_exp(mul(Fr(2), t))
    return div(sub(e2, Fr(1)), add(e2, Fr(1)))


CONSTS = {'pi': mp.mpf(mp.pi)}


# ------------------------------------------------------------------ differentiation
def diff_atom(aid, x):
    k = (aid, x)
    r = DIFFC.get(k)
    if r is not None:
        return r
    A = ATOMS[aid]
    kd = A.kind
    if kd == 'var':
        r = Fr(1 if aid == x else 0)
    elif kd in ('const', 'logc'):
        r = Fr(0)
    elif kd == 'exp':
        r = mul(atom_rf(A), diff(A.arg, x))
    elif kd == 'log':
        d = diff(RF(A.poly), x)
        r = div(d, RF(A.poly)) if d != 0 else Fr(0)
    elif kd == 'sqrt':
        d = diff(RF(A.poly), x)
        r = mul(mul(Fr(1, 2), d), inv(atom_rf(A))) if d != 0 else Fr(0)
    elif kd == 'abs':
        d = diff(RF(A.poly), x)
        r = div(mul(atom_rf(A), d), RF(A.poly)) if d != 0 else Fr(0)
    elif kd == 'sin':
        d = diff(A.arg, x)
        r = mul(f_cos(A.arg), d)
    elif kd == 'cos':
        d = diff(A.arg, x)
        r = neg(mul(f_sin(A.arg), d))
    elif kd == 'uf':
        d = diff(A.arg, x)
        if d == 0:
            r = Fr(0)
        elif A.name == 'asin':
            r = div(d, f_sqrt(sub(Fr(1), mul(A.arg, A.arg))))
        elif A.name == 'atan':
            r = div(d, add(Fr(1), mul(A.arg, A.arg)))
        elif A.name == 'erf':
            r = mul(mul(const('two_over_sqrt_pi'), f_exp(neg(mul(A.arg, A.arg)))), d)
        else:
            raise Unsupported('derivative of ' + A.name)
    else:
        raise Unsupported('derivative of ' + kd)
    DIFFC[k] = r
    return r


def depends(aid, x, memo={}):
    return True


def diff_poly(p, x):
    r = Fr(0)
    # group by atom: sum over atoms of (dp/datom) * datom/dx
    atoms = pvars(p)
    for a in atoms:
        da = diff_atom(a, x)
        if type(da) is Fr and not da:
            continue
        q = {}
        for m, c in p.items():
            for b, e in m:
                if b == a:
                    mm = tuple((i, k - 1 if i == a else k) for i, k in m if i != a or k != 1)
                    q[mm] = q.get(mm, 0) + c * e
        if q:
            r = add(r, mul(mk(q, {}), da))
    return r


def diff(t, x):
    if type(t) is Fr:
        return Fr(0)
    k = (t.key(), x)
    r = DIFFC.get(k)
    if r is not None:
        return r
    r = diff_poly(t.num, x)
    if t.den:
        if not (type(r) is Fr and not r):
            r = mul(r, mk({(): Fr(1)}, dict(t.den)))
        for f, e in t.den:
            d = diff_poly(FACTORS[f], x)
            if type(d) is Fr and not d:
                continue
            r = sub(r, mul(mul(Fr(e), t), mul(d, mk({(): Fr(1)}, {f: 1}))))
    DIFFC[k] = r
    return r


# ------------------------------------------------------------------ substitution
def subst_poly(p, m, memo):
    r = Fr(0)
    for mono, c in p.items():
        t = c
        keep = []
        for a, e in mono:
            v = subst_atom(a, m, memo)
            if v is None:
                keep.append((a, e))
            elif type(e) is int:
                t = mul(t, powi(v, e) if e > 0 else inv(powi(v, -e)))
            else:
                raise Unsupported('substitution under a root')
        if keep:
            t = mul(t, mk({tuple(keep): Fr(1)}, {}))
        r = add(r, t)
    return r


def subst_atom(aid, m, memo):
    """the substituted atom, None when unchanged"""
    if aid in m:
        return m[aid]
    if aid in memo:
        return memo[aid]
    A = ATOMS[aid]
    kd = A.kind
    r = None
    if kd in ('log', 'sqrt', 'abs'):
        if any(depends(a, x) for mo in A.poly for a, _ in mo for x in m):
            t = subst_poly(A.poly, m, memo)
            r = {'log': log_abs, 'sqrt': f_sqrt, 'abs': f_abs}[kd](t)
    elif kd in ('exp', 'sin', 'cos', 'uf') and any(depends(aid, x) for x in m):
        t = subst(A.arg, m, memo)
        r = {'exp': f_exp, 'sin': f_sin, 'cos': f_cos}[kd](t) if kd != 'uf' else {'asin': f_asin, 'atan': f_atan, 'erf': f_erf}[A.name](t)
    if type(r) is float:
        raise Unsupported('substitution leaves the reals')
    memo[aid] = r
    return r


def subst(t, m, memo=None):
    """t with the variables of m (atom id -> term) replaced"""
    if memo is None:
        memo = {}
    if type(t) is not RF:
        return t
    r = subst_poly(t.num, m, memo)
    for f, e in t.den:
        d = subst_poly(FACTORS[f], m, memo)
        if type(d) is Fr and not d:
            raise Unsupported('substitution divides by zero')
        r = div(r, powi(d, e))
    return r


# ------------------------------------------------------------------ numeric evaluation
def ev_atom(aid, pt, memo):
    v = memo.get(aid)
    if v is not None:
        return v
    A = ATOMS[aid]
    kd = A.kind
    if kd == 'var':
        v = mp.mpf(pt[A.name])
    elif kd == 'exp':
        v = mp.exp(ev(A.arg, pt, memo))
    elif kd == 'log':
        v = mp.log(abs(ev_poly(A.poly, pt, memo)))
    elif kd == 'logc':
        v = mp.log(mp.mpf(A.arg.numerator))
    elif kd == 'sqrt':
        v = mp.sqrt(ev_poly(A.poly, pt, memo))
    elif kd == 'abs':
        v = abs(ev_poly(A.poly, pt, memo))
    elif kd == 'sin':
        v = mp.sin(ev(A.arg, pt, memo))
    elif kd == 'cos':
        v = mp.cos(ev(A.arg, pt, memo))
    elif kd == 'uf':
        v = getattr(mp, A.name)(ev(A.arg, pt, memo))
    elif kd == 'const':
        v = CONSTS[A.name]
    else:
        raise Unsupported(kd)
    if not isinstance(v, mp.mpf):
        v = mp.mpf(v) if not isinstance(v, mp.mpc) else None
    if v is None:
        raise ArithmeticError('complex')
    memo[aid] = v
    return v


def ev_poly(p, pt, memo):
    r = mp.mpf(0)
    for m, c in p.items():
        t = mp.mpf(c.numerator) / c.denominator
        for a, e in m:
            b = ev_atom(a, pt, memo)
            if isinstance(e, Fr):
                t *= mp.power(b, mp.mpf(e.numerator) / e.denominator)
            else:
                t *= b ** e
        r += t
    return r


def ev(t, pt, memo=None):
    if memo is None:
        memo = {}
    if type(t) is float:
        return mp.mpf(t)
    if type(t) is Fr:
        return mp.mpf(t.numerator) / t.denominator
    r = ev_poly(t.num, pt, memo)
    for f, e in t.den:
        r /= ev_poly(FACTORS[f], pt, memo) ** e
    return r


# ------------------------------------------------------------------ printing
def show_atom(a):
    A = ATOMS[a]
    if A.kind in ('var', 'const', 'logc'):
        return A.name
    if A.poly is not None:
        return '%s(%s)' % (A.name, show_poly(A.poly))
    return '%s(%s)' % (A.name, show(A.arg))


def show_poly(p):
    if not p:
        return '0'
    out = []
    for m in sorted(p, key=mono_order, reverse=True)[:12]:
        c = p[m]
        t = '*'.join(show_atom(a) + ('' if e == 1 else '^%s' % e) for a, e in m)
        out.append((('%s*' % c if c != 1 else '') + t) if t else str(c))
    if len(p) > 12:
        out.append('...(%d terms)' % len(p))
    return ' + '.join(out)


def show(t):
    if type(t) is not RF:
        return str(t)
    s = show_poly(t.num)
    if t.den:
        s = '(%s)/(%s)' % (s, ' * '.join('(%s)%s' % (show_poly(FACTORS[f]), '' if e == 1 else '^%d' % e) for f, e in t.den))
    return s
