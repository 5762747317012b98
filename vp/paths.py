"""Path contexts: every data-dependent decision of the analysed program (or of
the specification) is decided by the solver under the current path condition,
and forked when both outcomes are feasible."""
import time
from fractions import Fraction as Fr
import z3
from . import alg
from .alg import RF, INF, NAN, FACTORS, ATOMS, pmul, pkey, plead, psign

REL = {'<': {-1}, '<=': {-1, 0}, '>': {1}, '>=': {0, 1}, '==': {0}, '!=': {-1, 1}}


class PathEnd(Exception):
    """path infeasible / pruned"""


class Violation(Exception):
    def __init__(self, kind, msg):
        Exception.__init__(self, kind + ': ' + msg)
        self.kind = kind
        self.msg = msg


class Budget(Exception):
    pass


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.time = 0.0
        self.syntactic = 0

    def add(self, o):
        for k, v in o.items():
            setattr(self, k, getattr(self, k) + v)


STATS = Stats()


# ---------------------------------------------------------------- z3 emission
class Emit:
    """translates polynomials to z3 terms; shared over a program run"""

    def __init__(self):
        self.cache = {}
        self.zvars = {}
        self.roots = {}
        self.ax = {}

    def var(self, a):
        v = self.zvars.get(a)
        if v is None:
            A = ATOMS[a]
            nm = A.name if A.kind == 'var' else '%s_%d' % (A.name, a)
            v = z3.Real(nm)
            self.zvars[a] = v
        return v

    def power(self, a, e):
        if isinstance(e, Fr) and e.denominator != 1:
            k = (a, e.denominator)
            r = self.roots.get(k)
            if r is None:
                r = z3.Real('root_%d_%d' % k)
                self.roots[k] = r
            b, n = r, e.numerator
        else:
            b, n = self.var(a), int(e)
        if n == 1:
            return b
        return z3.Product([b] * n)

    def poly(self, p):
        k = pkey(p)
        r = self.cache.get(k)
        if r is not None:
            return r
        terms = []
        for m in sorted(p, key=alg.mono_order):
            c = p[m]
            fs = [self.power(a, e) for a, e in m]
            if c != 1 or not fs:
                fs.insert(0, z3.RealVal(c))
            terms.append(fs[0] if len(fs) == 1 else z3.Product(fs))
        r = z3.RealVal(0) if not terms else (terms[0] if len(terms) == 1 else z3.Sum(terms))
        self.cache[k] = r
        return r

    def clear_units(self, *ps):
        """multiply all polys by one positive unit monomial making exponents nonnegative"""
        lo = {}
        for p in ps:
            for m in p:
                for a, e in m:
                    if e < 0 and e < lo.get(a, 0):
                        lo[a] = e
        if not lo:
            return ps
        u = tuple(sorted((a, -e) for a, e in lo.items()))
        return tuple({alg.mono_mul(m, u): c for m, c in p.items()} for p in ps)

    def cond(self, p, rel):
        p, = self.clear_units(p)
        e = self.poly(p)
        z = z3.RealVal(0)
        return {'<': e < z, '<=': e <= z, '>': e > z, '>=': e >= z, '==': e == z, '!=': e != z}[rel]

    def atoms_of(self, ps):
        """transitive closure of atoms"""
        todo = set()
        for p in ps:
            todo |= alg.pvars(p)
        seen = set()
        while todo:
            a = todo.pop()
            if a in seen:
                continue
            seen.add(a)
            A = ATOMS[a]
            new = set()
            if A.poly is not None:
                new |= alg.pvars(A.poly)
            if type(A.arg) is RF:
                new |= alg.pvars(A.arg.num)
                for f, _ in A.arg.den:
                    new |= alg.pvars(FACTORS[f])
            todo |= new - seen
        return seen

    def axioms(self, atoms):
        out = []
        for a in sorted(atoms):
            A = ATOMS[a]
            x = self.var(a)
            if A.kind == 'exp':
                out.append(x > 0)
                if type(A.arg) is RF and not A.arg.den:
                    t = self.poly(self.clear_units(A.arg.num)[0]) if all(e > 0 for m in A.arg.num for _, e in m) else None
                    if t is not None:
                        out.append(z3.If(t > 0, x > 1, z3.If(t < 0, x < 1, x == 1)))
            elif A.kind == 'sqrt':
                out.append(x >= 0)
                p, = self.clear_units(A.poly)
                if p is A.poly or pkey(p) == pkey(A.poly):
                    out.append(x * x == self.poly(p))
            elif A.kind == 'abs':
                out.append(x >= 0)
                p, = self.clear_units(A.poly)
                if pkey(p) == pkey(A.poly):
                    e = self.poly(p)
                    out.append(z3.Or(x == e, x == -e))
            elif A.kind == 'sin':
                out.append(x <= 1)
                out.append(x >= -1)
            elif A.kind == 'cos':
                s = alg.sin_atom(A.arg)
                y = self.var(s.id)
                out.append(x * x + y * y == 1)
            elif A.kind == 'logc':
                out.append(x > 0)
            elif A.kind == 'log':
                p, = self.clear_units(A.poly)
                if pkey(p) == pkey(A.poly):
                    e = self.poly(p)
                    out.append(z3.Implies(x > 0, z3.Or(e > 1, e < -1)))
                    out.append(z3.Implies(x < 0, z3.And(e < 1, e > -1)))
                    out.append(z3.Implies(x == 0, z3.Or(e == 1, e == -1)))
            elif A.kind == 'const':
                out.append(x > z3.RealVal('3.14159265'))
                out.append(x < z3.RealVal('3.14159266'))
            elif A.kind == 'uf' and A.name in ('asin', 'atan'):
                out.append(x < z3.RealVal('1.5708'))
                out.append(x > z3.RealVal('-1.5708'))
            elif A.kind == 'uf' and A.name == 'erf':
                out.append(x < 1)
                out.append(x > -1)
        # functions of equal arguments are equal
        groups = {}
        for a in sorted(atoms):
            A = ATOMS[a]
            if A.kind in ('log', 'abs', 'sqrt'):
                groups.setdefault(A.kind, []).append((a, A.poly))
            elif A.kind in ('exp', 'sin', 'cos', 'uf') and type(A.arg) is RF and not A.arg.den:
                groups.setdefault((A.kind, getattr(A, 'name', None) if A.kind == 'uf' else None), []).append((a, A.arg.num))
        for k, g in groups.items():
            g = [(a, p) for a, p in g if pkey(self.clear_units(p)[0]) == pkey(p) and len(p) <= 12][:8]
            for i in range(len(g)):
                for j in range(i):
                    (a, p), (b, q) = g[i], g[j]
                    p, q = self.poly(p), self.poly(q)
                    c = p == q if k != 'log' and k != 'abs' else z3.Or(p == q, p == -q)
                    out.append(z3.Implies(c, self.var(a) == self.var(b)))
        for (a, q), r in self.roots.items():
            if a in atoms:
                out.append(r > 0)
                out.append(z3.Product([r] * q) == self.var(a))
        return out


EMIT = None


def new_program():
    global EMIT
    alg.reset()
    FREE.clear()
    KEEP.clear()
    COMP.clear()
    EMIT = Emit()


QTIMEOUT = [4000]


class Models:
    """models of independent components"""

    def __init__(self):
        self.by = {}

    def eval(self, v, model_completion=True):
        m = self.by.get(v.get_id())
        if m is None:
            return z3.RealVal(0)
        return m.eval(v, model_completion=model_completion)


FREE = {}       # ast id -> frozenset of variable ids
KEEP = []       # keeps asts alive so that their ids stay unique
COMP = {}       # component -> (verdict, model)


def free_vars(e):
    i = e.get_id()
    r = FREE.get(i)
    if r is not None:
        return r
    if z3.is_const(e):
        r = frozenset() if e.decl().kind() != z3.Z3_OP_UNINTERPRETED else frozenset((i,))
    else:
        r = frozenset().union(*[free_vars(c) for c in e.children()])
    KEEP.append(e)
    FREE[i] = r
    return r


def components(conds):
    """partition into groups sharing variables"""
    parent = {}

    def find(a):
        while parent[a] != a:
            parent[a] = parent[parent[a]]
            a = parent[a]
        return a
    ground = []
    items = []
    for c in conds:
        fv = free_vars(c)
        if not fv:
            ground.append(c)
            continue
        it = iter(fv)
        f = next(it)
        parent.setdefault(f, f)
        for v in it:
            parent.setdefault(v, v)
            a, b = find(f), find(v)
            if a != b:
                parent[a] = b
        items.append((c, f))
    groups = {}
    for c, f in items:
        groups.setdefault(find(f), []).append(c)
    out = list(groups.values())
    if ground:
        out.append(ground)
    return out


def solve(conds, timeout=None, want_model=False, conditions_polys=None):
    """conds: list of z3 formulas; returns 'sat'/'unsat'/'unknown' (and model).
    Conjuncts without common variables are decided separately."""
    t0 = time.time()
    verdict = 'sat'
    models = Models()
    groups = [(frozenset(c.get_id() for c in g), g) for g in components(conds)]
    groups.sort(key=lambda kg: (kg[0] not in COMP, len(kg[1])))
    fresh = False
    to = int(timeout or QTIMEOUT[0])
    for key, g in groups:
        r, m, was = COMP.get(key, (None, None, 0))
        if r is None or (r == 'unknown' and was < to):
            s = z3.SolverFor('QF_NRA')
            s.set('timeout', to)
            for c in g:
                s.add(c)
            r = str(s.check())
            m = s.model() if r == 'sat' else None
            COMP[key] = (r, m, to)
            KEEP.extend(g)
            fresh = True
        if r == 'unsat':
            verdict = 'unsat'
            break
        if r == 'unknown':
            verdict = 'unknown'
        elif m is not None and want_model:
            for c in g:
                for v in free_vars(c):
                    models.by[v] = m
    STATS.queries += 1
    STATS.time += time.time() - t0
    setattr(STATS, verdict, getattr(STATS, verdict) + 1)
    if want_model:
        return verdict, (models if verdict == 'sat' else None)
    return verdict


class Ctx:
    """symbolic path context"""
    numeric = False

    def __init__(self, prefix=(), deadline=None, timeout=1500):
        self.prefix = list(prefix)
        self.trace = []         # (choice, [other feasible choices])
        self.pc = []            # list of (poly, rel)
        self.poss = {}          # normalised poly key -> possible signs
        self.pos = {}           # atom -> known strict sign
        self.deadline = deadline
        self.timeout = timeout
        self.notes = []
        self.undef = 0
        self.witness = None

    # -- bookkeeping
    def norm(self, p):
        if len(p) == 1 or True:
            c = p[plead(p)]
            if c < 0:
                return alg.pscale(p, -1), -1
            return p, 1

    def strip(self, p):
        """divide out common factors of known strict sign"""
        if len(p) < 2:
            return p
        com = None
        for m in p:
            d = {a: e for a, e in m if ATOMS[a].kind == 'exp' or a in self.pos}
            if com is None:
                com = d
            else:
                com = {a: min(e, d[a]) for a, e in com.items() if a in d}
            if not com:
                return p
        com = {a: e for a, e in com.items() if type(e) is int and e > 0}
        if not com:
            return p
        u = tuple(sorted((a, -e) for a, e in com.items()))
        sg = 1
        for a, e in com.items():
            if self.pos.get(a) == -1 and e % 2:
                sg = -sg
        return {alg.mono_mul(m, u): c * sg for m, c in p.items()}

    def get_poss(self, q):
        k = pkey(q)
        s = self.poss.get(k)
        if s is None:
            sg = psign(q, self.pos)
            s = {None: {-1, 0, 1}, '+': {1}, '-': {-1}, '0+': {0, 1}, '0-': {-1, 0}, '0': {0}}[sg]
            self.poss[k] = s
        return s

    def learn(self, q, signs):
        k = pkey(q)
        self.poss[k] = signs
        if len(signs) == 1:
            sg = next(iter(signs))
            if len(q) == 1 and sg:
                (m, c), = q.items()
                if len(m) == 1 and m[0][1] % 2 == 1:
                    self.pos[m[0][0]] = sg if c > 0 else -sg
                    for kk in list(self.poss):
                        if len(self.poss[kk]) > 1:
                            del self.poss[kk]

    def add_pc(self, p, rel):
        self.pc.append((p, rel))

    def conds(self, extra=()):
        ps = [p for p, _ in self.pc] + [p for p, _ in extra]
        out = [EMIT.cond(p, r) for p, r in self.pc] + [EMIT.cond(p, r) for p, r in extra]
        return out + EMIT.axioms(EMIT.atoms_of(ps))

    def feasible(self, extra):
        # cheap numeric witness first: a point satisfying everything proves feasibility
        if self.deadline and time.time() > self.deadline:
            raise Budget('time')
        return solve(self.conds(extra), self.timeout) != 'unsat'

    # -- assumptions (from the specification's domain)
    def assume_sign(self, t, rel):
        if type(t) is float:
            ok = {'<': t < 0, '<=': t <= 0, '>': t > 0, '>=': t >= 0, '==': t == 0, '!=': t != 0}[rel]
            if not ok:
                raise PathEnd()
            return
        if type(t) is Fr:
            s = (t > 0) - (t < 0)
            if s not in REL[rel]:
                raise PathEnd()
            return
        p = self.strip(alg.sign_poly(t))
        q, sg = self.norm(p)
        want = {s * sg for s in REL[rel]}
        now = self.get_poss(q)
        if now <= want:
            return
        if not (now & want):
            raise PathEnd()
        self.learn(q, now & want)
        self.add_pc(p, rel)

    # -- decisions
    def pick(self, feas):
        """feas: function(choice)->bool for choice in 0..n-1 given lazily as list of (choice, thunk)"""
        i = len(self.trace)
        if i < len(self.prefix):
            c = self.prefix[i]
            self.trace.append((c, []))
            return c
        ok = [c for c, th in feas if th()]
        if not ok:
            raise PathEnd()
        self.trace.append((ok[0], ok[1:]))
        return ok[0]

    def choose(self, n):
        return self.pick([(c, lambda: True) for c in range(n)])

    def decide(self, t, rel):
        """truth of 't rel 0'"""
        if type(t) is Fr:
            s = (t > 0) - (t < 0)
            return s in REL[rel]
        p = self.strip(alg.sign_poly(t) if rel not in ('==', '!=') else t.num)
        q, sg = self.norm(p)
        want = {s * sg for s in REL[rel]}
        now = self.get_poss(q)
        if now <= want:
            STATS.syntactic += 1
            return True
        if not (now & want):
            STATS.syntactic += 1
            return False
        yes = rel
        no = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}[rel]
        i = len(self.trace)
        if i < len(self.prefix):
            c = self.prefix[i]
            self.trace.append((c, []))
        else:
            fy = self.feasible([(p, yes)])
            fn = self.feasible([(p, no)]) if fy else True
            if fy and fn:
                self.trace.append((1, [0]))
                c = 1
            elif fy or fn:
                # implied: record the decision so that replays of the prefix stay aligned
                c = 1 if fy else 0
                self.trace.append((c, []))
        if c:
            self.learn(q, now & want)
            self.add_pc(p, yes)
            return True
        self.learn(q, now - want)
        self.add_pc(p, no)
        return False

    def sign_cheap(self, t):
        if type(t) is Fr:
            return (t > 0) - (t < 0)
        q, sg = self.norm(self.strip(alg.sign_poly(t)))
        now = self.get_poss(q)
        if now == {1}:
            return sg
        if now == {-1}:
            return -sg
        if now == {0}:
            return 0
        if now == {0, 1} and sg > 0 or now == {-1, 0} and sg < 0:
            return 1        # nonnegative: |t| = t
        if now == {0, -1} and sg > 0 or now == {0, 1} and sg < 0:
            return -1
        return None

    def sign(self, t):
        if type(t) is Fr:
            return (t > 0) - (t < 0)
        if self.decide(t, '>'):
            return 1
        if self.decide(t, '=='):
            return 0
        return -1

    def fdiv(self, a, b):
        if type(b) is float:
            if b != b:
                return NAN
            if type(a) is float:
                return NAN
            return Fr(0)
        if self.decide(b, '=='):
            if type(a) is float:
                return a
            s = self.sign(a)
            return NAN if s == 0 else (INF if s > 0 else -INF)
        if type(a) is float:
            if a != a:
                return NAN
            return a if self.sign(b) > 0 else -a
        return alg.div(a, b)

    def fresh_undef(self):
        v = alg.var('u%d' % self.undef)
        self.undef += 1
        return v


class NumCtx(Ctx):
    """context at one concrete input point (used only to evaluate the specification for replay)"""
    numeric = True

    def __init__(self, pt):
        Ctx.__init__(self)
        self.pt = pt
        self.memo = {}

    def val(self, t):
        return alg.ev(t, self.pt, self.memo)

    def holds(self, t, rel):
        v = self.val(t) if not isinstance(t, dict) else alg.ev_poly(t, self.pt, self.memo)
        if abs(v) < alg.mp.mpf(10) ** -30:
            v = 0
        return {'<': v < 0, '<=': v <= 0, '>': v > 0, '>=': v >= 0, '==': v == 0, '!=': v != 0}[rel]

    def assume_sign(self, t, rel):
        if type(t) is float:
            ok = {'<': t < 0, '<=': t <= 0, '>': t > 0, '>=': t >= 0, '==': t == 0, '!=': t != 0}[rel]
        else:
            ok = self.holds(t, rel)
        if not ok:
            raise PathEnd()

    def decide(self, t, rel):
        if type(t) is Fr:
            s = (t > 0) - (t < 0)
            return s in REL[rel]
        return self.holds(t, rel)

    def sign_cheap(self, t):
        return self.sign(t)

    def sign(self, t):
        v = self.val(t)
        if abs(v) < alg.mp.mpf(10) ** -30:
            return 0
        return 1 if v > 0 else -1

    def choose(self, n):
        return self.choices.pop(0)


def explore(fn, max_paths, deadline, timeout=1500):
    """run fn(ctx) on every feasible path; returns (n_paths, complete)"""
    stack = [[]]
    n = 0
    while stack:
        if n >= max_paths or time.time() > deadline:
            return n, False
        prefix = stack.pop()
        new_program()
        ctx = Ctx(prefix, deadline, timeout)
        alg.CTX = ctx
        ended = False
        try:
            fn(ctx)
        except PathEnd:
            ended = True
        except Budget:
            return n, False
        choices = [c for c, _ in ctx.trace]
        for i in range(len(ctx.trace) - 1, len(prefix) - 1, -1):
            for o in ctx.trace[i][1]:
                stack.append(choices[:i] + [o])
        if not ended:
            n += 1
    return n, True
