"""C15: value semantics of variables, views and bound expressions.
Programs are sequences of copy / move / assign / view / write / evaluate steps interpreted against a reference store."""
from ..dsl import *
from .common import *

BOUNDS = 'fixed and random sequences of up to 14 steps over scalars, vectors of length 1, 3, 6, 7 and matrices 2x2, 3x3, 3x2, 1x3; all offsets and lengths of views and of views of views of 6-vectors; assignment between bound expressions of different lengths'
DIM = {'s': (1, 1), 'v': (3, 1), 'm': (2, 2)}
SEED0 = 500


class _Shape:
    def __init__(self, d):
        self.kind, self.r, self.c = d


class Seq(Prog):
    """steps, see the interpreter below"""
    level = 'raw'

    def __init__(self, name, steps, maxpaths=60, dim=None):
        self.dim = dim or DIM
        self.name, self.steps, self.maxpaths, self.pre, self.info = name, steps, maxpaths, '', ''
        self._cache = None

    # one walk produces the C++ text and, given inp, the expected outputs
    def walk(self, inp):
        mr = self.dim['m'][0]
        L = []
        res = []
        k = [0]
        o = [0]
        sym = inp is not None
        store = {}      # object -> [vals, adjs]
        kind = {}       # object -> shape
        ref = {}        # usable name -> (object, offset, n, kind)
        exprs = {}      # bound expression -> (E, pairs) with state

        def nk():
            k[0] += 1
            return k[0] - 1

        def I(i):
            return inp(i) if sym else Fr(0)

        def out(txt, label, t):
            L.append('vp_out(%d, %s);' % (o[0], txt))
            res.append((o[0], label, t))
            o[0] += 1

        def dump(n):
            ob, off, cnt, kd = ref[n]
            for i in range(cnt):
                ix = (i % mr, i // mr) if kd == 'm' else (i, 0)
                out('%s.get(%d,%d)' % (n, ix[0], ix[1]), 'value of %s[%d]' % (n, i), store[ob][0][off + i])
                out('%s.get_adj(%d,%d)' % (n, ix[0], ix[1]), 'adjoint of %s[%d]' % (n, i), store[ob][1][off + i])

        def dims(n, kd):
            return ref[n][2] if kd == 'v' else None

        def evaluate(E_):
            env = {}
            atoms = {}
            for nm_, (ob, off, cnt, kd) in bindings(E_).items():
                cur = []
                for i in range(cnt):
                    key = (ob, off + i)
                    if key not in atoms:
                        atoms[key] = alg.var('t_%s_%d' % key)
                    cur.append(atoms[key])
                env[nm_] = cur
            a = E_['e'].ev(env)
            m = {}
            for (ob, i), t in atoms.items():
                m[alg.KEYS[('var', 't_%s_%d' % (ob, i))].id] = store[ob][0][i]
            vals = [alg.subst(t, m) for t in a.d]
            grads = {}
            for (ob, i), t in atoms.items():
                aid = alg.KEYS[('var', 't_%s_%d' % (ob, i))].id
                grads[ob, i] = [alg.subst(alg.diff(f, aid), m) for f in a.d]
            return a, vals, grads

        def bindings(E_):
            return E_['refs']

        for st in self.steps:
            op = st[0]
            if op == 'new':
                _, n, kd = st[:3]
                r, c = self.dim[kd]
                if kd == 's' and len(st) > 3:
                    i = nk()
                    L.append('ad::Var<double, ad::scl> %s(vp_in(%d));' % (n, i))
                    store[n] = [[I(i)], [Fr(0)]]
                else:
                    L.append('ad::Var<double, ad::%s> %s%s;' % (SHAPE[kd], n, {'s': '', 'v': '(%d)' % r, 'm': '(%d, %d)' % (r, c)}[kd]))
                    store[n] = [[Fr(0)] * (r * c), [Fr(0)] * (r * c)]
                kind[n] = kd
                ref[n] = (n, 0, r * c, kd)
            elif op in ('set', 'setadj'):
                # st[2]: how to write
                n = st[1]
                how = st[2] if len(st) > 2 else 'ij'
                ob, off, cnt, kd = ref[n]
                w = 0 if op == 'set' else 1
                f = 'get' if w == 0 else 'get_adj'
                d = 'data' if w == 0 else 'data_adj'
                for i in range(cnt):
                    q = nk()
                    ix = (i % mr, i // mr) if kd == 'm' else (i, 0)
                    if how == 'ij':
                        L.append('%s.%s(%d,%d) = vp_in(%d);' % (n, f, ix[0], ix[1], q))
                    elif how == 'data':
                        L.append('%s.%s()[%d] = vp_in(%d);' % (n, d, i, q))
                    elif how == 'get':
                        L.append('%s.%s()%s = vp_in(%d);' % (n, f, '' if kd == 's' else '(%d)' % i if kd == 'v' else '(%d,%d)' % ix, q))
                    elif how == 'elem':
                        L.append('%s[%d].%s() = vp_in(%d);' % (n, i, f, q))
                    elif how == 'paren':
                        L.append('%s(%d).%s(0,0) = vp_in(%d);' % (n, i, f, q))
                    store[ob][w][off + i] = I(q)
            elif op in ('zero', 'ones', 'zero_adj', 'ones_adj', 'reset_adj'):
                n = st[1]
                ob, off, cnt, kd = ref[n]
                L.append('%s.%s();' % (n, op))
                w = 0 if op in ('zero', 'ones') else 1
                for i in range(cnt):
                    store[ob][w][off + i] = Fr(1 if op.startswith('ones') else 0)
            elif op in ('copy', 'move', 'byvalue', 'heapcopy', 'heapmove'):
                _, n, s = st
                ob, off, cnt, kd = ref[s]
                T = 'ad::Var<double, ad::%s>' % SHAPE[kd]
                if op == 'copy':
                    L.append('%s %s(%s);' % (T, n, s))
                elif op == 'move':
                    L.append('%s %s(std::move(%s));' % (T, n, s))
                elif op == 'byvalue':
                    L.append('auto fn_%s = [](%s t) { return t; }; %s %s = fn_%s(%s);' % (n, T, T, n, n, s))
                elif op == 'heapcopy':
                    L.append('auto* hp_%s = new %s(%s); %s %s(*hp_%s); hp_%s->zero(); hp_%s->ones_adj(); delete hp_%s;' % (n, T, s, T, n, n, n, n, n))
                else:
                    L.append('auto* hp_%s = new %s(%s); %s %s(std::move(*hp_%s)); delete hp_%s;' % (n, T, s, T, n, n, n))
                store[n] = [list(store[ob][0]), list(store[ob][1])]
                kind[n] = kd
                ref[n] = (n, 0, cnt, kd)
                if op == 'move':
                    for r_ in list(ref):
                        if ref[r_][0] == ob:
                            del ref[r_]
            elif op in ('assign', 'moveassign'):
                _, n, s = st
                ob, _, cnt, kd = ref[s]
                L.append('%s = %s;' % (n, s if op == 'assign' else 'std::move(%s)' % s))
                if n == s:
                    continue
                tgt = ref[n][0]
                store[tgt] = [list(store[ob][0]), list(store[ob][1])]
                if op == 'moveassign':
                    for r_ in list(ref):
                        if ref[r_][0] == ob or (ref[r_][0] == tgt and r_ != n):
                            del ref[r_]
            elif op == 'swap':
                _, a, b = st
                L.append('std::swap(%s, %s);' % (a, b))
                store[a], store[b] = store[b], store[a]
                for r_ in list(ref):
                    if ref[r_][0] in (a, b) and r_ not in (a, b):
                        del ref[r_]
            elif op == 'vector':
                # into a std::vector that reallocates
                _, n, srcs = st
                kd = ref[srcs[0]][3]
                L.append('std::vector<ad::Var<double, ad::%s>> %s;' % (SHAPE[kd], n))
                for s in srcs:
                    L.append('%s.push_back(%s);' % (n, s))
                for i, s in enumerate(srcs):
                    ob, off, cnt, kd = ref[s]
                    m = '%s[%d]' % (n, i)
                    store[m] = [list(store[ob][0]), list(store[ob][1])]
                    kind[m] = kd
                    ref[m] = (m, 0, cnt, kd)
            elif op == 'grow':
                _, n, s, cntv = st
                L.append('%s.push_back(%s);' % (n, s))
                m = '%s[%d]' % (n, cntv)
                ob, off, cnt, kd = ref[s]
                store[m] = [list(store[ob][0]), list(store[ob][1])]
                for r_ in list(ref):
                    # elements moved: views on them are stale
                    if ref[r_][0].startswith(n + '[') and r_ != ref[r_][0]:
                        del ref[r_]
                ref[m] = (m, 0, cnt, kd)
            elif op == 'view':
                # ('view', new, base, 'elem', i) | head n | tail n
                _, n, b, how, a = st
                ob, off, cnt, kd = ref[b]
                if how == 'elem':
                    L.append('auto %s = %s[%d];' % (n, b, a))
                    ref[n] = (ob, off + a, 1, 's')
                elif how == 'head':
                    L.append('auto %s = %s.head(%d);' % (n, b, a))
                    ref[n] = (ob, off, a, 'v')
                else:
                    L.append('auto %s = %s.tail(%d);' % (n, b, a))
                    ref[n] = (ob, off + cnt - a, a, 'v')
                out('(double)%s.size()' % n, 'size of view', Fr(ref[n][2]))
                out('(double)%s.rows()' % n, 'rows of view', Fr(ref[n][2]))
                out('(double)%s.cols()' % n, 'cols of view', Fr(1))
            elif op == 'rebind':
                # a view bound to (part of) a variable or to raw memory
                _, n, kd, s, off2 = st
                ob, off, cnt, _k = ref[s]
                m = {'s': 1, 'v': 2, 'm': mr * self.dim['m'][1]}[kd]
                T = 'ad::VarView<double, ad::%s>' % SHAPE[kd]
                if n not in ref:
                    L.append('%s %s(nullptr, nullptr%s);' % (T, n, {'s': '', 'v': ', 2', 'm': ', %d, %d' % self.dim['m']}[kd]))
                L.append('{ auto pk = %s.bind({%s.data() + %d, %s.data_adj() + %d});' % (n, s, off2, s, off2))
                out('(double)(pk.val - %s.data())' % n, 'value slots consumed', Fr(m))
                out('(double)(pk.adj - %s.data_adj())' % n, 'adjoint slots consumed', Fr(m))
                L.append('}')
                ref[n] = (ob, off + off2, m, kd)
            elif op == 'raw':
                # plain memory behind a view
                _, n, cnt = st
                L.append('double %s_v[%d], %s_a[%d];' % (n, cnt, n, cnt))
                vs, as_ = [], []
                for i in range(cnt):
                    q, r = nk(), nk()
                    L.append('%s_v[%d] = vp_in(%d); %s_a[%d] = vp_in(%d);' % (n, i, q, n, i, r))
                    vs.append(I(q))
                    as_.append(I(r))
                store[n] = [vs, as_]
                L.append('ad::VarView<double, ad::vec> %s(%s_v, %s_a, %d);' % (n, n, n, cnt))
                ref[n] = (n, 0, cnt, 'v')
            elif op == 'dump':
                for n in st[1:] or sorted(ref):
                    dump(n)
            elif op == 'bind':
                # ('bind', name, fn, [refs])
                _, n, f, rs = st
                ls = [Leaf(r_, ref[r_][3], *((ref[r_][2], 1) if ref[r_][3] != 'm' else self.dim['m']), 'in') for r_ in rs]
                e = f(*ls)
                L.append('auto %s = ad::bind(%s);' % (n, e.cpp()))
                exprs[n] = {'e': e, 'refs': {r_: ref[r_] for r_ in rs}, 'last': None, 'rs': rs}
            elif op in ('ecopy', 'emove', 'eheap', 'eheapmove', 'ereturn'):
                _, n, s = st
                if op == 'ecopy':
                    L.append('auto %s = %s;' % (n, s))
                elif op == 'emove':
                    L.append('auto %s = std::move(%s);' % (n, s))
                elif op == 'eheap':
                    L.append('auto* hp_%s = new auto(%s); auto %s = *hp_%s; delete hp_%s;' % (n, s, n, n, n))
                elif op == 'eheapmove':
                    L.append('auto* hp_%s = new auto(%s); auto %s = std::move(*hp_%s); delete hp_%s;' % (n, s, n, n, n))
                else:
                    L.append('auto fn_%s = [](auto t) { return t; }; auto %s = fn_%s(%s);' % (n, n, n, s))
                exprs[n] = dict(exprs[s])
                if op == 'emove':
                    del exprs[s]
            elif op in ('eassign', 'emoveassign', 'eheapassign', 'eheapmoveassign'):
                _, n, s = st
                if 'heap' in op:
                    L.append('{ auto* hp_ = new auto(%s); %s = %s; delete hp_; }' % (s, n, '*hp_' if op == 'eheapassign' else 'std::move(*hp_)'))
                else:
                    L.append('%s = %s;' % (n, s if op == 'eassign' else 'std::move(%s)' % s))
                exprs[n] = dict(exprs[s])
            elif op == 'eval':
                n = st[1]
                E_ = exprs[n]
                E_['last'] = evaluate(E_) if sym else (_Shape(E_['e'].dims()), None, None)
                a, vals, _ = E_['last']
                L.append('{ auto r_ = ad::evaluate(%s);' % n)
                for j in range(a.c):
                    for i in range(a.r):
                        out('r_' if a.kind == 's' else 'r_(%d,%d)' % (i, j), 'value of %s' % n, vals[i + j * a.r] if sym else None)
                L.append('}')
            elif op in ('adj', 'diff'):
                n = st[1]
                E_ = exprs[n]
                if op == 'diff':
                    E_['last'] = evaluate(E_) if sym else (_Shape(E_['e'].dims()), None, None)
                a, vals, grads = E_['last']
                ks = [nk() for _ in range(a.r * a.c)]
                L.append('{')
                if a.kind == 's':
                    sd = 'vp_in(%d)' % ks[0]
                else:
                    L.append('%s sd(%s);' % ('Eigen::ArrayXd' if a.kind == 'v' else 'Eigen::ArrayXXd', a.r if a.kind == 'v' else '%d, %d' % (a.r, a.c)))
                    for j in range(a.c):
                        for i in range(a.r):
                            L.append('sd(%d,%d) = vp_in(%d);' % (i, j, ks[i + j * a.r]))
                    sd = 'sd'
                if op == 'diff':
                    L.append('auto r_ = ad::autodiff(%s, %s);' % (n, sd))
                    for j in range(a.c):
                        for i in range(a.r):
                            out('r_' if a.kind == 's' else 'r_(%d,%d)' % (i, j), 'value of %s' % n, vals[i + j * a.r] if sym else None)
                else:
                    L.append('ad::evaluate_adj(%s.get(), %s);' % (n, sd))
                L.append('}')
                if sym:
                    for (ob, i), gs in grads.items():
                        t = store[ob][1][i]
                        for s_, g in zip(ks, gs):
                            t = add(t, mul(I(s_), g))
                        store[ob][1][i] = t
            elif op == 'kill':
                raise ValueError
            else:
                raise ValueError(op)
        return '\n'.join(L), res

    def body(self):
        if self._cache is None:
            alg.reset()
            self._cache = self.walk(None)[0]
        return self._cache

    def spec(self, inp):
        return [x for x in self.walk(inp)[1] if x[2] is not None]


def programs(tier, rng):
    ps = []
    deep = tier == 'thorough'

    def S(name, *steps):
        ps.append(Seq(name, list(steps)))
    fs = {'s': lambda x: x * x + sin(x), 'v': lambda x: x * x, 'm': lambda x: x * x}
    f2 = {'s': lambda x, y: x * y + x, 'v': lambda x, y: summ(x * y) , 'm': lambda x, y: dot(x, y)}
    for kd in 'svm':
        f, g = fs[kd], f2[kd]
        hows = {'s': ['ij', 'data', 'get'], 'v': ['ij', 'data', 'get', 'elem', 'paren'], 'm': ['ij', 'data', 'get']}[kd]
        S('default.' + kd, ('new', 'x', kd), ('dump',))
        for h in hows:
            S('write.%s.%s' % (kd, h), ('new', 'x', kd), ('set', 'x', h), ('setadj', 'x', h), ('dump',), ('set', 'x', 'ij'), ('dump',))
        for c in ('copy', 'byvalue', 'heapcopy', 'heapmove'):
            S('%s.%s' % (c, kd), ('new', 'x', kd), ('set', 'x'), ('setadj', 'x'), (c, 'y', 'x'), ('dump',), ('set', 'y'), ('setadj', 'y'), ('dump',), ('set', 'x'), ('setadj', 'x'), ('dump',))
            S('%s.expr.%s' % (c, kd), ('new', 'x', kd), ('set', 'x'), ('setadj', 'x'), ('bind', 'e', f, ['x']), (c, 'y', 'x'), ('bind', 'e2', g, ['x', 'y']), ('set', 'y'), ('diff', 'e'), ('dump',),
              ('set', 'x'), ('diff', 'e2'), ('dump',), ('diff', 'e'), ('dump',))
        S('move.' + kd, ('new', 'x', kd), ('set', 'x'), ('setadj', 'x'), ('move', 'y', 'x'), ('dump',), ('set', 'y'), ('bind', 'e', f, ['y']), ('diff', 'e'), ('dump',))
        S('movecopy.' + kd, ('new', 'x', kd), ('set', 'x'), ('copy', 'z', 'x'), ('move', 'y', 'x'), ('set', 'z'), ('setadj', 'z'), ('dump',), ('move', 'w', 'z'), ('set', 'y'), ('dump',))
        S('assign.' + kd, ('new', 'x', kd), ('new', 'y', kd), ('set', 'x'), ('setadj', 'x'), ('set', 'y'), ('assign', 'y', 'x'), ('dump',), ('set', 'x'), ('setadj', 'y'), ('dump',), ('assign', 'y', 'x'), ('dump',))
        S('assign.self.' + kd, ('new', 'x', kd), ('set', 'x'), ('setadj', 'x'), ('assign', 'x', 'x'), ('dump',), ('bind', 'e', f, ['x']), ('diff', 'e'), ('dump',))
        S('assign.expr.' + kd, ('new', 'x', kd), ('new', 'y', kd), ('set', 'x'), ('set', 'y'), ('setadj', 'y'), ('bind', 'e', f, ['x']), ('bind', 'e2', g, ['x', 'y']), ('diff', 'e'),
          ('assign', 'x', 'y'), ('eval', 'e'), ('adj', 'e'), ('dump',), ('diff', 'e2'), ('dump',), ('set', 'y'), ('diff', 'e'), ('dump',))
        S('moveassign.' + kd, ('new', 'x', kd), ('new', 'y', kd), ('set', 'x'), ('setadj', 'x'), ('set', 'y'), ('moveassign', 'y', 'x'), ('dump',), ('bind', 'e', f, ['y']), ('set', 'y'), ('diff', 'e'), ('dump',))
        S('swap.' + kd, ('new', 'x', kd), ('new', 'y', kd), ('set', 'x'), ('setadj', 'x'), ('set', 'y'), ('swap', 'x', 'y'), ('dump',), ('bind', 'e', g, ['x', 'y']), ('set', 'x'), ('diff', 'e'), ('dump',))
        S('vector.' + kd, ('new', 'x', kd), ('new', 'y', kd), ('set', 'x'), ('set', 'y'), ('setadj', 'y'), ('vector', 'vs', ['x', 'y', 'x']), ('dump',), ('set', 'vs[1]'), ('set', 'vs[2]'), ('dump',),
          ('grow', 'vs', 'y', 3), ('grow', 'vs', 'x', 4), ('dump',), ('bind', 'e', g, ['vs[1]', 'vs[4]']), ('set', 'vs[4]'), ('diff', 'e'), ('dump',))
        for z_ in ('zero', 'ones', 'zero_adj', 'ones_adj', 'reset_adj'):
            S('%s.%s' % (z_, kd), ('new', 'x', kd), ('set', 'x'), ('setadj', 'x'), ('copy', 'y', 'x'), (z_, 'x'), ('dump',))
            if kd == 'v':
                S('%s.view' % z_, ('new', 'x', kd), ('set', 'x'), ('setadj', 'x'), ('view', 'h', 'x', 'tail', 2), (z_, 'h'), ('dump',), ('view', 'q', 'h', 'elem', 0), ('set', 'x'), ('setadj', 'x'), (z_, 'q'), ('dump',))
        # bound expressions
        for c in ('ecopy', 'emove', 'eheap', 'eheapmove', 'ereturn'):
            S('%s.%s' % (c, kd), ('new', 'x', kd), ('new', 'y', kd), ('set', 'x'), ('set', 'y'), ('bind', 'e', lambda x, y, g=g: sin(g(x, y)) * 2.0, ['x', 'y']), (c, 'f', 'e'), ('diff', 'f'), ('dump',), ('set', 'x'), ('eval', 'f'), ('adj', 'f'), ('dump',))
            S('%s.evald.%s' % (c, kd), ('new', 'x', kd), ('new', 'y', kd), ('set', 'x'), ('set', 'y'), ('bind', 'e', lambda x, y, g=g: sin(g(x, y)) * 2.0, ['x', 'y']), ('eval', 'e'), (c, 'f', 'e'), ('adj', 'f'), ('dump',), ('set', 'y'), ('diff', 'f'), ('dump',))
        S('ecopy.indep.' + kd, ('new', 'x', kd), ('new', 'y', kd), ('set', 'x'), ('set', 'y'), ('bind', 'e', lambda x, y, g=g: exp(g(x, y)) * g(x, y), ['x', 'y']), ('ecopy', 'f', 'e'), ('eval', 'f'), ('set', 'x'), ('eval', 'e'), ('adj', 'e'), ('dump',),
          ('set', 'y'), ('eval', 'f'), ('eval', 'e'), ('adj', 'f'), ('adj', 'e'), ('dump',))
        S('ecopy.chain.' + kd, ('new', 'x', kd), ('new', 'y', kd), ('set', 'x'), ('set', 'y'), ('bind', 'e', lambda x, y, g=g: g(x, y) * g(y, x), ['x', 'y']), ('ecopy', 'f', 'e'), ('emove', 'h', 'f'), ('ecopy', 'q', 'h'), ('diff', 'q'), ('dump',), ('diff', 'h'), ('diff', 'e'), ('dump',))
        for c in ('eassign', 'emoveassign'):
            S('%s.%s' % (c, kd), ('new', 'x', kd), ('new', 'y', kd), ('set', 'x'), ('set', 'y'), ('bind', 'e', lambda x, y, g=g: sin(g(x, y)) * 2.0, ['x', 'y']), ('ecopy', 'f', 'e'), ('eval', 'e'), ('set', 'x'), ('eval', 'f'), (c, 'e', 'f'), ('adj', 'e'), ('dump',), ('set', 'y'), ('diff', 'e'), ('dump',))
        S('eassign.then.' + kd, ('new', 'x', kd), ('new', 'y', kd), ('set', 'x'), ('set', 'y'), ('bind', 'e', lambda x, y, g=g: sin(g(x, y)) * 2.0, ['x', 'y']), ('ecopy', 'f', 'e'), ('eassign', 'f', 'e'), ('diff', 'f'), ('set', 'x'), ('diff', 'e'), ('eval', 'f'), ('set', 'y'), ('eval', 'e'), ('diff', 'f'), ('dump',))
    S('ctor.value', ('new', 'x', 's', 1), ('new', 'y', 's', 1), ('dump',), ('copy', 'z', 'x'), ('bind', 'e', lambda x, y: x * y, ['z', 'y']), ('diff', 'e'), ('dump',))
    # views
    for h, a in [('elem', i) for i in range(3)] + [('head', i) for i in range(4)] + [('tail', i) for i in range(4)]:
        S('view.%s%d' % (h, a), ('new', 'x', 'v'), ('set', 'x'), ('setadj', 'x'), ('view', 'h', 'x', h, a), ('dump',), ('set', 'h'), ('setadj', 'h', 'data'), ('dump',), ('set', 'x'), ('setadj', 'x'), ('dump',))
        if a or h == 'elem':
            S('view.expr.%s%d' % (h, a), ('new', 'x', 'v'), ('set', 'x'), ('setadj', 'x'), ('view', 'h', 'x', h, a), ('bind', 'e', lambda v: v * v + v, ['h']), ('set', 'x'), ('diff', 'e'), ('dump',), ('bind', 'e2', lambda v, w: sin(v) * summ(w), ['h', 'x']), ('set', 'h'), ('diff', 'e2'), ('dump',))
            S('view.assign.%s%d' % (h, a), ('new', 'x', 'v'), ('new', 'y', 'v'), ('set', 'x'), ('set', 'y'), ('setadj', 'y'), ('view', 'h', 'x', h, a), ('bind', 'e', lambda v: v * v, ['h']), ('assign', 'x', 'y'), ('dump',), ('diff', 'e'), ('dump',))
    for h1, a1 in (('head', 2), ('tail', 2), ('head', 3), ('tail', 1)):
        for h2, a2 in (('head', 1), ('tail', 1), ('elem', 0), ('elem', 1)):
            if a1 == 1 and a2 == 1 and h2 == 'elem':
                continue
            S('view.%s%d.%s%d' % (h1, a1, h2, a2), ('new', 'x', 'v'), ('set', 'x'), ('setadj', 'x'), ('view', 'h', 'x', h1, a1), ('view', 'q', 'h', h2, a2), ('set', 'q'), ('setadj', 'q'), ('dump',), ('bind', 'e', lambda a, b: summ(a) * b, ['x', 'q']), ('diff', 'e'), ('dump',))
    S('view.overlap', ('new', 'x', 'v'), ('set', 'x'), ('setadj', 'x'), ('view', 'h', 'x', 'head', 2), ('view', 't', 'x', 'tail', 2), ('bind', 'e', lambda a, b: a * b, ['h', 't']), ('diff', 'e'), ('dump',), ('set', 'h'), ('diff', 'e'), ('dump',))
    S('view.of.copy', ('new', 'x', 'v'), ('set', 'x'), ('view', 'h', 'x', 'head', 2), ('copy', 'y', 'x'), ('view', 'g', 'y', 'head', 2), ('set', 'g'), ('set', 'h'), ('setadj', 'g'), ('setadj', 'h'), ('dump',))
    # re-bound views
    for kd, offs in (('s', (0, 1, 2)), ('v', (0, 1))):
        for off in offs:
            S('rebind.%s%d' % (kd, off), ('new', 'x', 'v'), ('new', 'y', 'v'), ('set', 'x'), ('set', 'y'), ('rebind', 'u', kd, 'x', off), ('dump',), ('set', 'u'), ('setadj', 'u'), ('dump',), ('rebind', 'u', kd, 'y', 0), ('set', 'u'), ('bind', 'e', lambda a: a * a, ['u']), ('diff', 'e'), ('dump',))
    S('rebind.m', ('new', 'x', 'm'), ('new', 'y', 'm'), ('set', 'x'), ('set', 'y'), ('rebind', 'u', 'm', 'x', 0), ('dump',), ('bind', 'e', lambda a, b: dot(a, b), ['u', 'y']), ('diff', 'e'), ('dump',), ('rebind', 'u', 'm', 'y', 0), ('set', 'u'), ('diff', 'e'), ('dump',))
    S('raw', ('raw', 'r', 3), ('new', 'x', 's'), ('set', 'x'), ('view', 'h', 'r', 'tail', 2), ('bind', 'e', lambda a, b: summ(a * b), ['h', 'x']), ('set', 'h'), ('diff', 'e'), ('dump',))
    # every offset and length of views of longer vectors
    V6 = dict(DIM, v=(6, 1))
    for h, a in [('elem', i) for i in range(6)] + [('head', i) for i in range(7)] + [('tail', i) for i in range(7)]:
        ps.append(Seq('view6.%s%d' % (h, a), [('new', 'x', 'v'), ('set', 'x'), ('setadj', 'x'), ('view', 'h', 'x', h, a), ('dump',), ('set', 'h'), ('setadj', 'h', 'data'), ('dump',), ('set', 'x'), ('dump',)]
                      + ([('bind', 'e', lambda v, w: sin(v) * summ(w), ['h', 'x']), ('diff', 'e'), ('dump',)] if a or h == 'elem' else []), dim=V6))
        for h2, a2 in [('elem', i) for i in range(a)] + [('head', i) for i in range(1, a + 1)] + [('tail', i) for i in range(1, a + 1)] if h != 'elem' else []:
            ps.append(Seq('view6.%s%d.%s%d' % (h, a, h2, a2), [('new', 'x', 'v'), ('set', 'x'), ('setadj', 'x'), ('view', 'h', 'x', h, a), ('view', 'q', 'h', h2, a2), ('dump', 'q'), ('set', 'q'), ('setadj', 'q'), ('dump', 'x')], dim=V6))
    # bound expressions with few or no temporaries, on values or adjoints only
    for kd in 'svm':
        tiny = {'un': lambda x, y: sin(x), 'bin': lambda x, y: x * y, 'pow1': lambda x, y: pw(1, x)}
        if kd != 's':
            tiny.update(sum=lambda x, y: summ(x), prod=lambda x, y: prod(x), norm=lambda x, y: norm(x), tr=lambda x, y: tr(x))
        for t in tiny:
            for c in ('ecopy', 'emove', 'eheap', 'eheapmove', 'ereturn', 'eassign', 'emoveassign', 'eheapassign', 'eheapmoveassign'):
                pre = [('new', 'x', kd), ('new', 'y', kd), ('set', 'x'), ('set', 'y'), ('bind', 'e', tiny[t], ['x', 'y'])]
                if c.startswith('eheap') and 'assign' in c:
                    # the source dies right after the assignment
                    q = pre + [('ecopy', 'f', 'e'), ('eval', 'f'), ('set', 'x'), ('eval', 'e'), (c, 'f', 'e'), ('adj', 'f'), ('dump',), ('set', 'y'), ('diff', 'f'), ('set', 'x'), (c, 'f', 'e'), ('diff', 'f'), ('dump',)]
                elif 'assign' in c:
                    q = pre + [('ecopy', 'f', 'e'), ('eval', 'f'), ('set', 'x'), ('eval', 'e'), (c, 'f', 'e'), ('adj', 'f'), ('dump',), ('set', 'y'), ('eval', 'f')] + ([('set', 'x'), ('eval', 'f'), ('eval', 'e'), ('adj', 'e')] if c == 'eassign' else []) + [('adj', 'f'), ('dump',)]
                else:
                    q = pre + [('eval', 'e'), (c, 'f', 'e'), ('adj', 'f'), ('dump',), ('set', 'x'), ('eval', 'f')] + ([('eval', 'e'), ('adj', 'e')] if c != 'emove' else []) + [('adj', 'f'), ('dump',)]
                ps.append(Seq('tiny.%s.%s.%s' % (t, c, kd), q))
    # assignment between bound expressions over different objects, and of different lengths
    for kd in 'svm':
        fs_ = {'un': lambda x, y: sin(x), 'bin': lambda x, y: x * y, 'pow1': lambda x, y: pw(1, x), 'nest': lambda x, y: sin(x * y) - y}
        if kd != 's':
            fs_.update(sum=lambda x, y: summ(x * y), dot=lambda x, y: dot(x, y), norm=lambda x, y: norm(x - y), tr=lambda x, y: tr(x) if kd == 'm' else tr(x) * tr(y))
        for t in fs_:
            for c in ('eassign', 'emoveassign', 'eheapassign', 'eheapmoveassign'):
                pre = [('new', n, kd) for n in 'xyzw'] + [('set', n) for n in 'xyzw'] + [('setadj', 'x'), ('setadj', 'z')]
                if t == 'dot' and kd != 'm':
                    continue
                end = [('dump',), ('set', 'x'), ('set', 'z'), ('diff', 'e')] + ([('diff', 'f')] if c in ('eassign', 'eheapassign', 'eheapmoveassign') else []) + [('dump',)]
                ps.append(Seq('cross.%s.%s.%s' % (t, c, kd), pre + [('bind', 'e', fs_[t], ['x', 'y']), ('bind', 'f', fs_[t], ['z', 'w']), ('diff', 'e'), ('eval', 'f'), ('dump',), (c, 'e', 'f'), ('adj', 'e')] + end))
                if kd == 'v':
                    for h, n1, n2 in (('head', 3, 2), ('tail', 2, 3), ('tail', 1, 2)):
                        ps.append(Seq('cross.%s.%s.%s%d' % (t, c, h, n1), pre + [('view', 'a', 'x', h, n1), ('view', 'b', 'y', h, n1), ('view', 'c', 'z', h, n2), ('view', 'd', 'w', h, n2),
                                  ('bind', 'e', fs_[t], ['a', 'b']), ('bind', 'f', fs_[t], ['c', 'd']), ('diff', 'e'), ('eval', 'f'), ('dump', 'x', 'y', 'z', 'w'), (c, 'e', 'f'), ('adj', 'e')]
                                  + [(st + ('x', 'y', 'z', 'w') if st == ('dump',) else st) for st in end]))
    # the same sequences at other sizes
    base = [p for p in ps if not p.name.startswith(('view6', 'tiny.prod'))]
    for p in ps:
        if p.name.startswith('tiny.prod'):
            p.maxpaths = 800
    for p in base:
        ops = set(st[0] for st in p.steps)
        kinds = set(st[2] for st in p.steps if st[0] == 'new')
        if 'v' in kinds and not ops & {'view', 'rebind'}:
            ps.append(Seq(p.name + '.v1', p.steps, dim=dict(DIM, v=(1, 1))))
            ps.append(Seq(p.name + '.v7', p.steps, dim=dict(DIM, v=(7, 1))))
        if 'm' in kinds:
            ps.append(Seq(p.name + '.m33', p.steps, dim=dict(DIM, m=(3, 3))))
            if 'rebind.m' != p.name and not any(st[0] == 'bind' for st in p.steps) or p.name.startswith('tiny.'):
                ps.append(Seq(p.name + '.m32', p.steps, dim=dict(DIM, m=(3, 2))))
                ps.append(Seq(p.name + '.m13', p.steps, dim=dict(DIM, m=(1, 3))))
    for i in range(80 if deep else 25):
        ps.append(rnd(i, rng, deep))
    return ps


def rnd(i, rng, deep):
    kd = rng.choice('svvm')
    steps = [('new', 'x', kd), ('new', 'y', kd), ('set', 'x'), ('set', 'y'), ('setadj', rng.choice('xy'))]
    names = ['x', 'y']        # live variables
    views = {}                # view -> base
    ex = {}                   # expression -> (refs, fresh)
    k = 0
    f2 = {'s': [lambda x, y: x * y + x, lambda x, y: sin(x) - y * y], 'v': [lambda x, y: summ(x * y), lambda x, y: x * y - x], 'm': [lambda x, y: dot(x, y), lambda x, y: x * y]}

    def stale(n):
        for v in [v for v in views if views[v] == n]:
            del views[v]
        for e in [e for e in ex if n in ex[e][1]]:
            del ex[e]
    for _ in range(rng.randint(8, 16 if deep else 11)):
        k += 1
        c = rng.choice(['copy', 'copy', 'move', 'assign', 'assign', 'set', 'set', 'setadj', 'bind', 'bind', 'diff', 'diff', 'diff', 'ecopy', 'ecopy', 'emove', 'eassign', 'moveassign', 'swap', 'view', 'view'])
        if c == 'copy':
            n = 'c%d' % k
            steps.append((rng.choice(['copy', 'byvalue', 'heapcopy', 'heapmove']), n, rng.choice(names)))
            names.append(n)
        elif c == 'move' and len(names) > 2:
            n, s = 'c%d' % k, rng.choice(names)
            steps.append(('move', n, s))
            names.remove(s)
            stale(s)
            names.append(n)
        elif c == 'assign':
            steps.append(('assign', rng.choice(names), rng.choice(names)))
        elif c == 'moveassign' and len(names) > 2:
            a, b = rng.sample(names, 2)
            steps.append(('moveassign', a, b))
            names.remove(b)
            stale(a)
            stale(b)
        elif c == 'swap':
            a, b = rng.sample(names, 2)
            steps.append(('swap', a, b))
            stale(a)
            stale(b)
        elif c in ('set', 'setadj'):
            steps.append((c, rng.choice(names + list(views)), rng.choice(['ij', 'data', 'get'])))
        elif c == 'view' and kd == 'v':
            n, s = 'w%d' % k, rng.choice(names)
            steps.append(('view', n, s) + rng.choice([('elem', rng.randrange(3)), ('head', 2), ('tail', 2), ('head', 3), ('tail', 1)]))
            views[n] = s
        elif c == 'bind':
            n = 'e%d' % k
            a, b = rng.choice(names), rng.choice(names)
            q = rng.randrange(2)
            refs = [a, b]
            if views and rng.random() < .5:
                v = rng.choice(sorted(views))
                steps.append(('bind', n, lambda x, y, v: f2[kd][0](x, y) * summ(v) if v.kind == 'v' else f2[kd][0](x, y) * v, [a, b, v]))
                ex[n] = ((a, b, v, 'S'), {a, b, views[v]})
            else:
                steps.append(('bind', n, f2[kd][q], [a, b]))
                ex[n] = ((a, b, q), {a, b})
            steps.append(('diff', n))
        elif c == 'diff' and ex:
            steps.append(('diff', rng.choice(sorted(ex))))
        elif c in ('ecopy', 'emove') and ex:
            s, n = rng.choice(sorted(ex)), 'e%d' % k
            steps.append((rng.choice(['ecopy', 'eheap', 'ereturn', 'eheapmove']) if c == 'ecopy' else 'emove', n, s))
            ex[n] = ex[s]
            if c == 'emove':
                del ex[s]
        elif c == 'eassign' and len(ex) > 1:
            a, b = rng.sample(sorted(ex), 2)
            if ex[a][0] == ex[b][0]:
                steps.append(('eassign', a, b))
                ex[a] = ex[b]
    for e in sorted(ex):
        steps.append(('diff', e))
    steps.append(('dump',) + tuple(names) + tuple(sorted(views)))
    return Seq('rnd.%d' % i, steps)
