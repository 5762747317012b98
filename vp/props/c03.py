"""C03: det and log_det"""
from ..dsl import *
from .common import *

BOUNDS = 'fully symbolic 1x1 and 2x2 matrices (|entry| <= 1000, |det| >= 1e-9 for the plain expressions; 10 and 1/1000 in compositions), 3x3 fully symbolic for Cholesky; 3x3 to 5x5 with one or two symbolic entries at a time (every position in turn, |entry| <= 50, |det| >= 1/1000), as plain, doubled and transposed operand, up to 3 successive valid/invalid stages; singular matrices of rank 0 to 3'
DEC = {'DetFullPivLU': 'inv', 'DetLLT': 'pd', 'DetLDLT': 'ldlt'}
LDEC = {'LogDetFullPivLU': 'inv', 'LogDetLLT': 'pd', 'LogDetLDLT': 'ldlt'}


def programs(tier, rng):
    ps = []
    deep = tier == 'thorough'
    for f, decs in (('det', DEC), ('log_det', LDEC)):
        for dname, dom in decs.items():
            sym = dom != 'inv'

            def mk(p, n, name='x'):
                return p.spd(name, n) if sym else p.m(name, n, n)
            for n in (1, 2):
                p = P('%s.%s.%d' % (f, dname, n), maxpaths=200)
                p.e = Det(f, dname, mk(p, n), dom)
                p.e.B, p.e.eps = 1000, Fr(1, 10 ** 9)
                if n == 2:
                    p.hist = ['set', 'eval', 'adj']
                ps.append(p)
            p = P('%s.%s.twice' % (f, dname), maxpaths=300)
            p.e = Det(f, dname, mk(p, 2), dom)
            p.bind = 'bind'
            p.hist = ['set', 'diff', 'set', 'diff']
            if not sym and not deep:
                continue
            p.heavy = True
            ps.append(p)
            p = P('%s.%s.sub' % (f, dname), maxpaths=200)
            x, y = mk(p, 2), p.s('y')
            p.e = Det(f, dname, x * 2, dom) * y
            p.hist = ['set', 'eval', 'adj']
            ps.append(p)
            p = P('%s.%s.again' % (f, dname), maxpaths=200)
            x = mk(p, 2)
            p.e = sin(Det(f, dname, x, dom))
            p.hist = ['set', 'eval', 'adj', 'adj']
            p.heavy = True
            ps.append(p)
            if dom == 'ldlt':
                for q, pat in enumerate(("s00 0 1;0 2 s12;1 s12 3", "3 s01 0;s01 s11 1;0 1 4", "0.5 0.25 s02;0.25 s11 1;s02 1 2") if deep else ("s00 0 1;0 2 s12;1 s12 3", "3 s01 0;s01 s11 1;0 1 4")):
                    ps.append(lu3(f, dname, pat, q, dom))
            if dom == 'pd' or dom == 'ldlt' and deep:
                p = P('%s.%s.3' % (f, dname), maxpaths=200)
                x = p.spd('x', 3)
                p.e = Det(f, dname, x, dom)
                p.hist = ['set', 'eval', 'adj']
                p.heavy = True
                ps.append(p)
            if dom == 'inv':
                # three of nine entries symbolic at a time
                for q, pat in enumerate(("s00 0 1;2 s11 0;1 1 s22", "0 s01 0;1 0 3;s20 0 1", "1 2 s02;0 s11 4;3 0 1") if deep else ("s00 0 1;0 s11 2;1 0 3", "0 s01 0;1 0 3;s20 0 1")):
                    ps.append(lu3(f, dname, pat, q))
        # symmetric gram operand
        dn, _ = list(decs.items())[1]
        p = P('%s.gram.llt' % f, maxpaths=100)
        x = p.m('x', 2, 2)
        p.e = Det(f, dn, dot(x, tr(x)), 'pd')
        p.hist = ['set', 'eval', 'adj']
        p.heavy = True
        ps.append(p)
        # invalid matrices: adjoints unchanged, later valid evaluation exact
        for dname, dom in decs.items():
            for q, entries in enumerate((('0', '0', '0', '0'), ('a', 'a', 'a', 'a'), ('a', '0', '0', '0'))):
                ps.append(singular(f, dname, dom, q, entries))
            if dom == 'pd':
                ps.append(singular(f, dname, dom, 3, ('neg', 'b', 'b', 'c')))
                ps.append(singular(f, dname, dom, 4, ('pos', 'b', 'b', 'small')))
    # larger matrices, every entry symbolic in some program, several stages of one bound expression
    for f, decs in (('det', DEC), ('log_det', LDEC)):
        for dname, dom in decs.items():
            for nm_, n, stages, op in stage_list(dom, deep):
                ps.append(staged('%s.%s.%s' % (f, dname, nm_), f, dname, dom, n, stages, op))
    return ps


def around(base, syms, sym):
    """the matrix `base` with symbols s0, s1, ... at the positions `syms` (and mirrored when symmetric)"""
    m = [r.split() for r in base.split(';')]
    for k, (i, j) in enumerate(syms):
        m[i][j] = 's%d' % k
        if sym:
            m[j][i] = 's%d' % k
    return ';'.join(' '.join(r) for r in m)


B3 = ['1 0 2;0 3 -1;4 1 0', '0 2 1;-1 0 3;2 1 1', '2 -1 0;5 1 1;0 3 -2']
B4 = ['0 2 0 1;1 0 3 0;0 1 0 2;2 0 1 1', '3 1 0 0;0 -2 1 0;1 0 0 4;0 1 2 0']
B5 = ['0 1 0 0 2;1 0 3 0 0;0 0 0 1 1;2 0 0 0 1;0 4 1 0 0']
S3 = ['4 1 -1;1 3 0;-1 0 2', '2 0 1;0 5 2;1 2 3']
S4 = ['4 1 0 -1;1 3 1 0;0 1 5 2;-1 0 2 4']
S5 = ['4 1 0 0 -1;1 5 2 0 0;0 2 4 1 0;0 0 1 3 1;-1 0 0 1 6']
BAD = {'inv': {3: ['s0 s0 s0;s0 s0 s0;s0 s0 s0', 's0 0 0;0 s1 0;0 0 0', '1 2 s0;2 4 s1;1 2 3', '0 0 0;0 0 0;0 0 0', 's0 1 2;s0 1 2;3 0 1'], 4: ['s0 0 0 0;0 1 0 0;0 0 0 s1;0 0 0 2', '1 s0 0 1;0 2 s1 0;1 s0 0 1;0 0 3 1']},
       'pd': {3: ['-1 s0 0;s0 1 s1;0 s1 1', '1 0 0;0 1 s0;0 s0 1|abs0>=1', 's0 0 0;0 1 0;0 0 1|s0<=0', '0 0 0;0 0 0;0 0 0', '1 1 s0;1 1 s1;s0 s1 1'], 4: ['1 0 0 0;0 1 0 0;0 0 1 s0;0 0 s0 1|abs0>=1', '1 0 0 0;0 2 0 0;0 0 3 0;0 0 0 s0|s0<=0']},
       'ldlt': {3: ['0 0 0;0 0 0;0 0 0', 's0 0 0;0 1 0;0 0 0|s0>0', '1 1 0;1 1 0;0 0 2', '2 1 1;1 2 -1;1 -1 2'], 4: ['1 0 0 0;0 1 0 0;0 0 0 0;0 0 0 1']}}


def stage_list(dom, deep):
    import itertools
    sym = dom != 'inv'
    out = []
    pos = {n: [(i, j) for i in range(n) for j in range(n) if not sym or i <= j] for n in (3, 4, 5)}

    def rot(n, per, q):
        # q-th disjoint group of `per` positions in a scattered order
        P_ = sorted(pos[n], key=lambda t: ((t[0] * 2 + t[1] * 3) % n, t))
        return P_[q * per:(q + 1) * per]
    bases = {3: S3 if sym else B3, 4: S4 if sym else B4, 5: S5 if sym else B5}

    def groups(n, per):
        return -(-len(pos[n]) // per)
    for n, per in ((3, 2), (4, 1), (5, 1)):
        lim = groups(n, per) if deep else {3: groups(3, 2), 4: 6, 5: 3}[n]
        for q in range(lim):
            k = q if deep else (q * 5) % groups(n, per) if n > 3 else q
            b = bases[n][q % len(bases[n])]
            out.append(('n%d.%d' % (n, q), n, [(around(b, rot(n, per, k), sym), True)], ('x', 'x2', 'tr')[q % 3]))
    # valid, other valid values
    for q, n in enumerate((3, 3, 4)):
        b = bases[n]
        out.append(('again%d.%d' % (n, q), n, [(around(b[0], rot(n, 1, q) if sym else [], sym), True), (around(b[-1], rot(n, 1, q + 2), sym), True), (around(b[0], rot(n, 1, q) if sym and n < 4 else [], sym), True)], 'x'))
    # invalid, valid, invalid
    for n in (3, 4):
        for q, bad in enumerate(BAD[dom][n]):
            good = (around(bases[n][q % len(bases[n])], rot(n, 1, q) if sym or bad.count('s') < 1 else [], sym), True)
            out.append(('bad%d.%d' % (n, q), n, [(bad, False), good, (bad, False)] if q % 2 else [good, (bad, False), good], 'x'))
    return out


def staged(name, f, dname, dom, n, stages, op):
    e = {'x': 'x', 'x2': 'x * 2.0', 'tr': 'ad::transpose(x)'}[op]
    L = ['ad::Var<double, ad::mat> x(%d,%d); auto e = ad::bind(ad::%s<ad::%s>(%s));' % (n, n, f, dname, e)]
    L.append('for (int j = 0; j < %d; ++j) for (int i = 0; i < %d; ++i) x.get_adj(i,j) = vp_in(i + %d*j);' % (n, n, n))
    plan = []
    o = 0
    for t, (pat, ok) in enumerate(stages):
        pat, _, cond = pat.partition('|')
        rows = [r.split() for r in pat.split(';')]
        ent = {}
        for i in range(n):
            for j in range(n):
                q = rows[i][j]
                if q.startswith('s'):
                    ent[i, j] = 100 + 20 * t + int(q[1:])
                    L.append('x.get(%d,%d) = vp_in(%d);' % (i, j, ent[i, j]))
                else:
                    L.append('x.get(%d,%d) = %s;' % (i, j, q))
        L.append('%s ad::evaluate_adj(e, vp_in(%d));' % ('vp_out(%d, ad::evaluate(e));' % o if ok else '(void)ad::evaluate(e);', 90 + t))
        L.append('for (int j = 0; j < %d; ++j) for (int i = 0; i < %d; ++i) vp_out(%d + i + %d*j, x.get_adj(i,j));' % (n, n, o + 1, n))
        plan.append((rows, ent, cond, ok, o, 90 + t, 100 + 20 * t))
        o += 1 + n * n

    def spec(inp):
        acc = {(i, j): inp(i + n * j) for i in range(n) for j in range(n)}
        out = []
        for t, (rows, ent, cond, ok, o, si, base) in enumerate(plan):
            a = {(i, j): inp(ent[i, j]) if (i, j) in ent else Fr(rows[i][j]) for i in range(n) for j in range(n)}
            for k in sorted(set(ent.values())):
                assume(sub(Fr(50), inp(k)), '>=')
                assume(add(Fr(50), inp(k)), '>=')
            if ok:
                sc = Fr(2) if op == 'x2' else Fr(1)
                A = Arr('m', n, n, [mul(sc, a[(j, i) if op == 'tr' else (i, j)]) for j in range(n) for i in range(n)])
                d = det_of(A.at, n)
                if dom == 'inv':
                    if decide(d, '>'):
                        assume(sub(d, Fr(1, 1000)), '>=')
                    else:
                        assume(add(d, Fr(1, 1000)), '<=')
                elif dom == 'pd':
                    for k in range(1, n + 1):
                        assume(det_of(A.at, k), '>')
                else:
                    for k in range(1, n + 1):
                        assume(sub(det_of(A.at, k), Fr(1, 1000)), '>=')
                cof = adjugate(A.at, n)
                out.append((o, 'value at stage %d' % t, d if f == 'det' else alg.log_abs(d)))
                for i in range(n):
                    for j in range(n):
                        # cofactor of entry (i, j) of the operand
                        c = cof[j][i] if op != 'tr' else cof[i][j]
                        g = c if f == 'det' else alg.div(c, d)
                        acc[i, j] = add(acc[i, j], mul(mul(sc, inp(si)), g))
            else:
                if cond == 'abs0>=1':
                    x = inp(base)
                    if decide(x, '>'):
                        assume(sub(x, Fr(1)), '>=')
                    else:
                        assume(add(x, Fr(1)), '<=')
                elif cond:
                    assume(inp(base), cond[2:].rstrip('0'))
            for j in range(n):
                for i in range(n):
                    out.append((o + 1 + i + n * j, 'adjoint[%d,%d] after stage %d' % (i, j, t), acc[i, j]))
        return out
    p = Prog(name, '\n'.join(L), spec, maxpaths=300)
    p.heavy = True
    return p


def lu3(f, dname, pat, q, dom='inv'):
    rows = [r.split() for r in pat.split(';')]
    pre = []
    k = 0
    ent, seen = {}, {}
    for i in range(3):
        for j in range(3):
            t = rows[i][j]
            if t.startswith('s'):
                if t in seen:
                    ent[i, j] = seen[t]
                else:
                    ent[i, j] = seen[t] = k
                    k += 1
                pre.append('x.get(%d,%d) = vp_in(%d);' % (i, j, ent[i, j]))
            else:
                pre.append('x.get(%d,%d) = %s;' % (i, j, t))
    body = '''ad::Var<double, ad::mat> x(3,3); auto e = ad::bind(ad::%s<ad::%s>(x));
%s
for (int j = 0; j < 3; ++j) for (int i = 0; i < 3; ++i) x.get_adj(i,j) = vp_in(10 + i + 3*j);
vp_out(0, ad::evaluate(e)); ad::evaluate_adj(e, vp_in(20));
for (int j = 0; j < 3; ++j) for (int i = 0; i < 3; ++i) vp_out(1 + i + 3*j, x.get_adj(i,j));''' % (f, dname, '\n'.join(pre))

    def spec(inp):
        a = {}
        for i in range(3):
            for j in range(3):
                a[i, j] = inp(ent[i, j]) if (i, j) in ent else Fr(rows[i][j])
        A = Arr('m', 3, 3, [a[i, j] for j in range(3) for i in range(3)])
        bound_entries(A)
        d = det_of(A.at, 3)
        if dom == 'ldlt':
            Det(f, dname, Const('x', 'm', 3, 3, '', ''), 'ldlt').ev({'x': A.d})
        elif decide(d, '>'):
            assume(sub(d, Fr(1, 1000)), '>=')
        else:
            assume(add(d, Fr(1, 1000)), '<=')
        cof = adjugate(A.at, 3)
        s = inp(20)
        val = d if f == 'det' else alg.log_abs(d)
        out = [(0, 'value', val)]
        for j in range(3):
            for i in range(3):
                g = cof[j][i] if f == 'det' else alg.div(cof[j][i], d)
                out.append((1 + i + 3 * j, 'adjoint[%d,%d]' % (i, j), add(inp(10 + i + 3 * j), mul(s, g))))
        return out
    p = Prog('%s.%s.3.%d' % (f, dname, q), body, spec, maxpaths=400)
    p.heavy = True
    return p


def singular(f, dname, dom, q, ent):
    """invalid (adjoints unchanged) -> valid (exact) -> invalid (unchanged)"""
    code = {'0': '0.0', 'a': 'vp_in(0)', 'b': 'vp_in(1)', 'c': 'vp_in(2)', 'neg': 'vp_in(3)', 'pos': 'vp_in(4)', 'small': 'vp_in(5)'}
    set1 = ''.join('x.get(%d,%d) = %s;' % (i // 2, i % 2, code[t]) for i, t in enumerate(ent))
    set2 = 'x.get(0,0) = vp_in(6); x.get(1,1) = vp_in(7); x.get(0,1) = vp_in(8); x.get(1,0) = vp_in(%d);' % (8 if dom != 'inv' else 9)
    outs = ' '.join('vp_out(N+%d, x.get_adj(%d,%d));' % (i, i // 2, i % 2) for i in range(4))
    body = '''ad::Var<double, ad::mat> x(2,2); auto e = ad::bind(ad::%s<ad::%s>(x));
for (int i = 0; i < 4; ++i) x.get_adj(i / 2, i %% 2) = vp_in(20 + i);
%s
(void)ad::evaluate(e); ad::evaluate_adj(e, vp_in(30)); %s
%s
vp_out(8, ad::evaluate(e)); ad::evaluate_adj(e, vp_in(31)); %s
%s
(void)ad::evaluate(e); ad::evaluate_adj(e, vp_in(32)); %s
''' % (f, dname, set1, outs.replace('N', '0'), set2, outs.replace('N', '4'), set1, outs.replace('N', '9'))

    def spec(inp):
        if 'a' in ent:
            assume(inp(0), '!=' if dom == 'inv' else '>')
            assume(sub(Fr(10), inp(0)), '>=')
            assume(add(Fr(10), inp(0)), '>=')
            if dom == 'inv':
                pass
        if 'neg' in ent:
            assume(inp(3), '<=')
        if 'small' in ent:
            assume(inp(4), '>')
            assume(sub(mul(inp(4), inp(5)), mul(inp(1), inp(1))), '<')
        a0 = [inp(20 + i) for i in range(4)]
        m = [inp(6), inp(8), inp(8 if dom != 'inv' else 9), inp(7)]
        A = Arr('m', 2, 2, [m[0], m[2], m[1], m[3]])
        d = sub(mul(m[0], m[3]), mul(m[1], m[2]))
        if dom == 'inv':
            bound_entries(A)
            assume(sub(d, Fr(1, 1000)), '>=')
        else:
            assume(m[0], '>')
            assume(d, '>')
            if dom == 'ldlt':
                bound_entries(A)
                assume(sub(m[0], Fr(1, 1000)), '>=')
                assume(sub(d, Fr(1, 1000)), '>=')
        val = d if f == 'det' else alg.log_abs(d)
        cof = [m[3], neg(m[2]), neg(m[1]), m[0]]
        a1 = [add(a, mul(inp(31), c if f == 'det' else alg.div(c, d))) for a, c in zip(a0, cof)]
        out = [(i, 'adjoint[%d] after invalid' % i, a0[i]) for i in range(4)]
        out.append((8, 'value', val))
        out += [(4 + i, 'adjoint[%d] after valid' % i, a1[i]) for i in range(4)]
        out += [(9 + i, 'adjoint[%d] after second invalid' % i, a1[i]) for i in range(4)]
        return out
    return Prog('%s.%s.singular.%d' % (f, dname, q), body, spec, maxpaths=300)
