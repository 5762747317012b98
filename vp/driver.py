"""Runs programs symbolically, discharges their claims with the solver, replays counterexamples."""
import json
import os
import pickle
import random
import select
import signal
import sys
import time
import traceback
from fractions import Fraction as Fr
import z3
from . import alg, paths, ir, rt, build
from .alg import RF, Unsupported
from .paths import Violation, PathEnd

sys.setrecursionlimit(40000)
CFG = {'maxterms': 3000, 'prog_time': 45, 'claim_timeout': 8000, 'feas_timeout': 1500, 'cvc5': False}


def sym_inputs(k):
    return alg.var('x%d' % k)


# ------------------------------------------------------------------ claims
def claim_formula(e, g, normal=False):
    """z3 formula stating e != g (both real); polys involved"""
    em = paths.EMIT
    E, G = alg.lift(e), alg.lift(g)
    le, lg = dict(E.den), dict(G.den)
    me = mg = None
    a, b = E.num, G.num
    size = len(a) + len(b)
    if not normal and size <= CFG['maxterms'] and len(le) + len(lg) <= 6:
        # cross multiply by what the other denominator lacks
        fa, fb = [], []
        for f, x in lg.items():
            fa += [alg.FACTORS[f]] * max(0, x - le.get(f, 0))
        for f, x in le.items():
            fb += [alg.FACTORS[f]] * max(0, x - lg.get(f, 0))
        polys = [a, b] + fa + fb
        cleared = em.clear_units(*polys)
        if all(p is q for p, q in zip(cleared, polys)):
            pass
        # units cleared by multiplying every polynomial alike is only sound per side; use normal form then
        if all(alg.pkey(p) == alg.pkey(q) for p, q in zip(cleared, polys)):
            zl = z3.Product([em.poly(a)] + [em.poly(p) for p in fa]) if fa else em.poly(a)
            zr = z3.Product([em.poly(b)] + [em.poly(p) for p in fb]) if fb else em.poly(b)
            return zl != zr, polys
        if not fa and not fb:
            p, q = em.clear_units(a, b)
            return em.poly(p) != em.poly(q), [p, q]
    d = alg.sub(E, G)
    if type(d) is Fr:
        return z3.BoolVal(bool(d)), []
    p, = em.clear_units(d.num)
    return em.poly(p) != z3.RealVal(0), [p]


def describe(v):
    s = alg.show(v)
    return s if len(s) < 400 else s[:400] + '...'


class PathResult:
    def __init__(self):
        self.status = None
        self.cands = []         # (kind, message, model point)
        self.undecided = []
        self.nclaims = 0


def model_point(model):
    pt = {}
    em = paths.EMIT
    for aid, zv in em.zvars.items():
        A = alg.ATOMS[aid]
        if A.kind != 'var':
            continue
        v = model.eval(zv, model_completion=True)
        try:
            if z3.is_rational_value(v):
                q = Fr(v.numerator_as_long(), v.denominator_as_long())
            else:
                v = v.approx(20)
                q = Fr(v.numerator_as_long(), v.denominator_as_long())
            f = float(q)
            pt[A.name] = f
        except Exception:
            pass
    return pt


def numeric_points(n, names, rnd):
    pool = [0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 1.5, 0.25, 3.0, 0.75, -0.25]
    for i in range(n):
        pt = {}
        mode = i % 5
        for nm in sorted(names):
            if mode == 0:
                pt[nm] = rnd.choice(pool)
            elif mode == 1:
                pt[nm] = float(Fr(rnd.randint(-64, 64), 16))
            elif mode == 2:
                pt[nm] = float(Fr(rnd.randint(1, 64), 16))
            elif mode == 3:
                pt[nm] = float(Fr(rnd.randint(-15, 15), 16))
            else:
                pt[nm] = float(Fr(rnd.randint(1, 15), 16))
        yield pt


def pc_holds(ctx, pt, memo):
    try:
        for p, rel in ctx.pc:
            v = alg.ev_poly(p, pt, memo)
            if abs(v) < 1e-25:
                v = 0
            if not {'<': v < 0, '<=': v <= 0, '>': v > 0, '>=': v >= 0, '==': v == 0, '!=': v != 0}[rel]:
                return False
        return True
    except (ArithmeticError, KeyError, ValueError):
        return False


def point_equalities(ctx):
    """variables that the path condition fixes to a number"""
    m = {}
    for p, rel in ctx.pc:
        if rel != '==' or len(p) > 2:
            continue
        c = p.get((), Fr(0))
        rest = [k for k in p if k]
        if len(rest) == 1 and len(rest[0]) == 1 and rest[0][0][1] == 1 and alg.ATOMS[rest[0][0][0]].kind == 'var':
            m[rest[0][0][0]] = -c / p[rest[0]]
    return m


def check_claims(ctx, expected, out, res, seed):
    """expected: [(k, label, term)], out: {k: term}"""
    fs = []
    extra = []
    for k, label, e in expected:
        if e is None:
            continue
        if k not in out:
            res.cands.append(('missing', 'output %s was not produced' % label, {}))
            continue
        g = out[k]
        res.nclaims += 1
        if type(g) is not float and type(g) is not Fr and type(g) is not RF:
            raise Unsupported('output of type %s' % type(g).__name__)
        if type(e) is float or type(g) is float:
            same = type(e) is float and type(g) is float and (e == g or (e != e and g != g))
            if not same:
                res.cands.append(('value', '%s: expected %s, computed %s' % (label, describe(e), describe(g)), None))
            continue
        fs.append((label, e, g))
    if res.cands:
        # a definite mismatch on this path: ask the solver for a point of the path
        r, m = paths.solve(ctx.conds(), CFG['claim_timeout'], want_model=True)
        if r == 'unsat':
            res.cands = []
            res.status = 'infeasible'
            return
        pt = model_point(m) if m is not None else {}
        res.cands = [(a, b, pt) for a, b, _ in res.cands]
        return
    if not fs:
        r = paths.solve(ctx.conds(), CFG['claim_timeout'])
        res.status = 'unsat'
        return
    forms = []
    polys = []
    for label, e, g in fs:
        f, ps = claim_formula(e, g)
        forms.append(f)
        polys.append(ps)
    em = paths.EMIT
    base = [em.cond(p, r) for p, r in ctx.pc]
    pcp = [p for p, _ in ctx.pc]

    def query(ix, bounded=False, want_model=False, timeout=None):
        ps = list(pcp)
        for i in ix:
            ps += polys[i]
        atoms = em.atoms_of(ps)
        c = base + [z3.Or([forms[i] for i in ix])] + em.axioms(atoms)
        if bounded:
            for a in atoms:
                if alg.ATOMS[a].kind == 'var':
                    c += [em.var(a) <= 4, em.var(a) >= -4]
        return paths.solve(c, timeout or CFG['claim_timeout'], want_model=want_model)

    r = query(range(len(fs)))
    if r == 'unsat':
        res.status = 'unsat'
        if CFG['cvc5']:
            cross_check(base, pcp, forms, polys, em)
        return
    bad = []
    eqs = point_equalities(ctx)
    for i in range(len(fs)):
        if eqs:
            # equalities of the path may settle the claim by substitution
            try:
                a, b = (alg.subst(fs[i][1], eqs), alg.subst(fs[i][2], eqs))
                d = alg.sub(a, b)
                if type(d) is Fr and not d:
                    continue
                forms[i], polys[i] = claim_formula(a, b)
                fs[i] = (fs[i][0], a, b)
            except (Unsupported, ZeroDivisionError):
                pass
        ri, m = query([i], bounded=True, want_model=True)
        if ri != 'sat':
            r2, m2 = query([i], want_model=True)
            if ri == 'unsat' or r2 != 'unknown':
                ri, m = r2, m2
        if ri == 'unknown':
            # hand the solver the difference in normal form instead
            try:
                forms[i], polys[i] = claim_formula(fs[i][1], fs[i][2], True)
                ri, m = query([i], want_model=True)
            except Unsupported:
                pass
        if ri == 'unsat':
            continue
        label, e, g = fs[i]
        msg = '%s: expected %s, computed %s' % (label, describe(e), describe(g))
        pt = model_point(m) if m is not None else None
        bad.append((label, e, g, msg, pt, ri))
    if not bad:
        res.status = 'unsat'
        return
    rnd = random.Random(seed)
    for label, e, g, msg, pt, ri in bad:
        names = {A.name for A in alg.ATOMS if A.kind == 'var'}
        if ri == 'sat' and pt is not None:
            for nm in names:
                pt.setdefault(nm, 0.5)
        wit = None
        if ri == 'sat' and pt is not None:
            memo = {}
            if pc_holds(ctx, pt, memo):
                try:
                    a, b = alg.ev(e, pt, memo), alg.ev(g, pt, memo)
                    if abs(a - b) > 1e-9 * (1 + abs(a)):
                        wit = pt
                except (ArithmeticError, ValueError):
                    pass
        if wit is None:
            for q in numeric_points(300, names, rnd):
                memo = {}
                if not pc_holds(ctx, q, memo):
                    continue
                try:
                    a, b = alg.ev(e, q, memo), alg.ev(g, q, memo)
                except (ArithmeticError, ValueError):
                    continue
                if abs(a - b) > 1e-9 * (1 + abs(a)):
                    wit = q
                    break
        if wit is not None:
            res.cands.append(('value', msg, wit))
        elif ri == 'sat' and pt is not None:
            res.cands.append(('value?', msg, pt))
        else:
            res.undecided.append(msg)
            if os.environ.get("VP_DBG"):
                print("PC", [(alg.show_poly(p), r) for p, r in ctx.pc], file=sys.stderr)


def cross_check(base, pcp, forms, polys, em):
    """second solver on the same query (thorough tier)"""
    try:
        import cvc5
        from cvc5 import InputParser, SymbolManager
    except Exception:
        return
    ps = list(pcp)
    for p in polys:
        ps += p
    s = z3.Solver()
    for c in base + [z3.Or(forms)] + em.axioms(em.atoms_of(ps)):
        s.add(c)
    txt = s.to_smt2()
    if len(txt) > 60000:
        return
    t0 = time.time()
    slv = cvc5.Solver()
    slv.setOption('tlimit-per', '5000')
    slv.setLogic('ALL')
    sm = SymbolManager(slv.getTermManager()) if hasattr(slv, 'getTermManager') else SymbolManager(slv)
    p = InputParser(slv, sm)
    p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
    r = ''
    while True:
        c = p.nextCommand()
        if c.isNull():
            break
        o = c.invoke(slv, sm).strip()
        if o in ('sat', 'unsat', 'unknown'):
            r = o
    X = CFG.setdefault('cross', {'unsat': 0, 'sat': 0, 'unknown': 0, 'time': 0.0})
    X[r or 'unknown'] = X.get(r or 'unknown', 0) + 1
    X['time'] += time.time() - t0


# ------------------------------------------------------------------ one program
def run_program(gen, sym, prog, deadline, seed):
    t0 = time.time()
    rec = {'name': prog.name, 'info': prog.info, 'paths': 0, 'claims': 0, 'complete': False, 'cands': [], 'undecided': [], 'unsupported': [], 'infeasible': 0,
           'decisions': 0, 'instr': 0, 'funcs': [], 'ninstr': 0}
    paths.STATS.__init__()
    fn = gen.compile(sym)
    dl = min(deadline, time.time() + CFG['prog_time'])
    mxsteps = [0]

    def one(ctx):
        gen.rebind()
        res = PathResult()
        try:
            expected = prog.spec(sym_inputs)
        except PathEnd:
            raise
        fixed = getattr(prog, 'fixmap', None) or {}
        R = rt.RT(gen, ctx, lambda k: fixed[k] if k in fixed else sym_inputs(k))
        try:
            try:
                fn(R)
            except Violation as v:
                r, m = paths.solve(ctx.conds(), CFG['claim_timeout'], want_model=True)
                if r == 'unsat':
                    rec['infeasible'] += 1
                    return
                rec['paths'] += 1
                rec['cands'].append((v.kind, v.msg, model_point(m) if m is not None else None))
                return
            check_claims(ctx, expected, R.out, res, seed)
        except Unsupported as u:
            rec['paths'] += 1
            rec['unsupported'].append(str(u))
            return
        except RecursionError:
            rec['unsupported'].append('recursion depth')
            return
        rec['claims'] += res.nclaims
        rec['decisions'] += len(ctx.trace)
        if res.status == 'infeasible':
            rec['infeasible'] += 1
            return
        rec['paths'] += 1
        rec['cands'] += res.cands
        rec['undecided'] += res.undecided
        if len(rec['cands']) >= 12:
            raise paths.Budget('enough')
    try:
        n, complete = paths.explore(one, prog.maxpaths, dl, CFG['feas_timeout'])
        rec['complete'] = complete and not rec['unsupported'] and not rec['undecided']
    except Unsupported as u:
        rec['unsupported'].append(str(u))
    rec['stats'] = dict(paths.STATS.__dict__)
    rec['time'] = time.time() - t0
    rec['ninstr'] = sum(gen.translated.values())
    rec['funcs'] = sorted(gen.translated)
    rec['cross'] = CFG.get('cross')
    return rec


def forked(fn, timeout):
    """run fn in a child process, return its pickled result or ('dead', why)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                data = pickle.dumps(('ok', fn()))
            except BaseException as e:
                data = pickle.dumps(('err', traceback.format_exc()[-1500:]))
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(w)
    buf = b''
    end = time.time() + timeout
    killed = False
    while True:
        left = end - time.time()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            killed = True
            break
        rd, _, _ = select.select([r], [], [], left)
        if rd:
            b = os.read(r, 1 << 16)
            if not b:
                break
            buf += b
    os.close(r)
    os.waitpid(pid, 0)
    if killed:
        return 'timeout', None
    try:
        return pickle.loads(buf)
    except Exception:
        return 'err', 'worker died'


def run_tu(job):
    """compile one translation unit and run its programs; returns list of records"""
    idx, progs, work, deadline, seed, cfg = job
    CFG.update(cfg)
    out = []
    base = os.path.join(work, 'tu%d' % idx)
    named = [('prog_%d' % i, p) for i, p in enumerate(progs)]
    t0 = time.time()
    ll, err = build.compile_ir(named, base, cfg.get('pch'))
    groups = []
    if ll is None:
        if len(named) > 1:
            for i, (s, p) in enumerate(named):
                if time.time() > deadline:
                    out.append({'name': p.name, 'failed': 'time budget exhausted'})
                    continue
                l1, e1 = build.compile_ir([(s, p)], base + '_%d' % i, cfg.get('pch'))
                if l1 is None:
                    out.append({'name': p.name, 'failed': 'does not compile: ' + first_error(e1)})
                else:
                    groups.append((l1, [(s, p)]))
        else:
            out.append({'name': named[0][1].name, 'failed': 'does not compile: ' + first_error(err)})
    else:
        groups.append((ll, named))
    ctime = time.time() - t0
    for ll, named in groups:
        try:
            mod = ir.Module(open(ll).read())
        except Exception:
            for s, p in named:
                out.append({'name': p.name, 'failed': 'IR: ' + traceback.format_exc()[-300:]})
            continue
        os.unlink(ll)
        for s, p in named:
            if time.time() > deadline:
                out.append({'name': p.name, 'failed': 'time budget exhausted'})
                continue

            def go():
                gen = ir.Generator(mod)
                rt.make_env(gen)
                paths.new_program()
                alg.CTX = paths.Ctx()
                return run_program(gen, s, p, deadline, seed)
            st, rec = forked(go, CFG['prog_time'] * 2 + 20)
            if st == 'ok':
                out.append(rec)
            elif st == 'timeout':
                out.append({'name': p.name, 'failed': 'killed after the time limit'})
            else:
                out.append({'name': p.name, 'failed': str(rec)})
    return out, ctime


def first_error(txt):
    for l in txt.split('\n'):
        if 'error:' in l:
            return l[:300]
    return txt[:300]


# ------------------------------------------------------------------ replay
def spec_at(prog, pt):
    """expected outputs at a concrete point: [(k, label, float)] or None outside the domain"""
    paths.new_program()
    used = {}

    def inp(k):
        nm = 'x%d' % k
        if nm not in pt:
            pt[nm] = 0.8125 + (k % 97) * 0.0625
        used[k] = pt[nm]
        return alg.var(nm)
    ctx = paths.NumCtx({})
    ctx.pt = pt
    ctx.memo = {}
    alg.CTX = ctx
    try:
        exp = prog.spec(inp)
        res = []
        for k, label, e in exp:
            if e is None:
                continue
            res.append((k, label, float(alg.ev(e, pt))))
        return res
    except (PathEnd, ArithmeticError, ValueError):
        return None


def mismatch(exp, out, tol=1e-6):
    for k, label, e in exp:
        if k not in out:
            return '%s: no output' % label
        g = out[k]
        if e != e:
            if g == g:
                return '%s: expected nan, got %r' % (label, g)
            continue
        if e in (alg.INF, -alg.INF) or g in (alg.INF, -alg.INF) or g != g:
            if e != g:
                return '%s: expected %r, got %r' % (label, e, g)
            continue
        if abs(e - g) > tol * max(1.0, abs(e)):
            return '%s: expected %.12g, got %.12g' % (label, e, g)
    return None


def replay(prog, cands, work, seed, npts=60):
    """compile natively and look for a reproduction; returns dict or None"""
    base = os.path.join(work, 'rp%d' % (abs(hash(prog.name)) % 10 ** 9))
    exe, err = build.compile_native(prog, base)
    if exe is None:
        return {'status': 'nobuild', 'msg': first_error(err)}
    rnd = random.Random(seed)
    pts = []
    for c in cands:
        if c[2] is not None:
            pts.append((c, dict(c[2])))
    names = set()
    for _, p in pts:
        names |= set(p)
    probe = {}
    spec_at(prog, probe)
    names |= {k for k in probe if k.startswith('x')}
    for q in numeric_points(npts, names, rnd):
        pts.append((cands[0], q))
    try:
        for c, p in pts:
            p = {k: float(v) for k, v in p.items() if k.startswith('x')}
            p.update(('x%d' % k, float(v)) for k, v in (getattr(prog, 'fixmap', None) or {}).items())
            exp = spec_at(prog, p)
            if exp is None:
                continue
            ins = {int(k[1:]): v for k, v in p.items()}
            out, crash = build.run_native(exe, ins, base)
            if crash:
                return {'status': 'reproduced', 'msg': crash, 'inputs': ins, 'cand': c[:2], 'expected': exp, 'outputs': out}
            m = mismatch(exp, out, 1e-6 if getattr(prog, 'T', 'double') == 'double' else 2e-3)
            if m:
                return {'status': 'reproduced', 'msg': m, 'inputs': ins, 'cand': c[:2], 'expected': exp, 'outputs': out}
    finally:
        for e in ('.exe', '.in', '.native.cpp'):
            try:
                os.unlink(base + e)
            except OSError:
                pass
    return {'status': 'not reproduced'}
