"""Runtime of the generated code: byte-addressed memory with object bounds and
lifetimes, exact real arithmetic on doubles, models of libc/libm externals."""
import math
import re
import struct
from fractions import Fraction as Fr
from . import alg, ir
from .alg import RF, INF, NAN, Unsupported
from .paths import Violation, PathEnd

M64 = (1 << 64) - 1
Z0 = Fr(0)
ONE = Fr(1)


# ------------------------------------------------------------------ undefined integers
class Undef:
    def _s(self, *a):
        return self
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _s
    __and__ = __rand__ = __or__ = __ror__ = __xor__ = __rxor__ = _s
    __lshift__ = __rlshift__ = __rshift__ = __rrshift__ = _s
    __floordiv__ = __rfloordiv__ = __mod__ = __rmod__ = _s
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = _s
    __neg__ = __abs__ = __invert__ = _s

    def __bool__(self):
        alg.CTX.notes.append('branch on uninitialised integer')
        return bool(alg.CTX.choose(2))

    __hash__ = object.__hash__

    def __repr__(self):
        return 'undef'


U = Undef()


class SymBits:
    """the bit pattern of a symbolic double, only ever moved around"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def _bad(self, *a):
        raise Unsupported('integer arithmetic on the bits of a symbolic double')
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _bad
    __or__ = __ror__ = __xor__ = __rxor__ = _bad
    __lshift__ = __rlshift__ = __rshift__ = __rrshift__ = _bad
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __bool__ = _bad
    __hash__ = object.__hash__

    def __and__(self, m):
        if m == M64:
            return self
        self._bad()


# ------------------------------------------------------------------ literals
def snap(d):
    """the real number a double literal stands for"""
    f = Fr(d)
    if f.denominator <= 1 << 20:
        return f
    ulp = Fr(math.ulp(abs(d)))
    for lim in (100, 10000, 1000000):
        s = f.limit_denominator(lim)
        if abs(s - f) <= 2 * ulp:
            return s
    # short decimal
    r = repr(d)
    s = Fr(r)
    if len(r.replace('-', '').replace('.', '').split('e')[0].strip('0')) <= 12:
        return s
    for k, v in (('pi', math.pi), ('pi', math.pi / 2), ('pi', math.pi * 2), ('pi', math.pi / 4)):
        q = (f / Fr(v)).limit_denominator(1000)
        if q and abs(float(q) * v - d) <= 4 * math.ulp(abs(d)):
            return alg.mul(q * Fr(v / math.pi).limit_denominator(8), alg.const('pi'))
    for v, e in ((math.sqrt(math.pi), 1), (1 / math.sqrt(math.pi), -1), (math.sqrt(2 * math.pi), 3), (1 / math.sqrt(2 * math.pi), -3)):
        q = (f / Fr(v)).limit_denominator(1000)
        if q and abs(float(q) * v - d) <= 4 * math.ulp(abs(d)):
            base = alg.const('pi') if abs(e) == 1 else alg.mul(Fr(2), alg.const('pi'))
            s = alg.f_sqrt(base)
            return alg.mul(q, s if e > 0 else alg.inv(s))
    for n in (2, 3, 5, 7):
        q = (f / Fr(math.sqrt(n))).limit_denominator(1000)
        if q and abs(float(q) * math.sqrt(n) - d) <= 4 * math.ulp(abs(d)):
            return alg.mul(q, alg.f_sqrt(Fr(n)))
        q = (f / Fr(math.log(n))).limit_denominator(1000)
        if q and abs(float(q) * math.log(n) - d) <= 4 * math.ulp(abs(d)):
            return alg.mul(q, alg.log_const(Fr(n)))
    if struct.unpack('<f', struct.pack('<f', d))[0] == d if abs(d) < 1e30 else False:
        # a single-precision rounding of a constant
        for c in (1.1283791670955126, 0.9189385332046727, 1.8378770664093453, math.pi, 0.3989422804014327, 0.6931471805599453, 1.4142135623730951, 2.5066282746310002):
            for v in (c, -c):
                if struct.unpack('<f', struct.pack('<f', v))[0] == d:
                    return snap(v)
    q = (f / Fr(math.log(2 * math.pi))).limit_denominator(16)
    if q and abs(float(q) * math.log(2 * math.pi) - d) <= 4 * math.ulp(abs(d)):
        return alg.mul(q, alg.log_abs(alg.mul(Fr(2), alg.const('pi'))))
    return f


def literal(tok):
    if tok.startswith('0x'):
        h = tok[2:]
        if h[0] in 'KLMHR':
            raise Unsupported('literal ' + tok)
        d = struct.unpack('<d', struct.pack('<Q', int(h, 16)))[0]
    else:
        d = float(tok)
    if d != d or d in (INF, -INF):
        return d
    return snap(d)


def bits_to_real(b):
    d = struct.unpack('<d', struct.pack('<Q', b))[0]
    if d != d or d in (INF, -INF):
        return d
    return snap(d)


# ------------------------------------------------------------------ memory
class Obj:
    __slots__ = ('oid', 'size', 'cells', 'alive', 'kind', 'name', 'fn')

    def __init__(self, oid, size, kind, name):
        self.oid = oid
        self.size = size
        self.cells = {}
        self.alive = True
        self.kind = kind
        self.name = name
        self.fn = None


class Instr:
    Unsupported = Unsupported


class RT:
    Unsupported = Unsupported

    def __init__(self, gen, ctx, inputs, choices=None):
        self.gen = gen
        self.mod = gen.mod
        self.ctx = ctx
        self.inputs = inputs        # callable k -> value
        self.out = {}
        self.outorder = []
        self.objs = [None]
        self.gl = {}
        self.steps = 0
        self.marks = []
        gen.env['rt'] = self
        gen.env['G'] = self.gaddr
        self.heap_live = 0

    # ---- objects
    def new(self, size, kind, name=''):
        o = Obj(len(self.objs), size, kind, name)
        self.objs.append(o)
        return o.oid << 32

    def obj(self, a, n, what):
        if type(a) is not int:
            if isinstance(a, Undef):
                raise Violation('memory', '%s through an uninitialised pointer' % what)
            raise Unsupported('address %r' % (a,))
        oid = a >> 32
        off = a & 0xffffffff
        if oid == 0:
            raise Violation('memory', '%s of %d bytes at null%+d' % (what, n, off))
        try:
            o = self.objs[oid]
        except IndexError:
            raise Violation('memory', '%s at wild address' % what)
        if off + n > o.size:
            raise Violation('memory', '%s of %d bytes at offset %d of %s object %s of %d bytes' % (what, n, off, o.kind, o.name, o.size))
        if not o.alive:
            raise Violation('memory', '%s of dead %s object %s' % (what, o.kind, o.name))
        return o, off

    def push(self):
        return []

    def pop(self, fr):
        for o in fr:
            o.alive = False
            o.cells = {}

    def alloca(self, fr, n):
        a = self.new(n, 'stack')
        fr.append(self.objs[-1])
        return a

    def byval(self, p, n, _):
        a = self.new(n, 'stack')
        self.memcpy(a, p, n)
        return a

    def lifetime_start(self, p):
        o = self.objs[p >> 32]
        o.alive = True
        o.cells = {}

    def lifetime_end(self, p):
        o = self.objs[p >> 32]
        o.alive = False
        o.cells = {}

    # ---- loads and stores
    def ldd(self, a):
        oid = a >> 32 if type(a) is int else 0
        off = a & 0xffffffff
        if oid and oid < len(self.objs):
            o = self.objs[oid]
            if o.alive and off + 8 <= o.size:
                c = o.cells.get(off)
                if c is not None and c[0] == 8:
                    v = c[1]
                    if type(v) is RF or type(v) is Fr or type(v) is float:
                        return v
        o, off = self.obj(a, 8, 'read')
        c = o.cells.get(off)
        if c is None or c[0] != 8:
            v = self.ldi(a, 8)
        else:
            v = c[1]
        if type(v) is SymBits:
            return v.v
        if type(v) is int:
            return bits_to_real(v)
        u = self.undef_real()
        o.cells[off] = (8, u)
        return u

    def std(self, a, v):
        if type(a) is not int:
            self.obj(a, 8, 'write')
        oid = a >> 32
        off = a & 0xffffffff
        if not oid or oid >= len(self.objs):
            self.obj(a, 8, 'write')
        o = self.objs[oid]
        if not o.alive or off + 8 > o.size:
            self.obj(a, 8, 'write')
        cells = o.cells
        c = cells.get(off)
        if c is None or c[0] != 8:
            self.clear(o, off, 8)
        cells[off] = (8, v)

    def ldf(self, a):
        o, off = self.obj(a, 4, 'read')
        c = o.cells.get(off)
        if c is not None and c[0] == 4:
            v = c[1]
            if type(v) is RF or type(v) is Fr or type(v) is float:
                return v
            if type(v) is SymBits:
                return v.v
        v = self.ldi(a, 4)
        if type(v) is SymBits:
            return v.v
        if type(v) is int:
            d = struct.unpack('<f', struct.pack('<I', v))[0]
            return d if d != d or d in (INF, -INF) else Fr(d)
        u = self.undef_real()
        o.cells[off] = (4, u)
        return u

    def stf(self, a, v):
        o, off = self.obj(a, 4, 'write')
        c = o.cells.get(off)
        if c is None or c[0] != 4:
            self.clear(o, off, 4)
        o.cells[off] = (4, v)

    def ldi(self, a, n):
        if type(a) is int:
            oid = a >> 32
            if oid and oid < len(self.objs):
                o = self.objs[oid]
                off = a & 0xffffffff
                c = o.cells.get(off)
                if c is not None and c[0] == n and o.alive and off + n <= o.size:
                    v = c[1]
                    t = type(v)
                    if t is int:
                        return v
                    if t is RF or t is Fr or t is float:
                        return SymBits(v)
                    return v
        o, off = self.obj(a, n, 'read')
        # assemble from bytes
        r = 0
        i = 0
        while i < n:
            b = self.byte(o, off + i)
            if b is None:
                return U
            r |= b << (8 * i)
            i += 1
        return r

    def byte(self, o, off):
        for k in range(off, off - 17, -1):
            c = o.cells.get(k)
            if c is None:
                continue
            if k + c[0] <= off:
                return None
            v = c[1]
            if type(v) is int:
                return (v >> (8 * (off - k))) & 255
            if isinstance(v, Undef):
                return None
            if type(v) is Fr and not v:
                return 0
            if type(v) in (Fr, float) and c[0] == 8:
                d = float(v)
                return struct.pack('<d', d)[off - k]
            raise Unsupported('partial read of a symbolic double')
        return None

    def sti(self, a, v, n):
        if type(a) is not int:
            self.obj(a, n, 'write')
        oid = a >> 32
        off = a & 0xffffffff
        if not oid or oid >= len(self.objs):
            self.obj(a, n, 'write')
        o = self.objs[oid]
        if not o.alive or off + n > o.size:
            self.obj(a, n, 'write')
        c = o.cells.get(off)
        if c is None or c[0] != n:
            self.clear(o, off, n)
        if type(v) is SymBits and n == 8:
            v = v.v
        o.cells[off] = (n, v)

    def clear(self, o, off, n):
        """remove every cell overlapping [off, off+n), keeping outside bytes of integer cells"""
        cells = o.cells
        for k in range(off - 15, off + n):
            c = cells.get(k)
            if c is None or k + c[0] <= off:
                continue
            del cells[k]
            if k < off or k + c[0] > off + n:
                v = c[1]
                for j in range(c[0]):
                    if off <= k + j < off + n:
                        continue
                    if type(v) is int:
                        cells[k + j] = (1, (v >> (8 * j)) & 255)
                    elif isinstance(v, Undef):
                        pass
                    elif type(v) is Fr and not v:
                        cells[k + j] = (1, 0)
                    else:
                        raise Unsupported('partial overwrite of a symbolic double')

    def memcpy(self, d, s, n):
        if not n:
            return
        so, soff = self.obj(s, n, 'read')
        do, doff = self.obj(d, n, 'write')
        items = []
        if n <= 4096:
            k = soff - 15 if soff >= 15 else 0
            rng = range(k, soff + n)
        else:
            rng = sorted(so.cells)
        for k in rng:
            c = so.cells.get(k)
            if c is None or k + c[0] <= soff or k >= soff + n:
                continue
            if k < soff or k + c[0] > soff + n:
                for j in range(max(k, soff), min(k + c[0], soff + n)):
                    b = self.byte(so, j)
                    if b is not None:
                        items.append((j - soff, (1, b)))
            else:
                items.append((k - soff, c))
        self.clear_range(do, doff, n)
        for k, c in items:
            do.cells[doff + k] = c

    def clear_range(self, o, off, n):
        if n <= 64:
            self.clear(o, off, n)
        else:
            for k in [k for k, c in o.cells.items() if k < off + n and k + c[0] > off]:
                if k < off or k + o.cells[k][0] > off + n:
                    self.clear(o, max(off, k), min(off + n, k + o.cells[k][0]) - max(off, k))
                else:
                    del o.cells[k]

    def memset(self, d, v, n):
        if not n:
            return
        o, off = self.obj(d, n, 'write')
        self.clear_range(o, off, n)
        if isinstance(v, Undef):
            return
        v &= 255
        i = 0
        w = int.from_bytes(bytes([v]) * 8, 'little')
        while i < n:
            if (off + i) % 8 == 0 and n - i >= 8:
                o.cells[off + i] = (8, w)
                i += 8
            else:
                o.cells[off + i] = (1, v)
                i += 1

    # ---- globals
    def gaddr(self, n):
        a = self.gl.get(n)
        if a is not None:
            return a
        if n in self.mod.funcs or (n in self.mod.decls and n not in self.mod.globals):
            a = self.new(1, 'function', n)
            self.objs[-1].fn = n
            self.gl[n] = a
            return a
        rest = self.mod.globals.get(n)
        if rest is None:
            raise Unsupported('global ' + n)
        ts = ir.TS(ir.tokenize(rest))
        ext = False
        while ts.peek() not in ('global', 'constant'):
            if ts.peek() in ('external', 'extern_weak'):
                ext = True
            ts.next()
        ts.next()
        t = self.mod.ptype(ts)
        size = self.mod.size(t) if not ext else 4096
        a = self.new(size, 'global', n)
        self.gl[n] = a
        if ext:
            return a
        fg = ir.FuncGen(self.mod, self.gen, n)
        expr = fg.const(ts, t) if ts.kind() not in ('glob',) and ts.peek() not in ('getelementptr', 'inttoptr', 'ptrtoint', 'bitcast') else fg.value(ts, t)
        v = eval(expr, self.gen.env)
        self.put(a, t, v)
        return a

    def put(self, a, t, v):
        t = self.mod.resolve(t) if isinstance(t, tuple) else t
        if t == 'double':
            self.std(a, v)
        elif t == 'float':
            self.stf(a, v)
        elif t == 'ptr':
            self.sti(a, v, 8)
        elif t[0] == 'i':
            self.sti(a, v, self.mod.size(t))
        elif t[0] == 'struct':
            for i, e in enumerate(t[1]):
                off, et = self.mod.field(t, i)
                self.put(a + off, et, v[i])
        else:
            sz = self.mod.size(t[2])
            for i in range(t[1]):
                self.put(a + i * sz, t[2], v[i])

    def cstr(self, a):
        try:
            o, off = self.obj(a, 1, 'read')
            b = bytearray()
            while True:
                c = self.byte(o, off)
                if not c:
                    break
                b.append(c)
                off += 1
            return b.decode('latin1')
        except Exception:
            return '?'

    # ---- doubles
    def undef_real(self):
        return self.ctx.fresh_undef()

    def fadd(self, a, b):
        if type(a) is float or type(b) is float:
            if type(a) is float and type(b) is float:
                return a + b
            return a if type(a) is float else b
        return alg.add(a, b)

    def fsub(self, a, b):
        return self.fadd(a, self.fneg(b))

    def fneg(self, a):
        if type(a) is float:
            return -a
        if type(a) is tuple:
            return tuple(self.fneg(x) for x in a)
        return alg.neg(a)

    def fmul(self, a, b):
        if type(a) is float or type(b) is float:
            if type(a) is float and type(b) is float:
                return a * b
            if type(b) is float:
                a, b = b, a
            if a != a:
                return a
            s = self.ctx.sign(b)
            return NAN if s == 0 else (a if s > 0 else -a)
        return alg.mul(a, b)

    def fdiv(self, a, b):
        return self.ctx.fdiv(a, b)

    def frem(self, a, b):
        if type(a) is Fr and type(b) is Fr and b:
            r = abs(a) % abs(b)
            return -r if a < 0 else r
        raise Unsupported('frem')

    REL = {'eq': '==', 'ne': '!=', 'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}

    def fcmp(self, pred, a, b):
        if pred == 'true':
            return 1
        if pred == 'false':
            return 0
        na = type(a) is float and a != a
        nb = type(b) is float and b != b
        if pred == 'ord':
            return 0 if na or nb else 1
        if pred == 'uno':
            return 1 if na or nb else 0
        if na or nb:
            return 1 if pred[0] == 'u' else 0
        r = pred[1:]
        if type(a) is float or type(b) is float:
            # one of them is an infinity
            x = a if type(a) is float else 0.0
            y = b if type(b) is float else 0.0
            return int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[r])
        d = a if type(b) is Fr and not b else alg.sub(a, b)
        return 1 if self.ctx.decide(d, self.REL[r]) else 0

    def fpclass(self, v, mask):
        if type(v) is float:
            if v != v:
                return 1 if mask & 3 else 0
            if v > 0:
                return 1 if mask & 512 else 0
            return 1 if mask & 4 else 0
        if not mask & ~(3 | 512 | 4):
            return 0
        if mask & 0x1f8 == 0x1f8:
            return 1
        s = self.ctx.sign(v)
        if s == 0:
            return 1 if mask & 0x60 else 0
        if s > 0:
            return 1 if mask & 0x100 else 0
        return 1 if mask & 0x8 else 0

    def d2bits(self, v):
        return SymBits(v)

    def bits2d(self, v):
        if type(v) is SymBits:
            return v.v
        if type(v) is int:
            return bits_to_real(v)
        return self.undef_real()

    def sitofp(self, x, n):
        if type(x) is not int:
            return self.undef_real()
        return Fr(ir.sx(x, n))

    def uitofp(self, x):
        if type(x) is not int:
            return self.undef_real()
        return Fr(x)

    def fptoi(self, x, n):
        if type(x) is Fr:
            return int(x) & ((1 << n) - 1)
        if type(x) is RF:
            # truncation of a symbolic real: decided over a small range
            d = self.ctx.decide
            if d(x, '>='):
                for k in range(0, 6):
                    if d(alg.sub(x, Fr(k + 1)), '<'):
                        return k
            else:
                for k in range(0, 6):
                    if d(alg.add(x, Fr(k + 1)), '>'):
                        return (-k) & ((1 << n) - 1)
        raise Unsupported('conversion to integer')

    # ---- control
    def indirect(self, a):
        if type(a) is int and a >> 32 < len(self.objs) and a >> 32 and self.objs[a >> 32].fn:
            n = self.objs[a >> 32].fn
            if n in self.mod.funcs and not self.gen.is_model(n):
                return self.gen.compile(n)
            return lambda rt, *args: self.ext(n, args)
        raise Violation('memory', 'call through an invalid pointer')

    def unreachable(self):
        raise Violation('unreachable', 'execution reaches undefined behaviour')

    def trap(self):
        raise Violation('trap', 'trap')

    def ext(self, n, args):
        f = EXT.get(n)
        if f is None:
            if n.startswith('_ZSt') and '__throw_' in n:
                raise Violation('throw', n)
            raise Unsupported('external function ' + n)
        return f(self, *args)


# ------------------------------------------------------------------ externals
def _malloc(rt, n, *a):
    if type(n) is not int:
        raise Violation('memory', 'allocation of an uninitialised size')
    if n > 1 << 24:
        raise Violation('memory', 'allocation of %d bytes' % n)
    return rt.new(n, 'heap')


def _free(rt, p, *a):
    if p == 0:
        return
    if type(p) is not int:
        raise Violation('memory', 'free of an uninitialised pointer')
    o, off = rt.obj(p, 0, 'free')
    if off != 0 or o.kind != 'heap':
        raise Violation('memory', 'free of a pointer that was not allocated')
    o.alive = False
    o.cells = {}


def _calloc(rt, a, b):
    p = _malloc(rt, a * b)
    rt.memset(p, 0, a * b)
    return p


def _realloc(rt, p, n):
    q = _malloc(rt, n)
    if p:
        o, off = rt.obj(p, 0, 'realloc')
        rt.memcpy(q, p, min(n, o.size))
        _free(rt, p)
    return q


def _posix_memalign(rt, pp, al, n):
    rt.sti(pp, _malloc(rt, n), 8)
    return 0


def _assert(rt, e, f, l, *a):
    raise Violation('assert', '%s (%s:%s)' % (rt.cstr(e), rt.cstr(f).split('/')[-1], l))


def _memcpy(rt, d, s, n, *a):
    rt.memcpy(d, s, n)
    return d


def _memset(rt, d, v, n):
    rt.memset(d, v, n)
    return d


def _memcmp(rt, a, b, n):
    for i in range(n):
        x, y = rt.ldi(a + i, 1), rt.ldi(b + i, 1)
        if x != y:
            return 1 if x > y else M64 >> 32
    return 0


def _pow(rt, a, b):
    if type(b) is float or type(a) is float:
        if type(a) is float and type(b) is Fr:
            try:
                r = a ** float(b)
                return Fr(0) if r == 0 else (r if type(r) is float and r in (INF, -INF) or r != r else Fr(r))
            except Exception:
                pass
        raise Unsupported('pow of special')
    if type(b) is not Fr:
        raise Unsupported('pow with symbolic exponent')
    if b.denominator == 1:
        n = int(b)
        if n == 0:
            return ONE
        if n > 0:
            return alg.powi(a, n)
        if rt.ctx.decide(a, '==') if type(a) is RF else a == 0:
            return INF
        return alg.powi(a, n)
    if b.denominator == 2:
        s = alg.f_sqrt(a)
        if type(s) is float:
            return s
        n = b.numerator
        if n < 0 and (rt.ctx.decide(s, '==') if type(s) is RF else s == 0):
            return INF
        return alg.powi(s, n)
    raise Unsupported('pow with fractional exponent')


def _fabs(rt, a):
    if type(a) is float:
        return abs(a)
    return alg.f_abs(a)


def _fmin(rt, a, b):
    if type(a) is float and a != a:
        return b
    if type(b) is float and b != b:
        return a
    return a if rt.fcmp('ole', a, b) else b


def _fmax(rt, a, b):
    if type(a) is float and a != a:
        return b
    if type(b) is float and b != b:
        return a
    return a if rt.fcmp('oge', a, b) else b


def _log1p(rt, a):
    return alg.f_log(rt.fadd(ONE, a))


def _hypot(rt, a, b):
    return alg.f_sqrt(rt.fadd(rt.fmul(a, a), rt.fmul(b, b)))


def _erfc(rt, a):
    return rt.fsub(ONE, alg.f_erf(a))


def _copysign(rt, a, b):
    m = _fabs(rt, a)
    if type(b) is float:
        neg = b < 0
    else:
        neg = rt.ctx.sign(b) < 0
    return rt.fneg(m) if neg else m


def _floor(rt, a):
    if type(a) is Fr:
        return Fr(math.floor(a))
    raise Unsupported('floor')


def _round(rt, a):
    if type(a) is Fr:
        return Fr(math.floor(a + Fr(1, 2)))
    raise Unsupported('round')


def _vp_in(rt, k):
    return rt.inputs(k)


def _vp_out(rt, k, v):
    rt.out[k] = v
    rt.outorder.append(k)


def _vp_mark(rt, k):
    rt.marks.append(k)


def u1(f):
    return lambda rt, a: f(a)


EXT = {
    'malloc': _malloc, '_Znwm': _malloc, '_Znam': _malloc, '_ZnwmRKSt9nothrow_t': _malloc, '_ZnwmSt11align_val_t': _malloc,
    'free': _free, '_ZdlPv': _free, '_ZdlPvm': _free, '_ZdaPv': _free, '_ZdaPvm': _free, '_ZdlPvSt11align_val_t': _free,
    '_ZdlPvmSt11align_val_t': _free,
    'calloc': _calloc, 'realloc': _realloc, 'posix_memalign': _posix_memalign,
    'aligned_alloc': lambda rt, a, n: _malloc(rt, n),
    '__assert_fail': _assert,
    'memcpy': _memcpy, 'memmove': _memcpy, 'memset': _memset, 'memcmp': _memcmp, 'bcmp': _memcmp,
    'abort': lambda rt, *a: rt.trap(), '_ZSt9terminatev': lambda rt, *a: rt.trap(),
    '__cxa_pure_virtual': lambda rt, *a: rt.trap(),
    '__cxa_atexit': lambda rt, *a: 0,
    '__cxa_guard_acquire': lambda rt, a: 1, '__cxa_guard_release': lambda rt, a: None,
    'exp': u1(alg.f_exp), 'log': u1(alg.f_log), 'sqrt': u1(alg.f_sqrt), 'sin': u1(alg.f_sin), 'cos': u1(alg.f_cos),
    'tan': u1(alg.f_tan), 'asin': u1(alg.f_asin), 'acos': u1(alg.f_acos), 'atan': u1(alg.f_atan), 'erf': u1(alg.f_erf),
    'sinh': u1(alg.f_sinh), 'cosh': u1(alg.f_cosh), 'tanh': u1(alg.f_tanh),
    'pow': _pow, 'fabs': _fabs, 'fmin': _fmin, 'fmax': _fmax, 'log1p': _log1p, 'hypot': _hypot, 'erfc': _erfc,
    'expm1': lambda rt, a: rt.fsub(alg.f_exp(a), ONE),
    'exp2': lambda rt, a: alg.f_exp(rt.fmul(a, alg.log_const(Fr(2)))),
    'log2': lambda rt, a: rt.fdiv(alg.f_log(a), alg.log_const(Fr(2))),
    'log10': lambda rt, a: rt.fdiv(alg.f_log(a), alg.log_const(Fr(10))),
    'cbrt': lambda rt, a: (_ for _ in ()).throw(Unsupported('cbrt')),
    'copysign': _copysign, 'floor': _floor, 'ceil': lambda rt, a: rt.fneg(_floor(rt, rt.fneg(a))), 'round': _round,
    'fma': lambda rt, a, b, c: rt.fadd(rt.fmul(a, b), c),
    'powi': lambda rt, a, n: _pow(rt, a, Fr(ir.sx(n, 32))),
    'vp_in': _vp_in, 'vp_out': _vp_out, 'vp_mark': _vp_mark,
}
for _n in ('exp', 'log', 'sqrt', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'erf', 'sinh', 'cosh', 'tanh', 'pow', 'fabs', 'fmin', 'fmax', 'log1p', 'hypot', 'erfc', 'expm1', 'exp2', 'log2', 'log10', 'copysign', 'floor', 'ceil', 'round', 'fma'):
    EXT[_n + 'f'] = EXT[_n]
    EXT['__' + _n + '_finite'] = EXT[_n]


def make_env(gen):
    gen.env.update(U=U, Z0=Z0, sx=ir.sx, sdiv=ir.sdiv, srem=ir.srem, smax=ir.smax, smin=ir.smin, ins=ir.ins, shuf=ir.shuf,
                   ctpop=ir.ctpop, ctlz=ir.ctlz, cttz=ir.cttz, fshl=ir.fshl, fshr=ir.fshr, ovf=ir.ovf, max=max, min=min,
                   umax=max, umin=min, RTU=Unsupported)
