"""LLVM textual IR -> Python code generator (the encoding).

Every function of the module that is reachable from a harness entry point is
translated, on every run, from the IR clang emitted for /repo's current headers.
Integers and pointers stay concrete; float/double values go through the runtime
(rt.py), where they are exact symbolic reals."""
import re
import struct
from fractions import Fraction as Fr

M64 = (1 << 64) - 1

TOK = re.compile(r'''\s*(?:
  (?P<str>c"(?:[^"\\]|\\.)*")
 |(?P<loc>%"[^"]*"|%[-a-zA-Z$._0-9]+)
 |(?P<glob>@"[^"]*"|@[-a-zA-Z$._0-9]+)
 |(?P<meta>!"[^"]*"|![-a-zA-Z$._0-9]*)
 |(?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 |(?P<num>-?[0-9]+(?:\.[0-9]*(?:[eE][-+]?[0-9]+)?)?)
 |(?P<attr>\#[0-9]+)
 |(?P<word>[a-zA-Z_$][-a-zA-Z0-9_.$]*)
 |(?P<q>"(?:[^"\\]|\\.)*")
 |(?P<p>\.\.\.|[\[\]{}()<>,=*:|])
)''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '':
                break
            raise SyntaxError('token: ' + s[i:i + 60])
        i = m.end()
        k = m.lastgroup
        out.append((k, m.group(k)))
    return out


class TS:
    """token stream"""
    __slots__ = ('t', 'i')

    def __init__(self, t):
        self.t = t
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None

    def kind(self, k=0):
        j = self.i + k
        return self.t[j][0] if j < len(self.t) else None

    def next(self):
        v = self.t[self.i]
        self.i += 1
        return v[1]

    def accept(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        x = self.next()
        if x != v:
            raise SyntaxError('expected %r got %r in %r' % (v, x, self.t[max(0, self.i - 6):self.i + 6]))

    def done(self):
        return self.i >= len(self.t)


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}       # name -> (kind, typetoks/valtoks, const)
        self.funcs = {}         # name -> (header, [lines])
        self.decls = set()
        self.aliases = {}
        self._sz = {}
        self.parse(text)

    def parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
                self.funcs[m.group(1).strip('"')] = (ln, lines[i + 1:j])
                i = j
            elif ln.startswith('declare '):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
                self.decls.add(m.group(1).strip('"'))
            elif ln.startswith('@'):
                nm, rest = ln.split(' = ', 1)
                self.globals[nm[1:].strip('"')] = rest
                if ' alias ' in rest:
                    m = re.findall(r'@("[^"]*"|[-a-zA-Z$._0-9]+)', rest)
                    self.aliases[nm[1:].strip('"')] = m[-1].strip('"')
            elif ln.startswith('%') and ' = type ' in ln:
                nm, rest = ln.split(' = type ', 1)
                self.types[nm] = rest
            i += 1

    # ------------------------------------------------------------ types
    def ptype(self, ts):
        k, v = ts.t[ts.i]
        ts.i += 1
        if k == 'loc':
            t = ('named', v)
        elif v == 'ptr':
            t = 'ptr'
            if ts.peek() == 'addrspace':
                ts.i += 4
        elif v in ('double', 'float', 'void', 'label', 'metadata', 'x86_fp80', 'half', 'fp128', 'opaque', 'token'):
            t = v
        elif k == 'word' and v[0] == 'i' and v[1:].isdigit():
            t = ('i', int(v[1:]))
        elif v == '[':
            cnt = int(ts.next())
            ts.expect('x')
            e = self.ptype(ts)
            ts.expect(']')
            t = ('arr', cnt, e)
        elif v == '{':
            es = []
            if not ts.accept('}'):
                while True:
                    es.append(self.ptype(ts))
                    if ts.accept('}'):
                        break
                    ts.expect(',')
            t = ('struct', tuple(es), False)
        elif v == '<':
            if ts.accept('{'):
                es = []
                if not ts.accept('}'):
                    while True:
                        es.append(self.ptype(ts))
                        if ts.accept('}'):
                            break
                        ts.expect(',')
                ts.expect('>')
                t = ('struct', tuple(es), True)
            else:
                cnt = int(ts.next())
                ts.expect('x')
                e = self.ptype(ts)
                ts.expect('>')
                t = ('vec', cnt, e)
        else:
            raise SyntaxError('type: %r' % v)
        # function type
        if ts.peek() == '(' and t != 'metadata':
            # only in call of varargs: consume
            d = 0
            save = ts.i
            toks = ts.t
            j = ts.i
            while True:
                if toks[j][1] == '(':
                    d += 1
                elif toks[j][1] == ')':
                    d -= 1
                    if d == 0:
                        break
                j += 1
            # a function type is followed by a callee (glob/loc)
            if j + 1 < len(toks) and toks[j + 1][0] in ('glob', 'loc') and toks[save - 1][0] != 'glob':
                ts.i = j + 1
        return t

    def resolve(self, t):
        while isinstance(t, tuple) and t[0] == 'named':
            t = self.ptype(TS(tokenize(self.types[t[1]])))
        return t

    def size_align(self, t):
        r = self._sz.get(t)
        if r is None:
            r = self._sz[t] = self._size_align(t)
        return r

    def _size_align(self, t):
        if t == 'ptr' or t == 'double':
            return 8, 8
        if t == 'float':
            return 4, 4
        if t == 'x86_fp80' or t == 'fp128':
            return 16, 16
        if t == 'half':
            return 2, 2
        k = t[0]
        if k == 'i':
            b = (t[1] + 7) // 8
            p = 1
            while p < b:
                p *= 2
            return p, min(p, 16)
        if k == 'arr':
            s, a = self.size_align(t[2])
            return s * t[1], a
        if k == 'vec':
            s, a = self.size_align(t[2])
            z = s * t[1]
            return z, z
        if k == 'named':
            return self.size_align(self.resolve(t))
        if k == 'struct':
            off = 0
            al = 1
            for e in t[1]:
                s, a = self.size_align(e)
                if not t[2]:
                    off = (off + a - 1) // a * a
                    al = max(al, a)
                off += s
            if not t[2]:
                off = (off + al - 1) // al * al
            return off, al
        raise SyntaxError('size of %r' % (t,))

    def size(self, t):
        return self.size_align(t)[0]

    def field(self, t, i):
        """(offset, type) of field i of struct"""
        t = self.resolve(t)
        off = 0
        for j, e in enumerate(t[1]):
            s, a = self.size_align(e)
            if not t[2]:
                off = (off + a - 1) // a * a
            if j == i:
                return off, e
            off += s
        raise IndexError


def fbits(v):
    return struct.unpack('<d', struct.pack('<Q', v))[0]


PY = re.compile(r'[^a-zA-Z0-9_]')


def pyname(n):
    n = n.strip('"')
    return PY.sub(lambda m: '_%x_' % ord(m.group(0)), n)


class FuncGen:
    def __init__(self, mod, gen, name):
        self.mod = mod
        self.gen = gen
        self.name = name
        self.out = []
        self.calls = set()
        self.nallocas = 0

    def lname(self, tok):
        return 'v_' + pyname(tok[1:])

    # ------------------------------------------------------------ operands
    def value(self, ts, t):
        """parse an operand of type t; returns a Python expression"""
        k, v = ts.t[ts.i]
        if k == 'loc':
            ts.i += 1
            return self.lname(v)
        if k == 'glob':
            ts.i += 1
            return self.gaddr(v[1:].strip('"'))
        if v in ('getelementptr', 'bitcast', 'ptrtoint', 'inttoptr', 'sub', 'add', 'icmp', 'select', 'trunc', 'zext'):
            return self.constexpr(ts)
        return self.const(ts, t)

    def gaddr(self, n):
        n = self.mod.aliases.get(n, n)
        self.gen.need_global(n)
        return 'G(%r)' % n

    def constexpr(self, ts):
        op = ts.next()
        while ts.peek() in ('inbounds', 'nuw', 'nsw', 'nusw', 'exact'):
            ts.next()
        ts.expect('(')
        if op == 'getelementptr':
            st = self.mod.ptype(ts)
            ts.expect(',')
            e = self.gep_rest(ts, st)
            ts.expect(')')
            return e
        if op in ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'zext'):
            t = self.mod.ptype(ts)
            e = self.value(ts, t)
            ts.expect('to')
            t2 = self.mod.ptype(ts)
            ts.expect(')')
            if op == 'trunc':
                return '((%s) & %d)' % (e, (1 << t2[1]) - 1)
            return e
        if op in ('add', 'sub'):
            t = self.mod.ptype(ts)
            a = self.value(ts, t)
            ts.expect(',')
            t = self.mod.ptype(ts)
            b = self.value(ts, t)
            ts.expect(')')
            return '((%s %s %s) & %d)' % (a, '+' if op == 'add' else '-', b, (1 << t[1]) - 1)
        raise SyntaxError('constexpr ' + op)

    def const(self, ts, t):
        k, v = ts.t[ts.i]
        rt = self.mod.resolve(t) if isinstance(t, tuple) else t
        if v in ('undef', 'poison'):
            ts.i += 1
            return self.undef(rt)
        if v == 'zeroinitializer':
            ts.i += 1
            return self.zero(rt)
        if v == 'null' or v == 'none':
            ts.i += 1
            return '0'
        if v == 'true':
            ts.i += 1
            return '1'
        if v == 'false':
            ts.i += 1
            return '0'
        if rt in ('double', 'float', 'x86_fp80'):
            ts.i += 1
            return self.gen.fconst(v)
        if isinstance(rt, tuple) and rt[0] == 'i':
            ts.i += 1
            return str(int(v) & ((1 << rt[1]) - 1))
        if k == 'str':
            ts.i += 1
            b = cstring(v)
            return repr(tuple(b))
        if v in ('<', '{', '['):
            close = {'<': '>', '{': '}', '[': ']'}[v]
            ts.i += 1
            packed = False
            if v == '<' and ts.peek() == '{':
                ts.i += 1
                packed = True
                close = '}'
            es = []
            if not ts.accept(close):
                while True:
                    et = self.mod.ptype(ts)
                    es.append(self.value(ts, et))
                    if ts.accept(close):
                        break
                    ts.expect(',')
            if packed:
                ts.expect('>')
            return '(' + ''.join(e + ',' for e in es) + ')'
        if v == 'splat':
            ts.i += 1
            ts.expect('(')
            et = self.mod.ptype(ts)
            e = self.value(ts, et)
            ts.expect(')')
            return '(%s,)*%d' % (e, rt[1])
        raise SyntaxError('const %r %r' % (v, t))

    def zero(self, t):
        t = self.mod.resolve(t) if isinstance(t, tuple) else t
        if t in ('double', 'float'):
            return 'Z0'
        if t == 'ptr' or t[0] == 'i':
            return '0'
        if t[0] == 'struct':
            return '(' + ''.join(self.zero(e) + ',' for e in t[1]) + ')'
        return '(%s,)*%d' % (self.zero(t[2]), t[1])

    def undef(self, t):
        t = self.mod.resolve(t) if isinstance(t, tuple) else t
        if t in ('double', 'float'):
            return 'rt.undef_real()'
        if t == 'ptr' or t[0] == 'i':
            return 'U'
        if t[0] == 'struct':
            return '(' + ''.join(self.undef(e) + ',' for e in t[1]) + ')'
        return '(%s,)*%d' % (self.undef(t[2]), t[1])

    def tv(self, ts):
        """type value -> (type, expr)"""
        t = self.mod.ptype(ts)
        self.skip_attrs(ts)
        return t, self.value(ts, t)

    ATTRS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly', 'immarg', 'signext', 'zeroext',
             'returned', 'readnone', 'inreg', 'writable', 'dead_on_unwind', 'swiftself', 'nofree', 'nest', 'allocptr',
             'allocalign', 'noinline', 'nounwind', 'captures', 'initializes', 'range', 'dead_on_return', 'nofpclass'}

    def skip_attrs(self, ts):
        byval = None
        while True:
            v = ts.peek()
            if ts.kind() != 'word':
                break
            if v in ('align',):
                ts.i += 1
                if ts.peek() == '(':
                    ts.i += 3
                else:
                    ts.i += 1
            elif v in ('dereferenceable', 'dereferenceable_or_null', 'range', 'nofpclass', 'captures', 'initializes'):
                ts.i += 1
                self.skip_parens(ts)
            elif v in ('sret', 'byval', 'elementtype', 'inalloca', 'preallocated', 'byref'):
                ts.i += 1
                if ts.peek() == '(':
                    save = ts.i
                    ts.i += 1
                    t = self.mod.ptype(ts)
                    ts.expect(')')
                    if v == 'byval':
                        byval = t
            elif v in self.ATTRS:
                ts.i += 1
            else:
                break
        return byval

    def skip_parens(self, ts):
        d = 0
        while True:
            v = ts.next()
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1
                if d == 0:
                    return

    def gep_rest(self, ts, st):
        """after 'source type ,' : ptr base, indices"""
        t, base = self.tv(ts)
        expr = [base]
        off = 0
        cur = st
        first = True
        while ts.accept(','):
            if ts.kind() == 'meta':
                break
            if ts.peek() == 'inrange':
                ts.next()
            it, ix = self.tv(ts)
            isc = re.fullmatch(r'\d+', ix) is not None
            if isc:
                iv = int(ix)
                if iv >= 1 << (it[1] - 1):
                    iv -= 1 << it[1]
            if first:
                sz = self.mod.size(cur)
                first = False
            else:
                cur = self.mod.resolve(cur)
                if cur[0] == 'struct':
                    o, cur = self.mod.field(cur, iv)
                    off += o
                    continue
                cur = cur[2]
                sz = self.mod.size(cur)
            if isc:
                off += iv * sz
            else:
                if it[1] != 64:
                    ix = 'sx(%s, %d)' % (ix, it[1])
                expr.append('%s*%d' % (ix, sz) if sz != 1 else ix)
        if off:
            expr.append(str(off))
        if len(expr) == 1:
            return expr[0]
        return '((%s) & %d)' % (' + '.join(expr), M64)

    # ------------------------------------------------------------ function
    def generate(self):
        hdr, lines = self.mod.funcs[self.name]
        # arguments
        i = hdr.index('@')
        i = hdr.index('(', i if not hdr[i + 1] == '"' else hdr.index('"', i + 2))
        d = 0
        for j in range(i, len(hdr)):
            if hdr[j] == '(':
                d += 1
            elif hdr[j] == ')':
                d -= 1
                if d == 0:
                    break
        ts = TS(tokenize(hdr[i + 1:j]))
        args = []
        byvals = []
        n = 0
        while not ts.done():
            if ts.peek() == '...':
                ts.next()
                break
            t = self.mod.ptype(ts)
            bv = self.skip_attrs(ts)
            if ts.kind() == 'loc':
                nm = self.lname(ts.next())
            else:
                nm = 'v_%d' % n
            n += 1
            args.append(nm)
            if bv:
                byvals.append((nm, self.mod.size(bv)))
            ts.accept(',')
        # blocks
        blocks = []
        cur = None
        for ln in lines:
            if not ln.strip():
                continue
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', ln)
            if m:
                cur = [m.group(1), []]
                blocks.append(cur)
                continue
            if cur is None:
                cur = [str(n), []]
                blocks.append(cur)
            cur[1].append(ln)
        self.bid = {b[0].strip('"'): k for k, b in enumerate(blocks)}
        # join multi-line (switch) instructions
        for b in blocks:
            o = []
            acc = None
            for ln in b[1]:
                s = ln.strip()
                if acc is not None:
                    acc += ' ' + s
                    if s.startswith(']'):
                        o.append(acc)
                        acc = None
                elif s.startswith('switch ') and not s.rstrip().endswith(']') and '[' in s:
                    acc = s
                else:
                    o.append(s)
            b[1] = o
        # phis
        self.phis = {}
        for b in blocks:
            for s in b[1]:
                m = re.match(r'(%\S+) = phi ', s)
                if not m:
                    break
                ts = TS(tokenize(re.sub(r', ![a-zA-Z_.]+ !\d+', '', s[m.end():])))
                while ts.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                    ts.next()
                t = self.mod.ptype(ts)
                while True:
                    ts.expect('[')
                    v = self.value(ts, t)
                    ts.expect(',')
                    src = ts.next()[1:].strip('"')
                    ts.expect(']')
                    self.phis.setdefault((src, b[0].strip('"')), []).append((self.lname(m.group(1)), v))
                    if not ts.accept(','):
                        break
        body = []
        for k, b in enumerate(blocks):
            self.lines = []
            self.curb = b[0].strip('"')
            for s in b[1]:
                try:
                    self.instr(s)
                except Exception as e:
                    raise SyntaxError('%s in %s: %r' % (e, self.name, s))
            body.append(self.lines)
        w = ['def F_%s(rt%s):' % (self.gen.fid(self.name), ''.join(', ' + a for a in args))]
        for nm, sz in byvals:
            w.append('  %s = rt.byval(%s, %d, 0)' % (nm, nm, sz))
            self.nallocas += 1
        if self.nallocas:
            w.insert(1, '  fr = rt.push()')
        if len(body) == 1:
            w += ['  ' + x for x in body[0]]
        else:
            w.append('  bb = 0')
            w.append('  while True:')
            self.tree(w, body, 0, len(body), '    ')
        return '\n'.join(w)

    def tree(self, w, body, lo, hi, ind):
        if hi - lo <= 1:
            for x in body[lo]:
                w.append(ind + x)
            return
        mid = (lo + hi) // 2
        w.append('%sif bb < %d:' % (ind, mid))
        self.tree(w, body, lo, mid, ind + ' ')
        w.append('%selse:' % ind)
        self.tree(w, body, mid, hi, ind + ' ')

    def goto(self, dst):
        ph = self.phis.get((self.curb, dst), [])
        if len(ph) == 1:
            if ph[0][0] != ph[0][1]:
                self.emit('%s = %s' % ph[0])
        elif ph:
            self.emit('%s = %s' % (', '.join(a for a, _ in ph), ', '.join(b for _, b in ph)))
        self.emit('bb = %d' % self.bid[dst])
        self.emit('continue')

    def emit(self, s):
        self.lines.append(s)

    STRIP = re.compile(r', ![a-zA-Z_.]+ !\d+|, !(?:tbaa|range|noundef|prof|srcloc|heapallocsite)[^,]*')

    def instr(self, s):
        s = self.STRIP.sub('', s)
        m = re.match(r'(%"[^"]*"|%[-a-zA-Z$._0-9]+) = ', s)
        dst = None
        if m:
            dst = self.lname(m.group(1))
            s = s[m.end():]
        ts = TS(tokenize(s))
        op = ts.next()
        if op in ('tail', 'musttail', 'notail'):
            op = ts.next()
        f = getattr(self, 'i_' + op, None)
        if f is None:
            f2 = self.BIN.get(op)
            if f2:
                return self.binop(op, ts, dst)
            raise SyntaxError('unsupported instruction ' + op)
        f(ts, dst)

    # ---- memory
    def i_alloca(self, ts, dst):
        t = self.mod.ptype(ts)
        n = '1'
        sz = str(self.mod.size(t))
        if ts.accept(','):
            if ts.peek() != 'align':
                _, n = self.tv(ts)
                sz = '%s*%s' % (sz, n)
        self.nallocas += 1
        self.emit('%s = rt.alloca(fr, %s)' % (dst, sz))

    def memkind(self, t):
        t = self.mod.resolve(t) if isinstance(t, tuple) else t
        return t

    def load_expr(self, t, p):
        t = self.memkind(t)
        if t == 'double':
            return 'rt.ldd(%s)' % p
        if t == 'float':
            return 'rt.ldf(%s)' % p
        if t == 'ptr':
            return 'rt.ldi(%s, 8)' % p
        if t == 'x86_fp80':
            return 'rt.ldd(%s)' % p
        if t[0] == 'i':
            n = self.mod.size(t)
            e = 'rt.ldi(%s, %d)' % (p, n)
            if t[1] % 8:
                e = '(%s & %d)' % (e, (1 << t[1]) - 1)
            return e
        if t[0] == 'struct':
            o = []
            for i, e in enumerate(t[1]):
                off, et = self.mod.field(t, i)
                o.append(self.load_expr(et, '%s+%d' % (p, off)) + ',')
            return '(' + ''.join(o) + ')'
        sz = self.mod.size(t[2])
        return '(' + ''.join(self.load_expr(t[2], '%s+%d' % (p, i * sz)) + ',' for i in range(t[1])) + ')'

    def store_emit(self, t, v, p):
        t = self.memkind(t)
        if t in ('double', 'x86_fp80'):
            self.emit('rt.std(%s, %s)' % (p, v))
        elif t == 'float':
            self.emit('rt.stf(%s, %s)' % (p, v))
        elif t == 'ptr':
            self.emit('rt.sti(%s, %s, 8)' % (p, v))
        elif t[0] == 'i':
            self.emit('rt.sti(%s, %s, %d)' % (p, v, self.mod.size(t)))
        elif t[0] == 'struct':
            self.emit('t_ = %s' % v)
            for i, e in enumerate(t[1]):
                off, et = self.mod.field(t, i)
                self.store_emit(et, 't_[%d]' % i, '%s+%d' % (p, off))
        else:
            sz = self.mod.size(t[2])
            self.emit('t_ = %s' % v)
            for i in range(t[1]):
                self.store_emit(t[2], 't_[%d]' % i, '%s+%d' % (p, i * sz))

    def i_load(self, ts, dst):
        while ts.peek() in ('volatile', 'atomic'):
            ts.next()
        t = self.mod.ptype(ts)
        ts.expect(',')
        _, p = self.tv(ts)
        self.emit('%s = %s' % (dst, self.load_expr(t, p)))

    def i_store(self, ts, dst):
        while ts.peek() in ('volatile', 'atomic'):
            ts.next()
        t, v = self.tv(ts)
        ts.expect(',')
        _, p = self.tv(ts)
        self.store_emit(t, v, p)

    def i_getelementptr(self, ts, dst):
        while ts.peek() in ('inbounds', 'nuw', 'nusw'):
            ts.next()
        st = self.mod.ptype(ts)
        ts.expect(',')
        self.emit('%s = %s' % (dst, self.gep_rest(ts, st)))

    def i_phi(self, ts, dst):
        pass        # moves are emitted on the incoming edges

    # ---- arithmetic
    BIN = {k: 1 for k in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
                          'fadd', 'fsub', 'fmul', 'fdiv', 'frem')}

    def binop(self, op, ts, dst):
        while ts.peek() in ('nsw', 'nuw', 'exact', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
            ts.next()
        t = self.mod.ptype(ts)
        a = self.value(ts, t)
        ts.expect(',')
        b = self.value(ts, t)
        t = self.memkind(t)
        if isinstance(t, tuple) and t[0] == 'vec':
            self.emit('a_ = %s; b_ = %s' % (a, b))
            self.emit('%s = (%s)' % (dst, ''.join(self.binexpr(op, t[2], 'a_[%d]' % i, 'b_[%d]' % i) + ',' for i in range(t[1]))))
        else:
            self.emit('%s = %s' % (dst, self.binexpr(op, t, a, b)))

    def binexpr(self, op, t, a, b):
        if op[0] == 'f':
            return 'rt.%s(%s, %s)' % (op, a, b)
        n = t[1]
        M = (1 << n) - 1
        if op in ('add', 'sub', 'mul'):
            return '(%s %s %s) & %d' % (a, {'add': '+', 'sub': '-', 'mul': '*'}[op], b, M)
        if op in ('and', 'or', 'xor'):
            return '%s %s %s' % (a, {'and': '&', 'or': '|', 'xor': '^'}[op], b)
        if op == 'shl':
            return '(%s << %s) & %d' % (a, b, M)
        if op == 'lshr':
            return '%s >> %s' % (a, b)
        if op == 'ashr':
            return '(sx(%s, %d) >> %s) & %d' % (a, n, b, M)
        if op == 'udiv':
            return '%s // %s' % (a, b)
        if op == 'urem':
            return '%s %% %s' % (a, b)
        if op == 'sdiv':
            return 'sdiv(%s, %s, %d)' % (a, b, n)
        return 'srem(%s, %s, %d)' % (a, b, n)

    def i_fneg(self, ts, dst):
        while ts.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
            ts.next()
        t, a = self.tv(ts)
        self.emit('%s = rt.fneg(%s)' % (dst, a))

    ICMP = {'eq': '==', 'ne': '!=', 'ult': '<', 'ule': '<=', 'ugt': '>', 'uge': '>=', 'slt': '<', 'sle': '<=', 'sgt': '>', 'sge': '>='}

    def i_icmp(self, ts, dst):
        pred = ts.next()
        if pred == 'samesign':
            pred = ts.next()
        t = self.mod.ptype(ts)
        a = self.value(ts, t)
        ts.expect(',')
        b = self.value(ts, t)
        if isinstance(t, tuple) and t[0] == 'vec':
            self.emit('a_ = %s; b_ = %s' % (a, b))
            self.emit('%s = (%s)' % (dst, ''.join(self.icmpx(pred, t[2], 'a_[%d]' % i, 'b_[%d]' % i) + ',' for i in range(t[1]))))
            return
        self.emit('%s = %s' % (dst, self.icmpx(pred, t, a, b)))

    def icmpx(self, pred, t, a, b):
        if pred[0] == 's':
            n = 64 if t == 'ptr' else t[1]
            if pred in ('slt', 'sge') and b == '0':
                return '%s %s' % ('1 if (%s >> %d) else 0' % (a, n - 1) if pred == 'slt' else '0 if (%s >> %d) else 1' % (a, n - 1), '')
            S = 1 << (n - 1)
            return '1 if (%s ^ %d) %s (%s ^ %d) else 0' % (a, S, self.ICMP[pred], b, S)
        return '1 if %s %s %s else 0' % (a, self.ICMP[pred], b)

    def i_fcmp(self, ts, dst):
        while ts.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
            ts.next()
        pred = ts.next()
        t = self.mod.ptype(ts)
        a = self.value(ts, t)
        ts.expect(',')
        b = self.value(ts, t)
        if isinstance(t, tuple) and t[0] == 'vec':
            self.emit('a_ = %s; b_ = %s' % (a, b))
            self.emit('%s = (%s)' % (dst, ''.join('rt.fcmp(%r, a_[%d], b_[%d]),' % (pred, i, i) for i in range(t[1]))))
            return
        self.emit('%s = rt.fcmp(%r, %s, %s)' % (dst, pred, a, b))

    def i_select(self, ts, dst):
        while ts.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
            ts.next()
        ct, c = self.tv(ts)
        ts.expect(',')
        t1, a = self.tv(ts)
        ts.expect(',')
        t2, b = self.tv(ts)
        if isinstance(ct, tuple) and ct[0] == 'vec':
            self.emit('%s = tuple(y if x else z for x, y, z in zip(%s, %s, %s))' % (dst, c, a, b))
        else:
            self.emit('%s = %s if %s else %s' % (dst, a, c, b))

    def conv(self, ts):
        while ts.peek() in ('nneg', 'nuw', 'nsw'):
            ts.next()
        t, a = self.tv(ts)
        ts.expect('to')
        return t, a, self.mod.ptype(ts)

    def vconv(self, dst, t, a, t2, f):
        if isinstance(t, tuple) and t[0] == 'vec':
            self.emit('%s = tuple(%s for x_ in %s)' % (dst, f('x_', t[2], t2[2]), a))
        else:
            self.emit('%s = %s' % (dst, f(a, t, t2)))

    def i_zext(self, ts, dst):
        t, a, t2 = self.conv(ts)
        self.vconv(dst, t, a, t2, lambda x, t, u: x)

    def i_sext(self, ts, dst):
        t, a, t2 = self.conv(ts)
        self.vconv(dst, t, a, t2, lambda x, t, u: 'sx(%s, %d) & %d' % (x, t[1], (1 << u[1]) - 1))

    def i_trunc(self, ts, dst):
        t, a, t2 = self.conv(ts)
        self.vconv(dst, t, a, t2, lambda x, t, u: '%s & %d' % (x, (1 << u[1]) - 1))

    def i_ptrtoint(self, ts, dst):
        t, a, t2 = self.conv(ts)
        self.emit('%s = %s & %d' % (dst, a, (1 << t2[1]) - 1))

    def i_inttoptr(self, ts, dst):
        t, a, t2 = self.conv(ts)
        self.emit('%s = %s' % (dst, a))

    def i_bitcast(self, ts, dst):
        t, a, t2 = self.conv(ts)
        t, t2 = self.memkind(t), self.memkind(t2)
        if t == t2 or (t == 'ptr' and t2 == 'ptr'):
            self.emit('%s = %s' % (dst, a))
        elif t == 'double' and t2 == ('i', 64):
            self.emit('%s = rt.d2bits(%s)' % (dst, a))
        elif t == ('i', 64) and t2 == 'double':
            self.emit('%s = rt.bits2d(%s)' % (dst, a))
        else:
            self.emit('raise RTU("bitcast %s %s")' % (str(t).replace('"', ''), str(t2).replace('"', '')))

    def i_sitofp(self, ts, dst):
        t, a, t2 = self.conv(ts)
        self.vconv(dst, t, a, t2, lambda x, t, u: 'rt.sitofp(%s, %d)' % (x, t[1]))

    def i_uitofp(self, ts, dst):
        t, a, t2 = self.conv(ts)
        self.vconv(dst, t, a, t2, lambda x, t, u: 'rt.uitofp(%s)' % x)

    def i_fptosi(self, ts, dst):
        t, a, t2 = self.conv(ts)
        self.vconv(dst, t, a, t2, lambda x, t, u: 'rt.fptoi(%s, %d)' % (x, u[1]))

    i_fptoui = i_fptosi

    def i_fpext(self, ts, dst):
        t, a, t2 = self.conv(ts)
        self.emit('%s = %s' % (dst, a))

    i_fptrunc = i_fpext

    def i_freeze(self, ts, dst):
        t, a = self.tv(ts)
        self.emit('%s = %s' % (dst, a))

    # ---- aggregates
    def path(self, ts):
        p = []
        while ts.accept(','):
            if ts.kind() == 'meta':
                break
            p.append(int(ts.next()))
        return p

    def i_extractvalue(self, ts, dst):
        t, a = self.tv(ts)
        self.emit('%s = %s%s' % (dst, a, ''.join('[%d]' % i for i in self.path(ts))))

    def i_insertvalue(self, ts, dst):
        t, a = self.tv(ts)
        ts.expect(',')
        t2, v = self.tv(ts)
        self.emit('%s = ins(%s, %s, %r)' % (dst, a, v, tuple(self.path(ts))))

    def i_extractelement(self, ts, dst):
        t, a = self.tv(ts)
        ts.expect(',')
        t2, i = self.tv(ts)
        self.emit('%s = %s[%s]' % (dst, a, i))

    def i_insertelement(self, ts, dst):
        t, a = self.tv(ts)
        ts.expect(',')
        t2, v = self.tv(ts)
        ts.expect(',')
        t3, i = self.tv(ts)
        self.emit('%s = ins(%s, %s, (%s,))' % (dst, a, v, i))

    def i_shufflevector(self, ts, dst):
        t, a = self.tv(ts)
        ts.expect(',')
        t2, b = self.tv(ts)
        ts.expect(',')
        t3, m = self.tv(ts)
        self.emit('%s = shuf(%s, %s, %s)' % (dst, a, b, m))

    # ---- control
    def i_br(self, ts, dst):
        if ts.accept('label'):
            self.goto(ts.next()[1:].strip('"'))
            return
        t, c = self.tv(ts)
        ts.expect(',')
        ts.expect('label')
        a = ts.next()[1:].strip('"')
        ts.expect(',')
        ts.expect('label')
        b = ts.next()[1:].strip('"')
        self.emit('if %s:' % c)
        save = self.lines
        self.lines = []
        self.goto(a)
        save += [' ' + x for x in self.lines]
        self.lines = save
        self.goto(b)

    def i_switch(self, ts, dst):
        t, c = self.tv(ts)
        ts.expect(',')
        ts.expect('label')
        d = ts.next()[1:].strip('"')
        ts.expect('[')
        while not ts.accept(']'):
            t2, v = self.tv(ts)
            ts.expect(',')
            ts.expect('label')
            l = ts.next()[1:].strip('"')
            self.emit('if %s == %s:' % (c, v))
            save = self.lines
            self.lines = []
            self.goto(l)
            save += [' ' + x for x in self.lines]
            self.lines = save
        self.goto(d)

    def i_ret(self, ts, dst):
        if ts.peek() == 'void':
            v = 'None'
        else:
            t, v = self.tv(ts)
        self.emit('@RET@ return %s' % v)

    def i_unreachable(self, ts, dst):
        self.emit('rt.unreachable()')

    def i_call(self, ts, dst):
        # [fastmath] [cc] [attrs] type callee(args)
        while ts.kind() == 'word' and (ts.peek() in self.ATTRS or ts.peek() in (
                'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fastcc', 'coldcc', 'ccc', 'align', 'dereferenceable', 'dereferenceable_or_null', 'range')):
            if ts.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fastcc', 'coldcc', 'ccc'):
                ts.next()
            else:
                self.skip_attrs(ts)
        t = self.mod.ptype(ts)
        k, callee = ts.t[ts.i]
        ts.i += 1
        if callee == 'asm':
            # inline assembly: only empty (optimisation barrier) forms are understood
            while ts.kind() == 'word':
                ts.next()
            s1 = ts.next()
            if s1.strip('"') != '' and not s1.strip('"').startswith('#'):
                self.emit('raise RTU("inline asm")')
            if dst:
                self.emit('%s = U' % dst)
            return
        ts.expect('(')
        args = []
        if not ts.accept(')'):
            while True:
                at = self.mod.ptype(ts)
                if at == 'metadata':
                    # metadata argument
                    d = 0
                    while True:
                        v = ts.peek()
                        if v == '(':
                            d += 1
                        if v == ')':
                            if d == 0:
                                break
                            d -= 1
                        if v == ',' and d == 0:
                            break
                        ts.next()
                else:
                    self.skip_attrs(ts)
                    args.append(self.value(ts, at))
                if ts.accept(')'):
                    break
                ts.expect(',')
        lhs = '%s = ' % dst if dst else ''
        if k == 'loc':
            self.emit('%srt.indirect(%s)(rt%s)' % (lhs, self.lname(callee), ''.join(', ' + a for a in args)))
            return
        n = callee[1:].strip('"')
        n = self.mod.aliases.get(n, n)
        if n.startswith('llvm.'):
            self.intrinsic(n, args, lhs, t)
            return
        if n in self.mod.funcs and not self.gen.is_model(n):
            self.calls.add(n)
            self.emit('%sF_%s(rt%s)' % (lhs, self.gen.fid(n), ''.join(', ' + a for a in args)))
        else:
            self.gen.externals.add(n)
            self.emit('%srt.ext(%r, (%s))' % (lhs, n, ''.join(a + ',' for a in args)))

    def intrinsic(self, n, a, lhs, t):
        b = n.split('.')
        k = b[1]
        if k in ('lifetime',):
            self.emit('rt.lifetime_%s(%s)' % (b[2], a[1]))
        elif k in ('dbg', 'experimental', 'prefetch', 'donothing', 'assume', 'var', 'annotation', 'sideeffect'):
            pass
        elif k == 'invariant':
            if lhs:
                self.emit(lhs + '0')
        elif k in ('memcpy', 'memmove'):
            self.emit('rt.memcpy(%s, %s, %s)' % tuple(a[:3]))
        elif k == 'memset':
            self.emit('rt.memset(%s, %s, %s)' % tuple(a[:3]))
        elif k in ('umax', 'umin'):
            self.emit('%s%s(%s, %s)' % (lhs, k[1:], a[0], a[1]))
        elif k in ('smax', 'smin'):
            w = t[1]
            self.emit('%ss%s(%s, %s, %d)' % (lhs, k[1:], a[0], a[1], w))
        elif k == 'abs':
            self.emit('%sabs(sx(%s, %d)) & %d' % (lhs, a[0], t[1], (1 << t[1]) - 1))
        elif k in ('expect',):
            self.emit(lhs + a[0])
        elif k in ('ctpop', 'ctlz', 'cttz'):
            self.emit('%s%s(%s, %d)' % (lhs, k, a[0], t[1]))
        elif k in ('umul', 'uadd', 'usub', 'smul', 'sadd', 'ssub'):
            w = t[1][0][1]
            self.emit('%sovf(%r, %s, %s, %d)' % (lhs, k, a[0], a[1], w))
        elif k == 'is' and b[2] == 'constant':
            self.emit(lhs + '0')
        elif k == 'is' and b[2] == 'fpclass':
            self.emit('%srt.fpclass(%s, %s)' % (lhs, a[0], a[1]))
        elif k == 'objectsize':
            self.emit(lhs + str(M64))
        elif k in ('trap', 'ubsantrap'):
            self.emit('rt.trap()')
        elif k in ('stacksave',):
            self.emit(lhs + '0')
        elif k in ('stackrestore',):
            pass
        elif k == 'usub' or k == 'uadd':
            pass
        elif k in ('fshl', 'fshr'):
            self.emit('%s%s(%s, %s, %s, %d)' % (lhs, k, a[0], a[1], a[2], t[1]))
        elif k in ('load', 'threadlocal'):
            self.emit('%s%s' % (lhs, a[0]))
        else:
            m = {'fabs': 'fabs', 'sqrt': 'sqrt', 'exp': 'exp', 'log': 'log', 'sin': 'sin', 'cos': 'cos', 'pow': 'pow', 'powi': 'powi',
                 'fma': 'fma', 'fmuladd': 'fma', 'minnum': 'fmin', 'maxnum': 'fmax', 'minimum': 'fmin', 'maximum': 'fmax',
                 'floor': 'floor', 'ceil': 'ceil', 'copysign': 'copysign', 'rint': 'rint', 'nearbyint': 'rint', 'trunc': 'ftrunc', 'round': 'round'}.get(k)
            if m is None:
                self.emit('raise RTU(%r)' % n)
            else:
                self.gen.externals.add(m)
                self.emit('%srt.ext(%r, (%s))' % (lhs, m, ''.join(x + ',' for x in a)))


def cstring(v):
    b = bytearray()
    s = v[2:-1]
    i = 0
    while i < len(s):
        if s[i] == '\\':
            b.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            b += s[i].encode('latin1', 'replace') if ord(s[i]) < 256 else s[i].encode('utf8')
            i += 1
    return bytes(b)


# numeric helpers available to generated code
def sx(v, n):
    if type(v) is int:
        return v - (1 << n) if v >> (n - 1) else v
    return v


def sdiv(a, b, n):
    a, b = sx(a, n), sx(b, n)
    if type(a) is not int:
        return a
    if type(b) is not int:
        return b
    q = abs(a) // abs(b)
    return (-q if (a < 0) != (b < 0) else q) & ((1 << n) - 1)


def srem(a, b, n):
    a, b = sx(a, n), sx(b, n)
    if type(a) is not int:
        return a
    if type(b) is not int:
        return b
    r = abs(a) % abs(b)
    return (-r if a < 0 else r) & ((1 << n) - 1)


def smax(a, b, n):
    return a if sx(a, n) > sx(b, n) else b


def smin(a, b, n):
    return a if sx(a, n) < sx(b, n) else b


def ins(agg, v, path):
    if len(path) == 1:
        return agg[:path[0]] + (v,) + agg[path[0] + 1:]
    return agg[:path[0]] + (ins(agg[path[0]], v, path[1:]),) + agg[path[0] + 1:]


def shuf(a, b, m):
    c = a + b
    return tuple(c[i] if type(i) is int else c[0] for i in m)


def ctpop(a, n):
    return bin(a).count('1')


def ctlz(a, n):
    return n - a.bit_length()


def cttz(a, n):
    return n if a == 0 else (a & -a).bit_length() - 1


def fshl(a, b, c, n):
    c %= n
    return ((a << c) | (b >> (n - c))) & ((1 << n) - 1)


def fshr(a, b, c, n):
    c %= n
    return ((a << (n - c)) | (b >> c)) & ((1 << n) - 1)


def ovf(k, a, b, n):
    M = (1 << n) - 1
    if k[0] == 's':
        a, b = sx(a, n), sx(b, n)
    r = a * b if 'mul' in k else (a + b if 'add' in k else a - b)
    if k[0] == 's':
        o = not (-(1 << (n - 1)) <= r < (1 << (n - 1)))
    else:
        o = not (0 <= r <= M)
    return (r & M, 1 if o else 0)


class Generator:
    """compiles functions of a module to Python on demand"""

    def __init__(self, mod, models=()):
        self.mod = mod
        self.models = set(models)
        self.fids = {}
        self.env = {}
        self.externals = set()
        self.gneed = set()
        self.consts = {}
        self.translated = {}
        self.ninstr = 0

    def is_model(self, n):
        return n in self.models

    def fid(self, n):
        i = self.fids.get(n)
        if i is None:
            i = self.fids[n] = len(self.fids)
        return i

    def need_global(self, n):
        self.gneed.add(n)

    def fconst(self, v):
        k = self.consts.get(v)
        if k is None:
            from . import rt
            k = self.consts[v] = 'C_%d' % len(self.consts)
            self.env[k] = rt.literal(v)
        return k

    def rebind(self):
        """re-create the literals (their atoms are per path)"""
        from . import rt
        for v, k in self.consts.items():
            self.env[k] = rt.literal(v)

    def compile(self, entry):
        """translate entry and everything it reaches; returns the Python function"""
        todo = [entry]
        while todo:
            n = todo.pop()
            if n in self.translated:
                continue
            fg = FuncGen(self.mod, self, n)
            src = fg.generate()
            rel = 'rt.pop(fr);' if fg.nallocas else ''
            src = self.fixret(src, bool(fg.nallocas))
            self.translated[n] = len(self.mod.funcs[n][1])
            code = compile(src, '<%s>' % n, 'exec')
            exec(code, self.env)
            todo.extend(fg.calls - set(self.translated))
            while self.gneed:
                g = self.gneed.pop()
                if g in self.mod.funcs and g not in self.translated:
                    todo.append(g)
        return self.env['F_%d' % self.fid(entry)]

    def fixret(self, src, frame):
        out = []
        for ln in src.split('\n'):
            if '@RET@ return' in ln:
                ind, rest = ln.split('@RET@ return ', 1)
                if frame:
                    out.append('%sr_ = %s' % (ind, rest))
                    out.append('%srt.pop(fr)' % ind)
                    out.append('%sreturn r_' % ind)
                else:
                    out.append('%sreturn %s' % (ind, rest))
            else:
                out.append(ln)
        return '\n'.join(out)
