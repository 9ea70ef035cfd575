"""Models of files for the contracts: what the standard streams do, at the level a contract needs."""
from .common import *
from vcg.symex import LVIte, _strip, tyname, boolv


class Model:
    """base: a stream that may fail to open"""

    def __init__(self, c):
        self.c = c
        self.opened = c.ex.symval(parse_type('bool'), 'file_opened')
        c.ex.smodel = self
        c.ex.assumptions.add('standard streams behave as their documented byte or text sequences; opening may fail, writing does not')

    def open(self, ex, v, args):
        return v.with_('open', self.opened)

    def method(self, ex, name, lv, args, node):
        if name in ('fail', 'bad'):
            return z3.Not(self.good(ex, lv))
        if name in ('good', 'operator bool'):
            return self.good(ex, lv)
        if name in ('read', 'write'):
            p, n = ex.ev_any(args[0]), ex.ev(args[1])
            p = ex.rd(p) if isinstance(p, (LV, LVIte)) else p
            getattr(self, name)(ex, lv, p, n, parse_type(tyname(_strip(args[0])['type'])), node)
            return lv
        raise Unsupported('stream method ' + name)

    def good(self, ex, lv):
        return ex.rd(lv).f['open']

    def put(self, ex, lv, kind, x):
        raise Unsupported('text output')

    def get(self, ex, lv, dst, ty):
        raise Unsupported('text input')

    def getline(self, ex, lv, dst):
        raise Unsupported('getline')

    def streq(self, ex, x, y):
        return None

    def strmethod(self, ex, name, v):
        return None


def elem(ty):
    """type a char* was cast from"""
    while ty.k in ('ptr', 'ref'):
        ty = ty.a
    return ty.a if ty.k == 'arr' else ty


def byte_of(v, k):
    """byte k of a two's complement integer, little endian"""
    return (v / 256 ** k) % 256 if k else v % 256


class Bytes(Model):
    """a file as a sequence of bytes. Writing: the byte at the ghost position g is followed. Reading: the file is an arbitrary
    sequence F of bytes of length n"""

    def __init__(self, c, g=None, name='file'):
        super().__init__(c)
        self.g = g
        self.pos = c.obj(I(0), 'pos')
        self.cell = c.obj(I(-1), 'cell')        # -1: not written
        self.F = z3.Function(name + '_byte', z3.IntSort(), z3.IntSort())
        self.n = z3.Int(name + '_length')
        c.assume(self.n >= 0)

    def at(self, p):
        self.c.ex.assume(And(0 <= self.F(p), self.F(p) <= 255))
        return self.F(p)

    def word(self, p, n):
        """little endian signed number"""
        v = sum([self.at(p + k) * 256 ** k for k in range(n)], I(0))
        return If(v >= 2 ** (8 * n - 1), v - 2 ** (8 * n), v)

    def write(self, ex, lv, p, n, ty, node):
        ety = elem(ty)
        pos, cell, g = ex.rd(self.pos), ex.rd(self.cell), self.g
        if not isinstance(p, Ptr) or p.lv is None:
            raise Unsupported('raw write')
        off = p.off
        if off is None and ety.k == 'int':
            v, k = ex.rd(p.lv), as_int(n)
            if k is None:
                raise Unsupported('raw write of part of an object')
            if k * 8 > ety.bits:
                ex.oblige(z3.BoolVal(False), 'bytes written are inside the object', 'bounds', node)
            b = I(0)
            for i in reversed(range(k)):
                b = If(g == pos + i, byte_of(v, i), b)
        elif off is not None and ety.k == 'int' and ety.bits == 8:
            v = ex.rd(p.lv)
            ex.oblige(And(n >= 0, off >= 0, off + n <= v.len()), 'bytes written are inside the array', 'bounds', node)
            ex.st.pc.append(('cond', And(pos <= g, g < pos + n)))
            try:
                b = v.get(simp(off + g - pos), ex)
            finally:
                ex.st.pc.pop()
        else:
            raise Unsupported('raw write of %r' % ety)
        ex.wr(self.cell, If(And(pos <= g, g < pos + n), b, cell))
        ex.wr(self.pos, pos + n)

    def read(self, ex, lv, p, n, ty, node):
        ety = elem(ty)
        pos = ex.rd(self.pos)
        if not isinstance(p, Ptr) or p.lv is None:
            raise Unsupported('raw read')
        if not ex.quiet:
            self.c.ensure('reads stay inside the file', pos + n <= self.n)
        off = p.off
        if off is None and ety.k == 'int':
            k = as_int(n)
            if k is None or k * 8 != ety.bits:
                raise Unsupported('raw read of part of an object')
            v = self.word(pos, k)
            if not ety.signed:
                raise Unsupported('raw read of an unsigned object')
            ex.wr(p.lv, v)
        elif off is not None and ety.k == 'int' and ety.bits == 8:
            v = ex.rd(p.lv)
            ex.oblige(And(n >= 0, off >= 0, off + n <= v.len()), 'bytes read are inside the array', 'bounds', node)
            ex.wr(p.lv, Map(v.ety, v, lambda i: And(off <= i, i < off + n), lambda i: self.at(simp(pos + i - off))))
        else:
            raise Unsupported('raw read of %r' % ety)
        ex.wr(self.pos, pos + n)


class Words(Model):
    """a file as a sequence of typed fields of 2 or 4 bytes. Writing: the fields at the ghost positions are followed (0 nothing written there,
    1 a float, 2 an integer, 3 overlapped by something else). Reading: the file has arbitrary floats and integers at every position, and length n;
    a read beyond the end fails and leaves the stream failed"""

    def __init__(self, c, gs=(), name='file'):
        super().__init__(c)
        self.gs = gs
        self.pos = c.obj(I(0), 'pos')
        self.ok = c.obj(self.opened, 'good')
        self.kind = [c.obj(I(0), 'kind') for _ in gs]
        self.val = [c.obj(z3.RealVal(0), 'field') for _ in gs]
        self.f32 = z3.Function(name + '_float', z3.IntSort(), z3.RealSort())
        self.i32 = z3.Function(name + '_int', z3.IntSort(), z3.IntSort())
        self.n = z3.Int(name + '_length')
        c.assume(self.n >= 0)

    def good(self, ex, lv):
        return ex.rd(self.ok)

    def write(self, ex, lv, p, n, ty, node):
        ety, k = elem(ty), as_int(n)
        if not isinstance(p, Ptr) or p.lv is None or p.off is not None or k not in (1, 2, 4) or ety.k not in ('int', 'real') or ety.k == 'real' and (k != 4 or ety.a != 'float'):
            raise Unsupported('raw write of %r' % ety)
        if ety.k == 'int' and k * 8 > ety.bits:
            ex.oblige(z3.BoolVal(False), 'bytes written are inside the object', 'bounds', node)
        v, pos = ex.rd(p.lv), ex.rd(self.pos)
        for (g, m), kd, vl in zip(self.gs, self.kind, self.val):
            here = And(pos < g + m, g < pos + k)
            exact = And(pos == g, z3.BoolVal(k == m))
            ex.wr(vl, If(exact, realv(v), ex.rd(vl)))
            ex.wr(kd, If(here, If(And(exact, ex.rd(kd) == 0), I(1 if ety.k == 'real' else 2), I(3)), ex.rd(kd)))
        ex.wr(self.pos, pos + k)

    def read(self, ex, lv, p, n, ty, node):
        ety, k = elem(ty), as_int(n)
        if not isinstance(p, Ptr) or p.lv is None or p.off is not None or k is None or ety.k not in ('int', 'real') or ety.k == 'real' and (k != 4 or ety.a != 'float'):
            raise Unsupported('raw read of %r' % ety)
        pos = ex.rd(self.pos)
        ok = And(ex.rd(self.ok), pos + k <= self.n)
        junk = ex.symval(ety, fresh_name('junk'))
        v = self.f32(pos) if ety.k == 'real' else self.i32(pos) if k == 4 and ety.bits == 32 else junk
        if ety.k == 'int':
            if k * 8 > ety.bits:
                ex.oblige(z3.BoolVal(False), 'bytes read are inside the object', 'bounds', node)
        ex.wr(p.lv, If(ok, v, junk))
        ex.wr(self.ok, ok)
        ex.wr(self.pos, pos + k)


class Text(Model):
    """text output, line by line: on_line(parts) is called for each complete line, parts being literal text and ('int'|'real', value).
    A line starting with one of the `lists` prefixes is reported item by item, since its length is not known: on_item(prefix, value), on_end(prefix)"""

    def __init__(self, c, lists=()):
        super().__init__(c)
        self.lists = lists
        self.pending = c.obj(Str(()), 'pending')
        self.mode = c.obj(I(0), 'mode')

    def put(self, ex, lv, kind, x):
        if kind == 'str':
            if not isinstance(x, Str) or not all(isinstance(p, str) for p in x.p):
                raise Unsupported('text that is not a literal')
            t = ''.join(x.p)
            while '\n' in t:
                a, t = t.split('\n', 1)
                self.text(ex, a)
                self.newline(ex)
            self.text(ex, t)
        else:
            self.item(ex, kind, x)

    def _mode(self, ex):
        m = as_int(z3.simplify(ex.rd(self.mode)))
        if m is None:
            for k in range(len(self.lists) + 1):
                if ex.provable(ex.rd(self.mode) == k):
                    return k
            raise Unsupported('the kind of line written depends on the data')
        return m

    def text(self, ex, t):
        if not t:
            return
        m = self._mode(ex)
        if m:
            if t.strip():
                self.on_text(ex, self.lists[m - 1], t)
            return
        p = ex.rd(self.pending)
        if not p.p:
            for i, l in enumerate(self.lists):
                if t.startswith(l):
                    ex.wr(self.mode, I(i + 1))
                    self.text(ex, t[len(l):])
                    return
        ex.wr(self.pending, Str(p.p + (t,)))

    def item(self, ex, kind, x):
        m = self._mode(ex)
        if m:
            self.on_item(ex, self.lists[m - 1], x)
            return
        ex.wr(self.pending, Str(ex.rd(self.pending).p + ((kind, x),)))

    def newline(self, ex):
        m = self._mode(ex)
        if m:
            ex.wr(self.mode, I(0))
            self.on_end(ex, self.lists[m - 1])
            return
        p = ex.rd(self.pending).p
        ex.wr(self.pending, Str(()))
        # adjacent literals become one
        out = []
        for x in p:
            if isinstance(x, str) and out and isinstance(out[-1], str):
                out[-1] += x
            else:
                out.append(x)
        self.on_line(ex, out)

    def on_text(self, ex, l, t):
        raise Unsupported('text %r in a list' % t)


class Lines(Model):
    """text input: a file of N lines, each empty (0), starting with one of the known words (1..) or with another (-1), followed by numbers"""

    def __init__(self, c, words):
        super().__init__(c)
        z = z3.IntSort()
        self.words = words
        self.N = c.int('lines', 1)
        self.kind = z3.Function('line_kind', z, z)
        self.real = z3.Function('line_real', z, z, z3.RealSort())
        self.int = z3.Function('line_int', z, z, z)
        self.pos = c.obj(I(0), 'line')
        c.assume(self.N < 2 ** 28)

    def open(self, ex, v, args):
        a = [ex.rd(x) if isinstance(x, (LV, LVIte)) else x for x in args]
        if a and isinstance(a[0], Str) and len(a[0].p) == 1 and isinstance(a[0].p[0], tuple) and a[0].p[0][0] == 'line':
            return Struct('stream', dict(v.f, open=z3.BoolVal(True), line=a[0].p[0][1], pos=I(0)))
        return super().open(ex, v, args)

    def method(self, ex, name, lv, args, node):
        if name == 'eof':
            return ex.rd(self.pos) >= self.N
        return super().method(ex, name, lv, args, node)

    def getline(self, ex, lv, dst):
        p = ex.rd(self.pos)
        ex.assume(And(self.kind(p) >= -1, self.kind(p) <= len(self.words)))
        ex.wr(dst, Str((('line', p),)))
        ex.wr(self.pos, p + 1)

    def get(self, ex, lv, dst, ty):
        s = ex.rd(lv)
        if 'line' not in s.f:
            raise Unsupported('formatted input from a file')
        k = as_int(s.f['pos'])
        if k is None:
            k = next((i for i in range(8) if ex.provable(s.f['pos'] == i)), None)
        if k is None:
            raise Unsupported('unknown position in a line')
        if ty.k == 'str':
            ex.wr(dst, Str((('word', s.f['line'], k),)))
        elif ty.k in ('real', 'int'):
            if k == 0:
                raise Unsupported('a number before the word of a line')
            ex.wr(dst, (self.real if ty.k == 'real' else self.int)(s.f['line'], I(k)))
        else:
            raise Unsupported('input of %r' % ty)
        ex.wr(lv, s.with_('pos', I(k + 1)))

    def streq(self, ex, x, y):
        for a, b in ((x, y), (y, x)):
            if len(a.p) == 1 and isinstance(a.p[0], tuple) and a.p[0][0] == 'word' and a.p[0][2] == 0 and all(isinstance(p, str) for p in b.p):
                w = ''.join(b.p)
                if w not in self.words:
                    raise Unsupported('comparison with %r' % w)
                return self.kind(a.p[0][1]) == self.words.index(w) + 1

    def strmethod(self, ex, name, v):
        if isinstance(v, Str) and len(v.p) == 1 and isinstance(v.p[0], tuple) and v.p[0][0] == 'line':
            e = self.kind(v.p[0][1]) == 0
            if name in ('size', 'length'):
                n = z3.Int(fresh_name('linelen'))
                ex.assume(n > 0)
                return If(e, I(0), n)
            if name == 'empty':
                return e
