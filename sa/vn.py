"""Global value numbering for straight-line bit arithmetic.

Every byte or word a function computes is given a canonical name:
 - bitwise parts as an exclusive-or of and-terms over shifted atoms with bit masks
   (Zhegalkin form), so that every way of writing a rotation, a byte swap, Ch or Maj
   has one name;
 - sums as linear forms modulo 2^w.
Two expressions with the same name are equal for every value of the atoms.  Control flow in
the code analysed here depends on lengths, which are constants of the instance analysed;
where it depends on named bytes both branches are followed.
"""
from ir import AnalysisBroken, size_of, resolve, offsets


class Defect(Exception):
    pass


class Node:
    __slots__ = ('id', 'k', 'w', 'v', '_b')

    def __repr__(s):
        return show(s)


SPLIT = [True]      # 64-bit sums may carry 32-bit arithmetic (off for algorithms with 64-bit words)


def restart(split):
    SPLIT[0] = split
    for t in (_tab, _memo, _bw, _qd, _tr):
        t.clear()
    del _all[:]


_tab = {}
_all = []
_memo = {}


def _mk(k, w, v):
    key = (k, w, v)
    n = _tab.get(key)
    if n is None:
        n = Node()
        n.id, n.k, n.w, n.v, n._b = len(_all), k, w, v, None
        _all.append(n)
        _tab[key] = n
    return n


def atom(name, w=8):
    return _mk('a', w, name)


def show(n, d=3):
    if not isinstance(n, Node):
        return hex(n) if isinstance(n, int) else repr(n)
    if n.k == 'a':
        return str(n.v)
    if d == 0:
        return '..'
    if n.k == 'l':
        s = ' + '.join(('' if c == 1 else '%d*' % c) + show(_all[i], d - 1) for i, c in n.v[1][:4])
        return '(%s%s%s)' % (s, ' + ..' if len(n.v[1]) > 4 else '', ' + %#x' % n.v[0] if n.v[0] else '')
    return '(' + ' ^ '.join('&'.join('%s<<%d' % (show(_all[i], d - 1), s) for i, s in m) or '1' for m, k in n.v[:4]) + (' ^ ..' if len(n.v) > 4 else '') + ')'


def bits(n, w):
    """-> dict monomial -> mask"""
    if isinstance(n, int):
        return {(): n} if n else {}
    if n._b is None:
        if n.k == 'x':
            n._b = dict(n.v)
        elif n.k == 'l' and n.w == 64 and SPLIT[0]:
            # the lower half of a sum is the sum of the lower halves
            lo = trunc(n, 32)
            n._b = dict(bits(lo, 32))
            n._b[((n.id, 0),)] = 0xffffffff << 32
        else:
            n._b = {((n.id, 0),): (1 << n.w) - 1}
    return n._b


def from_bits(d, w):
    d = {m: k for m, k in d.items() if k}
    if not d:
        return 0
    if len(d) == 1:
        (m, k), = d.items()
        if m == ():
            return k
        if len(m) == 1 and m[0][1] == 0:
            b = _all[m[0][0]]
            if b.w == w and k == (1 << w) - 1:
                return b
    if w == 64 and SPLIT[0]:
        for m, k in d.items():
            if k == 0xffffffff << 32 and len(m) == 1 and m[0][1] == 0 and _all[m[0][0]].k == 'l' and bits(_all[m[0][0]], 64) == d:
                return _all[m[0][0]]
    return _mk('x', w, tuple(sorted(d.items())))


def xor(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return a ^ b
    d = dict(bits(a, w))
    for m, k in bits(b, w).items():
        d[m] = d.get(m, 0) ^ k
    return from_bits(d, w)


def and_(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return a & b
    if isinstance(b, int):
        return from_bits({m: k & b for m, k in bits(a, w).items()}, w)
    if isinstance(a, int):
        return from_bits({m: k & a for m, k in bits(b, w).items()}, w)
    A, B = bits(a, w), bits(b, w)
    if len(A) * len(B) > 400:
        return _mk('a', w, ('and',) + tuple(sorted((a.id, b.id))))
    d = {}
    for m, k in A.items():
        for m2, k2 in B.items():
            kk = k & k2
            if kk:
                mm = m if m == m2 else tuple(sorted(set(m) | set(m2)))
                d[mm] = d.get(mm, 0) ^ kk
    return from_bits(d, w)


def or_(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return a | b
    return xor(xor(a, b, w), and_(a, b, w), w)


def shl(a, k, w):
    M = (1 << w) - 1
    if isinstance(a, int):
        return (a << k) & M if k < w else 0
    d = {}
    for m, x in bits(a, w).items():
        x = (x << k) & M
        if x:
            m = tuple((i, s + k) for i, s in m)
            d[m] = d.get(m, 0) ^ x
    return from_bits(d, w)


def lshr(a, k, w):
    if isinstance(a, int):
        return a >> k
    d = {}
    for m, x in bits(a, w).items():
        x >>= k
        if x:
            m = tuple((i, s - k) for i, s in m)
            d[m] = d.get(m, 0) ^ x
    return from_bits(d, w)


def support(n, w):
    s = 0
    for m, k in bits(n, w).items():
        s |= k
    return s


def lin(n, w):
    if isinstance(n, int):
        return n, {}
    if n.k == 'l':
        return n.v[0], dict(n.v[1])
    return 0, {n.id: 1}


def from_lin(c, d, w):
    M = (1 << w) - 1
    c &= M
    d = {i: k & M for i, k in d.items() if k & M}
    if not d:
        return c
    if c == 0 and len(d) == 1:
        (i, k), = d.items()
        if k == 1:
            return _all[i]
    return _mk('l', w, (c, tuple(sorted(d.items()))))


_bw = {}
_qd = {}


def bytewise(n):
    r = _bw.get(n.id)
    if r is None:
        r = n.k == 'a' and n.w == 8 or n.k == 'x' and n.w > 8 and all(len(m) == 1 and _all[m[0][0]].w == 8 and _all[m[0][0]].k == 'a' for m, k in n.v)
        _bw[n.id] = r
    return r


def quad(n):
    r = _qd.get(n.id)
    if r is None:
        r = _qd[n.id] = n.k == 'x' and len(n.v) <= 12 and any(len(m) > 1 for m, k in n.v)
    return r


def add(a, b, w, sb=1):
    M = (1 << w) - 1
    if isinstance(a, int) and isinstance(b, int):
        return (a + sb * b) & M
    key = (a if isinstance(a, int) else -1 - a.id, b if isinstance(b, int) else -1 - b.id, w, sb, isinstance(a, int), isinstance(b, int))
    r = _memo.get(key)
    if r is not None:
        return r
    r = None
    if sb == 1 and not isinstance(a, int) and not isinstance(b, int) and bytewise(a) and bytewise(b) and not support(a, w) & support(b, w):
        r = xor(a, b, w)
    if r is None:
        c1, d1 = lin(a, w)
        c2, d2 = lin(b, w)
        d = dict(d1)
        for i, k in d2.items():
            k = sb * k
            if k == 1 and i not in d and quad(_all[i]):
                # bit-disjoint selections (for example Ch written with +)
                for j in list(d):
                    if d[j] == 1 and quad(_all[j]) and and_(_all[i], _all[j], w) == 0:
                        del d[j]
                        i = xor(_all[i], _all[j], w).id
                        break
            d[i] = d.get(i, 0) + k
        r = from_lin(c1 + sb * c2, d, w)
    _memo[key] = r
    return r


def sub(a, b, w):
    return add(a, b, w, -1)


def mul(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return (a * b) & ((1 << w) - 1)
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        if b & (b - 1) == 0 and b:
            return shl(a, b.bit_length() - 1, w)
        c, d = lin(a, w)
        return from_lin(c * b, {i: k * b for i, k in d.items()}, w)
    return _mk('a', w, ('mul',) + tuple(sorted((a.id, b.id))))


_tr = {}


def mul2(a, b, w):
    if isinstance(a, int):
        return (a * b) & ((1 << w) - 1)
    c, d = lin(a, w)
    return from_lin(c * b, {i: k * b for i, k in d.items()}, w)


def trunc(a, w):
    M = (1 << w) - 1
    if isinstance(a, int):
        return a & M
    if a.k == 'l' and a.w == 64 and w == 32 and SPLIT[0]:
        r = _tr.get(a.id)
        if r is None:
            r = a.v[0] & M
            for i, k in a.v[1]:
                r = add(r, mul2(trunc(_all[i], 32), k & M, 32), 32)
            _tr[a.id] = r
        return r
    if a.k == 'l' and a.w == 64 and SPLIT[0]:
        return from_bits({m: k & M for m, k in bits(a, 64).items()}, w)
    if a.k == 'x':
        return from_bits({m: k & M for m, k in a.v}, w)
    return from_bits({((a.id, 0),): M}, w)


def zext(a, w):
    if isinstance(a, int):
        return a
    return from_bits(dict(bits(a, a.w)), w)


def sext(a, w0, w):
    if isinstance(a, int):
        return (a | (-1 << w0)) & ((1 << w) - 1) if a >> (w0 - 1) & 1 else a
    if not support(a, w0) >> (w0 - 1) & 1:
        return zext(a, w)
    r = zext(a, w)
    s = lshr(a, w0 - 1, w0)
    s = zext(s, w)
    for i in range(w0, w):
        r = xor(r, shl(s, i, w), w)
    return r


def rol(a, k, w):
    return or_(shl(a, k, w), lshr(a, w - k, w), w)


def ror(a, k, w):
    return rol(a, w - k, w)


def not_(a, w):
    return xor(a, (1 << w) - 1, w)


def bswap(a, w):
    r = 0
    for i in range(w // 8):
        r = xor(r, shl(zext(trunc(lshr(a, 8 * i, w), 8), w), w - 8 - 8 * i, w), w)
    return r


def byte(a, i, w):
    """byte i (little endian) of a w-bit value"""
    return trunc(lshr(a, 8 * i, w), 8)


def join(bs):
    """little-endian list of bytes -> word"""
    w = 8 * len(bs)
    r = 0
    for i, b in enumerate(bs):
        if b:
            r = xor(r, shl(zext(b, w), 8 * i, w), w)
    return r


# ------------------------------------------------------------------ memory
_time = [0]


def tick():
    _time[0] += 1
    return _time[0]


class Obj:
    __slots__ = ('name', 'size', 'cells', 'dflt', 'depth', 'const')

    def __init__(s, name, size, dflt=None, depth=None, const=False):
        s.name, s.size, s.dflt, s.const = name, size, dflt, const
        s.depth = tick() if depth is None else depth      # birth; -1 for globals
        s.cells = {}

    def __repr__(s):
        return s.name


class Ptr:
    __slots__ = ('o', 'off')

    def __init__(s, o, off=0):
        s.o, s.off = o, off

    def __eq__(s, t):
        return isinstance(t, Ptr) and s.o is t.o and s.off == t.off

    def __hash__(s):
        return hash((id(s.o), s.off))

    def __repr__(s):
        return '%s+%d' % (s.o, s.off)


class Fn:
    __slots__ = ('f', 'name')
    tab = {}

    def __new__(cls, name, f):
        k = (name, id(f))
        if k not in cls.tab:
            x = object.__new__(cls)
            x.name, x.f = name, f
            cls.tab[k] = x
        return cls.tab[k]

    def __repr__(s):
        return s.name


class Frame:
    __slots__ = ('key', 'objs', 'reads', 'seen', 'written', 'ok', 'depth', 'bases')


class Interp:
    MAXSTEP = 3000000

    def __init__(s, prog, models=None):
        s.prog = prog
        s.models = models or {}
        s.memo = {}
        s.reset()
        s.skip = None          # loop-summary hook
        s.cnt = {}

    def reset(s, dec=()):
        s.globs = {}
        s.frames = []
        s.depth = 0
        s.steps = 0
        s.dec = list(dec)
        s.deci = 0
        s.pending = []
        s.undefs = 0
        s.hits = 0

    # -- memory
    def obj(s, name, size, dflt=None):
        return Obj(name, size, dflt)

    def _def(s, o, off):
        if o.dflt is None:
            return atom(('undefined', o.name, off))
        return o.dflt(off)

    def _raw(s, o, off, n):
        c = o.cells
        x = c.get(off)
        if x is not None and x[0] == n:
            return x[1]
        if n == 1:
            if x is not None:
                return s._part(x, 0)
            for d in range(1, 8):
                x = c.get(off - d)
                if x is not None:
                    if x[0] > d:
                        return s._part(x, d)
                    break
            return s._def(o, off)
        bs = [s._raw(o, off + i, 1) for i in range(n)]
        if any(isinstance(b, tuple) for b in bs):
            return None
        return join(bs)

    def _part(s, x, d):
        v = x[1]
        if isinstance(v, (Ptr, Fn)):
            return ('piece', v, d)
        return byte(v, d, 8 * x[0])

    def bounds(s, o, off, n, what):
        if off < 0 or off + n > o.size:
            raise Defect('%s of %d bytes at offset %d of %s, which has %d bytes' % (what, n, off, o.name, o.size))

    def load(s, p, n):
        if not isinstance(p, Ptr):
            raise Defect('read through %s' % (show(p),))
        o, off = p.o, p.off
        s.bounds(o, off, n, 'read')
        v = s._raw(o, off, n)
        for f in s.frames:
            if o.depth >= f.depth or not f.ok:
                continue
            w = f.written.get(o)
            if w and off in w:
                continue
            k = (o, off, n)
            if k not in f.seen:
                f.seen.add(k)
                f.reads.append((o, off, n, v))
        return v

    def _put(s, o, off, n, v):
        c = o.cells
        for d in range(1, 8):
            x = c.get(off - d)
            if x is not None:
                if x[0] > d:
                    del c[off - d]
                    for i in range(x[0]):
                        c[off - d + i] = (1, s._part(x, i))
                break
        for i in range(n):
            x = c.pop(off + i, None)
            if x is not None and i + x[0] > n:
                for j in range(n - i, x[0]):
                    c[off + i + j] = (1, s._part(x, j))
        c[off] = (n, v)

    def store(s, p, n, v):
        if not isinstance(p, Ptr):
            raise Defect('write through %s' % (show(p),))
        o, off = p.o, p.off
        s.bounds(o, off, n, 'write')
        if o.const:
            raise Defect('write to the constant %s' % o.name)
        s._put(o, off, n, v)
        for f in s.frames:
            if o.depth < f.depth:
                w = f.written.setdefault(o, set())
                for i in range(n):
                    w.add(off + i)

    def copy(s, d, a, n):
        if n == 0:
            return
        if not isinstance(d, Ptr) or not isinstance(a, Ptr):
            raise Defect('copy between %s and %s' % (show(d), show(a)))
        s.bounds(a.o, a.off, n, 'read')
        s.bounds(d.o, d.off, n, 'write')
        out = []
        i = 0
        while i < n:
            x = a.o.cells.get(a.off + i)
            k = x[0] if x is not None and i + x[0] <= n else 1
            out.append((i, k, s.load(Ptr(a.o, a.off + i), k)))
            i += k
        for i, k, v in out:
            s.store(Ptr(d.o, d.off + i), k, v)

    def fill(s, d, v, n):
        if n == 0:
            return
        s.bounds(d.o, d.off, n, 'write')
        for i in range(n):
            s.store(Ptr(d.o, d.off + i), 1, v)

    def bytes(s, p, n):
        return [s._raw(p.o, p.off + i, 1) for i in range(n)]

    # -- globals
    def glob(s, mod, name):
        f = s.prog.lookup(mod, name)
        from ir import Func
        if isinstance(f, Func):
            return Fn(name, f)
        g = s.prog.glob(mod, name)
        if g is None:
            return Fn(name, None)
        k = (g.mod.name if hasattr(g.mod, 'name') else g.mod, name)
        if k not in s.globs:
            o = Obj(name, size_of(g.ty), lambda off: 0, -1, False)
            s.globs[k] = o
            if g.init is not None:
                s.init(o, 0, g.ty, g.init, mod)
            o.const = g.const
        return Ptr(s.globs[k], 0)

    def init(s, o, off, ty, v, mod):
        ty = resolve(ty)
        if v[0] == 'zero' or v[0] == 'undef':
            return
        if v[0] == 'bytes':
            for i, c in enumerate(v[1]):
                s._put(o, off + i, 1, c if isinstance(c, int) else ord(c))
        elif v[0] == 'agg':
            if ty.k == 'struct':
                for (et, ev), fo in zip(v[1], offsets(ty)):
                    s.init(o, off + fo, et, ev, mod)
            else:
                for i, (et, ev) in enumerate(v[1]):
                    s.init(o, off + i * size_of(et), et, ev, mod)
        elif v[0] == 'c' and ty.k == 'ptr' and v[1] == 0:
            s._put(o, off, 8, 0)
        else:
            s._put(o, off, size_of(ty), s.const(v, ty, mod))

    def const(s, v, ty, mod):
        k = v[0]
        if k == 'c':
            return v[1]
        if k == 'g':
            return s.glob(mod, v[1])
        if k == 'undef':
            s.undefs += 1
            return atom(('undef', s.undefs), ty.w if ty is not None and ty.k == 'int' else 64)
        if k == 'gep':
            p = s.const(v[2], None, mod)
            return s.gep(p, v[1], [(None, i[1] if i[0] == 'c' else None) for i in v[3]])
        if k == 'cast':
            return s.const(v[2], ty, mod)
        if k == 'zero':
            return 0
        raise AnalysisBroken('constant %s' % (v,))

    def gep(s, p, ty, idx):
        off = 0
        first = True
        for it, i in idx:
            if not isinstance(i, int):
                raise IndexError(i)
            if it is not None and it.w < 64 and it.k == 'int' and i >> (it.w - 1):
                i -= 1 << it.w
            elif i >> 63:
                i -= 1 << 64
            if first:
                off += i * size_of(ty)
                first = False
                continue
            ty = resolve(ty)
            if ty.k == 'struct':
                off += offsets(ty)[i]
                ty = ty.els[i]
            else:
                ty = ty.el
                off += i * size_of(ty)
        if isinstance(p, Ptr):
            return Ptr(p.o, p.off + off)
        if isinstance(p, int):
            return (p + off) & (2 ** 64 - 1)
        raise Defect('address arithmetic on %s' % (show(p),))

    # -- decisions
    def decide(s, c):
        c = trunc(c, 1)
        if isinstance(c, int):
            return c
        for f in s.frames:
            f.ok = False
        s.cnt[c.id] = s.cnt.get(c.id, 0)
        if s.deci < len(s.dec):
            r = s.dec[s.deci]
        else:
            r = 0
            s.dec.append(0)
            s.pending.append(s.deci)
        s.deci += 1
        return r

    def icmp(s, pred, a, b, w):
        if isinstance(a, int) and isinstance(b, int):
            if pred[0] == 's':
                h = 1 << (w - 1)
                a, b = (a ^ h) - h, (b ^ h) - h
            return int({'eq': a == b, 'ne': a != b, 'ult': a < b, 'ugt': a > b, 'ule': a <= b, 'uge': a >= b,
                        'slt': a < b, 'sgt': a > b, 'sle': a <= b, 'sge': a >= b}[pred])
        if isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
            if pred == 'eq':
                return int(a == b)
            if pred == 'ne':
                return int(a != b)
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o is b.o:
                return s.icmp(pred, a.off, b.off, 64)
            raise Defect('order of unrelated addresses')
        if a == b:
            return int(pred in ('eq', 'ule', 'uge', 'sle', 'sge'))
        if isinstance(a, Node) and isinstance(b, int) and support(a, w) & b != b and pred in ('eq', 'ne'):
            return int(pred == 'ne')
        return atom(('cmp', pred, a if isinstance(a, int) else ('n', a.id), b if isinstance(b, int) else ('n', b.id)), 1)

    # -- execution of the transfer functions
    def call(s, f, args):
        if isinstance(f, Fn):
            m = s.models.get(f.name)
            if m is not None:
                return m(s, args)
            if f.f is None:
                raise AnalysisBroken('no transfer function for %s' % f.name)
            f = f.f
        m = s.models.get(f.name)
        if m is not None:
            return m(s, args)
        # summaries of earlier instances, keyed by what was read
        norm = []
        objs = []
        bases = []
        for a in args:
            if isinstance(a, Ptr):
                if a.o not in objs:
                    objs.append(a.o)
                    bases.append(a.off)
                i = objs.index(a.o)
                norm.append(('p', i, a.off - bases[i]))
            else:
                norm.append(a)
        key = (f.name, f.mod.name, tuple(norm))
        node = s.memo.get(key) if s.frames is not None else None
        while node is not None:
            if node[0] == 'end':
                s.hits += 1
                for o, off, n, v in node[1]:
                    s.store(s._abs(o, off, objs, bases), n, v)
                return node[2]
            p = s._abs(node[1], node[2], objs, bases)
            if p.off < 0 or p.off + node[3] > p.o.size:
                break
            v = s.load(p, node[3])
            node = node[4].get(v if v.__class__ is not bool else int(v))
        s.depth += 1
        fr = Frame()
        fr.depth, fr.reads, fr.seen, fr.written, fr.ok = tick(), [], set(), {}, True
        s.frames.append(fr)
        st0 = s.steps
        try:
            r = s.run(f, args)
        finally:
            s.frames.pop()
            s.depth -= 1
        if fr.ok and s.steps - st0 > 250 and not isinstance(r, Ptr):
            def rel(o, off):
                if o in objs:
                    return objs.index(o), off - bases[objs.index(o)]
                if o.depth == -1:
                    return o, off
                return None, None
            path = []
            good = True
            for o, off, n, v in fr.reads:
                ro, rf = rel(o, off)
                if ro is None or v is None or isinstance(v, tuple):
                    good = False
                    break
                path.append((ro, rf, n, v))
            ws = []
            for o, offs in fr.written.items():
                for off in sorted(offs):
                    x = o.cells.get(off)
                    if x is None:
                        continue
                    ro, rf = rel(o, off)
                    if ro is None or isinstance(x[1], (Ptr, tuple)):
                        good = False
                        break
                    ws.append((ro, rf, x[0], x[1]))
                    if any(off + i not in offs for i in range(x[0])):
                        good = False
            if good:
                end = ('end', ws, r)
                if not path:
                    s.memo[key] = end
                else:
                    cur = s.memo.get(key)
                    if cur is None:
                        cur = s.memo[key] = ('rd',) + path[0][:3] + ({},)
                    for i, (ro, rf, n, v) in enumerate(path):
                        if cur[0] == 'end' or cur[1:4] != (ro, rf, n):
                            break
                        nxt = cur[4].get(v)
                        if nxt is None:
                            nxt = ('rd',) + path[i + 1][:3] + ({},) if i + 1 < len(path) else end
                            cur[4][v] = nxt
                        cur = nxt
        return r

    def _abs(s, o, off, objs, bases):
        if isinstance(o, int):
            return Ptr(objs[o], bases[o] + off)
        return Ptr(o, off)

    def run(s, f, args):
        env = {}
        for (n, t), a in zip(f.params, args):
            env[n] = a
        mod = f.mod

        def val(v, ty=None):
            if v[0] == 'l':
                return env[v[1]]
            if v[0] == 'c':
                return v[1]
            return s.const(v, ty, mod)
        cur = f.order[0]
        prev = None
        while True:
            if s.skip is not None:
                s.skip(s, f, cur, env)
            ins = f.blocks[cur]
            phis = []
            for I in ins:
                s.steps += 1
                op = I.op
                if op == 'phi':
                    phis.append((I.dst, val(I.a[prev], I.ty)))
                    continue
                if phis:
                    for d, v in phis:
                        env[d] = v
                    phis = []
                if op == 'bin':
                    a, b = val(I.a[0], I.ty), val(I.a[1], I.ty)
                    env[I.dst] = s.bin(I.x, a, b, I.ty.w)
                elif op == 'load':
                    v = s.load(val(I.a[0]), size_of(I.ty))
                    if I.ty.k == 'int' and I.ty.w < 8:
                        v = trunc(v, I.ty.w)
                    env[I.dst] = v
                elif op == 'store':
                    v = val(I.a[0], I.ty)
                    if I.ty.k == 'int' and I.ty.w < 8:
                        v = zext(v, 8)
                    s.store(val(I.a[1]), size_of(I.ty), v)
                elif op == 'gep':
                    p = val(I.a[0])
                    idx = [(t, val(v, t)) for t, v in I.a[1]]
                    try:
                        env[I.dst] = s.gep(p, I.ty, idx)
                    except IndexError:
                        env[I.dst] = s.table(p, I.ty, idx)
                elif op == 'cast':
                    v = val(I.a[0], I.a[1])
                    if isinstance(v, (Ptr, Fn)):
                        env[I.dst] = v
                    elif I.x == 'trunc':
                        env[I.dst] = trunc(v, I.ty.w)
                    elif I.x == 'zext':
                        env[I.dst] = zext(v, I.ty.w)
                    elif I.x == 'sext':
                        env[I.dst] = sext(v, I.a[1].w, I.ty.w)
                    else:
                        env[I.dst] = v
                elif op == 'icmp':
                    w = I.ty.w if I.ty.k == 'int' else 64
                    a, b = val(I.a[0], I.ty), val(I.a[1], I.ty)
                    if s.skip is not None and isinstance(a, int) and isinstance(b, int):
                        for d in range(1, s.depth + 1):
                            s.cmps.setdefault(d, []).append((I.x, a, b, w))
                    env[I.dst] = s.icmp(I.x, a, b, w)
                elif op == 'select':
                    c = s.decide(val(I.a[0]))
                    env[I.dst] = val(I.a[1] if c else I.a[2], I.ty)
                elif op == 'alloca':
                    n = val(I.a[0])
                    env[I.dst] = Ptr(Obj('%s.%s' % (f.name, I.dst), size_of(I.ty) * n))
                elif op == 'call':
                    fn, aa = I.a
                    c = s.glob(mod, fn[1]) if fn[0] == 'g' else env[fn[1]]
                    if isinstance(c, Ptr):
                        raise Defect('call of data at line %d of %s' % (I.line, f.name))
                    aa = [val(v, t) for t, v in aa if t.k != 'metadata']
                    s.where = (f, I)
                    r = s.call(c, aa)
                    if I.dst is not None:
                        env[I.dst] = r
                elif op == 'jmp':
                    prev, cur = cur, I.x
                    break
                elif op == 'br':
                    c = s.decide(val(I.a[0]))
                    prev, cur = cur, I.x[0] if c else I.x[1]
                    break
                elif op == 'switch':
                    v = val(I.a[0])
                    if not isinstance(v, int):
                        for cv, lab in I.x[1]:
                            if s.decide(s.icmp('eq', v, cv, I.ty.w)):
                                v = cv
                                break
                        else:
                            v = None
                    prev, cur = cur, dict(I.x[1]).get(v, I.x[0])
                    break
                elif op == 'ret':
                    return val(I.a[0], I.ty) if I.a else None
                elif op == 'unreachable':
                    raise Defect('%s reaches an assertion' % f.name)
                else:
                    raise AnalysisBroken('instruction %s in %s' % (op, f.name))
            if s.steps > s.MAXSTEP:
                raise Defect('%s does not come to an end (more than %d steps)' % (f.name, s.MAXSTEP))

    def table(s, p, ty, idx):
        """load from a constant table at a named index: an address with an opaque offset"""
        return ('tab', p, size_of(ty) if len(idx) == 1 else None, idx[-1][1])

    def bin(s, op, a, b, w):
        if isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.o is b.o:
                return (a.off - b.off) & (2 ** 64 - 1)
            if op == 'and' and isinstance(b, int):
                return a.off & b
            if op in ('add', 'sub') and isinstance(a, Ptr) and isinstance(b, int):
                return Ptr(a.o, a.off + (b if op == 'add' else -b))
            raise AnalysisBroken('arithmetic on an address')
        if op == 'xor':
            return xor(a, b, w)
        if op == 'add':
            return add(a, b, w)
        if op == 'and':
            return and_(a, b, w)
        if op == 'or':
            return or_(a, b, w)
        if op == 'sub':
            return sub(a, b, w)
        if op in ('shl', 'lshr', 'ashr') and isinstance(b, int):
            if b >= w:
                raise Defect('shift of a %d-bit value by %d' % (w, b))
            if op == 'shl':
                return shl(a, b, w)
            if op == 'lshr':
                return lshr(a, b, w)
            if isinstance(a, int):
                return lshr(a, b, w) if not a >> (w - 1) else (a >> b | ((1 << b) - 1) << (w - b)) & ((1 << w) - 1)
            return sext(trunc(lshr(a, b, w), w - b), w - b, w)
        if op == 'mul':
            return mul(a, b, w)
        if isinstance(a, int) and isinstance(b, int):
            if b == 0:
                raise Defect('division by zero')
            if op == 'udiv':
                return a // b
            if op == 'urem':
                return a % b
            h = 1 << (w - 1)
            a, b = (a ^ h) - h, (b ^ h) - h
            q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            return (q if op == 'sdiv' else a - q * b) & ((1 << w) - 1)
        if isinstance(b, int) and b & (b - 1) == 0 and b and op in ('udiv', 'urem'):
            return lshr(a, b.bit_length() - 1, w) if op == 'udiv' else and_(a, b - 1, w)
        return atom((op, a if isinstance(a, int) else ('n', a.id), b if isinstance(b, int) else ('n', b.id)), w)


def paths(I, fn, limit=16):
    """run fn(I) for every combination of decisions on named bytes (bounded); yields results"""
    todo = [()]
    n = 0
    while todo and n < limit:
        d = todo.pop()
        I.reset(d)
        n += 1
        r = fn(I)
        for i in I.pending:
            todo.append(tuple(I.dec[:i]) + (1,))
        yield r
