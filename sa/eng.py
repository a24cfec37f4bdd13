"""Abstract interpreter over LLVM IR (see DESIGN.md, "Engine").

Domain: Herbrand terms with linear normal forms for integers, an allocation-site
object heap with lazily materialised input objects, a zone-like fact store
(intervals over differences of terms, disequalities, opaque booleans), and
loop widening.  States are kept disjunctive (one per feasible abstract path)."""
import sys
from ir import *
from ir import _ints

sys.setrecursionlimit(20000)


# ------------------------------------------------------------------ terms
_reprs = {}


class Term:
    __slots__ = ('op', 'args', 'w', 'h', 'lo', 'hi', 'tag')

    def __hash__(s):
        return s.h

    def __eq__(s, o):
        return s is o

    def __repr__(s):
        if s.op == 'sym':
            return s.args[0]
        r = _reprs.get(s)
        if r is None:
            r = s.text()
            if len(r) > 1500:
                r = '%s@%d' % (s.op, len(_reprs))
            _reprs[s] = r
        return r

    def text(s):
        if s.op == 'lin':
            c, ts = s.args
            return '(' + '+'.join(['%s%r' % ('' if k == 1 else '%d*' % k, a) for a, k in ts] + ([str(c)] if c else [])) + ')'
        return '%s(%s)' % (s.op, ','.join(map(repr, s.args)))


_tab = {}


def mk(op, args, w=64, lo=None, hi=None, tag=None):
    k = (op, args, w)
    t = _tab.get(k)
    if t is None:
        t = Term()
        t.op, t.args, t.w, t.h = op, args, w, hash((op, args, w))
        if lo is None:
            if w == 1:
                lo, hi = 0, 1
            elif w == 8:
                lo, hi = 0, 255
            elif w == 16:
                lo, hi = 0, 65535
            elif w == 32:
                lo, hi = -(1 << 31), (1 << 31) - 1
            else:
                lo, hi = -(1 << 63), (1 << 63) - 1
        t.lo, t.hi, t.tag = lo, hi, tag
        _tab[k] = t
    return t


def Sym(name, w=64, lo=None, hi=None, tag=None):
    """tag: dict-like tuple: 'nullable' | 'nonnull' | None"""
    return mk('sym', (name,), w, lo, hi, tag)


def App(op, *args, w=64, lo=None, hi=None, tag=None):
    return mk(op, args, w, lo, hi, tag)


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(s, obj, off=0):
        s.obj, s.off = obj, off

    def __hash__(s):
        return hash((s.obj, s.off))

    def __eq__(s, o):
        return isinstance(o, Ptr) and s.obj == o.obj and s.off == o.off

    def __repr__(s):
        return '&%s%s' % (s.obj, '' if s.off == 0 else '+%r' % (s.off,))


class Fn:
    __slots__ = ('f', 'name')

    def __init__(s, name, f):
        s.f, s.name = f, name

    def __hash__(s):
        return hash(s.name)

    def __eq__(s, o):
        return isinstance(o, Fn) and s.name == o.name and s.f is o.f

    def __repr__(s):
        return 'fn:' + s.name


class _U:
    def __repr__(s):
        return 'UNDEF'


UNDEF = _U()


def is_int(v):
    return type(v) is int


def lin(v):
    """-> (const, {atom:coef})"""
    if type(v) is int:
        return v, {}
    if v is UNDEF:
        v = Sym('undefined', 64)
    if v.op == 'lin':
        return v.args[0], dict(v.args[1])
    return 0, {v: 1}


_order = {}


def _key(a):
    r = _order.get(a)
    if r is None:
        r = _order[a] = len(_order)
    return r


def mklin(c, d, w=64):
    d = [(a, k) for a, k in d.items() if k]
    if not d:
        return c
    if c == 0 and len(d) == 1 and d[0][1] == 1:
        return d[0][0]
    d.sort(key=lambda x: _key(x[0]))
    return mk('lin', (c, tuple(d)), w, -(1 << 80), 1 << 80)


def ladd(a, b, w=64):
    if type(a) is int and type(b) is int:
        return a + b
    ca, da = lin(a)
    cb, db = lin(b)
    d = dict(da)
    for k, v in db.items():
        d[k] = d.get(k, 0) + v
    return mklin(ca + cb, d, w)


def lmul(a, n, w=64):
    if type(a) is int:
        return a * n
    c, d = lin(a)
    return mklin(c * n, {k: v * n for k, v in d.items()}, w)


def lsub(a, b, w=64):
    return ladd(a, lmul(b, -1, w), w)


def sgn(v, w):
    if v >= 1 << (w - 1):
        return v - (1 << w)
    return v


INF = 1 << 90


def mkbits(bs, w):
    # bit vector of known bits and 1-bit symbols
    if all(type(b) is int for b in bs):
        return sum(b << i for i, b in enumerate(bs))
    lo = sum(1 << i for i, b in enumerate(bs) if b == 1 and type(b) is int)
    hi = sum(1 << i for i, b in enumerate(bs) if not (type(b) is int and b == 0))
    return mk('bits', tuple(bs), w, lo if hi < 1 << (w - 1) else -(1 << (w - 1)), hi if hi < 1 << (w - 1) else (1 << (w - 1)) - 1)


def bitvec(v, w):
    if type(v) is int:
        return [(v >> i) & 1 for i in range(w)]
    if isinstance(v, Term) and v.op == 'bits':
        return (list(v.args) + [0] * w)[:w]
    return None


def bits_binop(op, a, b, w):
    x, y = bitvec(a, w), bitvec(b, w)
    if op == 'ashr' and x is not None and type(x[-1]) is int and x[-1] == 0:
        op = 'lshr'
    if op == 'mul' and type(b) is int and b > 0 and b & (b - 1) == 0:
        op, b = 'shl', b.bit_length() - 1
    if op == 'udiv' and type(b) is int and b > 0 and b & (b - 1) == 0:
        op, b = 'lshr', b.bit_length() - 1
    if op == 'urem' and type(b) is int and b > 0 and b & (b - 1) == 0:
        op, y = 'and', bitvec(b - 1, w)
    if op == 'add' and x is not None and y is not None and all((type(p) is int and p == 0) or (type(q) is int and q == 0) for p, q in zip(x, y)):
        op = 'or'
    if op in ('shl', 'lshr') and type(b) is int and x is not None:
        return mkbits(([0] * b + x)[:w] if op == 'shl' else (x[b:] + [0] * b), w)
    if x is None or y is None or op not in ('and', 'or', 'xor'):
        return None
    r = []
    for p, q in zip(x, y):
        ip, iq = type(p) is int, type(q) is int
        if op == 'and':
            r.append(0 if (ip and p == 0) or (iq and q == 0) else (q if ip else p if iq else (p if p is q else None)))
        elif op == 'or':
            r.append(1 if (ip and p == 1) or (iq and q == 1) else (q if ip else p if iq else (p if p is q else None)))
        else:
            r.append((p ^ q) if ip and iq else (p if iq and q == 0 else q if ip and p == 0 else (0 if p is q else None)))
    if any(z is None for z in r):
        return None
    return mkbits(r, w)


def bits_of(t, depth=0):
    # an undecided bit symbol the truth of condition t depends on
    if not isinstance(t, Term) or depth > 4:
        return None
    if t.op == 'bits':
        for b in t.args:
            if type(b) is not int:
                return b
        return None
    if t.op in ('cmp', 'not', 'zext', 'sext', 'trunc'):
        for x in t.args:
            r = bits_of(x, depth + 1) if isinstance(x, Term) else None
            if r is not None:
                return r
    return None


class Facts:
    """interval facts on linear keys + disequalities + opaque booleans"""
    __slots__ = ('rng', 'ne', 'b', 'sub')

    def __init__(s):
        s.rng, s.ne, s.b, s.sub = {}, {}, {}, {}

    def copy(s):
        f = Facts()
        f.rng, f.ne, f.b, f.sub = dict(s.rng), dict(s.ne), dict(s.b), dict(s.sub)
        return f

    def terms(s):
        for m in (s.rng, s.ne):
            for k in m:
                if k:
                    for a, _ in k:
                        yield a
        yield from s.b
        yield from s.sub

    def norm(s, v):
        if type(v) is int or not isinstance(v, Term) or not s.sub:
            return v
        if v.op == 'bits':
            if any(b in s.sub for b in v.args if type(b) is not int):
                return mkbits([s.sub.get(b, b) if type(b) is not int else b for b in v.args], v.w)
            return v
        if v.op == 'lin':
            c, ts = v.args
            hit = False
            r = c
            for a, k in ts:
                x = s.sub.get(a)
                if x is not None:
                    hit = True
                    r = ladd(r, lmul(s.norm(x), k))
                else:
                    r = ladd(r, lmul(a, k))
            return r if hit else v
        x = s.sub.get(v)
        return s.norm(x) if x is not None else v

    @staticmethod
    def canon(d):
        """dict -> (key tuple, sign)"""
        it = sorted(((a, k) for a, k in d.items() if k), key=lambda x: _key(x[0]))
        if not it:
            return None, 1
        sg = 1 if it[0][1] > 0 else -1
        return tuple((a, k * sg) for a, k in it), sg

    def _base(s, d):
        """interval of a linear combination from atom ranges and direct key"""
        lo = hi = 0
        for a, k in d.items():
            r = s.rng.get(((a, 1),))
            alo, ahi = a.lo, a.hi
            if r:
                alo, ahi = max(alo, r[0]), min(ahi, r[1])
            if k > 0:
                lo += k * alo
                hi += k * ahi
            else:
                lo += k * ahi
                hi += k * alo
        key, sg = s.canon(d)
        r = s.rng.get(key)
        if r:
            if sg > 0:
                lo, hi = max(lo, r[0]), min(hi, r[1])
            else:
                lo, hi = max(lo, -r[1]), min(hi, -r[0])
        return lo, hi

    def range(s, v, depth=2):
        v = s.norm(v)
        if type(v) is int:
            return v, v
        c, d = lin(v)
        lo, hi = s._range(d, depth)
        return lo + c, hi + c

    def _range(s, d, depth):
        lo, hi = s._base(d)
        if depth > 0 and len(d) >= 1:
            for key, (klo, khi) in list(s.rng.items()):
                if len(key) < 2:
                    continue
                if not any(a in d for a, _ in key):
                    continue
                for sg in (1, -1):
                    # d = sg*key + rest
                    rest = dict(d)
                    ok = False
                    for a, k in key:
                        n = rest.get(a, 0) - sg * k
                        if a in rest and abs(n) < abs(rest[a]):
                            ok = True
                        if n:
                            rest[a] = n
                        else:
                            rest.pop(a, None)
                    if not ok or len(rest) > len(d) + 1:
                        continue
                    if rest:
                        rlo, rhi = s._range(rest, depth - 1)
                    else:
                        rlo = rhi = 0
                    a1, a2 = (klo, khi) if sg > 0 else (-khi, -klo)
                    lo = max(lo, a1 + rlo)
                    hi = min(hi, a2 + rhi)
        return lo, hi

    def eq0(s, v):
        """is v == 0 ?  True/False/None"""
        v = s.norm(v)
        if type(v) is int:
            return v == 0
        if v.tag == 'nonnull':
            return False
        lo, hi = s.range(v)
        if lo > 0 or hi < 0:
            return False
        if lo == hi == 0:
            return True
        c, d = lin(v)
        key, sg = s.canon(d)
        n = s.ne.get(key)
        if n and (-c * sg) in n:
            return False
        return None

    def assume_range(s, v, lo, hi):
        """v in [lo,hi]; returns False if contradictory"""
        v = s.norm(v)
        if type(v) is int:
            return lo <= v <= hi
        c, d = lin(v)
        key, sg = s.canon(d)
        lo, hi = lo - c, hi - c
        if sg < 0:
            lo, hi = -hi, -lo
        # gcd tightening for single atoms with coef
        if len(key) == 1 and key[0][1] != 1:
            k = key[0][1]
            lo = -((-lo) // k)
            hi = hi // k
            key = ((key[0][0], 1),)
        clo, chi = s._range(dict(key), 2)
        lo, hi = max(lo, clo), min(hi, chi)
        ne = s.ne.get(key)
        while ne and lo in ne and lo <= hi:
            lo += 1
        while ne and hi in ne and lo <= hi:
            hi -= 1
        if lo > hi:
            return False
        s.rng[key] = (lo, hi)
        if lo == hi:
            if len(key) == 1:
                s.sub[key[0][0]] = lo
            else:
                # solve for an atom with coef +-1 (prefer the last, i.e. newest)
                for a, k in reversed(key):
                    if k in (1, -1):
                        rest = {x: y for x, y in key if x is not a}
                        e = mklin(lo, {x: -y for x, y in rest.items()})
                        if k == -1:
                            e = lmul(e, -1)
                        s.sub[a] = e
                        # carry the old facts on a
                        r = s.rng.get(((a, 1),))
                        rl, rh = max(a.lo, r[0]) if r else a.lo, min(a.hi, r[1]) if r else a.hi
                        if isinstance(e, Term):
                            if not s.assume_range(e, rl, rh):
                                return False
                        nn = s.ne.get(((a, 1),))
                        if nn:
                            for q in nn:
                                if not s.assume_ne(ladd(e, -q)):
                                    return False
                        break
        return True

    def assume_ne(s, v):
        r = s.eq0(v)
        if r is True:
            return False
        if r is False:
            return True
        v = s.norm(v)
        c, d = lin(v)
        key, sg = s.canon(d)
        q = -c * sg
        if len(key) == 1 and key[0][1] != 1:
            return True
        s.ne[key] = s.ne.get(key, frozenset()) | {q}
        lo, hi = s._range(dict(key), 1)
        if lo == q:
            return s.assume_range(mklin(0, dict(key)), lo + 1, hi)
        if hi == q:
            return s.assume_range(mklin(0, dict(key)), lo, hi - 1)
        return True


# ------------------------------------------------------------------ heap
class Obj:
    __slots__ = ('id', 'kind', 'name', 'size', 'stype', 'cells', 'default', 'base', 'freed', 'where', 'x', 'const')

    def __init__(s, id, kind, name, size=None, default='undef'):
        s.id, s.kind, s.name, s.size, s.default = id, kind, name, size, default
        s.stype = None
        s.cells = {}
        s.base = None
        s.freed = None
        s.where = None
        s.x = None
        s.const = False

    def copy(s):
        o = Obj.__new__(Obj)
        o.id, o.kind, o.name, o.size, o.stype = s.id, s.kind, s.name, s.size, s.stype
        o.cells = dict(s.cells)
        o.default, o.base, o.freed, o.where, o.const = s.default, s.base, s.freed, s.where, s.const
        o.x = dict(s.x) if s.x is not None else None
        return o

    def __repr__(s):
        return '<%s %s %s>' % (s.id, s.kind, s.name)


class Seg:
    """variable-length byte sequence cell: the bytes of `term` (a string/bytes atom)"""
    __slots__ = ('t',)

    def __init__(s, t):
        s.t = t

    def __eq__(s, o):
        return isinstance(o, Seg) and s.t is o.t

    def __hash__(s):
        return hash(('seg', s.t))

    def __repr__(s):
        return '«%r»' % (s.t,)


class Frame:
    __slots__ = ('f', 'blk', 'prev', 'i', 'regs', 'dst', 'loops', 'allocas', 'callline', 'x', 'sd')

    def __init__(s, f):
        s.sd = 0
        s.f = f
        s.blk = f.order[0]
        s.prev = None
        s.i = 0
        s.regs = {}
        s.dst = None
        s.loops = {}
        s.allocas = ()
        s.callline = 0
        s.x = None

    def copy(s):
        n = Frame.__new__(Frame)
        n.f, n.blk, n.prev, n.i, n.dst, n.callline, n.x = s.f, s.blk, s.prev, s.i, s.dst, s.callline, s.x
        n.regs = dict(s.regs)
        n.loops = dict(s.loops)
        n.allocas = s.allocas
        n.sd = s.sd
        return n


class State:
    __slots__ = ('frames', 'mem', 'facts', 'evs', 'g', 'pmap', 'symdec', 'constexit', 'ret', 'dec', 'status', 'split', 'eng')

    def __init__(s, eng):
        s.eng = eng
        s.frames = []
        s.mem = {}
        s.facts = Facts()
        s.evs = None
        s.g = {}
        s.pmap = {}
        s.symdec = 0
        s.ret = None
        s.dec = None
        s.status = 'run'
        s.split = {}

    def copy(s):
        n = State.__new__(State)
        n.eng = s.eng
        n.frames = [f.copy() for f in s.frames]
        n.mem = dict(s.mem)
        n.facts = s.facts.copy()
        n.evs = s.evs
        n.g = dict(s.g)
        n.pmap = dict(s.pmap)
        n.symdec = s.symdec
        n.ret = s.ret
        n.dec = s.dec
        n.status = s.status
        n.split = dict(s.split)
        return n

    # events -----------------------------------------------------------
    def ev(s, kind, **d):
        h = s.eng.ev_hooks.get(kind)
        if h is not None:
            h(s, d)
        s.evs = (s.evs, kind, d, s.where())

    def events(s, *kinds):
        out = []
        e = s.evs
        while e:
            if not kinds or e[1] in kinds:
                out.append(Ev(e[1], e[2], e[3]))
            e = e[0]
        out.reverse()
        return out

    def where(s):
        if not s.frames:
            return '?'
        f = s.frames[-1]
        try:
            ln = f.f.blocks[f.blk][f.i].line
        except IndexError:
            ln = 0
        return '%s:%d(%s)' % (f.f.mod.name, ln, f.f.name)

    def stack(s):
        return ' <- '.join('%s' % f.f.name for f in reversed(s.frames))

    # memory -----------------------------------------------------------
    def obj(s, oid):
        return s.mem[oid]

    def wobj(s, oid):
        o = s.mem[oid].copy()
        s.mem[oid] = o
        return o

    def new_obj(s, kind, name, size=None, default='undef'):
        n = s.g.get('#obj', 0) + 1
        s.g['#obj'] = n
        o = Obj('%s#%d' % (name, n), kind, name, size, default)
        o.where = s.where()
        s.mem[o.id] = o
        return o

    def fresh(s, name, w=64, lo=None, hi=None, tag=None):
        k = '#f:' + name
        n = s.g.get(k, 0)
        s.g[k] = n + 1
        return Sym(name if n == 0 else '%s~%d' % (name, n), w, lo, hi, tag)

    def norm(s, v):
        return s.facts.norm(v) if isinstance(v, Term) else v

    def isnull(s, v):
        """True / False / None"""
        v = s.norm(v)
        if type(v) is int:
            return v == 0
        if isinstance(v, (Ptr, Fn)):
            return False
        if v is UNDEF:
            return None
        if v.tag == 'nonnull':
            return False
        return s.facts.eq0(v)

    def base_of(s, v, why='deref'):
        """pointer value -> (Obj, off) or None; reports null/undef derefs"""
        v = s.norm(v)
        if isinstance(v, Ptr):
            o = s.mem.get(v.obj)
            if o is None:
                return None
            return o, v.off
        if type(v) is int:
            s.ev('null-deref' if v < 4096 else 'wild-deref', val=v, why=why)
            s.status = 'dead'
            return None
        if v is UNDEF:
            s.ev('undef-deref', why=why)
            s.status = 'dead'
            return None
        if isinstance(v, Fn):
            return None
        if isinstance(v, Term):
            oid = s.pmap.get(v)
            if oid is None:
                if v.op == 'lin':
                    return s._linptr(v)
                o = Obj('*' + repr(v), 'lazy', repr(v), None, 'lazy')
                o.base = v
                s.mem[o.id] = o
                s.pmap[v] = o.id
                oid = o.id
            return s.mem[oid], 0
        return None

    def _linptr(s, v):
        # pointer arithmetic left in linear form: choose the pointer atom
        c, ts = v.args
        for a, k in ts:
            if k == 1 and (a in s.pmap or a.tag in ('nullable', 'nonnull', 'ptr')):
                o, off = s.base_of(a)
                return o, lsub(v, a)
        return None

    def check_access(s, v, o, why):
        """null / freed checks when dereferencing through v"""
        if o.base is not None and o.kind == 'lazy':
            n = s.facts.eq0(o.base) if o.base.tag != 'nonnull' else False
            if n is True:
                s.ev('null-deref', val=o.base, why=why)
                s.status = 'dead'
                return False
            if n is None:
                if o.base.tag == 'nullable':
                    s.ev('maybe-null-deref', val=o.base, why=why)
                s.facts.assume_ne(o.base)
        if o.freed:
            s.ev('use-after-free', obj=o.id, freed=o.freed, why=why, alloc=o.where)
            s.status = 'dead'
            return False
        return True

    def in_bounds(s, o, off, size, why):
        if o.size is None:
            return
        end = ladd(off, size)
        f = s.facts
        lo, _ = f.range(off)
        d = lsub(o.size, end) if not (is_int(end) and is_int(o.size)) else o.size - end
        dlo, dhi = f.range(d)
        if lo < 0:
            lo = f.range(off, 3)[0]
        if dlo < 0 <= dhi:
            dlo = f.range(d, 3)[0]
        if lo < 0 or dlo < 0:
            sure = (dhi < 0) or (f.range(off)[1] < 0)
            s.ev('oob', obj=o.id, off=off, size=size, osize=o.size, sure=sure, why=why, lo=lo, slack=(dlo, dhi))

    def load(s, v, ty):
        b = s.base_of(v, 'load')
        if b is None:
            if s.status == 'dead':
                return UNDEF
            return s.fresh('unk', _w(ty))
        o, off = b
        if not s.check_access(v, o, 'load'):
            return UNDEF
        off = s.norm(off)
        sz = size_of(ty)
        if s.eng.bounds:
            s.in_bounds(o, off, sz, 'read')
        return s.eng.load_cell(s, o, off, sz, ty)

    def store(s, v, val, sz):
        b = s.base_of(v, 'store')
        if b is None:
            return
        o, off = b
        if not s.check_access(v, o, 'store'):
            return
        off = s.norm(off)
        if s.eng.bounds:
            s.in_bounds(o, off, sz, 'write')
        s.put(o.id, off, sz, val)
        for m in s.eng.store_hooks:
            m(s, o, off, sz, val)

    def put(s, oid, off, sz, val):
        o = s.wobj(oid)
        s.eng.clear_range(s, o, off, sz, val if type(val) is int and sz == 1 else None)
        o.cells[off] = (sz, val)

    # convenience for rules ------------------------------------------
    def field(s, ptr, struct, path, ty=None):
        """read struct field(s) by name, following pointers: 'sm_state->sm_sent_nr' style via list"""
        off = s.eng.prog.off(struct, path)
        return s.peek(ptr, off, ty)

    def peek(s, ptr, off, size=8):
        """value currently stored (or None) without side effects"""
        b = s.norm(ptr)
        if isinstance(b, Ptr):
            o, o0 = s.mem[b.obj], b.off
        elif isinstance(b, Term) and b in s.pmap:
            o, o0 = s.mem[s.pmap[b]], 0
        else:
            return None
        c = o.cells.get(ladd(o0, off))
        return s.norm(c[1]) if c else None


class Ev:
    __slots__ = ('kind', 'd', 'where')

    def __init__(s, k, d, w):
        s.kind, s.d, s.where = k, d, w

    def __getattr__(s, n):
        try:
            return s.d[n]
        except KeyError:
            raise AttributeError(n)

    def __repr__(s):
        return '%s%s@%s' % (s.kind, {k: v for k, v in s.d.items()}, s.where)


def _w(ty):
    return ty.w if ty.k == 'int' else 64


class PathLimit(AnalysisBroken):
    pass


PUSHED = object()  # returned by a model that pushed a frame of its own


class Engine:
    def __init__(s, prog, models=None, max_paths=40000, max_steps=4000000, loopk=1, bounds=False, inline_depth=40):
        s.prog = prog
        s.models = dict(models or {})
        s.max_paths, s.max_steps, s.loopk = max_paths, max_steps, loopk
        s.bounds = bounds
        s.inline_depth = inline_depth
        s.recursion = 2         # activations of one function that are followed into
        s.gobj = {}
        s.store_hooks = []
        s.counted = True        # loops whose exit test is decided are unrolled
        s.gc = False            # forget every fact about values that are no longer reachable when a loop is abstracted
        s.hints = True          # a value that grew in the first round is taken to grow in every round
        s.back_hooks = []       # called at the end of every round of a loop
        s.load_hooks = []
        s.cutloops = False
        s.statics = True        # variables with static storage may have been changed by earlier calls
        s.peeked = 0            # single bytes read out of unknown text
        s.widened = set()       # loop heads where the iteration was abstracted
        s.steps = 0
        s.analysed = set()
        s.nullable_fields = set()
        s.field_init = {}
        s.no_inline = set()
        s.call_hook = None
        s.ext_calls = set()
        s.ncalls = 0
        s.bits = False
        s.indirect = None
        s.eager_sym = None
        s.live, s.live_cache, s.seen, s.nmerged, s.dedupe = {}, {}, set(), 0, True
        s.loopy = {}
        s.stale_cache = {}
        s.ev_hooks = {}

    # ---------------------------------------------------- entry
    def start(s, f, args, setup=None, st=None):
        if isinstance(f, str):
            f = s.prog.func(f)
        if st is None:
            st = State(s)
        st.status = 'run'
        fr = Frame(f)
        st.frames = [fr]
        if setup:
            setup(st)
        for (n, t), a in zip(f.params, args):
            fr.regs[n] = a(st) if callable(a) else a
        if len(args) < len(f.params):
            raise AnalysisBroken('%s: expected %d params, have %d args' % (f.name, len(f.params), len(args)))
        return s.run(st)

    def run(s, st):
        work = [st]
        done = []
        s.analysed.add(st.frames[0].f)
        steps0 = s.steps
        while work:
            st = work.pop()
            r = s.step_until_fork(st)
            for x in r:
                if x.status == 'run':
                    work.append(x)
                else:
                    done.append(x)
                    if len(done) > s.max_paths:
                        raise PathLimit('path limit %d exceeded in %s' % (s.max_paths, st.frames[0].f.name if st.frames else '?'))
            if s.steps - steps0 > s.max_steps:
                raise PathLimit('step limit exceeded (%d paths done, %d pending)' % (len(done), len(work)))
        return done

    # ---------------------------------------------------- operands
    def val(s, st, fr, v):
        k = v[0]
        if k == 'l':
            try:
                return fr.regs[v[1]]
            except KeyError:
                return UNDEF
        if k == 'c':
            return v[1]
        if k == 'g':
            return s.gval(st, fr.f.mod, v[1])
        if k == 'gep':
            b = s.val(st, fr, v[2])
            return s.gep(st, b, v[1], [(I64, i) for i in v[3]], fr)
        if k == 'cast':
            return s.val(st, fr, v[2])
        if k == 'zero':
            return 0
        return UNDEF

    def gval(s, st, mod, name):
        f = s.prog.lookup(mod, name)
        if f is not None:
            return Fn(name, f)
        g = s.prog.glob(mod, name)
        if g is None:
            return Fn(name, None)
        key = (g.mod.name + ':' + name) if (g.init is not None and name not in s.prog.gext or name.startswith('.str')) else name
        oid = '@' + key
        if oid not in st.mem:
            o = Obj(oid, 'global', key, size_of(g.ty) if g.init is not None else None, 'lazy')
            o.const = g.const
            if g.init is not None and (g.const or not s.statics or (g.mod.name, name) not in s.prog.written_globals()):
                o.default = 'zero'
                s.init_cells(st, o, g.ty, g.init, 0, g.mod)
            if g.ty.k == 'struct':
                o.stype = _sn(g.ty)
            st.mem[oid] = o
        return Ptr(oid, 0)

    def init_cells(s, st, o, ty, v, off, mod):
        k = v[0]
        if k == 'zero' or k == 'undef':
            return
        if k == 'bytes':
            for i, b in enumerate(v[1]):
                o.cells[off + i] = (1, b)
            return
        if k == 'agg':
            if ty.k == 'array':
                es = size_of(ty.el)
                for i, (et, ev) in enumerate(v[1]):
                    s.init_cells(st, o, et, ev, off + i * es, mod)
            else:
                # use the literal's own struct type layout
                t = ty
                offs = offsets(t)
                for i, (et, ev) in enumerate(v[1]):
                    s.init_cells(st, o, et, ev, off + offs[i], mod)
            return
        val = None
        if k == 'c':
            val = v[1]
        elif k == 'g':
            val = s.gval(st, mod, v[1])
        elif k == 'gep':
            class _F:
                pass
            fr = _F()
            fr.f = _F()
            fr.f.mod = mod
            fr.regs = {}
            val = s.val(st, fr, v)
        elif k == 'cast':
            return s.init_cells(st, o, ty, v[2], off, mod)
        else:
            val = UNDEF
        o.cells[off] = (size_of(ty), val)

    def gep(s, st, b, ty, idx, fr):
        off = 0
        t = ty
        first = True
        for it, iv in idx:
            i = s.val(st, fr, iv) if isinstance(iv, tuple) else iv
            i = st.norm(i)
            if type(i) is int:
                w = it.w if it.k == 'int' else 64
                i = sgn(i & ((1 << w) - 1), w)
            if first:
                off = ladd(off, s.imul(i, size_of(t)))
                first = False
            elif t.k == 'array':
                t = t.el
                off = ladd(off, s.imul(i, size_of(t)))
            elif t.k == 'struct':
                offs = offsets(t)
                off = ladd(off, offs[i])
                t = t.els[i]
        b = st.norm(b)
        if ty.k == 'struct' and ty.name and len(idx) > 1:
            s.note_type(st, b, _sn(ty))
        return s.padd(st, b, off)

    def imul(s, i, n):
        if i is UNDEF:
            return UNDEF
        if isinstance(i, (Ptr, Fn)):
            return UNDEF
        return lmul(i, n)

    def note_type(s, st, b, name):
        if isinstance(b, Ptr):
            o = st.mem.get(b.obj)
            if o is not None and b.off == 0 and (o.stype is None):
                o.stype = name
        elif isinstance(b, Term) and b.op != 'lin':
            r = st.base_of(b)
            if r and r[0].stype is None and r[1] == 0:
                r[0].stype = name

    def padd(s, st, b, off):
        if off is UNDEF or b is UNDEF:
            return UNDEF
        if off == 0 and type(off) is int:
            return b
        if isinstance(b, Ptr):
            return Ptr(b.obj, ladd(b.off, off))
        if type(b) is int:
            return ladd(b, off) if b >= 4096 or b == 0 else ladd(b, off)
        if isinstance(b, Fn):
            return b
        if isinstance(b, Term):
            r = st.base_of(b)
            if r is None:
                return ladd(b, off)
            o, o0 = r
            return Ptr(o.id, ladd(o0, off))
        return UNDEF

    # ---------------------------------------------------- cells
    def load_cell(s, st, o, off, sz, ty):
        o = st.mem[o.id]
        c = o.cells.get(off)
        if c is not None:
            csz, v = c
            if isinstance(v, Seg):
                s.peeked += 1
                return s.seg_byte(st, o, off, v, sz)
            if csz == sz or (type(csz) is int and type(v) is int and v == 0):
                return st.norm(v)
            if type(csz) is int and csz > sz:
                if type(v) is int:
                    return v & ((1 << (8 * sz)) - 1)
                if isinstance(v, Term):
                    return s.trunc(st, v, 8 * csz, 8 * sz)
                return UNDEF
        if type(off) is int:
            # compose from bytes / extract from larger
            r = s.compose(st, o, off, sz)
            if r is not None:
                return r
        # inside a segment?
        r = s.in_seg(st, o, off, sz)
        if r is not None:
            return r
        for h in s.load_hooks:
            r = h(st, o, off, sz, ty)
            if r is not None:
                return r
        if type(off) is not int:
            if o.const or o.kind == 'global':
                return App('ld', o.id, off, w=_w(ty), tag='nonnull' if ty.k == 'ptr' else None)
            if o.default == 'zero' and not o.cells:
                return 0
            if o.default == 'lazy' or o.cells or o.default == 'smear':
                r = App('ldm', o.id, off, st.fresh('mv'), w=_w(ty))
                o2 = st.wobj(o.id)
                o2.cells[off] = (sz, r)
                return r
        if o.default == 'zero':
            return 0
        if o.default == 'undef':
            st.ev('undef-load', obj=o.id, off=off, size=sz)
            return UNDEF
        # lazy input
        return s.lazy(st, o, off, sz, ty)

    def lazy_default(s, st, o, off, sz, ty):
        # the value an untouched input cell had
        if o.id not in st.mem:
            return None
        keep = st.mem[o.id]
        try:
            return s.lazy(st, o, off, sz, ty)
        finally:
            st.mem[o.id] = keep

    def lazy(s, st, o, off, sz, ty):
        fn = None
        if o.stype and type(off) is int:
            fn = s.prog.fieldname(o.stype, off)
        nm = '%s.%s' % (o.name, fn) if fn else '%s[%r:%d]' % (o.name, off, sz)
        tag = None
        if ty.k == 'ptr':
            tag = 'ptr'
            if fn and ((o.stype, fn) in s.nullable_fields):
                tag = 'nullable'
        init = s.field_init.get((o.stype, fn))
        if init is not None:
            v = init(st, o, nm) if callable(init) else init
        else:
            v = None
            if s.eager_sym:
                v = s.eager_sym(st, o, off, sz, ty, nm)
            if v is None:
                v = Sym(nm, _w(ty), tag=tag)
        o2 = st.wobj(o.id)
        o2.cells[off] = (sz, v)
        return st.norm(v)

    def compose(s, st, o, off, sz):
        parts = []
        i = 0
        while i < sz:
            c = o.cells.get(off + i)
            if c is None:
                # part of a larger cell?
                found = None
                if i == 0 or parts:
                    for b in range(1, 16):
                        c2 = o.cells.get(off + i - b)
                        if c2 is not None and type(c2[0]) is int and c2[0] > b:
                            found = (b, c2)
                            break
                if found is None:
                    if o.default == 'zero':
                        if any(isinstance(v, Seg) and type(co) is int and co <= off + i and (type(cs) is not int or off + i < co + cs)
                               for co, (cs, v) in o.cells.items()):
                            return None
                        parts.append((1, 0))
                        i += 1
                        continue
                    return None
                b, (csz, v) = found
                if isinstance(v, Seg) or isinstance(v, (Ptr, Fn)) or v is UNDEF:
                    return None
                n = min(csz - b, sz - i)
                if type(v) is int:
                    parts.append((n, (v >> (8 * b)) & ((1 << (8 * n)) - 1)))
                else:
                    parts.append((n, s.bitop(st, 'extract', v, b, n)))
                i += n
                continue
            csz, v = c
            if type(csz) is not int or isinstance(v, Seg):
                return None
            if csz > sz - i:
                n = sz - i
                if type(v) is int:
                    parts.append((n, v & ((1 << (8 * n)) - 1)))
                elif isinstance(v, Term):
                    parts.append((n, s.bitop(st, 'extract', v, 0, n)))
                else:
                    return None
                i += n
                continue
            parts.append((csz, v))
            i += csz
        if any(v is UNDEF for _, v in parts):
            st.ev('undef-load', obj=o.id, off=off, size=sz)
            return UNDEF
        if all(type(v) is int for _, v in parts):
            r = 0
            sh = 0
            for n, v in parts:
                r |= v << sh
                sh += 8 * n
            return r
        if any(isinstance(v, (Ptr, Fn)) for _, v in parts):
            return None
        return s.bitop(st, 'compose', tuple(parts), sz, 0)

    def bitop(s, st, op, a, b, c):
        if op == 'extract':
            return App('byteof', a, b, c, w=8 * c)
        return App('le', a, w=8 * b)

    def seg_byte(s, st, o, off, seg, sz):
        if sz != 1:
            return App('segw', seg.t, 0, sz, w=8 * sz)
        return App('byte', seg.t, 0, w=8)

    def in_seg(s, st, o, off, sz):
        for co, (csz, v) in o.cells.items():
            if isinstance(v, Seg):
                d = lsub(off, co)
                lo, hi = st.facts.range(d)
                if lo < 0:
                    continue
                rest = lsub(csz, ladd(d, sz))
                if st.facts.range(rest)[0] >= 0:
                    s.peeked += 1
                    return App('byte', v.t, d, w=8 * sz)
        return None

    def clear_range(s, st, o, off, sz, same=None):
        """remove/adjust cells overlapping [off, off+sz)"""
        f = st.facts
        if type(off) is int and type(sz) is int:
            for co in list(o.cells):
                csz, cv = o.cells[co]
                if type(co) is int and type(csz) is int:
                    if co + csz <= off or co >= off + sz:
                        continue
                    if co == off and csz == sz:
                        continue
                    if co >= off and co + csz <= off + sz:
                        del o.cells[co]
                        continue
                    # partial overlap: split into bytes
                    del o.cells[co]
                    for i in range(csz):
                        if not (off <= co + i < off + sz):
                            if type(cv) is int:
                                o.cells[co + i] = (1, (cv >> (8 * i)) & 255)
                            elif isinstance(cv, Term):
                                o.cells[co + i] = (1, s.bitop(st, 'extract', cv, i, 1))
                            elif isinstance(cv, Seg):
                                o.cells[co + i] = (1, App('byte', cv.t, i, w=8))
                            else:
                                o.cells[co + i] = (1, UNDEF)
                elif same is not None and csz == 1 and type(cv) is int and cv & 255 == same & 255:
                    continue
                else:
                    s._clear_sym(st, o, co, csz, cv, off, sz)
            return
        for co in list(o.cells):
            csz, cv = o.cells[co]
            if same is not None and csz == 1 and type(cv) is int and cv & 255 == same & 255:
                continue        # whether they overlap or not, the byte keeps its value
            s._clear_sym(st, o, co, csz, cv, off, sz)

    def _clear_sym(s, st, o, co, csz, cv, off, sz):
        f = st.facts
        # disjoint?
        if f.range(lsub(co, ladd(off, sz)))[0] >= 0:
            return
        if f.range(lsub(off, ladd(co, csz)))[0] >= 0:
            return
        # covered?
        if f.range(lsub(co, off))[0] >= 0 and f.range(lsub(ladd(off, sz), ladd(co, csz)))[0] >= 0:
            del o.cells[co]
            return
        if isinstance(cv, Seg):
            # split the segment: [co,off) + overwritten + [off+sz, co+csz)
            pre = lsub(off, co)
            post = lsub(ladd(co, csz), ladd(off, sz))
            lo1 = f.range(pre)[0]
            lo2 = f.range(post)[0]
            if lo1 >= 0 and lo2 >= 0:
                del o.cells[co]
                if f.range(pre)[1] > 0:
                    o.cells[co] = (pre, Seg(App('sub', cv.t, 0, pre)))
                if f.range(post)[1] > 0:
                    o.cells[ladd(off, sz)] = (post, Seg(App('sub', cv.t, lsub(ladd(off, sz), co), post)))
                return
        o.cells[co] = (csz, App('smear', o.id, st.fresh('sm'), w=8 * csz if type(csz) is int else 64)) if not isinstance(cv, Seg) \
            else (csz, Seg(App('smear', o.id, st.fresh('sm'))))

    # ---------------------------------------------------- integer ops
    def trunc(s, st, v, fw, tw):
        v = st.norm(v)
        if type(v) is int:
            return v & ((1 << tw) - 1)
        if isinstance(v, Term):
            if v.op == 'bits':
                return mkbits((list(v.args) + [0] * tw)[:tw], tw)
            lo, hi = st.facts.range(v)
            if lo >= -(1 << (tw - 1)) and hi < (1 << (tw - 1)):
                return v
            if lo >= 0 and hi < (1 << tw):
                return v
            if v.op in ('zext', 'sext') and v.args[0].w == tw:
                return v.args[0]
            return App('trunc', v, w=tw)
        if isinstance(v, Ptr) or isinstance(v, Fn):
            return App('ptrint', repr(v), w=tw)
        return UNDEF

    def cast(s, st, op, v, ft, tt):
        v = st.norm(v)
        if v is UNDEF:
            return UNDEF
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'addrspacecast'):
            return v
        if op == 'trunc':
            return s.trunc(st, v, ft.w, tt.w)
        if op == 'zext':
            if type(v) is int:
                return v & ((1 << ft.w) - 1)
            if isinstance(v, Term):
                if ft.w == 1:
                    return v
                if v.op == 'bits':
                    return mkbits((list(v.args) + [0] * ft.w)[:ft.w] + [0] * (tt.w - ft.w), tt.w)
                lo, hi = st.facts.range(v)
                if lo < 0 and s.gc:
                    # an earlier comparison of the unsigned value may have shown that it is small
                    known = False
                    for a in lin(v)[1]:
                        if st.facts.range(a)[0] < 0:
                            z = App('zext', a, w=tt.w, lo=0, hi=(1 << ft.w) - 1)
                            zh = st.facts.range(z)[1]
                            if zh < 1 << (ft.w - 1):
                                st.facts.assume_range(a, 0, zh)
                                if isinstance(z, Term) and z not in st.facts.sub:
                                    zr = [(k, r) for k, r in st.facts.rng.items() if any(t == z for t, _ in k)]
                                    st.facts.sub[z] = a
                                    for k, r in zr:
                                        del st.facts.rng[k]
                                        x = 0
                                        for t, n in k:
                                            x = ladd(x, lmul(st.norm(t), n))
                                        st.facts.assume_range(x, r[0], r[1])
                                known = True
                    if known:
                        v = st.norm(v)
                        lo, hi = st.facts.range(v)
                if lo >= 0:
                    return v
                return App('zext', v, w=tt.w, lo=0, hi=(1 << ft.w) - 1)
            return v
        if op == 'sext':
            if type(v) is int:
                return sgn(v & ((1 << ft.w) - 1), ft.w) & ((1 << tt.w) - 1)
            if isinstance(v, Term):
                if ft.w == 1:
                    return App('sext', v, w=tt.w)
                if v.op == 'bits' and (len(v.args) < ft.w or v.args[ft.w - 1] == 0):
                    return mkbits((list(v.args) + [0] * ft.w)[:ft.w] + [0] * (tt.w - ft.w), tt.w)
                lo, hi = st.facts.range(v)
                if hi < (1 << (ft.w - 1)) and lo >= -(1 << (ft.w - 1)):
                    return v
                return App('sext', v, w=tt.w, lo=-(1 << (ft.w - 1)), hi=(1 << (ft.w - 1)) - 1)
            return v
        return App(op, v, w=_w(tt)) if isinstance(v, Term) else UNDEF

    def binop(s, st, op, a, b, ty):
        a, b = st.norm(a), st.norm(b)
        if a is UNDEF or b is UNDEF:
            return UNDEF
        w = ty.w
        M = (1 << w) - 1
        ia, ib = type(a) is int, type(b) is int
        if ia and ib:
            return s.constop(op, a, b, w)
        if op in ('or', 'xor') and isinstance(a, Term) != isinstance(b, Term) or op == 'or' and isinstance(a, Term) and isinstance(b, Term):
            # no common bits: a sum
            for x, y in ((a, b), (b, a)):
                if type(x) is int or isinstance(x, Term) and x.op == 'bits':
                    continue
                c, d = lin(x)
                g = c & -c if c else 0
                for k in d.values():
                    g = k & -k if not g else min(g, k & -k)
                if g > 1:
                    lo, hi = st.facts.range(x)
                    if type(y) is int:
                        ylo = yhi = y
                    elif y.op == 'bits':
                        continue
                    else:
                        ylo, yhi = st.facts.range(y)
                    if 0 <= lo and hi < 1 << (w - 1) and 0 <= ylo and yhi < g:
                        return ladd(x, y)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                return lsub(a.off, b.off)
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Term):
                r = st.base_of(b)
                if r and r[0].id == a.obj:
                    return lsub(a.off, r[1])
            if op == 'sub' and isinstance(b, Ptr) and isinstance(a, Term):
                r = st.base_of(a)
                if r and r[0].id == b.obj:
                    return lsub(r[1], b.off)
            if op == 'add' and isinstance(a, Ptr) and not isinstance(b, Ptr):
                return s.padd(st, a, b)
            return st.fresh('pop', w)
        if isinstance(a, Fn) or isinstance(b, Fn):
            return st.fresh('pop', w)
        if (not ia and a.op == 'bits') or (not ib and b.op == 'bits'):
            r = bits_binop(op, a, b, w)
            if r is not None:
                return r
        if s.bits:
            r = s.bits.binop(s, st, op, a, b, w)
            if r is not None:
                return r
        if op == 'add':
            if ib:
                b = sgn(b, w)
            if ia:
                a = sgn(a, w)
            return ladd(a, b, w)
        if op == 'sub':
            if ib:
                b = sgn(b, w)
            if ia:
                a = sgn(a, w)
            return lsub(a, b, w)
        if op == 'mul':
            if ib:
                return lmul(a, sgn(b, w), w)
            if ia:
                return lmul(b, sgn(a, w), w)
            return App('mul', a, b, w=w)
        if op == 'shl' and ib and b < w:
            return lmul(a, 1 << b, w)
        if op == 'and':
            if ia:
                a, b, ia, ib = b, a, ib, ia
            if ib and b == M:
                return a
            if ib and b == 0:
                return 0
            if a is b:
                return a
            if ib:
                lo, hi = st.facts.range(a)
                if lo >= 0 and (b & (b + 1)) == 0 and hi <= b:
                    return a
                if a.op == 'or' and type(a.args[1]) is int:
                    # (x | c) & m
                    x, c = a.args[0], a.args[1]
                    if c & b == 0:
                        return s.binop(st, 'and', x, b, ty)
                    if b & ~c == 0:
                        return b
                if a.op == 'and' and type(a.args[1]) is int:
                    return s.binop(st, 'and', a.args[0], a.args[1] & b, ty)
                if b < 1 << (w - 1):
                    return App('and', a, b, w=w, lo=0, hi=b)
                return App('and', a, b, w=w)
            if _key(a) > _key(b):
                a, b = b, a
            return App('and', a, b, w=w)
        if op == 'or':
            if ia:
                a, b, ia, ib = b, a, ib, ia
            if ib and b == 0:
                return a
            if a is b:
                return a
            if ib and a.op == 'or' and type(a.args[1]) is int:
                return App('or', a.args[0], a.args[1] | b, w=w)
            if not ib and _key(a) > _key(b):
                a, b = b, a
            return App('or', a, b, w=w)
        if op == 'xor':
            if ia:
                a, b, ia, ib = b, a, ib, ia
            if ib and b == 0:
                return a
            if a is b:
                return 0
            if w == 1 and ib and b == 1:
                return s.negate(st, a)
            if not ib and _key(a) > _key(b):
                a, b = b, a
            return App('xor', a, b, w=w)
        if op in ('lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem') and ib:
            lo, hi = st.facts.range(a)
            if op in ('ashr', 'sdiv', 'srem') and lo >= 0 and 0 <= b < 1 << (w - 1):
                op = {'ashr': 'lshr', 'sdiv': 'udiv', 'srem': 'urem'}[op]
            if op == 'lshr':
                if lo >= 0 and b < 80:
                    return App('lshr', a, b, w=w, lo=lo >> b, hi=hi >> b)
            elif op == 'udiv' and b:
                if lo >= 0:
                    # exact division of a linear form
                    c, d = lin(a)
                    if c % b == 0 and all(k % b == 0 for k in d.values()):
                        return mklin(c // b, {x: k // b for x, k in d.items()}, w)
                    return App('udiv', a, b, w=w, lo=lo // b, hi=hi // b)
            elif op == 'urem' and b:
                if lo >= 0:
                    c, d = lin(a)
                    if all(k % b == 0 for k in d.values()):
                        return c % b
                    if hi < b:
                        return a
                return App('urem', a, b, w=w, lo=0, hi=b - 1)
        return App(op, a, b, w=w)

    def constop(s, op, a, b, w):
        M = (1 << w) - 1
        if op == 'add':
            return (a + b) & M
        if op == 'sub':
            return (a - b) & M
        if op == 'mul':
            return (a * b) & M
        if op == 'and':
            return a & b & M
        if op == 'or':
            return (a | b) & M
        if op == 'xor':
            return (a ^ b) & M
        a &= M
        b &= M
        if op == 'shl':
            return (a << b) & M if b < w else 0
        if op == 'lshr':
            return a >> b
        if op == 'ashr':
            return (sgn(a, w) >> b) & M
        if op == 'udiv':
            return a // b if b else UNDEF
        if op == 'urem':
            return a % b if b else UNDEF
        if op == 'sdiv':
            if not b:
                return UNDEF
            x, y = sgn(a, w), sgn(b, w)
            q = abs(x) // abs(y)
            return (q if (x < 0) == (y < 0) else -q) & M
        if op == 'srem':
            if not b:
                return UNDEF
            x, y = sgn(a, w), sgn(b, w)
            r = abs(x) % abs(y)
            return (r if x >= 0 else -r) & M
        return UNDEF

    def negate(s, st, c):
        if type(c) is int:
            return 1 - c
        if c.op == 'not':
            return c.args[0]
        if c.op == 'cmp':
            p, a, b, w = c.args
            return mk('cmp', (NEG[p], a, b, w), 1)
        return App('not', c, w=1)

    def icmp(s, st, pred, a, b, ty):
        """-> 0/1 or cmp term"""
        a, b = st.norm(a), st.norm(b)
        w = ty.w if ty.k == 'int' else 64
        if a is UNDEF or b is UNDEF:
            st.ev('undef-cmp')
            return st.fresh('ucmp', 1)
        pa, pb = isinstance(a, (Ptr, Fn)), isinstance(b, (Ptr, Fn))
        if pa or pb:
            r = s.pcmp(st, pred, a, b)
            if r is not None:
                return r
            if isinstance(a, Ptr):
                a = App('addr', a.obj, a.off)
            if isinstance(b, Ptr):
                b = App('addr', b.obj, b.off)
            if isinstance(a, Fn):
                a = App('addr', a.name, 0)
            if isinstance(b, Fn):
                b = App('addr', b.name, 0)
        if pred in ('sgt', 'sge', 'ugt', 'uge'):
            pred = {'sgt': 'slt', 'sge': 'sle', 'ugt': 'ult', 'uge': 'ule'}[pred]
            a, b = b, a
        if type(a) is int and type(b) is int:
            M = (1 << w) - 1
            if pred == 'eq':
                return int((a & M) == (b & M))
            if pred == 'ne':
                return int((a & M) != (b & M))
            if pred[0] == 's':
                a, b = sgn(a & M, w), sgn(b & M, w)
            else:
                a, b = a & M, b & M
            return int(a < b if pred[1:] == 'lt' else a <= b)
        if pred in ('eq', 'ne'):
            r = s.simp_eq(st, a, b, w)
            if r is not None:
                if pred == 'ne':
                    r = s.negate(st, r)
                d = s.decide(st, r) if isinstance(r, Term) else r
                return d if d is not None else r
        if pred[0] == 'u':
            # canonical representation of constants: as mathematical nonneg ints
            if type(a) is int:
                a &= (1 << w) - 1
            if type(b) is int:
                b &= (1 << w) - 1
        else:
            # signed / equality: constants as signed numbers, unless the other side is known large
            if type(a) is int:
                a = s._cs(st, a, b, w)
            if type(b) is int:
                b = s._cs(st, b, a, w)
        t = mk('cmp', (pred, a, b, w), 1)
        d = s.decide(st, t)
        return d if d is not None else t

    def _cs(s, st, c, other, w):
        if c >= 1 << (w - 1):
            lo, hi = st.facts.range(other)
            if lo >= 0:
                return c
            return c - (1 << w)
        return c

    def simp_eq(s, st, a, b, w):
        """rewrite equality tests on derived terms"""
        if type(a) is int:
            a, b = b, a
        if type(b) is int and isinstance(a, Term):
            M = (1 << w) - 1
            bb = b & M
            if a.op == 'bits':
                allk = True
                for i, x in enumerate(a.args):
                    if type(x) is int:
                        if x != (bb >> i) & 1:
                            return 0
                    else:
                        allk = False
                if allk:
                    return 1
                un = [(i, x) for i, x in enumerate(a.args) if type(x) is not int]
                if len(un) == 1:
                    i, x = un[0]
                    return x if (bb >> i) & 1 else s.negate(st, x)
                return None
            if a.op == 'cmp' or a.op == 'not' or a.w == 1:
                if a.op in ('cmp', 'not') or (a.op == 'sym' and a.w == 1):
                    if bb == 0:
                        return s.negate(st, a)
                    if bb == 1:
                        return a
                    return 0
            if a.op in ('zext', 'sext'):
                iw = a.args[0].w
                if iw == 1:
                    if a.op == 'sext' and bb == M:
                        bb = 1
                    return s.icmp(st, 'eq', a.args[0], bb, I1)
                it = _ints.get(iw) or T('int', iw)
                if a.op == 'zext':
                    if bb >> iw:
                        return 0
                    return s.icmp(st, 'eq', a.args[0], bb, it)
                x = sgn(bb, w)
                if not (-(1 << (iw - 1)) <= x < (1 << (iw - 1))):
                    return 0
                return s.icmp(st, 'eq', a.args[0], x & ((1 << iw) - 1), it)
        return None

    def pcmp(s, st, pred, a, b):
        def canon(x):
            if isinstance(x, Ptr):
                o = st.mem.get(x.obj)
                return (x.obj, x.off)
            if isinstance(x, Term) and x in st.pmap:
                return (st.pmap[x], 0)
            return None
        if isinstance(a, Fn) and isinstance(b, Fn):
            e = a == b
            return {'eq': int(e), 'ne': int(not e)}.get(pred)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (Fn, Ptr)) and type(y) is int:
                if y == 0:
                    e = False
                    return {'eq': 0, 'ne': 1, 'ult': None, 'ugt': 1 if x is a else 0}.get(pred)
        ca, cb = canon(a), canon(b)
        if ca and cb:
            if ca[0] == cb[0]:
                if ca[1] == cb[1] and pred in ('eq', 'ne'):
                    return int(pred == 'eq')
                return s.icmp(st, pred if pred in ('eq', 'ne') or pred[0] == 's' else 's' + pred[1:], ca[1], cb[1], I64)
            if pred in ('eq', 'ne'):
                oa, ob = st.mem[ca[0]], st.mem[cb[0]]
                # distinct concrete objects never alias; lazy inputs are assumed distinct from fresh objects
                if oa.kind != 'lazy' or ob.kind != 'lazy':
                    return int(pred == 'ne')
        for x, y, cx in ((a, b, ca), (b, a, cb)):
            if isinstance(x, Ptr) and isinstance(y, Term) and pred in ('eq', 'ne'):
                o = st.mem.get(x.obj)
                if o is not None and o.kind in ('heap', 'alloca', 'stanza'):
                    # fresh object compared with an input pointer
                    if not s.may_point(st, y, x.obj):
                        return int(pred == 'ne')
        return None

    def may_point(s, st, term, oid):
        return False

    def decide(s, st, t):
        """truth of a boolean term under facts: 1/0/None"""
        if type(t) is int:
            return t
        if t.op == 'not':
            d = s.decide(st, t.args[0])
            return None if d is None else 1 - d
        f = st.facts
        if t.op == 'cmp':
            p, a, b, w = t.args
            a, b = f.norm(a), f.norm(b)
            if p in ('eq', 'ne'):
                if a is b and not type(a) is int:
                    return int(p == 'eq')
                r = f.eq0(lsub(a, b))
                if r is not None:
                    return int(r == (p == 'eq'))
            else:
                if p[0] == 'u':
                    alo, ahi = f.range(a)
                    blo, bhi = f.range(b)
                    if alo < 0 or blo < 0:
                        if blo >= 0 and ahi < 0:
                            return 0
                        if alo >= 0 and bhi < 0:
                            return 1
                        x = f.b.get(t)
                        return None if x is None else int(x)
                lo, hi = f.range(lsub(a, b))
                if p[1:] == 'lt':
                    if hi < 0:
                        return 1
                    if lo >= 0:
                        return 0
                else:
                    if hi <= 0:
                        return 1
                    if lo > 0:
                        return 0
            x = f.b.get(t)
            if x is None:
                n = mk('cmp', (NEG[p], a, b, w), 1)
                x = f.b.get(n)
                if x is not None:
                    return int(not x)
            return None if x is None else int(x)
        x = f.norm(t)
        if type(x) is int:
            return int(x != 0)
        x = f.b.get(t)
        return None if x is None else int(x)

    def assume(s, st, t, truth):
        """add fact t==truth; returns False when contradictory"""
        if type(t) is int:
            return bool(t) == truth
        if t.op == 'not':
            return s.assume(st, t.args[0], not truth)
        d = s.decide(st, t)
        if d is not None:
            return bool(d) == truth
        f = st.facts
        if t.op == 'cmp':
            p, a, b, w = t.args
            if not truth:
                p = NEG[p]
            a, b = f.norm(a), f.norm(b)
            if p in ('sgt', 'sge', 'ugt', 'uge'):
                p = {'sgt': 'slt', 'sge': 'sle', 'ugt': 'ult', 'uge': 'ule'}[p]
                a, b = b, a
            ok = True
            if p == 'eq':
                ok = f.assume_range(lsub(a, b), 0, 0)
                for h in s.eq_hooks:
                    ok = ok and h(st, a, b, True)
            elif p == 'ne':
                ok = f.assume_ne(lsub(a, b))
                for h in s.eq_hooks:
                    ok = ok and h(st, a, b, False)
            else:
                if p[0] == 'u':
                    alo, ahi = f.range(a)
                    blo, bhi = f.range(b)
                    if blo >= 0 and alo < 0:
                        # a <u b with b known nonneg => a nonneg
                        if (bhi < (1 << (w - 1))) or w == 64:
                            ok = f.assume_range(a, 0, INF)
                            alo = 0
                    if alo < 0 or blo < 0:
                        f.b[t] = truth
                        return ok
                if p[1:] == 'lt':
                    ok = ok and f.assume_range(lsub(a, b), -INF, -1)
                else:
                    ok = ok and f.assume_range(lsub(a, b), -INF, 0)
            return ok
        f.b[t] = truth
        if t.w == 1 and t.op == 'sym':
            f.sub[t] = int(truth)
        return True

    eq_hooks = []

    # ---------------------------------------------------- stepping
    def step_until_fork(s, st):
        while st.status == 'run':
            fr = st.frames[-1]
            blk = fr.f.blocks[fr.blk]
            ins = blk[fr.i]
            s.steps += 1
            op = ins.op
            if op == 'load':
                fr.regs[ins.dst] = st.load(s.val(st, fr, ins.a[0]), ins.ty)
                fr.i += 1
            elif op == 'store':
                st.store(s.val(st, fr, ins.a[1]), s.val(st, fr, ins.a[0]), size_of(ins.ty))
                fr.i += 1
            elif op == 'gep':
                b, idx = ins.a
                fr.regs[ins.dst] = s.gep(st, s.val(st, fr, b), ins.ty, idx, fr)
                fr.i += 1
            elif op == 'bin':
                if ins.ty.k != 'int':
                    fr.regs[ins.dst] = st.fresh('flt')
                else:
                    fr.regs[ins.dst] = s.binop(st, ins.x, s.val(st, fr, ins.a[0]), s.val(st, fr, ins.a[1]), ins.ty)
                fr.i += 1
            elif op == 'cast':
                fr.regs[ins.dst] = s.cast(st, ins.x, s.val(st, fr, ins.a[0]), ins.a[1], ins.ty)
                fr.i += 1
            elif op == 'icmp':
                fr.regs[ins.dst] = s.icmp(st, ins.x, s.val(st, fr, ins.a[0]), s.val(st, fr, ins.a[1]), ins.ty)
                fr.i += 1
            elif op == 'jmp':
                if not s.goto(st, fr, ins.x):
                    return [st]
            elif op == 'br':
                c = s.val(st, fr, ins.a[0])
                r = s.branch(st, fr, c, ins.x[0], ins.x[1])
                if r is not None:
                    return r
            elif op == 'switch':
                return s.switch(st, fr, ins)
            elif op == 'phi':
                # handled at goto; entry phis cannot occur
                fr.i += 1
            elif op == 'call':
                r = s.call(st, fr, ins)
                if r is not None:
                    return r
            elif op == 'ret':
                rv = s.val(st, fr, ins.a[0]) if ins.a else None
                if not s.ret(st, fr, rv):
                    return [st]
            elif op == 'select':
                c = st.norm(s.val(st, fr, ins.a[0]))
                d = s.decide(st, c) if isinstance(c, Term) else (c if c is not UNDEF else None)
                if d is None:
                    if c is UNDEF:
                        st.ev('undef-cmp')
                        c = st.fresh('ucmp', 1)
                    r = s.split_bits(st, c)
                    if r is not None:
                        return r
                    o = st.copy()
                    out = []
                    if s.assume(st, c, True):
                        fr.regs[ins.dst] = s.val(st, fr, ins.a[1])
                        fr.i += 1
                        st.symdec += 1
                        out.append(st)
                    if s.assume(o, c, False):
                        f2 = o.frames[-1]
                        f2.regs[ins.dst] = s.val(o, f2, ins.a[2])
                        f2.i += 1
                        o.symdec += 1
                        out.append(o)
                    return out
                fr.regs[ins.dst] = s.val(st, fr, ins.a[1] if d else ins.a[2])
                fr.i += 1
            elif op == 'alloca':
                n = s.val(st, fr, ins.a[0])
                sz = size_of(ins.ty)
                if type(n) is int:
                    sz *= n
                o = st.new_obj('alloca', '%s.%s' % (fr.f.name, ins.dst), sz)
                if ins.ty.k == 'struct':
                    o.stype = _sn(ins.ty)
                fr.allocas = fr.allocas + (o.id,)
                fr.regs[ins.dst] = Ptr(o.id, 0)
                fr.i += 1
            elif op == 'unreachable':
                st.status = 'abort'
                return [st]
            elif op in ('undef', 'asm', 'extractvalue'):
                fr.regs[ins.dst] = st.fresh('opaque')
                fr.i += 1
            else:
                raise AnalysisBroken('op ' + op)
        return [st]

    def ret(s, st, fr, rv):
        for a in fr.allocas:
            o = st.wobj(a)
            o.freed = 'stack frame of ' + fr.f.name if False else o.freed
        st.frames.pop()
        if not st.frames:
            st.ret = rv
            st.status = 'done'
            return False
        up = st.frames[-1]
        if fr.dst is not None:
            up.regs[fr.dst] = rv
        up.i += 1
        if fr.x:
            fr.x(st, rv)
        if s.dedupe and (s.loops_of(fr.f) or st.symdec != fr.sd) and s.seen_before(st, 'R'):
            st.status = 'cut'
            return False
        return True

    def liveness(s, f):
        lv = s.live.get(f)
        if lv is not None:
            return lv
        use, dfn, succ, phiuse = {}, {}, {}, {}

        def ops(v):
            if isinstance(v, tuple):
                if v and v[0] == 'l':
                    yield v[1]
                else:
                    for x in v:
                        yield from ops(x)
            elif isinstance(v, list):
                for x in v:
                    yield from ops(x)
        for b, insl in f.blocks.items():
            u, d = set(), set()
            for ins in insl:
                if ins.op == 'phi':
                    for p, v in ins.a.items():
                        for x in ops(v):
                            phiuse.setdefault(p, set()).add(x)
                    d.add(ins.dst)
                    continue
                for x in ops(ins.a):
                    if x not in d:
                        u.add(x)
                if ins.dst is not None:
                    d.add(ins.dst)
            use[b], dfn[b] = u, d
            t = insl[-1]
            succ[b] = [t.x] if t.op == 'jmp' else list(t.x) if t.op == 'br' else [t.x[0]] + [c[1] for c in t.x[1]] if t.op == 'switch' else []
        live_in = {b: set() for b in f.blocks}
        ch = True
        while ch:
            ch = False
            for b in reversed(f.order):
                out = set(phiuse.get(b, ()))
                for n in succ[b]:
                    out |= live_in[n]
                i = use[b] | (out - dfn[b])
                if i != live_in[b]:
                    live_in[b] = i
                    ch = True
        # live at an instruction inside a block: recompute on demand
        lv = s.live[f] = (live_in, succ, phiuse, ops)
        return lv

    def live_at(s, fr):
        live_in, succ, phiuse, ops = s.liveness(fr.f)
        k = (fr.f, fr.blk, fr.i)
        r = s.live_cache.get(k)
        if r is None:
            out = set(phiuse.get(fr.blk, ()))
            for n in succ[fr.blk]:
                out |= live_in[n]
            for ins in reversed(fr.f.blocks[fr.blk][fr.i:]):
                if ins.dst is not None:
                    out.discard(ins.dst)
                if ins.op != 'phi':
                    out |= set(ops(ins.a))
                # phi at current position: results already computed by goto
            r = out
            if fr.i == 0 or fr.f.blocks[fr.blk][fr.i].op == 'phi':
                for ins in fr.f.blocks[fr.blk]:
                    if ins.op == 'phi':
                        r.add(ins.dst)
            s.live_cache[k] = r
        return r

    def seen_before(s, st, tag):
        if not s.dedupe:
            return False
        g = s.signature(st)
        k = (tag, g)
        if k in s.seen:
            s.nmerged += 1
            return True
        s.seen.add(k)
        return False

    def signature(s, st):
        canon = {}
        leaves = set()
        todo = []
        held = s.held(st)

        def cv(v):
            if isinstance(v, Ptr):
                i = canon.get(v.obj)
                if i is None:
                    o = st.mem.get(v.obj)
                    if o is not None and o.kind in ('heap', 'stanza', 'alloca'):
                        i = canon[v.obj] = '%s%d' % (o.name, len(canon))
                    else:
                        i = canon[v.obj] = v.obj
                    todo.append(v.obj)
                return ('P', i, cv(v.off))
            if isinstance(v, Seg):
                return ('S', cv(v.t))
            if isinstance(v, Term):
                v2 = st.norm(v)
                if v2 is not v:
                    return cv(v2)
                leafs(v, leaves)
                return v
            if isinstance(v, Fn):
                return ('F', v.name)
            if v is UNDEF:
                return 'U'
            if isinstance(v, dict):
                return tuple(sorted((str(k), cv(x)) for k, x in v.items()) if False else [(k, cv(v[k])) for k in sorted(v, key=str)])
            if isinstance(v, (tuple, list)):
                return tuple(cv(x) for x in v)
            return v
        sig = []
        for fr in st.frames:
            lv = s.live_at(fr)
            sig.append((fr.f.name, fr.blk, fr.i, tuple((r, cv(fr.regs[r])) for r in sorted(lv) if r in fr.regs),
                        tuple((h, L[4]) for h, L in sorted(fr.loops.items()))))
        objs = {}

        def doobj(oid):
            if oid in objs:
                return
            objs[oid] = None
            o = st.mem[oid]
            if o.kind == 'alloca' and oid not in canon:
                return
            if o.freed:
                objs[oid] = (canon.get(oid, oid), 'freed')
                return
            if o.kind == 'global' and o.const:
                return
            cells = tuple((k if type(k) is int else cv(k), c[0] if type(c[0]) is int else cv(c[0]), cv(c[1]))
                          for k, c in sorted(o.cells.items(), key=lambda z: (type(z[0]) is not int, z[0] if type(z[0]) is int else repr(z[0])))
                          if not (o.default == 'lazy' and isinstance(c[1], Term) and c[1].op == 'sym' and c[1].args[0].startswith(o.name + '.') and st.norm(c[1]) is c[1]))
            objs[oid] = (canon.get(oid, oid), o.default, cells, cv(o.x) if o.x else None)
        for oid, o in list(st.mem.items()):
            if o.kind == 'lazy':
                if o.base is not None:
                    ls = set()
                    leafs(o.base, ls)
                    if not all(l in leaves or s.input_leaf(st, l) for l in ls):
                        continue
                    if s.dead_ptr(o.base, held, leaves):
                        continue
                doobj(oid)
            elif o.kind in ('heap', 'stanza') and not o.freed:
                if oid not in canon:
                    canon[oid] = '%s@%s' % (o.name, o.where)
                doobj(oid)
            elif o.kind == 'global' and not o.const:
                doobj(oid)
        while todo:
            doobj(todo.pop())
        ev = []
        al = set()
        x = st.evs
        while x:
            if x[1] in ALARMS:
                al.add((x[1], x[3]))
            elif x[1] not in ('alloc', 'free'):
                ev.append((x[1], x[3], tuple((k, cv(v) if isinstance(v, (Ptr, Term, Fn, int, str, tuple)) else repr(v)) for k, v in sorted(x[2].items()))))
            x = x[0]
        sig.append(tuple(ev))
        sig.append(frozenset(al))
        sig.append(tuple(sorted((str(v) for v in objs.values() if v is not None))))

        def rel(t):
            ls = set()
            leafs(t, ls)
            return all(l in leaves or s.input_leaf(st, l) for l in ls)
        fs = []
        for k, v in st.facts.rng.items():
            if all(rel(a) for a, _ in k) and not (len(k) == 1 and s.dead_ptr(k[0][0], held, leaves)):
                fs.append((k, v))
        for k, v in st.facts.ne.items():
            if all(rel(a) for a, _ in k) and not (len(k) == 1 and s.dead_ptr(k[0][0], held, leaves)):
                fs.append((k, v))
        for k, v in st.facts.b.items():
            if rel(k):
                fs.append((k, v))
        for k, v in st.facts.sub.items():
            if rel(k) and not s.dead_ptr(k, held, leaves):
                fs.append((k, cv(v)))
        sig.append(frozenset(fs))
        gs = []
        for k, v in st.g.items():
            if isinstance(k, str) and k.startswith('#'):
                continue
            if isinstance(k, tuple):
                ts = [t for t in flat(k) if isinstance(t, Term)]
                if not all(rel(t) for t in ts):
                    continue
                k = tuple(cv(t) for t in k)
            gs.append(repr((k, v)))
        sig.append(tuple(sorted(gs)))
        return tuple(sig)

    def held(s, st):
        # input pointers still stored somewhere (raw cell contents)
        r = set()
        for o in st.mem.values():
            if o.freed:
                continue
            for c in o.cells.values():
                if isinstance(c[1], Term):
                    r.add(c[1])
        for fr in st.frames:
            for k in s.live_at(fr):
                v = fr.regs.get(k)
                if isinstance(v, Term):
                    r.add(v)
        return r

    def dead_ptr(s, t, held, leaves):
        """an input pointer that was overwritten everywhere: whether it was NULL no longer matters"""
        return t.op == 'sym' and t.tag in ('nullable', 'ptr') and t not in held

    def input_leaf(s, st, l):
        n = l.args[0]
        return not (n.startswith('w.') or n.startswith('ret:') or '~' in n or n.startswith('cmp'))

    def loops_of(s, f):
        if f.headers is None:
            # natural loops: back edges by DFS
            succ = {}
            for b, ins in f.blocks.items():
                t = ins[-1]
                if t.op == 'jmp':
                    succ[b] = [t.x]
                elif t.op == 'br':
                    succ[b] = list(t.x)
                elif t.op == 'switch':
                    succ[b] = [t.x[0]] + [c[1] for c in t.x[1]]
                else:
                    succ[b] = []
            col = {}
            back = []
            stack = [(f.order[0], iter(succ[f.order[0]]))]
            col[f.order[0]] = 1
            while stack:
                b, it = stack[-1]
                for n in it:
                    if col.get(n) == 1:
                        back.append((b, n))
                    elif n not in col:
                        col[n] = 1
                        stack.append((n, iter(succ[n])))
                        break
                else:
                    col[b] = 2
                    stack.pop()
            pred = {}
            for b, ss in succ.items():
                for n in ss:
                    pred.setdefault(n, []).append(b)
            heads = {}
            for l, h in back:
                body = heads.setdefault(h, {h})
                w = [l]
                while w:
                    x = w.pop()
                    if x in body:
                        continue
                    body.add(x)
                    w.extend(pred.get(x, []))
            f.headers = heads
        return f.headers

    def goto(s, st, fr, lab):
        frm = fr.blk
        blk = fr.f.blocks[lab]
        # phis
        vals = []
        i = 0
        while blk[i].op == 'phi':
            p = blk[i]
            v = p.a.get(frm)
            if v is None:
                raise AnalysisBroken('phi without edge %s->%s in %s' % (frm, lab, fr.f.name))
            vals.append((p.dst, st.norm(s.val(st, fr, v)), p.ty))
            i += 1
        for d, v, _ in vals:
            fr.regs[d] = v
        heads = s.loops_of(fr.f)
        ok = True
        if lab in heads:
            ok = s.at_header(st, fr, lab, frm, heads[lab], vals)
        # leaving loops: forget their counters
        if fr.loops:
            for h in list(fr.loops):
                if lab not in heads[h]:
                    del fr.loops[h]
        fr.prev = frm
        fr.blk = lab
        fr.i = i
        if not ok:
            st.status = 'cut'
            return False
        return True

    def at_header(s, st, fr, lab, frm, body, vals):
        L = fr.loops.get(lab)
        if frm not in body or L is None:
            fr.loops[lab] = (0, 0, (dict(st.mem), {d: v for d, v, _ in vals}), st.symdec, 0)
            return True
        n, ns, snap, sd, widened = L
        n += 1
        if s.back_hooks and snap is not None:
            for h in s.back_hooks:
                h(st, fr, lab, snap[1], {d: v for d, v, _ in vals})
        if n > 4000:
            st.ev('loop-limit', fn=fr.f.name)
            return False
        counted = st.g.get(('cx', len(st.frames), lab))
        st.g.pop(('cx', len(st.frames), lab), None)
        if counted and not any((type(v) is int or isinstance(v, Ptr)) and snap is not None and type(snap[1].get(d)) is type(v) and snap[1].get(d) != v for d, v, _ in vals):
            counted = None      # the exit test was decided by facts only: not a counted loop
        if not s.counted:
            counted = None
        if st.symdec == sd or (counted and not s.cutloops):
            if not widened:
                snap = (dict(st.mem), {d: v for d, v, _ in vals})
            fr.loops[lab] = (n, ns, snap, st.symdec, widened)
            return True
        ns += 1
        if ns < s.loopk and not widened:
            fr.loops[lab] = (n, ns, (dict(st.mem), dict(vals and {d: v for d, v, _ in vals})), st.symdec, 0)
            return True
        if s.cutloops:
            return False
        # widening
        s.widened.add((fr.f.name, lab))
        fr.blk, fr.i = lab, 0
        changed = False
        if snap is None:
            if widened:
                return False
            fr.loops[lab] = (n, ns, (dict(st.mem), {d: v for d, v, _ in vals}), st.symdec, 0)
            return True
        omem, ovals = snap
        weaker = False
        for d, v, ty in vals:
            ov = ovals.get(d)
            if not (v is ov or v == ov):
                # already a widened symbol for this phi that just advanced?  still havoc
                nn = s.gc and ty.k == 'ptr' and not (isinstance(v, Ptr) and isinstance(ov, Ptr) and v.obj == ov.obj) and isinstance(v, (Ptr, Term)) and isinstance(ov, (Ptr, Term))
                if nn and st.isnull(v) is False and st.isnull(ov) is False:
                    fr.regs[d] = st.fresh('w.%s.%s' % (fr.f.name, d), 64, tag='nonnull')
                else:
                    if nn and widened and isinstance(ov, Term) and ov.tag == 'nonnull':
                        weaker = True
                    fr.regs[d] = s.widen(st, v, ov, ty, '%s.%s' % (fr.f.name, d))
                changed = True
        for oid in list(st.mem):
            o = st.mem[oid]
            oo = omem.get(oid)
            if oo is None or oo is o:
                continue
            for co in set(o.cells) | set(oo.cells):
                c, c0 = o.cells.get(co), oo.cells.get(co)
                if c is None or c == c0:
                    continue
                if c0 is None:
                    if o.default != 'lazy' or type(co) is not int or isinstance(c[1], Seg):
                        continue
                    if isinstance(c[1], Term) and c[1].op == 'sym' and c[1].args[0].startswith(o.name):
                        continue   # merely materialised
                    ct = T('int', 8 * c[0]) if type(c[0]) is int and c[0] in (1, 2, 4) else PTR
                    d0 = s.lazy_default(st, o, co, c[0], ct)
                    if d0 is None or d0 == st.norm(c[1]):
                        continue
                    c0 = (c[0], d0)
                o2 = st.wobj(oid)
                o = o2
                sz, v = c
                o2.cells[co] = (sz, s.widen(st, v, c0[1], I8 if sz == 1 else I32 if sz == 4 else I64, '%s+%r' % (o.name, co), False))
                changed = True
        s.forget(st)
        if widened >= 2 and not weaker:
            return False
        if not changed:
            return False
        fr.loops[lab] = (n, ns, (dict(st.mem), {d: fr.regs[d] for d, v, _ in vals}), st.symdec, widened + 1)
        return not s.seen_before(st, ('H', lab))

    iter_ops = {'children', 'next'}

    def forget(s, st):
        """drop what is known about list elements of past iterations (sound weakening)"""
        live = set()
        for fr in st.frames:
            lv = s.live_at(fr)
            for r, v in fr.regs.items():
                if r in lv and isinstance(v, Term):
                    live.add(v)
        for o in st.mem.values():
            for c in o.cells.values():
                if isinstance(c[1], Term):
                    live.add(c[1])

        def stale(t):
            if isinstance(t, tuple):
                return any(stale(x) for x in t)
            if not isinstance(t, Term):
                return False
            r = s.stale_cache.get(t)
            if r is None:
                r = set()
                _iters(t, s.iter_ops, r)
                s.stale_cache[t] = r
            return any(x not in live for x in r)
        f = st.facts
        # the current iteration's element is dead at the header unless it is in a live register
        for d in (f.rng, f.ne):
            for k in [k for k in d if any(stale(a) for a, _ in k)]:
                del d[k]
        for d in (f.b, f.sub):
            for k in [k for k in d if stale(k)]:
                del d[k]
        for k in [k for k in st.g if isinstance(k, tuple) and stale(k)]:
            del st.g[k]
        if s.gc:
            s.collect(st)

    def collect(s, st):
        live = set()
        todo = []
        for fr in st.frames:
            lv = s.live_at(fr)
            todo += [v for r, v in fr.regs.items() if r in lv]
        for o in st.mem.values():
            todo.append(o.size)
            for co, c in o.cells.items():
                todo += [co, c[1]]
        f = st.facts
        while todo:
            v = todo.pop()
            if isinstance(v, Ptr):
                v = v.off
            if isinstance(v, (tuple, list)):
                todo.extend(v)
                continue
            if not isinstance(v, Term) or v in live:
                continue
            live.add(v)
            todo.extend(v.args)
            if v in f.sub:
                todo.append(f.sub[v])
        for d in (f.rng, f.ne):
            for k in [k for k in d if any(a not in live for a, _ in k)]:
                del d[k]
        for d in (f.b, f.sub):
            for k in [k for k in d if isinstance(k, Term) and k not in live]:
                del d[k]

    def widen(s, st, v, ov, ty, name, hint=True):
        if isinstance(v, (Ptr, Fn)) or isinstance(ov, (Ptr, Fn)):
            if isinstance(v, Ptr) and isinstance(ov, Ptr) and v.obj == ov.obj:
                x = st.fresh('w.' + name, 64)
                return Ptr(v.obj, s.wrange(st, x, v.off, ov.off) if s.hints else x)
            return st.fresh('w.' + name, 64, tag='ptr')
        if v is UNDEF or isinstance(v, Seg):
            return v
        if isinstance(v, Term) and v.op == 'bits' or isinstance(ov, Term) and ov.op == 'bits':
            a, b = bitvec(v, _w(ty)), bitvec(ov, _w(ty))
            if a and b:
                return mkbits([p if (type(p) is type(q) and p == q) else st.fresh('w.%s.bit%d' % (name, i), 1)
                               for i, (p, q) in enumerate(zip(a, b))], _w(ty))
        w = _w(ty)
        tag = None
        if isinstance(v, Term):
            tag = v.tag
        if ty.k == 'ptr':
            return st.fresh('w.' + name, 64, tag=tag or 'ptr')
        x = st.fresh('w.' + name, w)
        return s.wrange(st, x, v, ov) if hint and s.hints else x

    def wrange(s, st, x, v, ov):
        """monotone hint: value only grows / shrinks by the observed step"""
        try:
            d = lsub(v, ov)
        except Exception:
            return x
        if not isinstance(v, (int, Term)) or not isinstance(ov, (int, Term)):
            return x
        lo, hi = st.facts.range(d)
        if lo >= 0:
            st.facts.assume_range(lsub(x, v), 0, INF)
        elif hi <= 0:
            st.facts.assume_range(lsub(x, v), -INF, 0)
        return x

    def branch(s, st, fr, c, a, b):
        c = st.norm(c)
        if type(c) is int:
            heads = s.loops_of(fr.f)
            for h, body in heads.items():
                if fr.blk in body and h in fr.loops:
                    if (a in body) != (b in body):
                        st.g[('cx', len(st.frames), h)] = 1
            s.goto(st, fr, a if c else b)
            return [st] if st.status != 'run' else None
        if c is UNDEF:
            st.ev('undef-cmp')
            c = st.fresh('ucmp', 1)
        d = s.decide(st, c)
        if d is not None:
            s.goto(st, fr, a if d else b)
            return [st] if st.status != 'run' else None
        r = s.split_bits(st, c)
        if r is not None:
            return r
        o = st.copy()
        out = []
        if s.assume(st, c, True):
            st.symdec += 1
            st.dec = (st.dec, c, True, st.where())
            s.goto(st, fr, a)
            out.append(st)
        if s.assume(o, c, False):
            o.symdec += 1
            o.dec = (o.dec, c, False, o.where())
            s.goto(o, o.frames[-1], b)
            out.append(o)
        return out

    def split_bits(s, st, c):
        """case-split on one undecided bit a condition depends on, then re-evaluate it"""
        b = bits_of(st.norm(c))
        if b is None:
            return None
        o = st.copy()
        st.facts.sub[b] = 1
        o.facts.sub[b] = 0
        st.dec = (st.dec, b, True, st.where())
        o.dec = (o.dec, b, False, o.where())
        st.symdec += 1
        o.symdec += 1
        # the condition register was computed before the split: recompute it
        for x in (st, o):
            fr = x.frames[-1]
            for k, v in fr.regs.items():
                if isinstance(v, Term) and v.op in ('cmp', 'not'):
                    fr.regs[k] = s.renorm(x, v)
        return [st, o]

    def renorm(s, st, t):
        if t.op == 'not':
            r = s.renorm(st, t.args[0]) if isinstance(t.args[0], Term) else t.args[0]
            return s.negate(st, r)
        if t.op == 'cmp':
            p, a, b, w = t.args
            a2, b2 = st.norm(a), st.norm(b)
            if a2 is a and b2 is b or (a2 == a and b2 == b):
                return t
            return s.icmp(st, p, a2, b2, _ints.get(w) or T('int', w))
        return st.norm(t)

    def switch(s, st, fr, ins):
        v = st.norm(s.val(st, fr, ins.a[0]))
        d, cases = ins.x
        w = ins.ty.w
        if v is UNDEF:
            st.ev('undef-cmp')
            v = st.fresh('usw', w)
        if type(v) is int:
            for cv, lab in cases:
                if (cv & ((1 << w) - 1)) == (v & ((1 << w) - 1)):
                    s.goto(st, fr, lab)
                    return [st]
            s.goto(st, fr, d)
            return [st]
        out = []
        cur = st
        for cv, lab in cases:
            t = s.icmp(cur, 'eq', v, cv, ins.ty)
            dd = s.decide(cur, t)
            if dd == 1:
                s.goto(cur, cur.frames[-1], lab)
                out.append(cur)
                return out
            if dd == 0:
                continue
            o = cur.copy()
            if s.assume(o, t, True):
                o.symdec += 1
                o.dec = (o.dec, t, True, o.where())
                s.goto(o, o.frames[-1], lab)
                out.append(o)
            if not s.assume(cur, t, False):
                return out
            cur.dec = (cur.dec, t, False, cur.where())
        cur.symdec += 1
        s.goto(cur, cur.frames[-1], d)
        out.append(cur)
        return out

    # ---------------------------------------------------- calls
    def call(s, st, fr, ins):
        fnv, args = ins.a
        f = s.val(st, fr, fnv)
        f = st.norm(f)
        av = [st.norm(s.val(st, fr, a)) for t, a in args]
        s.ncalls += 1
        if isinstance(f, Fn):
            name = f.name
            m = s.models.get(name)
            if m is not None:
                r = m(s, st, av, ins)
                if r is PUSHED:
                    return None
                if r is not NotImplemented:
                    return s.deliver(st, ins, r)
            if f.f is not None and name not in s.no_inline:
                if len(st.frames) > s.inline_depth or sum(1 for x in st.frames if x.f is f.f) > s.recursion:
                    st.ev('inline-limit', fn=name)
                    return s.deliver(st, ins, s.unknown(st, ins, name))
                return s.enter(st, f.f, av, ins)
            # external without model
            s.ext_calls.add(name)
            st.ev('ext', fn=name, args=av)
            s.havoc_args(st, name, av)
            return s.deliver(st, ins, s.unknown(st, ins, name))
        # indirect through an unknown pointer
        if f is UNDEF:
            st.ev('undef-call')
        elif type(f) is int:
            st.ev('null-deref', val=f, why='call')
            st.status = 'dead'
            return [st]
        else:
            if isinstance(f, Term) and st.isnull(f) is True:
                st.ev('null-deref', val=f, why='call')
                st.status = 'dead'
                return [st]
            if isinstance(f, Term) and f.tag == 'nullable' and st.isnull(f) is None:
                st.ev('maybe-null-deref', val=f, why='call')
            if isinstance(f, Term):
                st.facts.assume_ne(f)
        if s.indirect:
            r = s.indirect(s, st, f, av, ins)
            if r is PUSHED:
                return None
            if r is not NotImplemented:
                return s.deliver(st, ins, r)
        st.ev('icall', fn=f, args=av)
        return s.deliver(st, ins, s.unknown(st, ins, repr(f)))

    def enter(s, st, func, av, ins, hook=None):
        s.analysed.add(func)
        nf = Frame(func)
        nf.dst = ins.dst if ins is not None else None
        nf.callline = ins.line if ins is not None else 0
        nf.x = hook
        nf.sd = st.symdec
        for (n, t), a in zip(func.params, av):
            nf.regs[n] = a
        st.frames.append(nf)
        return None

    def unknown(s, st, ins, name):
        if ins.ty is None or ins.ty.k == 'void':
            return None
        return st.fresh('ret:' + name, _w(ins.ty), tag='ptr' if ins.ty.k == 'ptr' else None)

    def havoc_args(s, st, name, av):
        for a in av:
            if isinstance(a, Ptr):
                o = st.mem.get(a.obj)
                if o is not None and o.kind == 'alloca':
                    o2 = st.wobj(a.obj)
                    if a.off == 0:
                        o2.cells = {}
                        o2.default = 'lazy'
                        o2.name = '%s>%s' % (name, o2.name)

    def deliver(s, st, ins, r):
        """r: value | [(state,value)...]"""
        if isinstance(r, list):
            out = []
            for st2, v in r:
                if st2.status != 'run':
                    out.append(st2)
                    continue
                f2 = st2.frames[-1]
                if ins.dst is not None:
                    f2.regs[ins.dst] = v
                f2.i += 1
                if len(r) > 1:
                    st2.symdec += 1
                out.append(st2)
            return out
        if st.status != 'run':
            return [st]
        fr = st.frames[-1]
        if ins.dst is not None:
            fr.regs[ins.dst] = r
        fr.i += 1
        return None


NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt',
       'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}


ALARMS = {'maybe-null-deref', 'null-deref', 'use-after-free', 'double-free', 'undef-load', 'undef-cmp', 'undef-deref', 'oob',
          'opaque-string', 'opaque-copy', 'truncated', 'wild-deref', 'bad-free', 'free-opaque', 'null-fmt'}


def _iters(t, ops, out):
    if isinstance(t, Term):
        if t.op in ops:
            out.add(t)
        for a in t.args:
            _iters(a, ops, out)
    elif isinstance(t, tuple):
        for a in t:
            _iters(a, ops, out)


_leafs = {}


def leafs(t, out):
    if isinstance(t, Term):
        r = _leafs.get(t)
        if r is None:
            if t.op == 'sym':
                r = (t,)
            else:
                r = set()
                for a in t.args:
                    leafs(a, r)
                r = frozenset(r)
            _leafs[t] = r
        out.update(r)
    elif isinstance(t, tuple):
        for a in t:
            leafs(a, out)
    elif isinstance(t, Ptr):
        leafs(t.off, out)


def flat(k):
    for x in k:
        if isinstance(x, tuple):
            yield from flat(x)
        else:
            yield x


def _sn(ty):
    n = ty.name or ''
    for p in ('struct.', 'union.'):
        if n.startswith(p):
            n = n[len(p):]
    if '.' in n and n.rsplit('.', 1)[1].isdigit():
        n = n.rsplit('.', 1)[0]
    return n
