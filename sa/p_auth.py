"""C07: the messages of the authentication mechanisms as terms over digests,
compared with the terms of the RFCs."""
from p_nego import *
import scan
from eng import *
from eng import *
import models
from models import content, lit, subst, S, Len, merge, slen, heap_str, put_pieces, deref_ok
from shapes import alarms
from p_jid import str_models, btext

CXA = Sym('actx', tag='nonnull')
SIZE = {'sha1': 20, 'md5': 16, 'sha256': 32, 'sha512': 64}
BLOCK = {'sha1': 64, 'md5': 64, 'sha256': 64, 'sha512': 128}


class Ids:
    """values of bytes with structural identity: equal terms have equal numbers"""

    def __init__(s):
        s.t = {}
        s.memo = {}

    def id(s, *k):
        return s.t.setdefault(k, len(s.t))

    def const(s, v):
        return s.id('c', v & 255)

    def lit(s, b):
        return [s.const(x) for x in b]

    def xor(s, *xs):
        c, at = 0, {}
        inv = s.inv
        for x in xs:
            k = inv(x)
            if k[0] == 'c':
                c ^= k[1]
            elif k[0] == 'xor':
                c ^= k[1]
                for a in k[2]:
                    at[a] = not at.get(a, False)
            else:
                at[x] = not at.get(x, False)
        at = frozenset(a for a, v in at.items() if v)
        if not at:
            return s.const(c)
        if len(at) == 1 and c == 0:
            return next(iter(at))
        return s.id('xor', c, at)

    def inv(s, x):
        if len(getattr(s, '_inv', ())) != len(s.t):
            s._inv = {v: k for k, v in s.t.items()} if not hasattr(s, '_inv') else s._inv
            for k, v in list(s.t.items())[len(s._inv):]:
                s._inv[v] = k
        return s._inv[x]

    def hash(s, name, bs):
        h = s.id('h', name, tuple(bs))
        return [s.id('hb', h, i) for i in range(SIZE[name])]

    def hmac(s, name, key, text):
        b = BLOCK[name]
        if len(key) > b or any(s.inv(x)[0] == 'long' for x in key):
            key = s.hash(name, key)
        key = list(key) + [s.const(0)] * (b - len(key))
        inner = s.hash(name, [s.xor(k, s.const(0x36)) for k in key] + list(text))
        return s.hash(name, [s.xor(k, s.const(0x5c)) for k in key] + inner)

    def hi(s, name, pw, salt, n):
        u = s.hmac(name, pw, list(salt) + s.lit(b'\0\0\0\1'))
        out = u
        for _ in range(n - 1):
            u = s.hmac(name, pw, u)
            out = [s.xor(a, b) for a, b in zip(out, u)]
        return out

    def b64(s, bs):
        return [s.id('b64', tuple(bs))]

    def hexs(s, bs):
        out = []
        for b in bs:
            out += [s.id('hx', b, 1), s.id('hx', b, 0)]
        return out

    # terms -----------------------------------------------------------
    def byte(s, v):
        if type(v) is int:
            return s.const(v)
        if not isinstance(v, Term):
            return s.id('?', repr(v))
        if v in s.memo:
            return s.memo[v]
        r = s._byte(v)
        s.memo[v] = r
        return r

    def _byte(s, v):
        if v.op in ('trunc', 'zext', 'sext'):
            return s.byte(v.args[0])
        if v.op == 'chr':
            return s.byte(v.args[0])
        if v.op == 'xor':
            return s.xor(*[s.byte(x) for x in v.args])
        if v.op == 'and' and any(type(x) is int and x & 255 == 255 for x in v.args):
            return s.byte([x for x in v.args if type(x) is not int][0])
        if v.op == 'byte' and isinstance(v.args[0], Term) and v.args[0].op in SIZE:
            return s.id('hb', s.hid(v.args[0]), v.args[1])
        if v.op == 'byte':
            return s.id('ab', v.args[0], v.args[1])
        if v.op == 'tab':
            return s.table(v)
        return s.id('t', v)

    def bits(s, v, w):
        """the bits of a value, least significant first: (byte, number), 0, 1 or None"""
        if type(v) is int:
            return [v >> i & 1 for i in range(w)]
        if not isinstance(v, Term):
            return [None] * w
        a = v.args
        if v.w < w:
            return (s.bits(v, v.w) + [0] * w)[:w]       # the engine keeps unsigned values without zext
        if v.op in ('udiv', 'urem') and type(a[1]) is int and a[1] & (a[1] - 1) == 0:
            b, k = s.bits(a[0], w), a[1].bit_length() - 1
            return b[k:] + [0] * k if v.op == 'udiv' else (b[:k] + [0] * w)[:w]
        if v.op in ('zext', 'sext') and isinstance(a[0], Term):
            b = s.bits(a[0], a[0].w)
            return (b + [0 if v.op == 'zext' else b[-1]] * w)[:w]
        if v.op == 'trunc' and isinstance(a[0], Term):
            return s.bits(a[0], a[0].w)[:w]
        if v.op in ('ashr', 'lshr', 'shl') and type(a[1]) is int:
            b = s.bits(a[0], w)
            if v.op == 'shl':
                return ([0] * a[1] + b)[:w]
            return b[a[1]:] + [b[-1] if v.op == 'ashr' else 0] * min(a[1], w)
        if v.op in ('and', 'or') and len(a) == 2:
            x, y = s.bits(a[0], w), s.bits(a[1], w)
            n, k = (1, 0) if v.op == 'and' else (0, 1)
            return [p if q == n else q if p == n else k if k in (p, q) else None for p, q in zip(x, y)]
        if v.w == 8:
            b = s.byte(v)
            return [(b, i) for i in range(8)]
        return [None] * w

    def table(s, v):
        b = s.bits(v.args[1], getattr(v.args[1], 'w', 64))
        if v.args[0] == b'0123456789abcdef' and not any(b[4:]):
            for h in (0, 1):
                x = b[0]
                if isinstance(x, tuple) and b[:4] == [(x[0], 4 * h + i) for i in range(4)]:
                    return s.id('hx', x[0], h)
        return s.id('tab', v.args[0], v.args[1])

    def hid(s, t):
        if t in s.memo:
            return s.memo[t]
        bs = t.args if len(t.args) != 1 or not isinstance(t.args[0], tuple) else t.args[0]
        r = s.id('h', t.op, tuple(s.pieces(bs)))
        s.memo[t] = r
        return r

    def pieces(s, ps):
        out = []
        for p in ps:
            if isinstance(p, bytes):
                out += s.lit(p)
            elif isinstance(p, tuple):
                out += s.pieces(p)
            elif isinstance(p, Term):
                if p.op == 'chr':
                    out.append(s.byte(p.args[0]))
                elif p.op in SIZE:
                    h = s.hid(p)
                    out += [s.id('hb', h, i) for i in range(SIZE[p.op])]
                elif p.op == 'b64':
                    out += s.b64(s.pieces(p.args[0] if len(p.args) == 1 and isinstance(p.args[0], tuple) else p.args))
                elif p.op == 'hex2':
                    b = s.byte(p.args[0])
                    out += [s.id('hx', b, 1), s.id('hx', b, 0)]
                elif p.op == 'sub' and isinstance(p.args[0], Term) and p.args[0].op in SIZE:
                    h = s.hid(p.args[0])
                    out += [s.id('hb', h, p.args[1] + i) for i in range(p.args[2])]
                else:
                    out.append(s.atom(p))
            else:
                out.append(s.byte(p))
        return out

    def atom(s, p):
        lo = getattr(p, 'args', ())
        return s.id('long' if 'LONG' in repr(p) else 'atom', p)

    def show(s, x, d=0):
        k = s.inv(x)
        if k[0] == 'c':
            return repr(chr(k[1]))
        if d > 2:
            return '..'
        return '%s(%s)' % (k[0], ','.join(s.show(y, d + 1) if type(y) is int and k[0] in ('xor',) else str(y)[:60] for y in k[1:]))


def m_strtok_r(e, st, a, ins):
    d = content(st, a[1])
    p = st.norm(a[0])
    if st.isnull(p) is True:
        o, off = st.base_of(a[2])
        p = st.norm(e.load_cell(st, o, off, 8, PTR))
    if d is None or len(d) != 1 or not isinstance(d[0], bytes):
        st.ev('opaque-string', fn='strtok', args=())
        return st.fresh('tok', 64, tag='nullable')
    if st.isnull(p) is True:
        return 0
    c = content(st, p)
    if c is None:
        st.ev('opaque-string', fn='strtok', args=())
        return st.fresh('tok', 64, tag='nullable')
    units = []
    for x in c:
        units += [bytes([y]) for y in x] if isinstance(x, bytes) else [x]

    def isd(x):
        if isinstance(x, bytes):
            return x in d[0]
        if isinstance(x, Term) and x.op == 'chr':
            for k in d[0]:
                if e.decide(st, e.icmp(st, 'ne', x.args[0], k, I8)) != 1:
                    st.ev('opaque-string', fn='strtok', args=())
        return False
    i, off = 0, 0
    while i < len(units) and isinstance(units[i], bytes) and isd(units[i]):
        i, off = i + 1, off + 1
    if i == len(units):
        st.store(a[2], 0, 8)
        return 0
    start = off
    while i < len(units) and not isd(units[i]):
        off = ladd(off, 1 if isinstance(units[i], bytes) or units[i].op == 'chr' else plen(units[i]))
        i += 1
    if i < len(units):
        st.store(e.padd(st, p, off), 0, 1)
        st.store(a[2], e.padd(st, p, ladd(off, 1)), 8)
    else:
        st.store(a[2], 0, 8)
    return e.padd(st, p, start)


def units(c):
    out = []
    for x in c:
        out += list(x) if isinstance(x, bytes) else [x]
    return out


def m_strncmp(e, st, a, ins):
    """texts of literal and single unknown bytes, byte by byte"""
    for x in a[:2]:
        if not deref_ok(st, x, 'strncmp'):
            return []
    n = st.norm(a[2])
    c, d = content(st, a[0]), content(st, a[1])
    if c is None or d is None or type(n) is not int:
        return models.m_strncmp(e, st, a, ins)
    c, d = units(subst(st, c)) + [0], units(subst(st, d)) + [0]
    for x, y in list(zip(c, d))[:n]:
        if type(x) is int and type(y) is int:
            if x != y:
                return 1 if x > y else -1 & 0xffffffff
            if x == 0:
                return 0
            continue
        if any(isinstance(z, Term) and z.op != 'chr' for z in (x, y)):
            return models.m_strncmp(e, st, a, ins)
        x, y = [z.args[0] if isinstance(z, Term) else z for z in (x, y)]
        r = e.decide(st, e.icmp(st, 'eq', x, y, I8)) if x != y else 1
        if r == 1:
            continue
        if r == 0:
            return 1
        o = st.copy()
        e.assume(o, e.icmp(o, 'eq', x, y, I8), False)
        e.assume(st, e.icmp(st, 'eq', x, y, I8), True)
        rest = m_strncmp(e, st, a, ins)
        return (rest if isinstance(rest, list) else [(st, rest)]) + [(o, 1)]
    return 0


def m_strstr(e, st, a, ins):
    """a needle of literal bytes in a text of literal and single unknown bytes"""
    c, d = content(st, a[0]), content(st, a[1])
    if c is None or d is None or len(d) != 1 or not isinstance(d[0], bytes):
        st.ev('opaque-string', fn='strstr', args=())
        return st.fresh('strstr', 64, tag='nullable')
    un = []
    for x in c:
        un += [y for y in x] if isinstance(x, bytes) else [x]
    if any(isinstance(x, Term) and x.op != 'chr' for x in un):
        st.ev('opaque-string', fn='strstr', args=())
        return st.fresh('strstr', 64, tag='nullable')
    for i in range(len(un) - len(d[0]) + 1):
        eq = True
        for x, y in zip(un[i:], d[0]):
            if isinstance(x, int):
                r = x == y
            else:
                r = e.decide(st, e.icmp(st, 'eq', x.args[0], y if y < 128 else y - 256, I8))
            if not r and r is not None:
                eq = False
                break
            if r is None:
                eq = None
        if eq is None:
            st.ev('opaque-string', fn='strstr', args=())
            return st.fresh('strstr', 64, tag='nullable')
        if eq:
            return e.padd(st, a[0], i)
    return 0


def m_span(neg):
    def m(e, st, a, ins):
        c, d = content(st, a[0]), content(st, a[1])
        if c is None or d is None or len(d) > 1 or d and not isinstance(d[0], bytes):
            return NotImplemented
        un = units(subst(st, c))
        ds = d[0] if d else b''
        n = 0
        for x in un:
            if isinstance(x, int):
                hit = x in ds
            elif x.op == 'chr':
                hit = False
                for k in ds:
                    r = e.decide(st, e.icmp(st, 'eq', x.args[0], k if k < 128 else k - 256, I8))
                    if r == 1:
                        hit = True
                    elif r is None:
                        return NotImplemented
            else:
                return NotImplemented
            if hit == neg:
                break
            n += 1
        return n
    return m


def b64_enc(e, st, a, ins):
    n = st.norm(a[2])
    c = content(st, a[1], n)
    t = App('b64', subst(st, c) if c is not None else repr(a[1]))
    if type(n) is int:
        st.facts.assume_range(Len(t), (n + 2) // 3 * 4, (n + 2) // 3 * 4)
    return Ptr(heap_str(st, (t,), 'b64').id, 0)


def plen(p):
    from models import plen as f
    return f(p)


def m_decode_bin(e, st, a, ins):
    if not deref_ok(st, a[1], 'b64dec'):
        return [(st, None)]
    c = content(st, a[1], st.norm(a[2]))
    t = App('unb64', subst(st, c) if c is not None else repr(a[1]))
    L = Len(t)
    st.facts.assume_range(L, 1, 1 << 16)
    o = st.copy()
    b = heap_str(st, (t,), 'decoded')
    st.store(a[3], Ptr(b.id, 0), 8)
    st.store(a[4], st.norm(L), 8)
    o.store(a[3], 0, 8)
    o.store(a[4], 0, 8)
    o.g['undecoded'] = True
    return [(st, None), (o, None)]


def auth_m():
    m = str_models({})
    for k in ('sasl_plain', 'sasl_digest_md5', 'sasl_scram'):
        m.pop(k, None)
    for k in list(m):
        if k.startswith('hash_'):
            del m[k]
    m['strtok_r'] = m['__strtok_r'] = m_strtok_r
    m['xmpp_base64_decode_bin'] = m_decode_bin
    m['xmpp_base64_encode'] = b64_enc
    m['strstr'] = m_strstr
    m['strncmp'] = m_strncmp
    m['strspn'] = m_span(False)
    m['strcspn'] = m_span(True)
    return m


def engine(m=None, **kw):
    P = kw.pop('P')
    e = Engine(P, m or auth_m(), max_paths=20000, max_steps=10 ** 9, loopk=300, bounds=True)
    e.peekbytes = True
    e.load_hooks = list(e.load_hooks) + [table_load(e)]
    return e


def table_load(e):
    """an unknown entry of a table of constants"""
    def h(st, o, off, sz, ty):
        if sz != 1 or type(off) is int:
            return None
        lo, hi = st.facts.range(off)
        if lo < 0 or hi > 255:
            return None
        out = []
        for i in range(lo, hi + 1):
            v = o.cells.get(i, (0, None))
            v = v[1] if v[0] == 1 else e.load_cell(st, o, i, 1, I8)
            if type(v) is not int:
                return None
            out.append(v & 255)
        return App('tab', bytes(out), ladd(off, -lo) if lo else off, w=8)
    return h


def U(name, n):
    return [Sym('%s#%d' % (name, i), 8, tag='byte') for i in range(n)]


def avoid(e, st, bs, no):
    for b in bs:
        if not isinstance(b, int):
            for x in b'\0' + no:
                e.assume(st, e.icmp(st, 'ne', b, x if x < 128 else x - 256, I8), True)


def bl(*parts):
    """list of byte cells"""
    out = []
    for p in parts:
        out += list(p)
    return out


ALGS = {'SCRAM-SHA-1': 'sha1', 'SCRAM-SHA-256': 'sha256', 'SCRAM-SHA-512': 'sha512'}


def alg_globals(P):
    """(digest, plus, module, name) of the algorithm descriptions"""
    from eng import _sn
    out = []
    e = Engine(P, {})
    for m in P.modules.values():
        for n, g in m.globals.items():
            if g.init is not None and g.ty.k == 'struct' and _sn(g.ty) == 'hash_alg':
                st = State(e)
                p = e.gval(st, m, n)
                nm = st.norm(e.load_cell(st, st.mem[p.obj], P.off('hash_alg', 'scram_name'), 8, PTR))
                t = lit(st, nm)
                t = t.decode() if t else ''
                plus = t.endswith('-PLUS')
                d = ALGS.get(t[:-5] if plus else t)
                if d is None:
                    rep_unknown.append(t)
                else:
                    out.append((d, plus, m, n))
    return sorted(out, key=lambda x: x[3])


rep_unknown = []


CASES = None


def scram(rep, P):
    R = Ids()
    npath = 0
    for nm, plus, gmod, gname in alg_globals(P):
        cases = [(5, b'%d' % i, 'rsi') for i in ((1, 2, 3) + (() if rep.tier == 'quick' else (4, 6)) if not plus else (2,))]
        if not plus:
            cases += [(0, b'1', 'rsi'), (BLOCK[nm] - 1, b'1', 'rsi'), (BLOCK[nm], b'1', 'rsi'), ('LONG', b'2', 'rsi'), (3, b'1', 'sri'), (3, b'1', 'xrsi'), (3, b'0', 'rsi'), (3, b'-1', 'rsi'), (3, b'1', 'other'), (3, b'1', 'short'), (3, b'1', 'rs'), (3, b'1', 'ri'), (3, b'1', 'si')]
        for pl, it, order in CASES or cases:
            title = '%s, password of %s bytes, i=%s, challenge %s' % (gname, pl, it.decode(), order)
            e = engine(P=P)
            cn, sn, sa, us, cb = U('cnonce', 2), U('snonce', 2), U('salt', 2), U('user', 2), U('cbind', 2)
            rr = list(b'r=') + {'other': U('other', 2) + sn, 'short': cn[:1]}.get(order, cn + sn)
            ss, ii = list(b's=') + sa, list(b'i=' + it)
            parts = {'rsi': [rr, ss, ii], 'sri': [ss, rr, ii], 'xrsi': [list(b'x=') + U('ext', 1), rr, ss, ii, list(b'y=1')], 'rs': [rr, ss], 'ri': [rr, ii], 'si': [ss, ii]}.get(order, [rr, ss, ii])
            chal = []
            for p in parts:
                chal += ([44] if chal else []) + p
            first = list(b'n=') + us + list(b',r=') + cn
            pw = U('pw', pl) if pl != 'LONG' else None

            T = lambda cells: lambda st: btext(st, e, 'arg', cells)

            def long_pw(st):
                t = Sym('LONGpw', tag='name')
                st.facts.assume_range(Len(S(t)), BLOCK[nm] + 1, 1 << 16)
                return Ptr(heap_str(st, (S(t),), 'pw').id, 0)
            gp = lambda st: e.gval(st, gmod, gname)
            args = [CXA, gp, T(cb), T(chal), T(first), Sym('jid', tag='nonnull'), T(pw) if pw is not None else long_pw]
            sts = e.start(P.func('sasl_scram'), args, lambda st: su2(e, st, cn, sn, us, sa, cb, pw))
            rep.engine(e, len(sts))
            yes = 0
            for st in sts:
                if st.status == 'abort':
                    rep.check('scram', False, title, 'sasl.c:sasl_scram', 'aborts on a challenge of the server')
                if st.status != 'done':
                    continue
                al = sure(st)
                rep.check('memory', not al, title, 'sasl.c:sasl_scram', str(al[:1]))
                null = st.isnull(st.ret) is True
                if order in ('other', 'short', 'rs', 'ri', 'si') or it in (b'0', b'-1'):
                    same = order == 'other' and all(e.decide(st, e.icmp(st, 'eq', x, y, I8)) == 1 for x, y in zip(cn, U('other', 2)))
                    rep.check('refused', null or same, title, 'sasl.c:sasl_scram', 'a challenge that is not acceptable is answered')
                    yes += 1
                    continue
                if null:
                    rep.check('scram', bool(st.g.get('undecoded')), title, 'sasl.c:sasl_scram', 'no answer to a valid challenge')
                    continue
                yes += 1
                got = R.pieces(subst(st, content(st, st.ret)))
                salt = [R.atom(App('unb64', subst(st, merge(tuple(App('chr', x) for x in sa)))))]
                pwb = [R.byte(x) for x in pw] if pw is not None else [R.atom(S(Sym('LONGpw', tag='name')))]
                B = lambda cells: [R.byte(x) for x in cells]
                cf = R.lit(b'c=') + B(cb) + R.lit(b',') + B(rr)
                am = B(first) + R.lit(b',') + B(chal) + R.lit(b',') + cf
                salted = R.hi(nm, pwb, salt, int(it))
                ck = R.hmac(nm, salted, R.lit(b'Client Key'))
                sig = R.hmac(nm, R.hash(nm, ck), am)
                proof = [R.xor(a, b) for a, b in zip(ck, sig)]
                want = R.b64(cf + R.lit(b',p=') + R.b64(proof))
                rep.check('scram', got == want, title, 'sasl.c:sasl_scram', 'the message is not c=..,r=..,p=proof of RFC 5802: %s' % diff(R, got, want))
            if not yes:
                rep.check('scram', False, title, 'sasl.c:sasl_scram', 'no answer is made')


def su2(e, st, cn, sn, us, sa, cb, pw):
    avoid(e, st, cn + sn + us + U('other', 2) + U('ext', 1), b',=')
    avoid(e, st, sa, b',')
    avoid(e, st, cb, b'')
    avoid(e, st, pw or [], b'')


def diff(R, a, b):
    if len(a) == 1 and len(b) == 1 and R.inv(a[0])[0] == R.inv(b[0])[0] == 'b64':
        return diff(R, list(R.inv(a[0])[1]), list(R.inv(b[0])[1]))
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            if R.inv(x)[0] == R.inv(y)[0] == 'b64':
                return 'at %d: %s' % (i, diff(R, list(R.inv(x)[1]), list(R.inv(y)[1])))
            return 'at %d of %d: %s instead of %s' % (i, len(b), R.show(x), R.show(y))
    return 'length %d instead of %d' % (len(a), len(b))


def sure(st):
    return [x for x in alarms(st) + st.events('oob') if getattr(x, 'sure', True)]


def iterations(rep, P):
    """an unknown iteration count: a path that makes the message of k iterations must have established that the count is k"""
    R = Ids()
    nm = 'sha1'
    gs = [x for x in alg_globals(P) if x[0] == nm and not x[1]]
    for _, _, gmod, gname in gs[:1]:
        title = gname + ', any iteration count'
        e = engine(P=P)
        e.dedupe = False
        N = Sym('iterations', 64, 1, (1 << 31) - 1)

        def num(e, st, a, ins):
            if len(a) > 1 and st.isnull(a[1]) is not True:
                st.store(a[1], e.padd(st, a[0], 1), 8)
            return N if ins.ty.w == 64 else e.trunc(st, N, 64, ins.ty.w) if hasattr(ins, 'ty') and ins.ty is not None and ins.ty.k == 'int' else N
        for k in ('strtol', 'strtoul', 'strtoll', 'strtoull', '__isoc23_strtol', '__isoc23_strtoul', '__isoc23_strtoll', '__isoc23_strtoull', 'atoi', 'atol', 'atoll'):
            e.models[k] = num
        o = e.models['crypto_SHA1_Final']
        left = []

        def fin(e, st, a, ins):
            k = st.g['fins'] = st.g.get('fins', 0) + 1
            if k > 2 * (4 + 3):
                left.append(st.facts.range(st.norm(N)))
                return []
            return o(e, st, a, ins)
        e.models['crypto_SHA1_Final'] = fin
        cn, sn, sa, us, cb, pw = U('cnonce', 2), U('snonce', 2), U('salt', 2), U('user', 2), U('cbind', 2), U('pw', 2)
        rr = list(b'r=') + cn + sn
        chal = rr + list(b',s=') + sa + list(b',i=') + U('it', 2)
        first = list(b'n=') + us + list(b',r=') + cn
        T = lambda cells: lambda st: btext(st, e, 'arg', cells)

        def su(st):
            su2(e, st, cn, sn, us, sa, cb, pw)
            avoid(e, st, U('it', 2), b',=')
        sts = e.start(P.func('sasl_scram'), [CXA, lambda st: e.gval(st, gmod, gname), T(cb), T(chal), T(first), Sym('jid', tag='nonnull'), T(pw)], su)
        rep.engine(e, len(sts))
        B = lambda cells: [R.byte(x) for x in cells]
        want = {}
        for k in range(1, 6):
            salt = [R.atom(App('unb64', merge(tuple(App('chr', x) for x in sa))))]
            cf = R.lit(b'c=') + B(cb) + R.lit(b',') + B(rr)
            am = B(first) + R.lit(b',') + B(chal) + R.lit(b',') + cf
            ck = R.hmac(nm, R.hi(nm, B(pw), salt, k), R.lit(b'Client Key'))
            proof = [R.xor(a, b) for a, b in zip(ck, R.hmac(nm, R.hash(nm, ck), am))]
            want[tuple(R.b64(cf + R.lit(b',p=') + R.b64(proof)))] = k
        n = 0
        for st in sts:
            if st.status != 'done':
                continue
            lo, hi = st.facts.range(st.norm(N))
            if st.isnull(st.ret) is True:
                if not st.g.get('undecoded'):
                    rep.check('count', False, title, 'sasl.c:sasl_scram', 'no answer for an iteration count of %d..%d' % (lo, hi))
                continue
            n += 1
            k = want.get(tuple(R.pieces(subst(st, content(st, st.ret)))))
            rep.check('count', k is not None and (lo, hi) == (k, k), title, 'sasl.c:sasl_scram',
                      'for an iteration count of %d..%d the message is that of %s iterations' % (lo, hi, k))
        for lo, hi in left:
            rep.check('count', lo == hi or hi == (1 << 31) - 1, title, 'sasl.c:sasl_scram', 'counts of %d..%d are treated apart from the others' % (lo, hi))
        if n < 2:
            rep.check('count', False, title, 'sasl.c:sasl_scram', 'no answer is made')


def plain(rep, P):
    R = Ids()
    for nu, np in ((2, 3), (1, 0), (0, 1), ('LONG', 'LONG')):
        title = 'user of %s bytes, password of %s bytes' % (nu, np)
        e = engine(P=P)
        us, pw = (U('user', nu), U('pw', np)) if nu != 'LONG' else (None, None)
        S1, S2 = S(Sym('LONGuser', tag='name')), S(Sym('LONGpw', tag='name'))

        def arg(cells, t):
            if cells is not None:
                return lambda st: btext(st, e, 'arg', cells)

            def f(st):
                st.facts.assume_range(Len(t), 1, 1 << 20)
                return Ptr(heap_str(st, (t,), 'arg').id, 0)
            return f
        sts = e.start(P.func('sasl_plain'), [CXA, arg(us, S1), arg(pw, S2)], lambda st: avoid(e, st, (us or []) + (pw or []), b''))
        rep.engine(e, len(sts))
        yes = 0
        for st in sts:
            if st.status != 'done':
                continue
            al = sure(st)
            rep.check('memory', not al, title, 'sasl.c:sasl_plain', str(al[:1]))
            if st.isnull(st.ret) is True:
                rep.check('plain', bool(st.g.get('oom')), title, 'sasl.c:sasl_plain', 'no message is made')
                continue
            yes += 1
            got = R.pieces(subst(st, content(st, st.ret)))
            B = lambda c, t: [R.byte(x) for x in c] if c is not None else [R.atom(t)]
            want = R.b64([R.const(0)] + B(us, S1) + [R.const(0)] + B(pw, S2))
            rep.check('plain', got == want, title, 'sasl.c:sasl_plain', 'the message is not [NUL] authcid NUL passwd of RFC 4616: ' + diff(R, got, want))
        if not yes:
            rep.check('plain', False, title, 'sasl.c:sasl_plain', 'no message is made')


# DIGEST-MD5 ----------------------------------------------------------------

def quote(cells):
    out = [34]
    for c in cells:
        out += [92] * (c in (34, 92)) + [c]
    return out + [34]


def fields(R, ids):
    """name=value pairs of a list of byte numbers; None when malformed"""
    out = {}
    i = 0

    def ch(j):
        k = R.inv(ids[j]) if j < len(ids) else ('end',)
        return k[1] if k[0] == 'c' else None
    while i < len(ids):
        n = b''
        while ch(i) is not None and ch(i) != 61:
            n += bytes([ch(i)])
            i += 1
        if ch(i) != 61:
            return None, 'a field without ='
        i += 1
        v = []
        q = ch(i) == 34
        if q:
            i += 1
            while i < len(ids) and ch(i) != 34:
                if ch(i) == 92:
                    i += 1
                if i < len(ids):
                    v.append(ids[i])
                i += 1
            if i >= len(ids):
                return None, 'a quote that does not end'
            i += 1
        else:
            while i < len(ids) and ch(i) != 44:
                v.append(ids[i])
                i += 1
        n = n.decode('latin1').strip()
        if n in out:
            return None, 'the field %s twice' % n
        out[n] = (q, v)
        if i < len(ids):
            if ch(i) != 44:
                return None, 'no comma after %s' % n
            i += 1
            if i == len(ids):
                return None, 'a comma at the end'
    return out, None


QUOTED = {'username': True, 'realm': True, 'nonce': True, 'cnonce': True, 'nc': False, 'qop': None, 'digest-uri': True, 'response': False,
          'charset': False, 'algorithm': None, 'authzid': True}


def digest(rep, P):
    R = Ids()
    no, rl, cn, nd, dm, pw = U('nonce', 2), U('realm', 2), U('cnonce', 12), U('node', 2), U('dom', 2), U('pw', 2)
    q = lambda c: [34] + list(c) + [34]
    N = list(b'nonce=')
    A = list(b',qop=\"auth\",charset=utf-8,algorithm=md5-sess')
    # title, challenge, nonce, realm, qops, charset offered
    cases = [
        ('nonce and realm', N + q(no) + list(b',realm=') + q(rl) + A, no, rl, True),
        ('no realm', N + q(no) + A, no, dm, True),
        ('an empty realm', list(b'realm="",') + N + q(no) + A, no, dm, True),
        ('other order, spaces', list(b'qop="auth", charset=utf-8,  algorithm=md5-sess,realm=') + q(rl) + list(b', ') + N + q(no), no, rl, True),
        ('several qops', N + q(no) + list(b',qop="auth-int,auth",algorithm=md5-sess'), no, dm, False),
        ('several qops with spaces', N + q(no) + list(b',qop="auth-conf, auth, auth-int",algorithm=md5-sess'), no, dm, False),
        ('no qop', N + q(no) + list(b',algorithm=md5-sess'), no, dm, False),
        ('a qop without quotes', N + q(no) + list(b',qop=auth,algorithm=md5-sess'), no, dm, False),
        ('unknown fields', list(b'x=1,') + N + q(no) + list(b',qop="auth",maxbuf=65536,cipher="rc4",algorithm=md5-sess,y="z"'), no, dm, False),
        ('a realm with quoted pairs', N + q(no) + list(b',realm="a\\"b\\\\c",qop="auth",algorithm=md5-sess'), no, list(b'a"b\\c'), False),
        ('a nonce with an equals sign and a comma', N + q(no + list(b'=,=') + no) + A, no + list(b'=,=') + no, dm, True),
        ('a nonce with spaces', N + q(list(b' ') + no) + A, list(b' ') + no, dm, True),
        ('no nonce', list(b'realm="r"') + A, None, None, True),
        ('nothing', [], None, None, False),
    ]
    for title, chal, nonce, realm, cset in cases:
        for vn, node in (('', nd),) + ((('; a user with a quote', list(b'a\"b\\')),) if title == 'nonce and realm' else ()):
            t = 'challenge with ' + title + vn
            e = engine(P=P)
            e.dedupe = False
            T = lambda c: lambda st: btext(st, e, 'arg', c)
            e.models['xmpp_base64_decode_str'] = lambda e, st, a, ins: btext(st, e, 'dec', chal)
            e.models['xmpp_jid_node'] = lambda e, st, a, ins: btext(st, e, 'node', node)
            e.models['xmpp_jid_domain'] = lambda e, st, a, ins: btext(st, e, 'dom', dm)

            def rn(e, st, a, ins):
                n = st.norm(a[2])
                k = st.g.get('nonces', 0)
                st.g['nonces'] = k + 1
                if type(n) is not int or n < 9:
                    st.ev('small-nonce', n=n)
                    return []
                bs = U('cnonce' if not k else 'cnonce%d' % k, n - 1)
                avoid(e, st, bs, b'\"\\,= ')
                put_pieces(st, a[1], tuple(App('chr', x) for x in bs) + (b'\0',))
                st.g['cn'] = bs
            e.models['xmpp_rand_nonce'] = rn
            sts = e.start(P.func('sasl_digest_md5'), [CXA, T([65]), Sym('jid', tag='nonnull'), T(pw)],
                          lambda st: avoid(e, st, no + rl + nd + dm + pw, b'"\\,= \t\''))
            rep.engine(e, len(sts))
            yes = 0
            for st in sts:
                if st.status in ('abort',):
                    rep.check('digest', False, t, 'sasl.c:sasl_digest_md5', 'aborts')
                if st.status != 'done':
                    continue
                yes += 1
                al = sure(st)
                rep.check('memory', not al, t, 'sasl.c:sasl_digest_md5', str(al[:1]))
                null = st.isnull(st.ret) is True
                if nonce is None:
                    rep.check('refused', null, t, 'sasl.c:sasl_digest_md5', 'a challenge without nonce is answered')
                    continue
                if null:
                    rep.check('digest', False, t, 'sasl.c:sasl_digest_md5', 'no answer to a valid challenge')
                    continue
                got = R.pieces(subst(st, content(st, st.ret)))
                k = R.inv(got[0]) if len(got) == 1 else ('?',)
                if k[0] != 'b64':
                    rep.check('digest', False, t, 'sasl.c:sasl_digest_md5', 'the answer is not base64 of a text')
                    continue
                f, err = fields(R, list(k[1]))
                if f is None:
                    rep.check('digest', False, t, 'sasl.c:sasl_digest_md5', 'the answer is not a list of fields: ' + err)
                    continue
                B = lambda c: [R.byte(x) for x in c]
                C = lambda *bs: sum([R.lit(x) if isinstance(x, bytes) else x for x in bs], [])
                cnb = B(st.g.get('cn') or [])
                nc = C(b'00000001')
                qop = C(b'auth')
                uri = C(b'xmpp/', B(dm))
                a1 = C(R.hash('md5', C(B(node), b':', B(realm), b':', B(pw))), b':', B(nonce), b':', cnb)
                a2 = C(b'AUTHENTICATE:', uri)
                resp = R.hexs(R.hash('md5', C(R.hexs(R.hash('md5', a1)), b':', B(nonce), b':', nc, b':', cnb, b':', qop, b':', R.hexs(R.hash('md5', a2)))))
                want = {'username': B(node), 'realm': B(realm), 'nonce': B(nonce), 'cnonce': cnb, 'nc': nc, 'qop': qop, 'digest-uri': uri, 'response': resp}
                for n, v in want.items():
                    g = f.get(n)
                    rep.check('digest', g is not None and g[1] == v, t + ': ' + n, 'sasl.c:sasl_digest_md5',
                              'the field %s is not that of RFC 2831: %s' % (n, diff(R, g[1], v) if g else 'missing'))
                cs = f.get('charset')
                rep.check('digest', (cs is None) if not cset else (cs is None or cs[1] == C(b'utf-8')), t + ': charset', 'sasl.c:sasl_digest_md5', 'charset is sent though the server did not offer it, or with another value')
                for n, (qd, v) in f.items():
                    if n in want or n == 'charset':
                        rep.check('digest', QUOTED[n] in (None, qd), t + ': form of ' + n, 'sasl.c:sasl_digest_md5', '%s has to be %s' % (n, 'quoted' if QUOTED[n] else 'without quotes'))
                    else:
                        rep.check('digest', n in QUOTED, t + ': ' + n, 'sasl.c:sasl_digest_md5', 'the field %s is not one of a response' % n)
                rep.check('nonce', st.g.get('nonces') == 1, t, 'sasl.c:sasl_digest_md5', 'the cnonce is not drawn once for this answer')
                if title == 'nonce and realm' and not vn:
                    s2 = st.copy()
                    s2.status = 'run'
                    s2.evs = ()
                    for s3 in e.start(P.func('sasl_digest_md5'), [CXA, T([65]), Sym('jid', tag='nonnull'), T(pw)], None, s2):
                        if s3.status == 'done' and s3.isnull(s3.ret) is not True:
                            k = R.inv(R.pieces(subst(s3, content(s3, s3.ret)))[0])
                            f, err = fields(R, list(k[1])) if k[0] == 'b64' else (None, None)
                            rep.check('nonce', s3.g.get('nonces') == 2 and f is not None and 'cnonce' in f and f['cnonce'][1] == B(s3.g['cn']), t + ', second attempt', 'sasl.c:sasl_digest_md5', 'the second attempt does not use a cnonce of its own')
            if not yes:
                rep.check('digest', False, t, 'sasl.c:sasl_digest_md5', 'no path ends')


# the exchange over a connection ---------------------------------------------

def auth_function(P):
    """the smallest function of one connection from which both the PLAIN message and the SCRAM channel binding are reached"""
    best = None
    for m in P.modules.values():
        for f in m.funcs.values():
            if not f.blocks or len(f.params) != 1:
                continue
            c = scan.closure(P, [f])
            if not any('sasl_plain' in scan.callees(P, g) for g in c.values()) or not any('tls_init_channel_binding' in scan.callees(P, g) for g in c.values()):
                continue
            if best is None or len(c) < best[0]:
                best = (len(c), f)
    if best is None:
        raise AnalysisBroken('no function starts the authentication')
    return best[1]


BITS = ('PLAIN', 'DIGESTMD5', 'ANONYMOUS', 'SCRAMSHA1', 'SCRAMSHA256', 'SCRAMSHA512', 'EXTERNAL', 'SCRAMSHA1_PLUS', 'SCRAMSHA256_PLUS', 'SCRAMSHA512_PLUS')
SASL = 'urn:ietf:params:xml:ns:xmpp-sasl'


def conn_auth(P, node, jid, chal=None, tlsver=0, reused=0, cblen=None):
    """engine for the functions of auth.c, texts of the peer and of the user being lists of bytes"""
    m = auth_models()
    m.update(auth_m())
    for k in ('sasl_plain', 'sasl_digest_md5', 'sasl_scram', 'tls_init_channel_binding', 'tls_get_channel_binding_data'):
        m.pop(k, None)
    e = conn_engine(P, m, max_paths=20000, max_steps=10 ** 9)
    e.loopk = 300
    e.bounds = True
    e.peekbytes = True
    e.dedupe = False
    e.load_hooks = list(e.load_hooks) + [table_load(e)]
    M = e.models
    M['xmpp_base64_decode_str'] = lambda e, st, a, ins: btext(st, e, 'dec', chal) if chal is not None else NotImplemented
    M['xmpp_jid_node'] = (lambda e, st, a, ins: btext(st, e, 'node', node)) if node is not None else lambda e, st, a, ins: 0
    M['xmpp_jid_domain'] = lambda e, st, a, ins: btext(st, e, 'dom', U('dom', 2))
    M['xmpp_conn_is_secured'] = M.get('xmpp_conn_is_secured')
    if M['xmpp_conn_is_secured'] is None:
        del M['xmpp_conn_is_secured']

    def rn(e, st, a, ins):
        n = st.norm(a[2])
        k = st.g.get('nonces', 0)
        st.g['nonces'] = k + 1
        if type(n) is not int or n < 9:
            st.ev('small-nonce', n=n)
            return []
        bs = U('cnonce%d' % k, n - 1)
        avoid(e, st, bs, b'"\\,= ')
        put_pieces(st, a[1], tuple(App('chr', x) for x in bs) + (b'\0',))
        st.g['cn'] = bs
    M['xmpp_rand_nonce'] = rn
    M['SSL_version'] = lambda e, st, a, ins: tlsver
    M['SSL_session_reused'] = lambda e, st, a, ins: reused
    M['SSL_get_version'] = lambda e, st, a, ins: st.fresh('ver', 64, tag='nonnull')

    def fin(kind, size):
        def f(e, st, a, ins):
            n = st.norm(a[2])
            if type(n) is int:
                put_pieces(st, a[1], tuple(App('chr', x) for x in U(kind, size)[:n]))
            return size
        return f
    size = 36 if tlsver == 0x300 else 12
    M['SSL_get_finished'] = fin('ownfinished', size)
    M['SSL_get_peer_finished'] = fin('peerfinished', size)

    def export(e, st, a, ins):
        n, ln = st.norm(a[2]), st.norm(a[4])
        lab = content(st, a[3], ln)
        if type(n) is not int or lab is None:
            return []
        ctxlen = st.norm(a[6]) if st.norm(a[7]) != 0 else 0
        put_pieces(st, a[1], tuple(App('chr', x) for x in U('exported %d %r %r' % (n, lab, ctxlen), n)))
        o = st.copy()
        o.g['no-cb'] = True
        return [(st, 1), (o, 0)]
    M['SSL_export_keying_material'] = export
    return e


def cells_of(R, st, txt):
    return R.pieces(subst(st, txt)) if isinstance(txt, tuple) else None


def start_auth(rep, P, bits, node, jid, pw, chal=None, tlsver=0, reused=0, secured=0, prep=None, **fields):
    e = conn_auth(P, node, jid, chal, tlsver, reused)
    mask = sum(1 << BITS.index(b) for b in bits)

    def su(st):
        type_conn(e, st)
        st.g['root'] = 'auth'
        for f in ('tls_support', 'tls_mandatory', 'tls_failed'):
            setf(e, st, '_xmpp_conn_t', CONN, f, 0)
        setf(e, st, '_xmpp_conn_t', CONN, 'secured', secured)
        setf(e, st, '_xmpp_conn_t', CONN, 'sasl_support', mask)
        setf(e, st, '_xmpp_conn_t', CONN, 'type', P.enums['XMPP_CLIENT'])
        for k, v in fields.items():
            setf(e, st, '_xmpp_conn_t', CONN, k, v)
        if secured:
            setf(e, st, '_xmpp_conn_t', CONN, 'tls', Sym('tlsobj', tag='nonnull'), 8)
        else:
            setf(e, st, '_xmpp_conn_t', CONN, 'tls', 0, 8)
        setf(e, st, '_xmpp_conn_t', CONN, 'jid', btext(st, e, 'jid', jid), 8)
        setf(e, st, '_xmpp_conn_t', CONN, 'pass', btext(st, e, 'pw', pw) if pw is not None else 0, 8)
        avoid(e, st, [x for x in (node or []) + jid + (pw or []) if not isinstance(x, int)] + U('dom', 2) + U('snonce', 2) + U('salt', 2) + U('nonce', 2) + U('realm', 2), b'",=\\@/ \t\'')
        if prep:
            prep(e, st)
    sts = e.start(auth_function(P), [CONN], su)
    rep.engine(e, len(sts))
    return e, sts


def exchange(rep, P):
    R = Ids()
    E = P.enums
    # jids and users
    nd, dm, rs, pw = U('node', 2), U('dom', 2), U('res', 2), U('pw', 3)
    JID = nd + [64] + dm + [47] + rs
    sn, sa = U('snonce', 2), U('salt', 2)
    W = 'auth.c'
    B = lambda c: [R.byte(x) for x in c]

    def sends(st):
        return [x for x in st.events('send', 'send_raw')]

    def one(st, title, mech, rid):
        """the single <auth/> of the path"""
        ev = sends(st)
        if len(ev) != 1 or ev[0].kind != 'send':
            rep.check(rid, False, title, W, '%d messages instead of one <auth/>' % len(ev))
            return None
        z = ev[0].stanza
        rep.check(rid, z.name == 'auth' and z.attrs.get('xmlns') == SASL and z.attrs.get('mechanism') == mech, title, W, 'instead of <auth mechanism=%s/>: %r' % (mech, z.name))
        return z

    def failed(st):
        return bool(st.g.get('oom') or st.g.get('no-cb') or st.g.get('undecoded'))

    def mem(st, title):
        al = sure(st)
        rep.check('memory', not al, title, W, str(al[:1]))

    # SCRAM
    for nm, plus, gmod, gname in alg_globals(P):
        mech = {v: k for k, v in ALGS.items()}[nm] + ('-PLUS' if plus else '')
        bit = mech.replace('SCRAM-SHA-', 'SCRAMSHA').replace('-PLUS', '_PLUS')
        variants = []
        if plus:
            variants = [(0x304, 0, 1, nd), (0x303, 0, 1, nd), (0x303, 1, 1, nd), (0x302, 0, 1, nd), (0x301, 0, 1, nd), (0x300, 0, 1, nd), (0x300, 1, 1, nd), (0x305, 0, 1, nd), (0, 0, 0, nd)]
        else:
            variants = [(0, 0, 0, nd), (0x303, 0, 1, nd), (0, 0, 0, [nd[0], 61, nd[1], 44]), (0, 0, 0, [44, 61, 61, nd[0]]), (0, 0, 0, U('node', 40))]
        for ver, reused, secured, node in variants:
            title = '%s, TLS %#x%s%s' % (mech, ver, ' resumed' if reused else '', '' if node is nd else ', user with special characters' if len(node) < 40 else ', long user')
            jid = list(node) + [64] + dm
            e, sts = start_auth(rep, P, [bit], node, jid, pw, None, ver, reused, secured)
            yes = 0
            for st in sts:
                if st.status == 'abort':
                    rep.check('first', False, title, W, 'aborts')
                if st.status != 'done':
                    continue
                mem(st, title)
                if plus and (not secured or ver == 0x305) or st.g.get('no-cb'):
                    rep.check('refused', not sends(st), title, W, 'a -PLUS mechanism is used without channel binding data')
                    yes += 1
                    continue
                if failed(st):
                    rep.check('refused', not sends(st), title, W, 'something is sent after a failure')
                    continue
                z = one(st, title, mech, 'first')
                if z is None:
                    continue
                yes += 1
                rep.check('nonce', st.g.get('nonces') == 1, title, W, 'the nonce is not drawn once for this attempt')
                esc = []
                for x in node:
                    esc += R.lit(b'=3D') if x == 61 else R.lit(b'=2C') if x == 44 else [R.byte(x)]
                cn = B(st.g.get('cn') or [])
                fb = R.lit(b'n=') + esc + R.lit(b',r=') + cn
                if plus:
                    gs2s = [R.lit(b'p=tls-exporter,,' if ver == 0x304 else b'p=tls-unique,,')]
                    cb = B(U("exported 32 (b'EXPORTER-Channel-Binding',) 0", 32)) if ver == 0x304 else B(U('peerfinished' if reused else 'ownfinished', 36 if ver == 0x300 else 12))
                else:
                    gs2s = [R.lit(b'y,,'), R.lit(b'n,,')] if secured else [R.lit(b'n,,')]
                    cb = []
                got = cells_of(R, st, z.textof())
                gs2 = [g for g in gs2s if got == R.b64(g + fb)]
                rep.check('first', bool(gs2), title, W, 'the first message is not gs2-header,n=user,r=nonce of RFC 5802: %s' % diff(R, got or [], R.b64(gs2s[0] + fb)))
                if not gs2:
                    continue
                adds = [x for x in st.events('handler_add') if isinstance(x.fn, Fn) and x.fn.f is not None and len(x.fn.f.params) == 3]
                if len(adds) != 1:
                    rep.check('final', False, title, W, 'no handler for the challenge')
                    continue
                if node is nd:
                    # another attempt of the same process draws another nonce
                    s2 = st.copy()
                    s2.status = 'run'
                    s2.evs = ()
                    setf(e, s2, '_xmpp_conn_t', CONN, 'sasl_support', 1 << BITS.index(bit))
                    for s3 in e.start(auth_function(P), [CONN], None, s2):
                        if s3.status == 'done' and not failed(s3) and sends(s3):
                            t = cells_of(R, s3, sends(s3)[0].stanza.textof())
                            fb2 = R.lit(b'n=') + esc + R.lit(b',r=') + B(s3.g.get('cn') or [])
                            rep.check('nonce', s3.g.get('nonces') == 2 and t in [R.b64(g + fb2) for g in gs2s], title + ', second attempt', W, 'the second attempt does not use a nonce of its own')
                scram_final(rep, P, R, e, st, adds[0], title, nm, node, pw, fb, gs2[0] + cb, cn, sn, sa)
            if not yes:
                rep.check('first', False, title, W, 'nothing is sent')

    def each(title, bits, node, jid, pw, rid, prep=None, **kw):
        e, sts = start_auth(rep, P, bits, node, jid, pw, prep=prep, **kw)
        n = 0
        for st in sts:
            if st.status == 'abort':
                rep.check(rid, False, title, W, 'aborts')
            if st.status != 'done':
                continue
            mem(st, title)
            n += 1
            yield e, st
        if not n:
            rep.check(rid, False, title, W, 'no path ends')

    # PLAIN
    for node, p in ((nd, pw), (nd, []), (U('node', 1), U('pw', 30))):
        title = 'PLAIN, user of %d bytes, password of %d' % (len(node), len(p))
        for e, st in each(title, ['PLAIN'], node, node + [64] + dm, p, 'plain'):
            z = one(st, title, 'PLAIN', 'plain')
            if z is not None:
                got, want = cells_of(R, st, z.textof()) or [], R.b64([R.const(0)] + B(node) + [R.const(0)] + B(p))
                rep.check('plain', got == want, title, W, 'not [NUL] node NUL password: ' + diff(R, got, want))
    # ANONYMOUS: the library chooses no trace information
    title = 'ANONYMOUS'
    for e, st in each(title, ['ANONYMOUS'], None, dm, None, 'identity'):
        z = one(st, title, 'ANONYMOUS', 'identity')
        if z is not None:
            t = cells_of(R, st, z.textof()) if z.textof() else []
            rep.check('identity', t in ([], R.lit(b'=')), title, W, 'ANONYMOUS carries an identity')
    # EXTERNAL
    other = U('otherjid', 3)
    for num, addr, pre, may in ((1, 'same', None, ('=',)), (2, 'same', None, ('jid',)), (1, 'other', None, ('jid',)), (2, 'other', None, ('jid',)), (1, 'prefix', None, ('jid',)), (1, 'longer', None, ('jid',)), (0, None, None, ('=', 'jid'))):
        title = 'EXTERNAL, %d addresses in the certificate, the first %s' % (num, addr)
        for jid in (JID, nd + [64] + dm):
            ad = {'same': jid, 'other': other, 'prefix': jid[:-1], 'longer': jid + [0x41], None: None}[addr]

            def prep(e, st):
                e.models['tls_id_on_xmppaddr'] = lambda e, s, a, ins: (btext(s, e, 'addr', ad) if ad is not None and s.norm(a[1]) == 0 else 0)
                e.models['tls_id_on_xmppaddr_num'] = lambda e, s, a, ins: num
                e.models['strcmp'] = m_strcmp_units
                if addr == 'other':
                    avoid(e, st, other, b'@')
            for e, st in each(title, ['EXTERNAL'], nd, jid, None, 'identity', prep=prep, secured=1, tlsver=0x303):
                z = one(st, title, 'EXTERNAL', 'identity')
                if z is None:
                    continue
                t = cells_of(R, st, z.textof())
                ok = [w for w in may if t == (R.lit(b'=') if w == '=' else R.b64(B(jid)))]
                rep.check('identity', bool(ok), title, W, 'EXTERNAL with the identity %s instead of %s' % ('=' if t == R.lit(b'=') else 'another text', ' or '.join(may)))
    # DIGEST-MD5
    title = 'DIGEST-MD5'

    def prepd(e, st):
        e.models['sasl_digest_md5'] = sasl_term('digest')
    for e, st in each(title, ['DIGESTMD5'], nd, nd + [64] + dm, pw, 'digest', prep=prepd):
        z = one(st, title, 'DIGEST-MD5', 'digest')
        if z is None:
            continue
        rep.check('digest', not z.textof(), title, W, 'an initial response')
        adds = [x for x in st.events('handler_add') if isinstance(x.fn, Fn) and x.fn.f is not None and len(x.fn.f.params) == 3]
        ok = 0
        for a in adds:
            for s in answer(rep, e, st, a, title, U('any', 2)):
                if s.status != 'done':
                    continue
                for ev in s.events('send'):
                    z2 = ev.stanza
                    rep.check('digest', z2.name == 'response' and z2.attrs.get('xmlns') == SASL, title, W, 'not a <response/>')
                    cs = [x for x in s.evs_list() if x.kind == 'sasl_digest'] if hasattr(s, 'evs_list') else s.events('sasl_digest')
                    t = z2.textof()
                    want = [x for x in (t or ()) if isinstance(x, Term) and 'sasl_digest' in repr(x)]
                    rep.check('digest', len(cs) == 1 and len(t or ()) == 1 and len(want) == 1, title, W, 'the response is not the answer to the challenge')
                    for c in cs:
                        j, pwd = content(s, c.args[2]), content(s, c.args[3])
                        rep.check('digest', R.pieces(subst(s, j or ())) == B(nd + [64] + dm) and R.pieces(subst(s, pwd or ())) == B(pw), title, W, 'computed for another user or password')
                        ct = content(s, c.args[1])
                        rep.check('digest', ct is not None and 'textof(chstanza' in repr(ct), title, W, 'computed for another text than that of the challenge: %r' % (ct,))
                        ok += 1
                    # rspauth
                    adds2 = [x for x in s.events('handler_add') if isinstance(x.fn, Fn) and x.fn.f is not None and len(x.fn.f.params) == 3]
                    for a2 in adds2:
                        if a2.fn.f is a.fn.f:
                            continue
                        for s2 in answer(rep, e, s, a2, title + ', rspauth', U('any', 2)):
                            if s2.status == 'done':
                                for ev2 in s2.events('send'):
                                    rep.check('digest', ev2.stanza.name == 'response' and not ev2.stanza.textof(), title + ', rspauth', W, 'rspauth is not answered by an empty response')
        if not ok:
            rep.check('digest', False, title, W, 'a challenge is not answered')
    # jabber:iq:auth
    for res in (True, False):
        title = 'jabber:iq:auth, ' + ('a resource' if res else 'no resource')

        def prepl(e, st):
            e.models['xmpp_jid_resource'] = lambda e, s, a, ins: btext(s, e, 'res', rs) if res else 0
        for e, st in each(title, [], nd, JID if res else nd + [64] + dm, pw, 'legacy', prep=prepl, auth_legacy_enabled=1):
            ev = st.events('send')
            if not res:
                rep.check('legacy', not ev, title, W, 'a request without resource')
                continue
            if len(ev) != 1:
                rep.check('legacy', False, title, W, '%d messages' % len(ev))
                continue
            z = ev[0].stanza
            q = z.child('query')
            ok = z.name == 'iq' and z.attrs.get('type') == 'set' and z.attrs.get('id') and q is not None and q.attrs.get('xmlns') == 'jabber:iq:auth'
            rep.check('legacy', bool(ok), title, W, 'not an <iq type=set> with a query of jabber:iq:auth')
            if not ok:
                continue
            rep.check('legacy', sorted(k.name for k in q.kids) == ['password', 'resource', 'username'], title, W, 'not exactly username, password and resource')
            for n, want in (('username', nd), ('password', pw), ('resource', rs)):
                k = q.child(n)
                got = cells_of(R, st, k.textof()) if k is not None and k.textof() else None
                rep.check('legacy', got == B(want), title + ': ' + n, W, 'another %s' % n)
            ids = [x for x in st.events('handler_add') if x.how == 'id']
            rep.check('legacy', len(ids) == 1, title, W, 'no handler for the result')
    # component
    f = P.func('auth_handle_component_open')
    for sid, sec in ((U('sid', 3), pw), (U('sid', 1), []), (U('sid', 70), U('pw', 5))):
        title = 'component, stream id of %d bytes, secret of %d' % (len(sid), len(sec))
        e = conn_auth(P, None, dm)

        def su(st):
            type_conn(e, st)
            st.g['root'] = f.name
            setf(e, st, '_xmpp_conn_t', CONN, 'type', P.enums['XMPP_COMPONENT'])
            setf(e, st, '_xmpp_conn_t', CONN, 'stream_id', btext(st, e, 'sid', sid), 8)
            setf(e, st, '_xmpp_conn_t', CONN, 'pass', btext(st, e, 'pw', sec), 8)
            avoid(e, st, sid + sec, b'')
        sts = e.start(f, [CONN], su)
        rep.engine(e, len(sts))
        n = 0
        for st in sts:
            if st.status != 'done':
                continue
            mem(st, title)
            ev = sends(st)
            if len(ev) != 1:
                rep.check('component', False, title, W, '%d messages' % len(ev))
                continue
            n += 1
            hx = R.hexs(R.hash('sha1', B(sid) + B(sec)))
            if ev[0].kind == 'send':
                z = ev[0].stanza
                rep.check('component', z.name == 'handshake' and cells_of(R, st, z.textof()) == hx, title, W, 'not hex(SHA1(id secret))')
            else:
                got = R.pieces(subst(st, ev[0].data or ()))
                ok = any(got == R.lit(b'<handshake' + x + b'>') + hx + R.lit(b'</handshake>') for x in (b"", b" xmlns='jabber:component:accept'", b' xmlns="jabber:component:accept"'))
                rep.check('component', ok, title, W, 'not <handshake>hex(SHA1(id secret))</handshake>: %s' % diff(R, got, R.lit(b"<handshake xmlns='jabber:component:accept'>") + hx + R.lit(b'</handshake>')))
        if not n:
            rep.check('component', False, title, W, 'nothing is sent')


def m_strcmp_units(e, st, a, ins):
    return m_strncmp(e, st, [a[0], a[1], 1 << 20], ins)


def answer(rep, e, st, add, title, chal):
    """final states of the handler for a challenge with the given text"""
    st2 = st.copy()
    st2.status = 'run'
    st2.evs = ()
    e.models['xmpp_base64_decode_str'] = lambda e, s, a, ins: btext(s, e, 'dec', chal)
    e.models['xmpp_stanza_get_name'] = lambda e, s, a, ins: btext(s, e, 'name', list(b'challenge'))
    e.models['xmpp_stanza_get_ns'] = lambda e, s, a, ins: btext(s, e, 'ns', list(SASL.encode()))
    sts = e.start(add.fn.f, [CONN, Sym('chstanza', tag='nonnull'), add.ud], None, st2)
    rep.engine(e, len(sts))
    return sts


def scram_final(rep, P, R, e, st, add, title, nm, node, pw, fb, cbin, cn, sn, sa):
    B = lambda c: [R.byte(x) for x in c]
    W = 'auth.c'
    cnc = st.g['cn']
    chal = list(b'r=') + cnc + sn + list(b',s=') + sa + list(b',i=2')
    yes = 0
    for s in answer(rep, e, st, add, title, chal):
        if s.status == 'abort':
            rep.check('final', False, title, W, 'aborts on a challenge')
        if s.status != 'done':
            continue
        al = sure(s)
        rep.check('memory', not al, title + ' (challenge)', W, str(al[:1]))
        zs = [x.stanza for x in s.events('send')]
        zs = [z for z in zs if z.name == 'response']
        if not zs:
            continue
        yes += 1
        rep.check('final', len(zs) == 1 and zs[0].attrs.get('xmlns') == SASL, title, W, 'not one <response/> of the SASL namespace')
        rr = B(list(b'r=') + cnc + sn)
        salt = [R.atom(App('unb64', subst(s, merge(tuple(App('chr', x) for x in sa)))))]
        cf = R.lit(b'c=') + R.b64(cbin) + R.lit(b',') + rr
        am = fb + R.lit(b',') + B(chal) + R.lit(b',') + cf
        ck = R.hmac(nm, R.hi(nm, B(pw), salt, 2), R.lit(b'Client Key'))
        proof = [R.xor(a, b) for a, b in zip(ck, R.hmac(nm, R.hash(nm, ck), am))]
        want = R.b64(cf + R.lit(b',p=') + R.b64(proof))
        got = cells_of(R, s, zs[0].textof()) or []
        rep.check('final', got == want, title, W, 'the final message does not belong to this exchange: %s' % diff(R, got, want))
        rep.check('nonce', s.g.get('nonces') == 1, title + ' (challenge)', W, 'a second nonce in the same exchange')
    if not yes:
        rep.check('final', False, title, W, 'a challenge is not answered')


def nonce_rules(rep, P):
    """xmpp_rand_nonce: every character comes from a byte of the random source that no other character pair uses"""
    R = Ids()
    f = P.func('xmpp_rand_nonce')
    if 'getrandom' not in {c for g in scan.closure(P, [f]).values() for c in scan.callees(P, g)}:
        rep.notes.append('this build does not take its nonces from getrandom: their source is not judged')
        return
    for ln in (9, 13, 33, 34):
        for mode in ('full', 'short', 'interrupted'):
            title = 'nonce of %d bytes, getrandom %s' % (ln, mode)
            e = engine(P=P)
            e.dedupe = False

            def gr(e, st, a, ins):
                n = st.norm(a[1])
                k = st.g.get('draws', 0)
                st.g['draws'] = k + 1
                if type(n) is not int:
                    return []
                if mode == 'interrupted' and k == 0:
                    st.store(e.models['__errno_location'](e, st, [], None), 4, 4)
                    return (1 << 64) - 1
                if mode == 'short' and k == 0 and n > 1:
                    n -= 1
                put_pieces(st, a[0], tuple(App('chr', x) for x in U('random%d' % k, n)))
                return n
            e.models['getrandom'] = gr
            m = errno_model()
            e.models.update(m)
            buf = []

            def arg(st):
                o = st.new_obj('alloca', 'nonce', ln, 'undef')
                buf.append(o.id)
                return Ptr(o.id, 0)
            sts = e.start(f, [Sym('rand', tag='nonnull'), arg, ln])
            rep.engine(e, len(sts))
            n = 0
            for st in sts:
                if st.status != 'done':
                    continue
                n += 1
                al = sure(st)
                rep.check('memory', not al, title, 'rand.c:xmpp_rand_nonce', str(al[:1]))
                c = content(st, Ptr(buf[0], 0))
                ids = R.pieces(subst(st, c)) if c is not None else []
                src = set()
                ok = len(ids) >= (ln - 1) // 2 * 2 and len(set(ids)) == len(ids)
                for x in ids:
                    k = R.inv(x)
                    if k[0] in ('hx', 'tab'):
                        src.add(R.inv(k[1]) if k[0] == 'hx' else k[2])
                    elif k[0] == 't':
                        src.add(k[1])
                    else:
                        ok = False
                ok = ok and len(src) >= (ln - 1) // 2 and all('random' in repr(x) for x in src)
                rep.check('nonce', ok, title, 'rand.c:xmpp_rand_nonce', 'the nonce is not made of fresh random bytes: %s' % [R.show(x) for x in ids[:4]])
            if not n:
                rep.check('nonce', False, title, 'rand.c:xmpp_rand_nonce', 'no path ends')


def c07(rep):
    P = Program()
    R = rep.rule
    R('scram', 'the final message of SCRAM is that of RFC 5802 for the challenge', 30)
    R('refused', 'challenges without nonce, salt or iteration count, or with a foreign nonce, are not answered', 15)
    R('memory', 'no access outside of the buffers', 30)
    R('plain', 'the message of PLAIN is NUL authcid NUL password', 4)
    R('digest', 'the response to a DIGEST-MD5 challenge is that of RFC 2831', 100)
    R('nonce', 'a fresh nonce for every attempt', 10)
    R('count', 'the number of iterations is that of the challenge, whatever it is', 2)
    scram(rep, P)
    iterations(rep, P)
    plain(rep, P)
    digest(rep, P)
    R('first', 'the first message of SCRAM is gs2-header,n=user,r=nonce', 10)
    R('final', 'the answer to the challenge continues this exchange', 10)
    R('identity', 'EXTERNAL and ANONYMOUS carry the right identity', 7)
    R('legacy', 'jabber:iq:auth carries node, password and resource', 4)
    R('component', 'the handshake of a component is hex(SHA1(stream id secret))', 3)
    exchange(rep, P)
    nonce_rules(rep, P)
    rep.assumptions += ['the digests themselves are C17; the base64 codec is C18; SASLprep of user names and passwords is omitted by the library (as documented in scram.c) and not judged',
                        'a server that offers no -PLUS mechanism to a secured client may be sent the flag y or n']
    rep.notes.append('after a failed -PLUS mechanism the next attempt without channel binding sends the flag y; which flag is right there is not judged')
    return 'other', ('path-sensitive abstract interpretation of sasl_plain, sasl_digest_md5, sasl_scram (with scram.c inlined, for every algorithm description of the '
                     'program), the authentication step of auth.c together with the challenge handlers it registers, the component handshake and xmpp_rand_nonce; '
                     'texts of the user and the server are sequences of unknown bytes; digests are uninterpreted terms over their input, and every message is '
                     'compared, byte value by byte value, with the term the RFC prescribes; base64 decoding of the salt is an opaque term, so the salt has any length; '
                     'passwords of 0, 3, 5, block-1, block and more than block bytes; iteration counts 1..%d (the loop body is the same for the following ones)' % (3 if rep.tier == 'quick' else 6))
