"""C17: digests equal the standards, for every length and every split (value numbering)"""
import os
from concurrent.futures import ProcessPoolExecutor
from ir import Program, AnalysisBroken, size_of, resolve
import vn
from vn import *

# ------------------------------------------------------------------ the standards
# FIPS 180-4, RFC 1321.  Constants are derived, not copied from the sources analysed.


def _primes(n):
    r, k = [], 2
    while len(r) < n:
        if all(k % p for p in r if p * p <= k):
            r.append(k)
        k += 1
    return r


def _iroot(n, k):
    lo, hi = 0, 1 << (n.bit_length() // k + 1)
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** k <= n:
            lo = m
        else:
            hi = m - 1
    return lo


P80 = _primes(80)
K512 = [_iroot(p << 192, 3) & (2 ** 64 - 1) for p in P80]
K256 = [k >> 32 for k in K512[:64]]
H512 = [_iroot(p << 128, 2) & (2 ** 64 - 1) for p in P80[:8]]
H256 = [h >> 32 for h in H512]
HMD = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476]
HSHA1 = HMD + [0xc3d2e1f0]


def _sins():
    # floor(2^32 |sin i|), with exact rational arithmetic (Taylor series)
    from fractions import Fraction as F
    out = []
    for i in range(1, 65):
        t, s, n = F(i), F(i), 1
        while abs(t) > F(1, 1 << 80) or n < 2 * i:
            t = -t * i * i / ((n + 1) * (n + 2))
            n += 2
            s += t
        out.append(int(abs(s) * (1 << 32)))
    return out


KMD5 = _sins()


def be(bs):
    return join(list(reversed(bs)))


def unbe(v, w):
    return [byte(v, i, w) for i in reversed(range(w // 8))]


_cc = {}


def compress(alg, H, block):
    key = (alg, tuple(x if isinstance(x, int) else ('n', x.id) for x in H), tuple(x if isinstance(x, int) else ('n', x.id) for x in block))
    r = _cc.get(key)
    if r is None:
        r = _cc[key] = STEP[alg](H, block)
    return r


def sha1_step(H, bl):
    W = [be(bl[4 * i:4 * i + 4]) for i in range(16)]
    for t in range(16, 80):
        W.append(rol(xor(xor(W[t - 3], W[t - 8], 32), xor(W[t - 14], W[t - 16], 32), 32), 1, 32))
    a, b, c, d, e = H
    for t in range(80):
        if t < 20:
            f, k = xor(and_(b, c, 32), and_(not_(b, 32), d, 32), 32), 0x5a827999
        elif t < 40:
            f, k = xor(xor(b, c, 32), d, 32), 0x6ed9eba1
        elif t < 60:
            f, k = xor(xor(and_(b, c, 32), and_(b, d, 32), 32), and_(c, d, 32), 32), 0x8f1bbcdc
        else:
            f, k = xor(xor(b, c, 32), d, 32), 0xca62c1d6
        T = add(add(add(add(rol(a, 5, 32), f, 32), e, 32), k, 32), W[t], 32)
        a, b, c, d, e = T, a, rol(b, 30, 32), c, d
    return [add(x, y, 32) for x, y in zip(H, (a, b, c, d, e))]


def sha2_step(H, bl, w, K, s0, s1, S0, S1):
    n = w // 8

    def sg(x, r):
        return xor(xor(ror(x, r[0], w), ror(x, r[1], w), w), lshr(x, r[2], w) if len(r) == 4 else ror(x, r[2], w), w)
    W = [be(bl[n * i:n * i + n]) for i in range(16)]
    for t in range(16, len(K)):
        W.append(add(add(sg(W[t - 2], s1), W[t - 7], w), add(sg(W[t - 15], s0), W[t - 16], w), w))
    a, b, c, d, e, f, g, h = H
    for t in range(len(K)):
        ch = xor(and_(e, f, w), and_(not_(e, w), g, w), w)
        mj = xor(xor(and_(a, b, w), and_(a, c, w), w), and_(b, c, w), w)
        T1 = add(add(add(add(h, sg(e, S1), w), ch, w), K[t], w), W[t], w)
        T2 = add(sg(a, S0), mj, w)
        a, b, c, d, e, f, g, h = add(T1, T2, w), a, b, c, add(d, T1, w), e, f, g
    return [add(x, y, w) for x, y in zip(H, (a, b, c, d, e, f, g, h))]


def sha256_step(H, bl):
    return sha2_step(H, bl, 32, K256, (7, 18, 3, 's'), (17, 19, 10, 's'), (2, 13, 22), (6, 11, 25))


def sha512_step(H, bl):
    return sha2_step(H, bl, 64, K512, (1, 8, 7, 's'), (19, 61, 6, 's'), (28, 34, 39), (14, 18, 41))


def md5_step(H, bl):
    X = [join(bl[4 * i:4 * i + 4]) for i in range(16)]
    S = ((7, 12, 17, 22), (5, 9, 14, 20), (4, 11, 16, 23), (6, 10, 15, 21))
    a, b, c, d = H
    for i in range(64):
        r = i // 16
        if r == 0:
            f, g = xor(and_(b, c, 32), and_(not_(b, 32), d, 32), 32), i
        elif r == 1:
            f, g = xor(and_(d, b, 32), and_(not_(d, 32), c, 32), 32), (5 * i + 1) % 16
        elif r == 2:
            f, g = xor(xor(b, c, 32), d, 32), (3 * i + 5) % 16
        else:
            f, g = xor(c, or_(b, not_(d, 32), 32), 32), (7 * i) % 16
        t = add(add(add(a, f, 32), X[g], 32), KMD5[i], 32)
        a, b, c, d = d, add(b, rol(t, S[r][i % 4], 32), 32), b, c
    return [add(x, y, 32) for x, y in zip(H, (a, b, c, d))]


STEP = {'sha1': sha1_step, 'sha256': sha256_step, 'sha512': sha512_step, 'md5': md5_step}

ALGS = {
    # name: (init, update, final, one-shot, block, word bits, IV, digest bytes, length bytes, big endian, final(digest first))
    'sha1': ('crypto_SHA1_Init', 'crypto_SHA1_Update', 'crypto_SHA1_Final', 'crypto_SHA1', 64, 32, HSHA1, 20, 8, True, False),
    'sha256': ('sha256_init', 'sha256_process', 'sha256_done', 'sha256_hash', 64, 32, H256, 32, 8, True, False),
    'sha512': ('sha512_init', 'sha512_process', 'sha512_done', 'sha512_hash', 128, 64, H512, 64, 16, True, False),
    'md5': ('MD5Init', 'MD5Update', 'MD5Final', None, 64, 32, HMD, 16, 8, False, True),
}


def std(alg, msg, H=None, before=0):
    """digest (byte names) of msg, continuing from chaining value H after `before` bytes"""
    _, _, _, _, B, w, iv, dl, ll, big, _ = ALGS[alg]
    H = list(H or iv)
    bits = 8 * (before + len(msg))
    m = list(msg) + [0x80]
    while (len(m) + ll) % B:
        m.append(0)
    lb = [(bits >> (8 * i)) & 255 for i in range(ll)]
    m += reversed(lb) if big else lb
    for i in range(0, len(m), B):
        H = compress(alg, H, m[i:i + B])
    out = []
    for h in H:
        out += unbe(h, w) if big else [byte(h, i, w) for i in range(w // 8)]
    return out[:dl]


def chain(alg, H, msg):
    B = ALGS[alg][4]
    for i in range(0, len(msg), B):
        H = compress(alg, H, msg[i:i + B])
    return H


def hmac(alg, key, msg):
    B = ALGS[alg][4]
    k = list(key) if len(key) <= B else std(alg, key)
    k = k + [0] * (B - len(k))
    return std(alg, [xor(x, 0x5c, 8) for x in k] + std(alg, [xor(x, 0x36, 8) for x in k] + list(msg)))


# ------------------------------------------------------------------ transfer functions of what the code calls
def models():
    def m_memcpy(I, a):
        if not isinstance(a[2], int):
            raise Defect('copy of an unknown length')
        I.copy(a[0], a[1], a[2])
        return a[0]

    def m_memset(I, a):
        if not isinstance(a[2], int):
            raise Defect('fill of an unknown length')
        I.fill(a[0], trunc(a[1], 8), a[2])
        return a[0]

    def nop(I, a):
        return None

    def m_bswap(w):
        return lambda I, a: bswap(a[0], w)

    def m_fsh(w, left):
        def m(I, a):
            k = a[2] % w if isinstance(a[2], int) else None
            if k is None:
                raise AnalysisBroken('rotation by an unknown amount')
            if k == 0:
                return a[0] if left else a[1]
            if left:
                return or_(shl(a[0], k, w), lshr(a[1], w - k, w), w)
            return or_(shl(a[0], w - k, w), lshr(a[1], k, w), w)
        return m

    def m_alloc(I, a):
        n = a[-1]
        return Ptr(I.obj('heap block', n))

    def m_strlen(I, a):
        n = 0
        while True:
            c = I.load(Ptr(a[0].o, a[0].off + n), 1)
            if c == 0:
                return n
            if not isinstance(c, int) and c.k == 'a' and c.v[0] != 'hex':
                raise AnalysisBroken('length of text with named bytes')
            n += 1

    def text(I, p):
        out = b''
        while True:
            c = I.load(Ptr(p.o, p.off + len(out)), 1)
            if c == 0:
                return out.decode('latin1')
            out += bytes([c])

    def fmt(I, d, n, f, args):
        out = []
        i = 0
        args = list(args)
        while i < len(f):
            if f[i] != '%':
                out.append(ord(f[i]))
                i += 1
                continue
            sp = ''
            i += 1
            while f[i] not in 'xXducs%':
                sp += f[i]
                i += 1
            if f[i] != 'x' or sp.replace('hh', '') not in ('02', '.2'):
                raise AnalysisBroken('format %%%s%s' % (sp, f[i]))
            i += 1
            v = args.pop(0)
            v = trunc(v, 8) if isinstance(v, int) or support(v, 32) <= 255 else v
            if not isinstance(v, int) and v.w != 8:
                raise Defect('hexadecimal output of a value wider than a byte')
            out += hexb(v)
        k = min(len(out), n - 1) if n else 0
        for j in range(k):
            I.store(Ptr(d.o, d.off + j), 1, out[j])
        if n:
            I.store(Ptr(d.o, d.off + k), 1, 0)
        return len(out)

    def m_snprintf(I, a):
        return fmt(I, a[0], a[1], text(I, a[2]), a[3:])

    def m_sprintf(I, a):
        return fmt(I, a[0], 1 << 30, text(I, a[1]), a[2:])

    m = {'memcpy': m_memcpy, 'memmove': m_memcpy, 'memset': m_memset, 'strlen': m_strlen,
         'snprintf': m_snprintf, 'strophe_snprintf': m_snprintf, 'sprintf': m_sprintf,
         'strophe_alloc': m_alloc, 'malloc': m_alloc, 'strophe_free': nop, 'free': nop, 'explicit_bzero': lambda I, a: I.fill(a[0], 0, a[1])}
    for w in (16, 32, 64):
        m['llvm.bswap.i%d' % w] = m_bswap(w)
        m['llvm.fshl.i%d' % w] = m_fsh(w, True)
        m['llvm.fshr.i%d' % w] = m_fsh(w, False)
    for n in ('llvm.memcpy.p0.p0.i64', 'llvm.memmove.p0.p0.i64'):
        m[n] = m_memcpy
    m['llvm.memset.p0.i64'] = m_memset
    for n in ('llvm.lifetime.start.p0', 'llvm.lifetime.end.p0'):
        m[n] = nop
    return m


def hexb(v):
    """the two lowercase hexadecimal digits of a byte"""
    if isinstance(v, int):
        return [ord(c) for c in '%02x' % v]
    return [hexd(lshr(v, 4, 8)), hexd(and_(v, 15, 8))]


def hexd(n):
    if isinstance(n, int):
        return ord('0123456789abcdef'[n])
    return atom(('hex', n.id))


class H(Interp):
    def load(s, p, n):
        if isinstance(p, tuple) and p[0] == 'tab' and n == 1:
            t, i = p[1], p[3]
            m = support(i, i.w)
            vals = [s._raw(t.o, t.off + k, 1) for k in range(min(16, t.o.size - t.off))]
            if m == 15 and vals == [ord(c) for c in '0123456789abcdef']:
                return hexd(trunc(i, 8))
            return atom(('table', tuple(vals), i.id))
        return super().load(p, n)


# ------------------------------------------------------------------ the checks
_I = {}


def interp(alg):
    vn.restart(alg != 'sha512')
    _cc.clear()
    if 'p' not in _I:
        P = Program('default')
        _I['p'] = P
        _I['m'] = models()
    I = H(_I['p'], _I['m'])
    return I


def diff(alg, got, want):
    n = sum(1 for a, b in zip(got, want) if a != b)
    return n


class Alg:
    def __init__(s, I, name):
        s.I, s.name = I, name
        s.init, s.upd, s.fin, s.one, s.B, s.w, s.iv, s.dl, s.ll, s.big, s.df = ALGS[name]
        P = I.prog
        s.fi, s.fu, s.ff = P.func(s.init), P.func(s.upd), P.func(s.fin)
        s.f1 = P.func(s.one) if s.one and P.has(s.one) else None
        st = {'sha1': '', 'sha256': 'sha256_context', 'sha512': 'sha512_context', 'md5': 'MD5Context'}[name]
        s.size = s.ctxsize()

    def ctxsize(s):
        """size of the context type: the type indexed from the first parameter"""
        best = 0
        for f in (s.fi, s.fu, s.ff):
            for b in f.order:
                for i in f.blocks[b]:
                    if i.op == 'gep' and resolve(i.ty).k == 'struct':
                        best = max(best, size_of(i.ty))
        if not best:
            raise AnalysisBroken('context type of %s' % s.init)
        return best

    def ctx(s):
        return Ptr(s.I.obj('context', s.size))

    def Init(s, c):
        s.I.call(s.fi, [c])

    def Update(s, c, p, n):
        s.I.call(s.fu, [c, p, n])

    def Final(s, c):
        d = Ptr(s.I.obj('digest', s.dl))
        s.I.call(s.ff, [d, c] if s.df else [c, d])
        return s.I.bytes(d, s.dl)


def M(tag, off):
    return atom((tag, off))


def msg(I, tag, n, start=0):
    """object of n bytes m[start..]"""
    o = I.obj('message', n, lambda off: M(tag, start + off))
    o.const = True
    return Ptr(o)


def want_msg(tag, n, start=0):
    return [M(tag, start + i) for i in range(n)]


def run_split(A, parts, null_empty=False):
    I = A.I
    c = A.ctx()
    A.Init(c)
    off = 0
    for n in parts:
        A.Update(c, msg(I, 'm', n, off) if n or not null_empty else 0, n)
        off += n
    return A.Final(c)


def judge(A, fn, want, limit=8):
    """every path of fn yields the wanted names; returns None or a text"""
    try:
        for got in paths(A.I, fn, limit):
            if got != want:
                k = [i for i, (a, b) in enumerate(zip(got, want)) if a != b]
                return 'byte %d of the result has another value than the standard prescribes' % (k[0] if k else len(want))
    except Defect as e:
        w = getattr(A.I, 'where', None)
        return '%s%s' % (e, ' (in or after the call at %s:%d)' % (w[0].mod.name, w[1].line) if w else '')
    return None


def work(job):
    """(alg, list of (kind, lengths)) -> cases judged per kind, failures"""
    alg, cases = job
    I = interp(alg)
    A = Alg(I, alg)
    bad = []
    n = {}
    steps = 0
    for kind, case in cases:
        tot = sum(case)
        if kind in ('digest', 'split'):
            r = judge(A, lambda I: run_split(A, case), std(alg, want_msg('m', tot)))
        elif kind == 'one':
            def f(I):
                d = Ptr(I.obj('digest', A.dl))
                I.call(A.f1, [msg(I, 'm', case[0]), case[0], d])
                return I.bytes(d, A.dl)
            r = judge(A, f, std(alg, want_msg('m', case[0])))
        else:
            # two contexts used alternately, then the first one used again from Init
            def f(I):
                c1, c2 = A.ctx(), A.ctx()
                A.Init(c1)
                A.Init(c2)
                o1 = o2 = 0
                for n in case:
                    A.Update(c1, msg(I, 'm', n, o1), n)
                    o1 += n
                    A.Update(c2, msg(I, 'q', n + 1, o2), n + 1)
                    o2 += n + 1
                d1 = A.Final(c1)
                A.Init(c1)
                A.Update(c1, msg(I, 'r', 5), 5)
                d2 = A.Final(c2)
                return d1 + d2 + A.Final(c1)
            q = tot + len(case)
            r = judge(A, f, std(alg, want_msg('m', tot)) + std(alg, want_msg('q', q)) + std(alg, want_msg('r', 5)))
        n[kind] = n.get(kind, 0) + 1
        steps += I.steps
        if r:
            bad.append((kind, case, r))
            if len(bad) >= 2:
                break
    return alg, n, bad, steps


def split_cases(B, ll, tier):
    ns = set()
    for a in range(0, B + 1):
        # lengths of the second part: all boundaries of block, padding and their neighbours
        for k in (0, 1, 2):
            for e in (-ll - 2, -ll - 1, -ll, -ll + 1, -1, 0, 1):
                b = k * B + e - a
                if 0 <= b <= 3 * B:
                    ns.add((a, b))
        ns.add((a, 0))
        ns.add((a, 1))
        if tier == 'thorough':
            for b in range(0, 2 * B + 2):
                ns.add((a, b))
    out = sorted(ns, key=lambda x: (x[0] + x[1], x[0]))
    for x in (1, B - 1, B, B + 1):
        for y in (0, 1, B - 1, B):
            for z in (1, B - ll - 1, B + 1):
                out.append((x, 0, y, 0, z))
    out += [(1,) * n for n in (3, B - 1, B, B + 1)]
    out += [(0,), (0, 0), (0, 3, 0)]
    return out


def layout(A):
    """where a context keeps chaining value, length and partial block, found from what Init and
    Update leave in it: offsets of the chaining words; the length as [(offset, bytes)] low to high,
    with its unit"""
    I = A.I
    I.reset()
    c = A.ctx()
    A.Init(c)
    n = A.w // 8

    def snap():
        return {o: x for o, x in c.o.cells.items()}
    s0 = snap()
    st = {}
    for o, (k, v) in s0.items():
        if k == n and isinstance(v, int) and v in A.iv:
            st[A.iv.index(v)] = o
    if len(st) != len(A.iv):
        return None
    seq = [s0]
    for i in range(3):
        A.Update(c, msg(I, 'm', A.B, i * A.B), A.B)
        seq.append(snap())
    cnt = []
    for o, (k, v) in seq[0].items():
        if not isinstance(v, int) or k < 4 or o in st.values():
            continue
        vs = [q.get(o, (0, None)) for q in seq]
        if any(x[0] != k or not isinstance(x[1], int) for x in vs):
            continue
        d = {vs[i + 1][1] - vs[i][1] for i in range(3)}
        if len(d) == 1 and d != {0} and vs[0][1] == 0:
            cnt.append((o, k, d.pop()))
    if len(cnt) != 1:
        return None
    o, k, d = cnt[0]
    if d not in (A.B, 8 * A.B):
        return None
    words = [(o, k)]
    if k == 4:
        # the upper half: a neighbouring word that stays zero
        for o2 in (o + 4, o - 4):
            if all(q.get(o2) == (4, 0) for q in seq):
                words.append((o2, 4))
                break
        else:
            return None
    return [st[i] for i in range(len(A.iv))], words, d // A.B


def put_len(I, c, L, N):
    v = N * L[2]
    for o, k in L[1]:
        I._put(c.o, o, k, v & ((1 << 8 * k) - 1))
        v >>= 8 * k


def get_len(c, L):
    v = sh = 0
    for o, k in L[1]:
        x = c.o.cells.get(o)
        if x is None or x[0] != k or not isinstance(x[1], int):
            return None
        v |= x[1] << sh
        sh += 8 * k
    return v


def long_cases(A, L, tier):
    """(bytes already hashed, further updates)"""
    B = A.B
    out = []
    for e in (29, 32, 35, 60):
        for back in (B, 2 * B):
            for parts in ((1,), (B - 1,), (B, 0), (B + 1,), (2 * B, 7), (B - 9, 8, 1), (3 * B - A.ll - 1,), (3, 2 * B)):
                out.append(((1 << e) - back, parts))
        out.append(((1 << e), (5,)))
        if e < 60:
            out.append(((1 << e) * 3 + B, (5, B)))
    return out


def work_long(job):
    alg, cases = job
    I = interp(alg)
    A = Alg(I, alg)
    L = layout(A)
    if L is None:
        return alg, None, [], 0
    wn = A.w // 8
    bad = []
    n = 0
    for N, parts in cases or long_cases(A, L, 'quick'):
        Hn = [atom(('chain', i), A.w) for i in range(len(A.iv))]

        def f(I):
            c = A.ctx()
            A.Init(c)
            for o, h in zip(L[0], Hn):
                I._put(c.o, o, wn, h)
            put_len(I, c, L, N)
            off = 0
            for k in parts:
                A.Update(c, msg(I, 'm', k, off), k)
                off += k
            return A.Final(c)
        r = judge(A, f, std(alg, want_msg('m', sum(parts)), Hn, N))
        n += 1
        if r:
            bad.append(('long', (N,) + parts, r))
            break
    return alg, {'long': n}, bad, I.steps


# -- one update call with a huge length: the block loop is summarised by its linear effect
class Skip:
    """at the third visit of a loop head whose comparisons and integer variables move linearly,
    apply the effect of as many further rounds as leave every comparison unchanged"""

    def __init__(s, I, tag):
        s.I, s.tag = I, tag
        s.hist = {}
        s.done = 0

    def __call__(s, I, f, blk, env):
        if not s.isloop(f, blk):
            return
        key = (f.name, blk, I.depth)
        snap = {('v', k): v for k, v in env.items() if isinstance(v, (int, Ptr))}
        for o in s.objs:
            for off, (n, v) in o.cells.items():
                snap[('c', o, off, n)] = v
        h = s.hist.setdefault(key, [])
        h.append((snap, I.cmps.get(I.depth, [])))
        I.cmps[I.depth] = []
        if len(h) < 4:
            return
        h[:] = h[-4:]
        (a, _), (b, c1), (c, c2), (d, c3) = h
        if [x[0] for x in c1] != [x[0] for x in c2] or [x[0] for x in c2] != [x[0] for x in c3]:
            return
        T = None
        for (p, x1, y1, w), (_, x2, y2, _), (_, x3, y3, _) in zip(c1, c2, c3):
            dx, dy = x3 - x2, y3 - y2
            if dx != x2 - x1 or dy != y2 - y1:
                return
            if dx == dy:
                continue
            dd = (dx - dy) * (1 if p in ('ult', 'ule', 'slt', 'sle', 'ne', 'eq', 'ugt', 'uge', 'sgt', 'sge') else 1)
            g = x3 - y3
            if g == 0 or (g > 0) == (dd > 0):
                lim = None
                # moving apart: only the end of the word bounds it
                m = 1 << (w - (1 if p[0] == 's' else 0))
                for v, dv in ((x3, dx), (y3, dy)):
                    if dv > 0:
                        q = (m - 1 - v) // dv
                    elif dv < 0:
                        q = v // -dv
                    else:
                        continue
                    lim = q if lim is None else min(lim, q)
            else:
                lim = (abs(g) - 1) // abs(dd)
            if lim is not None:
                T = lim if T is None else min(T, lim)
        if T is None or T < 64:
            return
        T -= 2
        out = []
        for k, v in d.items():
            if k not in b or k not in c:
                return
            u = c[k]
            if isinstance(v, Ptr):
                if not isinstance(u, Ptr) or u.o is not v.o:
                    if u == v:
                        continue
                    return
                if v.off != u.off:
                    if u.off - b[k].off != v.off - u.off:
                        return
                    out.append((k, Ptr(v.o, v.off + T * (v.off - u.off))))
            elif isinstance(v, int):
                if v == u:
                    continue
                w = 64 if k[0] == 'v' else 8 * k[3]
                if k[0] == 'v':
                    w = s.width(f, k[1])
                mm = 1 << w
                if not isinstance(u, int) or not isinstance(b[k], int) or (v - u) % mm != (u - b[k]) % mm:
                    return
                dv = (v - u) % mm
                # two's complement: the small direction
                out.append((k, (v + T * dv) % mm))
                s.carry.append((k, v, dv, T, w))
            elif v != u:
                out.append((k, atom(('after', s.tag, k[2] if k[0] == 'c' else k[1], T), 8 * k[3] if k[0] == 'c' else v.w)))
        # a counter of two words would need its carries: leave that to the small rounds
        for k, v in out:
            if k[0] == 'v':
                env[k[1]] = v
            else:
                I._put(k[1], k[2], k[3], v)
        s.done += T
        s.hist[key] = []

    carry = []

    def width(s, f, name):
        key = (f.name, f.mod.name)
        t = s.W.get(key)
        if t is None:
            t = s.W[key] = {}
            for n, ty in f.params:
                t[n] = ty.w if ty.k == 'int' else 64
            for b in f.order:
                for i in f.blocks[b]:
                    if i.dst is not None and i.ty is not None:
                        t[i.dst] = 1 if i.op == 'icmp' else (i.ty.w if i.ty.k == 'int' else 64)
        return t.get(name, 64)

    W = {}
    loops = {}

    def isloop(s, f, blk):
        key = (f.name, f.mod.name)
        r = s.loops.get(key)
        if r is None:
            succ = {}
            for b in f.order:
                t = f.blocks[b][-1]
                succ[b] = [t.x] if t.op == 'jmp' else list(t.x) if t.op == 'br' else [x for _, x in t.x[1]] + [t.x[0]] if t.op == 'switch' else []
            r = set()
            pos = {b: i for i, b in enumerate(f.order)}
            for b, ss in succ.items():
                for x in ss:
                    if pos[x] <= pos[b]:
                        r.add(x)
            s.loops[key] = r
        return blk in r


def work_huge(job):
    alg, cases = job
    I = interp(alg)
    A = Alg(I, alg)
    L = layout(A)
    if L is None:
        return alg, None, [], 0
    wn = A.w // 8
    bad = []
    n = skipped = 0
    for a, b in cases:
        if A.name == 'md5' and b >= 1 << 32:
            continue
        I.reset()
        c = A.ctx()
        I.cmps = {}
        err = None
        try:
            A.Init(c)
            A.Update(c, msg(I, 'm', a), a)
            sk = Skip(I, 'x')
            sk.objs = [c.o]
            I.skip = sk
            I.memo = {}
            o = Ptr(I.obj('message', b, lambda off: M('m', a + off)))
            A.Update(c, o, b)
            I.skip = None
            H1 = [I._raw(c.o, q, wn) for q in L[0]]
            got = A.Final(c)
            r = (a + b) % A.B
            tail = want_msg('m', r, a + b - r)
            if got != std(alg, tail, H1, a + b - r):
                err = 'the digest after one update of %d bytes is not padded with the length of the message' % b
            if sk.done:
                skipped += 1
                Hs = [atom(('after', 'x', q, sk.done), A.w) for q in L[0]]
                ok = False
                for k in range(0, 8):
                    if chain(alg, Hs, want_msg('m', k * A.B, a + b - r - k * A.B)) == H1:
                        ok = True
                if not ok and not err:
                    err = 'after an update of %d bytes the chaining value does not include the last blocks of the message' % b
            elif b > 1 << 20:
                err = err or 'unsummarised'
        except Defect as e:
            err = str(e)
            if 'come to an end' in err:
                err = 'unsummarised'
        finally:
            I.skip = None
        n += 1
        if err:
            bad.append(('huge', (a, b), err))
            break
    return alg, {'huge': n}, bad, I.steps


def work_api(job):
    """xmpp_sha1_* and HMAC; job: (hash, part, number of parts)"""
    which, part, parts = job
    nth = [0]
    I = interp(which)
    P = I.prog
    res = []

    def j(rule, key, fn, want, subj):
        # `want` is a thunk: the standard's names are built for this part's cases only
        nth[0] += 1
        if nth[0] % parts != part:
            return
        A = Alg(I, 'sha1')
        res.append((rule, key, judge(A, fn, want()), subj))
    z = [0, 1, 3, 55, 56, 63, 64, 65, 119, 120, 128, 200]

    def hexs(d):
        return sum((hexb(x) for x in d), []) + [0]

    def cstr(I, p, n):
        if not isinstance(p, Ptr):
            raise Defect('no string is returned')
        I.bounds(p.o, p.off, n, 'read')
        return I.bytes(p, n)
    for n in z if which == 'sha1' else ():
        w = lambda: std('sha1', want_msg('m', n))
        X = Ptr(Obj('context', 4096))

        def dig(I):
            d = Ptr(I.obj('digest', 20))
            I.call(P.func('xmpp_sha1_digest'), [msg(I, 'm', n), n, d])
            return I.bytes(d, 20)
        j('api', 'xmpp_sha1_digest', dig, w, 'length %d' % n)
        j('api', 'xmpp_sha1', lambda I: cstr(I, I.call(P.func('xmpp_sha1'), [X, msg(I, 'm', n), n]), 41), lambda: hexs(w()), 'length %d' % n)
        for cut in sorted({0, n // 2, n}):
            for reuse in (0, 1):
                def inc(I):
                    s = I.call(P.func('xmpp_sha1_new'), [X])
                    I.call(P.func('xmpp_sha1_update'), [s, msg(I, 'm', cut), cut])
                    I.call(P.func('xmpp_sha1_update'), [s, msg(I, 'm', n - cut, cut), n - cut])
                    I.call(P.func('xmpp_sha1_final'), [s])
                    b = Ptr(I.obj('buffer', 41))
                    r = I.call(P.func('xmpp_sha1_to_string'), [s, b, 41])
                    out = cstr(I, r, 41)
                    d = Ptr(I.obj('digest', 20))
                    I.call(P.func('xmpp_sha1_to_digest'), [s, d])
                    out += I.bytes(d, 20)
                    out += cstr(I, I.call(P.func('xmpp_sha1_to_string_alloc'), [s]), 41)
                    if reuse:
                        out += cstr(I, I.call(P.func('xmpp_sha1_to_string'), [s, b, 41]), 41)
                    return out
                j('api', 'xmpp_sha1_new/update/final', inc, lambda: hexs(w()) + w() + hexs(w()) + (hexs(w()) if reuse else []), 'lengths %d+%d' % (cut, n - cut))
    # HMAC through the functions of scram.h that are built on it
    algs = []
    for m in P.modules.values():
        for g in m.globals.values():
            if g.init is not None and g.init[0] == 'agg' and resolve(g.ty).k == 'struct' and (resolve(g.ty).name or '').endswith('hash_alg'):
                fns = [v[1] for t, v in g.init[1] if v[0] == 'g']
                for a, q in ALGS.items():
                    if q[0] in fns:
                        algs.append((m, g.name, a))
    for m, gn, a in algs:
        if which != a:
            continue
        B, dl = ALGS[a][4], ALGS[a][7]
        for kl in (0, 1, dl, B - 1, B, B + 1, 2 * B, 2 * B + 1):
            for sl in (0, 1, 16) if kl in (1, B, B + 1) else (16,):
                def ck(I):
                    al = I.glob(m, gn)
                    k = Ptr(I.obj('key', dl))
                    I.call(P.func('SCRAM_ClientKey'), [al, msg(I, 'pw', kl), kl, msg(I, 'salt', sl), sl, 1, k])
                    return I.bytes(k, dl)
                j('hmac', '%s:%s' % (a, gn), ck, lambda: hmac(a, hmac(a, want_msg('pw', kl), want_msg('salt', sl) + [0, 0, 0, 1]), [ord(c) for c in 'Client Key']), 'key of %d bytes, text of %d bytes' % (kl, sl + 4))
        for tl in (0, 1, B - ALGS[a][8] - 1, B - 1, B, B + 1, 3 * B + 7):
            def cs(I):
                al = I.glob(m, gn)
                k = Ptr(I.obj('signature', dl))
                I.call(P.func('SCRAM_ClientSignature'), [al, msg(I, 'key', dl), msg(I, 'text', tl), tl, k])
                return I.bytes(k, dl)
            j('hmac', '%s:%s' % (a, gn), cs, lambda: hmac(a, std(a, want_msg('key', dl)), want_msg('text', tl)), 'key of %d bytes, text of %d bytes' % (dl, tl))
    return res, I.steps


def chunk(l, n):
    k = (len(l) + n - 1) // n
    return [l[i:i + k] for i in range(0, len(l), k)] if l else []


def c17(rep):
    P = Program('default')
    _I['p'] = P
    _I['m'] = models()
    rep.rule('digest', 'a message hashed at once has the digest of the standard, for every length', 4)
    rep.rule('split', 'a message fed in any sequence of updates has the digest of the standard', 4)
    rep.rule('contexts', 'contexts do not influence each other, and a context can be initialised again', 4)
    rep.rule('long', 'the length in the padding is right when the bit count crosses 2^32 and beyond', 0)
    rep.rule('huge', 'one update of more than 2^29 bytes counts and hashes all of them', 0)
    rep.rule('api', 'xmpp_sha1_* returns the SHA-1 digest and its lowercase hexadecimal form', 20)
    rep.rule('hmac', 'HMAC over each bundled hash is that of RFC 2104', 20)
    for a, d in ALGS.items():
        for n in d[:3]:
            P.func(n)
    jobs = []
    for a in ('sha512', 'sha256', 'sha1'):
        for i in range(6):
            jobs.append((work_api, (a, i, 6)))
    for a, d in ALGS.items():
        B = d[4]
        jobs.append((work_long, (a, None)))
        big = [(0, (1 << 29) + 70), (3, (1 << 29) - 3 + B), (B - 1, (1 << 29) + 1), (0, 3 << 29), (7, (1 << 32) - 1 - B), (B, (1 << 32) + 5), (1, (1 << 35) + B)]
        for c in big:
            jobs.append((work_huge, (a, [c])))
    for a, d in ALGS.items():
        B, ll = d[4], d[8]
        N = 2 * B + 2 if rep.tier == 'quick' else 6 * B
        cs = [('digest', (n,)) for n in range(N)]
        if d[3] and P.has(d[3]):
            cs += [('one', (n,)) for n in range(N)]
        cs += [('split', c) for c in split_cases(B, ll, rep.tier)]
        cs.sort(key=lambda x: sum(x[1]))
        for ch in chunk(cs, 16 if rep.tier == 'quick' else 24):
            jobs.append((work, (a, ch)))
        jobs.append((work, (a, [('contexts', c) for c in ((1, 2), (B - 1, 1, 1), (B, B, 3), (20, 30, 40), (0, 0, B))])))
    steps = 0
    with ProcessPoolExecutor(6) as ex:
        fs = [(fn, ex.submit(fn, arg)) for fn, arg in jobs]
        for fn, f in fs:
            r = f.result()
            steps += r[-1]
            if fn is work_api:
                for rule, key, err, subj in r[0]:
                    rep.check(rule, not err, key, 'src/crypto.c' if rule == 'api' else 'src/scram.c', '%s for %s' % (err, subj), subj)
                continue
            alg, n, bad = r[:3]
            fl = 'src/' + P.func(ALGS[alg][1]).mod.name
            if n is None:
                rep.notes.append('%s: the context does not keep chaining value and length in a recognised way; very long messages not judged' % alg)
                continue
            for kind, k in n.items():
                rid = 'digest' if kind == 'one' else kind
                for i in range(k - sum(1 for x in bad if x[0] == kind)):
                    rep.ok(rid, '%s %s' % (alg, kind))
            for kind, case, err in bad:
                if err == 'unsummarised':
                    rep.notes.append('%s: the loop of %s has no linear summary; single updates of %d bytes not judged' % (alg, ALGS[alg][1], case[-1]))
                    continue
                rep.bad('digest' if kind == 'one' else kind, '%s:%s' % (alg, kind), fl, '%s: %s (%s)' % (alg, err, case_text(kind, case)))
    rep.notes.append('%d instructions given canonical names' % steps)
    rep.assumptions.append('memcpy, memset, snprintf("%02x") behave as ISO C says; message, key and chaining value are arbitrary bytes (named, not chosen)')
    return 'other', ('value numbering of Init/Update/Final, the one-shot functions, xmpp_sha1_* and HMAC over arbitrary message bytes, compared with the same '
                     'numbering of FIPS 180-4 / RFC 1321 / RFC 2104; lengths are enumerated (every length to three blocks, every residue of a first update '
                     'with all block and padding boundaries of the second, empty updates, interleaved contexts), content is arbitrary; block counts beyond '
                     'that by induction from an arbitrary chaining value and a length next to 2^32, 2^35, 2^38 and 2^63 bits, and the block loop of huge '
                     'updates by its linear summary')


def case_text(kind, case):
    if kind == 'long':
        return 'after %d bytes, updates of %s bytes' % (case[0], ', '.join(map(str, case[1:])))
    return 'updates of %s bytes' % ', '.join(map(str, case[:12]))
