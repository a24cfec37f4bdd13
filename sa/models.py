"""Models (transfer functions) for libc, the allocator, logging, and — for the
protocol-level analyses — the stanza, handler and send APIs."""
from eng import *

MAXLEN = (1 << 31) - 64


# ------------------------------------------------------------- string terms
def S(t):
    """the C string a pointer term points to (input memory)"""
    return App('str', t)


def Len(atom):
    return App('len', atom, lo=0, hi=MAXLEN)


def subst(st, pieces):
    """expand the atoms of a piece tuple with what is known about them"""
    out = []
    for p in pieces:
        if isinstance(p, bytes):
            out.append(p)
            continue
        q = st.g.get(('sub', p))
        if q is None:
            out.append(p)
        else:
            out.extend(subst(st, q))
    return merge(out)


def merge(ps):
    out = []
    for p in ps:
        if isinstance(p, bytes):
            if not p:
                continue
            if out and isinstance(out[-1], bytes):
                out[-1] = out[-1] + p
                continue
        out.append(p)
    return tuple(out)


def plen(p):
    if isinstance(p, bytes):
        return len(p)
    if p.op in ('chr', 'byte'):
        return 1
    if p.op == 'sub':
        return p.args[2]
    if p.op == 'raw':
        return p.args[1]
    return Len(p)


def slen(st, pieces):
    n = 0
    for p in subst(st, pieces):
        n = ladd(n, plen(p))
    return st.norm(n)


def skip(st, pieces, off):
    """drop the first `off` bytes"""
    off = st.norm(off)
    ps = list(subst(st, pieces))
    while ps:
        if type(off) is int and off == 0:
            return merge(ps)
        l = st.norm(plen(ps[0]))
        d = st.norm(lsub(off, l))
        lo, hi = st.facts.range(d)
        if lo >= 0:
            off = d
            ps.pop(0)
            continue
        p = ps[0]
        if isinstance(p, bytes) and type(off) is int and off > 0:
            ps[0] = p[off:]
            return merge(ps)
        if st.facts.eq0(off) is True:
            return merge(ps)
        if isinstance(p, bytes):
            return (App('suffix', ('cat',) + tuple(ps), off),)
        if p.op == 'suffix' and False:
            pass
        if len(ps) == 1:
            return (mksuffix(st, p, off),)
        return (mksuffix(st, p, off),) + tuple(ps[1:])
    z = st.facts.eq0(off)
    return () if z is True else None


def mksuffix(st, p, off):
    if p.op == 'suffix':
        return App('suffix', p.args[0], st.norm(ladd(p.args[1], off)))
    t = App('suffix', p, off)
    return t


def take(st, pieces, n):
    """the first n bytes of pieces"""
    n = st.norm(n)
    out = []
    ps = list(subst(st, pieces))
    while True:
        if st.facts.eq0(n) is True:
            return merge(out)
        if not ps:
            return None
        p = ps.pop(0)
        l = st.norm(plen(p))
        d = st.norm(lsub(n, l))
        if st.facts.range(d)[0] >= 0:
            out.append(p)
            n = d
            continue
        if isinstance(p, bytes) and type(n) is int:
            out.append(p[:n])
            return merge(out)
        if st.facts.range(d)[1] <= 0 and not isinstance(p, bytes):
            out.append(App('sub', p, 0, n))
            return merge(out)
        return merge(out) + (App('sub', ('cat',) + (p,) + tuple(ps), 0, n),)


def _cells_from(st, o, off):
    """cells of o starting at off in order: yields (len, value) until a gap"""
    while True:
        off = st.norm(off)
        c = o.cells.get(off)
        if c is None:
            c = _find(st, o, off)
        if c is None:
            yield None, off
            return
        yield c, off
        off = ladd(off, c[0])


def _find(st, o, off):
    for co, c in o.cells.items():
        if type(co) is int and type(off) is int:
            continue
        if st.facts.eq0(lsub(co, off)) is True:
            return c
    if o.default == 'zero':
        return (1, 0)
    return None


def content(st, p, n=None):
    """C string at p as a tuple of pieces; with n: exactly n bytes.
    None when unknown."""
    p = st.norm(p)
    if isinstance(p, Fn) or p is UNDEF or type(p) is int:
        return None
    if isinstance(p, Term):
        b = st.base_of(p)
        if b is None:
            return None
        o, off = b
    else:
        o, off = st.mem.get(p.obj), p.off
        if o is None:
            return None
    off = st.norm(off)
    if o.kind == 'lazy' and not o.cells and o.base is not None:
        full = subst(st, (S(o.base),))
        if n is None:
            r = skip(st, full, off)
            return r if r is not None else (App('suffix', S(o.base), off),)
        r = skip(st, full, off)
        if r is not None:
            # a copy including the terminator?
            L = slen(st, r)
            d = st.norm(lsub(n, L))
            if d == 1:
                return merge(r + (b'\0',))
            t = take(st, r, n)
            if t is not None:
                return t
        return (App('raw', App('bytes', o.base, off), n),)
    out = []
    rem = n
    for c, at in _cells_from(st, o, off):
        if rem is not None:
            z = st.facts.eq0(rem)
            if z is True:
                return merge(out)
        if c is None:
            # inside a segment?
            r = _inside(st, o, at)
            if r is not None:
                more, nxt = r
                if st.facts.eq0(lsub(nxt, at)) is True or not more:
                    return None
                out.extend(more)
                rest = content(st, Ptr(o.id, nxt), None if rem is None else lsub(rem, lsub(nxt, at)))
                if rest is None:
                    return None
                return merge(out + list(rest))
            if rem is not None:
                if not out and o.kind in ('alloca', 'heap', 'lazy', 'global') and o.default in ('lazy',):
                    return (App('raw', App('bytes', o.id, at, st.fresh('v')), rem),)
            return None
        sz, v = c
        v = st.norm(v) if isinstance(v, Term) else v
        if isinstance(v, Seg):
            if rem is not None:
                d = st.norm(lsub(rem, sz))
                if st.facts.range(d)[0] < 0:
                    if st.facts.eq0(rem) is True:
                        return merge(out)
                    t = take(st, (v.t,), rem)
                    return merge(out + list(t)) if t is not None else None
                rem = d
            out.append(v.t)
            continue
        if type(v) is int:
            if type(sz) is not int:
                return None
            bs = (v & ((1 << (8 * sz)) - 1)).to_bytes(sz, 'little')
            if rem is None:
                z = bs.find(0)
                if z >= 0:
                    out.append(bs[:z])
                    return merge(out)
                out.append(bs)
            else:
                if type(rem) is int:
                    out.append(bs[:rem])
                    rem = max(0, rem - sz)
                else:
                    out.append(bs)
                    rem = st.norm(lsub(rem, sz))
            continue
        if isinstance(v, Term) and type(sz) is int:
            if sz == 1:
                if v.op == 'chr' or v.op == 'byte':
                    out.append(v)
                else:
                    out.append(App('chr', v))
            else:
                out.append(App('raw', v, sz))
            if rem is not None:
                rem = st.norm(lsub(rem, sz))
            continue
        return None
    return None


def _inside(st, o, at):
    for co, (sz, v) in o.cells.items():
        if not isinstance(v, Seg):
            continue
        d = st.norm(lsub(at, co))
        if st.facts.range(d)[0] < 0:
            continue
        if st.facts.range(lsub(sz, d))[0] < 0:
            continue
        r = skip(st, (v.t,), d)
        if r is None:
            continue
        return r, st.norm(ladd(co, sz))
    return None


def put_pieces(st, p, pieces, nul=False):
    """write pieces at p"""
    b = st.base_of(p, 'store')
    if b is None:
        return
    o, off = b
    if not st.check_access(p, o, 'store'):
        return
    off = st.norm(off)
    ps = subst(st, pieces)
    L = 0
    for x in ps:
        L = ladd(L, plen(x))
    L = st.norm(ladd(L, 1) if nul else L)
    if st.eng.bounds or o.kind in ('heap', 'alloca'):
        st.in_bounds(o, off, L, 'write')
    o = st.wobj(o.id)
    st.eng.clear_range(st, o, off, L)
    pos = off
    for x in ps:
        if isinstance(x, bytes):
            for i in range(len(x)):
                o.cells[st.norm(ladd(pos, i))] = (1, x[i])
            pos = ladd(pos, len(x))
        elif x.op == 'chr':
            o.cells[st.norm(pos)] = (1, x.args[0])
            pos = ladd(pos, 1)
        elif x.op == 'byte':
            o.cells[st.norm(pos)] = (1, x)
            pos = ladd(pos, 1)
        else:
            n = st.norm(plen(x))
            if not (type(n) is int and n == 0):
                o.cells[st.norm(pos)] = (n, Seg(x))
            pos = ladd(pos, n)
    if nul:
        o.cells[st.norm(pos)] = (1, 0)


def lit(st, p):
    """constant C string or None"""
    c = content(st, p)
    if c is None:
        return None
    c = subst(st, c)
    if len(c) == 0:
        return b''
    if len(c) == 1 and isinstance(c[0], bytes):
        return c[0]
    return None


def cs(st, p):
    b = lit(st, p)
    return b.decode('latin1') if b is not None else None


# ------------------------------------------------------------- string facts
def set_sub(st, atom, pieces):
    st.g[('sub', atom)] = tuple(pieces)
    L = 0
    for x in pieces:
        L = ladd(L, plen(x))
    return st.facts.assume_range(lsub(Len(atom), L), 0, 0)


def streq(st, ca, cb, icase=False):
    """True/False/None from facts"""
    ca, cb = subst(st, ca), subst(st, cb)
    if ca == cb:
        return True
    la = ca[0] if len(ca) == 1 and isinstance(ca[0], bytes) else (b'' if not ca else None)
    lb = cb[0] if len(cb) == 1 and isinstance(cb[0], bytes) else (b'' if not cb else None)
    if la is not None and lb is not None:
        return (la.lower() == lb.lower()) if icase else la == lb
    if la is not None:
        ca, cb, la, lb = cb, ca, lb, la
    if lb is not None:
        # atoms vs literal
        if len(ca) == 1 and isinstance(ca[0], Term):
            a = ca[0]
            ie = st.g.get(('ieq', a))
            if ie is not None:
                if ie != lb.lower():
                    return False
                if icase:
                    return True
            if lb.lower() in st.g.get(('ine', a), ()):
                return False
            if not icase and lb in st.g.get(('ne', a), ()):
                return False
            lo, hi = st.facts.range(Len(a))
            if len(lb) < lo or len(lb) > hi:
                return False
        elif len(ca) > 1:
            if isinstance(ca[0], bytes) and not icase:
                n = min(len(ca[0]), len(lb))
                if ca[0][:n] != lb[:n] or len(ca[0]) > len(lb):
                    return False
            if isinstance(ca[-1], bytes) and not icase:
                n = min(len(ca[-1]), len(lb))
                if n and ca[-1][-n:] != lb[-n:]:
                    return False
    k = ('scmp', icase) + ((ca, cb) if repr(ca) < repr(cb) else (cb, ca))
    return st.g.get(k)


def assume_streq(st, ca, cb, eq, icase=False):
    ca, cb = subst(st, ca), subst(st, cb)
    k = ('scmp', icase) + ((ca, cb) if repr(ca) < repr(cb) else (cb, ca))
    st.g[k] = eq
    la = ca[0] if len(ca) == 1 and isinstance(ca[0], bytes) else (b'' if not ca else None)
    if la is not None:
        ca, cb = cb, ca
    lb = cb[0] if len(cb) == 1 and isinstance(cb[0], bytes) else (b'' if not cb else None)
    if lb is not None and len(ca) == 1 and isinstance(ca[0], Term):
        a = ca[0]
        if a.op in ('chr', 'byte', 'raw', 'sub'):
            return True
        if eq:
            if icase:
                st.g[('ieq', a)] = lb.lower()
                return st.facts.assume_range(lsub(Len(a), len(lb)), 0, 0)
            return set_sub(st, a, (lb,))
        kk = ('ine' if icase else 'ne', a)
        st.g[kk] = st.g.get(kk, frozenset()) | {lb.lower() if icase else lb}
        if lb == b'':
            return st.facts.assume_ne(Len(a))
    elif eq and not icase and len(ca) == 1 and isinstance(ca[0], Term) and len(cb) == 1:
        # atom == atom: substitute the newer one
        a, b = ca[0], cb[0]
        if a.op == 'str' and isinstance(b, Term):
            if st.g.get(('sub', b)) is None and a is not b:
                return set_sub(st, a, (b,))
    return True


def note(st, what, truth):
    st.dec = (st.dec, what, truth, st.where())


def _strcmp(icase):
    def m(e, st, a, ins):
        for x in a[:2]:
            if not deref_ok(st, x, 'strcmp'):
                return [(st, UNDEF)]
        ca, cb = content(st, a[0]), content(st, a[1])
        if ca is None or cb is None:
            st.ev('opaque-string', fn='strcmp', args=a[:2])
            ca = ca if ca is not None else (st.fresh('ostr'),)
            cb = cb if cb is not None else (st.fresh('ostr'),)
        r = streq(st, ca, cb, icase)
        if r is True:
            return 0
        if r is False:
            x = st.fresh('cmp', 32)
            st.facts.assume_ne(x)
            return x
        o = st.copy()
        out = []
        ca, cb = subst(st, ca), subst(st, cb)
        if assume_streq(st, ca, cb, True, icase):
            note(st, ('streq', ca, cb), True)
            out.append((st, 0))
        if assume_streq(o, ca, cb, False, icase):
            note(o, ('streq', ca, cb), False)
            x = o.fresh('cmp', 32)
            o.facts.assume_ne(x)
            out.append((o, x))
        return out
    return m


def m_strncmp(e, st, a, ins):
    for x in a[:2]:
        if not deref_ok(st, x, 'strncmp'):
            return [(st, UNDEF)]
    n = st.norm(a[2])
    ca, cb = content(st, a[0]), content(st, a[1])
    if ca is not None and cb is not None and type(n) is int:
        ca, cb = subst(st, ca), subst(st, cb)
        def pre(c):
            # first n bytes when literal
            if not c:
                return b'\0'
            if isinstance(c[0], bytes):
                if len(c[0]) >= n:
                    return c[0][:n]
                if len(c) == 1:
                    return (c[0] + b'\0')[:n]
            return None
        pa, pb = pre(ca), pre(cb)
        if pa is not None and pb is not None:
            return 0 if pa == pb else 1
        if pb is None:
            ca, cb, pa, pb = cb, ca, pb, pa
        if pb is not None:
            k = ('ncmp', ca, pb)
            v = st.g.get(k)
            if v is True:
                return 0
            if v is False:
                return 1
            o = st.copy()
            st.g[k] = True
            o.g[k] = False
            if len(ca) == 1 and isinstance(ca[0], Term) and pb and b'\0' not in pb and ca[0].op not in ('chr', 'byte', 'raw', 'sub'):
                if not st.facts.assume_range(Len(ca[0]), len(pb), INF):
                    return [(o, 1)]
                rest = App('rest', ca[0], pb)
                set_sub(st, ca[0], (pb, rest))
            note(st, ('prefix', ca, pb), True)
            note(o, ('prefix', ca, pb), False)
            return [(st, 0), (o, 1)]
    st.ev('opaque-string', fn='strncmp', args=a)
    return st.fresh('cmp', 32)


def deref_ok(st, p, why):
    """null checks for a string argument passed to libc"""
    b = st.base_of(p, why)
    if b is None:
        return st.status == 'run'
    o, off = b
    return st.check_access(p, o, why)


def m_strlen(e, st, a, ins):
    if not deref_ok(st, a[0], 'strlen'):
        return [(st, UNDEF)]
    c = content(st, a[0])
    if c is None:
        st.ev('opaque-string', fn='strlen', args=a)
        return st.fresh('len', 64, lo=0, hi=MAXLEN)
    return slen(st, c)


def m_memcpy(e, st, a, ins):
    d, s, n = a[0], a[1], st.norm(a[2])
    if type(n) is int and n == 0:
        return d
    if not deref_ok(st, s, 'memcpy') or not deref_ok(st, d, 'memcpy'):
        return [(st, UNDEF)]
    sb = st.base_of(s)
    db = st.base_of(d)
    if e.bounds and sb:
        st.in_bounds(sb[0], st.norm(sb[1]), n, 'read')
    # cell-wise copy of constant ranges
    if sb and db and type(n) is int and type(sb[1]) is int and type(db[1]) is int and n <= 4096:
        so = st.mem[sb[0].id]
        if all(type(c) is int for c in so.cells) and not any(isinstance(v[1], Seg) for v in so.cells.values()) and \
                (so.cells or so.default in ('zero',)):
            cov = sum(sz for c, (sz, v) in so.cells.items() if sb[1] <= c and c + sz <= sb[1] + n)
            if cov == n or so.default == 'zero' or (so.kind != 'lazy' and cov):
                if e.bounds or st.mem[db[0].id].kind in ('heap', 'alloca'):
                    st.in_bounds(db[0], db[1], n, 'write')
                if cov < n and so.default == 'undef':
                    st.ev('undef-load', obj=so.id, off=sb[1], size=n)
                o = st.wobj(db[0].id)
                e.clear_range(st, o, db[1], n)
                for c in list(o.cells):
                    if type(c) is int and db[1] <= c < db[1] + n:
                        del o.cells[c]
                if so.default == 'zero' and cov < n:
                    for i in range(n):
                        o.cells[db[1] + i] = (1, 0)
                    for c, (sz, v) in so.cells.items():
                        if sb[1] <= c and c + sz <= sb[1] + n:
                            for i in range(sz):
                                o.cells.pop(c - sb[1] + db[1] + i, None)
                for c, (sz, v) in so.cells.items():
                    if sb[1] <= c and c + sz <= sb[1] + n:
                        o.cells[c - sb[1] + db[1]] = (sz, v)
                for h in e.store_hooks:
                    h(st, o, db[1], n, None)
                return d
    c = content(st, s, n)
    if c is None:
        st.ev('opaque-copy', args=a)
        c = (App('raw', st.fresh('opq'), n),)
    put_pieces(st, d, c)
    return d


def m_memset(e, st, a, ins):
    d, v, n = a[0], st.norm(a[1]), st.norm(a[2])
    if not deref_ok(st, d, 'memset'):
        return [(st, UNDEF)]
    b = st.base_of(d)
    if b is None:
        return d
    o, off = b
    off = st.norm(off)
    if e.bounds or o.kind in ('heap', 'alloca'):
        st.in_bounds(o, off, n, 'write')
    o = st.wobj(o.id)
    if type(off) is int and off == 0 and v == 0 and (st.norm(o.size) == n if o.size is not None else False):
        o.cells = {}
        o.default = 'zero'
        return d
    e.clear_range(st, o, off, n)
    if type(n) is int and type(off) is int and n <= 2048:
        for c in list(o.cells):
            if type(c) is int and off <= c < off + n:
                del o.cells[c]
        bv = v & 255 if type(v) is int else v
        for i in range(n):
            o.cells[off + i] = (1, bv)
    else:
        if v == 0 and type(off) is int and off == 0 and o.kind != 'lazy':
            o.cells[0] = (n, Seg(App('zeros', n)))
        else:
            o.cells[off] = (n, Seg(App('fill', v, n)))
    return d


def m_memcmp(e, st, a, ins):
    n = st.norm(a[2])
    ca, cb = content(st, a[0], n), content(st, a[1], n)
    if ca is None or cb is None:
        st.ev('opaque-string', fn='memcmp', args=a)
        return st.fresh('cmp', 32)
    r = streq(st, ca, cb)
    if r is True:
        return 0
    if r is False:
        return 1
    o = st.copy()
    out = []
    if assume_streq(st, ca, cb, True):
        note(st, ('memeq', ca, cb), True)
        out.append((st, 0))
    if assume_streq(o, ca, cb, False):
        note(o, ('memeq', ca, cb), False)
        x = o.fresh('cmp', 32)
        o.facts.assume_ne(x)
        out.append((o, x))
    return out


def find_char(st, ps, ch):
    """index of the first ch in the literal/atom prefix: ('at', k, i) | ('maybe', k) | None"""
    for k, p in enumerate(ps):
        if isinstance(p, bytes):
            i = p.find(ch)
            if i >= 0:
                return ('at', k, i)
            continue
        if p.op == 'chr' and isinstance(p.args[0], Term):
            v = p.args[0]
            z = st.facts.eq0(lsub(v, ch[0]))
            if z is True:
                return ('at', k, 0)
            if z is False:
                continue
            return ('maybe', k)
        if ch in st.g.get(('nochr', p), ()):
            continue
        if p.op == 'before' and p.args[1] == ch:
            continue
        return ('maybe', k)
    return None


def m_strchr(e, st, a, ins):
    if not deref_ok(st, a[0], 'strchr'):
        return [(st, UNDEF)]
    c = content(st, a[0])
    ch = st.norm(a[1])
    b = st.base_of(a[0])
    if c is None or type(ch) is not int or b is None:
        st.ev('opaque-string', fn='strchr', args=a)
        x = st.fresh('strchr', 64, tag='nullable')
        return x
    ch = bytes([ch & 255])
    o, off = b
    out = []
    work = [st]
    while work:
        s = work.pop()
        ps = subst(s, c)
        r = find_char(s, ps, ch)
        if r is None:
            out.append((s, 0))
            continue
        if r[0] == 'at':
            pos = off
            for p in ps[:r[1]]:
                pos = ladd(pos, plen(p))
            out.append((s, Ptr(o.id, s.norm(ladd(pos, r[2])))))
            continue
        p = ps[r[1]]
        if p.op in ('chr', 'byte', 'raw', 'sub'):
            x = s.fresh('strchr', 64, tag='nullable')
            s.ev('opaque-string', fn='strchr', args=a)
            out.append((s, x))
            continue
        s2 = s.copy()
        # found inside p
        if set_sub(s, p, (App('before', p, ch), ch, App('after', p, ch))):
            for q in s.g.get(('nochr', p), ()):
                for z in (App('before', p, ch), App('after', p, ch)):
                    s.g[('nochr', z)] = s.g.get(('nochr', z), frozenset()) | {q}
            bf = App('before', p, ch)
            s.g[('nochr', bf)] = s.g.get(('nochr', bf), frozenset()) | {ch}
            note(s, ('contains', p, ch), True)
            work.append(s)
        s2.g[('nochr', p)] = s2.g.get(('nochr', p), frozenset()) | {ch}
        note(s2, ('contains', p, ch), False)
        work.append(s2)
    return out


def m_strdup_core(e, st, p, n=None):
    """copy of the string at p in a fresh heap object"""
    if not deref_ok(st, p, 'strdup'):
        return [(st, UNDEF)]
    c = content(st, p)
    if c is None:
        st.ev('opaque-string', fn='strdup', args=[p])
        c = (st.fresh('ostr'),)
    o = heap_str(st, c, 'strdup')
    return Ptr(o.id, 0)


def heap_str(st, c, name):
    c = subst(st, c)
    o = st.new_obj('heap', name, st.norm(ladd(slen(st, c), 1)))
    st.ev('alloc', obj=o.id)
    put_pieces(st, Ptr(o.id, 0), c, True)
    return st.mem[o.id]


def m_strcpy(e, st, a, ins):
    c = content(st, a[1])
    if c is None:
        st.ev('opaque-copy', args=a)
        c = (st.fresh('ostr'),)
    put_pieces(st, a[0], c, True)
    return a[0]


def m_strcat(e, st, a, ins):
    c = content(st, a[1])
    d = content(st, a[0])
    if c is None or d is None:
        st.ev('opaque-copy', args=a)
        return a[0]
    put_pieces(st, e.padd(st, a[0], slen(st, d)), c, True)
    return a[0]


def fmt_pieces(e, st, fmt, args):
    """printf formatting as pieces; None when not modelled"""
    import re
    out = []
    i = 0
    ai = 0
    f = fmt.decode('latin1')
    for m in re.finditer(r'%([-+ #0]*)(\d+|\*)?(?:\.(\d+|\*))?(hh|h|ll|l|z|j|t)?([diuxXcsp%])|([^%]+)', f):
        if m.group(6) is not None:
            out.append(m.group(6).encode('latin1'))
            continue
        flags, width, prec, ln, conv = m.group(1), m.group(2), m.group(3), m.group(4), m.group(5)
        if conv == '%':
            out.append(b'%')
            continue
        if width == '*':
            ai += 1
        pv = None
        if prec == '*':
            pv = args[ai]
            ai += 1
        elif prec is not None:
            pv = int(prec)
        if ai >= len(args):
            st.ev('fmt-args', fmt=f)
            return None
        v = st.norm(args[ai])
        ai += 1
        if conv == 's':
            if st.isnull(v) is True:
                st.ev('null-fmt', fmt=f)
                out.append(b'(null)')
                continue
            if not deref_ok(st, v, 'printf %s'):
                return None
            c = content(st, v)
            if c is None:
                st.ev('opaque-string', fn='fmt', args=[v])
                c = (st.fresh('ostr'),)
            if pv is not None:
                t = take(st, c, pv)
                c = t if t is not None else (App('sub', ('cat',) + tuple(c), 0, pv),)
            out.extend(c)
        elif conv == 'c':
            if type(v) is int:
                out.append(bytes([v & 255]))
            else:
                out.append(App('chr', v))
        else:
            w = 64 if ln in ('l', 'll', 'z', 'j', 't') else 32
            if type(v) is int:
                v &= (1 << w) - 1
                if conv in 'di':
                    v = sgn(v, w)
                s = ('%' + flags + (width or '') + ('.%d' % pv if pv is not None else '') + conv.replace('u', 'd').replace('i', 'd')) % v
                out.append(s.encode())
            elif conv == 'x' and flags == '0' and width == '2':
                t = App('hex2', v)
                st.facts.assume_range(Len(t), 2, 2)
                out.append(t)
            else:
                t = App({'d': 'dec', 'i': 'dec', 'u': 'udec', 'x': 'hex', 'X': 'HEX', 'p': 'ptrfmt'}[conv] + str(w) + flags + (width or ''), v)
                mx = {('d', 32): 11, ('i', 32): 11, ('u', 32): 10, ('x', 32): 8, ('X', 32): 8, ('x', 64): 16, ('X', 64): 16}.get((conv, w), 20)
                if conv in 'diu':
                    r = st.facts.range(v, 3)
                    if r and r[0] is not None and r[1] is not None and 0 <= r[0] <= r[1]:
                        mx = min(mx, len(str(r[1])))
                st.facts.assume_range(Len(t), max(1, int(width or 1)), max(mx, int(width or 1)))
                out.append(t)
    return merge(out)


def do_snprintf(e, st, dst, n, fmt, args):
    fl = lit(st, fmt)
    if fl is None:
        st.ev('fmt-nonliteral')
        return st.fresh('snprintf', 32)
    ps = fmt_pieces(e, st, fl, args)
    if st.status != 'run':
        return [(st, UNDEF)]
    if ps is None:
        ps = (st.fresh('fmt'),)
    L = slen(st, ps)
    n = st.norm(n)
    null = st.isnull(dst)
    if null is True or (type(n) is int and n == 0):
        return L
    t = e.icmp(st, 'slt', L, n, I64)
    out = []
    if t != 0:
        s1 = st if t == 1 else st.copy()
        if t == 1 or e.assume(s1, t, True):
            put_pieces(s1, dst, ps, True)
            out.append((s1, L))
    if t != 1:
        if t == 0 or e.assume(st, t, False):
            st.ev('truncated', fmt=fl, size=n)
            if not (type(n) is int and n <= 0):
                tk = take(st, ps, lsub(n, 1))
                put_pieces(st, dst, tk if tk is not None else (App('sub', ('cat',) + ps, 0, lsub(n, 1)),), True)
            out.append((st, L))
    return out


def m_snprintf(e, st, a, ins):
    return do_snprintf(e, st, a[0], a[1], a[2], a[3:])


def m_toul(e, st, a, ins):
    """strtol family: value is an uninterpreted function of the text"""
    if not deref_ok(st, a[0], 'strtol'):
        return [(st, UNDEF)]
    c = content(st, a[0]) or (st.fresh('ostr'),)
    c = subst(st, c)
    nm = ins.a[0][1] if ins and ins.a[0][0] == 'g' else 'strtol'
    v = App(nm, c, w=64)
    if len(c) == 1 and isinstance(c[0], bytes):
        try:
            v = int(c[0]) & ((1 << 64) - 1)
        except ValueError:
            pass
    if len(a) > 1 and st.isnull(a[1]) is not True:
        b = st.base_of(a[0])
        o, off = b
        k = st.fresh('consumed', 64, 0, MAXLEN)
        L = slen(st, c)
        st.facts.assume_range(lsub(L, k), 0, INF)
        st.store(a[1], Ptr(o.id, ladd(off, k)), 8)
        st.ev('strto', val=v, text=c, consumed=k)
    return v


# ------------------------------------------------------------- allocator
class Alloc:
    def __init__(s, oom=False):
        s.oom = oom

    def _new(s, e, st, n, name, zero=False):
        o = st.new_obj('heap', name, n, 'zero' if zero else 'undef')
        st.ev('alloc', obj=o.id)
        return Ptr(o.id, 0)

    def alloc(s, e, st, a, ins, zero=False):
        if s.oom:
            o = st.copy()
            note(o, ('alloc-fails',), True)
            o.g['oom'] = o.g.get('oom', 0) + 1
            p = s._new(e, st, st.norm(a[1]), 'alloc')
            return [(st, p), (o, 0)]
        return s._new(e, st, st.norm(a[1]), 'alloc')

    def free(s, e, st, a, ins):
        do_free(st, a[1])
        return [(st, None)] if st.status != 'run' else None

    def realloc(s, e, st, a, ins):
        p, n = st.norm(a[1]), st.norm(a[2])
        nu = st.isnull(p)
        if nu is True:
            return s._new(e, st, n, 'realloc')
        out = []
        if nu is None:
            o = st.copy()
            if isinstance(p, Term):
                if o.facts.assume_range(p, 0, 0):
                    out.append((o, s._new(e, o, n, 'realloc')))
                if not st.facts.assume_ne(p):
                    return out
        b = st.base_of(p)
        if b is None:
            return st.fresh('realloc')
        ob, off = b
        st.ev('realloc', obj=ob.id, new=n)
        if s.oom:
            o2 = st.copy()
            o2.g['oom'] = o2.g.get('oom', 0) + 1
            out.append((o2, 0))
        new = st.new_obj('heap', 'realloc', n)
        st.ev('alloc', obj=new.id)
        old = st.mem[ob.id]
        w = st.wobj(new.id)
        w.cells = dict(old.cells)
        w.default = old.default if old.default == 'lazy' else 'undef'
        if old.kind == 'lazy' and not old.cells:
            w.cells[0] = (Len(S(old.base)), Seg(S(old.base)))
        do_free(st, p)
        out.append((st, Ptr(new.id, 0)))
        return out

    def strdup(s, e, st, a, ins):
        r = m_strdup_core(e, st, a[1])
        if s.oom and st.status == 'run':
            o = st.copy()
            o.g['oom'] = o.g.get('oom', 0) + 1
            return [(st, r), (o, 0)]
        return r

    def strndup(s, e, st, a, ins):
        if not deref_ok(st, a[1], 'strndup'):
            return [(st, UNDEF)]
        n = st.norm(a[2])
        c = content(st, a[1])
        if c is None:
            cc = content(st, a[1], n)
            if cc is None:
                st.ev('opaque-string', fn='strndup', args=a)
                cc = (st.fresh('ostr'),)
            o = heap_str(st, cc, 'strndup')
            return Ptr(o.id, 0)
        L = slen(st, c)
        t = e.icmp(st, 'slt', n, L, I64)
        out = []
        if t != 0:
            s1 = st if t == 1 else st.copy()
            if t == 1 or e.assume(s1, t, True):
                tk = take(s1, c, n)
                o = heap_str(s1, tk if tk is not None else (App('sub', ('cat',) + tuple(c), 0, n),), 'strndup')
                out.append((s1, Ptr(o.id, 0)))
        if t != 1:
            if t == 0 or e.assume(st, t, False):
                o = heap_str(st, c, 'strndup')
                out.append((st, Ptr(o.id, 0)))
        if s.oom:
            o2 = st.copy()
            o2.g['oom'] = o2.g.get('oom', 0) + 1
            out.append((o2, 0))
        return out

    def models(s):
        return {'strophe_alloc': s.alloc, 'strophe_free': s.free, 'strophe_realloc': s.realloc,
                'strophe_strdup': s.strdup, 'strophe_strndup': s.strndup, 'xmpp_alloc': s.alloc,
                'xmpp_free': s.free, 'xmpp_realloc': s.realloc, 'xmpp_strdup': s.strdup, 'xmpp_strndup': s.strndup}


def do_free(st, p):
    p = st.norm(p)
    if type(p) is int:
        if p != 0:
            st.ev('bad-free', val=p)
        return
    if p is UNDEF:
        st.ev('bad-free', val=p)
        st.status = 'dead'
        return
    if isinstance(p, Fn):
        st.ev('bad-free', val=p)
        return
    if isinstance(p, Term) and st.isnull(p) is True:
        return
    b = st.base_of(p)
    if b is None:
        st.ev('free-opaque', val=p)
        return
    o, off = b
    if st.facts.eq0(off) is not True:
        st.ev('bad-free', val=p)
        return
    if o.freed:
        st.ev('double-free', obj=o.id, first=o.freed, alloc=o.where)
        st.status = 'dead'
        return
    if o.kind in ('alloca', 'global'):
        st.ev('bad-free', val=p)
        return
    w = st.wobj(o.id)
    w.freed = st.where()
    st.ev('free', obj=o.id)


def noop(e, st, a, ins):
    return None


def retsym(name, w=32, tag=None, **kw):
    def m(e, st, a, ins):
        st.ev('call', fn=name, args=a)
        return st.fresh(name, w, tag=tag, **kw)
    return m


def const(v):
    return lambda e, st, a, ins: v


def event(kind, ret=None):
    def m(e, st, a, ins):
        st.ev(kind, args=a)
        return ret
    return m


def m_abort(e, st, a, ins):
    st.ev('abort', args=[cs(st, x) if isinstance(x, Ptr) else x for x in a[:1]])
    st.status = 'abort'
    return [(st, None)]


def libc():
    m = {
        'strcmp': _strcmp(False), 'strcasecmp': _strcmp(True), 'strncmp': m_strncmp, 'strlen': m_strlen,
        'memcpy': m_memcpy, 'memmove': m_memcpy, 'memset': m_memset, 'memcmp': m_memcmp,
        'llvm.memcpy.p0.p0.i64': m_memcpy, 'llvm.memmove.p0.p0.i64': m_memcpy, 'llvm.memset.p0.i64': m_memset,
        'strchr': m_strchr, 'strcpy': m_strcpy, 'strcat': m_strcat,
        'snprintf': m_snprintf, 'strophe_snprintf': m_snprintf,
        'strtol': m_toul, 'strtoul': m_toul, 'strtoll': m_toul, 'strtoull': m_toul,
        '__assert_fail': m_abort, 'abort': m_abort, 'exit': m_abort,
        'llvm.va_start': noop, 'llvm.va_end': noop, 'llvm.va_copy': noop,
        'llvm.lifetime.start.p0': noop, 'llvm.lifetime.end.p0': noop,
    }
    return m


LOGS = ['strophe_debug', 'strophe_info', 'strophe_warn', 'strophe_error', 'strophe_debug_verbose', 'strophe_log',
        'strophe_log_internal']


def logs():
    return {n: noop for n in LOGS}


def errno_model():
    def m(e, st, a, ins):
        oid = '@errno'
        if oid not in st.mem:
            o = Obj(oid, 'global', 'errno', 4, 'lazy')
            st.mem[oid] = o
        return Ptr(oid, 0)
    return {'__errno_location': m}


def str_byte_hook(st, o, off, sz, ty):
    """bytes of unmodified input strings are functions of the string"""
    if o.kind == 'lazy' and o.stype is None and sz == 1 and o.base is not None and ty.k == 'int':
        c = skip(st, subst(st, (S(o.base),)), off)
        if c is not None and c and isinstance(c[0], bytes):
            return c[0][0]
        if c == ():
            return 0
        return App('byte', S(o.base), st.norm(off), w=8)
    return None


# ------------------------------------------------------------- stanza API
class Snap:
    """immutable picture of an outgoing stanza"""
    __slots__ = ('name', 'attrs', 'kids', 'text', 'src')

    def __init__(s, name, attrs, kids, text, src=None):
        s.name, s.attrs, s.kids, s.text, s.src = name, attrs, kids, text, src

    def child(s, name):
        for k in s.kids:
            if k.name == name:
                return k
        return None

    def all(s):
        yield s
        for k in s.kids:
            yield from k.all()

    def textof(s):
        if s.text is not None:
            return s.text
        out = ()
        for k in s.kids:
            if k.text is not None:
                out += k.text
        return merge(out)

    def __repr__(s):
        if s.src is not None:
            return '<copy of %r>' % (s.src,)
        if s.text is not None:
            return 'text%r' % (s.text,)
        return '<%s %r>%r' % (s.name, s.attrs, list(s.kids))


def _isout(st, p):
    p = st.norm(p)
    if isinstance(p, Ptr):
        o = st.mem.get(p.obj)
        if o is not None and o.kind == 'stanza':
            return o
    return None


def _chk(st, o):
    if o.freed:
        st.ev('use-after-free', obj=o.id, freed=o.freed, why='stanza api', alloc=o.where)
        st.status = 'dead'
        return False
    return True


def snap(st, p):
    o = _isout(st, p)
    if o is None:
        return Snap(None, (), tuple(snap(st, k) for k in st.g.get(('inkids', st.norm(p)), ())), None, st.norm(p))
    x = o.x
    if x.get('copyof') is not None:
        return Snap(None, tuple(sorted(x['attrs'].items())), tuple(snap(st, k) for k in x['kids']), None, x['copyof'])
    return Snap(x['name'], dict(x['attrs']), tuple(snap(st, k) for k in x['kids']), x['text'])


class Stanzas:
    """incoming stanzas are input terms, outgoing ones heap objects of kind 'stanza'"""

    def new(s, e, st, a, ins, **kw):
        o = st.new_obj('stanza', 'stanza', None)
        o.x = {'name': None, 'attrs': {}, 'kids': (), 'text': None, 'ref': 1, 'parent': None, 'copyof': None}
        o.x.update(kw)
        st.ev('alloc', obj=o.id)
        return Ptr(o.id, 0)

    def w(s, st, p, why):
        o = _isout(st, p)
        if o is None:
            if not deref_ok(st, p, why):
                return None
            st.ev('mutates-input-stanza', arg=p, fn=why)
            return None
        if not _chk(st, o):
            return None
        return st.wobj(o.id)

    def strval(s, st, p):
        p = st.norm(p)
        if st.isnull(p) is True:
            return None
        c = content(st, p)
        if c is None:
            c = (st.fresh('ostr'),)
        c = subst(st, c)
        if len(c) == 0:
            return ''
        if len(c) == 1 and isinstance(c[0], bytes):
            return c[0].decode('latin1')
        return c

    def set_name(s, e, st, a, ins):
        o = s.w(st, a[0], 'xmpp_stanza_set_name')
        if o:
            o.x['name'] = s.strval(st, a[1])
        return s.fin(st, 0)

    def fin(s, st, v):
        return [(st, v)] if st.status != 'run' else v

    def set_attr(s, e, st, a, ins, key=None):
        if key is None:
            key, val = s.strval(st, a[1]), a[2]
        else:
            val = a[1]
        o = s.w(st, a[0], 'xmpp_stanza_set_attribute')
        if o:
            if st.isnull(val) is not False and isinstance(st.norm(val), Term) and st.norm(val).tag == 'nullable':
                if st.isnull(val) is None:
                    st.ev('maybe-null-deref', val=val, why='set_attribute value')
            elif st.isnull(val) is True:
                st.ev('null-attr', key=key)
            if st.isnull(val) is not True:
                d = dict(o.x['attrs'])
                d[key] = s.strval(st, val)
                o.x['attrs'] = d
        return s.fin(st, 0)

    def set_text(s, e, st, a, ins):
        o = s.w(st, a[0], 'xmpp_stanza_set_text')
        if o:
            if not deref_ok(st, a[1], 'set_text'):
                return [(st, 0)]
            if len(a) > 2:
                c = content(st, a[1], st.norm(a[2]))
            else:
                c = content(st, a[1])
            if c is None:
                st.ev('opaque-string', fn='set_text', args=a)
                c = (st.fresh('ostr'),)
            o.x['text'] = subst(st, c)
        return s.fin(st, 0)

    def add_child(s, e, st, a, ins):
        clone = True if len(a) < 3 else st.norm(a[2])
        o = s.w(st, a[0], 'xmpp_stanza_add_child')
        if not o:
            if st.status == 'run' and _isout(st, a[1]) is not None:
                k = ('inkids', st.norm(a[0]))
                st.g[k] = st.g.get(k, ()) + (st.norm(a[1]),)
                c = _isout(st, a[1])
                if clone:
                    st.wobj(c.id).x['ref'] += 1
            return s.fin(st, 0)
        c = _isout(st, a[1])
        if c is None:
            if st.isnull(a[1]) is True or (isinstance(st.norm(a[1]), Term) and st.norm(a[1]).tag == 'nullable' and st.isnull(a[1]) is None):
                st.ev('null-deref' if st.isnull(a[1]) else 'maybe-null-deref', val=a[1], why='add_child')
                if st.isnull(a[1]):
                    st.status = 'dead'
            else:
                # take over the caller's reference of an input object
                if clone:
                    s.inref(st, a[1], 1)
                o.x['kids'] = o.x['kids'] + (st.norm(a[1]),)
                k = ('adopted', st.norm(a[1]))
                st.g[k] = o.id
            return s.fin(st, 0)
        if not _chk(st, c):
            return [(st, 0)]
        cw = st.wobj(c.id)
        if clone:
            cw.x['ref'] += 1
        cw.x['parent'] = o.id
        o.x['kids'] = o.x['kids'] + (Ptr(c.id, 0),)
        return 0

    def inref(s, st, p, d):
        p = st.norm(p)
        k = ('inref', p)
        st.g[k] = st.g.get(k, 0) + d

    def clone(s, e, st, a, ins):
        o = _isout(st, a[0])
        if o:
            if not _chk(st, o):
                return [(st, 0)]
            st.wobj(o.id).x['ref'] += 1
            return a[0]
        if not deref_ok(st, a[0], 'xmpp_stanza_clone'):
            return [(st, 0)]
        s.inref(st, a[0], 1)
        return a[0]

    def copy(s, e, st, a, ins):
        o = _isout(st, a[0])
        if o is None:
            if not deref_ok(st, a[0], 'xmpp_stanza_copy'):
                return [(st, 0)]
            return s.new(e, st, a, ins, copyof=st.norm(a[0]))
        if not _chk(st, o):
            return [(st, 0)]
        kids = tuple(s.copy(e, st, [k], ins) for k in o.x['kids'])
        p = s.new(e, st, a, ins)
        w = st.wobj(p.obj)
        w.x.update(name=o.x['name'], attrs=dict(o.x['attrs']), text=o.x['text'], kids=kids, copyof=o.x['copyof'])
        return p

    def drop(s, st, p):
        o = _isout(st, p)
        if o is None:
            if not deref_ok(st, p, 'xmpp_stanza_release'):
                return
            s.inref(st, p, -1)
            st.ev('release-input', val=st.norm(p))
            return
        if o.freed:
            st.ev('double-free', obj=o.id, first=o.freed, alloc=o.where)
            st.status = 'dead'
            return
        w = st.wobj(o.id)
        w.x['ref'] -= 1
        if w.x['ref'] == 0:
            w.freed = st.where()
            st.ev('free', obj=o.id)
            for k in w.x['kids']:
                if st.status == 'run':
                    s.drop(st, k)

    def release(s, e, st, a, ins):
        ref = 1
        o = _isout(st, a[0])
        s.drop(st, a[0])
        return s.fin(st, int(bool(o is not None and st.mem[o.id].freed)))

    # incoming accessors
    def acc(kind, nullable=True):
        def m(s, e, st, a, ins):
            o = _isout(st, a[0])
            if o is not None:
                if not _chk(st, o):
                    return [(st, UNDEF)]
                return s.outacc(e, st, kind, o, a)
            if not deref_ok(st, a[0], 'stanza ' + kind):
                return [(st, UNDEF)]
            keys = []
            for x in a[1:]:
                v = s.strval(st, x)
                keys.append(v if isinstance(v, (str, type(None))) else repr(v))
            return App(kind, st.norm(a[0]), *keys, tag='nullable' if nullable else 'nonnull')
        return m

    def outacc(s, e, st, kind, o, a):
        def sp(v):
            if v is None:
                return 0
            k = ('sconst', o.id, v)
            ps = (v.encode('latin1'),) if isinstance(v, str) else v
            ob = st.new_obj('global', 'stanzastr')
            put_pieces(st, Ptr(ob.id, 0), ps, True)
            return Ptr(ob.id, 0)
        if o.x['copyof'] is not None:
            return App(kind, o.x['copyof'], *[repr(s.strval(st, x)) for x in a[1:]], tag='nullable')
        if kind == 'name':
            return sp(o.x['name'])
        if kind == 'attr':
            return sp(o.x['attrs'].get(s.strval(st, a[1])))
        if kind == 'textptr':
            return sp(o.x['text'])
        if kind == 'children':
            return o.x['kids'][0] if o.x['kids'] else 0
        return st.fresh('out.' + kind, tag='nullable')

    get_name = acc('name')
    get_attr = acc('attr')
    get_textptr = acc('textptr')
    children = acc('children')
    nxt = acc('next')
    child_n = acc('child')
    child_ns = acc('childns')
    child_nns = acc('childnns')

    def by_path(s, e, st, a, ins):
        keys = []
        for x in a[1:]:
            if st.isnull(x) is True:
                break
            keys.append(s.strval(st, x))
        return App('bypath', st.norm(a[0]), *map(str, keys), tag='nullable')

    def get_text(s, e, st, a, ins):
        o = _isout(st, a[0])
        if o is not None:
            if not _chk(st, o):
                return [(st, UNDEF)]
            return Ptr(heap_str(st, snap(st, a[0]).textof(), 'get_text').id, 0)
        if not deref_ok(st, a[0], 'xmpp_stanza_get_text'):
            return [(st, UNDEF)]
        t = App('textof', st.norm(a[0]), tag='nullable')
        n = st.facts.eq0(t)
        out = []
        if n is not False:
            o2 = st if n else st.copy()
            if o2.facts.assume_range(t, 0, 0):
                note(o2, ('notext', t), True)
                out.append((o2, 0))
        if n is not True and st.facts.assume_ne(t):
            note(st, ('notext', t), False)
            out.append((st, Ptr(heap_str(st, (S(t),), 'get_text').id, 0)))
        return out

    def is_text(s, e, st, a, ins):
        o = _isout(st, a[0])
        if o is not None:
            return int(o.x['text'] is not None)
        if st.isnull(a[0]) is True:
            return 0
        return App('is_text', st.norm(a[0]), w=32, lo=0, hi=1)

    def is_tag(s, e, st, a, ins):
        o = _isout(st, a[0])
        if o is not None:
            return int(o.x['name'] is not None)
        if st.isnull(a[0]) is True:
            return 0
        return App('is_tag', st.norm(a[0]), w=32, lo=0, hi=1)

    def iq_new(s, e, st, a, ins):
        p = s.new(e, st, a, ins)
        w = st.wobj(p.obj)
        w.x['name'] = 'iq'
        for k, v in (('type', a[1]), ('id', a[2])):
            if st.isnull(v) is not True:
                d = dict(w.x['attrs'])
                d[k] = s.strval(st, v)
                w.x['attrs'] = d
        return p

    def to_text(s, e, st, a, ins):
        """xmpp_stanza_to_text: EOK with a fresh buffer, or an error with NULL/0"""
        if not deref_ok(st, a[0], 'to_text'):
            return [(st, UNDEF)]
        sn = snap(st, a[0])
        st.ev('to_text', stanza=sn, arg=a[0])
        k = App('rendered', repr(sn))
        st.g[('rendered', k)] = sn
        out = []
        o2 = st.copy()
        ob = heap_str(st, (k,), 'to_text')
        st.store(a[1], Ptr(ob.id, 0), 8)
        st.store(a[2], Len(k), 8)
        out.append((st, 0))
        o2.store(a[1], 0, 8)
        o2.store(a[2], 0, 8)
        o2.g['to_text_failed'] = 1
        note(o2, ('to_text-fails',), True)
        rv = o2.fresh('to_text_err', 32)
        o2.facts.assume_range(rv, -10, -1)
        out.append((o2, rv))
        return out if st.g.get('allow_to_text_fail', True) else out[:1]

    def models(s):
        def key(k):
            return lambda e, st, a, ins: s.set_attr(e, st, a, ins, k)
        return {
            'xmpp_stanza_new': s.new, 'xmpp_stanza_set_name': s.set_name, 'xmpp_stanza_set_attribute': s.set_attr,
            'xmpp_stanza_set_ns': key('xmlns'), 'xmpp_stanza_set_id': key('id'), 'xmpp_stanza_set_type': key('type'),
            'xmpp_stanza_set_to': key('to'), 'xmpp_stanza_set_from': key('from'),
            'xmpp_stanza_set_text': s.set_text, 'xmpp_stanza_set_text_with_size': s.set_text,
            'xmpp_stanza_add_child': s.add_child, 'xmpp_stanza_add_child_ex': s.add_child,
            'xmpp_stanza_clone': s.clone, 'xmpp_stanza_copy': s.copy, 'xmpp_stanza_release': s.release,
            'xmpp_stanza_get_name': s.get_name, 'xmpp_stanza_get_attribute': s.get_attr,
            'xmpp_stanza_get_text_ptr': s.get_textptr, 'xmpp_stanza_get_text': s.get_text,
            'xmpp_stanza_get_children': s.children, 'xmpp_stanza_get_next': s.nxt,
            'xmpp_stanza_get_child_by_name': s.child_n, 'xmpp_stanza_get_child_by_ns': s.child_ns,
            'xmpp_stanza_get_child_by_name_and_ns': s.child_nns, 'xmpp_stanza_get_child_by_path': s.by_path,
            'xmpp_stanza_is_text': s.is_text, 'xmpp_stanza_is_tag': s.is_tag, 'xmpp_iq_new': s.iq_new,
            'xmpp_stanza_to_text': s.to_text,
        }


STZ = Stanzas()


def m_send_stanza(e, st, a, ins):
    """send_stanza(conn, stanza, owner): consumes the stanza"""
    if not deref_ok(st, a[1], 'send_stanza'):
        return [(st, None)] if st.status != 'run' else None
    st.ev('send', stanza=snap(st, a[1]), owner=st.norm(a[2]), conn=a[0])
    STZ.drop(st, a[1])
    return STZ.fin(st, None)


def m_xmpp_send(e, st, a, ins):
    st.ev('user-send', stanza=snap(st, a[1]), conn=a[0])
    return None


def m_send_raw(e, st, a, ins):
    if not deref_ok(st, a[1], 'send_raw'):
        return [(st, None)]
    c = content(st, a[1], st.norm(a[2]))
    st.ev('send_raw', data=subst(st, c) if c is not None else None, ptr=a[1], len=st.norm(a[2]), owner=st.norm(a[3]), conn=a[0], userdata=a[4])
    return None


def m_send_raw_string(e, st, a, ins):
    fl = lit(st, a[1])
    ps = fmt_pieces(e, st, fl, a[2:]) if fl is not None else None
    if st.status != 'run':
        return [(st, None)]
    st.ev('send_raw', data=subst(st, ps) if ps is not None else None, ptr=None, len=None, owner=1, conn=a[0], fmt=fl, userdata=0)
    return None


def _maybe(st, p):
    v = STZ.strval(st, p)
    return v


def handler_models():
    def add(e, st, a, ins):
        st.ev('handler_add', fn=st.norm(a[1]), ns=_maybe(st, a[2]), name=_maybe(st, a[3]), type=_maybe(st, a[4]), ud=st.norm(a[5]), how='filter', conn=a[0])

    def add_id(e, st, a, ins):
        st.ev('handler_add', fn=st.norm(a[1]), id=_maybe(st, a[2]), ud=st.norm(a[3]), how='id', conn=a[0])

    def add_t(e, st, a, ins):
        st.ev('handler_add', fn=st.norm(a[1]), period=st.norm(a[2]), ud=st.norm(a[3]), how='timed', conn=a[0])

    def dele(how):
        def m(e, st, a, ins):
            st.ev('handler_del', fn=st.norm(a[1]), how=how, id=_maybe(st, a[2]) if how == 'id' else None)
        return m
    return {
        'handler_add': add, 'handler_add_id': add_id, 'handler_add_timed': add_t,
        'xmpp_handler_delete': dele('filter'), 'xmpp_timed_handler_delete': dele('timed'), 'xmpp_id_handler_delete': dele('id'),
        'handler_reset_timed': lambda e, st, a, ins: st.ev('reset_timed', user_only=st.norm(a[1])),
        'handler_system_delete_all': lambda e, st, a, ins: st.ev('system_delete_all'),
    }


# ------------------------------------------------------------- digests as terms
def _hkey(st, p):
    p = st.norm(p)
    if isinstance(p, Ptr):
        return ('hash', p.obj, p.off)
    return ('hash', p, 0)


def hash_init(e, st, a, ins):
    if not deref_ok(st, a[0], 'hash init'):
        return [(st, None)]
    st.g[_hkey(st, a[0])] = ()
    return None


def hash_update(swap=False):
    def m(e, st, a, ins):
        n = st.norm(a[2])
        if not (type(n) is int and n == 0) and not deref_ok(st, a[1], 'hash update'):
            return [(st, None)]
        if e.bounds or True:
            b = st.base_of(a[1])
            if b is not None and b[0].kind != 'lazy':
                st.in_bounds(b[0], b[1], n, 'read')
        c = content(st, a[1], n)
        if c is None:
            st.ev('opaque-string', fn='hash_update', args=a)
            c = (st.fresh('ohash'),)
        k = _hkey(st, a[0])
        if k not in st.g:
            st.ev('hash-uninit', ctx=a[0])
        st.g[k] = merge(tuple(st.g.get(k, ())) + tuple(subst(st, c)))
        return None
    return m


def hash_final(name, size, ctx=0, out=1):
    def m(e, st, a, ins):
        k = _hkey(st, a[ctx])
        t = App(name, subst(st, st.g.get(k, (Sym('hash-uninit'),))))
        st.g.pop(k, None)
        st.facts.assume_range(Len(t), size, size)
        put_pieces(st, a[out], (t,))
        return None
    return m


def hash_oneshot(name, size):
    def m(e, st, a, ins):
        c = content(st, a[0], st.norm(a[1]))
        if c is None:
            st.ev('opaque-string', fn=name, args=a)
            c = (st.fresh('ohash'),)
        t = App(name, subst(st, c))
        st.facts.assume_range(Len(t), size, size)
        put_pieces(st, a[2], (t,))
        return None
    return m


def hash_models():
    m = {}
    for name, size, i, u, f, fi, fo, one in (
            ('sha1', 20, 'crypto_SHA1_Init', 'crypto_SHA1_Update', 'crypto_SHA1_Final', 0, 1, 'crypto_SHA1'),
            ('md5', 16, 'MD5Init', 'MD5Update', 'MD5Final', 1, 0, None),
            ('sha256', 32, 'sha256_init', 'sha256_process', 'sha256_done', 0, 1, 'sha256_hash'),
            ('sha512', 64, 'sha512_init', 'sha512_process', 'sha512_done', 0, 1, 'sha512_hash')):
        m[i] = hash_init
        m[u] = hash_update()
        m[f] = hash_final(name, size, fi, fo)
        if one:
            m[one] = hash_oneshot(name, size)
    return m
