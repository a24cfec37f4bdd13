"""C18: base64 as a bit-level dataflow property."""
from itertools import product
from p_nego import *
from eng import *
from models import content, Alloc
from shapes import alarms

ALPHA = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'


def bits(name, n=8, w=8):
    return mkbits([Sym('%s.b%d' % (name, i), 1) for i in range(n)] + [0] * (w - n), w)


def table_of(e, P, o):
    """the bytes of a constant table, or None"""
    g = {}
    for c, (sz, v) in o.cells.items():
        if type(c) is not int or type(v) is not int or type(sz) is not int:
            return None
        for i, b in enumerate((v & ((1 << (8 * sz)) - 1)).to_bytes(sz, 'little')):
            g[c + i] = b
    return g


def strip(v, ops=('zext', 'cast')):
    while isinstance(v, Term) and v.op in ops:
        v = v.args[0]
    return v


def base_models():
    m = dict(conn_models())
    m.update(Alloc(False).models())
    for k in list(m):
        if 'base64' in k:
            del m[k]
    return m


def inobj(st, name, cells):
    o = st.new_obj('heap', name, len(cells), 'undef')
    for i, v in enumerate(cells):
        o.cells[i] = (1, v)
    return Ptr(o.id, 0)


def engine(P, m, max_paths=20000):
    e = Engine(P, m, max_paths=max_paths, max_steps=10 ** 9, loopk=64, bounds=True)
    return e


CTX0 = Sym('b64ctx', tag='nonnull')


# -- encoding -----------------------------------------------------------------
def encode_rules(rep, P, lens):
    fn = 'xmpp_base64_encode'
    for n in lens:
        m = base_models()
        e = engine(P, m)
        data = [bits('e%d' % i) for i in range(n)]
        sts = e.start(P.func(fn), [CTX0, lambda st: inobj(st, 'data', data), n])
        rep.engine(e, len(sts))
        done = 0
        for st in sts:
            al = alarms(st)
            rep.check('memory', not al and st.status == 'done', 'encode', al[0].where if al else fn, 'encoding %d bytes: %s %s' % (n, al[0].kind if al else st.status, al[0].d if al else ''), fn)
            if al or st.status != 'done':
                continue
            if not isinstance(st.ret, Ptr):
                rep.bad('encode', 'null', fn, 'encoding %d bytes returns %s' % (n, st.ret))
                continue
            done += 1
            o = st.mem[st.ret.obj]
            k = (n + 2) // 3 * 4
            allb = []
            for d in data:
                allb = [b for b in reversed(bitvec8(d))] and allb + list(reversed(bitvec8(d)))
            for i in range(k):
                c = o.cells.get(i)
                v = st.norm(c[1]) if c and c[0] == 1 else None
                if i >= (n * 8 + 5) // 6:
                    ok = v == ord('=')
                    want = "'='"
                else:
                    sx = allb[6 * i:6 * i + 6]
                    sx += [0] * (6 - len(sx))
                    ok = is_char(e, st, P, v, sx)
                    want = 'the character of bits %d..%d' % (6 * i, 6 * i + 5)
                rep.check('encode', ok, '%d:%d' % (n % 3, i - (k - 4) if i >= k - 4 else 0), fn, 'encoding %d bytes: character %d is %s instead of %s' % (n, i, v, want), fn)
            z = o.cells.get(k)
            rep.check('encode', z is not None and st.norm(z[1]) == 0, 'end', fn, 'encoding %d bytes: the result is not terminated after %d characters' % (n, k), fn)
        if not done:
            rep.bad('encode', 'none:%d' % n, fn, '%d bytes cannot be encoded' % n)


def bitvec8(v):
    from eng import bitvec
    return bitvec(v, 8)


def is_char(e, st, P, v, sx):
    """v is the base64 character of the six bits (most significant first)"""
    if type(v) is int:
        return all(type(b) is int for b in sx) and v == ALPHA[sum(b << (5 - i) for i, b in enumerate(sx))]
    v = strip(v)
    if not isinstance(v, Term) or v.op != 'ld':
        return False
    o = e.gobj_of(st, v.args[0]) if hasattr(e, 'gobj_of') else st.mem.get(v.args[0])
    t = table_of(e, P, o) if o is not None else None
    if t is None or bytes(t.get(i, 0) for i in range(64)) != ALPHA:
        return False
    ix = strip(v.args[1])
    from eng import bitvec
    b = bitvec(ix, ix.w) if isinstance(ix, Term) else None
    return b is not None and b[:6] == list(reversed(sx)) and all(type(x) is int and x == 0 for x in b[6:])


# -- decoding -----------------------------------------------------------------
def decode_models(P, cls):
    m = base_models()

    def slen_(e, st, a, ins):
        b = st.base_of(a[0])
        if b is None or b[0].kind != 'heap':
            return NotImplemented
        o, off = b
        out = []
        i = off
        while True:
            c = st.mem[o.id].cells.get(i)
            if c is None:
                st.ev('undef-load', obj=o.id, off=i, size=1)
                return UNDEF
            v = st.norm(c[1])
            if type(v) is int:
                if v == 0:
                    break
            else:
                # may be a NUL
                s2 = st.copy()
                s2.g['nul'] = True
                out.append((s2, i - off))
            i += 1
        return out + [(st, i - off)]

    def chr_(e, st, a, ins):
        n = st.norm(a[2])
        b = st.base_of(a[0])
        if b is None or b[0].kind != 'heap' or type(n) is not int or st.norm(a[1]) != 0:
            return NotImplemented
        out = []
        for i in range(n):
            c = st.mem[b[0].id].cells.get(b[1] + i)
            v = st.norm(c[1]) if c else 0
            if type(v) is int and v == 0:
                return out + [(st, Ptr(b[0].id, b[1] + i))]
            if type(v) is not int:
                s2 = st.copy()
                s2.g['nul'] = True
                out.append((s2, Ptr(b[0].id, b[1] + i)))
        return out + [(st, 0)]
    m['strlen'] = slen_
    m['memchr'] = chr_
    return m


def decode_one(rep, P, fn, cls, canon):
    """cls: a word over A (base64 character), P ('='), X (anything else)"""
    n = len(cls)
    chars = [Sym('d%d.%s' % (i, c), 8, lo=0, hi=255) if c != 'P' else ord('=') for i, c in enumerate(cls)]
    vals = [bits('d%d.v' % i, 6) for i in range(n)]
    m = decode_models(P, cls)
    e = engine(P, m)

    def hook(st, o, off, sz, ty):
        if not (o.const or o.kind == 'global') or type(off) is int or sz != 1:
            return None
        ix = off
        ext = []
        while isinstance(ix, Term) and ix.op in ('zext', 'sext', 'cast'):
            ext.append(ix.op)
            ix = ix.args[0]
        if ix not in chars:
            return None
        if 'sext' in ext and not ('zext' in ext and ext.index('sext') < ext.index('zext')):
            st.ev('oob', obj=o.id, off=off, size=1, osize=o.size, sure=False, why='a negative index', lo=-128, slack=(0, 0))
            return 0
        i = chars.index(ix)
        t = table_of(e, P, o)
        if t is None:
            return None
        if cls[i] == 'A':
            if all(t.get(ch) == k for k, ch in enumerate(ALPHA)):
                return vals[i]
            st.g['badtable'] = True
            return vals[i]
        other = {t.get(ch, 0) for ch in range(256) if ch not in ALPHA and ch != ord('=')}
        if len(other) != 1:
            st.g['badtable'] = True
        return min(other)
    e.load_hooks.append(hook)
    lib = {}

    def buf(st):
        return inobj(st, 'text', chars)
    if fn.endswith('_bin'):
        def outp(st, w):
            o = st.new_obj('alloca', 'out%d' % w, 8, 'undef')
            lib[w] = o.id
            return Ptr(o.id, 0)
        args = [CTX0, buf, n, lambda st: outp(st, 0), lambda st: outp(st, 1)]
    else:
        args = [CTX0, buf, n]
    sts = e.start(P.func(fn), args)
    rep.engine(e, len(sts))
    good = n % 4 == 0 and 'X' not in cls and cls.rstrip('P').find('P') < 0 and n - len(cls.rstrip('P')) <= 2 and n > 0
    pad = n - len(cls.rstrip('P')) if good else 0
    size = n // 4 * 3 - pad
    accepted = False
    for st in sts:
        al = alarms(st)
        what = '%s of "%s"' % (fn, cls)
        key = '%s:%s' % (fn[12:], 'A' * 0 + cls[-4:] if n <= 4 else '..' + cls[-4:])
        rep.check('memory', not al and st.status == 'done', fn[12:], al[0].where if al else fn, '%s: %s %s' % (what, al[0].kind if al else st.status, al[0].d if al else ''), fn)
        if al or st.status != 'done':
            continue
        rep.check('tables', not st.g.get('badtable'), 'inverse', fn, 'the decoding table does not invert the alphabet, or does not reject every other character alike', fn)
        if fn.endswith('_bin'):
            r = st.norm(e.load_cell(st, st.mem[lib[0]], 0, 8, T('ptr')))
            L = st.norm(e.load_cell(st, st.mem[lib[1]], 0, 8, I64))
        else:
            r, L = st.ret, None
        live = [o for o in st.mem.values() if o.kind == 'heap' and o.name.startswith('alloc') and not o.freed]
        if isinstance(r, Ptr):
            rep.check('memory', [o.id for o in live] == [r.obj], 'leak', fn, '%s: besides the result %d objects are left' % (what, len(live) - 1), fn)
            rep.check('strict', good or n == 0, key, fn, '%s: accepted, although not correctly padded base64' % what, cls)
            if st.g.get('nul') and not fn.endswith('_bin'):
                rep.bad('nul', 'nul', fn, '%s: a value containing NUL is returned as a string' % what)
                continue
            if not good:
                continue
            accepted = True
            o = st.mem[r.obj]
            sx = []
            for v in vals[:n - pad]:
                sx += list(reversed(bitvec8(v)[:6]))
            for i in range(size):
                c = o.cells.get(i)
                v = st.norm(c[1]) if c and c[0] == 1 else None
                b = bitvec8(v) if v is not None else None
                rep.check('decode', b is not None and list(reversed(b)) == sx[8 * i:8 * i + 8], '%s:%d' % (key, i % 3), fn, '%s: byte %d is %s' % (what, i, v), cls)
            z = o.cells.get(size)
            rep.check('decode', z is not None and st.norm(z[1]) == 0, key + ':end', fn, '%s: the value is not terminated after %d bytes' % (what, size), cls)
            if L is not None:
                rep.check('decode', L == size, key + ':len', fn, '%s: the length is %s instead of %d' % (what, L, size), cls)
        else:
            rep.check('memory', not live, 'leak', fn, '%s: %d objects are left after a refusal' % (what, len(live)), fn)
            rep.check('decode', r == 0 and (L is None or L == 0), key + ':refused', fn, '%s: refused with result %s, length %s' % (what, r, L), cls)
            if st.g.get('nul') and not fn.endswith('_bin'):
                rep.ok('nul')
    if good and not accepted:
        rep.bad('decode', 'refused:%s' % cls[-4:], fn, '%s of "%s": correctly padded base64 is refused' % (fn, cls))


def words(tier):
    out = ['', 'A', 'AA', 'AAA', 'AAAAA', 'AAAAAA', 'AAAAAAA', 'AAAP', 'AAP', 'AP', 'AAPP' + 'A', 'AAAAAAP']
    out += [''.join(w) for w in product('APX', repeat=4)]
    if tier == 'thorough':
        out += [''.join(w) for w in product('APX', repeat=8)]
        out += ['AAAAAAAA' + ''.join(w) for w in product('APX', repeat=4)]
    else:
        out += ['AAAA' + ''.join(w) for w in product('APX', repeat=4)]
        out += [''.join(w) + t for w in product('APX', repeat=4) for t in ('AAAA', 'AAAP', 'AAPP')]
        out += ['AAAAAAAA' + t for t in ('AAAA', 'AAAP', 'AAPP', 'APPP')] + ['AAAAAAPPAAAA', 'AAAPAAAAAAAP', 'AAAAXAAAAAPP']
    return list(dict.fromkeys(out))


def c18(rep):
    P = Program()
    R = rep.rule
    R('encode', 'every output character is the alphabet entry of exactly its six input bits, padding and terminator are in place', 60)
    R('decode', 'correctly padded base64 is accepted; every output byte is composed of exactly its eight bits, with the right length and a terminator', 100)
    R('strict', 'nothing else is accepted', 5)
    R('nul', 'the string variant refuses values with a NUL', 3)
    R('tables', 'the decoding table is the inverse of the alphabet and marks every other byte alike', 100)
    R('memory', 'no access outside of the buffers, no uninitialised byte, nothing leaked', 200)
    encode_rules(rep, P, range(0, 40 if rep.tier == 'thorough' else 11))
    for fn in ('xmpp_base64_decode_bin', 'xmpp_base64_decode_str'):
        for w in words(rep.tier):
            if fn.endswith('_str') and rep.tier != 'thorough' and len(w) > 4 and w.count('A') < 5:
                continue
            decode_one(rep, P, fn, w, False)
    rep.notes.append('lengths are bounded: encoding up to %d bytes, decoding up to 12 characters, every character and byte unknown' % (39 if rep.tier == 'thorough' else 10))
    return 'other', 'bit-level dataflow: each bit of the input is an unknown, character classes are partitioned by the decoding table'
