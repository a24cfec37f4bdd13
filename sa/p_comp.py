"""C20: stream compression is transparent.

The four operations of the compressing layer are analysed from the state compression_init leaves, one after the other,
over an abstract (de)compressor and transport: both take any amount and may refuse.  A monitor keeps which part of the
staging buffer holds bytes not yet passed on and compares every transfer with it."""
from p_nego import *
from eng import *
from models import Alloc, noop
from shapes import mkobj, setfield, getfield, alarms

NEXT = ('read', 'write', 'flush', 'pending', 'get_error', 'error_is_recoverable')
ZN_IN, ZA_IN, ZN_OUT, ZA_OUT = 0, 8, 24, 32
Z_OK, Z_END, Z_STREAM, Z_DATA, Z_BUF = 0, 1, -2, -3, -5
BIG = 1 << 30


def unz(v):
    while isinstance(v, Term) and v.op in ('trunc', 'zext', 'cast', 'sext'):
        v = v.args[0]
    return v


def eq(st, a, b):
    """proved equal"""
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.obj == b.obj and eq(st, a.off, b.off)
    if isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
        return a == b
    return st.facts.eq0(st.norm(lsub(unz(st.norm(a)), unz(st.norm(b))))) is True


def le(st, a, b):
    return st.facts.range(st.norm(lsub(unz(st.norm(b)), unz(st.norm(a)))))[0] >= 0


def zero(st, a):
    return st.facts.eq0(st.norm(unz(st.norm(a))))


class Comp:
    def __init__(s, rep, P):
        s.rep, s.P = rep, P
        s.op = ''
        m = dict(conn_models())
        m.update(Alloc(False).models())
        for k in ('conn_interface_write', 'compression_init', 'compression_free', 'compression_handle_feature_children'):
            m.pop(k, None)
        m['conn_disconnect'] = s.m_disc
        m['deflateInit_'] = s.m_init('out')
        m['inflateInit_'] = s.m_init('in')
        m['deflate'] = s.m_deflate
        m['inflate'] = s.m_inflate
        m['@nx_write'] = s.m_write
        m['@nx_read'] = s.m_read
        m['@nx_flush'] = lambda e, st, a, ins: 0
        m['@nx_pending'] = lambda e, st, a, ins: 0
        m['@nx_get_error'] = lambda e, st, a, ins: Sym('nx.error', 32)
        m['@nx_error_is_recoverable'] = s.m_recov
        m['memmove'] = m['memcpy'] = m['llvm.memmove.p0.p0.i64'] = m['llvm.memcpy.p0.p0.i64'] = s.m_move(m['memcpy'])
        s.e = Engine(P, m, max_paths=200000, max_steps=10 ** 8, loopk=5, bounds=True)
        s.e.cutloops = True

    def bad(s, st, key, msg):
        s.rep.bad(key, s.op, s.where(st), '%s: %s' % (s.op, msg))

    def where(s, st):
        fr = st.frames[-1] if st.frames else None
        return fr.f.name if fr else s.op

    # -- models ----------------------------------------------------------
    def m_disc(s, e, st, a, ins):
        st.ev('disconnect')

    def m_init(s, d):
        def f(e, st, a, ins):
            st.g['z.' + d] = st.norm(a[0])
            return 0
        return f

    def fld(s, st, strm, off, sz):
        o, o0 = st.base_of(strm)
        return st.norm(s.e.load_cell(st, o, ladd(o0, off), sz, PTR if sz == 8 else I32))

    def put(s, st, strm, off, sz, v):
        o, o0 = st.base_of(strm)
        st.put(o.id, ladd(o0, off), sz, v)

    def out_area(s, st, strm, what):
        """where the (de)compressor writes; checked to be inside of its object"""
        no, ao = s.fld(st, strm, ZN_OUT, 8), unz(s.fld(st, strm, ZA_OUT, 4))
        b = st.base_of(no)
        if b is None:
            s.bad(st, 'area', '%s writes to an unknown place' % what)
            return None
        o, off = b
        if not (le(st, 0, off) and le(st, ladd(off, ao), o.size)):
            s.bad(st, 'area', '%s may write past the end of its buffer' % what)
        else:
            s.rep.ok('area')
        return o, off, ao

    def fr(s, st, nm, lo, hi):
        v = st.fresh(nm, 64)
        if not st.facts.assume_range(v, lo, hi):
            return None
        return v

    def m_deflate(s, e, st, a, ins):
        strm, flush = st.norm(a[0]), st.norm(a[1])
        if type(flush) is not int:
            fs = [x for x in (0, 2, 3)]
            out = []
            for x in fs:
                s2 = st.copy()
                if e.assume(s2, e.icmp(s2, 'eq', flush, x, I32), True):
                    out += s.deflate(e, s2, strm, x)
            return out
        return s.deflate(e, st, strm, flush)

    def deflate(s, e, st, strm, flush):
        s.rep.check('own', eq(st, strm, st.g['z.out']), 'deflate:' + s.op, s.where(st), '%s compresses with a stream that was not set up for it' % s.op, s.op)
        A = s.out_area(st, strm, 'deflate')
        if A is None:
            return []
        o, off, ao = A
        ni, ai = s.fld(st, strm, ZN_IN, 8), unz(s.fld(st, strm, ZA_IN, 4))
        # the input: what is left of the caller's data
        zi = zero(st, ai)
        left = st.norm(lsub(st.g['len'], st.g['used']))
        if zi is not True:
            good = eq(st, ni, Ptr(st.g['src'], st.g['used'])) and le(st, ai, left)
            s.rep.check('once', good, s.op + ':input', s.where(st), '%s compresses something else than the rest of its data' % s.op, s.op)
        # the output: behind what still waits in the buffer
        lo, hi = st.g['lo'], st.g['hi']
        if zero(st, lsub(hi, lo)) is not True:
            good = o.id == st.g['buf'] and eq(st, off, hi)
            s.rep.check('append', good, s.op, s.where(st), '%s compresses over bytes that were not sent yet' % s.op, s.op)
        else:
            s.rep.ok('append')
        outs = []
        pend = st.g['zpend']

        def ret(st, c, p, rc, full):
            if c is not None:
                s.put(st, strm, ZN_IN, 8, Ptr(ni.obj, st.norm(ladd(ni.off, c))) if isinstance(ni, Ptr) else ni)
                s.put(st, strm, ZA_IN, 4, st.norm(lsub(ai, c)))
                st.g['used'] = st.norm(ladd(st.g['used'], c))
            if p is not None:
                s.put(st, strm, ZN_OUT, 8, Ptr(o.id, st.norm(ladd(off, p))))
                s.put(st, strm, ZA_OUT, 4, st.norm(lsub(ao, p)))
                if zero(st, lsub(st.g['hi'], st.g['lo'])) is True:
                    st.g['lo'] = off
                    st.g['buf'] = o.id
                st.g['hi'] = st.norm(ladd(off, p))
            if rc == Z_OK:
                st.g['zpend'] = full
                if c is not None and zero(st, c) is not True:
                    st.g['zdirty'] = True
                if not full and flush:
                    st.g['zdirty'] = False
            elif rc not in (Z_BUF,):
                st.g['zerr'] = True
            outs.append((st, rc & 0xffffffff))
        # no room: nothing happens
        for zo in ((True, False) if zero(st, ao) is None else (zero(st, ao),)):
            b = st.copy()
            if zo and not b.facts.assume_range(ao, 0, 0):
                continue
            if not zo and not b.facts.assume_range(ao, 1, BIG):
                continue
            if zo:
                ret(b, None, None, Z_BUF, None)
                continue
            for z in ((True, False) if zi is None else (zi,)):
                c = b.copy()
                if not c.facts.assume_range(ai, *((0, 0) if z else (1, BIG))):
                    continue
                if z and not c.g['zpend'] and (not flush or not c.g['zdirty']):
                    ret(c, None, None, Z_BUF, None)     # no progress possible
                    continue
                # everything taken, room left
                x = c.copy()
                p = s.fr(x, 'zout', 0, BIG)
                if e.assume(x, e.icmp(x, 'ult', p, ao, I64), True):
                    ret(x, ai, p, Z_OK, False)
                # all room used, everything or a part taken
                x = c.copy()
                ret(x, ai, ao, Z_OK, True)
                if not z:
                    x = c.copy()
                    k = s.fr(x, 'zin', 0, BIG)
                    if e.assume(x, e.icmp(x, 'ult', k, ai, I64), True):
                        ret(x, k, ao, Z_OK, True)
                x = c.copy()
                ret(x, None, None, Z_STREAM, None)
        return outs

    def m_write(s, e, st, a, ins):
        b, n = st.base_of(a[1]), unz(st.norm(a[2]))
        lo, hi = st.g['lo'], st.g['hi']
        have = st.norm(lsub(hi, lo))
        if zero(st, n) is True:
            return 0
        good = b is not None and b[0].id == st.g['buf'] and eq(st, b[1], lo) and le(st, n, have)
        s.rep.check('passed', good, s.op, s.where(st), '%s passes on bytes that are not the next of the compressed stream' % s.op, s.op)
        if not good:
            return []
        st.g['writes'] = st.g.get('writes', 0) + 1
        outs = []
        # all of it
        x = st.copy()
        x.g['lo'] = x.norm(ladd(lo, n))
        outs.append((x, n))
        # a part
        x = st.copy()
        r = s.fr(x, 'sent', 1, BIG)
        if e.assume(x, e.icmp(x, 'ult', r, n, I64), True):
            x.g['lo'] = x.norm(ladd(lo, r))
            x.g['blocked'] = True
            outs.append((x, r))
        # blocked: recoverable or not; nothing taken
        for v, fatal in ((-1, False), (-1, True), (0, False)):
            x = st.copy()
            x.g['blocked'] = True
            if fatal:
                x.g['fatal'] = True
            outs.append((x, v & 0xffffffff))
        return outs

    def m_recov(s, e, st, a, ins):
        # the code of an earlier, unrelated failure tells nothing
        return 0 if st.g.get('fatal') or st.g.get('rd') == 'data' else 1

    def m_move(s, base):
        def f(e, st, a, ins):
            d, sr = st.base_of(a[0]), st.base_of(a[1])
            n = st.norm(a[2])
            if d and sr and 'buf' in st.g and sr[0].id == st.g['buf'] and zero(st, lsub(st.g['hi'], st.g['lo'])) is not True:
                # only the waiting bytes matter
                lo, hi = st.g['lo'], st.g['hi']
                st.in_bounds(sr[0], st.norm(sr[1]), n, 'read')
                st.in_bounds(d[0], st.norm(d[1]), n, 'write')
                good = le(st, sr[1], lo) and le(st, hi, ladd(sr[1], n))
                s.rep.check('kept', good, s.op, s.where(st), '%s moves only a part of the bytes that wait' % s.op, s.op)
                sh = st.norm(lsub(d[1], sr[1]))
                st.g['lo'], st.g['hi'] = st.norm(ladd(lo, sh)), st.norm(ladd(hi, sh))
                st.g['buf'] = d[0].id
                return a[0]
            return base(e, st, a, ins)
        return f

    def m_read(s, e, st, a, ins):
        b, n = st.base_of(a[1]), unz(st.norm(a[2]))
        st.g['reads'] = st.g.get('reads', 0) + 1
        lo, hi = st.g['ilo'], st.g['ihi']
        s.rep.check('input-kept', zero(st, lsub(hi, lo)) is True, s.op, s.where(st), '%s reads from the transport over compressed bytes that were not used yet' % s.op, s.op)
        if b is None:
            s.bad(st, 'area', 'reads into an unknown place')
            return []
        if not (le(st, 0, b[1]) and le(st, ladd(b[1], n), b[0].size)):
            s.bad(st, 'area', 'the transport may write past the end of the buffer')
        else:
            s.rep.ok('area')
        outs = []
        for v, k in ((-1, 'again'), (-1, 'fatal'), (0, 'eof')):
            x = st.copy()
            x.g['rd'] = k
            if k == 'fatal':
                x.g['fatal'] = True
            outs.append((x, v & 0xffffffff))
        x = st.copy()
        r = s.fr(x, 'got', 1, BIG)
        if e.assume(x, e.icmp(x, 'ule', r, n, I64), True):
            x.g['rd'] = 'data'
            x.g['ibuf'], x.g['ilo'], x.g['ihi'] = b[0].id, b[1], x.norm(ladd(b[1], r))
            outs.append((x, r))
        return outs

    def m_inflate(s, e, st, a, ins):
        strm = st.norm(a[0])
        s.rep.check('own', eq(st, strm, st.g['z.in']), 'inflate:' + s.op, s.where(st), '%s decompresses with a stream that was not set up for it' % s.op, s.op)
        A = s.out_area(st, strm, 'inflate')
        if A is None:
            return []
        o, off, ao = A
        ni, ai = s.fld(st, strm, ZN_IN, 8), unz(s.fld(st, strm, ZA_IN, 4))
        lo, hi = st.g['ilo'], st.g['ihi']
        have = st.norm(lsub(hi, lo))
        if zero(st, ai) is not True:
            good = isinstance(ni, Ptr) and ni.obj == st.g['ibuf'] and eq(st, ni.off, lo) and eq(st, ai, have)
            s.rep.check('input', good, s.op, s.where(st), '%s decompresses something else than the bytes that were received and not used yet' % s.op, s.op)
            if not good:
                return []
        else:
            s.rep.check('input', zero(st, have) is True, s.op, s.where(st), '%s forgets compressed bytes' % s.op, s.op)
        # the result goes behind what this read has returned so far
        good = o.id == st.g['dst'] and eq(st, off, st.g['dlen'])
        s.rep.check('output', good and le(st, ladd(off, ao), st.g['cap']), s.op, s.where(st), '%s decompresses over or past the caller\'s buffer' % s.op, s.op)
        outs = []

        def ret(st, c, p, rc, full):
            if c is not None:
                s.put(st, strm, ZN_IN, 8, Ptr(ni.obj, st.norm(ladd(ni.off, c))) if isinstance(ni, Ptr) else ni)
                s.put(st, strm, ZA_IN, 4, st.norm(lsub(ai, c)))
                st.g['ilo'] = st.norm(ladd(st.g['ilo'], c))
            if p is not None:
                s.put(st, strm, ZN_OUT, 8, Ptr(o.id, st.norm(ladd(off, p))))
                s.put(st, strm, ZA_OUT, 4, st.norm(lsub(ao, p)))
                st.g['dlen'] = st.norm(ladd(st.g['dlen'], p))
            if rc in (Z_OK, Z_END):
                st.g['more'] = full and rc == Z_OK
                st.g['z'] = 'ok' if rc == Z_OK else 'end'
            elif rc != Z_BUF:
                st.g['z'] = 'error'
            outs.append((st, rc & 0xffffffff))
        zi = zero(st, ai)
        for z in ((True, False) if zi is None else (zi,)):
            c = st.copy()
            if not c.facts.assume_range(ai, *((0, 0) if z else (1, BIG))):
                continue
            if z and not c.g['more']:
                ret(c, None, None, Z_BUF, None)
                continue
            # everything taken, some or no output
            for p in ('none', 'some', 'full'):
                x = c.copy()
                if p == 'some':
                    v = s.fr(x, 'iout', 1, BIG)
                    if not e.assume(x, e.icmp(x, 'ult', v, ao, I64), True):
                        continue
                else:
                    v = 0 if p == 'none' else ao
                ret(x, ai, v, Z_OK, p == 'full')
            if z:
                x = c.copy()
                ret(x, None, None, Z_BUF, False)
                x.g['more'] = False
            # a part taken, buffer full
            if not z:
                x = c.copy()
                k = s.fr(x, 'iin', 1, BIG)
                if e.assume(x, e.icmp(x, 'ult', k, ai, I64), True):
                    ret(x, k, ao, Z_OK, True)
                # the end of the compressed data, nothing or something left behind it
                for p in ('none', 'some'):
                    x = c.copy()
                    v = 0
                    if p == 'some':
                        v = s.fr(x, 'iout', 1, BIG)
                        if not e.assume(x, e.icmp(x, 'ule', v, ao, I64), True):
                            continue
                    ret(x, ai, v, Z_END, False)
                x = c.copy()
                ret(x, None, 0, Z_DATA, None)
        return outs

    # -- operations ------------------------------------------------------
    def init(s):
        s.op = 'compression_init'

        P, box = s.P, {}
        cs = '_xmpp_conn_t'

        def conn(st):
            p = mkobj(s.e, st, cs, 'conn', ctx=Sym('cctx', tag='nonnull'), error=0, compression__state=0)
            o = st.mem[p.obj]
            ci = P.off(cs, 'intf')
            for f in NEXT:
                st.put(o.id, ladd(ci, P.off('conn_interface', f)), 8, Fn('@nx_' + f, None))
            st.put(o.id, ladd(ci, P.off('conn_interface', 'conn')), 8, p)
            box['conn'] = p
            return p
        sts = s.e.start(P.func('compression_init'), [conn])
        s.rep.engine(s.e, len(sts))
        out = []
        for st in sts:
            if st.status == 'done' and 'z.out' in st.g and 'z.in' in st.g:
                for k in ('lo', 'hi', 'ilo', 'ihi', 'used', 'len', 'dlen'):
                    st.g[k] = 0
                st.g.update(buf=None, ibuf=None, zpend=False, zdirty=False, more=False)
                out.append(st)
        if not out:
            raise AnalysisBroken('compression_init does not set up both directions')
        s.conn = box['conn']
        return out

    def intf(s, st, f):
        o, o0 = st.base_of(s.conn)
        v = st.norm(s.e.load_cell(st, o, ladd(ladd(o0, s.P.off('_xmpp_conn_t', 'intf')), s.P.off('conn_interface', f)), 8, PTR))
        return v

    def call(s, st, f, extra, init=None):
        v = s.intf(st, f)
        if not isinstance(v, Fn):
            raise AnalysisBroken('the %s operation of the connection is unknown' % f)
        nm = v.name.lstrip('@')
        s.op = 'compressed ' + f
        st = st.copy()
        for k in ('blocked', 'fatal', 'zerr', 'writes', 'reads', 'rd', 'z'):
            st.g.pop(k, None)
        o, o0 = st.base_of(s.conn)
        ip = Ptr(o.id, st.norm(ladd(o0, s.P.off('_xmpp_conn_t', 'intf'))))
        if init:
            init(st)
        fin = s.e.start(s.P.func(nm), [ip] + [x(st) if callable(x) else x for x in extra], st=st)
        s.rep.engine(s.e, len(fin))
        out = []
        for x in fin:
            if x.status == 'cut':
                continue
            al = alarms(x)
            s.rep.check('memory', not al and x.status == 'done', s.op, al[0].where if al else nm, '%s: %s' % (s.op, al[0].kind if al else x.status), s.op)
            if not al and x.status == 'done':
                out.append(x)
        return out

    def error(s, st):
        return getfield(s.e, st, '_xmpp_conn_t', s.conn, 'error')

    def write(s, st, k):
        L = Sym('wlen%d' % k, 64)

        def init(st):
            o = st.new_obj('heap', 'wdata%d' % k, L, 'lazy')
            st.facts.assume_range(L, 0, 1 << 29)
            st.g['src'], st.g['len'], st.g['used'] = o.id, L, 0
        fin = s.call(st, 'write', [lambda st: Ptr(st.g['src'], 0), L], init)
        for x in fin:
            r = unz(x.norm(x.ret))
            used = x.g['used']
            neg = x.facts.range(x.ret)[1] < 0 or (type(r) is int and r & 0x80000000)
            if neg:
                s.rep.check('count', zero(x, used) is True or x.g.get('zerr'), s.op + ':negative', s.op, 'a failed write has already taken some of the data', s.op)
            else:
                s.rep.check('count', eq(x, r, used), s.op, s.op, 'the write does not return the number of bytes it took (%s instead of %s)' % (r, used), s.op)
                if not x.g.get('blocked') and not x.g.get('zerr'):
                    s.rep.check('progress', eq(x, used, L), s.op, s.op, 'the write stops although neither the transport nor the compressor refused', s.op)
            if x.g.get('zerr'):
                s.rep.check('error', neg and zero(x, s.error(x)) is False or zero(x, s.error(x)) is False, s.op, s.op, 'a compressor error is not reported', s.op)
            elif not x.g.get('fatal'):
                s.rep.check('no-error', zero(x, s.error(x)) is not False, s.op, s.op, 'the connection is torn down without a reason', s.op)
        return [x for x in fin if not x.g.get('zerr') and not x.g.get('fatal') and zero(x, s.error(x)) is not False]

    def flush(s, st):
        def init(st):
            st.g['src'], st.g['len'], st.g['used'] = None, 0, 0
        fin = s.call(st, 'flush', [], init)
        for x in fin:
            if not x.g.get('blocked') and not x.g.get('zerr'):
                good = zero(x, lsub(x.g['hi'], x.g['lo'])) is True and not x.g['zpend'] and not x.g['zdirty']
                s.rep.check('flushed', good, s.op, s.op, 'after a flush over a willing transport bytes are still %s' % ('in the compressor' if x.g['zpend'] or x.g['zdirty'] else 'in the buffer'), s.op)
            if not x.g.get('zerr') and not x.g.get('fatal'):
                s.rep.check('no-error', zero(x, s.error(x)) is not False, s.op, s.op, 'the connection is torn down without a reason', s.op)
        return [x for x in fin if not x.g.get('zerr') and not x.g.get('fatal') and zero(x, s.error(x)) is not False]

    def read(s, st, k):
        L = Sym('rlen%d' % k, 64)

        def init(st):
            o = st.new_obj('heap', 'rbuf%d' % k, L, 'undef')
            st.facts.assume_range(L, 1, 1 << 29)
            st.g['dst'], st.g['cap'], st.g['dlen'] = o.id, L, 0
        fin = s.call(st, 'read', [lambda st: Ptr(st.g['dst'], 0), L], init)
        out = []
        for x in fin:
            r = unz(x.norm(x.ret))
            got = x.g['dlen']
            z, rd = x.g.get('z'), x.g.get('rd')
            neg = type(r) is int and bool(r & 0x80000000)
            some = zero(x, got) is False
            disc = bool(list(x.events('disconnect')))
            dead = z == 'error' or (z == 'end' and not some)
            if some:
                s.rep.check('delivered', eq(x, r, got), s.op, s.op, '%s bytes were decompressed, but %s is returned' % (got, r), s.op)
            elif zero(x, got) is True:
                if rd == 'eof' and not dead:
                    s.rep.check('eof', eq(x, r, 0), s.op + ':eof', s.op, 'the end of the transport is not reported', s.op)
                elif dead:
                    s.rep.check('eof', neg and disc, s.op + ':error', s.op, 'a decompressor error does not end the connection', s.op)
                else:
                    s.rep.check('eof', neg, s.op + ':nothing', s.op, 'no output looks like the end of the connection (%s)' % r, s.op)
            if not dead and rd != 'eof':
                s.rep.check('no-error', not disc, s.op, s.op, 'the connection is torn down without a reason', s.op)
            if neg and not dead:
                # the event loop asks whether this was the end
                fatal = bool(x.g.get('fatal'))
                for y in s.ask(x, 'get_error', []):
                    for w in s.ask(y, 'error_is_recoverable', [y.ret]):
                        d = zero(w, w.ret)
                        s.rep.check('eof', d is fatal, s.op + ':recoverable', s.op, 'a read without output is %s' % ('treated as the end of the connection' if not fatal else 'not treated as the end of the connection'), s.op)
            if not dead and not x.g.get('fatal') and rd != 'eof':
                want = zero(x, lsub(x.g['ihi'], x.g['ilo'])) is not True or x.g['more']
                for y in s.ask(x, 'pending', []):
                    d = zero(y, y.ret)
                    if want:
                        s.rep.check('pending', d is False, s.op, s.op, 'there may be more decompressed data, but it is not announced', s.op)
                    elif z != 'end':
                        s.rep.check('pending', d is True, s.op + ':idle', s.op, 'data is announced although there is none', s.op)
                if z != 'end':
                    out.append(x)
        return out

    def ask(s, st, f, extra):
        v = s.intf(st, f)
        if not isinstance(v, Fn):
            raise AnalysisBroken('the %s operation of the connection is unknown' % f)
        st = st.copy()
        if v.name.startswith('@nx_'):
            st.ret = {'pending': 0, 'get_error': Sym('nx.error', 32), 'error_is_recoverable': 0 if st.g.get('fatal') else 1}[f]
            return [st]
        o, o0 = st.base_of(s.conn)
        ip = Ptr(o.id, st.norm(ladd(o0, s.P.off('_xmpp_conn_t', 'intf'))))
        g = dict(st.g)
        fin = s.e.start(s.P.func(v.name.lstrip('@')), [ip] + extra, st=st)
        return [x for x in fin if x.status == 'done']

    def cls(s, st):
        """shape of the state between two operations"""
        g = st.g
        n = st.norm(lsub(g['hi'], g['lo']))
        i = st.norm(lsub(g['ihi'], g['ilo']))
        full = None
        if g['buf'] is not None and zero(st, n) is not True:
            o = st.mem.get(g['buf'])
            full = zero(st, lsub(o.size, g['hi']))
        return (zero(st, n), full, eq(st, g['lo'], 0), g['zpend'], g['zdirty'], zero(st, i), g['more'])

    def explore(s, ops, depth, keep=2):
        level = s.init()
        n = 0
        for d in range(depth):
            nxt, seen = [], {}
            for st in level:
                for op in ops:
                    r = s.write(st, d) if op == 'write' else s.flush(st) if op == 'flush' else s.read(st, d)
                    n += len(r)
                    for x in r:
                        c = (op, s.cls(x))
                        if seen.get(c, 0) < keep:
                            seen[c] = seen.get(c, 0) + 1
                            nxt.append(x)
            level = nxt
        return n


def loop_rules(rep, P):
    """every iteration flushes after the last write of the connection, and reads what is announced without waiting"""
    from p_loop import Loop
    for q in (0, 1):
        extra = {'handler_fire_timed': lambda e, st, a, ins: 1000, 'time_stamp': lambda e, st, a, ins: st.fresh('now', 64)}
        if q:
            extra['select'] = lambda e, st, a, ins: st.ev('select', tv=None) or 0
        L = Loop(P, extra=extra)
        for st in L.run(rep, state='XMPP_STATE_CONNECTED', queue=q):
            if st.status != 'done':
                continue
            evs = st.events('write', 'flush', 'conn_disconnect', 'select', 'tls_clear', 'read')
            kinds = [x.kind for x in evs]
            ix = [i for i, k in enumerate(kinds) if k == 'write']
            cut = kinds.index('conn_disconnect') if 'conn_disconnect' in kinds else len(kinds)
            sel = kinds.index('select') if 'select' in kinds else len(kinds)
            end = min(cut, sel)
            if ix or (q == 0 and end < len(kinds) and kinds[end] == 'select'):
                ok = any(k == 'flush' and (not ix or i > ix[-1]) and i < max(end, 1) for i, k in enumerate(kinds))
                rep.check('loop-flush', ok, 'queue of %d' % q, 'xmpp_run_once', 'with %d queued stanzas an iteration does not flush after its last write: %s' % (q, kinds), str(q))
            if not q and 'select' in kinds and 'conn_disconnect' not in kinds and st.facts.range(Sym('selret', 32))[0] >= 0 and truth(st, Sym('pending', 32)) is True:
                rep.check('loop-pending', 'read' in kinds, 'read', 'xmpp_run_once', 'announced data is not read: %s' % kinds, 'read')


def reset_rules(rep, P):
    """a new connection attempt starts without compression"""
    def su(e, st):
        attempt_setup()(e, st)
        for f in NEXT:
            setf(e, st, '_xmpp_conn_t', CONN, 'intf.' + f, Fn('@old_' + f, None), 8)
    e, ps = run_conn(rep, P, 'xmpp_connect_client', None, setup=su)
    n = 0
    for st in ps:
        if st.status != 'done' or truth(st, st.ret) is not False:
            continue
        n += 1
        for f in NEXT:
            v = st.norm(getf(e, st, '_xmpp_conn_t', CONN, 'intf.' + f, 8))
            rep.check('reset', not (isinstance(v, Fn) and v.name.startswith('@old_')), f, 'xmpp_connect_client', 'the %s operation of an earlier connection survives into the next one' % f, f)
    if not n:
        raise AnalysisBroken('xmpp_connect_client never succeeds in the abstraction')


def nego_rules(rep, P):
    from nego import Nego
    n = Nego(rep, prog=P)
    n.discover()
    ans = answers_of(n)
    seen = 0
    for r in sorted(n.sum):
        for st in n.sum[r]:
            if st.events('compression_init'):
                seen += 1
                restart_rules(rep, n, r, st, ans.get(r, set()))
    if not seen:
        rep.bad('compress-confirmed', 'never', 'auth.c', 'compression is negotiated, but never switched on')


def c20(rep):
    P = Program()
    R = rep.rule
    R('own', 'every stream is used for the direction it was set up for', 2)
    R('area', 'the compressor and the transport write inside of the buffer', 4)
    R('once', 'every byte given to the layer is compressed exactly once, in order', 2)
    R('append', 'compressed bytes are added behind those which were not sent yet', 4)
    R('kept', 'bytes that could not be sent stay, whatever is moved', 1)
    R('passed', 'what is passed on is the next part of the compressed stream', 4)
    R('count', 'a write returns how many bytes it took; a failed one took none', 4)
    R('progress', 'a write takes everything unless the transport refuses', 1)
    R('flushed', 'after a flush over a willing transport nothing is left behind', 2)
    R('error', 'compressor errors are reported', 1)
    R('no-error', 'no error is made up', 4)
    R('input', 'what is decompressed is the next part of the received bytes', 2)
    R('input-kept', 'received bytes are used up before others take their place', 2)
    R('output', 'decompressed data goes to the caller\'s buffer', 2)
    R('delivered', 'the length of the decompressed data is returned', 2)
    R('eof', 'only the end of the transport looks like the end; errors end the connection', 4)
    R('pending', 'data that is still inside is announced, nothing else is', 2)
    R('memory', 'no access outside of the objects', 4)
    R('loop-flush', 'every iteration of the event loop flushes the connection after its last write', 2)
    R('loop-pending', 'announced data is read', 1)
    R('reset', 'a new connection starts with the plain transport', 6)
    R('compress-confirmed', 'compression is switched on only after <compressed/>, before the new header', 1)
    R('restart', 'the confirmation is followed by one parser reset and one new header', 1)
    thorough = rep.tier == 'thorough'
    loop_rules(rep, P)
    reset_rules(rep, P)
    nego_rules(rep, P)
    C = Comp(rep, P)
    n = C.explore(('write', 'flush'), 4 if thorough else 3, 3 if thorough else 2)
    C = Comp(rep, P)
    n += C.explore(('read',), 4 if thorough else 3, 3 if thorough else 2)
    rep.notes.append('sequences of %d operations of any size over an abstract compressor and transport; up to 4 rounds of the inner loop each' % (4 if thorough else 3))
    rep.assumptions.append('zlib keeps its contract (deflate and inflate take and give any amount, everything is flushed when room is left)')
    return 'other', 'typestate analysis of the staging buffers: a monitor tracks which bytes of the compressed and the received stream are where, every transfer is compared with it on each abstract path; event loop and negotiation rules on their abstract paths'
