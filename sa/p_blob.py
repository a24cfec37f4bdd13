"""C16: layout of the persisted stream-management state."""
from p_smq import *
from eng import *
from models import content, subst, Len, S, m_memcpy, m_memcmp, m_strlen, put_pieces
import p_queue

BLOB = '*blob'
N = Sym('blob.size', 64, lo=0, hi=1 << 40)


def bswap(e, st, a, ins):
    v = st.norm(a[0])
    if type(v) is int:
        return int.from_bytes((v & 0xffffffff).to_bytes(4, 'big'), 'little')
    if isinstance(v, Term) and v.op == 'be32':
        return v.args[0]
    return App('be32', v, w=32)


def layout(e, st, sent, handled, idt, send, sm):
    """the bytes of the state: list of ints (one byte), ('u32', value) and ('str', text atom, length)"""
    out = list(b'\x1a\0\0\0\0')

    def u32(t, v):
        out.append(t)
        out.append(('u32', st.norm(v)))

    def s(t):
        u32(0x7a, Len(t))
        out.append(('str', t))
    u32(0x1a, sent)
    u32(0x1a, handled)
    s(idt)
    u32(0x9a, len(send))
    for t in send:
        s(t)
    u32(0xba, len(sm))
    for h, t in sm:
        u32(0x1a, h)
        s(t)
    return out


def same32(st, a, b):
    a, b = unz(st.norm(a)), unz(st.norm(b))
    if a == b:
        return True
    d = lsub(a, b)
    d = st.norm(d)
    return type(d) is int and d & 0xffffffff == 0


def unz(v):
    while isinstance(v, Term) and v.op in ('trunc', 'zext', 'cast'):
        v = v.args[0]
    return v


def match(e, st, pieces, want):
    """None, or why the pieces are not the wanted layout"""
    toks = []
    for p in pieces:
        if isinstance(p, bytes):
            toks.extend(p)
        elif isinstance(p, Term) and p.op == 'raw' and p.args[1] == 4:
            toks.append(('u32', bswap(e, st, [p.args[0]], None)))
        elif isinstance(p, Term) and p.op == 'chr':
            toks.append(('byte', p.args[0]))
        else:
            toks.append(('str', p))
    i = 0
    for k, w in enumerate(want):
        if type(w) is int:
            if i >= len(toks) or toks[i] != w:
                return 'byte %d of the layout should be 0x%02x, is %s' % (k, w, toks[i] if i < len(toks) else 'missing')
            i += 1
        elif w[0] == 'u32':
            v = w[1]
            if i < len(toks) and type(toks[i]) is tuple and toks[i][0] == 'u32':
                if not same32(st, toks[i][1], v):
                    return 'number %s is stored instead of %s' % (toks[i][1], v)
                i += 1
                continue
            if type(v) is int:
                bs = list((v & 0xffffffff).to_bytes(4, 'big'))
                if toks[i:i + 4] != bs:
                    return '%s is stored instead of the number %d' % (toks[i:i + 4], v)
                i += 4
                continue
            bs = [e.cast(st, 'trunc', e.binop(st, 'lshr', v, s, I32), I32, I8) if s else e.cast(st, 'trunc', v, I32, I8) for s in (24, 16, 8, 0)]
            if [t[1] if type(t) is tuple and t[0] == 'byte' else t for t in toks[i:i + 4]] != [st.norm(b) for b in bs]:
                return '%s is stored instead of the number %s' % (toks[i:i + 4], v)
            i += 4
        else:
            if i >= len(toks) or toks[i] != w:
                return '%s is stored instead of the text %s' % (toks[i] if i < len(toks) else 'nothing', w[1])
            i += 1
    if i != len(toks):
        return '%d more tokens after the end: %s' % (len(toks) - i, toks[i:i + 3])
    return None


# -- saving ------------------------------------------------------------------
def save_rules(rep, P, nmax):
    cbf = 'trigger_sm_callback'
    shapes = ['', 'U', 'L', 'US', 'UR', 'ULU'] + (['UUUU', 'SLUR'] if rep.tier == 'thorough' else [])
    for shape in shapes:
        for n in range(nmax + 1):
            for free in ((0, 1) if shape in ('', 'U') else (0,)):
                m = conn_models(oom=True)
                for k in ('htonl', 'ntohl', 'llvm.bswap.i32'):
                    m[k] = bswap
                m.pop(cbf, None)

                def cb(e, st, a, ins):
                    buf, size = st.norm(a[2]), st.norm(a[3])
                    null = st.isnull(buf)
                    c = None if null is not False else content(st, buf, size) if size != 0 else ()
                    st.ev('saved', null=null, size=size, ctx=a[1], what=None if c is None else subst(st, c), buf=buf)
                    return None
                m['@smcb'] = cb
                box = {}

                def su(e, st):
                    box['q'], box['sm'] = smstate(e, st, P, n, 1, shape)
                    setf(e, st, '_xmpp_conn_t', CONN, 'sm_callback', Fn('@smcb', None), 8)
                    setf(e, st, '_xmpp_conn_t', CONN, 'sm_callback_ctx', Sym('smcbctx'), 8)
                    setf(e, st, SMF, SM0, 'sm_sent_nr', Sym('sentnr', 32))
                    setf(e, st, SMF, SM0, 'sm_handled_nr', Sym('handlednr', 32))
                    t = Sym('smid', tag='nonnull')
                    st.facts.assume_range(Len(S(t)), 0, 1 << 30)
                    if free:
                        setf(e, st, SMF, SM0, 'id', Sym('smid.maybe', tag='nullable'), 8)
                        st.facts.assume_range(Len(S(Sym('smid.maybe', tag='nullable'))), 0, 1 << 30)
                        for f in ('sm_support', 'sm_enabled', 'can_resume'):
                            setf(e, st, SMF, SM0, f, Sym('sv.' + f, 32, lo=0, hi=1))
                    else:
                        setf(e, st, SMF, SM0, 'id', t, 8)
                        for f in ('sm_support', 'sm_enabled', 'can_resume'):
                            setf(e, st, SMF, SM0, f, 1)
                    box['id'] = S(Sym('smid.maybe', tag='nullable')) if free else S(t)
                e, ps = run_conn(rep, P, cbf, [CONN], m, su, loopk=16)
                for st in ps:
                    what = '%s+%d%s' % (shape, n, '?' if free else '')
                    al = alarms(st)
                    rep.check('memory', not al and st.status == 'done', what, al[0].where if al else cbf, '%s: %s' % (what, al[0].kind if al else st.status), what)
                    if st.status != 'done' or al:
                        continue
                    ev = st.events('saved')
                    rep.check('save', len(ev) == 1, what + ':once', cbf, '%s: the callback is called %d times' % (what, len(ev)), what)
                    if len(ev) != 1:
                        continue
                    ev = ev[0]
                    rep.check('save', ev.ctx == Sym('smcbctx'), what + ':ctx', cbf, 'the callback gets another context', what)
                    if ev.null is True:
                        off = free and any(st.isnull(st.norm(getf(e, st, SMF, SM0, f))) is True or st.norm(getf(e, st, SMF, SM0, f)) == 0 for f in ('sm_support', 'sm_enabled', 'can_resume'))
                        off = off or (free and st.isnull(st.norm(getf(e, st, SMF, SM0, 'id', 8))) is True)
                        rep.check('save-none', ev.size == 0 and (off or st.g.get('oom')), what + ':none', cbf, '%s: nothing is reported although the session is resumable (size %s)' % (what, ev.size), what)
                        continue
                    if ev.what is None:
                        rep.bad('save', what + ':unknown', cbf, '%s: the reported bytes are not all written by the serialisation (%s bytes)' % (what, ev.size))
                        continue
                    send = [content(st, getfield(e, st, Q, p, 'data', 8))[0] for p in box['q']]
                    sm = [(getfield(e, st, Q, p, 'sm_h'), content(st, getfield(e, st, Q, p, 'data', 8))[0]) for p in box['sm']]
                    why = match(e, st, ev.what, layout(e, st, Sym('sentnr', 32), Sym('handlednr', 32), box['id'], send, sm))
                    rep.check('save', why is None, what, cbf, '%s: %s' % (what, why), what)
                    o = st.mem[ev.buf.obj] if isinstance(ev.buf, Ptr) else None
                    rep.check('memory', o is not None and o.freed, what + ':buffer', cbf, 'the buffer is not released after the callback', what)




# -- restoring ------------------------------------------------------------------
_in = {}


def m_in(off, n):
    """the n bytes of the blob at an offset, as they lie there"""
    k = (off, n)
    if k not in _in:
        _in[k] = Sym('in%d.%d' % (len(_in), n), 8 * n)
    return _in[k]


def m_inb(off):
    k = (off, 'b')
    if k not in _in:
        _in[k] = Sym('inb%d' % len(_in), tag='nonnull')
    return _in[k]


def blob_copy(e, st, a, ins):
    b = st.base_of(a[1])
    if b is None or b[0].name != BLOB:
        return m_memcpy(e, st, a, ins)
    n, off = st.norm(a[2]), st.norm(b[1])
    if type(n) is int and n == 0:
        return a[0]
    st.in_bounds(b[0], off, n, 'read')
    db = st.base_of(a[0])
    if type(n) is int and n <= 8:
        st.store(a[0], m_in(off, n), n)
    else:
        put_pieces(st, a[0], (App('raw', m_inb(off), n),))
    f = st.facts
    rest = st.norm(lsub(b[0].size, ladd(off, n)))
    lo, hi = f.range(rest)
    if type(n) is not int and lo >= 0 and isinstance(rest, Term) and rest.op == 'lin':
        # name what is left: the size is what was read plus the rest
        s = st.fresh('rest')
        f.assume_range(s, lo, hi)
        x = st.norm(N)
        while isinstance(x, Term) and x.op == 'lin':
            y = [t for t, k in x.args[1] if t.op == 'sym' and (t is N or t.args[0].startswith('rest')) and k == 1]
            if not y:
                return a[0]
            x = y[0]
        if isinstance(x, Term) and x not in f.sub:
            f.sub[x] = st.norm(ladd(s, lsub(x, rest)))
            for k in [k for k in f.rng if any(t is x for t, _ in k)]:
                del f.rng[k]
    return a[0]


def blob_cmp(e, st, a, ins):
    for x, y in ((a[0], a[1]), (a[1], a[0])):
        b = st.base_of(x)
        if b is not None and b[0].name == BLOB:
            n = st.norm(a[2])
            c = content(st, y, n)
            if type(n) is not int or c is None or len(c) != 1 or not isinstance(c[0], bytes):
                break
            off = st.norm(b[1])
            st.in_bounds(b[0], off, n, 'read')
            o = st.copy()
            for i, ch in enumerate(c[0]):
                if not e.assume(st, e.icmp(st, 'eq', m_in(st.norm(ladd(off, i)), 1), ch, I8), True):
                    return [(o, o.fresh('cmp', 32, lo=1, hi=255))]
            return [(st, 0), (o, o.fresh('cmp', 32, lo=1, hi=255))]
    return m_memcmp(e, st, a, ins)


def restore_run(rep, P, counts, exact, oom=False):
    m = conn_models(oom=oom)
    for k in ('htonl', 'ntohl', 'llvm.bswap.i32'):
        m[k] = bswap
    for k in ('memcpy', 'llvm.memcpy.p0.p0.i64', 'memmove'):
        m[k] = blob_copy
    m['memcmp'] = m['bcmp'] = blob_cmp

    def raw1(st, p):
        c = content(st, p)
        if c and isinstance(c[0], Term) and c[0].op == 'raw' and type(st.norm(c[0].args[1])) is not int:
            return c[0]

    def slen_(e, st, a, ins):
        r = raw1(st, a[0])
        if r is None:
            return m_strlen(e, st, a, ins)
        # raw bytes: there may be a NUL among them
        L = st.norm(r.args[1])
        o = st.copy()
        st.g[('nonul', r)] = True
        v = o.fresh('short', 64, lo=0, hi=1 << 40)
        if not e.assume(o, e.icmp(o, 'ult', v, L, I64), True):
            return [(st, L)]
        return [(st, L), (o, v)]

    def chr_(e, st, a, ins):
        r = raw1(st, a[0])
        if r is None or st.norm(a[1]) != 0:
            return NotImplemented
        o = st.copy()
        st.g[('nonul', r)] = True
        return [(st, 0), (o, ladd(a[0], 0) if not isinstance(a[0], Ptr) else a[0])]
    m['strlen'] = slen_
    m['memchr'] = chr_

    def hook(st, o, off, sz, ty):
        if o.name == BLOB:
            return m_in(st.norm(off), sz)

    def prep(e):
        e.load_hooks.append(hook)
        e.bounds = True
        e.cutloops = exact

    def arg(st):
        o = st.new_obj('global', BLOB, N, 'lazy')
        o.const = False
        return Ptr(o.id, 0)

    def su(e, st):
        for f in ('send_queue_head', 'send_queue_tail', 'sm_state'):
            setf(e, st, '_xmpp_conn_t', CONN, f, 0, 8)
        for f in ('send_queue_len', 'send_queue_user_len'):
            setf(e, st, '_xmpp_conn_t', CONN, f, 0)
        setf(e, st, '_xmpp_conn_t', CONN, 'state', P.enums['XMPP_STATE_DISCONNECTED'])
    return run_conn(rep, P, 'xmpp_conn_restore_sm_state', [CONN, arg, N], m, su, loopk=counts, prep=prep)


def accepted(e, st):
    """check an accepted blob against the restored state; None or the reason"""
    def byte(off):
        return st.norm(m_in(st.norm(off), 1))
    pos = 0

    def tag(t):
        nonlocal pos
        if byte(pos) != t:
            return 'the type of the field at offset %s is not checked (0x%02x expected)' % (pos, t)
        pos = st.norm(ladd(pos, 1))

    def u32(t):
        nonlocal pos
        w = tag(t)
        if w:
            return w, None
        v = bswap(e, st, [m_in(st.norm(pos), 4)], None)
        pos = st.norm(ladd(pos, 4))
        return None, v

    def string(p, L, what):
        nonlocal pos
        w, n = u32(0x7a)
        if w:
            return w
        n64 = st.norm(e.cast(st, 'zext', n, I32, I64))
        c = content(st, p, n64) if isinstance(p, Ptr) else None
        t = m_inb(st.norm(pos))
        if n64 == 0:
            c = ()
        elif c is None or len(c) != 1 or not isinstance(c[0], Term) or c[0].op != 'raw' or c[0].args[0] is not t or st.norm(lsub(c[0].args[1], n64)) != 0:
            return '%s is %s' % (what, c)
        o = st.mem[p.obj]
        z = o.cells.get(st.norm(ladd(p.off, n64)))
        if not z or z[1] != 0:
            return '%s is not terminated' % what
        if L is not None and st.norm(lsub(L, n64)) != 0:
            return 'the length of %s is %s' % (what, L)
        pos = st.norm(ladd(pos, n64))
        return None
    for i in range(5):
        want = (0x1a, 0, 0, 0, 0)[i]
        if byte(i) != want:
            # the version may also be loaded as a number
            w, v = u32(0x1a)
            if w or st.norm(v) != 0:
                return 'the version is not checked'
            break
    pos = 5
    sm = st.norm(getf(e, st, '_xmpp_conn_t', CONN, 'sm_state', 8))
    if not isinstance(sm, Ptr):
        return 'there is no state'
    for f in ('sm_sent_nr', 'sm_handled_nr'):
        w, v = u32(0x1a)
        if w:
            return w
        x = st.norm(getf(e, st, SMF, sm, f))
        if not same32(st, x, v):
            return '%s is %s instead of %s' % (f, x, v)
    idp = st.norm(getf(e, st, SMF, sm, 'id', 8))
    idpos = st.norm(ladd(pos, 5))
    w = string(idp, None, 'the id')
    if w:
        return w
    c = content(st, idp)
    if c and isinstance(c[0], Term) and c[0].op == 'raw' and not any(type(k) is tuple and k and k[0] == 'nonul' and k[1].args[0] is c[0].args[0] for k in st.g):
        return 'an id with an embedded NUL is accepted'
    for which, t in (('send', 0x9a), ('sm', 0xba)):
        w, cnt = u32(t)
        if w:
            return w
        if which == 'send':
            lst, why = linked(e, st)
        else:
            lst, why = list_of(e, st, sm)
        if lst is None:
            return '%s queue: %s' % (which, why)
        if not pinned(e, st, cnt, len(lst)):
            return '%s queue: %d elements for %s' % (which, len(lst), cnt)
        for i, p in enumerate(lst):
            if which == 'sm':
                w, h = u32(0x1a)
                if w:
                    return w
                if not same32(st, getfield(e, st, Q, p, 'sm_h'), h):
                    return 'the number of element %d is %s instead of %s' % (i, getfield(e, st, Q, p, 'sm_h'), h)
            w = string(st.norm(getfield(e, st, Q, p, 'data', 8)), st.norm(getfield(e, st, Q, p, 'len', 8)), '%s text %d' % (which, i))
            if w:
                return w
            for f, v in (('owner', owners(e.prog)['U']), ('written', 0), ('wip', 0), ('userdata', 0)):
                x = st.norm(getfield(e, st, Q, p, f, 8 if f in ('userdata', 'written') else 4))
                if x != v:
                    return '%s of element %d in the %s queue is %s' % (f, i, which, x)
        if which == 'send' and counters(e, st) != (len(lst), len(lst)):
            return 'the counters are %s for %d elements' % (counters(e, st), len(lst))
    d = st.norm(lsub(N, pos))
    if d != 0 and st.facts.eq0(d) is not True:
        return 'bytes after the end are accepted (%s)' % d
    for f, v in (('r_sent', 0), ('bind', 0), ('previd', 0), ('bound_jid', 0)):
        x = st.norm(getf(e, st, SMF, sm, f, 8 if f != 'r_sent' else 4))
        if x != v:
            return '%s is %s' % (f, x)
    if st.norm(getf(e, st, SMF, sm, 'ctx', 8)) != st.norm(getf(e, st, '_xmpp_conn_t', CONN, 'ctx', 8)):
        return 'the state has no context'
    if st.norm(getf(e, st, SMF, sm, 'can_resume')) != 1:
        return 'the state is not resumable'
    return None


def pinned(e, st, v, n):
    v = st.norm(v)
    if type(v) is int:
        return v == n

    def known(pred, x, y):
        t = e.icmp(st, pred, x, y, I32)
        return bool(t) if type(t) is int else e.decide(st, t)
    lo = n == 0 or known('ult', n - 1, v) or known('uge', v, n) or known('ule', v, n - 1) is False
    hi = known('ult', n, v) is False or known('ule', v, n)
    return bool(lo and hi)


def list_of(e, st, sm):
    h, t = (st.norm(getf(e, st, SMF, sm, 'sm_queue.' + f, 8)) for f in ('head', 'tail'))
    els = walk(e, st, Q, h)
    if els is None:
        return None, 'the list does not end'
    if (not els and t != 0) or (els and els[-1] != t):
        return None, 'the tail is wrong'
    for i, x in enumerate(els):
        if getfield(e, st, Q, x, 'prev', 8) != (els[i - 1] if i else 0):
            return None, 'wrong back link'
    return els, None


def restore_rules(rep, P):
    fn = 'xmpp_conn_restore_sm_state'
    k = 5 if rep.tier == 'thorough' else 4
    for cnt, oom in ((k, False), (3, True)):
        e, ps = restore_run(rep, P, cnt, True, oom)
        acc = 0
        for st in ps:
            if st.status == 'cut':
                continue
            al = alarms(st)
            rep.check('bounds', not al and st.status == 'done', al[0].kind + ':' + al[0].where if al else 'end', al[0].where if al else fn, '%s %s' % (al[0].kind, al[0].d) if al else st.status, fn)
            if st.status != 'done' or al:
                continue
            if st.ret == 0:
                acc += 1
                why = accepted(e, st)
                rep.check('restore', why is None, 'accepted:%s' % (why or '')[:40], fn, 'accepted: %s' % why, fn)
            else:
                r = st.facts.range(st.ret)
                rep.check('refuse', type(st.ret) is int or 0 < r[0] or r[1] < 0, 'code', fn, 'refused without an error code', fn)
                refused(rep, e, st, P, fn)
        if not oom and acc < (k - 1) ** 2:
            rep.bad('restore', 'shapes', fn, 'only %d shapes of the state can be restored' % acc)
    # other states of the connection
    for case in ('connected', 'has-state'):
        m = conn_models()

        def su(e, st):
            if case == 'connected':
                setf(e, st, '_xmpp_conn_t', CONN, 'state', P.enums['XMPP_STATE_CONNECTED'])
                setf(e, st, '_xmpp_conn_t', CONN, 'sm_state', 0, 8)
            else:
                setf(e, st, '_xmpp_conn_t', CONN, 'state', P.enums['XMPP_STATE_DISCONNECTED'])
                setf(e, st, '_xmpp_conn_t', CONN, 'sm_state', SM0, 8)
        e, ps = run_conn(rep, P, fn, [CONN, Sym('blobp', tag='nonnull'), N], m, su)
        for st in ps:
            if st.status == 'done':
                s2 = st.norm(getf(e, st, '_xmpp_conn_t', CONN, 'sm_state', 8))
                rep.check('refuse', st.ret != 0 and s2 == (0 if case == 'connected' else SM0) and not st.events('free'), case, fn, 'a restore in state "%s" returns %s' % (case, st.ret), case)


def refused(rep, e, st, P, fn):
    s2 = st.norm(getf(e, st, '_xmpp_conn_t', CONN, 'sm_state', 8))
    rep.check('refuse', s2 == 0, 'state', fn, 'a refused state leaves sm_state %s' % s2, fn)
    h, t = qhead(e, st)
    rep.check('refuse', h == 0 and t == 0 and counters(e, st) == (0, 0), 'queue', fn, 'a refused state leaves the queue %s..%s with counters %s' % (h, t, counters(e, st)), fn)
    left = [o.name for k, o in st.mem.items() if o.kind == 'heap' and o.name.startswith('alloc') and not o.freed]
    rep.check('memory', not left, 'leak', fn, 'a refused state leaks %d objects' % len(left), fn)


def c16(rep):
    P = Program()
    R = rep.rule
    R('save', 'the bytes given to the callback are version, counters, id and both queues in order, and nothing else', 20)
    R('save-none', 'nothing is reported only when the session is not resumable or memory is short', 4)
    R('restore', 'an accepted byte string is exactly the layout of the restored state: every type, number, length and text', 9)
    R('refuse', 'everything else is refused with an error code and leaves no state, no queue and no counters', 40)
    R('bounds', 'no access is outside of the buffer or of an object, for any bytes', 40)
    R('memory', 'nothing is leaked or freed twice', 40)
    save_rules(rep, P, 3 if rep.tier == 'thorough' else 2)
    restore_rules(rep, P)
    return 'other', 'disjunctive abstract interpretation: the saved byte layout is computed for list shapes with unknown texts and numbers; the restore is analysed for unknown bytes and an unknown size (up to %d elements per queue), accepted paths are compared with the same layout' % (4 if rep.tier == 'thorough' else 3)
