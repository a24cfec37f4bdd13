"""C06: the send queue under any transport behaviour."""
import itertools
from p_loop import *
from p_nego import conn_models, run_conn, truth
from p_handlers import termval
from shapes import alarms, walk
from report import *

SM0 = Sym('smq', tag='nonnull')
SMF = '_xmpp_sm_t'


def owners(P):
    E = P.enums
    return {'U': E['XMPP_QUEUE_USER'], 'L': E['XMPP_QUEUE_STROPHE'], 'S': E['XMPP_QUEUE_SM_STROPHE'], 'R': E['XMPP_QUEUE_SM_STROPHE']}


def build(e, st, P, shape, wip0=0, part0=False, enabled=0, r_sent=0, smq=0):
    """send queue with the given owners: U user, L library, S stream management, R <r/> linked to its predecessor"""
    O = owners(P)
    els = mkqueue(e, st, len(shape))
    for i, (p, k) in enumerate(zip(els, shape)):
        L = Sym('q%d.len' % i, 64, lo=0, hi=1 << 30)
        setfield(e, st, Q, p, 'owner', O[k])
        setfield(e, st, Q, p, 'len', L)
        w = 0
        if i == 0 and part0:
            w = Sym('q0.written', 64, lo=0, hi=1 << 30)
            e.assume(st, e.icmp(st, 'ult', w, L, I64), True)
        setfield(e, st, Q, p, 'written', w)
        setfield(e, st, Q, p, 'wip', wip0 if i == 0 else 0)
        setfield(e, st, Q, p, 'userdata', els[i - 1] if k == 'R' and i else 0)
    setf(e, st, '_xmpp_conn_t', CONN, 'send_queue_head', els[0] if els else 0, 8)
    setf(e, st, '_xmpp_conn_t', CONN, 'send_queue_tail', els[-1] if els else 0, 8)
    setf(e, st, '_xmpp_conn_t', CONN, 'send_queue_len', len(els))
    setf(e, st, '_xmpp_conn_t', CONN, 'send_queue_user_len', sum(k == 'U' for k in shape))
    setf(e, st, '_xmpp_conn_t', CONN, 'error', 0)
    setf(e, st, '_xmpp_conn_t', CONN, 'sm_state', SM0, 8)
    st.base_of(SM0)[0].stype = SMF
    sq = mkqueue(e, st, smq, 's')
    setf(e, st, SMF, SM0, 'sm_queue.head', sq[0] if sq else 0, 8)
    setf(e, st, SMF, SM0, 'sm_queue.tail', sq[-1] if sq else 0, 8)
    setf(e, st, SMF, SM0, 'sm_enabled', enabled)
    setf(e, st, SMF, SM0, 'r_sent', r_sent)
    return els, sq


def qhead(e, st, which='send'):
    if which == 'send':
        return (st.norm(getf(e, st, '_xmpp_conn_t', CONN, 'send_queue_head', 8)), st.norm(getf(e, st, '_xmpp_conn_t', CONN, 'send_queue_tail', 8)))
    return (st.norm(getf(e, st, SMF, SM0, 'sm_queue.head', 8)), st.norm(getf(e, st, SMF, SM0, 'sm_queue.tail', 8)))


def linked(e, st, which='send'):
    """elements in order when the list is a proper doubly linked one, else None and the reason"""
    h, t = qhead(e, st, which)
    els = walk(e, st, Q, h)
    if els is None:
        return None, 'the list does not end'
    if not els:
        return ([], None) if st.isnull(t) is True else (None, 'empty list with a tail')
    if els[-1] != t:
        return None, 'the tail is not the last element'
    prev = None
    for x in els:
        p = getfield(e, st, Q, x, 'prev', 8)
        if (st.isnull(p) is not True) if prev is None else p != prev:
            return None, 'wrong back link'
        prev = x
    return els, None


def text_of(st, n, pre='q'):
    return (S(Sym('%s%d.text' % (pre, n), tag='nonnull')),)


def counters(e, st):
    return (st.norm(getf(e, st, '_xmpp_conn_t', CONN, 'send_queue_len')), st.norm(getf(e, st, '_xmpp_conn_t', CONN, 'send_queue_user_len')))


def check_rest(rep, rid, P, e, st, els, rest, shape, what, w, extra=()):
    """the send queue is exactly the elements with the given indices (then `extra` new ones), untouched"""
    lst, why = linked(e, st)
    want = [els[i] for i in rest]
    if lst is None or lst[:len(want)] != want or len(lst) != len(want) + len(extra):
        got = why if lst is None else ['new' if p not in els else 'q%d' % els.index(p) for p in lst]
        rep.bad(rid, what + ':list', w, '%s: the queue is %s afterwards, expected %s' % (what, got, ['q%d' % i for i in rest] + list(extra)))
        return None
    rep.ok(rid)
    n, u = counters(e, st)
    xu = sum(shape[i] == 'U' for i in rest) + sum(k == 'U' for k in extra)
    rep.check(rid, n == len(want) + len(extra) and u == xu, what + ':counters', w, '%s: queue length %s (user %s), there are %d (user %d)' % (what, n, u, len(want) + len(extra), xu), what)
    for i in rest:
        d = getfield(e, st, Q, els[i], 'data', 8)
        c = content(st, d) if isinstance(d, Ptr) and not st.mem[d.obj].freed else None
        rep.check(rid, c is not None and subst(st, c) == text_of(st, i) and getfield(e, st, Q, els[i], 'len', 8) == Sym('q%d.len' % i, 64) and getfield(e, st, Q, els[i], 'owner') == owners(P)[shape[i]],
                  what + ':element', w, '%s: element q%d is changed' % (what, i), what)
    return lst


SHAPES = [''.join(s) for n in range(0, 4) for s in itertools.product('UL', repeat=n)] + ['S', 'SU', 'US', 'UR', 'URU', 'LRU', 'ULU', 'SUL', 'LUR', 'URL', 'USU']


def dedup(xs):
    out = []
    for x in xs:
        if x not in out:
            out.append(x)
    return out


def c06(rep):
    P = Program()
    R = rep.rule
    R('write-order', 'each transport write passes exactly the unsent rest of the first queued element; the next element starts only after the whole of it was accepted', 50)
    R('write-account', 'after any outcome of the writes the queue is the not completely sent elements, in order, with exactly the accepted bytes marked as sent', 50)
    R('write-only-loop', 'only the event loop hands bytes to the transport', 1)
    R('live-only', 'nothing is written unless the connection is established', 2)
    R('enqueue', 'queueing appends exactly the given bytes as one new element (plus at most one stream-management request behind it) and touches no other', 20)
    R('enqueue-offline', 'on a connection that is not established nothing is queued', 6)
    R('length', 'the reported length is the number of user elements that are not started', 20)
    R('drop', 'dropping returns the exact text of the oldest/youngest user element that may be dropped and removes it (and its <r/>) only', 100)
    R('reset', 'a new connection starts with an empty queue', 2)
    R('memory', 'queue elements and texts are released exactly once', 50)
    R('queue-writers', 'every function that changes the queue is one of the analysed ones', 4)
    shapes = dedup(SHAPES)
    if rep.tier == 'thorough':
        shapes = dedup(shapes + [''.join(s) for s in itertools.product('ULS', repeat=4)] + [''.join(s) for s in itertools.product('ULS', repeat=3)] + ['URUR', 'LURU', 'URLU', 'UURU'])
    loop_rules(rep, P, [s for s in shapes if len(s) <= (4 if rep.tier == 'thorough' else 3)])
    only_loop(rep, P)
    enqueue_rules(rep, P)
    length_rules(rep, P, shapes)
    drop_rules(rep, P, shapes)
    reset_rules(rep, P)
    writer_rules(rep, P)
    rep.assumptions.append('only the first element can be in transmission (wip): established by write-account for every write')
    return 'other', 'shape analysis of the send queue (all owner patterns up to the listed lengths, unknown texts and lengths) against every outcome of every transport write'


def loop_rules(rep, P, shapes):
    for shape in shapes:
        for wip0, part0 in ((0, False), (1, True)):
            if not shape and wip0:
                continue
            for en in (0, 1):
                loop_one(rep, P, shape, wip0, part0, en)
    for s in ('XMPP_STATE_CONNECTING', 'XMPP_STATE_DISCONNECTED'):
        L = Loop(P, extra={'select': lambda e, st, a, ins: 0, '_connect_next': lambda e, st, a, ins: st.fresh('cn', 32)})
        ps = L.run(rep, state=s, queue=2)
        for st in ps:
            if st.status == 'done':
                rep.check('live-only', not st.events('write'), s, 'xmpp_run_once', 'data is written in state ' + s, s)


def loop_paths(rep, P, shape, wip0, part0, en, smq=0):
    L = Loop(P, extra={'select': lambda e, st, a, ins: 0, 'handler_fire_timed': lambda e, st, a, ins: 1000, 'time_stamp': lambda e, st, a, ins: st.fresh('now', 64)})
    e = L.e
    box = {}

    def su(st):
        L.setup(st, state='XMPP_STATE_CONNECTED')
        box['els'], box['sm'] = build(e, st, P, shape, wip0, part0, en, smq=smq)
        # what follows the send phase is not the subject here
        setf(e, st, '_xmpp_conn_t', CONN, 'reset_parser', 0)
        setf(e, st, SMF, SM0, 'sm_sent_nr', Sym('sentnr', 32))
    ps = e.start(P.func('xmpp_run_once'), [CTX, 1], su)
    rep.engine(e, len(ps))
    return e, ps, box['els'], box['sm']


def loop_one(rep, P, shape, wip0, part0, en):
    e, ps, els, _ = loop_paths(rep, P, shape, wip0, part0, en)
    what0 = '%s%s%s' % (shape or 'empty', '*' if part0 else '', '+sm' if en else '')
    w = 'xmpp_run_once'
    for st in ps:
        al = alarms(st)
        rep.check('memory', not al, what0, al[0].where if al else w, '%s: %s' % (what0, al[0].kind if al else ''), what0)
        if st.status != 'done' or al:
            continue
        ws = st.events('write')
        what = what0 + ':' + ''.join({'err': 'e', 'part': 'p', 'all': 'a'}[x.res] for x in ws)
        i = 0
        ok = True
        for k, x in enumerate(ws):
            if i >= len(els):
                rep.bad('write-order', what, x.where, '%s: write %d although the queue is exhausted' % (what, k))
                ok = False
                break
            d = st.norm(x.data)
            base = Ptr(data0(st, els[i]), 0)
            wr = Sym('q0.written', 64) if i == 0 and part0 else 0
            exp = e.padd(st, base, st.norm(wr))
            ln = lsub(st.norm(Sym('q%d.len' % i, 64)), st.norm(wr))
            okw = d == exp and st.norm(x.len) == st.norm(ln)
            rep.check('write-order', okw, what, x.where, '%s: write %d passes %s bytes at %s, unsent are %s at %s' % (what, k, x.len, d, ln, exp), what)
            ok &= okw
            if x.res == 'all':
                i += 1
            elif k != len(ws) - 1:
                rep.bad('write-order', what + ':after', ws[k + 1].where, '%s: another write follows one that was not accepted completely' % what)
                ok = False
        if not ok:
            continue
        if [x for x in st.events('conn_disconnect')] and not ws:
            continue
        lst = check_rest(rep, 'write-account', P, e, st, els, range(i, len(els)), shape, what, w)
        if lst is None:
            continue
        last = ws[-1] if ws else None
        for j in range(i, len(els)):
            wn = getfield(e, st, Q, els[j], 'written', 8)
            wip = getfield(e, st, Q, els[j], 'wip')
            w0 = st.norm(Sym('q0.written', 64)) if j == 0 and part0 else 0
            if j == i and last is not None and last.res == 'part':
                want = ladd(w0, zx(e, st, last.ret))
            else:
                want = w0
            same = wn == st.norm(want) or e.decide(st, e.icmp(st, 'eq', wn, st.norm(want), I64)) is True if not (type(wn) is int and type(st.norm(want)) is int) else wn == want
            rep.check('write-account', bool(same), what + ':written', w, '%s: %s bytes are marked as sent, accepted were %s' % (what, wn, want), what)
            started = j == i and last is not None and last.res != 'all'
            if started:
                rep.check('write-account', type(wip) is int and wip != 0, what + ':wip', w, '%s: an element that was given to the transport is not marked' % what, what)
            elif not (j == 0 and wip0):
                rep.check('write-account', wip == 0, what + ':wip', w, '%s: an element that was not given to the transport is marked as started' % what, what)
        smq, why = linked(e, st, 'sm')
        for j in range(i):
            o = st.mem[els[j].obj]
            t = st.mem[data0(st, els[j])]
            kept = smq is not None and els[j] in smq
            rep.check('memory', (o.freed and t.freed) if not kept else (not o.freed and not t.freed), what + ':sent', w, '%s: a sent element is %s' % (what, 'not released' if not kept else 'released although retained'), what)
        if ws:
            kinds = [x.kind for x in st.events('write', 'flush')]
            rep.check('write-order', kinds[-1] == 'flush', what + ':flush', w, '%s: the written bytes are not flushed' % what, what)


def zx(e, st, r):
    r = st.norm(r)
    return r if type(r) is int else e.cast(st, 'sext', r, I32, I64)


def data0(st, p):
    return st.g[('dataobj', p.obj)]


def only_loop(rep, P):
    wr = set()
    for f, ins, k, v in accesses(P, 'conn_interface', 'write'):
        if k == 'load':
            wr.add(f.name)
    if not wr:
        raise AnalysisBroken('no function calls the write function of the transport')
    pub = [f for m in P.modules.values() for f in m.funcs.values() if f.name.startswith('xmpp_') and not f.internal]
    n = 0
    for f in pub:
        c = set(closure(P, [f.name]))
        if c & wr:
            n += 1
            rep.check('write-only-loop', f.name in ('xmpp_run_once', 'xmpp_run'), f.name, f.name, '%s writes to the transport' % f.name, f.name)
    if not n:
        raise AnalysisBroken('the event loop does not reach the transport')


# -- queueing -----------------------------------------------------------------
def m_vsnprintf(e, st, a, ins):
    """formatting of an unknown argument list: any text"""
    t = Sym('formatted', tag='nonnull')
    L = Len(S(t))
    st.facts.assume_range(L, 0, 1 << 30)
    n = st.norm(a[1])
    out = []
    if st.isnull(a[0]) is True or n == 0:
        return L
    c = e.icmp(st, 'ult', L, n, I64)
    for v in (True, False):
        t2 = st.copy()
        if type(c) is int:
            if bool(c) != v:
                continue
        elif not e.assume(t2, c, v):
            continue
        if v:
            put_pieces(t2, a[0], (S(t),), True)
        else:
            put_pieces(t2, a[0], (App('sub', (S(t),), 0, lsub(n, 1)),), True)
        out.append((t2, L))
    return out


def enqueue_cases(P):
    E = P.enums
    U, L, SMO = E['XMPP_QUEUE_USER'], E['XMPP_QUEUE_STROPHE'], E['XMPP_QUEUE_SM_STROPHE']
    stz = Sym('userstanza', tag='nonnull')
    fmt = (S(Sym('formatted', tag='nonnull')),)
    rendered = None

    def raw(data):
        def a(st):
            o = st.new_obj('heap', 'rawdata', len(data), 'undef')
            p = Ptr(o.id, 0)
            put_pieces(st, p, (data,), False)
            return p
        return a
    DATA = [b'<a/>', b'<a>\x00</a>', b'x', b'']
    out = []
    for d in DATA:
        out.append(('xmpp_send_raw', [CONN, raw(d), len(d)], 'U', (d,) if d else (), len(d)))
        for k, o in (('U', U), ('L', L), ('S', SMO)):
            out.append(('send_raw', [CONN, raw(d), len(d), o, 0], k, (d,) if d else (), len(d)))
    out.append(('xmpp_send_raw_string', [CONN, Sym('fmt', tag='nonnull')], 'U', fmt, Len(fmt[0])))
    out.append(('send_raw_string', [CONN, Sym('fmt', tag='nonnull')], 'S', fmt, Len(fmt[0])))
    out.append(('xmpp_send', [CONN, stz], 'U', 'rendered', None))
    for k, o in (('U', U), ('L', L), ('S', SMO)):
        out.append(('send_stanza', [CONN, stz, o], k, 'rendered', None))
    return out


def enqueue_rules(rep, P):
    E = P.enums
    C = E['XMPP_STATE_CONNECTED']
    for fn, args, own, text, ln in enqueue_cases(P):
        for shape in ('', 'L', 'UR') if rep.tier != 'thorough' else ('', 'U', 'L', 'UR', 'LU', 'ULS'):
            for en, rs in ((0, 0), (1, 0), (1, 1)):
                enqueue_one(rep, P, fn, args, own, text, ln, shape, en, rs, C)


def enqueue_one(rep, P, fn, args, own, text, ln, shape, en, rs, C):
    m = conn_models(keep=('send_stanza', 'send_raw', 'send_raw_string'))
    m.pop('xmpp_send', None)
    m['strophe_vsnprintf'] = m['vsnprintf'] = m_vsnprintf

    box = {}

    def su(e, st):
        box['els'], box['sm'] = build(e, st, P, shape, 0, False, en, rs)
        st.g['allow_to_text_fail'] = False
    e, ps = run_conn(rep, P, fn, args, m, su)
    els = box['els']
    O = owners(P)
    done = 0
    for st in ps:
        al = alarms(st)
        what = '%s(%s)%s%s' % (fn, own, shape and ' on ' + shape, ' sm%d%d' % (en, rs) if en else '')
        rep.check('memory', not al, what, al[0].where if al else fn, '%s: %s %s' % (what, al[0].kind if al else '', al[0].d.get('why', '') if al else ''), what)
        if st.status != 'done' or al:
            continue
        state = st.norm(getf(e, st, '_xmpp_conn_t', CONN, 'state'))
        live = eqv(e, st, state, C)
        neg = truth(st, getf(e, st, '_xmpp_conn_t', CONN, 'stream_negotiation_completed'))
        lst, why = linked(e, st)
        if lst is None:
            rep.bad('enqueue', what + ':list', fn, '%s: %s' % (what, why))
            continue
        if len(lst) == len(els):
            must = live is True and (own != 'U' or neg is True or fn == 'xmpp_send_raw')
            rep.check('enqueue-offline', not must and check_rest(rep, 'enqueue', P, e, st, els, range(len(els)), shape, what, fn) is not None, what, fn, '%s: nothing is queued on an established connection' % what, what)
            continue
        done += 1
        rep.check('enqueue-offline', live is True, what + ':offline', fn, '%s: something is queued although the connection is not established' % what, what)
        wantr = en and not rs and own != 'S'
        extra = [own] + (['S'] if wantr else [])
        lst = check_rest(rep, 'enqueue', P, e, st, els, range(len(els)), shape, what, fn, extra)
        if lst is None:
            continue
        new = lst[len(els)]
        d = getfield(e, st, Q, new, 'data', 8)
        L = getfield(e, st, Q, new, 'len', 8)
        if text == 'rendered':
            ks = [k[1] for k in st.g if isinstance(k, tuple) and k[0] == 'rendered']
            tx, lx = ((ks[0],), Len(ks[0])) if ks else (None, None)
        else:
            tx, lx = text, ln
        c = content(st, d, L) if isinstance(d, Ptr) else None
        c = subst(st, c) if c is not None else None
        same = c == tx or (tx == () and L == 0)
        rep.check('enqueue', same and st.norm(L) == st.norm(lx), what + ':text', fn, '%s: queued are %s bytes %s instead of %s bytes %s' % (what, L, c, lx, tx), what)
        rep.check('enqueue', getfield(e, st, Q, new, 'written', 8) == 0 and getfield(e, st, Q, new, 'wip') == 0 and getfield(e, st, Q, new, 'owner') == O[own],
                  what + ':fields', fn, '%s: the new element starts as written=%s wip=%s owner=%s' % (what, getfield(e, st, Q, new, 'written', 8), getfield(e, st, Q, new, 'wip'), getfield(e, st, Q, new, 'owner')), what)
        b = st.base_of(d)[0] if isinstance(d, Ptr) else None
        for arg in args:
            if callable(arg) and b is not None:
                rep.check('memory', b.name != 'rawdata', what + ':alias', fn, '%s: the queue keeps the caller\'s buffer' % what, what)
        if wantr:
            r = lst[len(els) + 1]
            rd = getfield(e, st, Q, r, 'data', 8)
            rc = content(st, rd)
            rep.check('enqueue', getfield(e, st, Q, r, 'owner') == O['S'] and rc is not None and subst(st, rc) and isinstance(subst(st, rc)[0], bytes) and subst(st, rc)[0].startswith(b'<r ')
                      and getfield(e, st, Q, r, 'userdata', 8) == new and getfield(e, st, Q, r, 'written', 8) == 0 and getfield(e, st, Q, r, 'wip') == 0,
                      what + ':request', fn, '%s: the acknowledgement request behind it is %s' % (what, rc), what)
    if not done:
        raise AnalysisBroken('%s never queues anything' % fn)


def eqv(e, st, v, c):
    if type(v) is int:
        return v == c
    return e.decide(st, e.icmp(st, 'eq', v, c, I32))


# -- inspection ------------------------------------------------------------------
def startable(shape, wip0):
    return [i for i, k in enumerate(shape) if k == 'U' and not (i == 0 and wip0)]


def length_rules(rep, P, shapes):
    for shape in shapes:
        for wip0 in (0, 1) if shape else (0,):
            m = conn_models()
            e, ps = run_conn(rep, P, 'xmpp_conn_send_queue_len', [CONN], m, lambda e, st: build(e, st, P, shape, wip0))
            want = len(startable(shape, wip0))
            for st in ps:
                if st.status == 'done':
                    what = shape + ('*' if wip0 else '')
                    rep.check('length', st.norm(st.ret) == want, what, 'xmpp_conn_send_queue_len', 'length of %s is reported as %s, there are %d' % (what, st.norm(st.ret), want), what)


def drop_rules(rep, P, shapes):
    E = P.enums
    for shape in shapes:
        for wip0 in (0, 1) if shape else (0,):
            for state in ('XMPP_STATE_CONNECTED', 'XMPP_STATE_DISCONNECTED'):
                for which in ('XMPP_QUEUE_OLDEST', 'XMPP_QUEUE_YOUNGEST'):
                    drop_one(rep, P, shape, wip0, state, which)


def drop_one(rep, P, shape, wip0, state, which):
    E = P.enums
    m = conn_models()
    m.pop('trigger_sm_callback', None)
    m['trigger_sm_callback'] = event('sm_callback')
    box = {}
    live = state == 'XMPP_STATE_CONNECTED'

    def su(e, st):
        box['els'], _ = build(e, st, P, shape, wip0, bool(wip0), 1 if 'R' in shape else 0, 1 if 'R' in shape else 0)
        setf(e, st, '_xmpp_conn_t', CONN, 'state', E[state])
    e, ps = run_conn(rep, P, 'xmpp_conn_send_queue_drop_element', [CONN, E[which]], m, su)
    els = box['els']
    cand = startable(shape, wip0 and live)
    pick = None if not cand else cand[0] if which == 'XMPP_QUEUE_OLDEST' else cand[-1]
    fn = 'xmpp_conn_send_queue_drop_element'
    for st in ps:
        what = '%s of %s%s %s' % (which[11:].lower(), shape or 'empty', '*' if wip0 else '', 'live' if live else 'offline')
        al = alarms(st)
        rep.check('memory', not al, what, al[0].where if al else fn, '%s: %s' % (what, al[0].kind if al else ''), what)
        if st.status != 'done' or al:
            continue
        r = st.norm(st.ret)
        gone = [] if pick is None else [pick] + ([pick + 1] if pick + 1 < len(shape) and shape[pick + 1] == 'R' else [])
        rest = [i for i in range(len(shape)) if i not in gone]
        if pick is None:
            rep.check('drop', st.isnull(r) is True, what, fn, 'dropping the %s returns something although no user element may be dropped' % what, what)
        else:
            okp = isinstance(r, Ptr) and not st.mem[r.obj].freed
            c = content(st, r) if okp else None
            rep.check('drop', okp and subst(st, c) == text_of(st, pick), what, fn, 'dropping the %s returns %s instead of the text of element %d' % (what, r if not okp else subst(st, c), pick), what)
            if not okp:
                continue
        check_rest(rep, 'drop', P, e, st, els, rest, shape, what, fn)
        for i in gone:
            o, t = st.mem[els[i].obj], st.mem[data0(st, els[i])]
            rep.check('memory', o.freed and (t.freed if i != pick else not t.freed), what + ':freed', fn, '%s: the dropped element is not released properly' % what, what)
        if wip0 and els and 0 in rest:
            rep.check('drop', getfield(e, st, Q, els[0], 'wip') == 1 and getfield(e, st, Q, els[0], 'written', 8) == st.norm(Sym('q0.written', 64)), what + ':started', fn, '%s: the started element is changed' % what, what)
        if len(gone) == 2:
            rep.check('drop', st.norm(getf(e, st, SMF, SM0, 'r_sent')) == 0, what + ':r', fn, '%s: its <r/> is dropped but counted as outstanding' % what, what)


def reset_rules(rep, P):
    from p_nego import attempt_setup
    for shape in ('', 'U', 'UL', 'URU'):
        m = conn_models()
        box = {}

        def su(e, st):
            attempt_setup(sm=True)(e, st)
            box['els'], _ = build(e, st, P, shape, 0)
        e, ps = run_conn(rep, P, 'xmpp_connect_raw', None, m, su)
        for st in ps:
            if st.status != 'done' or truth(st, st.ret) is not False:
                continue
            al = alarms(st)
            rep.check('memory', not al, 'reset:' + shape, al[0].where if al else 'xmpp_connect_raw', al[0].kind if al else '', shape)
            lst, why = linked(e, st)
            n, u = counters(e, st)
            rep.check('reset', lst == [] and n == 0 and u == 0, shape, 'xmpp_connect_raw', 'a new connection starts with a queue of %s' % (why or len(lst),), shape)
            for p in box['els']:
                rep.check('memory', st.mem[p.obj].freed and st.mem[data0(st, p)].freed, 'reset:%s:leak' % shape, 'xmpp_connect_raw', 'an old element is not released', shape)


def writer_rules(rep, P):
    ok = set()
    for r in ('xmpp_run_once', 'send_raw', 'send_stanza', 'xmpp_send_raw_string', 'send_raw_string', 'xmpp_conn_send_queue_drop_element', 'xmpp_connect_raw', 'xmpp_connect_client',
              'xmpp_conn_release', 'xmpp_conn_new', 'xmpp_conn_restore_sm_state', 'conn_disconnect', 'xmpp_free_sm_state', 'auth_handle_open'):
        if P.has(r):
            ok |= set(closure(P, [r]))
    ok |= set(addr_taken(P))
    for fld, stc in (('send_queue_head', '_xmpp_conn_t'), ('send_queue_tail', '_xmpp_conn_t'), ('send_queue_len', '_xmpp_conn_t'), ('send_queue_user_len', '_xmpp_conn_t'),
                     ('next', Q), ('prev', Q), ('written', Q), ('wip', Q)):
        for w in sorted(writers(P, stc, fld, False)):
            rep.check('queue-writers', w in ok, '%s:%s' % (w, fld), w, '%s changes %s and is reached from none of the analysed functions' % (w, fld), w)
