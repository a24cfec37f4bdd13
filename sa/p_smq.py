"""C04: retention, acknowledgement and retransmission of outbound stanzas."""
from p_queue import *
from p_sm import pin_stanza, SMNS, Z, writes
from p_nego import Nego, attr_text, resuming, attempt_setup
from p_life import parser_callbacks
import p_queue

B = Sym('base', 32, lo=0, hi=1 << 31)


def smnum(e, st, els, base=B):
    """consecutive numbers; the text is as long as the element says"""
    for i, p in enumerate(els):
        setfield(e, st, Q, p, 'sm_h', ladd(base, i))
        t = content(st, getfield(e, st, Q, p, 'data', 8))
        setfield(e, st, Q, p, 'len', Len(t[0]))
        st.facts.assume_range(Len(t[0]), 0, 1 << 30)
        setfield(e, st, Q, p, 'userdata', 0)
        setfield(e, st, Q, p, 'owner', owners(e.prog)['U' if i % 2 == 0 else 'L'])


def texts(e, st, lst):
    """names of the texts of queue elements"""
    out = []
    for p in lst:
        d = getfield(e, st, Q, p, 'data', 8)
        L = getfield(e, st, Q, p, 'len', 8)
        c = content(st, d, L) if isinstance(d, Ptr) and not st.mem[d.obj].freed else None
        c = subst(st, c) if c is not None else None
        a = c[0].args[0] if c and len(c) == 1 and isinstance(c[0], Term) and c[0].op == 'str' else None
        if getattr(a, 'op', 0) == 'sym' and a.args[0].endswith('.text'):
            out.append(a.args[0][:-5])
        elif c and isinstance(c[0], bytes) and c[0].startswith(b'<r '):
            out.append('r')
        else:
            out.append(repr(c))
    return out


def num(e, st, p):
    return st.norm(getfield(e, st, Q, p, 'sm_h'))


def cut_at(e, st, h, n, base=B):
    """how many of n consecutively numbered elements are below h on this path; None when the path does not determine it"""
    k = 0
    for i in range(n):
        a = zx64(e, st, ladd(base, i))
        d = None
        for pred, x, y, neg in (('ult', a, h, False), ('ule', h, a, True), ('ugt', h, a, False), ('uge', a, h, True)):
            t = e.icmp(st, pred, x, y, I64)
            d = bool(t) if type(t) is int else e.decide(st, t)
            if d is not None:
                d = d != neg
                break
        if d is None:
            return None
        if not d:
            # numbers are increasing, so nothing later is below h
            return k
        k += 1
    return k


def zx64(e, st, v):
    v = st.norm(v)
    return v if type(v) is int else e.cast(st, 'zext', v, I32, I64)


def c04(rep):
    P = Program()
    R = rep.rule
    R('retain', 'a completely written stanza is retained at the end of the queue of unacknowledged ones under the current number, and the number advances by one', 30)
    R('retain-not', 'stream-management elements, and anything while stream management is inactive, are neither retained nor counted', 20)
    R('ack', 'an acknowledgement h releases exactly the retained stanzas numbered below h', 6)
    R('ack-invalid', 'an acknowledgement without a usable h releases nothing', 2)
    R('resumed', 'after a resumption the stanzas from h on are queued once, in order, unchanged, before the user is told; the numbering continues with h', 4)
    R('resumed-refused', 'a resumption of another session, or without a usable h, releases and resends nothing', 2)
    R('resend-kept', 'retransmissions that did not reach the server when the connection is lost are retained again, in order', 2)
    R('failed', 'a failed resumption keeps everything the server did not report as handled; it is sent in the new session', 4)
    R('enabled', 'when a new session is enabled the stanzas left over from the old one are queued once, in order, before the user is told', 2)
    R('enable-nr', 'the numbering starts at zero in a session that is requested anew', 1)
    R('kept', 'nothing else changes the number of the next stanza or drops a retained one', 20)
    R('memory', 'released stanzas are freed exactly once, retained ones are not freed', 20)
    R('request', 'sending a stanza asks for an acknowledgement unless one is outstanding', 4)
    nmax = 4 if rep.tier == 'thorough' else 3
    retain_rules(rep, P, nmax)
    ack_rules(rep, P, nmax)
    n = Nego(rep, prog=P)
    writes_sent(n)
    n.discover()
    h = sm_handler(n)
    resume_rules(rep, P, h, nmax)
    failed_rules(rep, P, h, nmax)
    number_rules(rep, P, n, h)
    kept_rules(rep, P)
    request_rules(rep, P)
    rep.assumptions.append('fewer than 2^32 stanzas per session (the code compares the numbers as plain integers)')
    return 'other', 'shape analysis of the two queues (up to %d retained stanzas with consecutive unknown numbers, unknown h), with every comparison of the numbers decided on each path' % nmax


def sm_handler(n):
    hs = set()
    for r, sts in n.sum.items():
        for st in sts:
            ks = [c[0] for ev, c in n.sends(st)]
            if 'enable' in ks or 'resume' in ks:
                for ev in st.events('handler_add'):
                    if isinstance(ev.fn, Fn) and ev.fn.name in n.sum and ev.d.get('ns') is not None:
                        if lits_ns(st, ev) == SMNS:
                            hs.add(ev.fn.name)
    if not hs:
        raise AnalysisBroken('no handler for the answer to <enable/> or <resume/> is found')
    return sorted(hs)


def lits_ns(st, ev):
    v = ev.d.get('ns')
    if isinstance(v, str):
        return v
    if isinstance(v, tuple):
        v = subst(st, v)
        return v[0].decode() if len(v) == 1 and isinstance(v[0], bytes) else None
    x = lit(st, v)
    return x.decode() if isinstance(x, bytes) else x


# -- the event loop -------------------------------------------------------------
def retain_rules(rep, P, nmax):
    shapes = ['U', 'L', 'S', 'UU', 'US', 'SU', 'UR', 'ULU'] + (['URU', 'SLS', 'LUL', 'UUU'] if rep.tier == 'thorough' else ['URU'])
    for shape in shapes:
        for en in (0, 1):
            for smq in (0, 1, 2)[:3 if en else 2]:
                e, ps, els, sm = loop_paths(rep, P, shape, 0, False, en, smq)
                for st in ps:
                    if st.status != 'done':
                        continue
                    what = '%s %s+%d' % (shape, 'on' if en else 'off', smq)
                    w = 'xmpp_run_once'
                    k = sum(x.res == 'all' for x in st.events('write'))
                    al = alarms(st)
                    rep.check('memory', not al, what, al[0].where if al else w, al[0].kind if al else '', what)
                    keep = [i for i in range(k) if en and shape[i] in 'UL']
                    lst, why = linked(e, st, 'sm')
                    want = list(sm) + [els[i] for i in keep]
                    rid = 'retain' if keep else 'retain-not'
                    rep.check(rid, lst == want, what + ':list', w, '%s, %d written: retained are %s, expected %s' % (what, k, why or [nm(els, sm, p) for p in lst], [nm(els, sm, p) for p in want]), what)
                    s0 = Sym('sentnr', 32)
                    nr = st.norm(getf(e, st, SMF, SM0, 'sm_sent_nr'))
                    rep.check(rid, eq32(st, nr, ladd(s0, len(keep))), what + ':nr', w, '%s: %d stanzas are retained and the number becomes %s' % (what, len(keep), nr), what)
                    if lst != want:
                        continue
                    for j, i in enumerate(keep):
                        p = els[i]
                        h = num(e, st, p)
                        d = getfield(e, st, Q, p, 'data', 8)
                        rep.check('retain', eq32(st, h, ladd(s0, j)), what + ':number', w, '%s: element %d is retained as number %s' % (what, i, h), what)
                        rep.check('memory', not st.mem[p.obj].freed and isinstance(d, Ptr) and not st.mem[d.obj].freed and subst(st, content(st, d)) == text_of(st, i), what + ':text', w, '%s: the retained text is gone or changed' % what, what)
                        rep.check('retain', getfield(e, st, Q, p, 'len', 8) == Sym('q%d.len' % i, 64) and getfield(e, st, Q, p, 'owner') == owners(P)[shape[i]], what + ':fields', w, '%s: the retained element is changed' % what, what)


def nm(els, sm, p):
    return 'q%d' % els.index(p) if p in els else 's%d' % sm.index(p) if p in sm else '?'


def eq32(st, a, b):
    a, b = st.norm(a), st.norm(b)
    if a == b:
        return True
    d = lsub(a, b)
    return type(d) is int and d & 0xffffffff == 0


# -- acknowledgements -------------------------------------------------------------
def smstate(e, st, P, n, en=1, sq='', base=B):
    els, sm = build(e, st, P, sq, enabled=en, smq=n)
    smnum(e, st, sm, base)
    for i, p in enumerate(els):
        t = content(st, getfield(e, st, Q, p, 'data', 8))
        setfield(e, st, Q, p, 'len', Len(t[0]))
        st.facts.assume_range(Len(t[0]), 0, 1 << 30)
    return els, sm


def ack_rules(rep, P, nmax):
    cb = parser_callbacks(P)[2]
    for n in range(nmax + 1):
        for hv in ('*', None):
            m = conn_models()
            pin_stanza(m, Z, {'xmlns': SMNS, 'h': hv}, 'a')
            m['handler_fire_stanza'] = event('dispatch')
            box = {}

            def su(e, st):
                box['q'], box['sm'] = smstate(e, st, P, n)
            e, ps = run_conn(rep, P, cb, [Z, CONN], m, su, loopk=16)
            sm = box['sm']
            seen = set()
            for st in ps:
                al = alarms(st)
                rep.check('memory', not al, 'ack%d' % n, al[0].where if al else cb, al[0].kind if al else '', cb)
                if st.status != 'done' or al:
                    continue
                lst, why = linked(e, st, 'sm')
                ok, h = parsed(st)
                what = '%d retained, h %s' % (n, 'ok' if ok else 'unusable')
                if not ok:
                    rep.check('ack-invalid', lst == sm, what, cb, '%s: retained are %s' % (what, why or [nm([], sm, p) for p in lst]), what)
                    continue
                k = cut_at(e, st, h, n)
                if k is None:
                    rep.bad('ack', 'undecided:%d' % n, cb, 'an acknowledgement is processed without comparing h to the number of every released stanza (%s left of %d)' % (None if lst is None else len(lst), n))
                    continue
                seen.add(k)
                rep.check('ack', lst == sm[k:], '%s:%d' % (what, k), cb, '%s: %d stanzas are numbered below h, retained afterwards are %s' % (what, k, why or [nm([], sm, p) for p in lst]), what)
                for i, p in enumerate(sm):
                    o, t = st.mem[p.obj], st.mem[data0(st, p)]
                    rep.check('memory', (o.freed and t.freed) if i < k else not (o.freed or t.freed), '%s:%d:freed' % (what, k), cb, '%s: stanza %d of %d is %sfreed' % (what, i, n, 'not ' if i < k else ''), what)
                for i in range(k, n):
                    rep.check('ack', num(e, st, sm[i]) == st.norm(ladd(B, i)), what + ':number', cb, 'a retained stanza is renumbered', what)
                rep.check('ack', st.norm(getf(e, st, SMF, SM0, 'r_sent')) == 0, what + ':r', cb, 'after an acknowledgement none is asked for any more', what)
            if hv == '*' and seen != set(range(n + 1)):
                rep.bad('ack', 'missing:%d' % n, cb, 'with %d retained stanzas an acknowledgement can release %s of them' % (n, sorted(seen)))


def parsed(st):
    """(the attribute h is a number on this path, its value)"""
    ok, h = None, None
    for ev in st.events('toul'):
        ok, h = ev.ok, ev.v
    return bool(ok), h


_old_toul = m_string_to_ul


def m_toul(e, st, a, ins):
    r = _old_toul(e, st, a, ins)
    if isinstance(r, list) and len(r) == 2:
        for (s2, v), ok in zip(r, (True, False)):
            b, o = s2.base_of(a[1])
            s2.ev('toul', ok=ok, v=s2.norm(e.load_cell(s2, b, o, 8, I64)))
            if ok:
                # the attribute is unsigned: 0 .. 2^64-1
                pass
    return r


_cm = conn_models


def conn_models(oom=False, keep=()):
    m = _cm(oom, keep)
    m['string_to_ul'] = m_toul
    return m


# -- answers to <enable/> and <resume/> ----------------------------------------------
def run_sm(rep, P, h, name, attrs, n, resume, en, sq='', cause=None, keep_toul=True, base=B):
    m = conn_models(keep=('send_raw', 'send_raw_string'))
    pin_stanza(m, Z, dict(attrs, xmlns=SMNS), name)
    if cause is not None:
        c = Sym('cause', tag='nonnull')
        pin_stanza(m, c, {'xmlns': 'urn:ietf:params:xml:ns:xmpp-stanzas'}, cause)
        m['xmpp_stanza_get_child_by_ns'] = lambda e, st, a, ins: c
        m['xmpp_stanza_get_children'] = lambda e, st, a, ins: c if st.norm(a[0]) == Z else 0
        m['xmpp_stanza_get_child_by_name'] = lambda e, st, a, ins: c if lit(st, a[1]) == cause.encode() else 0
    box = {}

    def told(e, st, a, ins):
        ls, _ = linked(e, st)
        st.ev('told', event=st.norm(a[1]), queued=None if ls is None else len(ls))
        return None
    m['@conn_handler'] = told
    pv = Sym('prevsession', tag='nonnull')

    def su(e, st):
        box['q'], box['sm'] = smstate(e, st, P, n, en, sq, base)
        setf(e, st, SMF, SM0, 'resume', resume)
        setf(e, st, SMF, SM0, 'sm_sent_nr', Sym('sentnr', 32))
        setf(e, st, SMF, SM0, 'sm_support', 1)
        setf(e, st, SMF, SM0, 'ctx', CTX, 8)
        setf(e, st, SMF, SM0, 'previd', pv, 8)
        setf(e, st, SMF, SM0, 'id', 0, 8)
        setf(e, st, '_xmpp_conn_t', CONN, 'jid', Sym('c04.jid', tag='nonnull'), 8)
        setf(e, st, '_xmpp_conn_t', CONN, 'bound_jid', 0, 8)
        setf(e, st, '_xmpp_conn_t', CONN, 'ctx', CTX, 8)
        setf(e, st, '_xmpp_conn_t', CONN, 'state', P.enums['XMPP_STATE_CONNECTED'])
        setf(e, st, '_xmpp_conn_t', CONN, 'sm_callback', 0, 8)
        if not resume:
            setf(e, st, SMF, SM0, 'bind', 0, 8)
    e, ps = run_conn(rep, P, h, [CONN, Z, Sym('ud', tag='nullable')], m, su, loopk=16)
    return e, ps, box['q'], box['sm']


def stale(st):
    return alarms(st)


def resume_rules(rep, P, hs, nmax):
    C = P.enums['XMPP_CONN_CONNECT']
    for h in hs:
        for n in range(nmax + 1):
            for sq in ('', 'S'):
                e, ps, q, sm = run_sm(rep, P, h, 'resumed', {'h': '*', 'previd': '*'}, n, 1, 0, sq)
                seen = set()
                for st in ps:
                    al = alarms(st)
                    rep.check('memory', not al, 'resumed%d' % n, al[0].where if al else h, 'resumed with %d retained: %s' % (n, al[0].kind if al else ''), h)
                    if st.status != 'done' or al:
                        continue
                    ok, hv = parsed(st)
                    told = [x for x in st.events('told') if x.event == C]
                    lst, why = linked(e, st)
                    sl, swhy = linked(e, st, 'sm')
                    what = '%d retained%s' % (n, ', %s queued' % sq if sq else '')
                    if lst is None or sl is None:
                        rep.bad('resumed', what + ':list', h, '%s: %s' % (what, why or swhy))
                        continue
                    if not told:
                        rep.check('resumed-refused', sl == sm and texts(e, st, lst) == ['q%d' % i for i in range(len(sq))], what + ':refused', h, '%s: a refused resumption leaves %s retained and %s queued' % (what, texts(e, st, sl), texts(e, st, lst)), what)
                        continue
                    k = cut_at(e, st, hv, n) if ok else None
                    if k is None:
                        rep.bad('resumed', what + ':undecided', h, '%s: the session is resumed without comparing h to the number of every stanza' % what)
                        continue
                    seen.add(k)
                    tx = texts(e, st, lst)
                    core = [x for x in tx if x != 'r']
                    want = ['q%d' % i for i in range(len(sq))] + ['s%d' % i for i in range(k, n)]
                    rep.check('resumed', core == want and tx.count('r') <= 1, '%s:%d' % (what, k), h, '%s, %d below h: queued are %s, expected %s' % (what, k, tx, want), what)
                    rep.check('resumed', not sl, '%s:%d:left' % (what, k), h, '%s: %s stay in the retained queue although they are sent again' % (what, texts(e, st, sl)), what)
                    rep.check('resumed', told[0].queued is not None and told[0].queued >= len(core), '%s:%d:first' % (what, k), h, '%s: the user is told before everything is queued again' % what, what)
                    nr = st.norm(getf(e, st, SMF, SM0, 'sm_sent_nr'))
                    first = ladd(B, k) if k < n else None
                    hh = e.cast(st, 'trunc', hv, I64, I32)
                    okn = eq32(st, nr, hh) or (first is not None and eq32(st, nr, first))
                    rep.check('resumed', okn, '%s:%d:nr' % (what, k), h, '%s: the numbering continues with %s (h %s, first unacknowledged %s)' % (what, nr, hv, first), what)
                    for j, x in enumerate(tx):
                        if x.startswith('s'):
                            i = int(x[1:])
                            p = lst[j]
                            rep.check('resumed', getfield(e, st, Q, p, 'owner') == owners(P)['U' if i % 2 == 0 else 'L'] and getfield(e, st, Q, p, 'written', 8) == 0 and getfield(e, st, Q, p, 'wip') == 0,
                                      what + ':fields', h, '%s: retransmission %d starts with owner %s, written %s' % (what, i, getfield(e, st, Q, p, 'owner'), getfield(e, st, Q, p, 'written', 8)), what)
                    if k < n and not sq:
                        again(rep, P, st, n, k, what)
                if seen != set(range(n + 1)):
                    rep.bad('resumed', 'missing:%d' % n, h, 'with %d retained stanzas a resumption can release %s of them' % (n, sorted(seen)))


def again(rep, P, st0, n, k, what):
    """the connection is lost before the retransmissions are written"""
    fn = 'conn_disconnect'
    m = conn_models(keep=('conn_disconnect',))
    e, ps = run_conn(rep, P, fn, [CONN], m, None, st0.copy())
    for st in ps:
        al = alarms(st)
        rep.check('memory', not al, 'lost:%d:%d' % (n, k), al[0].where if al else fn, al[0].kind if al else '', fn)
        if st.status != 'done' or al:
            continue
        sl, why = linked(e, st, 'sm')
        tx = texts(e, st, sl) if sl is not None else why
        rep.check('resend-kept', tx == ['s%d' % i for i in range(k, n)], '%d:%d' % (n, k), fn, '%s: after the connection is lost again the retained stanzas are %s' % (what, tx), fn)
        if sl is not None and tx == ['s%d' % i for i in range(k, n)]:
            nums = [num(e, st, p) for p in sl]
            inc = all(eq32(st, lsub(b, a), 1) for a, b in zip(nums, nums[1:]))
            rep.check('resend-kept', inc, '%d:%d:numbers' % (n, k), fn, '%s: they are numbered %s' % (what, nums), fn)


def failed_rules(rep, P, hs, nmax):
    C = P.enums['XMPP_CONN_CONNECT']
    for h in hs:
        for cause in ('item-not-found', 'feature-not-implemented', 'unexpected-request', 'internal-server-error'):
            for hv in ('*', None):
                n = 2
                e, ps, q, sm = run_sm(rep, P, h, 'failed', {'h': hv}, n, 1, 0, '', cause)
                for st in ps:
                    al = alarms(st)
                    what = '%s h=%s' % (cause, hv)
                    rep.check('memory', not al, what, al[0].where if al else h, '%s: %s' % (what, al[0].kind if al else ''), what)
                    if st.status != 'done' or al:
                        continue
                    ok, hval = parsed(st)
                    sl, why = linked(e, st, 'sm')
                    lst, _ = linked(e, st)
                    if sl is None or lst is None:
                        rep.bad('failed', what + ':list', h, '%s: %s' % (what, why))
                        continue
                    used = ok and cut_at(e, st, hval, n) is not None
                    k = cut_at(e, st, hval, n) if used else 0
                    left = texts(e, st, sl) + [x for x in texts(e, st, lst) if x.startswith('s')]
                    # when the path never compares h it may only keep everything
                    rep.check('failed', left == ['s%d' % i for i in range(k, n)], what, h, '%s: of %d retained stanzas (%d reported as handled) %s are left' % (what, n, k, left), what)
        # the request to enable failed: the rest is sent without stream management
        e, ps, q, sm = run_sm(rep, P, h, 'failed', {'h': None}, 2, 0, 1, '', 'unexpected-request')
        for st in ps:
            if st.status != 'done' or not [x for x in st.events('told') if x.event == C]:
                continue
            lst, why = linked(e, st)
            sl, _ = linked(e, st, 'sm')
            tx = texts(e, st, lst) if lst is not None else why
            rep.check('failed', [x for x in tx if x != 'r'] == ['s0', 's1'] and not sl, 'enable', h, 'when <enable/> fails the stanzas left over are %s' % tx, h)
        for n in range(nmax + 1):
            e, ps, q, sm = run_sm(rep, P, h, 'enabled', {'resume': '*', 'id': '*'}, n, 0, 1)
            for st in ps:
                al = alarms(st)
                rep.check('memory', not al, 'enabled%d' % n, al[0].where if al else h, 'enabled with %d left: %s' % (n, al[0].kind if al else ''), h)
                told = [x for x in st.events('told') if x.event == C]
                if st.status != 'done' or al or not told:
                    continue
                lst, why = linked(e, st)
                sl, _ = linked(e, st, 'sm')
                tx = texts(e, st, lst) if lst is not None else why
                core = [x for x in tx if x != 'r']
                rep.check('enabled', core == ['s%d' % i for i in range(n)] and not sl, '%d' % n, h, 'with %d stanzas left over, queued in the new session are %s' % (n, tx), h)
                rep.check('enabled', told[0].queued is not None and told[0].queued >= n, '%d:first' % n, h, 'the user is told before the %d stanzas are queued' % n, h)
                rep.check('enabled', st.norm(getf(e, st, SMF, SM0, 'sm_sent_nr')) == Sym('sentnr', 32), '%d:nr' % n, h, 'the numbering is changed when <enabled/> arrives', h)


# -- numbering and retention elsewhere ---------------------------------------------
def writes_sent(n):
    def mon(st, f, v):
        if f == 'sm.sm_sent_nr':
            st.ev('sentnr', val=v)
    n.monitors.append(mon)


def number_rules(rep, P, n, hs):
    for r, sts in sorted(n.sum.items()):
        for st in sts:
            if st.status != 'done':
                continue
            a = [c[0] for ev, c in n.sends(st)]
            sn = st.events('sentnr')
            name = attr_text(st, 'name')
            if 'enable' in a:
                rep.check('enable-nr', bool(sn) and sn[-1].val == 0, r, r, 'a new session is requested and the numbering continues (%s)' % [x.val for x in sn], r)
            elif name in ('resumed', 'failed', 'enabled') and r in hs:
                pass
            else:
                rep.check('kept', not sn, r, sn[0].where if sn else r, '%s changes the number of the next stanza' % r, r)


KEEP = ('conn_disconnect', 'xmpp_connect_client', 'xmpp_connect_component', 'xmpp_connect_raw', 'xmpp_disconnect', 'conn_established')


def kept_rules(rep, P):
    for fn in KEEP:
        if not P.has(fn):
            continue
        for en in (0, 1):
            m = conn_models(keep=(fn, 'conn_disconnect', 'send_raw_string', 'send_raw'))
            m['conn_open_stream'] = event('open_stream')
            box = {}

            def su(e, st, fn=fn):
                if fn.startswith('xmpp_connect'):
                    attempt_setup(sm=True)(e, st)
                box['q'], box['sm'] = smstate(e, st, P, 2, en)
                setf(e, st, SMF, SM0, 'sm_sent_nr', Sym('sentnr', 32))
                setf(e, st, SMF, SM0, 'r_sent', 1)
                setf(e, st, '_xmpp_conn_t', CONN, 'sm_callback', 0, 8)
            m['strophe_vsnprintf'] = m['vsnprintf'] = m_vsnprintf
            e, ps = run_conn(rep, P, fn, None, m, su)
            for st in ps:
                al = alarms(st)
                rep.check('memory', not al, fn, al[0].where if al else fn, '%s: %s' % (fn, al[0].kind if al else ''), fn)
                if st.status != 'done' or al:
                    continue
                sl, why = linked(e, st, 'sm')
                okl = sl == box['sm'] and texts(e, st, sl) == ['s0', 's1'] and [num(e, st, p) for p in sl] == [st.norm(B), st.norm(ladd(B, 1))]
                rep.check('kept', okl, fn, fn, '%s: retained stanzas are %s afterwards' % (fn, why or texts(e, st, sl)), fn)
                rep.check('kept', st.norm(getf(e, st, SMF, SM0, 'sm_sent_nr')) == Sym('sentnr', 32), fn + ':nr', fn, '%s changes the number of the next stanza' % fn, fn)


def request_rules(rep, P):
    E = P.enums
    for own, k in (('U', E['XMPP_QUEUE_USER']), ('L', E['XMPP_QUEUE_STROPHE']), ('S', E['XMPP_QUEUE_SM_STROPHE'])):
        for en in (0, 1):
            for rs in (0, 1):
                m = conn_models(keep=('send_raw',))
                box = {}

                def su(e, st):
                    box['q'], _ = build(e, st, P, '', enabled=en, r_sent=rs)
                    setf(e, st, '_xmpp_conn_t', CONN, 'state', E['XMPP_STATE_CONNECTED'])
                    setf(e, st, '_xmpp_conn_t', CONN, 'sm_callback', 0, 8)

                def data(st):
                    o = st.new_obj('heap', 'rawdata', 4, 'undef')
                    put_pieces(st, Ptr(o.id, 0), (b'<a/>',), False)
                    return Ptr(o.id, 0)
                e, ps = run_conn(rep, P, 'send_raw', [CONN, data, 4, k, 0], m, su)
                for st in ps:
                    if st.status != 'done':
                        continue
                    lst, why = linked(e, st)
                    tx = texts(e, st, lst) if lst is not None else []
                    want = bool(en and not rs and own != 'S')
                    what = '%s sm=%d outstanding=%d' % (own, en, rs)
                    rep.check('request', tx.count('r') == int(want), what, 'send_raw', '%s: %d acknowledgements are asked for' % (what, tx.count('r')), what)
                    if want and tx.count('r') == 1:
                        rep.check('request', getfield(e, st, Q, lst[-1], 'owner') == E['XMPP_QUEUE_SM_STROPHE'] and st.norm(getf(e, st, SMF, SM0, 'r_sent')) != 0, what + ':flag', 'send_raw', '%s: the request is not marked as outstanding' % what, what)
