"""C05: the inbound stream-management counter."""
from p_nego import *
from p_life import parser_callbacks
from shapes import alarms

SMNS = 'urn:xmpp:sm:3'
Z = Sym('stanza', tag='nonnull')
SM0 = Sym('smstate', tag='nonnull')
HN = Sym('handled', 32)
NAMES = ('r', 'a', 'enabled', 'resumed', 'failed', 'message', 'iq', 'presence')


def pin_stanza(m, z, attrs, name):
    """the input stanza z has the given name and attributes (None: absent; '*': anything)"""
    def litp(st, s):
        k = ('lit', s)
        if k not in st.g:
            st.g[k] = Ptr(heap_str(st, (s.encode(),), 'lit').id, 0)
        return st.g[k]

    old = dict(m)

    def gattr(e, st, a, ins):
        if st.norm(a[0]) == z:
            k = lit(st, a[1])
            k = k.decode() if isinstance(k, bytes) else None
            if k in attrs and attrs[k] != '*':
                return litp(st, attrs[k]) if attrs[k] is not None else 0
        return old['xmpp_stanza_get_attribute'](e, st, a, ins)

    def gname(e, st, a, ins):
        if st.norm(a[0]) == z:
            return litp(st, name) if name is not None else 0
        return old['xmpp_stanza_get_name'](e, st, a, ins)
    m['xmpp_stanza_get_attribute'] = gattr
    m['xmpp_stanza_get_name'] = gname


def sm_setup(e, st, **f):
    setf(e, st, '_xmpp_conn_t', CONN, 'sm_state', SM0, 8)
    st.base_of(SM0)[0].stype = '_xmpp_sm_t'
    for k, v in f.items():
        setf(e, st, '_xmpp_sm_t', SM0, k, v)


def handled(e, st, sm=SM0):
    return st.norm(getf(e, st, '_xmpp_sm_t', sm, 'sm_handled_nr'))


def is_h(st, attrs, v):
    """attribute h is the decimal rendering of v"""
    h = attrs.get('h')
    if type(v) is int:
        return h == str(v)
    return isinstance(h, tuple) and len(h) == 1 and isinstance(h[0], Term) and h[0].op in ('udec32', 'udec64') and st.norm(h[0].args[0]) == v


def c05(rep):
    P = Program()
    R = rep.rule
    R('count', 'every stanza dispatched while stream management is active is counted exactly once, whatever it is; stream-management elements and stream errors are not', 20)
    R('count-inactive', 'nothing is counted while stream management is not active', 5)
    R('answer', 'every <r/> is answered by exactly one <a/> whose h is the count; nothing else makes the client write an <a/>', 4)
    R('reported', 'the application is given the new state after every change of the count', 1)
    R('reset', 'the count is set to zero when a new session is enabled and kept when one is resumed', 3)
    R('kept', 'nothing else in the library changes the count: negotiation, connect, disconnect, release of the stream', 20)
    R('resume-h', 'a <resume/> reports the count of the session it resumes', 1)
    R('active', 'stream management counts from the moment it is requested or enabled, and after a resumption; not after a failure or on a new connection', 4)
    R('writers', 'every function that writes the counter is one of the analysed ones', 2)
    Q = P.enums
    SMBIT = Q.get('XMPP_QUEUE_SM', 0x800)
    start, end, cb = parser_callbacks(P)
    stanza_rules(rep, P, cb, SMBIT)
    n = Nego(rep, prog=P)
    writes(n)
    n.discover()
    nego_rules(rep, P, n, cb)
    kept_rules(rep, P)
    writers_rule(rep, P, n, cb)
    rep.notes.append('the number of stanzas the parser delivers per stanza on the wire is C10; the transport of <a/> is C06')
    return 'other', 'abstract interpretation of the stanza callback for every stanza kind and of all negotiation handlers; obligations on every write of the counter and every report of it'


def stanza_rules(rep, P, cb, SMBIT):
    kinds = [(SMNS, x) for x in NAMES[:5] + (None,)] + [('jabber:client', x) for x in NAMES[5:] + ('r', 'enabled')]
    kinds += [(None, 'message'), ('jabber:component:accept', 'message'), ('http://etherx.jabber.org/streams', 'error'), ('*', 'message'), ('*', 'r')]
    for ns, name in kinds:
        for en in (0, 1):
            one_kind(rep, P, cb, ns, name, en, SMBIT)


def one_kind(rep, P, cb, ns, name, en, SMBIT):
    m = conn_models()
    pin_stanza(m, Z, {'xmlns': ns}, name)

    def fire(e, st, a, ins):
        st.ev('dispatch', conn=a[0], stanza=st.norm(a[1]), handled=handled(e, st))
        # a handler may change the state of stream management
        o = st.copy()
        setf(e, o, '_xmpp_sm_t', SM0, 'sm_enabled', 1 - en)
        o.g['changed'] = True
        return [(st, None), (o, None)]
    m['handler_fire_stanza'] = fire


    def su(e, st):
        sm_setup(e, st, sm_enabled=en, sm_handled_nr=HN)
        for f in ('sm_queue.head', 'sm_queue.tail'):
            setf(e, st, '_xmpp_sm_t', SM0, f, 0, 8)
    e, ps = run_conn(rep, P, cb, [Z, CONN], m, su)
    what = '%s{%s}' % (name, ns)
    for st in ps:
        if st.status != 'done':
            if st.status == 'dead':
                rep.bad('count', what + ':crash', cb, '%s: the stanza callback fails (%s)' % (what, [a.kind for a in alarms(st)][:2]))
            continue
        d = st.events('dispatch')
        changed = st.g.get('changed', False)
        act = (1 - en) if changed else en
        h = handled(e, st)
        inc = lsub(h, HN)
        nsx = ns
        if ns == '*':
            nsx = known_ns(st)
        smel = nsx == SMNS
        stream = nsx == 'http://etherx.jabber.org/streams'
        w = cb
        rep.check('count', len(d) == 1, what + ':dispatch', w, '%s is dispatched %d times' % (what, len(d)), what)
        if smel or stream:
            rep.check('count', inc == 0, what, w, '%s changes the count by %s' % (what, inc), what)
        elif act and en:
            rep.check('count', mod32(inc) == 1, what, w, '%s changes the count by %s while stream management is active' % (what, inc), what)
            if d:
                rep.check('count', d[0].handled in (HN, h), what + ':when', w, '%s is counted as %s before it is dispatched' % (what, d[0].handled), what)
        elif not act and not en:
            rep.check('count-inactive', inc == 0, what, w, '%s changes the count by %s although stream management is not active' % (what, inc), what)
        if inc != 0 and act:
            evs = [x.kind for x in st.events('dispatch', 'sm_callback')]
            rep.check('reported', 'sm_callback' in evs and evs.index('sm_callback') > evs.index('dispatch'), what, w, 'the count changes but the state callback is not called afterwards (%s)' % evs, what)
        a = [ev for ev in st.events('send') if ev.stanza.name == 'a']
        other = [ev for ev in st.events('send', 'send_raw', 'user-send') if ev not in a]
        if smel and name == 'r':
            if act and en:
                rep.check('answer', len(a) == 1 and len(st.events('send')) == 1, what, w, '<r/> is answered by %d <a/>' % len(a), what)
                for ev in a:
                    z = ev.stanza
                    rep.check('answer', isinstance(z.attrs, dict) and z.attrs.get('xmlns') == SMNS and is_h(st, z.attrs, HN) and set(z.attrs) == {'xmlns', 'h'} and not z.kids, what + ':h', ev.where, '<a/> with attributes %s, the count is %s' % (z.attrs, HN), what)
                    rep.check('answer', type(ev.owner) is int and ev.owner & SMBIT, what + ':owner', ev.where, 'the answer is queued as a stanza of its own (owner %s)' % (ev.owner,), what)
        elif smel or not changed:
            rep.check('answer', not st.events('send', 'send_raw', 'user-send'), what + ':none', w, '%s makes the client write something' % what, what)


def known_ns(st):
    """namespace of the input stanza on this path: a literal or '!' (none of the literals compared)"""
    return attr_text(st, 'attr', 'xmlns') or '!'


def mod32(v):
    return v & 0xffffffff if type(v) is int else v


# -- negotiation ------------------------------------------------------------
def writes(n):
    def mon(st, f, v):
        if f in ('sm.sm_handled_nr', 'sm.sm_enabled'):
            st.ev('smwrite', field=f[3:], val=v, before=st.norm(st.g.get(('smf', f), None)) if st.g.get(('smf', f)) is not None else None)
            st.g[('smf', f)] = v
    n.monitors.append(mon)


def nego_rules(rep, P, n, cb):
    E = P.enums
    enables, enabled_paths, act_on_send, act_on_enabled = 0, 0, True, True
    for r, sts in sorted(n.sum.items()):
        for st in sts:
            if st.status != 'done':
                continue
            nm = attr_text(st, 'name')
            en, hn = [], []
            for ev in st.events('smwrite'):
                (en if ev.field == 'sm_enabled' else hn).append(ev)
            stanza = n.kind[r] == 'stanza'
            a = [c[0] for ev, c in n.sends(st)]
            rep.check('answer', 'a' not in a, r + ':nego', r, '<a/> is written in %s' % r, r)
            last_en = en[-1].val if en else None
            if 'enable' in a:
                enables += 1
                if last_en != 1:
                    act_on_send = False
            fresh = stanza and nm == 'enabled' and resuming(st) is False
            succ = bool([e2 for e2 in st.events('notify') if e2.event == E['XMPP_CONN_CONNECT']])
            if fresh and succ:
                enabled_paths += 1
                if last_en != 1:
                    act_on_enabled = False
                rep.check('reset', bool(hn) and hn[-1].val == 0, r + ':enabled', r, 'the count is not reset when <enabled/> arrives (writes %s)' % [x.val for x in hn], r)
            elif stanza and nm == 'resumed' and resuming(st) is True:
                rep.check('reset', not hn, r + ':resumed', hn[-1].where if hn else r, 'the count is written when the session is resumed', r)
                if succ:
                    rep.check('active', last_en == 1, r + ':resumed', r, 'stream management is not active after <resumed/> (sm_enabled %s)' % (last_en,), r)
            elif stanza and nm == 'failed' and not ('enable' in a):
                rep.check('active', last_en == 0, r + ':failed', r, 'stream management stays active after <failed/>', r)
                for x in hn:
                    rep.check('kept', x.val == 0, '%s:failed' % r, x.where, 'after <failed/> the count becomes %s' % (x.val,), r)
            elif fresh:
                pass
            else:
                rep.check('kept', not hn, '%s:%s' % (r, nm), hn[-1].where if hn else r, '%s changes the count (to %s) in answer to <%s/>' % (r, [x.val for x in hn], nm), r)
                if 'enable' not in a:
                    rep.check('active', last_en in (None, 0), '%s:%s:enabled' % (r, nm), en[-1].where if en else r, '%s activates stream management (answer <%s/>, requests %s)' % (r, nm, a), r)
            for ev, c in n.sends(st):
                if c[0] == 'resume':
                    z = ev.stanza
                    sm = st.norm(getf(n.e, st, '_xmpp_conn_t', CONN, 'sm_state', 8))
                    hv = st.norm(getf(n.e, st, '_xmpp_sm_t', sm, 'sm_handled_nr'))
                    pv = st.norm(getf(n.e, st, '_xmpp_sm_t', sm, 'previd', 8))
                    rep.check('resume-h', is_h(st, z.attrs, hv), r, ev.where, '<resume/> reports h=%s, the count is %s' % (z.attrs.get('h'), hv), r)
                    p = z.attrs.get('previd')
                    rep.check('resume-h', p == subst(st, (S(pv),)) or p == STZ.strval(st, pv), r + ':previd', ev.where, '<resume/> names session %s, the stored one is %s' % (p, pv), r)
    rep.check('active', enables > 0 and enabled_paths > 0 and (act_on_send or act_on_enabled), 'enable', '<enable/>', 'neither sending <enable/> (%d paths) nor <enabled/> (%d paths) activates counting' % (enables, enabled_paths), 'enable')


# -- connection functions ------------------------------------------------------
KEEP = ('conn_disconnect', 'xmpp_connect_client', 'xmpp_connect_component', 'xmpp_connect_raw', 'xmpp_disconnect', 'conn_disconnect_clean',
        'xmpp_conn_set_sm_state', 'conn_established', 'conn_open_stream')


def kept_rules(rep, P):
    HE = Sym('wasenabled', 32)
    for fn in KEEP:
        if not P.has(fn):
            continue
        m = conn_models(keep=(fn, 'conn_disconnect'))

        def su(e, st, fn=fn):
            if fn.startswith('xmpp_connect'):
                attempt_setup(sm=True)(e, st)
            sm_setup(e, st, sm_handled_nr=HN, sm_enabled=HE)
            for f in ('sm_queue.head', 'sm_queue.tail'):
                setf(e, st, '_xmpp_sm_t', SM0, f, 0, 8)
            for f in ('send_queue_head', 'send_queue_tail'):
                setf(e, st, '_xmpp_conn_t', CONN, f, 0, 8)
        e, ps = run_conn(rep, P, fn, None, m, su)
        D = P.enums['XMPP_STATE_DISCONNECTED']
        for st in ps:
            if st.status != 'done':
                continue
            h = handled(e, st)
            rep.check('kept', h == HN, fn, fn, '%s changes the count from %s to %s' % (fn, HN, h), fn)
            now = st.norm(getf(e, st, '_xmpp_conn_t', CONN, 'state'))
            en = st.norm(getf(e, st, '_xmpp_sm_t', SM0, 'sm_enabled'))
            if [x for x in st.events('notify') if x.event == P.enums['XMPP_CONN_DISCONNECT']]:
                rep.check('active', en == 0, fn + ':off', fn, 'stream management is still active after the connection ended', fn)
            if fn.startswith('xmpp_connect') and now == P.enums['XMPP_STATE_CONNECTING'] and truth(st, st.ret) is False:
                rep.check('active', en == 0, fn + ':new', fn, 'stream management is already active on a new connection', fn)


def writers_rule(rep, P, n, cb):
    roots = set(n.sum) | {cb} | {f for f in KEEP if P.has(f)}
    ok = set()
    for r in roots:
        ok |= set(closure(P, [r]))
    # the state object as a whole: creation, destruction and restoring of a saved state (C16)
    for r in ('xmpp_conn_restore_sm_state', 'xmpp_free_sm_state', 'xmpp_conn_new', 'xmpp_conn_release'):
        if P.has(r):
            ok |= set(closure(P, [r]))
    for w in sorted(writers(P, '_xmpp_sm_t', 'sm_handled_nr', False)):
        rep.check('writers', w in ok, w, w, '%s writes the counter and is reached from none of the analysed functions' % w, w)

