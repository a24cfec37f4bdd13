"""C13: lifecycle of a connection: one outcome per attempt, state predicates,
deadlines, offline-only settings, stream errors."""
from p_loop import *
from p_nego import *
import p_loop

STATES = ('XMPP_STATE_DISCONNECTED', 'XMPP_STATE_CONNECTING', 'XMPP_STATE_CONNECTED')
WAIT = 15000
CLOSE = 2000
CONNECT_MS = 5000
CONDS = {'bad-format': 'BAD_FORMAT', 'bad-namespace-prefix': 'BAD_NS_PREFIX', 'conflict': 'CONFLICT', 'connection-timeout': 'CONN_TIMEOUT',
         'host-gone': 'HOST_GONE', 'host-unknown': 'HOST_UNKNOWN', 'improper-addressing': 'IMPROPER_ADDR', 'internal-server-error': 'INTERNAL_SERVER_ERROR',
         'invalid-from': 'INVALID_FROM', 'invalid-id': 'INVALID_ID', 'invalid-namespace': 'INVALID_NS', 'invalid-xml': 'INVALID_XML',
         'not-authorized': 'NOT_AUTHORIZED', 'policy-violation': 'POLICY_VIOLATION', 'remote-connection-failed': 'REMOTE_CONN_FAILED',
         'resource-constraint': 'RESOURCE_CONSTRAINT', 'restricted-xml': 'RESTRICTED_XML', 'see-other-host': 'SEE_OTHER_HOST',
         'system-shutdown': 'SYSTEM_SHUTDOWN', 'undefined-condition': 'UNDEFINED_CONDITION', 'unsupported-encoding': 'UNSUPPORTED_ENCODING',
         'unsupported-stanza-type': 'UNSUPPORTED_STANZA_TYPE', 'unsupported-version': 'UNSUPPORTED_VERSION', 'xml-not-well-formed': 'XML_NOT_WELL_FORMED'}


def c13(rep):
    P = Program()
    rep.rule('notify-once', 'ending a live connection changes the state to DISCONNECTED and then raises exactly one DISCONNECT; ending a disconnected one does nothing', 2)
    rep.rule('transitions', 'every change of the connection state: CONNECTING only from DISCONNECTED, CONNECTED only from CONNECTING, DISCONNECTED together with exactly one DISCONNECT notification', 4)
    rep.rule('attempt', 'a connection attempt is accepted (state CONNECTING) or refused (state, notifications and callback untouched), never half of both', 4)
    rep.rule('predicates', 'for every state and negotiation flag exactly one of is_connecting/is_connected/is_disconnected holds and agrees with the notifications', 6)
    rep.rule('wait-armed', 'every wait for the server (features, bind, session, legacy, handshake) arms one timed handler with its documented period on the same path', 5)
    rep.rule('wait-cleared', 'an answer that lets the negotiation go on deletes the timed handler of its own wait', 5)
    rep.rule('wait-kept', 'a timed handler of a wait is deleted only by the answer to that wait', 5)
    rep.rule('wait-ends', 'when a deadline passes its timed handler ends the wait and is not called again', 5)
    rep.rule('close', 'xmpp_disconnect on a live connection writes the end of the stream and arms the 2 s cleanup, on a disconnected one it does nothing', 2)
    rep.rule('close-bound', 'every state in which xmpp_disconnect arms the cleanup is one in which timed handlers run', 2)
    rep.rule('stream-end', 'the end of the stream from the peer cancels the cleanup and ends the connection', 1)
    rep.rule('stream-start', 'a stream header either starts the negotiation or ends the connection', 1)
    rep.rule('loop-once', 'one loop iteration ends a connection at most once, and only on a cause', 10)
    rep.rule('loop-cause', 'peer close, unrecoverable transport errors and failed attempts end the connection in the same iteration', 4)
    rep.rule('connect-timeout', 'an address is given up exactly when more than connect_timeout ms passed since the attempt began; then the next address is tried, else ETIMEDOUT', 3)
    rep.rule('clock', 'time stamps are wall clock milliseconds and elapsed time is their difference', 2)
    rep.rule('flags-conflict', 'flag words that disable TLS while demanding it are refused and change nothing', 1)
    rep.rule('flags-set', 'every accepted flag word sets exactly the fields it names and reads back as set', 8)
    rep.rule('flags-offline', 'flags are refused unless the connection is disconnected', 1)
    rep.rule('sm-offline', 'stream-management state is handed out, set or restored only while disconnected', 3)
    rep.rule('stream-error', 'a stream error is stored with the condition and text the server sent', 24)
    rep.rule('stream-error-notify', 'the DISCONNECT notification carries the stored error code and stream error; a new attempt starts without one', 2)
    rep.rule('release', 'releasing the last reference of a live connection ends it exactly once', 1)
    end_rules(rep, P)
    transition_rules(rep, P)
    attempt_rules(rep, P)
    predicate_rules(rep, P)
    n = Nego(rep, prog=P)
    n.discover()
    wait_rules(rep, P, n)
    close_rules(rep, P, n)
    parser_rules(rep, P)
    loop_rules(rep, P)
    clock_rules(rep, P)
    flags_rules(rep, P, 'C13')
    sm_offline_rules(rep, P)
    stream_error_rules(rep, P, n)
    release_rules(rep, P)
    rep.assumptions.append('user callbacks do not modify internal fields; gettimeofday() does not go backwards')
    return 'other', ('Typestate analysis of conn->state over every function that changes it, path-sensitive abstract interpretation of conn_disconnect, the connect '
                     'functions, the event loop (any state, any transport result) and the timed waits of the negotiation graph.')


def quiet_sm(e, st):
    sm = Sym('sm0', tag='nonnull')
    setf(e, st, '_xmpp_conn_t', CONN, 'sm_state', sm, 8)
    st.base_of(sm)[0].stype = '_xmpp_sm_t'
    for f in ('sm_queue.head', 'sm_queue.tail'):
        setf(e, st, '_xmpp_sm_t', sm, f, 0, 8)


def state_now(e, st):
    return st.norm(getf(e, st, '_xmpp_conn_t', CONN, 'state'))


def watch_state(e, P):
    """records every store to conn->state (old value, new value)"""
    off = P.off('_xmpp_conn_t', 'state')

    def before(st, o, of, sz, val):
        if o.stype == '_xmpp_conn_t' and of == off:
            old = st.g.get('statecell')
            if old is None:
                old = Sym('conn.state', 32)
            st.ev('state', old=st.norm(old), new=st.norm(val))
            st.g['statecell'] = st.norm(val)
    e.store_hooks.append(before)

    def nt(st, d):
        d['state'] = state_now(e, st)
    e.ev_hooks['notify'] = nt


def end_rules(rep, P):
    D = P.enums['XMPP_STATE_DISCONNECTED']
    EV = P.enums['XMPP_CONN_DISCONNECT']
    for fn in ('conn_disconnect', 'conn_disconnect_clean'):
        m = conn_models(keep=('conn_disconnect', 'conn_disconnect_clean'))
        e = conn_engine(P, m, max_paths=60000, max_steps=10 ** 9)
        watch_state(e, P)

        def su(st):
            type_conn(e, st)
            attempt_setup(sm=True)(e, st)
            st.g.pop('statecell', None)
            quiet_sm(e, st)
            setf(e, st, '_xmpp_conn_t', CONN, 'stream_error', Sym('conn.stream_error', tag='nullable'), 8)
        ps = e.start(P.func(fn), [CONN], su)
        rep.engine(e, len(ps))
        k = 0
        for st in ps:
            if st.status != 'done':
                continue
            nt = st.events('notify')
            live = eqc(st, Sym('conn.state', 32), D)
            sts = [ev for ev in st.events('state')]
            if live is True:
                rep.check('notify-once', not nt and not sts, fn + ':again', fn, 'a disconnected connection is notified again', fn)
                continue
            k += 1
            ok = len(nt) == 1 and nt[0].event == EV
            rep.check('notify-once', ok, fn, fn, 'ending a live connection raises %d notification(s) %s' % (len(nt), [x.event for x in nt]), fn)
            if nt:
                rep.check('notify-once', nt[0].state == D and live is False, fn + ':state', nt[0].where, 'at the notification the state is %s (was disconnected: %s)' % (nt[0].state, live), fn)
                rep.check('notify-once', nt[0].conn == CONN and nt[0].ud == Sym('conn.userdata', tag='nullable') or 'userdata' in repr(nt[0].ud), fn + ':args', nt[0].where, 'the notification carries other user data', fn)
                rep.check('stream-error-notify', 'conn.error' in repr(nt[0].error) and st.norm(nt[0].stream_error) == st.norm(Sym('conn.stream_error', tag='nullable')), fn, nt[0].where,
                          'DISCONNECT carries error %s and stream error %s' % (nt[0].error, nt[0].stream_error), fn)
            rep.check('notify-once', state_now(e, st) == D and [x.new for x in sts] == [D], fn + ':end', fn, 'state history %s' % [x.new for x in sts], fn)
        if not k:
            raise AnalysisBroken('%s never ends a connection' % fn)


def roots_of(P, names):
    """externally callable or address-taken functions through which the named ones run"""
    at = addr_taken(P)
    out, todo, seen = set(), list(names), set()
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        f = P.func(n)
        cs = callers(P, n)
        if not f.internal or n in at or not cs:
            out.add(n)
        else:
            todo += cs
    return out


def transition_rules(rep, P):
    """every function that stores the state is entered through its callers"""
    off = P.off('_xmpp_conn_t', 'state')
    E = P.enums
    D, CG, CD = (E[s] for s in STATES)
    ws = set(writers(P, '_xmpp_conn_t', 'state', nonzero=False))
    # a new object starts disconnected: no previous state
    rep.notes.append('functions storing conn->state: ' + ', '.join(sorted(ws)))
    for fn in sorted(roots_of(P, ws)):
        if fn in ('conn_disconnect', 'conn_disconnect_clean', 'xmpp_run_once', 'xmpp_connect_client', 'xmpp_connect_component', 'xmpp_connect_raw'):
            rep.ok('transitions', fn)
            continue        # decided by their own rules below
        f = P.func(fn)
        m = conn_models()
        m.pop(fn, None)
        e = conn_engine(P, m, max_paths=60000, max_steps=10 ** 9)
        watch_state(e, P)
        conn = f.params and f.params[0][1].k == 'ptr'

        def su(st):
            if conn:
                type_conn(e, st)
        args = [Sym('arg%d' % i, 64 if t.k == 'ptr' else t.w, tag='nonnull' if t.k == 'ptr' else None) for i, (_, t) in enumerate(f.params)]
        firstconn = fn not in ('xmpp_conn_new', 'xmpp_conn_clone')
        if firstconn and args:
            args[0] = CONN
        ps = e.start(f, args, su)
        rep.engine(e, len(ps))
        for st in ps:
            if st.status != 'done':
                continue
            evs = st.events('state', 'notify')
            if not firstconn:
                rep.check('transitions', all(ev.kind == 'state' and ev.new == D for ev in evs), fn, fn, '%s starts a connection object in state %s' % (fn, [ev.d.get('new') for ev in evs]), fn)
                continue
            seq_rule(rep, P, st, evs, fn)


def seq_rule(rep, P, st, evs, fn):
    E = P.enums
    D, CG, CD = (E[s] for s in STATES)
    EV = E['XMPP_CONN_DISCONNECT']
    owed = 0
    for ev in evs:
        if ev.kind == 'state':
            o = ev.old if type(ev.old) is int else D if eqc(st, ev.old, D) is True else None
            w = eqc(st, ev.old, CG) if type(ev.old) is not int else ev.old == CG
            if ev.new == CG:
                rep.check('transitions', o == D, fn + ':connecting', ev.where, 'the state becomes CONNECTING although it may not be DISCONNECTED', fn)
            elif ev.new == CD:
                rep.check('transitions', w is True, fn + ':connected', ev.where, 'the state becomes CONNECTED although it may not be CONNECTING', fn)
            elif ev.new == D:
                if o != D:
                    owed += 1
            else:
                rep.bad('transitions', fn + ':value', ev.where, 'the state becomes %s' % (ev.new,))
        elif ev.d.get('event') == EV:
            rep.check('transitions', owed == 1, fn + ':spurious', ev.where, 'DISCONNECT raised without ending the connection', fn)
            owed -= 1
    rep.check('transitions', owed == 0, fn + ':silent', fn, 'the connection ends without a DISCONNECT notification in %s' % fn, fn)


def attempt_rules(rep, P):
    E = P.enums
    D, CG, CD = (E[s] for s in STATES)
    for fn in ('xmpp_connect_client', 'xmpp_connect_component', 'xmpp_connect_raw'):
        e = conn_engine(P, conn_models(), max_paths=60000, max_steps=10 ** 9)
        watch_state(e, P)
        f = P.func(fn)
        args = [CONN] + [Sym('arg%d' % i, 64 if t.k == 'ptr' else t.w, tag='nullable' if t.k == 'ptr' else None) for i, (nm, t) in enumerate(f.params[1:])]

        def su(st):
            type_conn(e, st)
            attempt_setup()(e, st)
        ps = e.start(f, args, su)
        rep.engine(e, len(ps))
        acc = 0
        h0 = conn_handler_fn()
        for st in ps:
            if st.status != 'done':
                continue
            was = eqc(st, Sym('conn.state', 32), D)
            now = state_now(e, st)
            nt = st.events('notify', 'conn_disconnect')
            rep.check('attempt', not nt, fn + ':notify', nt[0].where if nt else fn, 'the connect call itself raises a notification', fn)
            evs = st.events('state')
            if truth(st, st.ret) is False:
                acc += 1
                rep.check('attempt', was is True and now == CG, fn + ':accepted', fn, '%s reports success with previous state disconnected=%s and new state %s' % (fn, was, now), fn)
                rep.check('attempt', [x.new for x in evs] == [CG], fn + ':history', fn, 'state history %s' % [x.new for x in evs], fn)
                sk = st.events('sock_connect')
                rep.check('attempt', bool(sk), fn + ':socket', fn, '%s succeeds without starting a TCP connection' % fn, fn)
                ts = st.norm(getf(e, st, '_xmpp_conn_t', CONN, 'timeout_stamp', 8))
                rep.check('connect-timeout', isinstance(ts, Term) and 'now' in repr(ts), fn + ':stamp', fn, 'the attempt starts with timeout stamp %s' % (ts,), fn)
                cb = st.norm(getf(e, st, '_xmpp_conn_t', CONN, 'conn_handler', 8))
                ok = any(cb == a for a in args) and any(st.norm(getf(e, st, '_xmpp_conn_t', CONN, 'userdata', 8)) == a for a in args)
                rep.check('attempt', ok, fn + ':callback', fn, 'the attempt does not use the given callback (%s)' % (cb,), fn)
                rep.check('stream-error-notify', st.isnull(getf(e, st, '_xmpp_conn_t', CONN, 'stream_error', 8)) is True and st.norm(getf(e, st, '_xmpp_conn_t', CONN, 'error')) == 0, fn, fn,
                          'an attempt starts with an error of an earlier one', fn)
            else:
                same = now == Sym('conn.state', 32) or was is True and now == D or st.norm(Sym('conn.state', 32)) == now
                rep.check('attempt', same and not [x for x in evs if x.new != st.norm(x.old)], fn + ':refused', fn, 'a refused %s leaves the state %s' % (fn, now), fn)
                if was is not True:
                    sk = st.events('sock_connect')
                    rep.check('attempt', not sk, fn + ':refused-socket', fn, 'a refused %s opens a socket' % fn, fn)
                    cb = st.norm(getf(e, st, '_xmpp_conn_t', CONN, 'conn_handler', 8))
                    rep.check('attempt', cb == h0, fn + ':refused-callback', fn, 'a refused %s replaces the callback of the running connection' % fn, fn)
        if not acc:
            raise AnalysisBroken('%s never succeeds in the abstraction' % fn)
    # stream errors of an earlier connection are dropped
    e = conn_engine(P, conn_models(), max_paths=60000, max_steps=10 ** 9)
    f = P.func('xmpp_connect_client')

    def su(st):
        type_conn(e, st)
        attempt_setup()(e, st)
        setf(e, st, '_xmpp_conn_t', CONN, 'stream_error', Sym('olderr', tag='nonnull'), 8)
    ps = e.start(f, [CONN] + [Sym('arg%d' % i, 64 if t.k == 'ptr' else t.w, tag='nullable' if t.k == 'ptr' else None) for i, (nm, t) in enumerate(f.params[1:])], su)
    rep.engine(e, len(ps))
    for st in ps:
        if st.status == 'done' and truth(st, st.ret) is False:
            rep.check('stream-error-notify', st.isnull(getf(e, st, '_xmpp_conn_t', CONN, 'stream_error', 8)) is True, 'old', 'xmpp_connect_client', 'an attempt starts with the stream error of an earlier one', 'xmpp_connect_client')


def predicate_rules(rep, P):
    E = P.enums
    for s in STATES:
        for done in (0, 1):
            if s != 'XMPP_STATE_CONNECTED' and done:
                continue        # completion is reset together with the state (rule open-handler/notify-once)
            res = {}
            for fn in ('xmpp_conn_is_connecting', 'xmpp_conn_is_connected', 'xmpp_conn_is_disconnected'):
                def su(e, st):
                    setf(e, st, '_xmpp_conn_t', CONN, 'state', E[s])
                    setf(e, st, '_xmpp_conn_t', CONN, 'stream_negotiation_completed', done)
                e, ps = run_conn(rep, P, fn, [CONN], setup=su)
                vs = {truth(st, st.ret) for st in ps if st.status == 'done'}
                res[fn] = vs.pop() if len(vs) == 1 else None
            want = {'xmpp_conn_is_disconnected': s == 'XMPP_STATE_DISCONNECTED', 'xmpp_conn_is_connected': s == 'XMPP_STATE_CONNECTED' and done == 1}
            want['xmpp_conn_is_connecting'] = not any(want.values())
            for fn, w in want.items():
                rep.check('predicates', res[fn] is w, '%s:%s:%d' % (fn, s, done), fn, '%s() is %s in %s with negotiation %s' % (fn, res[fn], s, 'complete' if done else 'incomplete'), fn)
    # completion does not survive the state
    for fn in ('conn_disconnect',):
        e, ps = run_conn(rep, P, fn, [CONN], conn_models(keep=('conn_disconnect',)), setup=lambda e, st: (attempt_setup(sm=True)(e, st), quiet_sm(e, st)))
        for st in ps:
            if st.status == 'done' and st.events('notify'):
                rep.check('predicates', truth(st, getf(e, st, '_xmpp_conn_t', CONN, 'stream_negotiation_completed')) is False, fn, fn, 'negotiation stays marked complete after the connection ended', fn)


REQ = ('bind', 'session', 'legacy')


def deadline_regs(st):
    return [ev for ev in st.events('handler_add') if ev.how == 'timed']


def ended(st):
    return bool(st.events('xmpp_disconnect', 'conn_disconnect'))


def wait_rules(rep, P, n):
    pairs = {}     # timer -> set of answering handlers
    for r, paths in sorted(n.sum.items()):
        for st in paths:
            if st.status != 'done':
                continue
            tm = deadline_regs(st)
            sends = {c[0]: ev for ev, c in n.sends(st)}
            others = [ev for ev in st.events('handler_add') if ev.how != 'timed' and isinstance(ev.fn, Fn) and ev.d.get('name') != 'error']
            for k in REQ:
                if k in sends:
                    ok = [t for t in tm if t.period == WAIT]
                    rep.check('wait-armed', len(ok) == 1 and len(tm) == 1, '%s:%s' % (r, k), sends[k].where, 'the %s request arms timers %s' % (k, [(t.fn, t.period) for t in tm]), '%s in %s' % (k, r))
            if n.kind[r] == 'open' and others and not st.events('notify'):
                ok = [t for t in tm if t.period == WAIT]
                rep.check('wait-armed', len(ok) == 1 and len(tm) == 1, '%s:open' % r, r, 'the wait started by %s arms timers %s' % (r, [(t.fn, t.period) for t in tm]), r)
            for t in tm:
                if not isinstance(t.fn, Fn):
                    continue
                pairs.setdefault(t.fn.name, set()).update(o.fn.name for o in others)
                evs = st.events('handler_add', 'handler_del')
                i = [x.kind == 'handler_add' and x.how == 'timed' and x.fn == t.fn for x in evs].index(True)
                late = [x for x in evs[i + 1:] if x.kind == 'handler_del' and x.how == 'timed' and isinstance(x.fn, Fn) and x.fn.name == t.fn.name]
                rep.check('wait-kept', not late, '%s:%s:self' % (r, t.fn.name), r, 'the deadline armed in %s is deleted at once' % r, r)
    if not pairs:
        raise AnalysisBroken('no deadline is armed anywhere')
    rep.notes.append('deadlines: ' + '; '.join('%s <- %s' % (t, ','.join(sorted(h))) for t, h in sorted(pairs.items())))
    for t, hs in pairs.items():
        for h in sorted(hs):
            k = 0
            for st in n.sum.get(h, []):
                if st.status != 'done':
                    continue
                k += 1
                dl = [x for x in st.events('handler_del') if x.how == 'timed' and isinstance(x.fn, Fn) and x.fn.name == t]
                rep.check('wait-cleared', bool(dl) or ended(st), '%s:%s' % (h, t), h, 'the answer %s leaves its deadline %s armed' % (h, t), '%s clears %s' % (h, t))
            if not k:
                raise AnalysisBroken('no complete path through %s' % h)
        ts = n.sum.get(t, [])
        for st in ts:
            if st.status != 'done':
                continue
            ok = ended(st) or any(ev.kind == 'cut' for ev in st.events('cut'))
            rep.check('wait-ends', ok, t, t, 'the deadline %s passes without ending the wait' % t, t)
            rep.check('wait-ends', truth(st, st.ret) is False, t + ':again', t, 'the deadline handler %s stays registered' % t, t)
    for r, paths in sorted(n.sum.items()):
        for st in paths:
            for x in st.events('handler_del'):
                if x.how == 'timed' and isinstance(x.fn, Fn) and x.fn.name in pairs:
                    rep.check('wait-kept', r in pairs[x.fn.name], '%s:%s' % (r, x.fn.name), r, '%s deletes the deadline %s of another wait' % (r, x.fn.name), '%s deletes %s' % (r, x.fn.name))
    # all five waits exist
    kinds = {}
    for t in pairs:
        for root, ev, st in n.reg.get(t, []):
            for _, c in n.sends(st):
                kinds.setdefault(c[0], set()).add(t)
            if n.kind.get(root) == 'open':
                kinds.setdefault('open:' + root, set()).add(t)
    for k in REQ + ('handshake',):
        rep.check('wait-armed', k in kinds, 'any:' + k, k, 'no path sends a %s request under a deadline' % k, k)


def close_rules(rep, P, n):
    E = P.enums
    D, CG, CD = (E[s] for s in STATES)
    m = conn_models(keep=('xmpp_disconnect',))
    e, ps = run_conn(rep, P, 'xmpp_disconnect', [CONN], m)
    fns = set()
    armed = {}
    for st in ps:
        if st.status != 'done':
            continue
        was = state_now(e, st)
        tm = deadline_regs(st)
        wr = [ev for ev in st.events('send_raw') if ev.data and b'</stream:stream>' in b''.join(x for x in ev.data if isinstance(x, bytes))]
        isd = eqc(st, Sym('conn.state', 32), D)
        live = isd is False and not tm and False
        for s in (CG, CD):
            if eqc(st, Sym('conn.state', 32), s) is True:
                rep.check('close', len(wr) == 1 and len(tm) == 1 and tm[0].period == CLOSE and isinstance(tm[0].fn, Fn), 'live:%d' % s, 'xmpp_disconnect', 'in state %d xmpp_disconnect writes %d stream ends and arms %s' % (s, len(wr), [(t.fn, t.period) for t in tm]), 'state %d' % s)
                if tm:
                    armed[s] = True
                    fns.add(tm[0].fn.name)
        if isd is True:
            rep.check('close', not wr and not tm and not st.events('send_raw', 'conn_disconnect'), 'idle', 'xmpp_disconnect', 'xmpp_disconnect acts on a disconnected connection', 'disconnected')
        rep.check('close', was == Sym('conn.state', 32) or st.norm(was) == st.norm(Sym('conn.state', 32)) or st.events('conn_disconnect'), 'state', 'xmpp_disconnect', 'xmpp_disconnect changes the state to %s' % (was,), 'state')
    # drive each state explicitly (the abstraction may merge them)
    for s in STATES:
        e, ps = run_conn(rep, P, 'xmpp_disconnect', [CONN], m, setup=lambda e, st: setf(e, st, '_xmpp_conn_t', CONN, 'state', E[s]))
        for st in ps:
            if st.status != 'done':
                continue
            tm = deadline_regs(st)
            wr = [ev for ev in st.events('send_raw') if ev.data and b'</stream:stream>' in b''.join(x for x in ev.data if isinstance(x, bytes))]
            if s == 'XMPP_STATE_DISCONNECTED':
                rep.check('close', not wr and not tm, 'idle', 'xmpp_disconnect', 'xmpp_disconnect acts on a disconnected connection', s)
                continue
            gone = bool(st.events('conn_disconnect'))
            rep.check('close', gone or len(wr) == 1 and len(tm) == 1 and tm[0].period == CLOSE, s, 'xmpp_disconnect', 'in %s xmpp_disconnect writes %d stream ends and arms %s' % (s, len(wr), [(t.fn, t.period) for t in tm]), s)
            for t in tm:
                armed[E[s]] = True
                fns.add(t.fn.name)
    # the cleanup ends the connection
    for t in sorted(fns):
        m2 = conn_models()
        e, ps = run_conn(rep, P, t, [CONN, Sym('ud', tag='nullable')], m2)
        for st in ps:
            if st.status == 'done':
                rep.check('wait-ends', len(st.events('conn_disconnect')) == 1, t, t, 'the cleanup %s ends the connection %d times' % (t, len(st.events('conn_disconnect'))), t)
                rep.check('wait-ends', truth(st, st.ret) is False, t + ':again', t, 'the cleanup stays registered', t)
    # in which states do timed handlers run?
    from p_handlers import mklist, HM, cbmodel, CB, H
    for s in sorted(armed):
        nm = [k for k in STATES if E[k] == s][0]
        fires = timed_runs(rep, P, s)
        rep.check('close-bound', fires, nm, 'handler_fire_timed', 'xmpp_disconnect in %s arms the 2 s cleanup, but timed handlers do not run in that state' % nm, nm)
    for r in ('conn_disconnect_clean',):
        e, ps = run_conn(rep, P, r, [CONN], conn_models(keep=('conn_disconnect_clean',)))
        for st in ps:
            if st.status != 'done':
                continue
            dl = [x.fn.name for x in st.events('handler_del') if x.how == 'timed' and isinstance(x.fn, Fn)]
            rep.check('stream-end', set(fns) <= set(dl) and len(st.events('conn_disconnect')) == 1, r, r, 'a clean end deletes %s and ends the connection %d times' % (dl, len(st.events('conn_disconnect'))), r)


def timed_runs(rep, P, state):
    import p_handlers as ph
    fired = []
    e = ph.engine(P, {ph.CB[0]: ph.cbmodel(ph.CB[0])})

    def su(st):
        ph.timed_setup(e, st, ['t0'], [])
        e.field_init.pop(('_xmpp_conn_t', 'state'), None)
        setf(e, st, '_xmpp_conn_t', CONN, 'state', state)
    ps = e.start(P.func('handler_fire_timed'), [ph.CTX], su)
    rep.engine(e, len(ps))
    return any(st.events('cb') for st in ps)


def parser_callbacks(P):
    """(start, end, stanza) functions handed to parser_new by the connection code"""
    out = set()
    for f, ins, c in calls(P, 'parser_new'):
        names = [a[1] for t, a in ins.a[1] if isinstance(a, tuple) and a[0] == 'g']
        if len(names) >= 3 and 'conn_disconnect' in closure(P, [names[1]]):
            out.add(tuple(names[:3]))
    if len(out) != 1:
        raise AnalysisBroken('parser_new is called with %d different callback sets' % len(out))
    return out.pop()


def parser_rules(rep, P):
    start, end, stz = parser_callbacks(P)
    m = conn_models(keep=('conn_disconnect_clean',))
    m['@open_handler'] = event('open_handler')
    cases = [(end, None)] + [(start, x) for x in (None, (), ('id',), ('from', 'id'))]
    for fn, at in cases:
        e = conn_engine(P, m, max_paths=60000, max_steps=10 ** 9, loopk=8)

        def su(st):
            type_conn(e, st)
            quiet_sm(e, st)
            setf(e, st, '_xmpp_conn_t', CONN, 'open_handler', Fn('@open_handler', None), 8)

        def attrs(st):
            if at is None:
                return 0
            o = st.new_obj('heap', 'attrs', 8 * (2 * len(at) + 1), 'undef')
            for i, k in enumerate(at):
                st.put(o.id, 16 * i, 8, Ptr(heap_str(st, (k.encode(),), k).id, 0))
                st.put(o.id, 16 * i + 8, 8, heapstr(st, 'attr.' + k)[0])
            st.put(o.id, 16 * len(at), 8, 0)
            return Ptr(o.id, 0)
        nm = lambda st: heapstr(st, 'tagname')[0]
        args = [nm, CONN] if fn == end else [nm, attrs, CONN]
        ps = e.start(P.func(fn), args, su)
        rep.engine(e, len(ps))
        k = 0
        for st in ps:
            if st.status != 'done':
                continue
            k += 1
            nd, no = len(st.events('conn_disconnect')), len(st.events('open_handler'))
            if fn == end:
                rep.check('stream-end', nd == 1 and no == 0, fn, fn, 'the end of the stream ends the connection %d times' % nd, fn)
            else:
                rep.check('stream-start', nd + no == 1, fn, fn, 'a stream header starts %d negotiations and ends the connection %d times' % (no, nd), fn)
        if not k:
            raise AnalysisBroken('no complete path through %s' % fn)


def loop_rules(rep, P):
    E = P.enums
    D, CG, CD = (E[s] for s in STATES)
    ETIMEDOUT, ECONNRESET, ECONNABORTED = 110, 104, 103
    L = Loop(P)
    off = P.off('_xmpp_conn_t', 'state')
    L.e.store_hooks.append(lambda st, o, of, sz, val: st.ev('state', new=st.norm(val)) if o.stype == '_xmpp_conn_t' and of == off else None)
    for s in STATES:
        ps = L.run(rep, state=s, queue=0)
        for st in ps:
            if st.status != 'done':
                continue
            cd = [ev for ev in st.events('conn_disconnect') if ev.was != D]
            rep.check('loop-once', len(cd) <= 1, s, 'xmpp_run_once', 'one iteration ends the connection %d times' % len(cd), s)
            est = st.events('established')
            if s == 'XMPP_STATE_DISCONNECTED':
                rep.check('loop-once', not st.events('conn_disconnect', 'established', 'read', 'write', 'sock_connect', 'connect_error'), s + ':idle', 'xmpp_run_once', 'a disconnected connection is processed', s)
                continue
            con = [ev for ev in st.events('state') if ev.new == CD]
            bad = [ev for ev in st.events('state') if ev.new not in (CD, D)]
            rep.check('loop-once', not bad, s + ':state', 'xmpp_run_once', 'the loop sets the state to %s' % [ev.new for ev in bad], s)
            if s == 'XMPP_STATE_CONNECTING':
                connecting_path(rep, L.e, st, cd, est, con, ETIMEDOUT)
            else:
                rep.check('loop-once', not con and not est, s + ':again', 'xmpp_run_once', 'a connected connection is established again', s)
                connected_path(rep, L.e, st, cd, ECONNRESET, ECONNABORTED)


def connecting_path(rep, e, st, cd, est, con, ETIMEDOUT):
    ce = st.events('connect_error')
    sc = st.events('sock_connect')
    w = 'xmpp_run_once'
    ok = bool(ce) and 'soerr' not in st.g
    rep.check('loop-cause', len(con) == (1 if ok else 0) and len(est) == (1 if ok else 0), 'established', w,
              'connection established %d/%d times although the TCP connect %s' % (len(con), len(est), 'succeeded' if ok else 'did not succeed'), 'established')
    stamps = [ev.t for ev in st.events('stamp')]
    t0 = Sym('conn.timeout_stamp', 64)
    c = _cell(e, st, 'connect_timeout')
    lim = e.cast(st, 'zext', e.load_cell(st, *c), c[3], I64) if c[2] < 8 else st.norm(e.load_cell(st, *c))
    late = None
    for t in stamps:
        for p, v in (('ugt', True), ('ule', False)):
            d = known_cmpx(e, st, p, lsub(t, t0), lim)
            if d is not None:
                late = d if p == 'ugt' else not d
    if late is True:
        rep.check('connect-timeout', len(sc) >= 1 or len(cd) == 1, 'late', w, 'an address is not given up although its time is over', 'late')
    if late is False and sc:
        rep.check('connect-timeout', 'soerr' in st.g, 'early', w, 'an address is given up before its time is over', 'early')
    if late is None and (sc or cd):
        rep.check('connect-timeout', 'soerr' in st.g, 'undecided', w, 'an address is given up without its time being over (stamps %s)' % (stamps,), 'undecided')
    if cd:
        failed = late is True or 'soerr' in st.g
        rep.check('loop-cause', failed and bool(sc), 'connecting-end', cd[0].where, 'the attempt ends although no address failed', 'connecting-end')
        if late is True and 'soerr' not in st.g:
            rep.check('connect-timeout', cd[0].error == ETIMEDOUT, 'error', cd[0].where, 'a timed out attempt reports error %s' % (cd[0].error,), 'error')
    # outcome of the last sock_connect decides
    sock = st.norm(getf(e, st, '_xmpp_conn_t', CONN, 'sock'))
    if sc:
        fail = sock == 0xffffffff
        rep.check('loop-cause', fail == (len(cd) == 1), 'next-address', w, 'next address %s, connection ended %d times' % ('missing' if fail else 'tried', len(cd)), 'next-address')
        if not fail:
            ts = st.norm(getf(e, st, '_xmpp_conn_t', CONN, 'timeout_stamp', 8))
            rep.check('connect-timeout', ts in stamps and stamps.index(ts) >= (1 if late is not None else 0), 'rearm', w, 'the next address starts with time stamp %s' % (ts,), 'rearm')


def _cell(e, st, f):
    o, o0 = st.base_of(CONN)
    sz = e.prog.fieldsize('_xmpp_conn_t', f)
    return o, ladd(o0, e.prog.off('_xmpp_conn_t', f)), sz, I64 if sz == 8 else I32


def known_cmpx(e, st, pred, a, b):
    t = e.icmp(st, pred, a, b, I64)
    if type(t) is int:
        return bool(t)
    return e.decide(st, t)


def connected_path(rep, e, st, cd, ECONNRESET, ECONNABORTED):
    rd = st.g.get('read')
    w = 'xmpp_run_once'
    tls = truth(st, Sym('conn.tls', tag='nullable'))
    rec = truth(st, st.g['rec']) if 'rec' in st.g else None
    # causes
    alive = not [ev for ev in st.events('conn_disconnect')]
    dead_in_handler = rd == 'data'
    if rd in ('err', 'eof'):
        evs = st.events('read', 'recov', 'conn_disconnect')
        after = evs[[x.kind for x in evs].index('read'):]
        rc = [truth(st, x.r) for x in after if x.kind == 'recov']
        end = [x for x in after if x.kind == 'conn_disconnect']
        r = rc[-1] if rc else None
        must = r is False or (rd == 'eof' and tls is False)
        may = must or r is None
        if must:
            rep.check('loop-cause', len(end) == 1, 'read-%s' % rd, w, 'a read that reports %s (recoverable %s, tls %s) ends the connection %d times' % (rd, r, tls, len(end)), 'read-' + rd)
        elif r is True:
            rep.check('loop-cause', not end, 'read-%s:recoverable' % rd, w, 'a recoverable read condition ends the connection', 'read-%s:recoverable' % rd)
    elif rd == 'data':
        end = [x for x in st.events('read', 'conn_disconnect')]
        i = [x.kind for x in end].index('read')
        rep.check('loop-cause', not [x for x in end[i:] if x.kind == 'conn_disconnect' and x.was != 0], 'data', w, 'received data ends the connection', 'data')
        fd = st.events('feed')
        rep.check('loop-cause', len(fd) == 1, 'feed', w, 'received data is parsed %d times' % len(fd), 'feed')
    if rd is None and cd:
        # before reading: only transport errors
        er = cd[0].error
        rep.check('loop-cause', er == ECONNABORTED, 'send-error', cd[0].where, 'the connection ends with error %s without a transport error' % (er,), 'send-error')


def clock_rules(rep, P):
    a, b = Sym('t1', 64), Sym('t2', 64)
    e = conn_engine(P, conn_models(), max_paths=100)
    ps = e.start(P.func('time_elapsed'), [a, b], lambda st: None)
    rep.engine(e, len(ps))
    for st in ps:
        if st.status == 'done':
            rep.check('clock', st.norm(st.ret) == lsub(b, a), 'time_elapsed', 'time_elapsed', 'elapsed time is %s' % (st.norm(st.ret),), 'time_elapsed')
    m = conn_models()
    m.pop('time_stamp', None)
    sec, us = Sym('tv.sec', 64, lo=0, hi=1 << 40), Sym('tv.usec', 64, lo=0, hi=999999)

    def gtod(e, st, a, ins):
        st.store(a[0], sec, 8)
        st.store(e.padd(st, a[0], 8), us, 8)
        return 0
    m['gettimeofday'] = gtod
    m['clock_gettime'] = lambda e, st, a, ins: (st.store(a[1], sec, 8), st.store(e.padd(st, a[1], 8), Sym('tv.nsec', 64, lo=0, hi=999999999), 8), 0)[2]
    e = conn_engine(P, m, max_paths=100)
    ps = e.start(P.func('time_stamp'), [], lambda st: None)
    rep.engine(e, len(ps))
    from p_handlers import termval
    for st in ps:
        if st.status != 'done':
            continue
        r = st.norm(st.ret)
        vals = []
        for s_, u_ in ((0, 0), (1, 999), (7, 1000), (1700000000, 999999), (1234567, 500500)):
            vals.append(termval(r, {sec: s_, us: u_, Sym('tv.nsec', 64, lo=0, hi=999999999): u_ * 1000}) == s_ * 1000 + u_ // 1000)
        rep.check('clock', all(vals), 'time_stamp', 'time_stamp', 'a time stamp is %s' % (r,), 'time_stamp')
    # the documented limit per address
    ws = writers(P, '_xmpp_conn_t', 'connect_timeout')
    for f, ins, k, v in accesses(P, '_xmpp_conn_t', 'connect_timeout'):
        if k == 'store':
            rep.check('connect-timeout', v == ('c', CONNECT_MS), 'limit:' + f.name, where(f, ins), 'connect_timeout is set to %s' % (v,), f.name)
    if not ws:
        raise AnalysisBroken('connect_timeout is never set')


def sm_offline_rules(rep, P):
    D = P.enums['XMPP_STATE_DISCONNECTED']
    for fn in ('xmpp_conn_set_sm_state', 'xmpp_conn_get_sm_state', 'xmpp_conn_restore_sm_state'):
        f = P.func(fn)
        m = conn_models()
        for s in STATES:
            if P.enums[s] == D and fn == 'xmpp_conn_restore_sm_state':
                continue      # content of the blob: C16
            e = conn_engine(P, m, max_paths=60000, max_steps=10 ** 9)
            stores = []

            def hook(st, o, off, sz, val):
                if o.stype in ('_xmpp_conn_t', '_xmpp_sm_t') and o.kind != 'stack':
                    st.ev('store', off=off)
            e.store_hooks.append(hook)

            def su(st):
                type_conn(e, st)
                setf(e, st, '_xmpp_conn_t', CONN, 'state', P.enums[s])
                if fn == 'xmpp_conn_set_sm_state':
                    setf(e, st, '_xmpp_conn_t', CONN, 'ctx', CTX, 8)
                    st.base_of(args[1])[0].stype = '_xmpp_sm_t'
                    setf(e, st, '_xmpp_sm_t', args[1], 'ctx', CTX, 8)
                st.evs = None
            args = [CONN] + [Sym('arg%d' % i, 64 if t.k == 'ptr' else t.w, tag='nonnull' if t.k == 'ptr' else None) for i, (nm, t) in enumerate(f.params[1:])]
            ps = e.start(f, args, su)
            rep.engine(e, len(ps))
            okp = 0
            for st in ps:
                if st.status != 'done':
                    continue
                sr = st.events('store')
                t = truth(st, st.ret)
                if s == 'XMPP_STATE_DISCONNECTED':
                    got = (t is not False) if fn.endswith('get_sm_state') else t is False
                    okp += bool(got)
                    if fn.endswith('set_sm_state'):
                        have = st.isnull(Sym('conn.sm_state', tag='nullable'))
                        v = st.norm(getf(e, st, '_xmpp_conn_t', CONN, 'sm_state', 8))
                        if t is False:
                            rep.check('sm-offline', have is True and v == args[1], fn + ':set', fn, 'SM state accepted: previous state absent=%s, now %s' % (have, v), fn)
                        else:
                            rep.check('sm-offline', not sr, fn + ':refused', fn, 'a refused SM state changes the connection', fn)
                    else:
                        v = st.norm(getf(e, st, '_xmpp_conn_t', CONN, 'sm_state', 8))
                        rep.check('sm-offline', v == 0 and st.norm(st.ret) == st.norm(Sym('conn.sm_state', tag='nullable')), fn + ':get', fn, 'the SM state handed out is %s, kept %s' % (st.norm(st.ret), v), fn)
                    continue
                ref = (t is False) if fn.endswith('get_sm_state') else t is True
                rep.check('sm-offline', ref and not sr, '%s:%s' % (fn, s), fn, '%s in %s returns %s and stores %s' % (fn, s, st.norm(st.ret), [x.off for x in sr]), '%s in %s' % (fn, s))
            if s == 'XMPP_STATE_DISCONNECTED' and not okp:
                raise AnalysisBroken('%s never succeeds' % fn)


LAYOUTS = (('C',), ('C', 'T'), ('T', 'C'), ('T',), ('A', 'C', 'T'), ('C', 'T', 'A'), ('X', 'C'), (), ('X',))


def stream_error_rules(rep, P, n):
    hs = sorted({name for name, regs in n.reg.items() for _, ev, _ in regs if ev.d.get('name') == 'error' and ev.d.get('ns') == NS['streams']})
    rep.check('stream-error', bool(hs), 'registered', 'auth_handle_open', 'no handler is registered for stream errors')
    openers = {root for h in hs for root, ev, st in n.reg[h]}
    for r in ('auth_handle_open', 'auth_handle_component_open'):
        rep.check('stream-error', r in openers, 'registered:' + r, r, 'streams opened by %s ignore stream errors' % r, r)
    if not hs:
        return
    for h in hs:
        for cond, enum in CONDS.items():
            for lay in LAYOUTS if cond in ('conflict', 'host-gone') else LAYOUTS[:3]:
                one_error(rep, P, h, cond, P.enums['XMPP_SE_' + enum], lay)


def one_error(rep, P, h, cond, want, lay):
    m = conn_models()
    kids = [Sym('child%d' % i, tag='nonnull') for i in range(len(lay))]
    Z = Sym('stanza', tag='nonnull')
    txt = Sym('errtext', tag='nonnull')

    def litp(st, s):
        k = ('lit', s)
        if k not in st.g:
            st.g[k] = Ptr(heap_str(st, (s.encode(),), 'lit').id, 0)
        return st.g[k]

    def idx(st, p):
        p = st.norm(p)
        return kids.index(p) if p in kids else None

    def gch(e, st, a, ins):
        return (kids[0] if kids else 0) if st.norm(a[0]) == Z else 0

    def gnx(e, st, a, ins):
        if not deref_ok(st, a[0], 'next'):
            return [(st, UNDEF)]
        i = idx(st, a[0])
        return kids[i + 1] if i is not None and i + 1 < len(kids) else 0

    def gns(e, st, a, ins):
        i = idx(st, a[0])
        if i is None:
            return litp(st, NS['streams'])
        return {'A': lambda: litp(st, 'urn:example:app'), 'X': lambda: 0}.get(lay[i], lambda: litp(st, NS['estreams']))()

    def gnm(e, st, a, ins):
        i = idx(st, a[0])
        if i is None:
            return litp(st, 'error')
        return {'T': lambda: litp(st, 'text'), 'A': lambda: litp(st, 'not-authorized'), 'X': lambda: 0}.get(lay[i], lambda: litp(st, cond))()

    def gtx(e, st, a, ins):
        i = idx(st, a[0])
        if i is None or lay[i] != 'T':
            return Sym('othertext', tag='nullable')
        return Ptr(heap_str(st, (S(txt),), 'text').id, 0)
    m.update({'xmpp_stanza_get_children': gch, 'xmpp_stanza_get_next': gnx, 'xmpp_stanza_get_ns': gns, 'xmpp_stanza_get_name': gnm,
              'xmpp_stanza_get_text': gtx, 'xmpp_stanza_clone': lambda e, st, a, ins: st.norm(a[0]), 'xmpp_stanza_release': event('released')})

    def byname(e, st, a, ins):
        nm = lit(st, a[1])
        nm = nm.decode() if isinstance(nm, bytes) else nm
        for i, k in enumerate(lay):
            if {'T': 'text', 'A': 'not-authorized', 'C': cond}.get(k) == nm:
                return kids[i]
        return 0
    m['xmpp_stanza_get_child_by_name'] = byname
    m['xmpp_stanza_get_child_by_name_and_ns'] = lambda e, st, a, ins: (lambda k: k if k == 0 or lay[kids.index(k)] != 'A' else 0)(byname(e, st, a, ins))
    e = conn_engine(P, m, max_paths=2000, max_steps=10 ** 9, loopk=8)

    def su(st):
        type_conn(e, st)
        setf(e, st, '_xmpp_conn_t', CONN, 'stream_error', 0, 8)
    ps = e.start(P.func(h), [CONN, Z, Sym('ud', tag='nullable')], su)
    rep.engine(e, len(ps))
    k = 0
    what = '%s:%s' % (cond, ''.join(lay))
    if 'C' not in lay:
        want = P.enums['XMPP_SE_UNDEFINED_CONDITION']
    for st in ps:
        al = alarms(st)
        rep.check('stream-error', not al, what + ':crash', al[0].where if al else h, 'a stream error with children %s: %s' % (lay, al[0].kind if al else ''), what)
        if st.status != 'done':
            continue
        k += 1
        se = st.norm(getf(e, st, '_xmpp_conn_t', CONN, 'stream_error', 8))
        if not isinstance(se, Ptr):
            rep.bad('stream-error', what + ':missing', h, 'no stream error is stored for <%s/>' % cond)
            continue
        o, o0 = st.base_of(se)
        ty = st.norm(e.load_cell(st, o, o0, 4, I32))
        tx = st.norm(e.load_cell(st, o, ladd(o0, 8), 8, PTR))
        zz = st.norm(e.load_cell(st, o, ladd(o0, 16), 8, PTR))
        rep.check('stream-error', ty == want, what, h, '<%s/> (children %s) is stored as condition %s' % (cond, lay, ty), what)
        c = content(st, tx) if isinstance(tx, Ptr) else () if tx == 0 else None
        rep.check('stream-error', (c == (S(txt),)) if 'T' in lay else tx == 0, what + ':text', h, 'the text of the stream error is stored as %s' % (c,), what)
        rep.check('stream-error', zz == Z, what + ':stanza', h, 'the stored stanza is %s' % (zz,), what)
        rep.check('stream-error', truth(st, st.ret) is True, what + ':kept', h, 'the stream error handler removes itself', what)
    if not k and not rep.viol:
        raise AnalysisBroken('no complete path through %s' % h)


def release_rules(rep, P):
    E = P.enums
    for s in STATES:
        m = conn_models()
        m.update({'hash_release': event('hash_release'), 'parser_free': event('parser_free'), 'xmpp_free_sm_state': event('sm_free')})
        for k in ('hash_iter_new', 'hash_iter_next', 'hash_iter_release'):
            m[k] = lambda e, st, a, ins, k=k: 0 if k == 'hash_iter_next' else Sym('iter', tag='nonnull') if k == 'hash_iter_new' else None
        e = conn_engine(P, m, max_paths=60000, max_steps=10 ** 9, loopk=4)

        def su(st):
            type_conn(e, st)
            attempt_setup(sm=True)(e, st)
            quiet_sm(e, st)
            setf(e, st, '_xmpp_conn_t', CONN, 'state', E[s])
            setf(e, st, '_xmpp_conn_t', CONN, 'ctx', CTX, 8)
            st.base_of(CTX)[0].stype = '_xmpp_ctx_t'
            node = st.new_obj('heap', 'connnode', None, 'lazy')
            node.stype = '_xmpp_connlist_t'
            setfield(e, st, '_xmpp_connlist_t', Ptr(node.id, 0), 'conn', CONN)
            setfield(e, st, '_xmpp_connlist_t', Ptr(node.id, 0), 'next', 0)
            setfield(e, st, '_xmpp_ctx_t', CTX, 'connlist', Ptr(node.id, 0))
            for f in ('handlers', 'timed_handlers', 'domain', 'jid', 'pass', 'bound_jid', 'stream_id', 'lang', 'tls_cafile', 'tls_capath'):
                setf(e, st, '_xmpp_conn_t', CONN, f, 0, 8)
        ps = e.start(P.func('xmpp_conn_release'), [CONN], su)
        rep.engine(e, len(ps))
        k = 0
        for st in ps:
            if st.status != 'done':
                continue
            rel = truth(st, st.ret)
            cd = len(st.events('conn_disconnect'))
            last = eqc(st, Sym('conn.ref', 32), 1)
            if rel is True:
                k += 1
                rep.check('release', cd == (0 if s == 'XMPP_STATE_DISCONNECTED' else 1) or s == 'XMPP_STATE_DISCONNECTED', s, 'xmpp_conn_release', 'releasing a connection in %s ends it %d times' % (s, cd), s)
            elif rel is False:
                rep.check('release', cd == 0, s + ':shared', 'xmpp_conn_release', 'dropping one of several references ends the connection', s)
        if not k:
            raise AnalysisBroken('xmpp_conn_release never releases in the abstraction')
