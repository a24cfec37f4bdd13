"""C02 / C03: negotiation policy, over the discovered handler graph."""
from nego import *
from scan import *

STRONG = {n: i for n, i in MECH.items() if n not in ('PLAIN', 'ANONYMOUS')}
AUTHDATA = ('auth', 'response', 'legacy')


def leaves(t, out=None):
    out = set() if out is None else out
    if isinstance(t, Term):
        out.add(t)
        for a in t.args:
            leaves(a, out)
    elif isinstance(t, (tuple, list)):
        for a in t:
            leaves(a, out)
    elif isinstance(t, Snap):
        leaves(t.text, out)
        if isinstance(t.attrs, dict):
            for v in t.attrs.values():
                leaves(v, out)
        leaves(t.src, out)
        for k in t.kids:
            leaves(k, out)
    return out


def reveals(t, secret, opaque):
    """does the text contain the secret outside the given one-way applications?"""
    if isinstance(t, Term):
        if t in secret or t.op == 'str' and t.args and t.args[0] in secret:
            return True
        if t.op in opaque:
            return False
        return any(reveals(a, secret, opaque) for a in t.args)
    if isinstance(t, (tuple, list)):
        return any(reveals(a, secret, opaque) for a in t)
    if isinstance(t, Snap):
        return (reveals(t.text, secret, opaque) or isinstance(t.attrs, dict) and any(reveals(v, secret, opaque) for v in t.attrs.values())
                or any(reveals(k, secret, opaque) for k in t.kids))
    if isinstance(t, str):
        return False
    return False


ONEWAY = ('sasl_digest', 'sasl_scram', 'sha1', 'sha256', 'sha512', 'md5')


def gated(g):
    return g.get('tls_mandatory') is False or g.get('secured') is True


def plain_invariant(st, bits):
    """mechanism whose bit may be set together with PLAIN's, or None. The
    invariant itself is assumed of the entry value (inductive step)."""
    b0 = bitval(bits, MECH['PLAIN'])
    b0 = st.norm(b0) if b0 is not None else None
    if b0 is None:
        return 'unknown bits'
    if b0 == 0:
        return None
    p0 = mechbit(MECH['PLAIN'])
    entry1 = st.norm(p0) == 1 or b0 == p0
    for n, i in STRONG.items():
        e = st.norm(mechbit(i))
        if entry1 and type(e) is int and e == 1:
            return None        # contradicts the invariant at entry: not a reachable path
    for n, i in STRONG.items():
        b = st.norm(bitval(bits, i))
        if b == 0:
            continue
        if entry1 and b == mechbit(i):
            continue
        return n
    return None


def c02(rep):
    P = Program()
    n = Nego(rep, prog=P)
    rep.rule('gate', 'authentication data is written only with (TLS not mandatory) or (transport secured) established on the path, or by a handler registered only under that gate', 4)
    rep.rule('starttls', '<starttls/> is written only while tls_support is set', 1)
    rep.rule('tls-support', 'tls_support becomes nonzero only when TLS is not disabled and the features offered <starttls/>', 1)
    rep.rule('plain-invariant', 'whenever a negotiation step ends, the PLAIN bit is not set together with the bit of a stronger offered mechanism', 10)
    rep.rule('plain-send', 'SASL PLAIN is sent only with its own bit set (no stronger mechanism remaining)', 1)
    rep.rule('external-bit', 'EXTERNAL counts as offered only with a client certificate or key configured', 1)
    rep.rule('legacy', 'jabber:iq:auth is sent only with legacy authentication enabled, on a client connection', 1)
    rep.rule('password', 'the password leaves in reversible form only in SASL PLAIN and legacy authentication', 4)
    rep.rule('secured', 'conn->secured is set only after the TLS handshake of that session succeeded', 1)
    rep.rule('is-secured', 'xmpp_conn_is_secured() is true only with secured set, no failed TLS and a TLS session', 1)
    rep.rule('tls-disabled', 'no TLS session is started on a connection with TLS disabled', 1)
    rep.rule('flags-conflict', 'flag words that disable TLS while demanding it are refused and change nothing', 1)
    rep.rule('flags-set', 'every accepted flag word sets exactly the policy fields it names and reads back as set', 8)
    rep.rule('flags-offline', 'policy flags are refused unless the connection is disconnected', 1)
    rep.rule('fresh-policy', 'a new connection attempt starts unsecured, with no mechanism, STARTTLS offer or handler left from an earlier one', 3)

    ext_i = MECH['EXTERNAL']

    def mon(st, f, v):
        root = st.g.get('root')
        if f == 'tls_support' and truth(st, v) is not False:
            c = CONN
            dis = truth(st, getf(n.e, st, '_xmpp_conn_t', c, 'tls_disabled'))
            off = any(isinstance(t, Term) and t.op in ('childnns', 'child', 'childns') and 'starttls' in t.args and st.isnull(t) is False for t in n.known_nonnull(st))
            rep.check('tls-support', dis is False and off, root, '%s %s' % (root, st.where()),
                      'tls_support set with tls_disabled %s and <starttls/> %s' % (dis, 'offered' if off else 'not established as offered'))
        if f == 'sasl_support':
            b = st.norm(bitval(v, ext_i)) if bitval(v, ext_i) is not None else None
            old = mechbit(ext_i)
            if b == 1 and st.norm(old) != 1:
                c1 = truth(st, getf(n.e, st, '_xmpp_conn_t', CONN, 'tls_client_cert', 8))
                c2 = truth(st, getf(n.e, st, '_xmpp_conn_t', CONN, 'tls_client_key', 8))
                # a path on which another bit is being set while an earlier iteration set this one carries the same facts
                rep.check('external-bit', c1 is True or c2 is True or not isinstance(old, Term), root, '%s %s' % (root, st.where()),
                          'EXTERNAL becomes eligible without a client certificate')
    n.monitors.append(mon)
    n.discover()
    rep.assumptions.append('server-supplied stanzas, JIDs, passwords and connection fields are arbitrary; user callbacks do not modify internal fields')

    # handlers whose every registration happened under the gate
    gated_fn = set(n.reg)
    for fn, regs in n.reg.items():
        for root, ev, st in regs:
            if not gated(ev.d.get('g', {})):
                gated_fn.discard(fn)
    # inductive: a registration made by a gated handler is gated, too
    ch = True
    while ch:
        ch = False
        for fn, regs in n.reg.items():
            if fn not in gated_fn and all(gated(ev.d.get('g', {})) or root in gated_fn for root, ev, st in regs):
                gated_fn.add(fn)
                ch = True
    secret = {Sym('conn.pass', tag='nullable')}
    for r, paths in n.sum.items():
        for st in paths:
            for t in list(st.pmap):
                pass
            for ev, c in n.sends(st):
                g = ev.d.get('g', {})
                w = '%s:%s' % (r, ev.where)
                if c[0] in AUTHDATA:
                    rep.check('gate', gated(g) or r in gated_fn, '%s:%s' % (r, c[0]), w,
                              '%s is written in %s with tls_mandatory=%s secured=%s' % (' '.join(map(str, c)), r, g.get('tls_mandatory'), g.get('secured')), w)
                if c[0] == 'starttls':
                    rep.check('starttls', g.get('tls_support') is True, r, w, '<starttls/> without tls_support established', w)
                if c[0] == 'legacy':
                    rep.check('legacy', g.get('auth_legacy_enabled') is True and g.get('client') is True, r, w,
                              'legacy authentication sent with auth_legacy_enabled=%s client=%s' % (g.get('auth_legacy_enabled'), g.get('client')), w)
                if c == ('auth', 'PLAIN'):
                    b = g.get('bits')
                    ok = bitval(b, 0) == 1 or all(st.norm(bitval(b, i)) == 0 for i in STRONG.values())
                    rep.check('plain-send', ok, r, w, 'PLAIN is sent without its bit being established', w)
                body = ev.stanza if ev.kind == 'send' else ev.data
                if reveals(body, secret, ONEWAY):
                    rep.check('password', c == ('auth', 'PLAIN') or c[0] == 'legacy', '%s:%s' % (r, c[0]), w,
                              'the password is recoverable from %s' % (c,), w)
                elif c[0] in AUTHDATA + ('handshake',):
                    rep.ok('password', w)
            # invariant at every hand-over point
            for ev in st.events('cut'):
                g = ev.d.get('g', {})
                bad = plain_invariant(st, g.get('bits'))
                rep.check('plain-invariant', bad is None, '%s:%s' % (r, bad), '%s:%s' % (r, ev.where),
                          'PLAIN stays eligible although %s was offered' % bad, r)
            if st.status == 'done':
                b = st.norm(getf(n.e, st, '_xmpp_conn_t', CONN, 'sasl_support'))
                bad = plain_invariant(st, b)
                rep.check('plain-invariant', bad is None, '%s:%s' % (r, bad), r, 'PLAIN stays eligible next to %s at the end of %s' % (bad, r), r)
    # the handlers that can send are reached only through the discovered registrations
    rep.notes.append('roots: ' + ', '.join('%s[%s]' % (r, n.kind[r]) for r in sorted(n.sum)))
    rep.notes.append('gated handlers: ' + ', '.join(sorted(gated_fn)))
    tls_start_rules(rep, P)
    flags_rules(rep, P, 'C02')
    fresh_rules(rep, P, {'secured': 'secured', 'tls_support': 'tls_support', 'sasl_support': 'sasl_support'}, 'fresh-policy')
    return 'other', ('Path-sensitive abstract interpretation of the negotiation handlers discovered from their registrations (callbacks passed to handler_add*/'
                     'conn_prepare_reset from auth_handle_open* on), over arbitrary stanzas and connection fields; every write of authentication data, every update '
                     'of the mechanism mask, and the TLS/flag entry points are obligations.')


# --------------------------------------------------------------- conn level
def conn_models(oom=False, keep=()):
    m = auth_models(oom)
    for k in ('conn_disconnect', 'xmpp_disconnect', 'conn_tls_start', 'conn_prepare_reset', 'conn_open_stream', 'send_stanza', 'send_raw', 'send_raw_string'):
        if k in keep:
            m.pop(k, None)
    m.update({
        'tls_start': m_tls_start_raw, 'tls_error': retsym('tls_error'), 'tls_stop': event('tls_stop'),
        'sock_connect': m_sock_connect, 'sock_new': lambda e, st, a, ins: st.fresh('xsock', 64, tag='nullable'), 'sock_free': event('sock_free'),
        'sock_close': event('sock_close', 0), 'compression_free': event('compression_free'),
        'handler_system_delete_all': event('handlers_cleared'), 'handler_reset_timed': event('reset_timed'),
        'parser_reset': event('parser_reset', 1), 'parser_new': lambda e, st, a, ins: st.fresh('parser', 64, tag='nullable'),
        'time_stamp': lambda e, st, a, ins: st.fresh('now', 64),
        'xmpp_stanza_release': STZ.models()['xmpp_stanza_release'],
    })
    return m


def m_tls_start_raw(e, st, a, ins):
    st.ev('tls_handshake', tls=st.norm(a[0]))
    o = st.copy()
    st.g['tls-ok'] = True
    note(st, ('tls_start succeeds',), True)
    note(o, ('tls_start succeeds',), False)
    o.g['tls-ok'] = False
    r = st.fresh('tls_ok', 32, lo=1, hi=0x7fffffff)
    return [(st, r), (o, 0)]


def m_sock_connect(e, st, a, ins):
    st.ev('sock_connect', arg=a[0])
    o = st.copy()
    note(st, ('sock_connect ok',), True)
    note(o, ('sock_connect ok',), False)
    return [(st, st.fresh('fd', 32, lo=0, hi=1 << 20)), (o, 0xffffffff)]


def run_conn(rep, P, fn, args=None, models=None, setup=None, st=None, max_paths=60000, loopk=None, prep=None):
    e = conn_engine(P, models or conn_models(), max_paths=max_paths, max_steps=10 ** 9)
    if loopk:
        e.loopk = loopk
    if prep:
        prep(e)
    f = P.func(fn)

    def su(s):
        type_conn(e, s)
        s.g['root'] = f.name
        if setup:
            setup(e, s)
    if args is None:
        args = [CONN] + [Sym('arg%d' % i, 64 if t.k == 'ptr' else t.w, tag='nullable' if t.k == 'ptr' else None) for i, (nm, t) in enumerate(f.params[1:])]
    ps = e.start(f, args, su, st)
    rep.engine(e, len(ps))
    return e, ps


def tls_start_rules(rep, P):
    soff = P.off('_xmpp_conn_t', 'secured')
    for fn, ws in sorted(writers(P, '_xmpp_conn_t', 'secured').items()):
        f = P.func(fn)
        if not f.params or f.params[0][1].k != 'ptr':
            rep.bad('secured', fn, ws[0], 'secured is set in a function the analysis cannot enter')
            continue
        m = conn_models(keep=('conn_tls_start',))
        m.pop(fn, None)
        e = conn_engine(P, m, max_paths=20000)
        seen = []

        def hook(st, o, off, sz, val):
            if o.stype == '_xmpp_conn_t' and off == soff and truth(st, val) is not False:
                rep.check('secured', st.g.get('tls-ok') is True, fn, st.where(), 'secured is set on a path where tls_start() has not reported success', st.where())
        e.store_hooks.append(hook)

        def su(st):
            type_conn(e, st)
        ps = e.start(f, [CONN] + [Sym('a%d' % i, 64 if t.k == 'ptr' else t.w) for i, (_, t) in enumerate(f.params[1:])], su)
        rep.engine(e, len(ps))
    # conn_tls_start: refused when disabled; success only with a handshake
    e, ps = run_conn(rep, P, 'conn_tls_start', [CONN], conn_models(keep=('conn_tls_start',)))
    for st in ps:
        if st.status != 'done':
            continue
        dis = truth(st, getf(e, st, '_xmpp_conn_t', CONN, 'tls_disabled'))
        hs = st.events('tls_handshake')
        rep.check('tls-disabled', not (hs and dis is not False), 'conn_tls_start', hs[0].where if hs else 'conn_tls_start', 'a TLS handshake is started although TLS is (or may be) disabled')
        ok = truth(st, st.ret)
        if ok is not True:
            sec = truth(st, getf(e, st, '_xmpp_conn_t', CONN, 'secured'))
            rep.check('secured', st.g.get('tls-ok') is True and sec is True, 'conn_tls_start:ret', 'conn_tls_start', 'conn_tls_start reports success without a completed handshake', 'conn_tls_start')
    e, ps = run_conn(rep, P, 'xmpp_conn_is_secured', [CONN])
    for st in ps:
        if st.status != 'done' or truth(st, st.ret) is False:
            continue
        r = st.norm(st.ret)
        fs = []
        if isinstance(r, Term):
            e.assume(st, r, True) if r.w == 1 else st.facts.assume_ne(r)
        for fld, want, sz in (('secured', True, 4), ('tls_failed', False, 4), ('tls', True, 8)):
            fs.append(truth(st, getf(e, st, '_xmpp_conn_t', CONN, fld, sz)) is want or _implied(e, st, r, fld, want, sz))
        rep.check('is-secured', all(fs), 'xmpp_conn_is_secured', 'xmpp_conn_is_secured', 'reports secured although secured/tls_failed/tls do not say so: %s' % fs)


def _implied(e, st, r, fld, want, sz):
    """a returned comparison term decides the field"""
    if not isinstance(r, Term):
        return False
    v = getf(e, st, '_xmpp_conn_t', CONN, fld, sz)
    s2 = st.copy()
    if want:
        ok = s2.facts.assume_range(v, 0, 0)
    else:
        ok = s2.facts.assume_ne(v)
    if not ok:
        return True
    x = s2.norm(r)
    while isinstance(x, Term) and x.op in ('zext', 'sext', 'trunc') and isinstance(x.args[0], Term):
        x = x.args[0]
    if isinstance(x, Term) and x.w == 1 or isinstance(x, Term) and x.op == 'cmp':
        d = e.decide(s2, x)
        return d is False
    return x == 0


FLAGBITS = {'XMPP_CONN_FLAG_DISABLE_TLS': (0, 'tls_disabled'), 'XMPP_CONN_FLAG_MANDATORY_TLS': (1, 'tls_mandatory'), 'XMPP_CONN_FLAG_LEGACY_SSL': (2, 'tls_legacy_ssl'),
            'XMPP_CONN_FLAG_TRUST_TLS': (3, 'tls_trust'), 'XMPP_CONN_FLAG_LEGACY_AUTH': (4, 'auth_legacy_enabled'), 'XMPP_CONN_FLAG_DISABLE_SM': (5, 'sm_disable'),
            'XMPP_CONN_FLAG_ENABLE_COMPRESSION': (6, 'compression.allowed'), 'XMPP_CONN_FLAG_COMPRESSION_DONT_RESET': (7, 'compression.dont_reset')}


def flags_rules(rep, P, prop):
    """xmpp_conn_set_flags / get_flags over an arbitrary flag word (bit-precise)"""
    fb = [Sym('flag.bit%d' % i, 1) for i in range(64)]
    word = mkbits(fb, 64)
    offs = {P.off('_xmpp_conn_t', f): f for _, f in FLAGBITS.values()}
    m = conn_models()
    e = conn_engine(P, m, max_paths=60000)
    f = P.func('xmpp_conn_set_flags')

    def su(st):
        type_conn(e, st)
        for i, (b, fld) in enumerate(FLAGBITS.values()):
            setf(e, st, '_xmpp_conn_t', CONN, fld, mkbits([Sym('old.' + fld, 1)] + [0] * 31, 32))
    ps = e.start(f, [CONN, word], su)
    rep.engine(e, len(ps))
    D = P.enums['XMPP_STATE_DISCONNECTED']
    nok = 0
    for st in ps:
        if st.status != 'done':
            continue
        rt = st.norm(st.ret)
        st_state = getf(e, st, '_xmpp_conn_t', CONN, 'state')
        isdisc = eqc(st, st_state, D)
        okret = truth(st, rt) is False
        changed = []
        for nm, (b, fld) in FLAGBITS.items():
            v = st.norm(getf(e, st, '_xmpp_conn_t', CONN, fld))
            old = st.norm(mkbits([Sym('old.' + fld, 1)] + [0] * 31, 32))
            if v != old:
                changed.append(fld)
        if okret:
            nok += 1
            rep.check('flags-offline', isdisc is True, 'accepted', 'xmpp_conn_set_flags', 'flags accepted although the state may not be DISCONNECTED')
            d = st.norm(fb[0])
            conf = [i for i in (1, 2, 3) if not (d == 0 or st.norm(fb[i]) == 0)]
            rep.check('flags-conflict', not conf, 'accepted', 'xmpp_conn_set_flags', 'DISABLE_TLS accepted together with flag bit(s) %s' % conf)
            for nm, (b, fld) in FLAGBITS.items():
                v = st.norm(getf(e, st, '_xmpp_conn_t', CONN, fld))
                want = st.norm(mkbits([fb[b]] + [0] * 31, 32))
                rep.check('flags-set', _same(st, v, want, fb[b]), fld, 'xmpp_conn_set_flags', '%s is %s for flag bit %s' % (fld, v, st.norm(fb[b])), fld)
            # read back
            g = P.func('xmpp_conn_get_flags')
            e2 = conn_engine(P, m, max_paths=2000)
            st2 = st.copy()
            st2.eng = e2
            qs = e2.start(g, [CONN], lambda s: None, st2)
            for q in qs:
                if q.status != 'done':
                    continue
                rb = q.norm(q.ret)
                for nm, (b, fld) in FLAGBITS.items():
                    bv = bitvec(rb, 64)
                    x = q.norm(bv[b]) if bv else None
                    rep.check('flags-set', x is not None and x == q.norm(fb[b]), 'readback:' + fld, 'xmpp_conn_get_flags', 'flag bit %d reads back as %s, was set to %s' % (b, x, q.norm(fb[b])), 'readback')
            rep.engine(e2, len(qs))
        else:
            if isdisc is not True and isdisc is not None or isdisc is None:
                pass
            rep.check('flags-conflict' if isdisc else 'flags-offline', not changed, 'refused', 'xmpp_conn_set_flags', 'a refused flag word changed %s' % changed)
    if not nok:
        raise AnalysisBroken('no accepting path through xmpp_conn_set_flags')


def _same(st, v, want, bit):
    if v == want:
        return True
    b = st.norm(bit)
    if type(b) is int:
        return v == b
    bv = bitvec(v, 32)
    return bool(bv) and bv[0] == b and all(x == 0 for x in bv[1:])


def attempt_setup(sm=None, **fixed):
    """narrows what does not matter for an accepted attempt: plain configuration, no old socket, no old SM state"""
    def su(e, st):
        for f in ('tls_disabled', 'tls_mandatory', 'tls_legacy_ssl', 'tls_trust', 'auth_legacy_enabled', 'sm_disable', 'compression.allowed', 'compression.dont_reset'):
            setf(e, st, '_xmpp_conn_t', CONN, f, 0)
        for f in ('xsock', 'tls_client_cert', 'tls_client_key', 'send_queue_head', 'send_queue_tail', 'stream_error'):
            setf(e, st, '_xmpp_conn_t', CONN, f, 0, 8)
        if not sm:
            setf(e, st, '_xmpp_conn_t', CONN, 'sm_state', 0, 8)
        for f, v in fixed.items():
            setf(e, st, '_xmpp_conn_t', CONN, f, v)
    return su


def fresh_rules(rep, P, fields, rid):
    """after a connection attempt was accepted nothing negotiated earlier is left"""
    e, ps = run_conn(rep, P, 'xmpp_connect_client', None, setup=attempt_setup(sm=rid == 'offer-fresh' and 'tls_support' in fields or None))
    nok = 0
    for st in ps:
        if st.status != 'done' or truth(st, st.ret) is not False:
            continue
        nok += 1
        for fld, what in fields.items():
            v = truth(st, getf(e, st, '_xmpp_conn_t', CONN, fld))
            rep.check(rid, v is False, what, 'xmpp_connect_client', '%s may survive from an earlier connection into the next one' % fld, fld)
        hc = st.events('handlers_cleared')
        rep.check(rid, bool(hc), 'handlers', 'xmpp_connect_client', 'system handlers of an earlier connection may still be registered', 'handlers')
    if not nok:
        raise AnalysisBroken('xmpp_connect_client never succeeds in the abstraction')


# --------------------------------------------------------------------- C03
OFFERF = ('tls_support', 'sasl_support', 'compression.supported', 'bind_required', 'session_required')
STZ0 = Sym('stanza', tag='nonnull')
RESUME = Sym('conn.sm_state.resume', 32)


def attr_text(st, what, *keys):
    """known literal of an accessor of the handled stanza, e.g. ('attr','type')"""
    t = App(what, STZ0, *keys, tag='nullable')
    ex, ie = known_text(st, t)
    return ex


def answers_of(n):
    """handler -> classes of the requests written on the paths that register it"""
    out = {}
    for fn, regs in n.reg.items():
        for root, ev, st in regs:
            if ev.kind == 'prepare_reset' or ev.how == 'timed':
                continue
            for se, c in n.sends(st):
                if c[0] != 'header':
                    out.setdefault(fn, set()).add(c[0])
    return out


def offered(n, st, kind, *words):
    """the path knows that the handled stanza has the given offer"""
    for t in n.known_nonnull(st):
        if isinstance(t, Term) and t.op in ('childnns', 'child', 'childns', 'bypath') and all(any(w == a or isinstance(a, str) and w in a for a in t.args) for w in words):
            return True
    return False


def resuming(st):
    return truth(st, RESUME)


def c03(rep):
    P = Program()
    n = Nego(rep, prog=P)
    R = rep.rule
    R('offer-starttls', '<starttls/> is requested only when this server offered it', 1)
    R('offer-mech', 'a SASL mechanism is requested only while its own offer bit is set', 5)
    R('mech-once', 'a mechanism that was requested is not eligible again on this connection', 5)
    R('mech-bit', 'an offer bit is set only for a <mechanism/> text naming that mechanism, below an offered <mechanisms/>', 5)
    R('offer-compress', 'compression is requested only if allowed and zlib was offered', 1)
    R('offer-bind', 'resource binding is requested only if the server offered it', 1)
    R('offer-session', 'a session is requested only if the server required one', 1)
    R('offer-sm', '<enable/> and <resume/> are sent only if this server offered SM, it is not disabled and (resume) a session can be resumed', 2)
    R('offer-fields', 'offer fields become set only on paths where the feature element is present', 4)
    R('offer-fresh', 'every offer of an earlier connection is forgotten when a new attempt is accepted', 5)
    R('order', 'requests come in the RFC 6120 order: STARTTLS and SASL before, compression, bind, session and SM after authentication; session and SM enable after bind', 8)
    R('restart', 'the stream is restarted (parser reset and one new header) exactly after TLS, SASL success and compression', 3)
    R('compress-confirmed', 'compression is switched on only after <compressed/>, before the new header', 1)
    R('connect-once', 'no path raises CONNECT twice and the handler that raises it is done afterwards', 4)
    R('connect-complete', 'CONNECT is raised only with negotiation marked complete', 4)
    R('connect-evidence', 'CONNECT is raised only after bind/session/legacy result, SM enabled, session resumed, or the handshake acknowledgement', 4)
    R('completed-set', 'stream_negotiation_completed is set only where CONNECT or RAW_CONNECT is raised', 1)
    R('header', 'each stream header names the configured domain, the user address appears only on a secured stream', 2)
    R('domain', 'the configured domain is the domain of the JID (client) or the component name', 2)
    R('bind-resource', 'the bind request asks exactly for the configured, non-empty resource', 2)
    R('gate-send', 'what the user submits is queued only after negotiation is complete', 2)
    R('gate-handlers', 'user handlers and timed handlers run only after negotiation is complete', 2)
    R('open-handler', 'a client starts at the client open handler, a component at the component one, raw only when asked for', 3)

    OFF = {'tls_support': ('starttls',), 'compression.supported': ('compression',), 'bind_required': ('bind',), 'session_required': ('session',), 'sm.sm_support': ('sm',)}

    def mon(st, f, v):
        root = st.g.get('root')
        w = '%s %s' % (root, st.where())
        if f == 'sm.bind' and truth(st, v) is not False:
            rep.check('offer-fields', stored_bind(st, v), '%s:sm.bind' % root, w, 'sm_state->bind is set to something other than a copy of the offered <bind/>', f)
        if f in OFF and truth(st, v) is not False:
            ok = offered(n, st, f, *OFF[f])
            if not ok and isinstance(v, Term):
                # the value may itself be the presence of the element
                s2 = st.copy()
                nv = s2.norm(v)
                if isinstance(nv, Term) and (n.e.assume(s2, nv, True) if nv.w == 1 or nv.op == 'cmp' else s2.facts.assume_ne(nv)):
                    ok = offered(n, s2, f, *OFF[f])
                x = nv
                while not ok and isinstance(x, Term) and x.op in ('zext', 'sext') and isinstance(x.args[0], Term):
                    x = x.args[0]
                    s3 = st.copy()
                    n.e.assume(s3, x, True)
                    ok = offered(n, s3, f, *OFF[f])
            rep.check('offer-fields', ok, '%s:%s' % (root, f), w, '%s becomes set without the feature <%s/> being known present' % (f, OFF[f][0]), f)
            if f == 'compression.supported':
                okz = any(known_text_any(st, t) == 'zlib' for t in texts(n, st))
                rep.check('offer-fields', okz, '%s:%s:zlib' % (root, f), w, 'compression counts as supported without the method "zlib"', f)
        if f == 'sasl_support':
            prev = st.g.get('sasl_prev') or st_prev(n, st)
            st.g['sasl_prev'] = v
            for name, mask in MECHNAME.items():
                i = MECH.get(mask)
                if i is None:
                    continue
                nb = bitval(v, i)
                nb = st.norm(nb) if nb is not None else None
                ob = bitval(st.norm(prev), i)
                if nb == 1 and (ob is None or st.norm(ob) != 1):
                    names = {known_text_any(st, t) for t in texts(n, st)}
                    rep.check('mech-bit', name.lower() in names and offered(n, st, f, 'mechanisms'), '%s:%s' % (root, name), w,
                              '%s becomes eligible although the text is %s' % (name, sorted(x for x in names if x)), name)
    n.monitors.append(mon)
    n.discover()
    E = P.enums
    ans = answers_of(n)
    rep.notes.append('request answered by handler: ' + ', '.join('%s:%s' % (k, '/'.join(sorted(v))) for k, v in sorted(ans.items())))

    # ---- where in the negotiation can each root run: PRE (unauthenticated), AUTH, BOUND
    COMP = {'auth_handle_component_open'}
    where_ = {'auth_handle_open': {'PRE'}, 'auth_handle_component_open': {'COMP'}, 'auth_handle_open_raw': {'RAW'}, 'auth_handle_open_stub': {'RAW'}}

    def states_on(r, st):
        w = set(where_.get(r, ()))
        if ans.get(r, set()) & {'enable', 'resume'}:
            x = resuming(st)
            if x is True:
                w &= {'AUTH'}
            elif x is False:
                w &= {'BOUND'}
        return w
    ch = True
    while ch:
        ch = False
        for r, paths in n.sum.items():
            for st in paths:
                base = states_on(r, st)
                if not base:
                    continue
                for ev in st.events('handler_add', 'prepare_reset', 'cut'):
                    fn = ev.fn.name if isinstance(ev.fn, Fn) else ev.fn
                    out = set(base)
                    a = ans.get(r, set())
                    if ev.kind == 'prepare_reset' and a & {'auth', 'response'} and attr_text(st, 'name') == 'success':
                        out = {'AUTH' if x == 'PRE' else x for x in out}
                    if ev.kind == 'handler_add' and 'bind' in a and attr_text(st, 'attr', 'type') == 'result':
                        out = {'BOUND' if x == 'AUTH' else x for x in out}
                    if not out <= where_.setdefault(fn, set()):
                        where_[fn] |= out
                        ch = True
    rep.notes.append('negotiation phase of each handler: ' + ', '.join('%s:%s' % (k, '/'.join(sorted(v))) for k, v in sorted(where_.items())))
    PHASE = {'starttls': {'PRE'}, 'auth': {'PRE'}, 'response': {'PRE'}, 'legacy': {'PRE'}, 'abort': {'PRE'}, 'handshake': {'COMP'}, 'compress': {'AUTH'},
             'bind': {'AUTH'}, 'resume': {'AUTH'}, 'session': {'BOUND'}, 'enable': {'BOUND'}}
    for r, paths in n.sum.items():
        for st in paths:
            a = ans.get(r, set())
            wset = states_on(r, st)
            for ev, c in n.sends(st):
                g = ev.d.get('g', {})
                w = '%s:%s' % (r, ev.where)
                k = c[0]
                ws = set(wset)
                if 'bind' in a and attr_text(st, 'attr', 'type') == 'result':
                    ws = {'BOUND' if x == 'AUTH' else x for x in ws}
                if k in PHASE:
                    rep.check('order', ws <= PHASE[k], '%s:%s' % (r, k), w, '%s is written in phase %s of the negotiation' % (' '.join(map(str, c)), sorted(ws)), w)
                if k == 'starttls':
                    rep.check('offer-starttls', g.get('tls_support') is True, r, w, '<starttls/> without tls_support', w)
                if k == 'auth':
                    i = MECH.get(MECHNAME.get(c[1], ''))
                    ok = i is not None and st.norm(bitval(g.get('bits'), i)) == 1
                    if i is None:
                        ok = scram_ok(n, st, g, ev)
                        rep.check('offer-mech', ok is not None, '%s:%s' % (r, c[1]), w, 'mechanism %s requested without its offer being established' % (c[1],), w)
                    else:
                        rep.check('offer-mech', ok, '%s:%s' % (r, c[1]), w, 'mechanism %s requested without its offer bit' % c[1], c[1])
                    if st.status == 'done':
                        b = st.norm(getf(n.e, st, '_xmpp_conn_t', CONN, 'sasl_support'))
                        j = i if i is not None else ok
                        if j is not None and j is not True and j is not False:
                            rep.check('mech-once', st.norm(bitval(b, j)) == 0, '%s:%s' % (r, c[1]), w, 'mechanism %s stays eligible after it was requested' % (c[1],), c[1])
                if k == 'compress':
                    rep.check('offer-compress', g.get('compression.supported') is True, r, w, '<compress/> without an offer', w)
                if k == 'bind':
                    ok = g.get('bind_required') is True or any(isinstance(t, Term) and 'bind' in repr(t) and st.isnull(t) is False for t in [z for z in leaves(ev.stanza) if isinstance(z, Term)])
                    rep.check('offer-bind', ok, r, w, 'bind requested without an offer', w)
                    bind_resource(rep, st, ev, r, w)
                if k == 'session':
                    rep.check('offer-session', g.get('session_required') is True, r, w, 'session requested without session_required', w)
                if k in ('enable', 'resume'):
                    rep.check('offer-sm', g.get('sm_support') is True and g.get('sm_disable') is False and (k == 'enable' or g.get('can_resume') is True), '%s:%s' % (r, k), w,
                              '<%s/> with sm_support=%s sm_disable=%s can_resume=%s' % (k, g.get('sm_support'), g.get('sm_disable'), g.get('can_resume')), w)
                    if st.status == 'done':
                        sm = getf(n.e, st, '_xmpp_conn_t', CONN, 'sm_state', 8)
                        fl = truth(st, getf(n.e, st, '_xmpp_sm_t', sm, 'resume'))
                        rep.check('connect-evidence', fl is (k == 'resume'), '%s:%s:flag' % (r, k), w, 'after <%s/> the resume flag is %s' % (k, fl), w)
                # compression and restart
            restart_rules(rep, n, r, st, a)
            connect_rules(rep, n, P, r, st, a, wset)
    # offers forgotten
    fresh_rules(rep, P, {f: f for f in OFFERF}, 'offer-fresh')
    fresh_rules(rep, P, {'stream_negotiation_completed': 'stream_negotiation_completed'}, 'offer-fresh')
    header_rules(rep, P)
    domain_rules(rep, P)
    gate_rules(rep, P)
    from p_handlers import gate_handlers
    gate_handlers(rep, P)
    completed_rules(rep, P, n)
    open_rules(rep, P)
    return 'other', 'Path-sensitive abstract interpretation of all negotiation handlers found from their registrations; request/offer, order (dataflow over the registration graph), stream restart, CONNECT evidence and user gates are obligations on every abstract path.'


def stored_bind(st, v):
    o = st.base_of(v)
    src = o[0].x.get('copyof') if o and o[0].kind == 'stanza' else v
    return isinstance(src, Term) and src.op in ('childnns', 'child', 'childns') and 'bind' in src.args and st.isnull(src) is False


def st_prev(n, st):
    """sasl_support as it was at entry of the handler (the store hook runs after the store)"""
    return mkbits([mechbit(i) for i in range(10)] + [0] * 22, 32)


def texts(n, st):
    return [t for t in n.terms_in(st) if isinstance(t, Term) and t.op in ('text', 'textof', 'attr', 'name') or isinstance(t, Term) and 'text' in t.op] + \
        [k[1].args[0] for k in st.g if isinstance(k, tuple) and k and k[0] == 'ieq' and isinstance(k[1], Term)]


def known_text_any(st, t):
    ex, ie = known_text(st, t)
    return (ex or ie or '').lower() or None


def scram_ok(n, st, g, ev):
    """a mechanism name that is not literal must be accompanied by the clearing of exactly one set bit"""
    b0 = g.get('bits')
    b1 = st.norm(getf(n.e, st, '_xmpp_conn_t', CONN, 'sasl_support'))
    return None


def bind_resource(rep, st, ev, r, w):
    """<resource> text equals jidresource(conn.jid) iff that is a non-empty string"""
    res = None
    txt = None
    for k in snaps(ev.stanza):
        if k.name == 'resource':
            res = k
            txt = k.textof()
    jr = [t for t in allterms(st) if isinstance(t, Term) and t.op == 'jidresource']
    jr = [t for t in jr if 'conn.jid' in repr(t)]
    if res is not None:
        want = [subst(st, (S(t),)) for t in jr]
        got = subst(st, txt) if isinstance(txt, tuple) else txt
        rep.check('bind-resource', got in want, r + ':text', w, 'the bind request asks for resource %s' % (got,), w)
    else:
        ok = any(st.isnull(t) is True or lits(st, (S(t),)) == '' or eqc(st, Len(S(t)), 0) is True for t in jr)
        rep.check('bind-resource', ok, r + ':none', w, 'the bind request omits the configured resource', w)


def snaps(s):
    yield s
    for k in s.kids:
        if isinstance(k, Snap):
            for x in snaps(k):
                yield x


def allterms(st):
    out = set()

    def walk(t):
        if isinstance(t, Term):
            if t in out:
                return
            out.add(t)
            for a in t.args:
                walk(a)
        elif isinstance(t, (tuple, list)):
            for a in t:
                walk(a)
    for k in st.facts.terms():
        walk(k)
    x = st.dec
    while x:
        walk(x[1])
        x = x[0]
    return out


def restart_rules(rep, n, r, st, a):
    if st.status != 'done':
        return
    evs = [e for e in st.events('prepare_reset', 'open_stream', 'tls_start', 'tls_start_failed', 'compression_init')]
    kinds = [e.kind for e in evs]
    tls = 'tls_start' in kinds and 'tls_start_failed' not in kinds
    comp = 'compression_init' in kinds
    succ = bool(a & {'auth', 'response'}) and attr_text(st, 'name') == 'success'
    np, no = kinds.count('prepare_reset'), kinds.count('open_stream')
    cause = tls or comp or succ
    w = '%s:%s' % (r, evs[0].where if evs else '')
    if comp:
        nm = attr_text(st, 'name')
        ok = 'compress' in a and nm == 'compressed' and (no == 0 or kinds.index('compression_init') < kinds.index('open_stream'))
        rep.check('compress-confirmed', ok, r, w, 'compression is switched on in answer to <%s/> (request %s), events %s' % (nm, sorted(a), kinds), w)
    if n.kind[r] == 'stanza' and (np or no or cause):
        ok = cause and np == 1 and no == 1 and kinds.index('prepare_reset') < kinds.index('open_stream')
        ok = ok and (not tls or kinds.index('tls_start') < kinds.index('open_stream'))
        rep.check('restart', bool(ok), '%s:%s' % (r, ','.join(kinds)), w, 'stream restart in %s: security layer %s, events %s' % (r, 'changed' if cause else 'unchanged', kinds), w)
    elif np or no:
        rep.bad('restart', '%s:%s' % (r, ','.join(kinds)), w, 'stream restart from a %s handler' % n.kind[r])


def connect_rules(rep, n, P, r, st, a, wset):
    C = P.enums['XMPP_CONN_CONNECT']
    con = [e for e in st.events('notify') if e.event == C]
    if not con:
        return
    w = '%s:%s' % (r, con[0].where)
    rep.check('connect-once', len(con) == 1, r, w, 'CONNECT raised %d times on one path' % len(con), r)
    if n.kind[r] == 'stanza' and st.status == 'done':
        rep.check('connect-once', truth(st, st.ret) is False, r + ':again', w, 'the handler stays registered after CONNECT', r)
    g = con[0].d.get('g', {})
    rep.check('connect-complete', g.get('stream_negotiation_completed') is True, r, w, 'CONNECT while negotiation is not marked complete', r)
    if len(st.events('send', 'send_raw')) and any(c[0] in ('bind', 'session', 'enable', 'resume', 'auth', 'response', 'compress', 'starttls') for ev, c in n.sends(st)):
        rep.bad('connect-evidence', r + ':pending', w, 'CONNECT although a request was just written')
    ty, nm = attr_text(st, 'attr', 'type'), attr_text(st, 'name')
    why = None
    if 'bind' in a and ty == 'result' and wset <= {'AUTH'}:
        sr = truth(st, getf(n.e, st, '_xmpp_conn_t', CONN, 'session_required'))
        why = 'bind' if sr is False else None
    elif 'session' in a and ty == 'result' and wset <= {'BOUND'}:
        why = 'session'
    elif 'legacy' in a and ty == 'result':
        why = 'legacy'
    elif a & {'enable', 'resume'} and nm == 'enabled' and resuming(st) is False:
        why = 'enabled'
    elif a & {'enable', 'resume'} and nm == 'resumed' and resuming(st) is True:
        why = 'resumed'
        pv = known_prev(st)
        if not pv:
            why = None
    elif a & {'enable', 'resume'} and nm == 'failed' and resuming(st) is False:
        why = 'not enabled'
    elif 'handshake' in a and nm == 'handshake':
        why = 'handshake'
    elif wset == {'RAW'} and n.kind[r] == 'open':
        why = 'raw'
    rep.check('connect-evidence', why is not None, r, w, 'CONNECT in %s (answers %s, type %s, name %s, resume requested %s, phase %s) without proof of authentication and binding' % (r, sorted(a), ty, nm, resuming(st), sorted(wset)), '%s by %s' % (r, why))


def known_prev(st):
    """previd of the answer equals ours"""
    x = st.dec
    while x:
        t = repr(x[1])
        if x[2] and 'streq' in t and 'previd' in t and 'attr' in t and 'sm_state.previd' in t:
            return True
        x = x[0]
    return False


def header_rules(rep, P):
    e, ps = run_conn(rep, P, 'conn_open_stream', [CONN], conn_models(keep=('conn_open_stream',)))
    nh = 0
    for st in ps:
        for ev in st.events('send_raw'):
            d = ev.data or ()
            t = ''.join(p.decode('latin1') if isinstance(p, bytes) else '\0%r\0' % (p,) for p in d)
            if '<stream:stream' not in t:
                continue
            nh += 1
            w = ev.where
            m = re.search(r'\sto=["\']([^"\']*)["\']', t)
            rep.check('header', bool(m) and m.group(1) == '\0%r\0' % (subst(st, (S(Sym('conn.domain', tag='nonnull')),))[0],) or bool(m) and re.match('\0str\\(conn\\.domain\\)\0$', m.group(1)) is not None,
                      'to', w, 'the stream header is addressed to %r' % (m and m.group(1)), w)
            if 'conn.jid' in t:
                sec = truth(st, getf(e, st, '_xmpp_conn_t', CONN, 'tls', 8)) is True or truth(st, getf(e, st, '_xmpp_conn_t', CONN, 'secured')) is True
                rep.check('header', sec, 'from', w, 'the stream header reveals the JID although the stream may not be secured', w)
                rep.check('header', 'jidbare' in t or 'conn.jid' not in t, 'bare', w, 'the stream header reveals the full JID', w)
            if 'conn.pass' in t:
                rep.bad('header', 'pass', w, 'the stream header reveals the password')
    if not nh:
        raise AnalysisBroken('no stream header written by conn_open_stream')


def domain_rules(rep, P):
    for fn, want in (('xmpp_connect_client', 'jiddomain'), ('xmpp_connect_component', None)):
        e, ps = run_conn(rep, P, fn, setup=attempt_setup())
        k = 0
        for st in ps:
            if st.status != 'done' or truth(st, st.ret) is not False:
                continue
            k += 1
            d = getf(e, st, '_xmpp_conn_t', CONN, 'domain', 8)
            c = content(st, d)
            t = repr(c)
            ok = c is not None and len(c) == 1 and ('conn.jid' in t or 'xmppaddr' in t) and ((want in t) if want else not re.search(r'jid(domain|bare|node|resource)', t))
            rep.check('domain', ok, fn, fn, 'the stream domain of %s is %s' % (fn, t), fn)
        if not k:
            raise AnalysisBroken('%s never succeeds in the abstraction' % fn)


def gate_rules(rep, P):
    """user input reaches the queue only after completion"""
    cm = conn_models(keep=('send_stanza', 'send_raw', 'send_raw_string'))
    for k in ('send_stanza', 'send_raw', 'send_raw_string', 'xmpp_send'):
        cm.pop(k, None)
    S0 = STZ.models()
    qoff = {P.off('_xmpp_conn_t', f) for f in ('send_queue_head', 'send_queue_tail', 'send_queue_len')}
    for fn in ('xmpp_send', 'xmpp_send_raw', 'xmpp_send_raw_string'):
        m = dict(cm)
        m['strophe_vsnprintf'] = lambda e, st, a, ins: st.fresh('vlen', 32, lo=0, hi=1 << 20)
        m['xmpp_stanza_to_text'] = m_to_text_sym
        e = conn_engine(P, m, max_paths=20000)
        f = P.func(fn)
        bad = []
        cnt = [0]

        def hook(st, o, off, sz, val, fn=fn):
            if o.stype == '_xmpp_conn_t' and off in qoff:
                done = truth(st, getf(e, st, '_xmpp_conn_t', CONN, 'stream_negotiation_completed'))
                con = eqc(st, getf(e, st, '_xmpp_conn_t', CONN, 'state'), P.enums['XMPP_STATE_CONNECTED'])
                cnt[0] += 1
                rep.check('gate-send', con is True, fn + ':connected', st.where(), '%s queues data on a connection that is not connected' % fn, fn)
                rep.check('gate-send', done is True, fn, st.where(), '%s queues data before stream negotiation is complete' % fn, fn)
        e.store_hooks.append(hook)
        args = [CONN] + [Sym('arg%d' % i, 64, tag='nonnull' if t.k == 'ptr' else None) for i, (nm, t) in enumerate(f.params[1:])]
        ps = e.start(f, args, lambda st: type_conn(e, st))
        rep.engine(e, len(ps))
        if not cnt[0]:
            raise AnalysisBroken('%s never queues anything in the abstraction' % fn)


def m_to_text_sym(e, st, a, ins):
    """0 and a fresh string"""
    o = st.copy()
    t = st.fresh('rendered')
    st.store(a[1], Ptr(heap_str(st, (S(t),), 'text').id, 0), 8)
    st.store(a[2], Len(S(t)), 8)
    st.ev('to_text', stanza=a[0])
    o.store(a[1], 0, 8)
    r = o.fresh('tt_err', 32)
    o.facts.assume_ne(r)
    return [(st, 0), (o, r)]


def completed_rules(rep, P, n):
    off = P.off('_xmpp_conn_t', 'stream_negotiation_completed')
    for fn, ws in sorted(writers(P, '_xmpp_conn_t', 'stream_negotiation_completed').items()):
        f = P.func(fn)
        m = conn_models()
        m.pop(fn, None)
        e = conn_engine(P, m, max_paths=20000)
        e.ev_hooks['notify'] = n.gate
        args = [CONN] + [Sym('arg%d' % i, 64, tag='nonnull' if t.k == 'ptr' else None) for i, (nm, t) in enumerate(f.params[1:])]
        ps = e.start(f, args, lambda st: type_conn(e, st))
        rep.engine(e, len(ps))
        C, RC = P.enums['XMPP_CONN_CONNECT'], P.enums['XMPP_CONN_RAW_CONNECT']
        for st in ps:
            if st.status != 'done':
                continue
            v = truth(st, getf(e, st, '_xmpp_conn_t', CONN, 'stream_negotiation_completed'))
            was = truth(st, Sym('conn.stream_negotiation_completed', 32))
            if v is not True or was is True:
                continue
            evs = st.events('notify')
            ok = any(ev.event == C for ev in evs)
            if not ok and any(ev.event == RC for ev in evs):
                ok = truth(st, getf(e, st, '_xmpp_conn_t', CONN, 'is_raw')) is True
            rep.check('completed-set', ok, fn, fn, 'stream_negotiation_completed is set in %s without CONNECT' % fn, fn)


def open_rules(rep, P):
    """which open handler an accepted attempt starts with"""
    for fn, raw, want in (('xmpp_connect_client', False, 'auth_handle_open'), ('xmpp_connect_component', False, 'auth_handle_component_open'), ('xmpp_connect_raw', None, 'auth_handle_open_stub')):
        def su(e, st, raw=raw):
            attempt_setup()(e, st)
            if raw is False:
                setf(e, st, '_xmpp_conn_t', CONN, 'is_raw', 0)
        e, ps = run_conn(rep, P, fn, setup=su)
        k = 0
        for st in ps:
            if st.status != 'done' or truth(st, st.ret) is not False:
                continue
            k += 1
            pr = st.events('prepare_reset')
            got = pr[-1].fn.name if pr and isinstance(pr[-1].fn, Fn) else None
            rep.check('open-handler', got == want, fn, fn, '%s starts with %s' % (fn, got), fn)
            ty = eqc(st, getf(e, st, '_xmpp_conn_t', CONN, 'type'), P.enums['XMPP_COMPONENT' if 'component' in fn else 'XMPP_CLIENT'])
            rep.check('open-handler', ty is True, fn + ':type', fn, '%s leaves the wrong connection type' % fn, fn)
        if not k:
            raise AnalysisBroken('%s never succeeds' % fn)
        if raw is None:
            for st in ps:
                if st.status == 'done' and truth(st, st.ret) is not False:
                    v = getf(e, st, '_xmpp_conn_t', CONN, 'is_raw')
                    same = truth(st, v) is False or st.norm(v) == Sym('conn.is_raw', 32)
                    rep.check('open-handler', same, fn + ':refused', fn, 'a refused raw connect leaves the object in raw mode', fn)
    # raw mode ends with the connection
    def su2(e, st):
        attempt_setup(sm=True)(e, st)
        sm = Sym('sm0', tag='nonnull')
        setf(e, st, '_xmpp_conn_t', CONN, 'sm_state', sm, 8)
        st.base_of(sm)[0].stype = '_xmpp_sm_t'
        for f in ('sm_queue.head', 'sm_queue.tail'):
            setf(e, st, '_xmpp_sm_t', sm, f, 0, 8)
    e, ps = run_conn(rep, P, 'conn_disconnect', [CONN], conn_models(keep=('conn_disconnect',)), setup=su2)
    for st in ps:
        if st.status == 'done' and st.events('notify'):
            rep.check('open-handler', truth(st, getf(e, st, '_xmpp_conn_t', CONN, 'is_raw')) is False, 'conn_disconnect', 'conn_disconnect', 'raw mode survives the end of the connection', 'conn_disconnect')
