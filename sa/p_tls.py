"""C08: a TLS session is only trusted if the certificate verifies or the user said so."""
from p_nego import *
from eng import *
from models import noop
import scan, re

VERIFY_PEER, NO_PARTIAL, NO_WILD, MULTI, SINGLE_SUB, ALWAYS_SUBJ, NEVER_SUBJ = 1, 4, 2, 8, 16, 1, 32
NO_CHECK_TIME = 0x200000
DOMAIN = Sym('conn.domain', tag='nonnull')
CERT = Sym('certfail', tag='nullable')



GENERIC = r'(SSL|X509|OPENSSL|TLS_|ERR_|EVP_|BIO_|PKCS12|GENERAL|ASN1|sk_|gnutls|i2|d2i|PEM|OBJ_|RAND_)'


def generic(name, w):
    def m(e, st, a, ins):
        r = None
        if ins.ty is not None and ins.ty.k != 'void':
            r = st.fresh('r.' + name, 64 if ins.ty.k == 'ptr' else ins.ty.w, tag='nullable' if ins.ty.k == 'ptr' else None)
        st.ev('lib', fn=name, args=tuple(st.norm(x) for x in a), ret=r)
        return r
    return m


SETTER = re.compile(r'(SSL_(CTX_)?set|X509_VERIFY_PARAM|X509_STORE_(CTX_)?set|SSL_CTX_load|SSL_connect|SSL_do_handshake|gnutls_(certificate_(set|verify)|session_set|handshake))')


def tls_models(P, keep=()):
    m = conn_models()
    for f in ('tls_new', 'tls_start', 'tls_free', 'tls_error') + tuple(keep):
        m.pop(f, None)
    for n in {c for f, ins, c in scan.calls(P) if isinstance(c, str) and not P.has(c) and re.match(GENERIC, c)}:
        m[n] = generic(n, 0)
    m['tls_clear_password_cache'] = noop
    # helpers without a result only report
    setters = {f.name for f, ins, c in scan.calls(P) if isinstance(c, str) and SETTER.match(c)}
    for f in scan.allfuncs(P):
        if f.internal and f.ret.k == 'void' and f.name not in setters and not (set(scan.closure(P, [f.name])) & setters):
            m[f.name] = noop
    for n in ('tls_caching_password_callback', 'tls_get_password', 'usleep', '_try_open_keylogfile'):
        m[n] = generic(n, 0)
    return m


def nonzero(st, v):
    v = st.norm(v) if isinstance(v, Term) else v
    if isinstance(v, (Ptr, Fn)):
        return True
    return truth(st, v)


def libs(st, *names):
    return [x for x in st.events('lib') if x.fn in names]


def new_rules(rep, P, config):
    """what a successful tls_new has set up; the verification callbacks"""
    m = tls_models(P)
    cbs = set()

    def su(e, st):
        setf(e, st, '_xmpp_conn_t', CONN, 'domain', DOMAIN, 8)
    def prep(e):
        e.cutloops = True
        e.field_init[('_xmpp_conn_t', 'domain')] = lambda st, o, nm: DOMAIN
    e, ps = run_conn(rep, P, 'tls_new', [CONN], models=m, setup=su, prep=prep, loopk=2)
    good = 0
    for st in ps:
        if st.status != 'done' or nonzero(st, st.ret) is not True:
            continue
        good += 1
        trust = truth(st, getf(e, st, '_xmpp_conn_t', CONN, 'tls_trust'))
        w = 'tls_new'
        sv = libs(st, 'SSL_set_verify', 'SSL_CTX_set_verify')
        nw = [x for x in libs(st, 'SSL_new')]
        mode, cb = None, None
        # the last of SSL_set_verify counts; that of the context only before SSL_new
        evs = [x for x in st.events('lib') if x.fn in ('SSL_set_verify', 'SSL_CTX_set_verify', 'SSL_new')]
        ctxm = None
        for x in evs:
            if x.fn == 'SSL_CTX_set_verify':
                ctxm = x
            elif x.fn == 'SSL_new':
                mode, cb = (ctxm.args[1], ctxm.args[2]) if ctxm else (0, 0)
            else:
                mode, cb = x.args[1], x.args[2]
        peer = type(mode) is int and bool(mode & VERIFY_PEER)
        if isinstance(cb, Fn):
            cbs.add(cb.name.lstrip('@'))
        if trust is True:
            rep.check('anchors', True, 'trusted', w, '', 'trust flag')
            continue
        rep.check('verify-on', peer, 'mode', w, 'the peer is not verified although the trust flag is not known to be set (mode %s)' % (mode,), 'mode')
        # name
        hosts = libs(st, 'X509_VERIFY_PARAM_set1_host', 'SSL_set1_host', 'SSL_add1_host', 'X509_VERIFY_PARAM_add1_host')
        ok = bool(hosts) and same_domain(st, hosts[-1].args[1]) and all(nonzero(st, x.ret) is True for x in hosts)
        rep.check('name', ok, 'host', w, 'a session is set up without the XMPP domain as the expected name (%s)' % [(x.fn, x.args[1:], nonzero(st, x.ret)) for x in hosts], 'host')
        rep.check('name', nonempty(e, st, DOMAIN), 'empty', w, 'an empty domain matches every certificate', 'empty')
        fl = libs(st, 'X509_VERIFY_PARAM_set_hostflags', 'SSL_set_hostflags')
        f = 0
        for x in fl:
            f = x.args[1]
        okf = type(f) is int and bool(f & (NO_PARTIAL | NO_WILD)) and not f & (MULTI | SINGLE_SUB)
        rep.check('wildcards', okf, 'flags', w, 'names with partial or multi-label wildcards are accepted (flags %s)' % (f,), 'flags')
        # the parameters set are those of the session
        par = [x.args[0] for x in hosts if 'PARAM' in x.fn] + [x.args[0] for x in fl if 'PARAM' in x.fn]
        src = {x.ret for x in libs(st, 'SSL_get0_param', 'SSL_CTX_get0_param')}
        rep.check('name', all(p in src for p in par), 'params', w, 'the expected name is stored in parameters that are not those of the session', 'params')
        # anchors
        caf = [truth(st, getf(e, st, '_xmpp_conn_t', CONN, f, 8)) for f in ('tls_cafile', 'tls_capath')]
        for i, f in enumerate(('tls_cafile', 'tls_capath')):
            v = st.norm(getf(e, st, '_xmpp_conn_t', CONN, f, 8))
            if st.isnull(v) is True or v == 0:
                continue
            ld = [x for x in libs(st, 'SSL_CTX_load_verify_locations', 'SSL_CTX_load_verify_file', 'SSL_CTX_load_verify_dir') if any(st.norm(y) == v for y in x.args[1:]) and nonzero(st, x.ret) is True]
            rep.check('anchors', bool(ld), f, w, 'the configured %s is not loaded' % f, f)
        dv = libs(st, 'SSL_CTX_set_default_verify_paths')
        rep.check('anchors', all(nonzero(st, x.ret) is True for x in dv), 'default', w, 'a failure to load the default anchors is ignored', 'default')
        # nothing that weakens the verification
        bad = libs(st, 'SSL_CTX_set_cert_verify_callback', 'X509_VERIFY_PARAM_set_time', 'X509_VERIFY_PARAM_set_depth', 'SSL_CTX_set_verify_depth', 'SSL_set_verify_depth')
        bad = [x for x in bad if 'depth' not in x.fn or (type(x.args[1]) is int and x.args[1] < 0)]
        for x in libs(st, 'X509_VERIFY_PARAM_set_flags', 'X509_STORE_set_flags'):
            v = x.args[1]
            if type(v) is not int or v & (NO_CHECK_TIME | 0x80000):
                bad.append(x)
        rep.check('weaken', not bad, 'calls', w, 'the verification is weakened by %s' % [x.fn for x in bad], 'calls')
    if not good:
        raise AnalysisBroken('tls_new never succeeds in the abstraction')
    return cbs


def same_domain(st, v):
    return st.norm(v) == st.norm(DOMAIN)


def nonempty(e, st, p):
    """the path knows that the text is not empty"""
    from models import content, slen
    c = content(st, p)
    if c is not None and st.facts.range(st.norm(slen(st, c)))[0] > 0:
        return True
    t = e.load_cell(st, *st.base_of(p)[:1], st.base_of(p)[1], 1, I8)
    return truth(st, t) is True


def callback_rules(rep, P, cbs):
    """a failing certificate is accepted only on a path where the user's callback was asked and accepted it"""
    for cb in sorted(cbs):
        m = tls_models(P)
        PRE = Sym('preverify_ok', 32, lo=0, hi=1)

        def app(e, st, a, ins):
            return CONN
        m['SSL_get_ex_data'] = app
        m['SSL_CTX_get_ex_data'] = app
        m['SSL_get_app_data'] = app
        if P.has('_x509_to_tlscert'):
            m['_x509_to_tlscert'] = lambda e, st, a, ins: st.fresh('tlscert', 64, tag='nullable')
        m['xmpp_tlscert_free'] = noop
        m['@certfail'] = ask
        box = {}

        def prep(e):
            e.indirect = indirect_certfail(P)
        e, ps = run_conn(rep, P, cb, [PRE, Sym('x509ctx', tag='nonnull')], models=m, prep=prep)
        n = 0
        for st in ps:
            if st.status != 'done':
                rep.check('callback', False, cb, cb, '%s' % st.status, cb) if st.status == 'dead' else None
                continue
            n += 1
            pre = truth(st, PRE)
            r = truth(st, st.ret)
            asked = st.events('asked')
            if pre is True:
                rep.check('callback', r is not None and not (r is False) or True, cb + ':good', cb, '', 'good')
                continue
            ok = r is False or any(truth(st, x.ret) is True for x in asked) or any(st.norm(x.ret) == st.norm(st.ret) for x in asked)
            ok = ok and not any(truth(st, x.ret) is False for x in asked if r is not False)
            rep.check('callback', ok, cb, cb, 'a certificate that failed the verification is accepted %s' % ('without asking the user' if not asked else 'against the answer of the user'), 'bad')
            er = libs(st, 'X509_STORE_CTX_set_error')
            rep.check('callback', not er or r is False or ok, cb + ':error', cb, 'the result of the verification is overwritten', 'error')
        if not n:
            raise AnalysisBroken('%s has no path' % cb)


def ask(e, st, a, ins):
    r = st.fresh('accepted', 32)
    st.ev('asked', ret=r)
    return r


def indirect_certfail(P):
    def f(e, st, fv, a, ins):
        # the only function pointer called here is the user's
        if isinstance(fv, Term):
            r = st.fresh('accepted', 32)
            st.ev('asked', ret=r, fn=fv)
            return r
        return NotImplemented
    return f


def handshake_rules(rep, P, names):
    """success is reported only after the library has"""
    m = tls_models(P)
    T = Sym('tls.session', tag='nonnull')

    def prep(e):
        e.cutloops = True
    e, ps = run_conn(rep, P, 'tls_start', [T], models=m, prep=prep, loopk=3)
    n = 0
    for st in ps:
        if st.status != 'done':
            continue
        hs = libs(st, *names)
        r = truth(st, st.ret)
        last = hs[-1].ret if hs else None
        if r is not False:
            n += 1
            ok = last is not None and (st.facts.range(st.norm(last))[0] > 0 or names == ('gnutls_handshake',) and truth(st, last) is False)
            rep.check('handshake', ok, 'success', 'tls_start', 'success is reported although the handshake did not succeed', 'success')
        else:
            rep.ok('handshake')
    if not n:
        raise AnalysisBroken('tls_start never succeeds in the abstraction')


def secured_rules(rep, P):
    """secured <=> tls_start succeeded; failure restores the plain transport and reports an error"""
    m = conn_models(keep=('conn_tls_start',))
    m['tls_start'] = m_tls_start_raw
    m['tls_new'] = lambda e, st, a, ins: [(st, Sym('newtls', tag='nonnull')), (note_none(st), 0)]
    m['tls_free'] = noop
    m['tls_error'] = lambda e, st, a, ins: st.fresh('tlserr', 32)

    def su(e, st):
        for f in ('read', 'write', 'flush', 'pending', 'get_error', 'error_is_recoverable'):
            setf(e, st, '_xmpp_conn_t', CONN, 'intf.' + f, Fn('@old_' + f, None), 8)
        setf(e, st, '_xmpp_conn_t', CONN, 'intf.conn', CONN, 8)
        setf(e, st, '_xmpp_conn_t', CONN, 'secured', 0)
        setf(e, st, '_xmpp_conn_t', CONN, 'tls_failed', 0)
        setf(e, st, '_xmpp_conn_t', CONN, 'tls', 0, 8)
    for fn in ('conn_tls_start', 'xmpp_conn_tls_start'):
        e, ps = run_conn(rep, P, fn, [CONN], models=m, setup=su)
        for st in ps:
            if st.status != 'done':
                continue
            hs = bool(st.events('tls_handshake'))
            ok = hs and st.g.get('tls-ok') is True
            r = truth(st, st.ret)
            rep.check('result', r is (not ok), fn, fn, '%s returns %s although the handshake %s' % (fn, st.norm(st.ret), 'succeeded' if ok else 'failed'), str(ok))
            sec = truth(st, getf(e, st, '_xmpp_conn_t', CONN, 'secured'))
            rep.check('secured', sec is ok, fn + ':secured', fn, 'secured is %s after a handshake that %s' % (sec, 'succeeded' if ok else 'failed'), str(ok))
            for f in ('read', 'write'):
                v = st.norm(getf(e, st, '_xmpp_conn_t', CONN, 'intf.' + f, 8))
                old = isinstance(v, Fn) and v.name == '@old_' + f
                rep.check('transport', old is (not ok), fn + ':' + f, fn, 'the %s operation is %s after a handshake that %s' % (f, v, 'succeeded' if ok else 'failed'), f)
            if not ok:
                t = st.norm(getf(e, st, '_xmpp_conn_t', CONN, 'tls', 8))
                rep.check('transport', t == 0, fn + ':tls', fn, 'the session of a failed handshake stays', 'tls')
            # the public answer
            s2 = st.copy()
            e2, qs = run_conn(rep, P, 'xmpp_conn_is_secured', [CONN], models=m, st=s2)
            for q in qs:
                if q.status == 'done':
                    rep.check('secured', truth(q, q.ret) is ok, 'xmpp_conn_is_secured', 'xmpp_conn_is_secured', 'reports %s after a handshake that %s' % (truth(q, q.ret), 'succeeded' if ok else 'failed'), str(ok))


def note_none(st):
    o = st.copy()
    return o


def teardown_rules(rep, P):
    """a failed handshake is followed by the end of the connection, not by more data"""
    from nego import Nego
    n = Nego(rep, prog=P)
    n.discover()
    seen = 0
    for r in sorted(n.sum):
        for st in n.sum[r]:
            if st.status != 'done' or not st.events('tls_start_failed'):
                continue
            seen += 1
            evs = st.events('tls_start_failed', 'send', 'send_raw', 'open_stream', 'prepare_reset', 'handler_add', 'conn_disconnect', 'xmpp_disconnect', 'notify')
            kinds = [x.kind for x in evs]
            i = kinds.index('tls_start_failed')
            after = kinds[i + 1:]
            ok = bool(after) and after[0] in ('conn_disconnect', 'xmpp_disconnect')
            rep.check('teardown', ok, r, r, 'after a failed handshake: %s' % after, r)
    # legacy SSL
    def ts(e, st, a, ins):
        o = st.copy()
        st.ev('tls_start')
        o.ev('tls_start_failed')
        return [(st, 0), (o, st.fresh('tlsrc', 32, lo=-5, hi=-1) if 0 else (-3) & 0xffffffff)]
    m = conn_models()
    m['conn_tls_start'] = ts
    e, ps = run_conn(rep, P, 'conn_established', [CONN], models=m)
    for st in ps:
        if st.status != 'done' or not st.events('tls_start_failed'):
            continue
        seen += 1
        evs = st.events()
        kinds = [x.kind for x in evs]
        after = [k for k in kinds[kinds.index('tls_start_failed') + 1:] if k in ('send', 'send_raw', 'open_stream', 'conn_disconnect', 'xmpp_disconnect', 'notify', 'prepare_reset', 'ext')]
        rep.check('teardown', bool(after) and after[0] in ('conn_disconnect', 'xmpp_disconnect') and not set(after) & {'send', 'send_raw', 'open_stream'}, 'legacy', 'conn_established', 'after a failed handshake: %s' % after, 'legacy')
    if not seen:
        raise AnalysisBroken('no handshake can fail')


def c08(rep):
    P = Program()
    R = rep.rule
    R('verify-on', 'peer verification is on unless the trust flag is set', 4)
    R('name', 'the expected name is the XMPP domain, in the parameters of the session, and setting it cannot fail silently', 4)
    R('wildcards', 'only full-label wildcards are accepted', 2)
    R('anchors', 'the configured anchors are loaded', 4)
    R('weaken', 'nothing weakens the verification', 2)
    R('callback', 'a failing certificate is accepted only if the user accepts it', 3)
    R('handshake', 'tls_start reports success only if the handshake succeeded', 2)
    R('result', 'conn_tls_start reports exactly the result of the handshake', 3)
    R('secured', 'a connection counts as secured exactly after a successful handshake', 4)
    R('transport', 'the TLS transport is used exactly after a successful handshake', 4)
    R('teardown', 'a failed handshake ends the connection', 2)
    cbs = new_rules(rep, P, 'default')
    if not cbs:
        rep.bad('callback', 'none', 'tls_new', 'no verification callback is installed')
    callback_rules(rep, P, cbs)
    handshake_rules(rep, P, ('SSL_connect', 'SSL_do_handshake'))
    tls_start_rules(rep, P)
    secured_rules(rep, P)
    teardown_rules(rep, P)
    return 'other', 'typestate rules over every abstract path of the session set-up, the verification callback, the handshake and its callers'
