"""C14: server discovery.  The cursor over (target, address) candidates is
followed through sock_new, sock_connect and the event loop for every shape of
the answers; what is attempted is compared with the ordered candidate list."""
from itertools import product, permutations
from p_nego import *
from p_loop import *
from eng import *
from models import content, Alloc, S
from shapes import alarms

XS = '_xmpp_sock_t'
RR = 'resolver_srv_rr_struc'
AI = 'addrinfo'
SVC = {'client': 5222, 'legacy': 5223, 'component': 5347}
EINPROGRESS = 115
ALT = Sym('altport', 16, lo=0, hi=65535)
FAILS = ('nosock', 'opt', 'nb', 'refused')


def symname(v):
    return v.args[0] if isinstance(v, Term) and v.op == 'sym' else ''


class Net:
    """resolver, address lookup and sockets with every outcome enumerated.
    cfg: None (SRV lookup fails) or a tuple with, per SRV target, the number
    of addresses (0: its lookup fails).  For cfg None the single synthetic
    target has `addrs` addresses."""

    def __init__(s, P, cfg, addrs=1, full=False):
        s.P, s.cfg, s.addrs, s.full = P, cfg, addrs, full
        m = {}
        m.update(libc())
        m.update(logs())
        m.update(errno_model())
        m.update(Alloc(False).models())
        m.update({'resolver_srv_lookup': s.lookup, 'getaddrinfo': s.gai, 'freeaddrinfo': s.gaifree, 'gai_strerror': event('strerror'),
                  'socket': s.socket, '@sockopt': s.sockopt, 'connect': s.connect, 'sock_set_nonblocking': s.nonblock,
                  'sock_close': s.close, 'close': s.close, 'inet_ntop': event('ntop', 0)})
        s.e = conn_engine(P, m, max_paths=20000, max_steps=10 ** 9, loopk=40)

    def counts(s):
        return (s.addrs,) if s.cfg is None else s.cfg

    def total(s):
        return [(i, j) for i, n in enumerate(s.counts()) for j in range(n)]

    def target(s, st, i):
        return Sym('target%d' % i, tag='input')

    # models ---------------------------------------------------------------
    def lookup(s, e, st, a, ins):
        st.ev('srv', service=content(st, a[1]), proto=content(st, a[2]), domain=st.norm(a[3]))
        out = st.norm(a[4])
        E = s.P.enums
        if s.cfg is None:
            st.store(out, 0, 8)
            return s.notfound
        nxt = 0
        for i in reversed(range(len(s.cfg))):
            p = mkobj(e, st, RR, 'rr%d' % i)
            txt = rrport(i)
            setfield(e, st, RR, p, 'port', txt, 2)
            setfield(e, st, RR, p, 'next', nxt)
            st.g[('rr', p.obj)] = i
            nxt = p
        st.store(out, nxt, 8)
        return s.found

    def which(s, st, p):
        """index of the target whose record holds the name at p"""
        b = st.base_of(p) if isinstance(st.norm(p), (Ptr, Term)) else None
        if b is None:
            return None
        k = st.g.get(('rr', b[0].id))
        if k is not None:
            return k if b[1] == s.P.off(RR, 'target') else None
        if s.cfg is None and b[0].stype != XS:
            return 0
        return None

    def gai(s, e, st, a, ins):
        i = s.which(st, a[0])
        hints = st.norm(a[2])
        fam = flags = None
        if isinstance(hints, Ptr):
            o, off = st.base_of(hints)
            fam = st.norm(e.load_cell(st, o, ladd(off, s.P.off(AI, 'ai_family')), 4, I32))
        n = s.counts()[i] if i is not None else 0
        svc = content(st, a[1])
        st.ev('gai', target=i, service=svc, name=content(st, a[0]), fam=fam)
        if i is not None and st.g.get('gaidone', ()) and i <= max(st.g['gaidone']):
            st.ev('again', target=i)
        st.g['gaidone'] = st.g.get('gaidone', ()) + (i,)
        if n == 0:
            st.store(st.norm(a[3]), Sym('gaijunk', 64, tag='input'), 8)
            return 0xfffffffe
        nxt = 0
        ids = []
        for j in reversed(range(n)):
            p = mkobj(e, st, AI, 'ai%d.%d' % (i, j))
            setfield(e, st, AI, p, 'ai_next', nxt)
            setfield(e, st, AI, p, 'ai_family', (2, 10)[j & 1], 4)
            setfield(e, st, AI, p, 'ai_socktype', Sym('ai%d.%d.type' % (i, j), 32), 4)
            setfield(e, st, AI, p, 'ai_protocol', Sym('ai%d.%d.proto' % (i, j), 32), 4)
            adr = st.new_obj('heap', 'addr%d.%d' % (i, j), None, 'lazy')
            setfield(e, st, AI, p, 'ai_addr', Ptr(adr.id, 0))
            st.put(adr.id, 0, 2, (2, 10)[j & 1])
            ln = Sym('ai%d.%d.len' % (i, j), 32)
            setfield(e, st, AI, p, 'ai_addrlen', ln, 4)
            st.g[('addr', adr.id)] = (i, j)
            ids += [p.obj, adr.id]
            nxt = p
        st.g[('list', nxt.obj)] = tuple(ids)
        st.store(st.norm(a[3]), nxt, 8)
        return 0

    def gaifree(s, e, st, a, ins):
        b = st.base_of(a[0]) if isinstance(st.norm(a[0]), (Ptr, Term)) else None
        if b is None or ('list', b[0].id) not in st.g:
            st.ev('badfree', arg=st.norm(a[0]))
            return None
        for oid in st.g[('list', b[0].id)]:
            if st.mem[oid].freed:
                st.ev('badfree', arg=st.norm(a[0]))
            st.wobj(oid).freed = True
        return None

    def socket(s, e, st, a, ins):
        c = None
        for v in a[1:3]:
            n = symname(st.norm(v))
            if n.startswith('ai') and n.endswith(('.type', '.proto')):
                c = tuple(int(x) for x in n[2:].split('.')[:2])
        n = st.g.get('nsock', 0)
        st.g['nsock'] = n + 1
        first = n == st.g.get('callstart', 0)
        outs = FAILS + ('progress', 'ok') if first or s.full else ('refused', 'progress', 'ok')
        res = []
        for w in outs:
            t = st.copy() if w != outs[-1] else st
            t.ev('attempt', cand=c)
            t.g['outcome'] = w
            t.g['cand'] = c
            fd = 0xffffffff if w == 'nosock' else Sym('fd%d' % n, 32, lo=0, hi=1023)
            t.g['fd'] = fd
            if w == 'nosock':
                s.errno(e, t, 24)
            res.append((t, fd))
        return res

    def errno(s, e, st, v):
        m = errno_model()['__errno_location'](e, st, [], None)
        st.put(m.obj, 0, 4, v)

    def sockopt(s, e, st, a, ins):
        if st.g.get('outcome') == 'opt':
            s.errno(e, st, 92)
            return 0xffffffff
        return 0

    def nonblock(s, e, st, a, ins):
        if st.g.get('outcome') == 'nb':
            s.errno(e, st, 9)
            return 0xffffffff
        return 0

    def connect(s, e, st, a, ins):
        b = st.base_of(a[1]) if isinstance(st.norm(a[1]), (Ptr, Term)) else None
        c = st.g.get(('addr', b[0].id)) if b and b[1] == 0 and not b[0].freed else None
        st.ev('connect', cand=c, fd=st.norm(a[0]), len=st.norm(a[2]))
        w = st.g.get('outcome')
        if w == 'ok':
            return 0
        s.errno(e, st, EINPROGRESS if w == 'progress' else 111)
        return 0xffffffff

    def close(s, e, st, a, ins):
        st.ev('closefd', fd=st.norm(a[0]))
        return 0

    # ------------------------------------------------------------------
    def setup(s, st):
        e = s.e
        type_conn(e, st)
        setf(e, st, '_xmpp_conn_t', CONN, 'ctx', CTX, 8)
        setf(e, st, '_xmpp_conn_t', CONN, 'sockopt_cb', s.cb, 8)


def follow(rep, P, what, cfg, host, addrs=1, full=False, cb=True):
    """one answer configuration from sock_new to exhaustion"""
    N = Net(P, cfg, addrs, full)
    N.found, N.notfound = P.enums['XMPP_DOMAIN_FOUND'], P.enums['XMPP_DOMAIN_NOT_FOUND']
    N.cb = Fn('@sockopt', None) if cb else 0
    e = N.e
    port = ALT
    dom = Sym('domain', 64, tag='nonnull')
    hst = Sym('host', 64, tag='nonnull') if host else 0
    want = N.total()
    k0 = '%s %s' % (what, 'x' if cfg is None else ','.join(map(str, cfg)))
    sts = e.start(P.func('sock_new'), [CONN, dom, hst, port], N.setup)
    new = []
    for st in sts:
        if st.status == 'done' and st.isnull(st.ret) is not True:
            new.append(st)
        for m in alarms(st):
            rep.bad('memory', 'sock_new ' + k0, 'sock.c:sock_new', m.msg if hasattr(m, 'msg') else str(m))
    rep.check('cursor', bool(new), 'new ' + k0, 'sock.c:sock_new', 'no connection attempt object is produced')
    for st in new:
        ev = st.events('srv')
        if host:
            rep.check('bypass', not ev, k0, 'sock.c:sock_new', 'an SRV query is made although the host is given')
        else:
            rep.check('query', len(ev) == 1 and ev[0].service == (b'xmpp-client',) and ev[0].proto == (b'tcp',) and ev[0].domain == dom,
                      k0, 'sock.c:sock_new', 'the SRV query is not for xmpp-client over tcp at the domain')
    cur = [(st, st.ret, ()) for st in new]
    npaths = len(sts)
    seen = set()
    rounds = 0
    while cur and rounds < len(want) + 3:
        rounds += 1
        nxt = {}
        for st0, xs, tried in cur:
            st0 = st0.copy()
            st0.status = 'run'
            st0.g['callstart'] = st0.g.get('nsock', 0)
            nev = len(st0.events('attempt', 'connect', 'gai', 'closefd', 'badfree', 'again'))
            res = e.start(P.func('sock_connect'), [xs], None, st0)
            npaths += len(res)
            for st in res:
                if st.status == 'dead':
                    continue
                for m in alarms(st):
                    rep.bad('memory', 'sock_connect ' + k0, 'sock.c:sock_connect', m.msg if hasattr(m, 'msg') else str(m))
                if st.status != 'done':
                    continue
                evs = st.events('attempt', 'connect', 'gai', 'closefd', 'badfree', 'again')[nev:]
                now = list(tried)
                last = None
                msg = None
                for x in evs:
                    if x.kind == 'attempt':
                        # an attempt is identified by the address it uses
                        now.append(x.cand)
                        if x.cand is None:
                            now[-1] = '?'
                    elif x.kind == 'connect':
                        if now and now[-1] == '?':
                            now[-1] = x.cand
                        if x.cand is None or not now or now[-1] != x.cand:
                            msg = 'connect() is given an address that is not the current candidate\'s'
                        elif x.len != Sym('ai%d.%d.len' % x.cand, 32):
                            msg = 'connect() is given another address\'s length'
                    elif x.kind == 'badfree':
                        rep.bad('memory', 'freeaddrinfo ' + k0, 'sock.c', 'an address list is released twice or is not one')
                    elif x.kind == 'again':
                        msg = msg or 'a target that was already tried is looked up again'
                hist = ' (tried %s of %s)' % (['%s.%s' % c if type(c) is tuple else c for c in now], ['%d.%d' % c for c in want])
                if now != want[:len(now)]:
                    msg = msg or 'candidates are not tried in order'
                w = st.g.get('outcome') if len(now) > len(tried) else None
                fd = st.norm(st.ret)
                valid = not (type(fd) is int and fd == 0xffffffff)
                if msg is None:
                    if w in ('ok', 'progress'):
                        if fd != st.g['fd']:
                            msg = 'an endpoint that accepts (%s) is not used' % w
                    elif not valid:
                        if now != want:
                            msg = 'gives up before all candidates were tried'
                    else:
                        msg = 'reports a connection although the attempt failed'
                    if valid and any(x.kind == 'closefd' and x.fd == fd for x in evs):
                        msg = msg or 'the socket that is returned was closed'
                rep.check('cursor', msg is None, '%s after %d' % (k0, len(tried)), 'sock.c:sock_connect', (msg or '') + hist)
                if msg is None:
                    key = (tuple(now), valid)
                    if valid and key not in nxt:
                        nxt[key] = (st, xs, tuple(now))
                    elif not valid:
                        key = (tuple(now), False)
                        if key not in seen:
                            seen.add(key)
                            nxt[key] = (st, xs, tuple(now))
        cur = list(nxt.values())
    rep.engine(e, npaths)
    rep.check('cursor', (tuple(want), False) in seen, 'end ' + k0, 'sock.c:sock_connect', 'the walk over the candidates never ends')


def names(rep, P, cfg, host, what):
    """the names and ports that are resolved"""
    N = Net(P, cfg, 1)
    N.found, N.notfound = P.enums['XMPP_DOMAIN_FOUND'], P.enums['XMPP_DOMAIN_NOT_FOUND']
    N.cb = 0
    e = N.e
    e.loopk = 4
    port = ALT
    dom = Sym('domain', 64, tag='nonnull')
    hst = Sym('host', 64, tag='nonnull')
    
    sts = [st for st in e.start(P.func('sock_new'), [CONN, dom, hst if host else 0, port], N.setup) if st.status == 'done' and st.isnull(st.ret) is not True]
    fin = []
    for st in sts:
        st.status = 'run'
        fin += [t for t in e.start(P.func('sock_connect'), [st.ret], None, st) if t.status == 'done']
    rep.check('lookup', any(len(st.events('gai')) == len(N.counts()) for st in fin), what, 'sock.c', 'not every target is looked up')
    for st in fin:
        for i, x in enumerate(st.events('gai')):
            p = port if cfg is None else rrport(i)
            got = x.service
            okp = got is not None and len(got) == 1 and getattr(got[0], 'op', '').startswith(('udec', 'dec')) and got[0].args[0] == p
            rep.check('lookup', okp, what + ' port', 'sock.c:sock_getaddrinfo', 'the service looked up is %s, not the candidate\'s port' % (got,))
            if cfg is None:
                w = content(st, hst if host else dom)
                rep.check('lookup', x.name == w or cut_name(x.name, w), what + ' name', 'sock.c:sock_getaddrinfo', 'the name looked up is %s, not %s' % (x.name, w))
            else:
                rep.check('lookup', x.target == i, what + ' name', 'sock.c:sock_getaddrinfo', 'the name looked up is not the target\'s')
            rep.check('lookup', x.fam == 0, what + ' family', 'sock.c:sock_getaddrinfo', 'only addresses of one family are looked up')


def rrport(i):
    return Sym('rr%d.port' % i, 16, lo=0, hi=65535)


def cut_name(a, w):
    """a name too long for DNS cut at 255 bytes or later"""
    return a is not None and len(a) == len(w) == 1 and getattr(a[0], 'op', '') == 'sub' and a[0].args[0] is w[0] and a[0].args[1] == 0 and a[0].args[2] >= 255


# ------------------------------------------------------------------ sorting
def sort_rules(rep, P):
    n_max = 4 if rep.tier == 'thorough' else 3
    for n in range(n_max + 1):
        m = {}
        m.update(libc())
        m.update(logs())
        m.update(Alloc(False).models())

        def raw(e, st, a, ins):
            nxt = 0
            ns = []
            for i in reversed(range(n)):
                p = mkobj(e, st, RR, 'rr%d' % i)
                setfield(e, st, RR, p, 'priority', Sym('prio%d' % i, 16), 2)
                setfield(e, st, RR, p, 'weight', Sym('weight%d' % i, 16), 2)
                setfield(e, st, RR, p, 'next', nxt)
                ns.insert(0, p)
                nxt = p
            st.g['nodes'] = tuple(ns)
            st.store(st.norm(a[3]), nxt, 8)
            return P.enums['XMPP_DOMAIN_FOUND'] if n else P.enums['XMPP_DOMAIN_NOT_FOUND']
        m['resolver_raw_srv_lookup_buf'] = raw
        e = Engine(P, m, max_paths=40000, max_steps=10 ** 9, loopk=30)

        def su(st):
            o = st.new_obj('stack', 'list', 8, 0)
            st.g['out'] = Ptr(o.id, 0)
        done = 0
        ps = e.start(P.func('resolver_srv_lookup_buf'), [CTX, Sym('buf', 64, tag='nonnull'), Sym('len', 64, lo=1, hi=65536), lambda st: st.g['out']], su)
        rep.engine(e, len(ps))
        for st in ps:
            for x in alarms(st):
                rep.bad('memory', 'sort %d' % n, 'resolver.c', str(x))
            if st.status != 'done':
                continue
            done += 1
            o, off = st.base_of(st.g['out'])
            head = st.norm(e.load_cell(st, o, off, 8, PTR))
            lst = walk(e, st, RR, head)
            ns = st.g.get('nodes', ())
            if lst is None or sorted(p.obj for p in lst) != sorted(p.obj for p in ns):
                rep.bad('order', '%d records' % n, 'resolver.c:resolver_srv_list_sort', 'records are lost or duplicated by sorting')
                continue
            idx = [next(i for i, q in enumerate(ns) if q.obj == p.obj) for p in lst]
            bad = None
            for i, j in zip(idx, idx[1:]):
                pa, pb, wa, wb = Sym('prio%d' % i, 16), Sym('prio%d' % j, 16), Sym('weight%d' % i, 16), Sym('weight%d' % j, 16)
                lt = e.decide(st, e.icmp(st, 'ult', pa, pb, I16))
                if lt is True:
                    continue
                # not surely less: must be equal priority and not lighter weight
                t = st.copy()
                if e.assume(t, e.icmp(t, 'ugt', pa, pb, I16), True):
                    bad = 'a record of a higher priority value can come before one of a lower value'
                    break
                t = st.copy()
                if e.assume(t, e.icmp(t, 'eq', pa, pb, I16), True) and e.assume(t, e.icmp(t, 'ult', wa, wb, I16), True):
                    bad = 'a lighter record can come before a heavier one of the same priority'
                    break
            rep.check('order', bad is None, '%d records %s' % (n, idx), 'resolver.c:resolver_srv_list_sort', bad or '')
        rep.check('order', done > 0, '%d records end' % n, 'resolver.c:resolver_srv_list_sort', 'sorting does not terminate')


def query_rules(rep, P):
    """the DNS question and what becomes of a failed query"""
    m = {}
    m.update(libc())
    m.update(logs())
    m.update(Alloc(False).models())
    F, NF = P.enums['XMPP_DOMAIN_FOUND'], P.enums['XMPP_DOMAIN_NOT_FOUND']

    def q(e, st, a, ins):
        st.ev('query', name=content(st, a[0]), cls=st.norm(a[1]), typ=st.norm(a[2]), buf=st.norm(a[3]))
        o = st.copy()
        st.g['answered'] = True
        return [(st, Sym('qlen', 32, lo=1, hi=65536)), (o, 0xffffffff)]

    def buf(e, st, a, ins):
        st.ev('decode', buf=st.norm(a[1]), len=st.norm(a[2]))
        o = st.copy()
        p = mkobj(e, st, RR, 'rr')
        st.store(st.norm(a[3]), p, 8)
        st.g['want'] = p
        o.g['want'] = 0
        return [(st, F), (o, NF)]
    for nm in ('res_query', '__res_query', 'res_nquery', '__res_nquery'):
        m[nm] = q
    m['resolver_srv_lookup_buf'] = buf
    e = Engine(P, m, max_paths=4000, max_steps=10 ** 8)

    def su(st):
        o = st.new_obj('stack', 'list', 8, 'lazy')
        st.g['out'] = Ptr(o.id, 0)
        for k, v in (('svc', b'xmpp-client'), ('prt', b'tcp')):
            o = st.new_obj('stack', k, len(v) + 1, 0)
            put_pieces(st, Ptr(o.id, 0), (v,), nul=True)
            st.g[k] = Ptr(o.id, 0)
    dom = Sym('domain', 64, tag='nonnull')
    ps = e.start(P.func('resolver_srv_lookup'), [CTX, lambda st: st.g['svc'], lambda st: st.g['prt'], dom, lambda st: st.g['out']], su)
    rep.engine(e, len(ps))
    for st in ps:
        if st.status != 'done':
            continue
        for x in alarms(st):
            rep.bad('memory', 'query', 'resolver.c', str(x))
        o, off = st.base_of(st.g['out'])
        head = st.norm(e.load_cell(st, o, off, 8, PTR))
        qs, ds = st.events('query'), st.events('decode')
        r = st.norm(st.ret)
        for x in qs:
            nm = merge((b'_xmpp-client._tcp.',) + content(st, dom))
            ok = x.name is not None and merge(x.name) in (nm, merge(nm + (b'.',))) or truncated(x.name)
            rep.check('query', ok and x.cls == 1 and x.typ == 33, 'question', 'resolver.c:resolver_srv_lookup', 'the question is %s class %s type %s' % (x.name, x.cls, x.typ))
        if r == F:
            rep.check('query', bool(ds) and head == st.g.get('want'), 'answer', 'resolver.c:resolver_srv_lookup', 'success is reported without the decoded list')
        else:
            rep.check('query', st.isnull(head) is True, 'failure', 'resolver.c:resolver_srv_lookup', 'a failed lookup leaves a list behind')
            rep.check('query', not (ds and st.g.get('want') != 0), 'answer lost', 'resolver.c:resolver_srv_lookup', 'a decoded answer is dropped')
        rep.check('query', bool(ds) or not st.g.get('answered'), 'answer ignored', 'resolver.c:resolver_srv_lookup', 'an answer is not decoded')
        for x in ds:
            rep.check('query', bool(qs) and x.buf == qs[0].buf and same(x.len, 'qlen'), 'decoded bytes',
                      'resolver.c:resolver_srv_lookup', 'what is decoded is not the answer')


def same(v, name):
    return name in str(v)


def truncated(nm):
    return nm is not None and any(isinstance(x, Term) and getattr(x, 'op', '') in ('prefix', 'sub') for x in nm)


# ------------------------------------------------------------- entry points
def entry_rules(rep, P):
    E = P.enums
    for fn, kind in (('xmpp_connect_client', 'client'), ('xmpp_connect_component', 'component')):
        f = P.func(fn)
        for legacy in (0, 1):
            for alt in (0, 1):
                if kind == 'component' and not alt:
                    continue
                m = conn_models(keep=())
                m['sock_new'] = ev_sock_new
                m['xmpp_jid_domain'] = lambda e, st, a, ins: jid_domain(e, st, a)
                m['sock_connect'] = m_conn
                m['xmpp_conn_get_flags'] = lambda e, st, a, ins: st.fresh('flags', 64)
                m['xmpp_conn_set_flags'] = set_flags
                m['_conn_reset'] = event('reset')
                m['conn_prepare_reset'] = event('prepared')
                altd = Sym('altdomain', 64, tag='nonnull') if alt else 0
                ap = ALT

                def su(e, st):
                    setf(e, st, '_xmpp_conn_t', CONN, 'tls_legacy_ssl', legacy)
                    setf(e, st, '_xmpp_conn_t', CONN, 'jid', Sym('jid', 64, tag='nonnull'), 8)
                    getf(e, st, '_xmpp_conn_t', CONN, 'state')
                e, ps = run_conn(rep, P, fn, [CONN, altd, ap, Sym('cb', 64, tag='nonnull'), Sym('ud', 64)], m, su)
                key = '%s legacy=%d alt=%d' % (fn, legacy, alt)
                n = 0
                for st in ps:
                    if st.status != 'done':
                        continue
                    r = st.norm(st.ret)
                    ns = st.events('sock_new')
                    sc = st.events('sockconn')
                    dis = st.events('sock_free', 'sock_new')
                    s0 = Sym('conn.state', 32)
                    was = e.decide(st, e.icmp(st, 'eq', state0(e, st), E['XMPP_STATE_DISCONNECTED'], I32))
                    if was == 0 or (was is None and r != 0 and not sc):
                        if was == 0:
                            rep.check('refuse', not dis and not sc and r != 0, key, 'conn.c:' + fn, 'the candidate list of a connection in use is replaced')
                        elif dis and was is None and r == einvop(P):
                            rep.bad('refuse', key, 'conn.c:' + fn, 'the candidate list is replaced before the state is known')
                        continue
                    for x in ns:
                        n += 1
                        dflt = SVC['component'] if kind == 'component' else SVC['legacy'] if legacy else SVC['client']
                        z = e.decide(st, e.icmp(st, 'eq', ap, 0, I16))
                        wp = dflt if z == 1 else ap if z == 0 else None
                        rep.check('port', wp is not None and x.port == wp, '%s %s' % (key, 'default' if z else 'given'), 'conn.c:' + fn,
                                  'port %s is used where %s is documented' % (x.port, wp))
                        if kind == 'component' or alt:
                            wh = altd
                            rep.check('bypass', x.host == wh, key, 'conn.c:' + fn, 'the given host is not used (%s)' % x.host)
                        elif legacy:
                            rep.check('bypass', st.isnull(x.host) is False and x.host == x.domain, key, 'conn.c:' + fn, 'legacy SSL does not connect to the domain itself')
                        else:
                            rep.check('bypass', st.isnull(x.host) is True, key, 'conn.c:' + fn, 'SRV lookup is bypassed without a given host')
                        if kind == 'client':
                            rep.check('bypass', isinstance(x.domain, Ptr) and st.g.get('domobj') == x.domain.obj, key + ' domain', 'conn.c:' + fn,
                                      'the domain looked up is not the JID\'s')
                    bad = None
                    if len(sc) > 1:
                        bad = 'more than one connection is opened'
                    if sc and sc[-1].xs != ns[-1].ret:
                        bad = 'another candidate list is used'
                    if type(r) is int and r == 0:
                        if not sc or not sc[-1].ok:
                            bad = 'success is reported without a connection attempt in progress'
                        elif st.norm(getf(e, st, '_xmpp_conn_t', CONN, 'state')) != E['XMPP_STATE_CONNECTING']:
                            bad = 'the attempt is not being watched'
                        elif st.norm(getf(e, st, '_xmpp_conn_t', CONN, 'sock')) != sc[-1].fd:
                            bad = 'another socket is watched'
                        elif not stamped(st, getf(e, st, '_xmpp_conn_t', CONN, 'timeout_stamp', 8)):
                            bad = 'the attempt is not timed from its start'
                    elif sc and sc[-1].ok:
                        bad = 'failure is reported although an attempt is in progress'
                    elif sc and st.norm(getf(e, st, '_xmpp_conn_t', CONN, 'state')) == E['XMPP_STATE_CONNECTING']:
                        bad = 'failure is reported for a connection left connecting'
                    rep.check('report', bad is None, key, 'conn.c:' + fn, bad or '')
                rep.check('port', n > 0, key + ' reached', 'conn.c:' + fn, 'no path opens a connection')


def set_flags(e, st, a, ins):
    st.ev('flags')
    setf(e, st, '_xmpp_conn_t', CONN, 'tls_disabled', 1)
    return 0


def einvop(P):
    return 0xfffffffe


def stamped(st, v):
    v = st.norm(v)
    return symname(v).startswith('now')


def state0(e, st):
    return Sym('conn.state', 32)


def ev_sock_new(e, st, a, ins):
    r = st.fresh('xsock', 64, tag='nonnull')
    st.ev('sock_new', domain=st.norm(a[1]), host=st.norm(a[2]), port=st.norm(a[3]), ret=r)
    return r


def jid_domain(e, st, a):
    p, _ = heapstr(st, 'jid.domain')
    st.g['domobj'] = p.obj
    return p


def m_conn(e, st, a, ins):
    o = st.copy()
    fd = Sym('newsock', 32, lo=0, hi=1023)
    st.ev('sockconn', xs=st.norm(a[0]), ok=True, fd=fd)
    o.ev('sockconn', xs=o.norm(a[0]), ok=False, fd=0xffffffff)
    return [(st, fd), (o, 0xffffffff)]


# ------------------------------------------------------------- event loop
def loop_rules(rep, P):
    E = P.enums
    pos = []

    def sc(e, st, a, ins):
        o = st.copy()
        fd = Sym('newsock', 32, lo=0, hi=1023)
        st.ev('next', ok=True, xs=st.norm(a[0]))
        o.ev('next', ok=False, xs=o.norm(a[0]))
        return [(st, fd), (o, 0xffffffff)]

    def est(e, st, a, ins):
        st.ev('established', sock=st.norm(getf(e, st, '_xmpp_conn_t', CONN, 'sock')))
    L = Loop(P, extra={'sock_connect': sc, 'conn_established': est})
    ps = L.run(rep, state='XMPP_STATE_CONNECTING', queue=0, loop=E['XMPP_LOOP_RUNNING'] if 'XMPP_LOOP_RUNNING' in E else None)
    e = L.e
    n = {}
    for st in ps:
        if st.status != 'done':
            continue
        nx = st.events('next')
        ce = st.events('connect_error')
        dc = st.events('conn_disconnect')
        es = st.events('established')
        err = bool(st.g.get('soerr'))
        state = st.norm(getf(e, st, '_xmpp_conn_t', CONN, 'state'))
        sock = st.norm(getf(e, st, '_xmpp_conn_t', CONN, 'sock'))
        bad = None
        stamp0 = Sym('conn.timeout_stamp', 64)
        lim = e.cast(st, 'zext', getf(e, st, '_xmpp_conn_t', CONN, 'connect_timeout'), I32, I64)
        xs0 = getf(e, st, '_xmpp_conn_t', CONN, 'xsock', 8)
        # what the loop learnt: timed out, late failure, accepted
        evs = st.events('next', 'conn_disconnect', 'connect_error', 'stamp', 'sock_close', 'established', 'select')
        timed = st.events('stamp')
        first = next((i for i, x in enumerate(evs) if x.kind == 'select'), len(evs))
        pre = [x for x in evs[:first]]
        post = [x for x in evs[first:]]
        late = expired(e, st, pre, stamp0, lim)
        if late == 1:
            n['timeout'] = n.get('timeout', 0) + 1
            if not any(x.kind == 'next' for x in pre):
                bad = 'an attempt that timed out is not followed by the next candidate'
        elif late == 0 and any(x.kind == 'next' for x in pre):
            bad = 'the candidate is given up before the time limit'
        if any(x.kind == 'connect_error' for x in post):
            k = next(i for i, x in enumerate(post) if x.kind == 'connect_error')
            if err:
                n['late'] = n.get('late', 0) + 1
                if not any(x.kind == 'next' for x in post[k:]):
                    bad = bad or 'an attempt that failed late is not followed by the next candidate'
                if es:
                    bad = bad or 'a failed attempt is taken for a connection'
            else:
                n['ok'] = n.get('ok', 0) + 1
                if not es or any(x.kind == 'next' for x in post[k:]):
                    bad = bad or 'an endpoint that accepted is not used'
        elif es:
            bad = bad or 'the outcome of the attempt is not examined'
        for i, x in enumerate(evs):
            if x.kind == 'conn_disconnect':
                nn = [y for y in evs[:i] if y.kind == 'next']
                if not nn or nn[-1].ok:
                    bad = bad or 'failure is reported while candidates remain'
        for i, x in enumerate(evs):
            if x.kind == 'next' and not x.ok and not any(y.kind == 'conn_disconnect' for y in evs[i:]):
                bad = bad or 'exhaustion of the candidates is not reported'
            if x.kind == 'next' and x.xs != xs0:
                bad = bad or 'the next candidate comes from another list'
        if nx and nx[-1].ok and not es:
            if state != E['XMPP_STATE_CONNECTING'] or sock != st.norm(Sym('newsock', 32, lo=0, hi=1023)):
                bad = bad or 'the next attempt is not being watched'
            elif not stamped(st, getf(e, st, '_xmpp_conn_t', CONN, 'timeout_stamp', 8)):
                bad = bad or 'the next attempt is not timed from its start'
        if es and es[0].sock != sock:
            bad = bad or 'another socket is established'
        rep.check('loop', bad is None, 'run_once connecting', 'event.c:xmpp_run_once', bad or '')
    for k in ('timeout', 'late', 'ok'):
        rep.check('loop', n.get(k, 0) > 0, 'reached ' + k, 'event.c:xmpp_run_once', 'no path of the event loop handles %s' % k)


def expired(e, st, pre, stamp0, lim):
    """whether the time limit had passed when the loop looked first, as decided on the path"""
    for x in pre:
        if x.kind == 'next':
            break
        if x.kind == 'stamp':
            el = lsub(x.t, stamp0)
            for p, a, b, pos in (('ule', el, lim, 0), ('ugt', el, lim, 1), ('ult', lim, el, 1), ('uge', lim, el, 0), ('ult', el, lim, 0)):
                d = e.decide(st, e.icmp(st, p, a, b, I64))
                if d is not None and not (p == 'ult' and pos == 0 and not d):
                    return d if pos else 1 - d
    return None


def late_rules(rep, P):
    m = {}
    m.update(libc())
    m.update(logs())

    def errno(e, st, a, ins):
        if '@errno' not in st.mem:
            errno_model()['__errno_location'](e, st, [], None)
        return Ptr('@errno', 0)
    m['__errno_location'] = errno

    def seterr(e, st, v):
        errno(e, st, [], None)
        st.put('@errno', 0, 4, v)

    def peer(e, st, a, ins):
        st.ev('peer', fd=st.norm(a[0]))
        out = []
        for k in ('connected', 'notconn', 'other'):
            t = st.copy() if k != 'other' else st
            t.g['peer'] = k
            if k == 'notconn':
                seterr(e, t, 107)
            elif k == 'other':
                seterr(e, t, Sym('peererr', 32, lo=1, hi=106))
            out.append((t, 0 if k == 'connected' else 0xffffffff))
        return out

    def recv(e, st, a, ins):
        st.ev('recv', fd=st.norm(a[0]))
        seterr(e, st, Sym('recverr', 32, lo=1, hi=133))
        return 0xffffffff
    m['getpeername'] = peer
    m['recv'] = recv
    m['getsockopt'] = lambda e, st, a, ins: (st.store(st.norm(a[3]), Sym('recverr', 32, lo=1, hi=133) if st.g.get('peer') != 'connected' else 0, 4), 0)[1]
    e = Engine(P, m, max_paths=1000, max_steps=10 ** 8)
    fd = Sym('fd', 32, lo=0, hi=1023)
    ps = e.start(P.func('sock_connect_error'), [fd], lambda st: None)
    rep.engine(e, len(ps))
    for st in ps:
        if st.status != 'done':
            continue
        for x in alarms(st):
            rep.bad('memory', 'sock_connect_error', 'sock.c', str(x))
        pr = st.events('peer')
        if not pr:
            rep.notes.append('sock_connect_error does not ask for the peer: not judged')
            rep.ok('late', 'other method')
            continue
        k = st.g['peer']
        z = e.decide(st, e.icmp(st, 'eq', st.norm(st.ret), 0, I32))
        rep.check('late', z == (1 if k == 'connected' else 0), 'sock_connect_error ' + k, 'sock.c:sock_connect_error',
                  'a socket that is %s is reported as %s' % (k, st.ret))
        rep.check('late', all(x.fd == fd for x in st.events('peer', 'recv')), 'socket ' + k, 'sock.c:sock_connect_error', 'another socket is examined')


def limit_rules(rep, P):
    """the time an attempt is given"""
    E = P.enums
    m = {}
    m.update(libc())
    m.update(logs())
    m.update(Alloc(False).models())
    m['parser_new'] = lambda e, st, a, ins: st.fresh('parser', 64, tag='nonnull')
    m['xmpp_conn_set_flags'] = event('flags', 0)
    e = conn_engine(P, m, max_paths=2000, max_steps=10 ** 8)

    def su(st):
        st.base_of(CTX)[0].stype = '_xmpp_ctx_t'
        setfield(e, st, '_xmpp_ctx_t', CTX, 'connlist', 0)
    ps = e.start(P.func('xmpp_conn_new'), [CTX], su)
    rep.engine(e, len(ps))
    n = 0
    for st in ps:
        if st.status != 'done' or st.isnull(st.ret) is True:
            continue
        n += 1
        v = getfield(e, st, '_xmpp_conn_t', st.ret, 'connect_timeout')
        rep.check('limit', v == 5000, 'xmpp_conn_new', 'conn.c:xmpp_conn_new', 'an attempt is given %s ms instead of 5 s' % v)
    rep.check('limit', n > 0, 'reached', 'conn.c:xmpp_conn_new', 'no connection object is produced')
    for fn, ws in sorted(writers(P, '_xmpp_conn_t', 'connect_timeout').items()):
        rep.check('limit', fn == 'xmpp_conn_new' or not P.func(fn).internal, 'writer ' + fn, ws[0], 'the time limit is changed internally')


def c14(rep):
    P = Program()
    R = rep.rule
    R('cursor', 'the addresses tried are those of the targets in order, none skipped, repeated or left out before giving up', 30)
    R('memory', 'no access outside of the lists, no list used after its release', 0)
    R('query', 'the SRV query is for _xmpp-client._tcp at the domain; its decoded answer is used', 4)
    R('lookup', 'each target is looked up under its own name and port, for any address family', 6)
    R('order', 'SRV records are ordered by ascending priority, heavier first', 4)
    R('bypass', 'a given host, legacy SSL and components bypass SRV; otherwise SRV of the JID domain is used', 4)
    R('port', 'the documented default port is used when none is given', 6)
    R('refuse', 'a connection in use keeps its candidates', 2)
    R('report', 'failure is returned only when the candidates are exhausted, success only with an attempt in progress', 4)
    R('loop', 'the event loop moves on after a time-out or a late failure and reports only exhaustion', 4)
    R('limit', 'an attempt is given 5 seconds', 2)
    R('late', 'an attempt that did not connect is recognised as failed', 3)
    thorough = rep.tier == 'thorough'
    cfgs = [c for k in range(1, (5 if thorough else 4)) for c in product((0, 1, 2), repeat=k)]
    cfgs += [(3,), (3, 1), (0, 0, 0, 1), (0, 0, 0, 0, 2)]
    for c in cfgs:
        follow(rep, P, 'srv', c, False, full=thorough and sum(c) <= 4)
    for host in (False, True):
        for k in (0, 1, 2, 3):
            follow(rep, P, 'host' if host else 'fallback', None, host, k, full=True)
    names(rep, P, (1, 1), False, 'srv')
    names(rep, P, None, False, 'fallback')
    names(rep, P, None, True, 'host')
    sort_rules(rep, P)
    query_rules(rep, P)
    entry_rules(rep, P)
    loop_rules(rep, P)
    late_rules(rep, P)
    limit_rules(rep, P)
    return 'other', 'explicit enumeration of answer shapes with unknown contents; the candidate cursor is followed through every outcome of every attempt'
