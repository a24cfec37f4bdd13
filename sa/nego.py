"""Negotiation analysis: discovers the negotiation handlers from their
registrations, summarises each one under an arbitrary connection state, and
offers the classified events to the per-property rules."""
import re
from proto import *

NS = {'tls': 'urn:ietf:params:xml:ns:xmpp-tls', 'sasl': 'urn:ietf:params:xml:ns:xmpp-sasl', 'bind': 'urn:ietf:params:xml:ns:xmpp-bind',
      'session': 'urn:ietf:params:xml:ns:xmpp-session', 'sm': 'urn:xmpp:sm:3', 'auth': 'jabber:iq:auth',
      'compress': 'http://jabber.org/protocol/compress', 'fcompress': 'http://jabber.org/features/compress',
      'streams': 'http://etherx.jabber.org/streams', 'estreams': 'urn:ietf:params:xml:ns:xmpp-streams', 'stanzas': 'urn:ietf:params:xml:ns:xmpp-stanzas'}

MECHNAME = {'PLAIN': 'PLAIN', 'DIGEST-MD5': 'DIGESTMD5', 'ANONYMOUS': 'ANONYMOUS', 'EXTERNAL': 'EXTERNAL',
            'SCRAM-SHA-1': 'SCRAMSHA1', 'SCRAM-SHA-256': 'SCRAMSHA256', 'SCRAM-SHA-512': 'SCRAMSHA512',
            'SCRAM-SHA-1-PLUS': 'SCRAMSHA1_PLUS', 'SCRAM-SHA-256-PLUS': 'SCRAMSHA256_PLUS', 'SCRAM-SHA-512-PLUS': 'SCRAMSHA512_PLUS'}

CONNF = ('secured', 'tls_mandatory', 'tls_disabled', 'tls_support', 'tls_failed', 'auth_legacy_enabled', 'stream_negotiation_completed',
         'compression.allowed', 'compression.supported', 'bind_required', 'session_required', 'sm_disable')
SMF = ('sm_support', 'sm_enabled', 'can_resume', 'resume', 'dont_request_resume')


def truth(st, v):
    """definitely nonzero / definitely zero / unknown"""
    if v is UNDEF:
        return None
    n = st.isnull(v)
    if n is None:
        x = st.norm(v)
        while isinstance(x, Term) and x.op in ('zext', 'sext') and isinstance(x.args[0], Term):
            x = x.args[0]
        if isinstance(x, Term) and (x.w == 1 or x.op == 'cmp'):
            d = st.eng.decide(st, x)
            return None if d is None else bool(d)
        return None
    return not n


def eqc(st, v, c):
    v = st.norm(v)
    if type(v) is int:
        return v == c
    if isinstance(v, Term):
        return st.facts.eq0(ladd(v, -c))
    return None


def lits(st, pieces):
    """literal text of a pieces tuple when fully known"""
    p = subst(st, pieces)
    if p == ():
        return ''
    if len(p) == 1 and isinstance(p[0], bytes):
        return p[0].decode('latin1')
    return None


def known_text(st, t):
    """(exact literal, case-insensitive literal) known for string term t"""
    x = lits(st, (S(t),))
    if x is not None:
        return x, x.lower()
    ie = st.g.get(('ieq', S(t)))
    return None, ie.decode('latin1') if ie is not None else None


class Nego:
    def __init__(s, rep, config='default', oom=False, cut=('_auth',), prog=None, roots=None, models=None, max_paths=120000):
        s.rep = rep
        s.prog = prog or Program(config)
        P = s.prog
        s.E = P.enums
        m = auth_models(oom)
        if models:
            m.update(models)
        s.cuts = [c for c in cut if P.has(c)]
        for c in s.cuts:
            m[c] = s.cut_model(c)
        s.e = conn_engine(P, m, max_paths=max_paths, max_steps=10 ** 9)
        s.e.indirect = s.indirect
        for k in ('send', 'send_raw', 'handler_add', 'prepare_reset', 'notify', 'tls_start', 'cut', 'open_stream', 'conn_disconnect',
                  'xmpp_disconnect', 'compression_init', 'user-send'):
            s.e.ev_hooks[k] = s.gate
        s.e.store_hooks.append(s.on_store)
        s.watch = {P.off('_xmpp_conn_t', f): f for f in ('sasl_support', 'tls_support', 'secured', 'compression.supported', 'session_required',
                                                         'bind_required', 'stream_negotiation_completed', 'tls_mandatory', 'tls_disabled')}
        s.smwatch = {P.off('_xmpp_sm_t', f): f for f in ('sm_support', 'sm_enabled', 'can_resume', 'sm_handled_nr', 'sm_sent_nr', 'bind')}
        s.monitors = []   # on-line checks of stores to watched fields
        s.reg = {}        # function name -> list of registrations (root, ev, st)
        s.sum = {}        # root name -> list of final states
        s.kind = {}       # root name -> open / stanza / timed
        s.fn = {}

    def indirect(s, e, st, f, a, ins):
        return NotImplemented

    # current values at the moment of an event -----------------------
    def gate(s, st, d):
        e = s.e
        c = d.get('conn')
        if c is None:
            c = CONN
        g = {}
        b = st.base_of(c)
        if b is None:
            d['g'] = g
            return
        b[0].stype = '_xmpp_conn_t'
        for f in CONNF:
            g[f] = truth(st, getf(e, st, '_xmpp_conn_t', c, f))
        g['type'] = st.norm(getf(e, st, '_xmpp_conn_t', c, 'type'))
        g['state'] = st.norm(getf(e, st, '_xmpp_conn_t', c, 'state'))
        g['bits'] = st.norm(getf(e, st, '_xmpp_conn_t', c, 'sasl_support'))
        g['client'] = eqc(st, g['type'], s.E['XMPP_CLIENT'])
        sm = getf(e, st, '_xmpp_conn_t', c, 'sm_state', 8)
        if isinstance(st.norm(sm), (Term, Ptr)) and st.isnull(sm) is not True:
            o = st.base_of(sm)
            if o:
                if o[0].stype is None:
                    o[0].stype = '_xmpp_sm_t'
                for f in SMF:
                    g[f] = truth(st, getf(e, st, '_xmpp_sm_t', sm, f))
        d['g'] = g

    def cut_model(s, name):
        def m(e, st, a, ins):
            if not st.frames or (len(st.frames) == 1 and st.g.get('#entry')):
                pass
            st.ev('cut', fn=name, conn=a[0])
            # the summary of the cut function is analysed on its own: everything it may change is forgotten
            o = st.base_of(a[0])
            if o:
                w = st.wobj(o[0].id)
                for f, off in list(s.watch.items()):
                    pass
            return None
        return m

    def on_store(s, st, o, off, sz, val):
        if type(off) is not int or not s.monitors:
            return
        if o.stype == '_xmpp_conn_t' and off in s.watch:
            for m in s.monitors:
                m(st, s.watch[off], st.norm(val))
        elif o.stype == '_xmpp_sm_t' and off in s.smwatch:
            for m in s.monitors:
                m(st, 'sm.' + s.smwatch[off], st.norm(val))

    # discovery -------------------------------------------------------
    def analyse(s, f, kind):
        if f.name in s.sum:
            return s.sum[f.name]
        e = s.e

        def su(st):
            type_conn(e, st)
            st.g['root'] = f.name
        st = CONN
        args = [CONN]
        names = ['stanza', 'ud'] if kind == 'stanza' else ['ud']
        for i, (n, t) in enumerate(f.params[1:]):
            args.append(Sym(names[i] if i < len(names) else 'arg%d' % i, 64 if t.k == 'ptr' else t.w, tag='nonnull' if t.k == 'ptr' else None))
        e.seen = set()
        e.models = s.models_for(f)
        paths = e.start(f, args, su)
        s.rep.engine(e, len(paths))
        s.sum[f.name] = paths
        s.kind[f.name] = kind
        s.fn[f.name] = f
        return paths

    def models_for(s, f):
        m = getattr(s, '_m', None)
        if m is None:
            m = s._m = dict(s.e.models)
        if f.name in s.cuts:
            # inside the cut function itself only recursive calls are cut
            return m
        return m

    def discover(s, roots=('auth_handle_open', 'auth_handle_component_open', 'auth_handle_open_raw', 'auth_handle_open_stub')):
        todo = []
        for r in roots:
            todo.append((s.prog.func(r), 'open'))
        for c in s.cuts:
            todo.append((s.prog.func(c), 'cut'))
        done = set()
        while todo:
            f, kind = todo.pop()
            if f.name in done:
                continue
            done.add(f.name)
            for st in s.analyse(f, kind):
                for ev in st.events('handler_add', 'prepare_reset'):
                    fn = ev.fn
                    if not isinstance(fn, Fn) or fn.f is None:
                        continue
                    if ev.kind == 'prepare_reset':
                        k = 'open'
                    else:
                        k = 'timed' if ev.how == 'timed' else 'stanza'
                    s.reg.setdefault(fn.name, []).append((f.name, ev, st))
                    if fn.name not in done:
                        todo.append((fn.f, k))
        return s

    def known_nonnull(s, st):
        """terms the path knows to be non-null"""
        return [t for t in s.terms_in(st) if st.isnull(t) is False]

    def terms_in(s, st):
        out = set()

        def walk(t):
            if isinstance(t, Term) and t not in out:
                out.add(t)
                for a in t.args:
                    walk(a)
            elif isinstance(t, tuple):
                for a in t:
                    walk(a)
        for k in st.facts.terms():
            walk(k)
        return out

    def roles(s, name, **kw):
        """registrations of `name` matching the given fields"""
        return [r for r in s.reg.get(name, []) if all(getattr(r[1], k, None) == v for k, v in kw.items())]

    def by_role(s, **kw):
        out = []
        for n in s.reg:
            if s.roles(n, **kw):
                out.append(n)
        return out

    # classification of what is written -------------------------------
    def classify(s, st, ev):
        if ev.kind == 'send':
            z = ev.stanza
            if z.src is not None:
                return ('copy', z.src)
            ns = z.attrs.get('xmlns')
            n = z.name
            if n == 'starttls':
                return ('starttls',)
            if n == 'auth' and ns == NS['sasl']:
                return ('auth', z.attrs.get('mechanism'))
            if n == 'response' and ns == NS['sasl']:
                return ('response',)
            if n == 'abort' and ns == NS['sasl']:
                return ('abort',)
            if n in ('enable', 'resume', 'a', 'r') and ns == NS['sm']:
                return (n,)
            if n == 'compress':
                return ('compress',)
            if n == 'iq':
                for k in z.kids:
                    kn = k.attrs.get('xmlns') if isinstance(k.attrs, dict) else None
                    if k.src is not None or k.attrs and not isinstance(k.attrs, dict):
                        return ('bind',) if 'bind' in repr(k.src) else ('iq', k.src)
                    if isinstance(k, Snap) and k.name == 'query' and kn == NS['auth']:
                        return ('legacy',)
                    if kn == NS['bind']:
                        return ('bind',)
                    if kn == NS['session']:
                        return ('session',)
                return ('iq',)
            return ('element', n)
        data = ev.data
        if data is None:
            return ('raw', None)
        t = ''.join(p.decode('latin1') if isinstance(p, bytes) else '\x00' for p in data)
        m = re.match(r"\s*<(/?[\w:.-]+)", t)
        n = m.group(1) if m else None
        if n == 'compress':
            return ('compress', t)
        if n == 'handshake':
            return ('handshake',)
        if n == '/stream:stream':
            return ('close',)
        if n and n.split(':')[-1] == 'stream':
            return ('header',)
        if n == 'auth':
            mm = re.search(r"mechanism=['\"]([\w-]+)['\"]", t)
            return ('auth', mm.group(1) if mm else None)
        if n in ('starttls', 'response', 'enable', 'resume', 'a', 'r'):
            return (n,)
        return ('raw', t)

    def sends(s, st):
        for ev in st.events('send', 'send_raw'):
            yield ev, s.classify(st, ev)


def bitval(bits, i):
    """bit i of a sasl_support value: 0/1/symbol"""
    if type(bits) is int:
        return (bits >> i) & 1
    if isinstance(bits, Term) and bits.op == 'bits':
        return bits.args[i]
    return None
