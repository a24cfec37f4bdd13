"""Protocol-level analysis harness: abstract summaries of the negotiation
handlers (auth.c and whatever they call), discovered from their registration."""
from models import *


def fnarg(st, v):
    v = st.norm(v)
    return v.name if isinstance(v, Fn) else v


def strcopy(term_of, nullable=True):
    """model: returns a fresh heap copy of the string term_of(content) or NULL"""
    def m(e, st, a, ins):
        t = term_of(st, a)
        if t is None:
            return [(st, UNDEF)] if st.status != 'run' else 0
        p = t if nullable else None
        out = []
        if nullable:
            z = st.facts.eq0(t)
            if z is not False:
                o = st if z else st.copy()
                if o.facts.assume_range(t, 0, 0):
                    note(o, ('null', t), True)
                    out.append((o, 0))
            if z is True or not st.facts.assume_ne(t):
                return out
            note(st, ('null', t), False)
        out.append((st, Ptr(heap_str(st, (S(t),), 'copy').id, 0)))
        return out
    return m


def sterm(st, p):
    """a term naming the string at p"""
    if st.isnull(p) is True:
        return 'NULL'
    c = content(st, p)
    return subst(st, c) if c is not None else p


def jid_part(kind):
    def t(st, a):
        if not deref_ok(st, a[1], kind):
            return None
        return App(kind, sterm(st, a[1]), tag='nullable')
    return strcopy(t)


def b64_encode(e, st, a, ins):
    c = content(st, a[1], st.norm(a[2]))
    t = App('b64', subst(st, c) if c is not None else repr(a[1]))
    return Ptr(heap_str(st, (t,), 'b64').id, 0)


def b64_decode_str(e, st, a, ins):
    if not deref_ok(st, a[1], 'b64dec'):
        return [(st, UNDEF)]
    c = content(st, a[1])
    t = App('unb64', subst(st, c) if c is not None else repr(a[1]), tag='nullable')
    return strcopy(lambda s, _: t)(e, st, a, ins)


def m_conn_disconnect(e, st, a, ins):
    st.ev('conn_disconnect')
    off = e.prog.off('_xmpp_conn_t', 'state')
    st.store(e.padd(st, a[0], off), e.prog.enums['XMPP_STATE_DISCONNECTED'], 4)
    return None


def m_tls_start(e, st, a, ins):
    """conn_tls_start: success (0) sets conn->secured; failure leaves it"""
    st.ev('tls_start')
    o = st.copy()
    off = e.prog.off('_xmpp_conn_t', 'secured')
    st.store(e.padd(st, a[0], off), 1, 4)
    note(st, ('tls_start ok',), True)
    note(o, ('tls_start ok',), False)
    o.ev('tls_start_failed')
    r = o.fresh('tls_err', 32)
    o.facts.assume_ne(r)
    return [(st, 0), (o, r)]


def m_prepare_reset(e, st, a, ins):
    st.ev('prepare_reset', fn=st.norm(a[1]))
    return None


def m_tls_new(e, st, a, ins):
    st.ev('tls_new')
    return st.fresh('tls_new', 64, tag='nullable')


def tls_models():
    return {
        'tls_new': m_tls_new, 'tls_free': event('tls_free'),
        'tls_id_on_xmppaddr': strcopy(lambda st, a: App('xmppaddr', st.norm(a[1]), tag='nullable')),
        'tls_id_on_xmppaddr_num': lambda e, st, a, ins: App('xmppaddr_num', w=32, lo=0, hi=1000),
        'tls_clear_password_cache': noop,
        'tls_init_channel_binding': m_init_cb,
        'tls_get_channel_binding_data': m_get_cb,
    }


def m_init_cb(e, st, a, ins):
    o = st.copy()
    t = Sym('cbtype', tag='nonnull')
    st.store(a[1], t, 8)
    st.store(a[2], Len(S(t)), 8)
    return [(st, 0), (o, 0xffffffff)]


def m_get_cb(e, st, a, ins):
    n = Sym('cblen', 64, lo=0, hi=MAXLEN)
    t = Sym('cbdata', tag='nullable')
    st.store(a[1], n, 8)
    return t


def m_nonce(e, st, a, ins):
    n = st.norm(a[2])
    t = st.fresh('nonce')
    st.ev('nonce', term=t, size=n)
    if type(n) is int and n > 0:
        st.facts.assume_range(Len(S(t)), n - 1, n - 1)
    put_pieces(st, a[1], (S(t),), True)
    return None


def conn_handler_fn():
    return Fn('@conn_handler', None)


def m_notify(e, st, a, ins):
    st.ev('notify', event=st.norm(a[1]), error=st.norm(a[2]), stream_error=st.norm(a[3]), ud=st.norm(a[4]), conn=a[0])
    return None


def auth_models(oom=False):
    m = {}
    m.update(libc())
    m.update(logs())
    m.update(errno_model())
    m.update(hash_models())
    m.update(Alloc(oom).models())
    m.update(STZ.models())
    m.update(handler_models())
    m.update(tls_models())
    m.update({
        'send_stanza': m_send_stanza, 'send_raw': m_send_raw, 'send_raw_string': m_send_raw_string,
        'xmpp_send': m_xmpp_send,
        'conn_disconnect': m_conn_disconnect, 'xmpp_disconnect': event('xmpp_disconnect'),
        'conn_tls_start': m_tls_start, 'conn_prepare_reset': m_prepare_reset,
        'conn_open_stream': event('open_stream'), 'compression_init': event('compression_init', 0),
        'xmpp_jid_node': jid_part('jidnode'), 'xmpp_jid_resource': jid_part('jidresource'),
        'xmpp_jid_bare': jid_part('jidbare'), 'xmpp_jid_domain': jid_part('jiddomain'),
        'xmpp_base64_encode': b64_encode, 'xmpp_base64_decode_str': b64_decode_str,
        'xmpp_rand_nonce': m_nonce,
        'sasl_plain': sasl_term('plain'), 'sasl_digest_md5': sasl_term('digest'), 'sasl_scram': sasl_term('scram'),
        'trigger_sm_callback': event('sm_callback'), '@conn_handler': m_notify,
        'string_to_ul': m_string_to_ul,
    })
    return m


def sasl_term(kind):
    def t(st, a):
        st.ev('sasl_' + kind, args=a)
        return App('sasl_' + kind, *[sterm(st, x) if isinstance(st.norm(x), (Ptr, Term)) else st.norm(x) for x in a[1:]], tag='nullable')
    return strcopy(t)


def m_string_to_ul(e, st, a, ins):
    """0 and *ul = value, or nonzero (text is not an unsigned number)"""
    if not deref_ok(st, a[0], 'string_to_ul'):
        return [(st, UNDEF)]
    c = subst(st, content(st, a[0]) or (st.fresh('ostr'),))
    v = App('ul', c, w=64)
    o = st.copy()
    st.store(a[1], v, 8)
    note(st, ('is-number', c), True)
    note(o, ('is-number', c), False)
    o.store(a[1], App('ulbad', c, w=64), 8)
    r = o.fresh('ul_err', 32)
    o.facts.assume_ne(r)
    return [(st, 0), (o, r)]


CONN = Sym('conn', tag='nonnull')


def conn_engine(prog, models, **kw):
    e = Engine(prog, models, **kw)
    e.field_init[('_xmpp_conn_t', 'conn_handler')] = lambda st, o, nm: conn_handler_fn()
    for f in ('jid', 'pass', 'bound_jid', 'stream_id', 'lang', 'tls', 'stream_error', 'certfail_handler', 'password_callback',
              'sm_state', 'send_queue_head', 'send_queue_tail', 'tls_client_cert', 'tls_client_key', 'tls_cafile', 'tls_capath',
              'compression.state', 'sm_callback', 'sockopt_cb', 'xsock', 'handlers', 'timed_handlers'):
        e.nullable_fields.add(('_xmpp_conn_t', f))
    for f in ('id', 'previd', 'bound_jid', 'bind', 'sm_queue.head', 'sm_queue.tail'):
        e.nullable_fields.add(('_xmpp_sm_t', f))
    e.load_hooks.append(str_byte_hook)
    e.field_init[('_xmpp_conn_t', 'sasl_support')] = mechbits
    return e


MECH = {'PLAIN': 0, 'DIGESTMD5': 1, 'ANONYMOUS': 2, 'SCRAMSHA1': 3, 'SCRAMSHA256': 4, 'SCRAMSHA512': 5, 'EXTERNAL': 6,
        'SCRAMSHA1_PLUS': 7, 'SCRAMSHA256_PLUS': 8, 'SCRAMSHA512_PLUS': 9}


def mechbit(i):
    return Sym('offered.bit%d' % i, 1)


def mechbits(st, o, nm):
    return mkbits([mechbit(i) for i in range(10)] + [0] * 22, 32)


def type_conn(e, st, conn=CONN):
    o, _ = st.base_of(conn)
    o.stype = '_xmpp_conn_t'
    return o


def setf(e, st, struct, ptr, field, val, sz=4):
    st.put(st.base_of(ptr)[0].id, e.prog.off(struct, field), sz, val)


def getf(e, st, struct, ptr, field, sz=4):
    """current value of a field; materialises an input symbol when untouched"""
    o, o0 = st.base_of(ptr)
    ty = {1: I8, 4: I32, 8: PTR}[sz]
    return e.load_cell(st, o, ladd(o0, e.prog.off(struct, field)), sz, ty)


def show(st):
    d = []
    x = st.dec
    while x:
        d.append('%s=%s@%s' % (x[1], x[2], x[3]))
        x = x[0]
    return list(reversed(d))
