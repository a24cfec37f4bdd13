"""The event loop: xmpp_run_once interpreted over one connection in any state,
a send queue of known shape and any transport behaviour."""
from shapes import *
from scan import *

Q = '_xmpp_send_queue_t'
CTX = Sym('conn.ctx', tag='nonnull')
INTF = ('read', 'write', 'flush', 'pending', 'get_error', 'error_is_recoverable')


class Loop:
    def __init__(s, P, oom=False, extra=None, **kw):
        s.P = P
        E = s.E = P.enums
        m = {}
        m.update(libc())
        m.update(logs())
        m.update(errno_model())
        m.update(Alloc(oom).models())
        for k in ('read', 'write', 'flush', 'pending', 'get_error', 'error_is_recoverable'):
            m['@' + k] = getattr(s, 'i_' + k)
        m['time_stamp'] = s.now
        m['select'] = s.select
        m['handler_fire_timed'] = s.fire_timed
        m['conn_parser_reset'] = event('parser_reset')
        m['parser_feed'] = s.feed
        m['conn_established'] = event('established')
        m['conn_disconnect'] = s.disconnect
        m['conn_disconnect_clean'] = s.disconnect
        m['xmpp_disconnect'] = event('xmpp_disconnect')
        m['xmpp_send_error'] = event('send_error')
        m['trigger_sm_callback'] = event('sm_callback')
        m['sock_connect'] = s.sock_connect
        m['sock_close'] = event('sock_close', 0)
        m['sock_error'] = lambda e, st, a, ins: st.fresh('sockerr', 32)
        m['sock_is_recoverable'] = lambda e, st, a, ins: st.fresh('sockrec', 32)
        m['sock_connect_error'] = s.connect_error
        m['tls_clear_pending_write'] = lambda e, st, a, ins: st.fresh('tlspend', 32)
        m['tls_is_recoverable'] = s.i_error_is_recoverable
        m['tls_error'] = s.tls_error
        m['tls_pending'] = s.i_pending
        m['usleep'] = m['_sleep'] = event('sleep', 0)
        if extra:
            m.update(extra)
        s.e = conn_engine(P, m, max_paths=kw.pop('max_paths', 60000), max_steps=10 ** 9, loopk=kw.pop('loopk', 20), **kw)

    # transport -------------------------------------------------------
    def i_write(s, e, st, a, ins):
        """result: -1 (0 or any error), 0 <= n < len, or len"""
        n = st.norm(a[2])
        k = st.g.get('nwrite', 0)
        st.g['nwrite'] = k + 1
        out = []
        for c in ('err', 'part', 'all'):
            t = st.copy() if c != 'all' else st
            r = Sym('wrote%d' % k, 32, lo=-1 if c == 'err' else 0, hi=(1 << 31) - 1) if c == 'part' else 0xffffffff if c == 'err' else n
            if c == 'part':
                if not e.assume(t, e.icmp(t, 'slt', r, n, I32), True):
                    continue
            t.ev('write', data=t.norm(a[1]), len=n, res=c, ret=r)
            out.append((t, r))
        return out

    def i_read(s, e, st, a, ins):
        st.ev('read', buf=st.norm(a[1]), len=st.norm(a[2]))
        out = []
        n = st.norm(a[2])
        for c in ('err', 'eof', 'data'):
            t = st.copy() if c != 'data' else st
            r = Sym('rd', 32, lo=1, hi=n if type(n) is int else (1 << 31) - 1) if c == 'data' else 0 if c == 'eof' else 0xffffffff
            t.g['read'] = c
            out.append((t, r))
        return out

    def i_flush(s, e, st, a, ins):
        st.ev('flush')
        return st.fresh('flushret', 32)

    def i_pending(s, e, st, a, ins):
        return Sym('pending', 32)

    def i_get_error(s, e, st, a, ins):
        st.ev('get_error')
        return st.fresh('ioerr', 32)

    def i_error_is_recoverable(s, e, st, a, ins):
        k = st.g.get('nrec', 0)
        st.g['nrec'] = k + 1
        r = Sym('recoverable%d' % k, 32)
        st.g['rec'] = r
        st.ev('recov', r=r)
        return r

    def tls_error(s, e, st, a, ins):
        return st.fresh('tlserr', 32)

    # other environment ------------------------------------------------
    def now(s, e, st, a, ins):
        n = st.g.get('nstamp', 0)
        st.g['nstamp'] = n + 1
        t = Sym('now%d' % n, 64, lo=0, hi=1 << 62)
        st.ev('stamp', t=t)
        return t

    def fire_timed(s, e, st, a, ins):
        n = st.g.get('nfire', 0)
        st.g['nfire'] = n + 1
        st.ev('fire_timed', ctx=a[0])
        return Sym('next%d' % n, 64, lo=0, hi=(1 << 64) - 1)

    def select(s, e, st, a, ins):
        tv = st.norm(a[4])
        v = None
        if isinstance(tv, Ptr):
            o, off = st.base_of(tv)
            v = (st.norm(e.load_cell(st, o, off, 8, I64)), st.norm(e.load_cell(st, o, ladd(off, 8), 8, I64)))
        st.ev('select', tv=v, nfds=st.norm(a[0]))
        for p in a[1:4]:
            b = st.base_of(p) if isinstance(st.norm(p), Ptr) else None
            if b:
                w = st.wobj(b[0].id)
                w.cells = {}
                w.default = 'lazy'
                w.name = 'selected>' + w.name
        return Sym('selret', 32)

    def feed(s, e, st, a, ins):
        st.ev('feed', buf=st.norm(a[1]), len=st.norm(a[2]))
        # handlers run inside: the connection may be gone afterwards
        o = st.copy()
        setf(e, o, '_xmpp_conn_t', CONN, 'state', s.E['XMPP_STATE_DISCONNECTED'])
        return [(st, Sym('parsed', 32)), (o, Sym('parsed', 32))]

    def disconnect(s, e, st, a, ins):
        was = st.norm(getf(e, st, '_xmpp_conn_t', a[0], 'state'))
        st.ev('conn_disconnect', was=was, error=st.norm(getf(e, st, '_xmpp_conn_t', a[0], 'error')))
        st.store(e.padd(st, a[0], e.prog.off('_xmpp_conn_t', 'state')), s.E['XMPP_STATE_DISCONNECTED'], 4)
        setf(e, st, '_xmpp_conn_t', a[0], 'tls', 0, 8)

    def sock_connect(s, e, st, a, ins):
        st.ev('sock_connect')
        o = st.copy()
        return [(st, Sym('newsock', 32, lo=0, hi=1023)), (o, 0xffffffff)]

    def connect_error(s, e, st, a, ins):
        st.ev('connect_error')
        o = st.copy()
        r = Sym('soerr', 32, lo=1, hi=4095)
        o.g['soerr'] = True
        return [(st, 0), (o, r)]

    # set-up -------------------------------------------------------------
    def setup(s, st, state=None, queue=0, owners=None, wip0=None, loop=None, sm=None):
        e, P = s.e, s.P
        type_conn(e, st)
        setf(e, st, '_xmpp_conn_t', CONN, 'ctx', CTX, 8)
        st.base_of(CTX)[0].stype = '_xmpp_ctx_t'
        node = st.new_obj('heap', 'connnode', None, 'lazy')
        node.stype = '_xmpp_connlist_t'
        setfield(e, st, '_xmpp_connlist_t', Ptr(node.id, 0), 'conn', CONN)
        setfield(e, st, '_xmpp_connlist_t', Ptr(node.id, 0), 'next', 0)
        setfield(e, st, '_xmpp_ctx_t', CTX, 'connlist', Ptr(node.id, 0))
        if loop is not None:
            setfield(e, st, '_xmpp_ctx_t', CTX, 'loop_status', loop)
        for k in INTF:
            setf(e, st, '_xmpp_conn_t', CONN, 'intf.' + k, Fn('@' + k, None), 8)
        setf(e, st, '_xmpp_conn_t', CONN, 'intf.conn', CONN, 8)
        setf(e, st, '_xmpp_conn_t', CONN, 'sock', Sym('sock', 32, lo=0, hi=1023), 4)
        if state is not None:
            setf(e, st, '_xmpp_conn_t', CONN, 'state', s.E[state])
        setf(e, st, '_xmpp_conn_t', CONN, 'sm_state', Sym('sm', tag='nonnull'), 8)
        st.base_of(Sym('sm', tag='nonnull'))[0].stype = '_xmpp_sm_t'
        st.g['q'] = s.queue(st, queue)

    def queue(s, st, n):
        e = s.e
        els = mkqueue(e, st, n)
        setf(e, st, '_xmpp_conn_t', CONN, 'send_queue_head', els[0] if els else 0, 8)
        setf(e, st, '_xmpp_conn_t', CONN, 'send_queue_tail', els[-1] if els else 0, 8)
        return tuple(els)

    def run(s, rep, **kw):
        ps = s.e.start(s.P.func('xmpp_run_once'), [CTX, Sym('timeout', 64, lo=0, hi=1 << 40)], lambda st: s.setup(st, **kw))
        rep.engine(s.e, len(ps))
        return ps


def mkqueue(e, st, n, pre='q', owner=None, nxt0=0):
    """doubly linked list of n typed queue elements with unknown text"""
    els = [mkobj(e, st, Q, '%s%d' % (pre, i)) for i in range(n)]
    for i, p in enumerate(els):
        L = Sym('%s%d.len' % (pre, i), 64, lo=1, hi=1 << 30)
        txt, t = heapstr(st, '%s%d.text' % (pre, i))
        setfield(e, st, Q, p, 'data', txt)
        st.g[('dataobj', p.obj)] = txt.obj
        setfield(e, st, Q, p, 'next', els[i + 1] if i + 1 < n else 0)
        setfield(e, st, Q, p, 'prev', els[i - 1] if i else 0)
        st.g[('q', '%s%d' % (pre, i))] = p
    return els
