"""C10: from expat's callbacks to stanzas.  Documents are sequences of
callback events with unknown text; the tree that is delivered is compared with
the tree of the document for every way of splitting its text."""
from p_nego import *
from p_loop import *
from eng import *
from models import content, Alloc, S, heap_str, merge, put_pieces, subst, slen, Len
from shapes import alarms, chain
from p_jid import str_models

CX = Sym('pctx', tag='nonnull')
SEPS = None


def m_strncat(e, st, a, ins):
    d = content(st, a[0])
    n = st.norm(a[2])
    c = content(st, a[1], n)
    if c is None or d is None:
        st.ev('opaque-copy', args=tuple(a))
        return a[0]
    put_pieces(st, e.padd(st, a[0], slen(st, d)), c, True)
    return a[0]


def m_stpcpy(e, st, a, ins):
    c = content(st, a[1])
    put_pieces(st, a[0], c, True)
    return e.padd(st, a[0], slen(st, c))


def fn_name(v):
    return v.name.lstrip('@') if isinstance(v, Fn) else None


class Parse:
    def __init__(s, P, resetfail=False):
        s.P = P
        m = str_models({})
        for k in ('parser_new', 'parser_reset', 'xmpp_stanza_release', 'xmpp_stanza_new'):
            m.pop(k, None)
        for k in list(m):
            if k.startswith(('xmpp_stanza', 'xmpp_conn', 'hash_', 'handler_')):
                del m[k]
        m.update(logs())
        m['strncat'] = m_strncat
        m['stpcpy'] = m_stpcpy
        m['XML_ParserCreate_MM'] = lambda e, st, a, ins: s.create(e, st, a, 2)
        m['XML_ParserCreateNS'] = lambda e, st, a, ins: s.create(e, st, a, 1)
        m['XML_ParserCreate'] = lambda e, st, a, ins: s.create(e, st, a, None)
        m['XML_ParserReset'] = s.xreset
        m['XML_ParserFree'] = event('xfree')
        m['XML_SetUserData'] = s.ud
        m['XML_SetElementHandler'] = s.els
        m['XML_SetStartElementHandler'] = lambda e, st, a, ins: s.seth(st, start=a[1])
        m['XML_SetEndElementHandler'] = lambda e, st, a, ins: s.seth(st, end=a[1])
        m['XML_SetCharacterDataHandler'] = lambda e, st, a, ins: s.seth(st, chars=a[1])
        m['XML_SetReturnNSTriplet'] = event('triplet')
        m['XML_Parse'] = s.parse
        m['@opencb'] = s.opened
        m['@closecb'] = s.closed
        m['@stanzacb'] = s.stanza
        s.e = Engine(P, m, max_paths=60000, max_steps=10 ** 9, loopk=200, bounds=True)
        s.resetfail = resetfail

    # expat ------------------------------------------------------------
    def create(s, e, st, a, sep):
        h = Sym('expat', tag='nonnull')
        v = None
        if sep == 1:
            v = st.norm(a[1])
        elif sep == 2 and st.isnull(a[2]) is not True:
            o, off = st.base_of(a[2])
            v = st.norm(e.load_cell(st, o, off, 1, I8))
        st.ev('xcreate', sep=v)
        for k in ('start', 'end', 'chars', 'ud'):
            st.g['h.' + k] = None
        return h

    def xreset(s, e, st, a, ins):
        st.ev('xreset')
        for k in ('start', 'end', 'chars', 'ud'):
            st.g['h.' + k] = None
        return 1

    def ud(s, e, st, a, ins):
        st.g['h.ud'] = st.norm(a[1])

    def els(s, e, st, a, ins):
        s.seth(st, start=a[1], end=a[2])

    def seth(s, st, **kw):
        for k, v in kw.items():
            st.g['h.' + k] = v

    def parse(s, e, st, a, ins):
        st.ev('xparse', text=content(st, a[1], st.norm(a[2])), ptr=st.norm(a[1]), len=st.norm(a[2]), final=st.norm(a[3]))
        o = st.copy()
        o.g['xfail'] = True
        return [(st, 1), (o, 0)]

    # the owner ----------------------------------------------------------
    def strlist(s, e, st, p):
        out = []
        p = st.norm(p)
        if st.isnull(p) is True:
            return ()
        o, off = st.base_of(p)
        while True:
            v = st.norm(e.load_cell(st, o, off, 8, PTR))
            if st.isnull(v) is True:
                return tuple(out)
            out.append(content(st, v))
            off = ladd(off, 8)
            if len(out) > 20:
                return None

    def opened(s, e, st, a, ins):
        st.g['out'] = st.g.get('out', ()) + (('open', content(st, a[0]), s.strlist(e, st, a[1]), st.norm(a[2])),)

    def closed(s, e, st, a, ins):
        st.g['out'] = st.g.get('out', ()) + (('close', content(st, a[0])),)

    def stanza(s, e, st, a, ins):
        st.g['out'] = st.g.get('out', ()) + (('stanza', st.norm(a[0])),)
        return chain(e, st, ins, [(s.P.func('xmpp_stanza_clone'), [st.norm(a[0])])], lambda st: 0)

    # driving ------------------------------------------------------------
    def new(s):
        e = s.e
        res = e.start(s.P.func('parser_new'), [CX, Fn('@opencb', None), Fn('@closecb', None), Fn('@stanzacb', None), Sym('owner', 64, tag='nonnull')], lambda st: None)
        out = []
        for st in res:
            if st.status == 'done' and st.isnull(st.ret) is not True:
                st.g['parser'] = st.ret
                out.append(st)
        return out

    def call(s, st, fn, args):
        st = st.copy()
        st.status = 'run'
        f = s.P.func(fn) if isinstance(fn, str) else fn
        return [t for t in s.e.start(f, args, None, st)]

    def text(s, st, name, pieces, nul=True):
        o = heap_str(st, tuple(pieces), name)
        o.where = 'input'
        return Ptr(o.id, 0)

    def handler(s, st, k):
        f = st.g.get('h.' + k)
        return s.P.func(fn_name(f)) if isinstance(f, Fn) else None

    def step(s, st, tok):
        """one callback; [(state)]"""
        e = s.e
        st = st.copy()
        ud = st.g.get('h.ud')
        if tok[0] == 'S':
            f = s.handler(st, 'start')
            nm = s.text(st, 'nsname', tok[1])
            arr = st.new_obj('heap', 'attrs', 8 * (2 * len(tok[2]) + 1), 'undef')
            arr.where = 'input'
            i = 0
            for k, v in tok[2]:
                st.put(arr.id, i, 8, s.text(st, 'an', k))
                st.put(arr.id, i + 8, 8, s.text(st, 'av', v))
                i += 16
            st.put(arr.id, i, 8, 0)
            args = [ud, nm, Ptr(arr.id, 0)]
        elif tok[0] == 'E':
            f = s.handler(st, 'end')
            args = [ud, s.text(st, 'nsname', tok[1])]
        elif tok[0] == 'T':
            f = s.handler(st, 'chars')
            L = Len(S(tok[1]))
            st.facts.assume_range(L, 1, 1 << 20)
            # not terminated: exactly the bytes of the chunk
            o = st.new_obj('heap', 'chunk', st.norm(L), 'undef')
            o.where = 'input'
            put_pieces(st, Ptr(o.id, 0), (S(tok[1]),))
            args = [ud, Ptr(o.id, 0), st.norm(L)]
        elif tok[0] == 'R':
            f = s.P.func('parser_reset')
            args = [st.g['parser']]
        if f is None or (tok[0] != 'R' and ud is None):
            st.status = 'abort'
            st.g['msg'] = 'no handler is registered for %s' % tok[0]
            return [st]
        return s.call(st, f, args)


# ------------------------------------------------------------ documents
SEP = bytes([0x1f])


def el(name, ns=None, attrs=()):
    return name, ns, attrs


def nsn(name, ns, sep):
    return (ns + sep + name,) if ns else (name,)


def doc_tokens(sep):
    """[(title, tokens)]; tokens carry plain (name, ns)"""
    def St(n, ns=None, **a):
        return ('S', n, ns, tuple(a.items()))

    def En(n, ns=None):
        return ('E', n, ns)

    def T(*names):
        return tuple(('T', Sym(x, tag='input')) for x in names)
    C = b'jabber:client'
    head = St(b'stream', b'http://etherx.jabber.org/streams', id=b'I', version=b'1.0')
    docs = []

    def mixed(k, pre=''):
        n = iter('%st%d' % (pre, i) for i in range(99))

        def tx(j):
            return T(*[next(n) for _ in range(j)])
        a, b, c, d = k
        return (St(b'message', C, to=b'V1', id=b'V2'),) + tx(a) + (St(b'body', C),) + tx(b) + (En(b'body', C),) + tx(c) + \
            (St(b'x', b'urn:x', node=b'V3'), St(b'y'), En(b'y')) + tx(d) + (En(b'x', b'urn:x'), En(b'message', C))
    for k in ((0, 1, 0, 0), (0, 2, 0, 0), (0, 3, 0, 0), (1, 1, 1, 1), (2, 0, 2, 0), (0, 2, 1, 1), (1, 2, 0, 2), (0, 5, 0, 0)):
        docs.append(('text %d/%d/%d/%d' % k, (head,) + mixed(k) + (St(b'presence', C), En(b'presence', C), En(b'stream', b'http://etherx.jabber.org/streams'))))
    docs.append(('whitespace between stanzas', (head,) + T('w0') + mixed((0, 1, 0, 0)) + T('w1', 'w2') + (St(b'iq', C, type=b'Q'),) + (En(b'iq', C),)))
    docs.append(('nested', (head, St(b'a', C), St(b'b', C), St(b'c', C), St(b'd', b'urn:d'),) + T('n0') + (En(b'd', b'urn:d'),) + T('n1', 'n2') + (En(b'c', C),) + T('n3') +
                 (En(b'b', C), St(b'e', C), En(b'e', C), En(b'a', C))))
    docs.append(('many attributes', (head, ('S', b'iq', C, tuple((b'k%d' % i, b'W%d' % i) for i in range(9))), En(b'iq', C))))
    docs.append(('namespaced attribute', (head, ('S', b'iq', C, ((b'a', b'W1'), ((b'http://www.w3.org/XML/1998/namespace', b'lang'), b'W2'))), En(b'iq', C))))
    docs.append(('siblings', (head, St(b'a', C)) + sum([(St(b'i%d' % i, C), En(b'i%d' % i, C)) for i in range(4)], ()) + (En(b'a', C), St(b'b', C)) + T('s0') + (En(b'b', C),)))
    docs.append(('empty stream', (head, En(b'stream', b'http://etherx.jabber.org/streams'))))
    base = mixed((0, 2, 1, 1), 'r')
    again = (head,) + mixed((0, 1, 0, 0), 'z') + (St(b'presence', C), En(b'presence', C))
    full = (head,) + base
    for i in range(len(full) + 1):
        docs.append(('restart after %d' % i, full[:i] + (('R',),) + again))
    docs.append(('double restart', full[:4] + (('R',), ('R',)) + again))
    return docs


class Node:
    def __init__(s, name=None, attrs=None, text=None):
        s.name, s.attrs, s.text, s.kids = name, attrs or {}, text, []

    def show(s):
        if s.text is not None:
            return ('text', s.text)
        return (s.name, tuple(sorted(s.attrs.items())), tuple(k.show() for k in s.kids))


def reference(toks):
    """what an independent reader derives from the token sequence"""
    out = []
    stack = []
    depth = 0

    def val(v):
        return (v,) if v else ()
    for t in toks:
        if t[0] == 'R':
            stack, depth = [], 0
        elif t[0] == 'S':
            at = {}
            for k, v in t[3]:
                if isinstance(k, str):
                    k = k.encode()
                if isinstance(k, tuple):
                    k = k[1]
                at[k] = val(v)
            if depth == 0:
                out.append(('open', (t[1],)))
            else:
                if t[2]:
                    at[b'xmlns'] = (t[2],)
                n = Node((t[1],), at)
                if stack:
                    stack[-1].kids.append(n)
                stack.append(n)
            depth += 1
        elif t[0] == 'T':
            if depth >= 2:
                k = stack[-1].kids
                if k and k[-1].text is not None:
                    k[-1].text = k[-1].text + (S(t[1]),)
                else:
                    k.append(Node(text=(S(t[1]),)))
        elif t[0] == 'E':
            depth -= 1
            if depth == 0:
                out.append(('close',))
            else:
                n = stack.pop()
                if not stack:
                    out.append(('stanza', n.show()))
    return out


def concrete(t, sep):
    """token as expat reports it"""
    if t[0] == 'S':
        at = []
        for k, v in t[3]:
            if isinstance(k, str):
                k = k.encode()
            at.append((nsn(k[1], k[0], sep) if isinstance(k, tuple) else (k,), (v,)))
        return ('S', nsn(t[1], t[2], sep), at)
    if t[0] == 'E':
        return ('E', nsn(t[1], t[2], sep))
    return t


class Reader:
    """reads a tree back through the public accessors"""

    def __init__(s, X, attrnames):
        s.X, s.names = X, attrnames

    def api(s, st, fn, *args):
        r = [t for t in s.X.call(st, fn, list(args)) if t.status == 'done']
        if len(r) != 1:
            return st, None
        return r[0], r[0].norm(r[0].ret)

    def lit(s, st, b):
        return s.X.text(st, 'key', (b,))

    def read(s, st, p, depth=0):
        if depth > 12:
            return 'cyclic'
        st, tx = s.api(st, 'xmpp_stanza_is_text', p)
        if tx is None:
            return 'opaque'
        if s.X.e.decide(st, s.X.e.icmp(st, 'ne', tx, 0, I32)):
            st, q = s.api(st, 'xmpp_stanza_get_text_ptr', p)
            c = content(st, q)
            return ('text', merge(c) if c is not None else None)
        st, q = s.api(st, 'xmpp_stanza_get_name', p)
        name = content(st, q) if q is not None else None
        at = {}
        for k in s.names:
            st = st.copy()
            st, v = s.api(st, 'xmpp_stanza_get_attribute', p, s.lit(st, k))
            if v is None:
                return 'opaque'
            if st.isnull(v) is not True:
                at[k] = content(st, v)
        st, n = s.api(st, 'xmpp_stanza_get_attribute_count', p)
        if n != len(at):
            return 'has %s attributes, not %d' % (n, len(at))
        kids = []
        st, k = s.api(st, 'xmpp_stanza_get_children', p)
        while k is not None and st.isnull(k) is not True:
            kids.append(s.read(st, k, depth + 1))
            st, par = s.api(st, 'xmpp_stanza_get_parent', k) if s.X.P.has('xmpp_stanza_get_parent') else (st, p)
            if par != p:
                kids.append('child with another parent')
            st, k = s.api(st, 'xmpp_stanza_get_next', k)
            if len(kids) > 30:
                return 'cyclic'
        return (merge(name) if name is not None else None, tuple(sorted(at.items())), tuple(kids))


def documents(rep, P):
    X0 = Parse(P)
    sts = X0.new()
    rep.check('registered', len(sts) > 0, 'parser_new', 'parser_expat.c:parser_new', 'no parser is produced')
    sep = None
    for st in sts:
        cr = st.events('xcreate')
        sep = cr[-1].sep if cr else None
        ok = type(sep) is int and (1 <= sep & 255 < 0x20 and sep & 255 not in (9, 10, 13) or sep & 255 >= 0xf8 or sep & 255 == 0x7f and False)
        rep.check('registered', ok, 'separator', 'parser_expat.c:parser_reset', 'the separator %r can occur in a namespace or a name' % sep)
        rep.check('registered', not st.events('triplet'), 'triplet', 'parser_expat.c', 'names carry prefixes')
        for k in ('start', 'end', 'chars'):
            rep.check('registered', isinstance(st.g.get('h.' + k), Fn), k, 'parser_expat.c:parser_reset', 'no handler is registered for %s' % k)
        rep.check('registered', st.g.get('h.ud') is not None, 'userdata', 'parser_expat.c:parser_reset', 'the handlers are called without the parser')
    if type(sep) is not int:
        return
    sep = bytes([sep & 255])
    names = [b'to', b'id', b'xmlns', b'node', b'type', b'a', b'lang'] + [b'k%d' % i for i in range(9)]
    for title, toks in doc_tokens(sep):
        X = Parse(P)
        cur = X.new()
        bad = None
        n = 0
        for i, t in enumerate(toks):
            nxt = []
            for st in cur:
                rs = X.step(st, concrete(t, sep))
                n += len(rs)
                for r in rs:
                    rep.check('memory', not alarms(r) and not r.events('oob'), title, 'parser_expat.c', str((alarms(r) + r.events('oob'))[:1]))
                    if r.status == 'abort':
                        bad = bad or r.g.get('msg') or 'aborts'
                    if r.status == 'done':
                        nxt.append(r)
            cur = nxt
            if len(cur) > 400:
                cur = cur[:400]
        rep.engine(X.e, n)
        want = reference(toks)
        if not cur and bad is None:
            bad = 'no run of the document ends'
        for st in cur:
            got = st.g.get('out', ())
            if [x[0] for x in got] != [x[0] for x in want]:
                bad = bad or 'events %s instead of %s' % ([x[0] for x in got], [x[0] for x in want])
                break
            rd = Reader(X, names)
            for g, w in zip(got, want):
                if g[0] == 'open':
                    if merge(g[1] or ()) != w[1]:
                        bad = bad or 'the stream is opened as %s' % (g[1],)
                    if g[3] != Sym('owner', 64, tag='nonnull'):
                        bad = bad or 'another owner is told'
                    if g[2] is None or len(g[2]) != 4 or g[2][1] != (b'I',):
                        bad = bad or 'the stream attributes are %s' % (g[2],)
                elif g[0] == 'stanza':
                    r = rd.read(st, g[1])
                    if r != norm_tree(w[1]):
                        bad = bad or 'delivered %s instead of %s' % (brief(r), brief(w[1]))
        rep.check('tree', bad is None, title, 'parser_expat.c', bad or '')


def norm_tree(t):
    if t[0] == 'text':
        return ('text', merge(t[1]))
    return (t[0], t[1], tuple(norm_tree(k) for k in t[2]))


def brief(t):
    if not isinstance(t, tuple):
        return t
    if t and t[0] == 'text':
        return 'text%s' % (t[1],)
    if len(t) == 3:
        return '<%s %s %s>' % (t[0], dict(t[1]), [brief(k) for k in t[2]])
    return t


# ------------------------------------------------------------------ feeding
def feed_rules(rep, P):
    X = Parse(P)
    for st0 in X.new():
        buf = Sym('inbuf', tag='nonnull')
        n = Sym('inlen', 32, lo=1, hi=4096)
        for st in X.call(st0, 'parser_feed', [st0.g['parser'], buf, n]):
            if st.status != 'done':
                continue
            ps = st.events('xparse')
            ok = len(ps) == 1 and ps[0].ptr == buf and ps[0].len == n
            rep.check('feed', ok, 'bytes', 'parser_expat.c:parser_feed', 'the chunk is not handed over exactly once and in full')
            rep.check('feed', all(x.final == 0 for x in ps), 'not final', 'parser_expat.c:parser_feed', 'a chunk is declared to be the last one')
            z = X.e.decide(st, X.e.icmp(st, 'eq', st.norm(st.ret), 0, I32))
            rep.check('feed', z == (1 if st.g.get('xfail') else 0), 'status', 'parser_expat.c:parser_feed', 'the result of parsing is not passed on')
    # the event loop
    E = P.enums

    def feed(e, st, a, ins):
        st.ev('feed', buf=st.norm(a[1]), len=st.norm(a[2]), parser=st.norm(a[0]))
        o = st.copy()
        o.g['bad'] = True
        return [(st, 1), (o, 0)]
    seen = {}
    for flag in (0, 1):
        L = Loop(P, extra={'parser_feed': feed})
        su = L.setup

        def setup(st, **kw):
            su(st, **kw)
            setf(L.e, st, '_xmpp_conn_t', CONN, 'reset_parser', flag)
        L.setup = setup
        for st in L.run(rep, state='XMPP_STATE_CONNECTED', queue=0):
            if st.status != 'done' or not st.events('select', 'sleep', 'read', 'fire_timed'):
                continue
            ev = st.events('read', 'feed', 'parser_reset', 'send_error', 'xmpp_disconnect', 'conn_disconnect')
            rd = [x for x in ev if x.kind == 'read']
            fd = [x for x in ev if x.kind == 'feed']
            rs = [x for x in ev if x.kind == 'parser_reset']
            bad = None
            if len(rs) != flag:
                bad = 'the parser is %s' % ('not restarted with the stream' if flag else 'restarted in the middle of a stream')
            elif flag and rd and ev.index(rs[0]) > ev.index(rd[0]):
                bad = 'bytes of the new stream reach the old parser'
            if st.g.get('read') == 'data':
                seen['data'] = 1
                if len(fd) != 1 or fd[0].buf != rd[-1].buf or fd[0].len != st.norm(Sym('rd', 32)):
                    bad = bad or 'what was read is not fed to the parser exactly once'
                if st.g.get('bad'):
                    seen['error'] = 1
                    if not any(x.kind == 'send_error' for x in ev) or not any(x.kind in ('xmpp_disconnect', 'conn_disconnect') for x in ev):
                        bad = bad or 'a parse error is not reported'
                elif fd and any(x.kind == 'send_error' for x in ev):
                    bad = bad or 'a parse error is reported for valid input'
            elif fd:
                bad = bad or 'the parser is fed without input'
            rep.check('loop', bad is None, 'run_once %d' % flag, 'event.c:xmpp_run_once', bad or '')
    for k in ('data', 'error'):
        rep.check('loop', seen.get(k, 0) > 0, 'reached ' + k, 'event.c:xmpp_run_once', 'no path handles input')


def restart_flag(rep, P):
    m = conn_models()
    m.pop('conn_prepare_reset', None)
    h = Fn('@openh', None)
    e = conn_engine(P, m, max_paths=1000, max_steps=10 ** 7)
    for st in e.start(P.func('conn_prepare_reset'), [CONN, h], lambda st: type_conn(e, st)):
        if st.status == 'done':
            fl = st.norm(getf(e, st, '_xmpp_conn_t', CONN, 'reset_parser'))
            rep.check('restart', type(fl) is int and fl != 0 and st.norm(getf(e, st, '_xmpp_conn_t', CONN, 'open_handler', 8)) == h, 'conn_prepare_reset',
                      'conn.c:conn_prepare_reset', 'a restart is not prepared')
    e = conn_engine(P, m, max_paths=1000, max_steps=10 ** 7)
    for st in e.start(P.func('conn_parser_reset'), [CONN], lambda st: type_conn(e, st)):
        if st.status == 'done':
            fl = st.norm(getf(e, st, '_xmpp_conn_t', CONN, 'reset_parser'))
            rep.check('restart', fl == 0 and len(st.events('parser_reset')) == 1, 'conn_parser_reset', 'conn.c:conn_parser_reset', 'the restart is not carried out once')


# ----------------------------------------------------- strings to stanzas
def from_string(rep, P):
    for k in (0, 1, 2):
        m = str_models({})
        for n in list(m):
            if n.startswith('xmpp_stanza'):
                del m[n]
        m.update(logs())
        got = {}

        def pnew(e, st, a, ins):
            got['cb'] = a[3]
            st.g['ud'] = a[4]
            return Sym('parser', tag='nonnull')

        def pfeed(e, st, a, ins):
            n = st.g.get('nfeed', 0)
            st.g['nfeed'] = n + 1
            st.ev('feed', text=content(st, a[1]), len=st.norm(a[2]), full=slen(st, content(st, a[1]) or ()))
            r = Sym('fed%d' % n, 32, lo=0, hi=1)
            if n == 1 and k:
                cb = P.func(fn_name(got['cb']))
                calls = [(cb, [st.g['s'][i], st.g['ud']]) for i in range(k)]
                return chain(e, st, ins, calls, lambda st: r)
            return r
        m['parser_new'] = pnew
        m['parser_feed'] = pfeed
        m['parser_free'] = event('parser_free')
        m['xmpp_stanza_clone'] = lambda e, st, a, ins: (st.ev('clone', p=st.norm(a[0])), st.norm(a[0]))[1]
        m['xmpp_stanza_copy'] = lambda e, st, a, ins: (st.ev('clone', p=st.norm(a[0])), st.norm(a[0]))[1]
        m['xmpp_stanza_release'] = lambda e, st, a, ins: (st.ev('release', p=st.norm(a[0])), 1)[1]
        e = Engine(P, m, max_paths=2000, max_steps=10 ** 8)
        txt = Sym('xml', tag='nonnull')

        def su(st):
            st.g['s'] = tuple(mkobj(e, st, '_xmpp_stanza_t', 'st%d' % i) for i in range(2))
        ps = e.start(P.func('xmpp_stanza_new_from_string'), [CX, txt], su)
        rep.engine(e, len(ps))
        for st in ps:
            if st.status != 'done':
                continue
            fs = st.events('feed')
            r = st.norm(st.ret)
            okall = all(e.decide(st, e.icmp(st, 'ne', Sym('fed%d' % i, 32, lo=0, hi=1), 0, I32)) for i in range(3)) and len(fs) == 3
            bad = None
            if len(fs) > 1 and (fs[1].text != content(st, txt) or fs[1].len != st.norm(fs[1].full)):
                bad = 'the text is not parsed in full'
            for x in fs:
                if x.len != x.full:
                    bad = bad or 'a part is not parsed in full'
            cl, rl = [x.p for x in st.events('clone')], [x.p for x in st.events('release')]
            held = [p for p in set(cl) if cl.count(p) > rl.count(p)]
            if okall and k:
                if r != st.g['s'][0]:
                    bad = bad or 'the first element is not what is returned'
                elif held != [r]:
                    bad = bad or 'the result is not owned by the caller alone'
            else:
                if st.isnull(r) is not True:
                    bad = bad or 'a stanza is returned for text that is not well-formed' if not okall else 'a stanza out of nothing'
                elif held:
                    bad = bad or 'a stanza of broken text is kept'
            if len(st.events('parser_free')) != 1:
                bad = bad or 'the parser is not released'
            rep.check('string', bad is None, '%d elements' % k, 'stanza.c:xmpp_stanza_new_from_string', bad or '')


# ------------------------------------------------------- stream callbacks
def owner_rules(rep, P):
    m = conn_models()
    cbs = []

    def pnew(e, st, a, ins):
        cbs.append(a[1:4])
        return st.fresh('parser', 64, tag='nonnull')
    mm = dict(libc())
    mm.update(logs())
    mm.update(Alloc(False).models())
    mm['parser_new'] = pnew
    mm['xmpp_conn_set_flags'] = event('flags', 0)
    e = conn_engine(P, mm, max_paths=2000, max_steps=10 ** 8)

    def su0(st):
        st.base_of(CTX)[0].stype = '_xmpp_ctx_t'
        setfield(e, st, '_xmpp_ctx_t', CTX, 'connlist', 0)
    e.start(P.func('xmpp_conn_new'), [CTX], su0)
    if not cbs or not all(isinstance(x, Fn) for x in cbs[0]):
        rep.bad('owner', 'callbacks', 'conn.c:xmpp_conn_new', 'the connection does not listen to its parser')
        return
    start, end, stz = [fn_name(x) for x in cbs[0]]
    ID, LG = b'ID', b'xml:lang'
    sets = [(), ((b'id', 'idv'),), ((b'from', 'fv'), (b'id', 'idv'), (b'version', 'vv')), ((b'version', 'vv'), (b'from', 'fv'))]
    for name in (b'stream', b'html'):
        for at in sets:
            for had in (0, 1):
                m = dict(conn_models())
                for k in ('parser_attr_name',):
                    m[k] = lambda e, st, a, ins: s_copy(e, st, a)
                m['@openh'] = event('open_handler')
                m['_log_open_tag'] = event('logged')

                def su(e, st):
                    setf(e, st, '_xmpp_conn_t', CONN, 'open_handler', Fn('@openh', None), 8)
                    setf(e, st, '_xmpp_conn_t', CONN, 'stream_id', heapstr(st, 'oldid')[0] if had else 0, 8)
                    o = st.new_obj('heap', 'attrs', 8 * (2 * len(at) + 1), 'undef')
                    o.where = 'input'
                    for i, (k, v) in enumerate(at):
                        q = heap_str(st, (k,), 'an')
                        q.where = 'input'
                        st.put(o.id, 16 * i, 8, Ptr(q.id, 0))
                        st.put(o.id, 16 * i + 8, 8, Sym(v, tag='nonnull'))
                    st.put(o.id, 16 * len(at), 8, 0)
                    st.g['at'] = Ptr(o.id, 0)
                    q = heap_str(st, (name,), 'name')
                    q.where = 'input'
                    st.g['nm'] = Ptr(q.id, 0)
                e, ps = run_conn(rep, P, start, [lambda st: st.g['nm'], lambda st: st.g['at'], CONN], m, su)
                for st in ps:
                    if st.status != 'done':
                        continue
                    op = st.events('open_handler')
                    dc = st.events('conn_disconnect', 'xmpp_disconnect')
                    sid = st.norm(getf(e, st, '_xmpp_conn_t', CONN, 'stream_id', 8))
                    bad = None
                    if name == b'stream':
                        if len(op) != 1 or dc:
                            bad = 'an opened stream is not reported once'
                        want = dict(at).get(b'id')
                        if want is None:
                            if st.isnull(sid) is not True:
                                bad = bad or 'a stream without id has the id of another'
                        elif st.isnull(sid) is True or content(st, sid) != content(st, Sym(want, tag='nonnull')):
                            bad = bad or 'the stream id is lost'
                    elif op or not dc:
                        bad = 'something that is not a stream is taken for one'
                    rep.check('owner', bad is None, 'open %s %s' % (name.decode(), len(at)), 'conn.c:' + start, bad or '')
    # stanzas and the end of the stream
    m = dict(conn_models())
    m['handler_fire_stanza'] = lambda e, st, a, ins: st.ev('fired', p=st.norm(a[1]))
    m['xmpp_stanza_to_text'] = lambda e, st, a, ins: to_text(e, st, a)
    m['_conn_sm_handle_stanza'] = event('sm')
    z = Sym('instanza', tag='nonnull')
    e, ps = run_conn(rep, P, stz, [z, CONN], m)
    for st in ps:
        if st.status == 'done':
            fs = st.events('fired')
            rep.check('owner', len(fs) == 1 and fs[0].p == z, 'stanza', 'conn.c:' + stz, 'a stanza is not handed to the handlers exactly once')
    m = dict(conn_models())
    m['conn_disconnect_clean'] = event('closed')
    m['conn_disconnect'] = event('closed')
    m['trigger_sm_callback'] = event('smcb')
    e, ps = run_conn(rep, P, end, [Sym('nm', tag='nonnull'), CONN], m)
    for st in ps:
        if st.status == 'done':
            rep.check('owner', len(st.events('closed')) == 1, 'close', 'conn.c:' + end, 'the end of the stream is not acted upon')


def s_copy(e, st, a):
    c = content(st, a[1])
    return Ptr(heap_str(st, c, 'an').id, 0)


def to_text(e, st, a):
    o = st.copy()
    st.store(st.norm(a[1]), heapstr(st, 'rendered')[0], 8)
    st.store(st.norm(a[2]), Sym('rlen', 64, lo=0, hi=1 << 30), 8)
    return [(st, 0), (o, 0xffffffff)]


def c10(rep):
    P = Program()
    R = rep.rule
    R('registered', 'the handlers are registered with their parser and a separator that no name contains', 6)
    R('tree', 'the tree delivered is that of the document, however its text is split, and a restart leaves nothing behind', 20)
    R('memory', 'no access outside of the buffers or to released memory', 20)
    R('feed', 'each chunk is handed to the XML parser once, in full, and not as the last one', 3)
    R('loop', 'what was read is fed exactly once; restarts precede the new stream; errors are reported', 4)
    R('restart', 'a restart is requested and carried out once', 2)
    R('string', 'a string is parsed in full and yields its first element or nothing', 4)
    R('owner', 'stream opening with its id, stanzas and the end of the stream reach the connection exactly once', 10)
    documents(rep, P)
    feed_rules(rep, P)
    restart_flag(rep, P)
    from_string(rep, P)
    owner_rules(rep, P)
    rep.assumptions.append('expat reports the same element structure for every partition of a document and splits only character data')
    return 'other', 'skeleton documents with unknown text are followed through the registered callbacks; the delivered trees are read back through the accessors'
