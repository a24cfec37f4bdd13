"""C09: serialisation.  Trees are built through the real API (names of unknown
length, texts and attribute values of unknown bytes); what the renderer leaves
in its buffer is read by an XML reader of its own over the abstract text and
compared with the tree."""
from p_nego import *
from eng import *
from models import content, subst, S, Len, merge, slen
from shapes import alarms
from p_parse import Parse, Reader, CX
from p_jid import btext

NS_CLIENT = b'jabber:client'
MAXN = 1 << 16


class El:
    def __init__(s):
        s.kind = None
        s.data = None
        s.attrs = {}
        s.kids = []

    def clone(s):
        o = El()
        o.kind, o.data, o.attrs = s.kind, s.data, dict(s.attrs)
        o.kids = [k.clone() for k in s.kids]
        return o


def By(name, n):
    """n unknown bytes of a text"""
    return tuple(Sym('%s#%d' % (name, i), 8, tag='byte') for i in range(n))


def cells_of(v):
    """value description -> list of cells, or None when it holds an atom of unknown length"""
    out = []
    for p in v:
        if isinstance(p, bytes):
            out += list(p)
        elif isinstance(p, Term) and p.op == 'sym' and p.w == 8:
            out.append(p)
        else:
            return None
    return out


def pieces_of(v):
    return tuple(App('chr', p) if isinstance(p, Term) and p.op == 'sym' and p.w == 8 else p for p in v)


def V(x):
    return (x,) if isinstance(x, bytes) else tuple(x)


class World(Parse):
    """drives API calls over sets of states"""

    def __init__(s, P):
        Parse.__init__(s, P)
        s.bytes = set()
        s.atoms = set()
        s.n = 0
        s.e.recursion = 8

    def begin(s):
        f = s.P.func('xmpp_stanza_new')
        st = [t for t in s.e.start(f, [CX], lambda st: None) if t.status == 'done' and st_nonnull(t)]
        return st

    def val(s, st, v):
        v = V(v)
        c = cells_of(v)
        for p in v:
            if isinstance(p, Term):
                if p.op == 'sym' and p.w == 8:
                    s.e.assume(st, s.e.icmp(st, 'ne', p, 0, I8), True)
                else:
                    st.facts.assume_range(Len(p), 1, MAXN)
        if c is not None:
            return btext(st, s.e, 'arg', c)
        return s.text(st, 'arg', v)

    def do(s, sts, fn, args, reg=None):
        """args: register names 'r:x', ints, or value descriptions"""
        out = []
        for st in sts:
            st = st.copy()
            a = []
            for x in args:
                if isinstance(x, str):
                    a.append(st.g['r.' + x])
                elif isinstance(x, int) or isinstance(x, Ptr) or isinstance(x, Term):
                    a.append(x)
                elif x is None:
                    a.append(0)
                else:
                    a.append(s.val(st, x))
            rs = s.call(st, fn, a)
            s.n += len(rs)
            for r in rs:
                if r.status == 'done':
                    if reg:
                        r.g['r.' + reg] = r.norm(r.ret)
                    out.append(r)
                elif r.status == 'abort':
                    r.g['aborted'] = fn
                    out.append(r)
        return out


def st_nonnull(t):
    return t.isnull(t.ret) is not True


# ------------------------------------------------------------ the XML reader
ENT = {b'lt': b'<', b'gt': b'>', b'amp': b'&', b'quot': b'"', b'apos': b"'"}


class Malformed(Exception):
    pass


def tokens(ps):
    out = []
    for p in ps:
        if isinstance(p, bytes):
            out += [bytes([x]) for x in p]
        else:
            out.append(p)
    return out


class XmlReader:
    def __init__(s, e, st, ps):
        s.e, s.st = e, st
        s.t = tokens(ps)
        s.i = 0

    def peek(s):
        return s.t[s.i] if s.i < len(s.t) else None

    def next(s):
        x = s.peek()
        if x is None:
            raise Malformed('the text ends early')
        s.i += 1
        return x

    def want(s, b):
        for x in b:
            y = s.next()
            if y != bytes([x]):
                raise Malformed('%r instead of %r' % (y, bytes([x])))

    def data(s, x, forbidden):
        """an unknown byte in character data must not be markup"""
        if isinstance(x, Term) and x.op == 'chr':
            b = x.args[0]
            for c in forbidden:
                if s.e.decide(s.st, s.e.icmp(s.st, 'ne', b, c if c < 128 else c - 256, I8)) != 1:
                    raise Malformed('a byte that may be %r is written as it is' % bytes([c]))
        return x

    def name(s):
        out = []
        while True:
            x = s.peek()
            if x is None or isinstance(x, bytes) and x in (b' ', b'\t', b'\n', b'\r', b'>', b'/', b'=', b'<', b'"', b"'", b'&'):
                break
            if isinstance(x, Term) and x.op == 'chr':
                raise Malformed('unknown byte in a name')
            out.append(s.next())
        if not out:
            raise Malformed('name expected before %r' % (s.peek(),))
        return merge(tuple(out))

    def space(s):
        n = 0
        while s.peek() in (b' ', b'\t', b'\n', b'\r'):
            s.i += 1
            n += 1
        return n

    def entity(s):
        n = b''
        while True:
            x = s.next()
            if x == b';':
                break
            if not isinstance(x, bytes) or len(n) > 8:
                raise Malformed('broken entity')
            n += x
        if n[:2] == b'#x':
            return chr(int(n[2:], 16)).encode()
        if n[:1] == b'#':
            return chr(int(n[1:])).encode()
        if n not in ENT:
            raise Malformed('unknown entity %r' % n)
        return ENT[n]

    def element(s, ns):
        s.want(b'<')
        name = s.name()
        at = {}
        while True:
            sp = s.space()
            x = s.peek()
            if x in (b'>', b'/'):
                break
            if not sp:
                raise Malformed('%r after a name' % (x,))
            k = s.name()
            s.want(b'=')
            q = s.next()
            if q not in (b'"', b"'"):
                raise Malformed('attribute value without quotes')
            v = []
            while True:
                x = s.next()
                if x == q:
                    break
                if x == b'<':
                    raise Malformed('< in an attribute value')
                if x == b'&':
                    v.append(s.entity())
                else:
                    v.append(s.data(x, b'<&' + q))
            if k in at:
                raise Malformed('attribute %r twice' % (k,))
            at[k] = known(s.e, s.st, tuple(v))
        ns = at.pop((b'xmlns',), ns)
        kids = []
        if s.peek() == b'/':
            s.want(b'/>')
            return ('el', name, ns, at, kids)
        s.want(b'>')
        txt = []
        while True:
            x = s.next()
            if x == b'<':
                if txt:
                    kids.append(('text', known(s.e, s.st, tuple(txt))))
                    txt = []
                if s.peek() == b'/':
                    s.i += 1
                    n2 = s.name()
                    s.space()
                    s.want(b'>')
                    if n2 != name:
                        raise Malformed('%s is closed as %s' % (name, n2))
                    return ('el', name, ns, at, kids)
                s.i -= 1
                kids.append(s.element(ns))
            elif x == b'&':
                txt.append(s.entity())
            else:
                txt.append(s.data(x, b'<&'))

    def document(s, ns):
        d = s.element(ns)
        if s.peek() is not None:
            raise Malformed('%r after the element' % (s.t[s.i:s.i + 4],))
        return d


def known(e, st, ps, depth=1):
    """pieces with the bytes that are decided in this state written out"""
    out = []
    for p in subst(st, ps):
        if isinstance(p, Term) and p.op == 'chr':
            b = st.norm(p.args[0])
            if isinstance(b, int):
                p = bytes([b & 255])
            else:
                for c in b'<>&"\'':
                    if e.decide(st, e.icmp(st, 'eq', b, c, I8)) == 1:
                        p = bytes([c])
                        break
        out.append(p)
    out = merge(tuple(out))
    if depth and any(isinstance(p, Term) for p in out):
        # texts found to be equal have one spelling
        d, cls = st.dec, {out}
        eqs = []
        while d:
            d, f, truth, _ = d
            if truth and isinstance(f, tuple) and len(f) == 3 and f[0] == 'streq':
                eqs.append(tuple(known(e, st, x, 0) for x in f[1:]))
        for _ in eqs:
            for q in eqs:
                if cls & set(q):
                    cls |= set(q)
        out = min(cls, key=repr)
    return out


def norm_pieces(e, st, v):
    return known(e, st, pieces_of(v))


def expected(e, st, el, ns):
    """reading of the tree under a default namespace"""
    a = {norm_pieces(e, st, k): norm_pieces(e, st, v) for k, v in el.attrs.items()}
    ns = a.pop((b'xmlns',), ns)
    kids, txt = [], []
    for k in el.kids:
        if k.kind == 'text':
            txt += list(norm_pieces(e, st, k.data))
        else:
            if txt:
                kids.append(('text', known(e, st, tuple(txt))))
                txt = []
            kids.append(expected(e, st, k, ns))
    if txt:
        kids.append(('text', known(e, st, tuple(txt))))
    return ('el', norm_pieces(e, st, el.data), ns, a, kids)


def show(t):
    if t[0] == 'text':
        return 'text%s' % (t[1],)
    return '<%s ns=%s %s %s>' % (t[1], t[2], t[3], [show(k) for k in t[4]])


# ------------------------------------------------------------ tree programs
def script(ops):
    """(fn, args, reg) calls and the resulting python trees"""
    regs = {}
    calls = []
    for o in ops:
        k = o[0]
        if k == 'new':
            regs[o[1]] = El()
            calls.append(('xmpp_stanza_new', [CX], o[1]))
        elif k == 'name':
            regs[o[1]].kind = 'tag'
            regs[o[1]].data = V(o[2])
            calls.append(('xmpp_stanza_set_name', [o[1], V(o[2])], None))
        elif k in ('text', 'textn'):
            regs[o[1]].kind = 'text'
            regs[o[1]].data = V(o[2])
            if k == 'text':
                calls.append(('xmpp_stanza_set_text', [o[1], V(o[2])], None))
            else:
                c = cells_of(V(o[2]))
                calls.append(('xmpp_stanza_set_text_with_size', [o[1], V(o[2]) + (b'tail',), len(c)], None))
        elif k == 'attr':
            regs[o[1]].attrs[V(o[2])] = V(o[3])
            calls.append(('xmpp_stanza_set_attribute', [o[1], V(o[2]), V(o[3])], None))
        elif k in ('ns', 'id', 'type', 'to', 'from'):
            regs[o[1]].attrs[V({'ns': b'xmlns'}.get(k, k.encode()))] = V(o[2])
            calls.append(('xmpp_stanza_set_' + k, [o[1], V(o[2])], None))
        elif k == 'del':
            regs[o[1]].attrs.pop(V(o[2]), None)
            calls.append(('xmpp_stanza_del_attribute', [o[1], V(o[2])], None))
        elif k == 'add':
            regs[o[1]].kids.append(regs[o[2]])
            calls.append(('xmpp_stanza_add_child', [o[1], o[2]], None))
            if len(o) > 3:
                calls.append(('xmpp_stanza_release', [o[2]], None))
        elif k == 'give':
            regs[o[1]].kids.append(regs[o[2]])
            calls.append(('xmpp_stanza_add_child_ex', [o[1], o[2], 0], None))
        elif k == 'rel':
            calls.append(('xmpp_stanza_release', [o[1]], None))
        elif k == 'copy':
            regs[o[1]] = regs[o[2]].clone()
            calls.append(('xmpp_stanza_copy', [o[2]], o[1]))
        elif k == 'clone':
            regs[o[1]] = regs[o[2]]
            calls.append(('xmpp_stanza_clone', [o[2]], o[1]))
        else:
            raise AnalysisBroken('op ' + k)
    return calls, regs


def nodes(spec, pre='n', ops=None):
    """nested description -> ops; spec: ('name', {attrs}, [kids]) or bytes/tuple text"""
    ops = [] if ops is None else ops
    ops.append(('new', pre))
    if spec[0] == '#':
        ops.append(('text', pre, spec[1]))
        return ops
    ops.append(('name', pre, spec[0]))
    for k, v in spec[1]:
        ops.append(('attr', pre, k, v))
    for i, c in enumerate(spec[2]):
        nodes(c, '%s.%d' % (pre, i), ops)
        ops.append(('add', pre, '%s.%d' % (pre, i), 1))
    return ops


def T(*v):
    return ('#', v)


def programs():
    b = lambda n, k=1: By(n, k)
    long_ = lambda n: S(Sym(n, tag='name'))
    X = (b'xmlns', b'urn:a')
    Y = (b'xmlns', b'urn:b')
    C = (b'xmlns', NS_CLIENT)
    out = []

    def add(title, ops, roots=('n',)):
        out.append((title, ops, roots))
    add('a lone element', nodes((b'a', [], [])))
    for k in (0, 1, 2):
        add('text of %d bytes' % k, nodes((b'a', [], [T(*b('t', k))])))
    add('text of %d bytes between letters', nodes((b'a', [], [T(b'x', *(b('t') + (b'y',) + b('u')))])))
    add('value of no bytes', nodes((b'a', [(b'k', ())], [])))
    add('value of two bytes', nodes((b'a', [(b'k', b('t', 2))], [])))
    add('value of a byte before a child', nodes((b'a', [(b'k', (b'p',) + b('t') + (b'q',))], [(b'c', [], [T(*b('u'))])])))
    add('literal specials', nodes((b'a', [(b'k', b'"\'<>&&amp;]]>\xc3\xa4')], [T(b']]><!--&#0;"\'\xe2\x82\xac'), (b'b', [], []), T(b'<b/>')])))
    add('text given with its size', [('new', 'n'), ('name', 'n', b'a'), ('new', 't'), ('textn', 't', b('t', 2)), ('give', 'n', 't')])
    add('text replaced', [('new', 'n'), ('name', 'n', b'a'), ('new', 't'), ('text', 't', b'first one'), ('text', 't', b('t', 1)), ('add', 'n', 't'), ('textn', 't', b'ab')])
    add('adjacent texts and elements', nodes((b'a', [], [T(b'x'), T(*b('t')), (b'b', [], []), (b'c', [], [T(b'1')]), T(b'z')])))
    add('nesting', nodes((b'a', [X], [(b'b', [Y], [(b'c', [X], [(b'd', [], [(b'e', [X], [])])]), (b'f', [Y], [])]), (b'g', [], [(b'h', [X], [])])])))
    add('client namespace at the top', nodes((b'message', [C, (b'to', b'j')], [(b'body', [C], [T(b'x')]), (b'x', [X], [(b'm', [C], [])])])))
    add('client namespace below another', nodes((b'a', [X], [(b'm', [C], [(b'n', [C], []), (b'o', [X], [])])])))
    add('client namespace below none', nodes((b'a', [], [(b'm', [C], [])])))
    add('the same value under another name', nodes((b'a', [X, (b'k', b'urn:b')], [(b'm', [Y, (b'k', b'urn:b')], [(b'o', [(b'k', b'urn:b')], [])])])))
    add('unknown namespace values', nodes((b'a', [(b'xmlns', b('t'))], [(b'm', [(b'xmlns', b('u'))], [])])))
    add('many attributes', nodes((b'a', [(b'k%d' % i, b'v%d' % i) for i in range(19)], [])))
    add('attributes replaced and deleted', nodes((b'a', [(b'k%d' % i, b'v%d' % i) for i in range(10)], [])) + [('attr', 'n', b'k3', b'new'), ('del', 'n', b'k1'), ('del', 'n', b'k9'), ('del', 'n', b'k0'), ('attr', 'n', b'k1', b'again'), ('del', 'n', b'none'), ('ns', 'n', b'urn:z'), ('id', 'n', b'1'), ('to', 'n', b't'), ('from', 'n', b'f'), ('type', 'n', b'y'), ('ns', 'n', b'urn:y'), ('to', 'n', b't2')])
    add('name changed', [('new', 'n'), ('name', 'n', b'first'), ('attr', 'n', b'k', b'v'), ('name', 'n', b'second')])
    add('children released by the parent', nodes((b'a', [], [(b'b', [], [(b'c', [], [T(b'q')])]), (b'd', [], [])])))
    # a copy, and changes on either side
    src = nodes((b'a', [X, (b'k', b('t'))], [(b'b', [Y], [T(b'one'), (b'c', [(b'q', b'r')], []), T(b'two')]), (b'd', [X], []), T(*b('u'))]))
    add('copy', src + [('copy', 'm', 'n')], ('n', 'm'))
    add('copy, the original changes', src + [('copy', 'm', 'n'), ('attr', 'n', b'k', b'other'), ('attr', 'n.0', b'z', b'z'), ('text', 'n.0.0', b'changed'), ('name', 'n.1', b'dd'), ('del', 'n', b'xmlns'), ('new', 'x'), ('name', 'x', b'x'), ('add', 'n', 'x', 1)], ('n', 'm'))
    add('copy, the copy changes', src + [('copy', 'm', 'n'), ('attr', 'm', b'k', b'other'), ('name', 'm', b'mm'), ('del', 'm', b'xmlns'), ('new', 'x'), ('name', 'x', b'x'), ('add', 'm', 'x', 1)], ('n', 'm'))
    add('copy, the original is released', src + [('copy', 'm', 'n'), ('rel', 'n')], ('m',))
    add('copy, the copy is released', src + [('copy', 'm', 'n'), ('rel', 'm')], ('n',))
    add('copy of a child added elsewhere', src + [('copy', 'm', 'n.0'), ('new', 'x'), ('name', 'x', b'x'), ('attr', 'x', b'xmlns', b'urn:b'), ('add', 'x', 'm', 1), ('copy', 'y', 'n.1'), ('add', 'x', 'y', 1)], ('n', 'x'))
    add('copy of a text', [('new', 't'), ('text', 't', b('t')), ('copy', 'u', 't'), ('text', 't', b'gone'), ('new', 'n'), ('name', 'n', b'a'), ('add', 'n', 'u', 1), ('add', 'n', 't', 1)], ('n',))
    # sizes: names of unknown length put every later piece at every position
    add('one name of any length', nodes(((long_('A'),), [], [])))
    add('a name of any length before a value', nodes(((long_('A'),), [(b'k', b'some value')], [])))
    add('a name of any length before a text', nodes(((long_('A'),), [], [T(b'some & text')])))
    add('a name of any length around a child', nodes(((long_('A'),), [], [(b'c', [(b'k', b'v')], [T(b't')]), T(b'u')])))
    add('two names of any length', nodes(((long_('A'),), [X], [((long_('B'),), [], [])])))
    for title, ops, roots in list(out):
        if not any(o[0] == 'copy' for o in ops) and 'any length' not in title:
            out.append((title + ', a copy of it', ops + [('copy', 'm', 'n')], ('m',)))
    return out


KEYS = [b'to', b'id', b'xmlns', b'from', b'type', b'k', b'q', b'z'] + [b'k%d' % i for i in range(19)]


def render_check(rep, W, st, reg, el, title, rule='render'):
    """renders one register and compares"""
    e = W.e
    P = W.P
    st = st.copy()
    ob = st.new_obj('stack', 'out', 16, 'undef')
    rs = W.call(st, 'xmpp_stanza_to_text', [st.g['r.' + reg], Ptr(ob.id, 0), Ptr(ob.id, 8)])
    W.n += len(rs)
    nok = 0
    for r in rs:
        if r.status not in ('done', 'abort'):
            continue
        bad = None
        al = alarms(r) + r.events('oob')
        rep.check('memory', not al, title, 'stanza.c:xmpp_stanza_to_text', str(al[:1]))
        if r.status == 'abort':
            rep.check(rule, False, title, 'stanza.c:xmpp_stanza_to_text', 'aborts')
            continue
        if r.norm(r.ret) != 0:
            rep.check(rule, False, title, 'stanza.c:xmpp_stanza_to_text', 'a tree is not rendered: %s' % (r.norm(r.ret),))
            continue
        p, n = r.norm(e.load_cell(r, r.mem[ob.id], 0, 8, PTR)), r.norm(e.load_cell(r, r.mem[ob.id], 8, 8, I64))
        c = content(r, p) if isinstance(p, Ptr) else None
        if c is None:
            rep.check(rule, False, title, 'stanza.c:xmpp_stanza_to_text', 'what is returned is not a text that is known %s' % (p,))
            global DBG; DBG=(e,r,p)
            continue
        c = known(e, r, c)
        want = r.norm(slen(r, c))
        rep.check('length', e.decide(r, e.icmp(r, 'eq', n, want, I64)) == 1 if not (isinstance(n, int) and isinstance(want, int)) else n == want, title, 'stanza.c:xmpp_stanza_to_text', 'length %s of a text of %s' % (n, want))
        try:
            got = XmlReader(e, r, c).document((NS_CLIENT,))
            exp = expected(e, r, el, (NS_CLIENT,))
            if got != exp:
                bad = 'read back as %s instead of %s' % (show(got), show(exp))
        except Malformed as x:
            bad = 'not well-formed: %s in %s' % (x, c[:8])
        rep.check(rule, bad is None, title, 'stanza.c:_render_stanza_recursive', bad or '')
        nok += 1
    return nok


def dedupe(sts):
    return sts


def run_ops(W, ops):
    calls, regs = script(ops)
    sts = None
    for fn, args, reg in calls:
        if sts is None:
            sts = W.begin()
            for s in sts:
                s.g['r.' + reg] = s.norm(s.ret)
            continue
        sts = W.do(sts, fn, args, reg)
    return sts, regs


def trees(rep, P):
    for title, ops, roots in programs():
        W = World(P)
        sts, regs = run_ops(W, ops)
        n = 0
        for st in sts:
            al = alarms(st) + st.events('oob')
            rep.check('memory', not al, title, 'stanza.c', str(al[:1]))
            if st.status == 'abort':
                rep.check('render', False, title, 'stanza.c:' + st.g.get('aborted', ''), 'aborts')
                continue
            for r in roots:
                n += render_check(rep, W, st, r, regs[r], title)
        rep.engine(W.e, W.n)
        if not n:
            rep.check('render', False, title, 'stanza.c:xmpp_stanza_to_text', 'no tree is rendered')
        if W.e.widened:
            rep.notes.append('%s: widened %s' % (title, sorted(W.e.widened)[:3]))


NS_ST = b'urn:ietf:params:xml:ns:xmpp-stanzas'
NS_SE = b'urn:ietf:params:xml:ns:xmpp-streams'


def tree(spec):
    e = El()
    if spec[0] == '#':
        e.kind, e.data = 'text', spec[1]
        return e
    e.kind, e.data = 'tag', V(spec[0])
    e.attrs = {V(k): V(v) for k, v in spec[1]}
    e.kids = [tree(k) for k in spec[2]]
    return e


def produced(rep, P, title, ops, fn, args, want, rule='helper', also=()):
    """the tree that an API call makes; want None: nothing may be made"""
    W = World(P)
    if ops:
        sts, regs = run_ops(W, ops)
    else:
        sts, regs = W.begin(), {}
    n = 0
    for r in W.do(sts, fn, args, 'res'):
        al = alarms(r) + r.events('oob')
        rep.check('memory', not al, title, 'stanza.c:' + fn, str(al[:1]))
        if r.status == 'abort':
            rep.check(rule, False, title, 'stanza.c:' + fn, 'aborts')
            continue
        n += 1
        null = r.isnull(r.g['r.res']) is True if not isinstance(r.g['r.res'], int) else r.g['r.res'] == 0
        if want is None:
            rep.check(rule, null, title, 'stanza.c:' + fn, 'a stanza is made although there is nothing to address')
        elif null:
            rep.check(rule, False, title, 'stanza.c:' + fn, 'nothing is made')
        else:
            render_check(rep, W, r, 'res', want, title, rule)
            for a in also:
                render_check(rep, W, r, a, regs[a], title + ', the original', rule)
    if not n:
        rep.check(rule, False, title, 'stanza.c:' + fn, 'no path of the call returns')
    rep.engine(W.e, W.n)


def updated(rep, P, title, ops, calls, want, results):
    """calls that change a tree, with the return values expected"""
    W = World(P)
    sts, regs = run_ops(W, ops)
    for (fn, args), res in zip(calls, results):
        sts = W.do(sts, fn, args, 'res')
        for r in sts:
            al = alarms(r) + r.events('oob')
            rep.check('memory', not al, title, 'stanza.c:' + fn, str(al[:1]))
            v = r.norm(r.g.get('r.res', UNDEF))
            ok = (v == 0) == (res == 0) if isinstance(v, int) else False
            rep.check('helper', ok, title, 'stanza.c:' + fn, 'returns %s' % (v,))
    for r in sts:
        render_check(rep, W, r, 'n', want, title, 'helper')
    if not sts:
        rep.check('helper', False, title, 'stanza.c', 'no path of the calls returns')
    rep.engine(W.e, W.n)


SE_NAMES = {
    'BAD_FORMAT': 'bad-format', 'BAD_NS_PREFIX': 'bad-namespace-prefix', 'CONFLICT': 'conflict', 'CONN_TIMEOUT': 'connection-timeout',
    'HOST_GONE': 'host-gone', 'HOST_UNKNOWN': 'host-unknown', 'IMPROPER_ADDR': 'improper-addressing',
    'INTERNAL_SERVER_ERROR': 'internal-server-error', 'INVALID_FROM': 'invalid-from', 'INVALID_ID': 'invalid-id',
    'INVALID_NS': 'invalid-namespace', 'INVALID_XML': 'invalid-xml', 'NOT_AUTHORIZED': 'not-authorized',
    'POLICY_VIOLATION': 'policy-violation', 'REMOTE_CONN_FAILED': 'remote-connection-failed',
    'RESOURCE_CONSTRAINT': 'resource-constraint', 'RESTRICTED_XML': 'restricted-xml', 'SEE_OTHER_HOST': 'see-other-host',
    'SYSTEM_SHUTDOWN': 'system-shutdown', 'UNDEFINED_CONDITION': 'undefined-condition',
    'UNSUPPORTED_ENCODING': 'unsupported-encoding', 'UNSUPPORTED_STANZA_TYPE': 'unsupported-stanza-type',
    'UNSUPPORTED_VERSION': 'unsupported-version', 'XML_NOT_WELL_FORMED': 'not-well-formed'}

ALSO = {}


def helpers(rep, P):
    f, t, i = By('f', 1), By('t', 1), By('i', 1)
    kids = [(b'query', [(b'xmlns', b'urn:q')], [(b'item', [], [])]), T(b'x')]
    cond = lambda name, text=None: (b'error', [(b'type', b'cancel')], [(name, [(b'xmlns', NS_ST)], [])] + ([(b'text', [(b'xmlns', NS_ST)], [T(*text)])] if text is not None else []))
    for title, a in (('all attributes', dict([(b'from', f + (b'@s',)), (b'to', t), (b'id', i), (b'type', b'get'), (b'xmlns', NS_CLIENT)])),
                     ('no id', dict([(b'from', f), (b'to', b'me'), (b'xmlns', b'urn:other')])),
                     ('no to', dict([(b'from', b'you'), (b'id', i), (b'type', b'set')])),
                     ('only from', dict([(b'from', f)]))):
        ops = nodes((b'iq', list(a.items()), kids))
        keep = [(k, v) for k, v in a.items() if k not in (b'from', b'to', b'xmlns')]
        produced(rep, P, 'reply, ' + title, ops, 'xmpp_stanza_reply', ['n'], tree((b'iq', keep + [(b'to', a[b'from'])], [])), also=('n',))
        ke = [(k, v) for k, v in keep if k != b'type'] + [(b'to', a[b'from']), (b'type', b'error')] + ([(b'from', a[b'to'])] if b'to' in a else [])
        produced(rep, P, 'error reply, ' + title, ops, 'xmpp_stanza_reply_error', ['n', (b'cancel',), (b'item-not-found',), None], tree((b'iq', ke, [cond(b'item-not-found')])), also=('n',))
    ops = nodes((b'message', [(b'from', b'you'), (b'to', b'me'), (b'id', b'1')], []))
    ke = [(b'from', b'me'), (b'to', b'you'), (b'id', b'1'), (b'type', b'error')]
    produced(rep, P, 'error reply with text', ops, 'xmpp_stanza_reply_error', ['n', (b'cancel',), (b'conflict',), f + t], tree((b'message', ke, [cond(b'conflict', f + t)])))
    ops = nodes((b'iq', [(b'to', b'me'), (b'id', b'1')], []))
    produced(rep, P, 'reply without sender', ops, 'xmpp_stanza_reply', ['n'], None)
    produced(rep, P, 'error reply without sender', ops, 'xmpp_stanza_reply_error', ['n', (b'cancel',), (b'conflict',), None], None)
    # constructors
    A = lambda **k: [(x.encode(), V(y)) for x, y in k.items() if y is not None]
    for k in range(8):
        ty, to, idv = (b'chat' if k & 1 else None), (t if k & 2 else None), (i if k & 4 else None)
        v = lambda x: V(x) if x is not None else None
        produced(rep, P, 'message %d' % k, [], 'xmpp_message_new', [CX, v(ty), v(to), v(idv)], tree((b'message', A(type=ty, to=to, id=idv), [])))
        if not k & 2:
            produced(rep, P, 'iq %d' % k, [], 'xmpp_iq_new', [CX, v(ty), v(idv)], tree((b'iq', A(type=ty, id=idv), [])))
    produced(rep, P, 'presence', [], 'xmpp_presence_new', [CX], tree((b'presence', [], [])))
    body = (b'body', [], [T(*(f + t))])
    updated(rep, P, 'body set', nodes((b'message', [(b'to', b'you')], [])), [('xmpp_message_set_body', ['n', f + t])], tree((b'message', [(b'to', b'you')], [body])), [0])
    updated(rep, P, 'body set twice', nodes((b'message', [], [(b'x', [], [])])), [('xmpp_message_set_body', ['n', f]), ('xmpp_message_set_body', ['n', (b'zz',)])], tree((b'message', [], [(b'x', [], []), (b'body', [], [T(*f)])])), [0, 1])
    updated(rep, P, 'body of an iq', nodes((b'iq', [], [])), [('xmpp_message_set_body', ['n', f])], tree((b'iq', [], [])), [1])
    # what must not change a tree
    updated(rep, P, 'text into an element', nodes((b'a', [(b'k', b'v')], [])), [('xmpp_stanza_set_text', ['n', (b'zz',)]), ('xmpp_stanza_set_text_with_size', ['n', (b'zz',), 2])], tree((b'a', [(b'k', b'v')], [])), [1, 1])
    updated(rep, P, 'name and attributes for a text', nodes((b'a', [], [])) + [('new', 't'), ('text', 't', b'q'), ('add', 'n', 't')], [('xmpp_stanza_set_name', ['t', (b'zz',)]), ('xmpp_stanza_set_attribute', ['t', (b'k',), (b'v',)])], tree((b'a', [], [T(b'q')])), [1, 1])
    # stream errors
    for k, v in sorted(P.enums.items()):
        if not k.startswith('XMPP_SE_'):
            continue
        nm = SE_NAMES.get(k[8:])
        if nm is None:
            rep.notes.append('no condition name is known for ' + k)
            continue
        nm = ALSO.get(k[8:], nm)
        for text in (None, f):
            want = tree((b'stream:error', [], [(nm.encode(), [(b'xmlns', NS_SE)], [])] + ([(b'text', [(b'xmlns', NS_SE)], [T(*text)])] if text else [])))
            produced(rep, P, 'stream error %s' % nm, [], 'xmpp_error_new', [CX, v, text], want)


def c09(rep):
    P = Program()
    R = rep.rule
    R('render', 'what is rendered reads back as the tree that was built', 40)
    R('helper', 'replies, errors and constructors make the structure that is documented and leave the original alone', 60)
    R('length', 'the reported length is that of the text', 40)
    R('memory', 'no access outside of the buffers or to released memory', 40)
    trees(rep, P)
    helpers(rep, P)
    return 'other', 'trees built through the API with names of unknown length and texts of unknown bytes; the abstract text of the renderer is read by an XML reader and compared with the tree'
