"""C19: JID helpers over strings partitioned at their separators."""
from itertools import product
from p_nego import *
from eng import *
from models import content, Alloc, subst, S, Len, heap_str, merge, slen, plen
from shapes import alarms

CTXJ = Sym('jidctx', tag='nonnull')
LIM = 1 << 20


def atoms_of(st, p):
    b = st.base_of(p)
    c = content(st, p)
    return (b, subst(st, c)) if c is not None and b is not None else (b, None)


def known(e, st, t):
    return bool(t) if type(t) is int else e.decide(st, t)


def str_models(clean):
    """string functions over texts made of literal bytes and atoms; clean: atom symbol -> bytes that do not occur in it"""
    m = dict(conn_models())
    m.update(Alloc(False).models())
    for k in list(m):
        if k.startswith('xmpp_jid'):
            del m[k]

    def lacks(p, ch):
        return isinstance(p, Term) and p.op in ('str', 'chr') and ch in clean.get(p.args[0], b'')

    def positions(st, c, want):
        """offsets of bytes in `want`; None when an atom may contain one"""
        pos, out = 0, []
        for p in c:
            if isinstance(p, bytes):
                for i, x in enumerate(p):
                    if x in want:
                        out.append(st.norm(ladd(pos, i)))
            elif not all(lacks(p, x) for x in want):
                # the first possible occurrence is inside of an atom
                return out, False
            pos = ladd(pos, plen(p))
        return out, True

    def fork_unknown(st, what):
        st.ev('opaque-string', fn=what, args=())
        return st.fresh(what, 64, tag='nullable')

    def chr_(e, st, a, ins):
        b, c = atoms_of(st, a[0])
        ch = st.norm(a[1])
        if c is not None and isinstance(ch, Term) and all(isinstance(p, bytes) for p in c):
            # a byte looked up in a set
            for i, x in enumerate(b''.join(c) + b'\0'):
                d = known(e, st, e.icmp(st, 'eq', ch, x, I32))
                if d is None:
                    return fork_unknown(st, 'strchr')
                if d:
                    return Ptr(b[0].id, st.norm(ladd(b[1], i)))
            return 0
        if c is None or type(ch) is not int:
            return fork_unknown(st, 'strchr')
        if ch & 255 == 0:
            return Ptr(b[0].id, st.norm(ladd(b[1], slen(st, c))))
        ps, sure = positions(st, c, bytes([ch & 255]))
        if ps:
            return Ptr(b[0].id, st.norm(ladd(b[1], ps[0])))
        return 0 if sure else fork_unknown(st, 'strchr')

    def rchr_(e, st, a, ins):
        b, c = atoms_of(st, a[0])
        ch = st.norm(a[1])
        if c is None or type(ch) is not int:
            return fork_unknown(st, 'strrchr')
        ps, sure = positions(st, c, bytes([ch & 255]))
        if not sure:
            return fork_unknown(st, 'strrchr')
        return Ptr(b[0].id, st.norm(ladd(b[1], ps[-1]))) if ps else 0

    def cspn_(e, st, a, ins):
        b, c = atoms_of(st, a[0])
        w = content(st, a[1])
        if c is None or w is None or len(w) > 1 or (w and not isinstance(w[0], bytes)):
            return fork_unknown(st, 'strcspn')
        ps, sure = positions(st, c, w[0] if w else b'')
        if ps:
            return ps[0]
        return st.norm(slen(st, c)) if sure else fork_unknown(st, 'strcspn')

    def pbrk_(e, st, a, ins):
        b, c = atoms_of(st, a[0])
        w = content(st, a[1])
        if c is None or w is None or len(w) > 1:
            return fork_unknown(st, 'strpbrk')
        ps, sure = positions(st, c, w[0] if w else b'')
        if ps:
            return Ptr(b[0].id, st.norm(ladd(b[1], ps[0])))
        return 0 if sure else fork_unknown(st, 'strpbrk')

    def memchr_(e, st, a, ins):
        b, c = atoms_of(st, a[0])
        n = st.norm(a[2])
        ch = st.norm(a[1])
        if c is None or type(ch) is not int:
            return fork_unknown(st, 'memchr')
        ps, sure = positions(st, c, bytes([ch & 255]))
        for p in ps[:1]:
            t = e.icmp(st, 'ult', p, n, I64)
            d = bool(t) if type(t) is int else e.decide(st, t)
            if d is None:
                return fork_unknown(st, 'memchr')
            return Ptr(b[0].id, st.norm(ladd(b[1], p))) if d else 0
        return 0 if sure else fork_unknown(st, 'memchr')
    m['strchr'] = m['index'] = chr_
    m['strrchr'] = m['rindex'] = rchr_
    m['strcspn'] = cspn_
    m['strpbrk'] = pbrk_
    m['memchr'] = memchr_
    return m


def text(st, name, pieces):
    o = heap_str(st, tuple(pieces), name)
    o.where = 'input'
    return Ptr(o.id, 0)


def btext(st, e, name, cells):
    """a text of single bytes: ints and 8-bit symbols"""
    o = st.new_obj('heap', name, len(cells) + 1, 'undef')
    for i, v in enumerate(list(cells) + [0]):
        o.cells[i] = (1, v)
    o.where = 'input'
    return Ptr(o.id, 0)


def explode(word, clean, lens):
    """replace the atoms of a word by symbolic bytes: cells, the expected text, what each byte is not"""
    cells, cl = [], {}
    pieces = {}
    for p in word:
        if isinstance(p, bytes):
            cells += list(p)
            continue
        nm = p.args[0].args[0]
        bs = [Sym('%s#%d' % (nm, i), 8, tag='byte') for i in range(lens[p.args[0]])]
        for b in bs:
            cl[b] = clean.get(p.args[0], b'')
        pieces[p] = [App('chr', b) for b in bs]
        cells += bs
    return cells, pieces, cl


def expand(ps, pieces):
    out = []
    for p in ps:
        out += pieces.get(p, [p]) if not isinstance(p, bytes) else [p]
    return out


def brun(rep, P, fn, args, cl, loopk=16):
    # bytes that are none of the separators
    e = Engine(P, str_models(cl), max_paths=20000, max_steps=10 ** 8, loopk=loopk, bounds=True)

    def su(st):
        for b, no in cl.items():
            for x in b'\0' + no:
                e.assume(st, e.icmp(st, 'ne', b, x if x < 128 else x - 256, I8), True)
    sts = e.start(P.func(fn), [a(e) if getattr(a, 'wants_engine', 0) else a for a in args], su)
    rep.engine(e, len(sts))
    return e, sts


def bt(name, cells):
    def mk(e):
        return lambda st: btext(st, e, name, cells)
    mk.wants_engine = 1
    return mk


def imprecise(e, sts):
    """the code walks the texts itself, or asks for something the atoms do not tell"""
    return bool(e.widened) or e.peeked > 0 or any(list(st.events('opaque-string')) for st in sts)


def run(rep, P, fn, args, clean):
    e = Engine(P, str_models(clean), max_paths=20000, max_steps=10 ** 8, loopk=8, bounds=True)

    def su(st):
        for s in clean:
            st.facts.assume_range(Len(S(s)), 0, LIM)
    sts = e.start(P.func(fn), args, su)
    rep.engine(e, len(sts))
    return e, sts


def result(st):
    """pieces of the returned text, 0 or None"""
    r = st.norm(st.ret) if not isinstance(st.ret, Ptr) else st.ret
    if r == 0:
        return 0
    if not isinstance(r, Ptr):
        return None
    c = content(st, r)
    return merge(subst(st, c)) if c is not None else None


def parts(word, at):
    """expected (node, domain, resource, bare) of a token list"""
    toks = list(word)
    sl = next((i for i, t in enumerate(toks) if t == b'/'), None)
    rest, res = (toks, None) if sl is None else (toks[:sl], toks[sl + 1:])
    a = next((i for i, t in enumerate(rest) if t == b'@'), None)
    node, dom = (None, rest) if a is None else (rest[:a], rest[a + 1:])
    return node, dom, res, rest


def drop_empty(st, ps):
    return merge(p for p in ps if not (isinstance(p, bytes) and not p))


def split_case(rep, fn, shape, word, want, e, sts):
    for st in sts:
        al = alarms(st)
        rep.check('memory', not al and st.status == 'done', fn, al[0].where if al else fn, '%s of "%s": %s' % (fn, shape, al[0].kind if al else st.status), shape)
        if al or st.status != 'done':
            continue
        got = result(st)
        rep.check('split', got == want, '%s:%s' % (fn, shape), fn, '%s of "%s" is %s instead of %s' % (fn, shape, show(got), show(want)), shape)
        live = [o.id for o in st.mem.values() if o.kind == 'heap' and not o.freed and o.name != 'jid' and o.where != 'input']
        rep.check('memory', live == ([st.ret.obj] if isinstance(st.ret, Ptr) else []), fn + ':leak', fn, '%s of "%s" leaves %d objects' % (fn, shape, len(live)), shape)
        src = [o for o in st.mem.values() if o.where == 'input']
        rep.check('memory', all(not o.freed and merge(subst(st, content(st, Ptr(o.id, 0)))) == merge(word) for o in src), fn + ':input', fn, '%s changes its input' % fn, shape)


def split_rules(rep, P, kmax):
    fns = {'xmpp_jid_node': 0, 'xmpp_jid_domain': 1, 'xmpp_jid_resource': 2, 'xmpp_jid_bare': 3}
    walked = set()
    for k in range(kmax + 1):
        for seps in product((b'@', b'/'), repeat=k):
            for empt in ((), tuple(range(k + 1))):
                word, clean = [], {}
                for i in range(k + 1):
                    s = Sym('j%d.%d' % (k, i), tag='nonnull')
                    if i not in empt:
                        word.append(S(s))
                        clean[s] = b'@/'
                    if i < k:
                        word.append(seps[i])
                exp = parts(word, 0)
                for fn, ix in fns.items():
                    shape = ''.join('t' + (seps[i].decode() if i < k else '') for i in range(k + 1)) if not empt else b''.join(seps).decode() or '(empty)'
                    if fn not in walked:
                        e, sts = run(rep, P, fn, [CTXJ, lambda st: text(st, 'jid', word)], clean)
                        if imprecise(e, sts):
                            walked.add(fn)
                    want = 0 if exp[ix] is None else drop_empty(None, exp[ix])
                    if fn not in walked:
                        split_case(rep, fn, shape, word, want, e, sts)
                        continue
                    # the code walks the text byte by byte: the same with atoms of a few unknown bytes
                    for lens in (product((0, 1, 2), repeat=len(clean)) if k < 3 else [(1,) * len(clean), (2,) * len(clean)]):
                        cells, pieces, cl = explode(word, clean, dict(zip(clean, lens)))
                        e, sts = brun(rep, P, fn, [CTXJ, bt('jid', cells)], cl)
                        split_case(rep, fn, shape, expand(word, pieces), want if want == 0 else merge(expand(want, pieces)), e, sts)
    for fn in sorted(walked):
        rep.notes.append('%s walks its text: decided for parts of up to 2 unknown bytes' % fn)


def show(x):
    return 'NULL' if x == 0 else 'unknown' if x is None else ''.join(p.decode() if isinstance(p, bytes) else '<%s>' % p.args[0] for p in x) or '""'


BAD = b'"&\'/:<>@'


def new_case(rep, fn, what, node, dom, res, np, want, e, sts, lens, badnode):
    """lens: (term or length, present) of node, domain, resource"""
    acc = 0
    for st in sts:
        al = alarms(st)
        rep.check('memory', not al and st.status == 'done', fn, al[0].where if al else fn, '%s: %s' % (what, al[0].kind if al else st.status), what)
        if al or st.status != 'done':
            continue
        got = result(st)
        rng = [(t, t) if type(t) is int else st.facts.range(t) for t, on in lens if on]
        if got == 0:
            out = any(lo > 1023 for lo, hi in rng)
            rep.check('new-accept', badnode or not dom or out, what, fn, '%s, lengths %s: refused' % (what, rng), what)
            live = [o.id for o in st.mem.values() if o.kind == 'heap' and not o.freed and o.where != 'input']
            rep.check('memory', not live, fn + ':leak', fn, 'a refused JID leaves %d objects' % len(live), what)
            continue
        acc += 1
        rep.check('new-refuse', not badnode and dom and all(hi <= 1023 for lo, hi in rng), what, fn, '%s, lengths %s: accepted' % (what, rng), what)
        if not badnode and dom:
            rep.check('new', got == want, what, fn, '%s: builds %s instead of %s' % (what, show(got), show(want)), what)
    if not badnode and dom and not acc and all(type(t) is not int or t <= 1023 for t, on in lens if on):
        rep.bad('new-accept', what + ':never', fn, '%s: always refused' % what)


def new_rules(rep, P):
    fn = 'xmpp_jid_new'
    cases = []
    n0, n1, d, r = (Sym('jn.' + x, tag='nonnull') for x in ('node', 'node2', 'domain', 'resource'))
    for node in (None, 'ok') + tuple(BAD):
        for dom in (0, 1):
            for res in (0, 1):
                if node not in (None, 'ok') and not dom:
                    continue
                cases.append((node, dom, res))
    walked = False
    for node, dom, res in cases:
        clean = {n0: BAD, n1: BAD if node == 'ok' else b'', d: b'/@', r: b''}
        np = None if node is None else [S(n0)] if node == 'ok' else [S(n0), bytes([node]), S(n1)]
        what = 'node %s, domain %s, resource %s' % ('absent' if node is None else node if node == 'ok' else 'with %r' % chr(node), 'present' if dom else 'absent', 'present' if res else 'absent')
        badnode = node not in (None, 'ok')
        want = merge(([S(n0), b'@'] if np else []) + [S(d)] + ([b'/', S(r)] if res else []))
        if not walked:
            args = [CTXJ, 0 if np is None else (lambda st: text(st, 'node', np)), (lambda st: text(st, 'domain', [S(d)])) if dom else 0, (lambda st: text(st, 'resource', [S(r)])) if res else 0]
            e, sts = run(rep, P, fn, args, clean)
            if imprecise(e, sts):
                walked = True
            else:
                new_case(rep, fn, what, node, dom, res, np, want, e, sts, [(Len(S(n0)), node == 'ok'), (Len(S(d)), dom), (Len(S(r)), res)], badnode)
                continue
        # parts walked byte by byte: parts of a few unknown bytes, and parts around the limits
        lens = [(a, b, c, x) for a in (0, 1, 2) for b in (1, 2) for c in (0, 1) for x in ((0, 2) if badnode else (0,))]
        if badnode:
            lens += [(1020, 1, 1, 1)]
        else:
            lens += [(1023, 2, 2, 0), (1024, 2, 2, 0), (2, 1023, 2, 0), (2, 1024, 2, 0), (2, 2, 1023, 0), (2, 2, 1024, 0), (1023, 1023, 1023, 0)]
        for la, lb, lc, lx in lens:
            L = {n0: la, d: lb, r: lc, n1: lx}
            cl, cells, pieces = {}, {}, {}
            for nm, ps in (('node', np), ('domain', [S(d)] if dom else None), ('resource', [S(r)] if res else None)):
                if ps is not None:
                    c, p, k = explode(ps, clean, L)
                    cells[nm] = c
                    cl.update(k)
                    pieces.update(p)
            e, sts = brun(rep, P, fn, [CTXJ] + [bt(x, cells[x]) if x in cells else 0 for x in ('node', 'domain', 'resource')], cl, 4096)
            new_case(rep, fn, what, node, dom, res, np, merge(expand(want, pieces)), e, sts, [(len(cells.get(x, ())), x in cells) for x in ('node', 'domain', 'resource')], badnode)
    if walked:
        rep.notes.append('%s walks its parts: decided for parts of up to 2 unknown bytes and of 1023 and 1024 bytes' % fn)


def c19(rep):
    P = Program()
    R = rep.rule
    R('split', 'node, domain, resource and bare are exactly the parts at the first "/" and the first "@" before it', 60)
    R('new', 'the built JID is node@domain/resource of the given parts', 4)
    R('new-accept', 'valid parts within the limits are accepted', 4)
    R('new-refuse', 'a missing domain, a forbidden character in the local part or a part of more than 1023 bytes is refused', 4)
    R('memory', 'no access outside of the texts, inputs unchanged, nothing but the result left', 60)
    split_rules(rep, P, 5 if rep.tier == 'thorough' else 4)
    new_rules(rep, P)
    rep.notes.append('strings with up to %d separators among arbitrary text of any length' % (5 if rep.tier == 'thorough' else 4))
    return 'other', 'string-shape analysis: texts are sequences of separators and atoms (unknown text of any length without a separator); results are compared as concatenations'
