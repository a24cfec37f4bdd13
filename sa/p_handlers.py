"""C11: handler dispatch, registration and deletion over list shapes."""
from shapes import *
from scan import *

H = '_xmpp_handlist_t'
STZ0 = Sym('stanza', tag='nonnull')
CTX = Sym('conn.ctx', tag='nonnull')


ZID, ZNS, ZNAME, ZTYPE = (Sym('stanza.' + x, tag='nullable') for x in ('id', 'ns', 'name', 'type'))
ATTRS = {'id': ZID, 'xmlns': ZNS, 'type': ZTYPE}


def zacc(t):
    def m(e, st, a, ins):
        return t if deref_ok(st, a[0], 'stanza') else [(st, UNDEF)]
    return m


def zattr(e, st, a, ins):
    n = lit(st, a[1])
    n = n.decode() if isinstance(n, bytes) else n
    return ATTRS.get(n) or Sym('stanza.attr.%s' % n, tag='nullable')


def zchildns(e, st, a, ins):
    c = content(st, a[1]) if st.isnull(a[1]) is not True else ()
    return App('childns', S(st.norm(a[1])) if not c else c[0] if len(c) == 1 else ('cat',) + tuple(c), tag='nullable')


class HM:
    """models: one id table whose only interesting key is the stanza's id"""

    def __init__(s, P, oom=False):
        s.P = P
        m = {}
        m.update(libc())
        m.update(logs())
        m.update(Alloc(oom).models())
        m.update({'xmpp_stanza_get_id': zacc(ZID), 'xmpp_stanza_get_ns': zacc(ZNS), 'xmpp_stanza_get_name': zacc(ZNAME),
                  'xmpp_stanza_get_type': zacc(ZTYPE), 'xmpp_stanza_get_attribute': zattr, 'xmpp_stanza_get_child_by_ns': zchildns})
        m['time_stamp'] = s.now
        for k in ('hash_get', 'hash_add', 'hash_drop', 'hash_iter_new', 'hash_iter_next', 'hash_iter_release'):
            m[k] = getattr(s, k)
        s.m = m

    def now(s, e, st, a, ins):
        n = st.g.get('nstamp', 0)
        st.g['nstamp'] = n + 1
        t = Sym('now%d' % n, 64, lo=0, hi=1 << 62)
        if n:
            pass
        st.ev('stamp', t=t)
        return t

    def key(s, st, p):
        if not deref_ok(st, p, 'hash key'):
            return None
        return content(st, p)

    def hash_get(s, e, st, a, ins):
        k = s.key(st, a[1])
        if st.status != 'run':
            return [(st, UNDEF)]
        tab = st.g.get('tab', {})
        for k2, v in tab:
            q = streq(st, k, k2)
            if q is True:
                return v
            if q is None:
                o = st.copy()
                assume_streq(o, k, k2, True)
                assume_streq(st, k, k2, False)
                note(o, ('key-equal',), True)
                return [(o, v), (st, 0)]
        return 0

    def hash_add(s, e, st, a, ins):
        k = s.key(st, a[1])
        if st.status != 'run':
            return [(st, UNDEF)]
        tab = [x for x in st.g.get('tab', ()) if streq(st, k, x[0]) is not True]
        st.g['tab'] = tuple(tab) + ((k, st.norm(a[2])),)
        st.ev('hash_add', key=k, val=st.norm(a[2]))
        return 0

    def hash_drop(s, e, st, a, ins):
        k = s.key(st, a[1])
        if st.status != 'run':
            return [(st, UNDEF)]
        n = [x for x in st.g.get('tab', ()) if streq(st, k, x[0]) is not True]
        r = 0 if len(n) < len(st.g.get('tab', ())) else 0xffffffff
        st.g['tab'] = tuple(n)
        return r

    def hash_iter_new(s, e, st, a, ins):
        st.g['iter'] = 0
        return Sym('iter', tag='nonnull')

    def hash_iter_next(s, e, st, a, ins):
        i = st.g['iter']
        tab = st.g.get('tab', ())
        st.g['iter'] = i + 1
        if i >= len(tab):
            return 0
        k = tab[i][0]
        return Ptr(heap_str(st, k, 'key').id, 0)

    def hash_iter_release(s, e, st, a, ins):
        return None


CB = ['@cb%d' % i for i in range(6)]


def item(e, st, name, kind, fn, nxt=0, **kw):
    """one registered handler of the given kind with unknown filter, flag and user data"""
    f = {'handler': Fn(fn, None), 'next': nxt, 'enabled': Sym(name + '.enabled', 32), 'user_handler': Sym(name + '.user', 32),
         'userdata': Sym(name + '.ud', tag='ptr')}
    if kind == 'stanza':
        for x in ('ns', 'name', 'type'):
            f['u.' + x] = Sym('%s.%s' % (name, x), tag='nullable')
    elif kind == 'id':
        f['u.id'] = heapstr(st, name + '.id')[0]
    else:
        f['u.period'] = Sym(name + '.period', 64, lo=0, hi=1 << 40)
        f['u.last_stamp'] = Sym(name + '.last', 64, lo=0, hi=1 << 62)
    f.update(kw)
    o = st.new_obj('heap', name, e.prog.structsize(H), 'lazy')
    o.stype = H
    p = Ptr(o.id, 0)
    for k, v in f.items():
        setfield(e, st, H, p, k, v)
    return p


def mklist(e, st, names, kind, fns, **kw):
    nxt = 0
    for n, f in reversed(list(zip(names, fns))):
        nxt = item(e, st, n, kind, f, nxt, **kw)
        st.g[('it', n)] = nxt
    return nxt


def engine(P, extra=None, **kw):
    hm = HM(P)
    m = dict(hm.m)
    if extra:
        m.update(extra)
    e = conn_engine(P, m, max_paths=kw.pop('max_paths', 60000), max_steps=10 ** 9, loopk=8)
    e.hm = hm
    return e


def cbmodel(name, act=None):
    def m(e, st, a, ins):
        it = None
        for k, v in st.g.items():
            if isinstance(k, tuple) and k[0] == 'it':
                o = st.mem.get(v.obj)
                if o is None or o.freed:
                    continue
                h = getfield(e, st, H, v, 'handler')
                ud = getfield(e, st, H, v, 'userdata')
                if isinstance(h, Fn) and h.name == name and ud == a[-1]:
                    it = k[1]
        neg = truthy(st, getf(e, st, '_xmpp_conn_t', CONN, 'stream_negotiation_completed'))
        con = eqn(st, getf(e, st, '_xmpp_conn_t', CONN, 'state'), e.prog.enums['XMPP_STATE_CONNECTED'])
        st.ev('cb', fn=name, item=it, args=a, neg=neg, con=con, stamps=st.g.get('nstamp', 0))
        r = st.fresh('cbret:%s' % (it or name), 32)
        k = act(e, st, a, ins, it) if act else None
        if k:
            return chain(e, st, ins, k, lambda s2: r)
        return r
    return m


def truthy(st, v):
    n = st.isnull(v)
    return None if n is None else not n


def eqn(st, v, c):
    v = st.norm(v)
    if type(v) is int:
        return v == c
    return st.facts.eq0(ladd(v, -c)) if isinstance(v, Term) else None


def sameornull(st, want, have):
    """filter text `want` (NULL: anything) against the stanza's `have`: True / False / None"""
    if st.isnull(want) is True:
        return True
    if st.isnull(have) is True:
        return False
    return streq(st, (S(want),), (S(have),)) if st.isnull(want) is False and st.isnull(have) is False else None


def fmatch(st, flt):
    """does the stanza match the filter (ns, name, type terms) on this path?"""
    ns, nm, ty = flt
    a = sameornull(st, ns, ZNS)
    if a is not True:
        c = st.isnull(App('childns', S(ns), tag='nullable'))
        a = True if c is False else a if c is True else None
    r = [a, sameornull(st, nm, ZNAME), sameornull(st, ty, ZTYPE)]
    return True if all(x is True for x in r) else False if any(x is False for x in r) else None


def initial(name, what):
    return Sym('%s.%s' % (name, what), tag='nullable')


def conn_setup(e, st):
    type_conn(e, st)
    setf(e, st, '_xmpp_conn_t', CONN, 'ctx', CTX, 8)
    setf(e, st, '_xmpp_conn_t', CONN, 'id_handlers', Sym('idtable', tag='nonnull'), 8)
    o, _ = st.base_of(CTX)
    o.stype = '_xmpp_ctx_t'
    # nothing is being dispatched yet
    for f in e.prog.layout('_xmpp_ctx_t'):
        if 'cursor' in f:
            setfield(e, st, '_xmpp_ctx_t', CTX, f, 0)


def dispatch(P, rep, stanza_items, id_items, act=None, fns=None, free=None):
    """handler_fire_stanza over the given shapes; yields final states"""
    fns = fns or {n: CB[i] for i, n in enumerate(id_items + stanza_items)}
    mods = {f: cbmodel(f, act) for f in CB}
    e = engine(P, mods)

    def su(st):
        conn_setup(e, st)
        hd = mklist(e, st, stanza_items, 'stanza', [fns[n] for n in stanza_items])
        for n in stanza_items:
            # only the item under scrutiny has an arbitrary filter
            if n != free:
                for x in ('ns', 'name', 'type'):
                    st.facts.assume_range(initial(n, x), 0, 0)
        setf(e, st, '_xmpp_conn_t', CONN, 'handlers', hd, 8)
        ih = mklist(e, st, id_items, 'id', [fns[n] for n in id_items])
        st.g['tab'] = (((S(ZID),), ih),) if id_items else ()
        for n in id_items:
            o = st.mem[st.base_of(getfield(e, st, H, st.g[('it', n)], 'u.id'))[0].id]
            o.cells = {}
            put_pieces(st, getfield(e, st, H, st.g[('it', n)], 'u.id'), (S(ZID),), True)
    ps = e.start(P.func('handler_fire_stanza'), [CONN, STZ0], su)
    rep.engine(e, len(ps))
    return e, ps


def linked(e, st, kind):
    if kind == 'stanza':
        h = getf(e, st, '_xmpp_conn_t', CONN, 'handlers', 8)
    elif kind == 'id':
        h = dict((repr(k), v) for k, v in st.g.get('tab', ())).get(repr((S(ZID),)), 0)
    elif kind == 'ctx':
        h = getfield(e, st, '_xmpp_ctx_t', CTX, 'timed_handlers')
    else:
        h = getf(e, st, '_xmpp_conn_t', CONN, 'timed_handlers', 8)
    w = walk(e, st, H, h)
    return w


def names_of(st, ptrs):
    inv = {v.obj: k[1] for k, v in st.g.items() if isinstance(k, tuple) and k[0] == 'it'}
    return [inv.get(p.obj, 'new') if isinstance(p, Ptr) else '?' for p in ptrs] if ptrs is not None else None


def mem_ok(rep, rid, st, what):
    bad = alarms(st)
    for ev in bad:
        rep.bad(rid, '%s:%s' % (what, ev.kind), ev.where, '%s in %s: %s' % (ev.kind, what, {k: v for k, v in ev.d.items() if k in ('val', 'obj', 'freed', 'why')}))
    if not bad:
        rep.ok(rid, what)
    return not bad


def fires_rule(rep, e, st, stz, ids, what, gate=None, fires='fires', order='order', removed='removed'):
    """compares what was called with what the filters say, and what is left with what was returned"""
    evs = st.events('cb')
    called = [ev.item for ev in evs]
    neg = truthy(st, Sym('conn.stream_negotiation_completed', 32))
    for n in ids + stz:
        k = called.count(n)
        user = truthy(st, Sym(n + '.user', 32))
        flt = (initial(n, 'ns'), initial(n, 'name'), initial(n, 'type'))
        if n in ids:
            m = True if st.isnull(ZID) is False else False if st.isnull(ZID) is True else None
        else:
            m = fmatch(st, flt)
        may = user is False or neg is True
        if k:
            if gate:
                ev = evs[called.index(n)]
                rep.check(gate, user is False or ev.neg is True, '%s:%s' % (what, n[0]), ev.where, 'a user handler is called although negotiation may not be complete', what)
            if fires:
                rep.check(fires, k == 1 and m is True and may, '%s:%s:called' % (what, n[0]), evs[called.index(n)].where,
                          '%s handler called %d time(s) with match=%s user=%s negotiated=%s' % (n, k, m, user, neg), what)
                a = evs[called.index(n)].args
                rep.check(fires, a[0] == CONN and a[1] == STZ0 and a[2] == Sym(n + '.ud', tag='ptr'), '%s:%s:args' % (what, n[0]), evs[0].where, 'handler called with other arguments %s' % (a,))
        elif fires:
            rep.check(fires, m is False or (user is True and neg is False), '%s:%s:skipped' % (what, n[0]), what,
                      '%s handler is not called although match=%s user=%s negotiated=%s' % (n, m, user, neg), what)
    if order:
        want = [n for n in ids + stz if n in called]
        rep.check(order, called == want, what, evs[0].where if evs else what, 'called in order %s, registered in order %s' % (called, want), what)
    if removed:
        for kind, lst in (('id', ids), ('stanza', stz)):
            if not lst:
                continue
            left = names_of(st, linked(e, st, kind))
            want = []
            ok = True
            for n in lst:
                if n in called:
                    z = truthy(st, Sym('cbret:' + n, 32))
                    if z is None:
                        ok = False
                    if z is not False:
                        want.append(n)
                    else:
                        rep.check(removed, bool(st.mem[st.g[('it', n)].obj].freed), '%s:%s:freed' % (what, kind), what, 'a removed handler is not freed', what)
                else:
                    want.append(n)
            rep.check(removed, ok and left == want, '%s:%s' % (what, kind), what, 'after dispatch the list is %s, expected %s (called %s)' % (left, want, called), what)


def dispatch_rules(rep, P, gate=None, full=True):
    R = dict(fires='fires' if full else None, order='order' if full else None, removed='removed' if full else None)
    for stz, ids, free in ((['s0', 's1', 's2'], [], 's0'), (['s0', 's1', 's2'], [], 's1'), (['s0', 's1', 's2'], [], 's2'), ([], ['i0', 'i1', 'i2'], None), (['s0'], ['i0', 'i1'], 's0')):
        e, ps = dispatch(P, rep, stz, ids, free=free)
        n = 0
        for st in ps:
            if st.status != 'done':
                if full and st.status != 'cut':
                    mem_ok(rep, 'dispatch-safe', st, 'handler_fire_stanza')
                continue
            n += 1
            if full:
                mem_ok(rep, 'dispatch-safe', st, 'handler_fire_stanza')
            fires_rule(rep, e, st, stz, ids, 'handler_fire_stanza', gate, **R)
        if not n:
            raise AnalysisBroken('handler_fire_stanza never returns in the abstraction')


def gate_handlers(rep, P):
    dispatch_rules(rep, P, gate='gate-handlers', full=False)
    timed_rules(rep, P, gate='gate-handlers', full=False)


# ------------------------------------------------- changes made from callbacks
def nofilter(st, names):
    for n in names:
        for x in ('ns', 'name', 'type'):
            st.facts.assume_range(initial(n, x), 0, 0)
        st.facts.assume_range(Sym(n + '.user', 32), 1, 1)
    st.facts.assume_range(Sym('conn.stream_negotiation_completed', 32), 1, 1)


def action_case(rep, P, what, stz, ids, actor, calls, deletes=(), adds=(), fns=None, user=1, kind=None, timed=None):
    """the callback of `actor` performs API calls; checks what still runs and what is left"""
    fns = fns or {n: CB[i] for i, n in enumerate(ids + stz)}

    def act(e, st, a, ins, it):
        if it != actor:
            return None
        return calls(e, st, fns)
    mods = {f: cbmodel(f, act) for f in CB}
    e = engine(P, mods)

    def su(st):
        conn_setup(e, st)
        hd = mklist(e, st, stz, 'stanza', [fns[n] for n in stz])
        setf(e, st, '_xmpp_conn_t', CONN, 'handlers', hd, 8)
        setf(e, st, '_xmpp_conn_t', CONN, 'timed_handlers', 0, 8)
        ih = mklist(e, st, ids, 'id', [fns[n] for n in ids])
        st.g['tab'] = (((S(ZID),), ih),) if ids else ()
        for n in ids:
            o = st.mem[st.base_of(getfield(e, st, H, st.g[('it', n)], 'u.id'))[0].id]
            o.cells = {}
            put_pieces(st, getfield(e, st, H, st.g[('it', n)], 'u.id'), (S(ZID),), True)
        for n in stz + ids:
            for x in ('ns', 'name', 'type'):
                st.facts.assume_range(initial(n, x), 0, 0)
            u = user[n] if isinstance(user, dict) else user
            st.facts.assume_range(Sym(n + '.user', 32), u, u)
        st.facts.assume_range(Sym('conn.stream_negotiation_completed', 32), 1, 1)
        if ids:
            st.facts.assume_ne(ZID)
    ps = e.start(P.func('handler_fire_stanza'), [CONN, STZ0], su)
    rep.engine(e, len(ps))
    done = 0
    for st in ps:
        mem_ok(rep, 'dispatch-safe', st, what)
        if st.status != 'done':
            continue
        done += 1
        called = [ev.item or ev.fn for ev in st.events('cb')]
        gone, want = set(), []
        for n in ids + stz:
            if n in gone:
                continue
            want.append(n)
            if n == actor:
                gone |= set(deletes)
        rep.check('deleted-not-called', called == want, what, what, 'called %s, expected %s' % (called, want), what)
        for knd, lst in (('id', ids), ('stanza', stz)):
            left = names_of(st, linked(e, st, knd))
            exp = [n for n in lst if n not in gone and truthy(st, Sym('cbret:' + n, 32)) is not False] + [a for k, a in adds if k == knd]
            rep.check('list-after', left == exp, '%s:%s' % (what, knd), what, 'the %s list is %s afterwards, expected %s' % (knd, left, exp), what)
    if not done:
        rep.check('dispatch-safe', False, what + ':none', what, 'no path of the dispatch survives %s' % what)


def action_rules(rep, P):
    F = P.func

    def d_st(n):
        return lambda e, st, fns: [(F('xmpp_handler_delete'), [CONN, Fn(fns[n], None)])]

    def d_id(n):
        def f(e, st, fns):
            return [(F('xmpp_id_handler_delete'), lambda s2: [CONN, Fn(fns[n], None), ZID])]
        return f
    S3 = ['s0', 's1', 's2']
    I3 = ['i0', 'i1', 'i2']
    for act in S3:
        for tgt in S3:
            action_case(rep, P, 'xmpp_handler_delete(%s) in %s' % (tgt, act), S3, [], act, d_st(tgt), {tgt})
    sh = {'s0': CB[0], 's1': CB[1], 's2': CB[1]}
    for act in S3:
        action_case(rep, P, 'xmpp_handler_delete(shared) in %s' % act, S3, [], act, d_st('s1'), {'s1', 's2'}, fns=sh)
    for act in I3:
        for tgt in I3:
            action_case(rep, P, 'xmpp_id_handler_delete(%s) in %s' % (tgt, act), [], I3, act, d_id(tgt), {tgt})
    ish = {'i0': CB[0], 'i1': CB[1], 'i2': CB[1]}
    for act in I3:
        action_case(rep, P, 'xmpp_id_handler_delete(shared) in %s' % act, [], I3, act, d_id('i1'), {'i1', 'i2'}, fns=ish)
    # an id handler that removes a stanza handler
    action_case(rep, P, 'xmpp_handler_delete(s0) in i0', ['s0', 's1'], ['i0'], 'i0', d_st('s0'), {'s0'})
    # additions
    new = Sym('new.ud', tag='ptr')

    def a_st(e, st, fns):
        return [(F('xmpp_handler_add'), [CONN, Fn(CB[5], None), 0, 0, 0, new])]

    def a_id(e, st, fns):
        return [(F('xmpp_id_handler_add'), [CONN, Fn(CB[5], None), ZID, new])]
    for act in ('s0', 's1'):
        action_case(rep, P, 'xmpp_handler_add in %s' % act, ['s0', 's1'], [], act, a_st, adds=[('stanza', 'new')])
    action_case(rep, P, 'xmpp_handler_add in i0', ['s0'], ['i0'], 'i0', a_st, adds=[('stanza', 'new')])
    action_case(rep, P, 'xmpp_handler_add in i0 (no handlers)', [], ['i0'], 'i0', a_st, adds=[('stanza', 'new')])
    for act in ('i0', 'i1'):
        action_case(rep, P, 'xmpp_id_handler_add in %s' % act, [], ['i0', 'i1'], act, a_id, adds=[('id', 'new')])
    # delete oneself and register again
    action_case(rep, P, 'delete and re-add in s0', ['s0', 's1'], [], 's0',
                lambda e, st, fns: [(F('xmpp_handler_delete'), [CONN, Fn(fns['s0'], None)]), (F('xmpp_handler_add'), [CONN, Fn(fns['s0'], None), 0, 0, 0, Sym('s0.ud', tag='ptr')])],
                {'s0'}, adds=[('stanza', 'new')])
    # reconnecting from a callback drops all system handlers
    us = {'s0': 0, 's1': 1, 's2': 0, 'i0': 0, 'i1': 1, 'i2': 0}

    def sysdel(e, st, fns):
        return [(F('handler_system_delete_all'), [CONN])]
    for act in S3:
        action_case(rep, P, 'handler_system_delete_all in %s' % act, S3, ['i0'], act, sysdel, {'s0', 's2', 'i0'}, user=us)
    for act in I3:
        action_case(rep, P, 'handler_system_delete_all in %s' % act, ['s0', 's1'], I3, act, sysdel, {'s0', 'i0', 'i2'}, user=us)


# ----------------------------------------------------- registration, deletion
REG = {'xmpp_handler_add': ('stanza', 1), 'handler_add': ('stanza', 0), 'xmpp_id_handler_add': ('id', 1), 'handler_add_id': ('id', 0),
       'xmpp_timed_handler_add': ('timed', 1), 'handler_add_timed': ('timed', 0), 'xmpp_global_timed_handler_add': ('ctx', None)}


def setlist(e, st, kind, head):
    if kind == 'stanza':
        setf(e, st, '_xmpp_conn_t', CONN, 'handlers', head, 8)
    elif kind == 'id':
        st.g['tab'] = (((S(ZID),), head),) if head else ()
    elif kind == 'timed':
        setf(e, st, '_xmpp_conn_t', CONN, 'timed_handlers', head, 8)
    else:
        setfield(e, st, '_xmpp_ctx_t', CTX, 'timed_handlers', head)


def reg_rules(rep, P):
    for fn, (kind, user) in REG.items():
        f = P.func(fn)
        for n0 in (0, 1, 2, 3):
            names = ['r%d' % i for i in range(n0)]
            for hf in (CB[0], CB[5]):
                e = engine(P)

                def su(st):
                    conn_setup(e, st)
                    hd = mklist(e, st, names, 'timed' if kind == 'ctx' else kind, [CB[0]] * n0)
                    if kind == 'id':
                        for n in names:
                            put_pieces(st, getfield(e, st, H, st.g[('it', n)], 'u.id'), (S(ZID),), True)
                        st.facts.assume_ne(ZID)
                    setlist(e, st, kind, hd)
                ud = Sym('ud', tag='ptr')
                flt = [Sym('arg.ns', tag='nullable'), Sym('arg.name', tag='nullable'), Sym('arg.type', tag='nullable')]
                period = Sym('arg.period', 64, lo=0, hi=1 << 40)
                a0 = CTX if kind == 'ctx' else CONN
                args = {'stanza': [a0, Fn(hf, None)] + flt + [ud], 'id': [a0, Fn(hf, None), ZID, ud]}.get(kind, [a0, Fn(hf, None), period, ud])
                ps = e.start(f, args, su)
                rep.engine(e, len(ps))
                done = 0
                for st in ps:
                    mem_ok(rep, 'dispatch-safe', st, fn)
                    if st.status != 'done':
                        continue
                    done += 1
                    dup = [st.facts.eq0(ladd(ud, lmul(Sym(n + '.ud', tag='ptr'), -1))) if hf == CB[0] else False for n in names]
                    w = linked(e, st, kind)
                    left = names_of(st, w)
                    if any(d is True for d in dup):
                        rep.check('dup-once', left == names, fn, fn, 'registering a registered handler again changes the list to %s' % left, fn)
                        continue
                    if not all(d is False for d in dup):
                        rep.bad('dup-once', fn + ':undecided', fn, 'a handler is added without comparing it with every registered one')
                        continue
                    if kind in ('stanza', 'id'):
                        rep.check('append', left == names + ['new'], fn, fn, 'after registration the list is %s' % left, fn)
                    else:
                        rep.check('append', left is not None and sorted(left) == sorted(names + ['new']) and [x for x in left if x != 'new'] == names, fn, fn, 'after registration the list is %s' % left, fn)
                    if not left or 'new' not in left:
                        continue
                    it = w[left.index('new')]
                    g = lambda x: getfield(e, st, H, it, x)
                    rep.check('new-item', g('handler') == Fn(hf, None) and g('userdata') == st.norm(ud), fn + ':cb', fn, 'the new item has handler %s userdata %s' % (g('handler'), g('userdata')), fn)
                    if kind != 'ctx':
                        rep.check('new-item', g('enabled') == 0, fn + ':enabled', fn, 'a new handler starts with enabled=%s' % g('enabled'), fn)
                        rep.check('new-item', (truthy(st, g('user_handler')) is True) == (user == 1), fn + ':user', fn, 'user_handler is %s' % g('user_handler'), fn)
                    if kind == 'stanza':
                        for x, t in zip(('ns', 'name', 'type'), flt):
                            v = g('u.' + x)
                            if st.isnull(t) is True:
                                rep.check('new-item', st.isnull(v) is True, '%s:%s:null' % (fn, x), fn, 'filter %s is %s for NULL' % (x, v), fn)
                            else:
                                c = content(st, v) if st.isnull(v) is not True else None
                                rep.check('new-item', c is not None and subst(st, c) == subst(st, (S(t),)) and st.base_of(v)[0].kind == 'heap', '%s:%s' % (fn, x), fn,
                                          'filter %s is %s, not a copy of the argument' % (x, c), fn)
                    elif kind == 'id':
                        c = content(st, g('u.id'))
                        rep.check('new-item', c == subst(st, (S(ZID),)), fn + ':id', fn, 'id is %s' % (c,), fn)
                    else:
                        rep.check('new-item', g('u.period') == period, fn + ':period', fn, 'period is %s' % g('u.period'), fn)
                        ls = g('u.last_stamp')
                        rep.check('new-item', isinstance(ls, Term) and ls in [ev.t for ev in st.events('stamp')], fn + ':stamp', fn, 'last_stamp is %s, not the time of registration' % ls, fn)
                if not done:
                    raise AnalysisBroken('%s never returns' % fn)


DEL = {'xmpp_handler_delete': 'stanza', 'xmpp_id_handler_delete': 'id', 'xmpp_timed_handler_delete': 'timed', 'xmpp_global_timed_handler_delete': 'ctx'}


def del_rules(rep, P):
    for fn, kind in DEL.items():
        f = P.func(fn)
        for mask in range(0, 16):
            k = 3 if mask < 8 else 0 if mask == 8 else 1 if mask < 11 else 2
            sel = [bool(mask >> i & 1) for i in range(k)]
            names = ['d%d' % i for i in range(k)]
            e = engine(P)

            def su(st):
                conn_setup(e, st)
                hd = mklist(e, st, names, 'timed' if kind == 'ctx' else kind, [CB[5] if x else CB[i] for i, x in enumerate(sel)])
                if kind == 'id':
                    st.facts.assume_ne(ZID)
                setlist(e, st, kind, hd)
            a0 = CTX if kind == 'ctx' else CONN
            args = [a0, Fn(CB[5], None)] + ([ZID] if kind == 'id' else [])
            ps = e.start(f, args, su)
            rep.engine(e, len(ps))
            for st in ps:
                mem_ok(rep, 'dispatch-safe', st, fn)
                if st.status != 'done':
                    continue
                left = names_of(st, linked(e, st, kind))
                want = [n for n, x in zip(names, sel) if not x]
                rep.check('delete', left == want, fn, fn, 'deleting %s of %s leaves %s' % ([n for n, x in zip(names, sel) if x], names, left), fn)
                for n, x in zip(names, sel):
                    rep.check('delete', bool(st.mem[st.g[('it', n)].obj].freed) == x, fn + ':freed', fn, 'item %s: deleted=%s freed=%s' % (n, x, st.mem[st.g[('it', n)].obj].freed), fn)
    # all system handlers, and only those
    f = P.func('handler_system_delete_all')
    for mask in range(8):
        e = engine(P)
        us = [mask >> i & 1 for i in range(3)]
        lists = {'stanza': ['s0', 's1', 's2'], 'id': ['i0', 'i1', 'i2'], 'timed': ['t0', 't1', 't2']}

        def su(st):
            conn_setup(e, st)
            for kind, names in lists.items():
                hd = mklist(e, st, names, kind, CB[:3])
                setlist(e, st, kind, hd)
                for n, u in zip(names, us):
                    st.facts.assume_range(Sym(n + '.user', 32), u, u)
                    if kind == 'stanza':
                        for x in ('ns', 'name', 'type'):
                            st.facts.assume_range(initial(n, x), 0, 0)
            st.facts.assume_ne(ZID)
        ps = e.start(f, [CONN], su)
        rep.engine(e, len(ps))
        for st in ps:
            mem_ok(rep, 'dispatch-safe', st, 'handler_system_delete_all')
            if st.status != 'done':
                continue
            for kind, names in lists.items():
                left = names_of(st, linked(e, st, kind))
                want = [n for n, u in zip(names, us) if u]
                rep.check('delete', left == want, 'handler_system_delete_all:' + kind, 'handler_system_delete_all', 'with user flags %s of %s it leaves %s' % (us, names, left), 'handler_system_delete_all')


# ------------------------------------------------------------------- timed
CONN2 = Sym('conn2', tag='nonnull')


def le0(st, v):
    """is the linear value known <= 0 ?"""
    v = st.norm(v)
    lo, hi = st.facts.range(v) if isinstance(v, Term) else (v, v)
    if hi <= 0:
        return True
    if lo > 0:
        return False
    return None


def known_cmp(e, st, pred, a, b):
    """decided truth of an unsigned comparison on this path"""
    t = e.icmp(st, pred, a, b, I64)
    if type(t) is int:
        return bool(t)
    d = e.decide(st, t) if isinstance(t, Term) else None
    return None if d is None else bool(d)


def timed_setup(e, st, ct, gt, state=None, second=False):
    conn_setup(e, st)
    node = st.new_obj('heap', 'connnode', None, 'lazy')
    node.stype = '_xmpp_connlist_t'
    st.put(node.id, e.prog.off('_xmpp_connlist_t', 'conn'), 8, CONN)
    nx = 0
    if second:
        o = st.base_of(CONN2)[0]
        o.stype = '_xmpp_conn_t'
        n2 = st.new_obj('heap', 'connnode2', None, 'lazy')
        n2.stype = '_xmpp_connlist_t'
        st.put(n2.id, e.prog.off('_xmpp_connlist_t', 'conn'), 8, CONN2)
        st.put(n2.id, e.prog.off('_xmpp_connlist_t', 'next'), 8, 0)
        nx = Ptr(n2.id, 0)
        h2 = mklist(e, st, ['u0'], 'timed', [CB[4]])
        setf(e, st, '_xmpp_conn_t', CONN2, 'timed_handlers', h2, 8)
    st.put(node.id, e.prog.off('_xmpp_connlist_t', 'next'), 8, nx)
    setfield(e, st, '_xmpp_ctx_t', CTX, 'connlist', Ptr(node.id, 0))
    h = mklist(e, st, ct, 'timed', [CB[i] for i in range(len(ct))])
    setf(e, st, '_xmpp_conn_t', CONN, 'timed_handlers', h, 8)
    g = mklist(e, st, gt, 'timed', [CB[2 + i] for i in range(len(gt))])
    setfield(e, st, '_xmpp_ctx_t', CTX, 'timed_handlers', g)
    for n in ct + gt + (['u0'] if second else []):
        # registered in the past
        pass


def timed_rules(rep, P, gate=None, full=True):
    D = P.enums['XMPP_STATE_CONNECTED']
    for ct, gt, second in ((['t0', 't1'], [], False), ([], ['g0', 'g1'], False), (['t0'], ['g0'], False), (['t0'], [], True)):
        e = engine(P, {f: cbmodel(f) for f in CB})
        ps = e.start(P.func('handler_fire_timed'), [CTX], lambda st: timed_setup(e, st, ct, gt, second=second))
        rep.engine(e, len(ps))
        done = 0
        for st in ps:
            if full:
                mem_ok(rep, 'dispatch-safe', st, 'handler_fire_timed')
            if st.status != 'done':
                continue
            done += 1
            evs = st.events('cb')
            called = [ev.item for ev in evs]
            for n in ct + gt + (['u0'] if second else []):
                c = 'conn2' if n == 'u0' else 'conn'
                con = eqn(st, Sym(c + '.state', 32), D) if n[0] != 'g' else True
                user = truthy(st, Sym(n + '.user', 32)) if n[0] != 'g' else False
                neg = truthy(st, Sym(c + '.stream_negotiation_completed', 32))
                per, last = Sym(n + '.period', 64, lo=0, hi=1 << 40), Sym(n + '.last', 64, lo=0, hi=1 << 62)
                k = called.count(n)
                what = 'handler_fire_timed' + (':global' if n[0] == 'g' else '')
                if k:
                    ev = evs[called.index(n)]
                    if gate and n[0] != 'g':
                        rep.check(gate, user is False or neg is True, what, ev.where, 'a user timed handler is called although negotiation may not be complete', what)
                    if not full:
                        continue
                    now = Sym('now%d' % (ev.stamps - 1), 64, lo=0, hi=1 << 62) if ev.stamps else None
                    due = now is not None and known_cmp(e, st, 'uge', ladd(now, lmul(last, -1)), per)
                    rep.check('timed-due', k == 1 and due is True, what + ':early', ev.where, 'a timed handler is called %d time(s) without elapsed >= period established (%s)' % (k, due), what)
                    rep.check('timed-due', con is True and (user is False or neg is True), what + ':state', ev.where, 'a timed handler is called with connected=%s user=%s negotiated=%s' % (con, user, neg), what)
                    z = truthy(st, Sym('cbret:' + n, 32))
                    it = st.g[('it', n)]
                    fr = st.mem[it.obj].freed
                    rep.check('removed', (z is False) == bool(fr) and z is not None, what, ev.where, 'a timed handler returned %s and is freed: %s' % (z, fr), what)
                    if not fr:
                        rep.check('timed-rearm', getfield(e, st, H, it, 'u.last_stamp') == now, what, ev.where, 'after firing last_stamp is %s' % getfield(e, st, H, it, 'u.last_stamp'), what)
                elif full:
                    nows = [Sym('now%d' % i, 64, lo=0, hi=1 << 62) for i in range(st.g.get('nstamp', 0))]
                    early = [w for w in nows if known_cmp(e, st, 'uge', ladd(w, lmul(last, -1)), per) is False]
                    off = con is False or (user is True and neg is False)
                    rep.check('timed-due', off or bool(early), what + ':missed', what, 'a timed handler is skipped with connected=%s user=%s negotiated=%s and its period not known to be pending' % (con, user, neg), what)
                    if not off and early:
                        rest = lsub(per, ladd(early[0], lmul(last, -1)))
                        rep.check('timed-wait', known_cmp(e, st, 'ule', st.ret, rest) is True or st.norm(st.ret) == st.norm(rest) or wait_ok(e, st, rest, ct + gt, nows), what, what,
                                  'the returned wait %s is not known to be within the remaining %s' % (st.norm(st.ret), rest), what)
            if full:
                for kind, lst in (('timed', ct), ('ctx', gt)):
                    if lst:
                        left = names_of(st, linked(e, st, kind))
                        want = [n for n in lst if not (n in called and truthy(st, Sym('cbret:' + n, 32)) is False)]
                        rep.check('removed', left == want, 'handler_fire_timed:' + kind, 'handler_fire_timed', 'the list is %s afterwards, expected %s' % (left, want), kind)
        if not done:
            raise AnalysisBroken('handler_fire_timed never returns')


def wait_ok(e, st, rest, names, nows):
    """the result is one of the remaining times, and the path compared it with this one"""
    x = st.dec
    r = st.norm(st.ret)
    while x:
        t = x[1]
        if isinstance(t, Term) and t.op == 'cmp' and len(t.args) >= 3:
            p, a, b = t.args[:3]
            a, b = st.norm(a), st.norm(b)
            if p in ('ugt', 'ult', 'uge', 'ule') and {a, b} == {r, st.norm(rest)}:
                if a == r:
                    le = (p in ('ult', 'ule')) == bool(x[2]) if p in ('ult', 'ule') else not x[2]
                else:
                    le = (p in ('ugt', 'uge')) == bool(x[2]) if p in ('ugt', 'uge') else not x[2]
                if le:
                    return True
        x = x[0]
    return False


def timed_action_rules(rep, P):
    """timed handlers that delete, add or disconnect from their callback"""
    F = P.func
    DIS = P.enums['XMPP_STATE_DISCONNECTED']
    new = Sym('new.ud', tag='ptr')

    def case(what, actor, calls, gone=(), add=None, glob=False, stop=False, us=None):
        names = ['g0', 'g1', 'g2'] if glob else ['t0', 't1', 't2']

        def act(e, st, a, ins, it):
            if it != actor:
                return None
            if stop:
                setf(e, st, '_xmpp_conn_t', CONN, 'state', DIS)
            return calls
        mods = {f: cbmodel(f, act) for f in CB}
        e = engine(P, mods)

        def su(st):
            timed_setup(e, st, [] if glob else names, names if glob else [])
            for i, n in enumerate(names):
                setfield(e, st, H, st.g[('it', n)], 'handler', Fn(CB[i], None))
                u = us[i] if us else 1
                st.facts.assume_range(Sym(n + '.user', 32), u, u)
            setf(e, st, '_xmpp_conn_t', CONN, 'state', P.enums['XMPP_STATE_CONNECTED'])
            setf(e, st, '_xmpp_conn_t', CONN, 'stream_negotiation_completed', 1)
            setf(e, st, '_xmpp_conn_t', CONN, 'handlers', 0, 8)
        ps = e.start(F('handler_fire_timed'), [CTX], su)
        rep.engine(e, len(ps))
        done = 0
        for st in ps:
            mem_ok(rep, 'dispatch-safe', st, what)
            if st.status != 'done':
                continue
            done += 1
            called = [ev.item or ev.fn for ev in st.events('cb')]
            if actor not in called:
                continue
            k = called.index(actor)
            late = [n for n in called[k + 1:] if n in gone or n not in names or stop]
            rep.check('deleted-not-called', not late, what, what, 'called %s after %s in %s' % (late, actor, called), what)
            left = names_of(st, linked(e, st, 'ctx' if glob else 'timed'))
            exp = [n for n in names if n not in gone and not (n in called and truthy(st, Sym('cbret:' + n, 32)) is False)]
            ok = left is not None and [x for x in left if x != 'new'] == exp and left.count('new') == (1 if add else 0)
            rep.check('list-after', ok, what, what, 'the list is %s afterwards, expected %s%s' % (left, exp, ' and the new one' if add else ''), what)
            for n in names:
                if n not in gone and n not in called and not stop:
                    nows = [Sym('now%d' % i, 64, lo=0, hi=1 << 62) for i in range(st.g.get('nstamp', 0))]
                    per, last = Sym(n + '.period', 64, lo=0, hi=1 << 40), Sym(n + '.last', 64, lo=0, hi=1 << 62)
                    rep.check('timed-due', any(known_cmp(e, st, 'uge', ladd(w, lmul(last, -1)), per) is False for w in nows), what + ':missed', what,
                              '%s is skipped although its period is not known to be pending' % n, what)
        if not done:
            raise AnalysisBroken('handler_fire_timed never returns: ' + what)
    for g in (False, True):
        N = ['g0', 'g1', 'g2'] if g else ['t0', 't1', 't2']
        a0 = CTX if g else CONN
        dele = F('xmpp_global_timed_handler_delete' if g else 'xmpp_timed_handler_delete')
        addf = F('xmpp_global_timed_handler_add' if g else 'xmpp_timed_handler_add')
        for ai, a in enumerate(N):
            for ti, t in enumerate(N):
                case('%s(%s) in %s' % (dele.name, t, a), a, [(dele, [a0, Fn(CB[ti], None)])], {t}, glob=g)
            case('%s in %s' % (addf.name, a), a, [(addf, [a0, Fn(CB[5], None), Sym('period', 64, lo=0, hi=1 << 40), new])], add=True, glob=g)
    for a in ('t0', 't1', 't2'):
        case('disconnect in %s' % a, a, [], stop=True)
        case('handler_system_delete_all in %s' % a, a, [(F('handler_system_delete_all'), [CONN])], {'t0', 't2'}, us=[0, 1, 0])


# ---------------------------------------------------- stream start, event loop
def reset_rules(rep, P):
    """handler_reset_timed re-arms exactly the handlers it is asked for"""
    f = P.func('handler_reset_timed')
    for uo in (0, 1):
        e = engine(P)
        names = ['t0', 't1', 't2']

        def su(st):
            conn_setup(e, st)
            setlist(e, st, 'timed', mklist(e, st, names, 'timed', CB[:3]))
        ps = e.start(f, [CONN, uo], su)
        rep.engine(e, len(ps))
        done = 0
        for st in ps:
            mem_ok(rep, 'dispatch-safe', st, 'handler_reset_timed')
            if st.status != 'done':
                continue
            done += 1
            nows = [ev.t for ev in st.events('stamp')]
            for n in names:
                u = truthy(st, Sym(n + '.user', 32))
                ls = getfield(e, st, H, st.g[('it', n)], 'u.last_stamp')
                want = not uo or u is True
                ok = (isinstance(ls, Term) and ls in nows) == want and (not uo or u is not None)
                rep.check('stream-rearm', ok, 'handler_reset_timed:%d' % uo, 'handler_reset_timed', 'user_only=%d: last_stamp of %s (user=%s) is %s' % (uo, n, u, ls), 'handler_reset_timed')
        if not done:
            raise AnalysisBroken('handler_reset_timed never returns')


def open_rules(rep, P):
    """stream start re-arms all timed handlers before anything waits for the server"""
    for fn in ('auth_handle_open', 'auth_handle_component_open', 'auth_handle_open_raw'):
        e = conn_engine(P, auth_models(False), max_paths=20000, max_steps=10 ** 9)
        ps = e.start(P.func(fn), [CONN], lambda st: type_conn(e, st))
        rep.engine(e, len(ps))
        for st in ps:
            if st.status != 'done':
                continue
            r = [ev for ev in st.events('reset_timed', 'handler_add', 'notify') if ev.kind != 'handler_add' or ev.how == 'timed']
            rep.check('stream-rearm', r and r[0].kind == 'reset_timed' and r[0].user_only == 0, fn, fn, 'timed handlers are not re-armed first at stream start: %s' % [x.kind for x in r], fn)


def stanza_rules(rep, P):
    """one dispatch per received stanza, before it is counted and on every path"""
    m = auth_models(False)
    m['handler_fire_stanza'] = lambda e, st, a, ins: st.ev('fire', conn=a[0], stanza=a[1])
    e = conn_engine(P, m, max_paths=20000, max_steps=10 ** 9)
    ps = e.start(P.func('_handle_stream_stanza'), [STZ0, CONN], lambda st: (type_conn(e, st), setf(e, st, '_xmpp_conn_t', CONN, 'sm_state', Sym('sm', tag='nonnull'), 8)))
    rep.engine(e, len(ps))
    for st in ps:
        if st.status != 'done':
            continue
        fe = st.events('fire')
        rep.check('dispatched', len(fe) == 1 and fe[0].conn == CONN and fe[0].stanza == STZ0, '_handle_stream_stanza', '_handle_stream_stanza',
                  'a received stanza is dispatched %d time(s)' % len(fe), '_handle_stream_stanza')


def loop_rules(rep, P):
    import p_loop
    L = p_loop.Loop(P)
    ps = L.run(rep, queue=0)
    E = P.enums
    done = 0
    tmo, nxt = Sym('timeout', 64, lo=0, hi=1 << 40), Sym('next0', 64, lo=0, hi=(1 << 64) - 1)
    for st in ps:
        if st.status != 'done':
            continue
        done += 1
        ls = st.norm(getfield(L.e, st, '_xmpp_ctx_t', CTX, 'loop_status'))
        quit_ = eqn(st, ls, E['XMPP_LOOP_QUIT'])
        evs = st.events('fire_timed', 'select', 'sleep')
        if quit_ is True and not evs:
            rep.ok('loop-fires', 'xmpp_run_once:quit')
            continue
        rep.check('loop-fires', bool(evs) and evs[0].kind == 'fire_timed', 'xmpp_run_once', 'xmpp_run_once', 'an iteration does not fire due timed handlers before waiting: %s' % [x.kind for x in evs], 'xmpp_run_once')
        for ev in st.events('select'):
            tv = ev.tv
            ok = tv is not None and (tv == (0, 0) or within(L.e, st, tv, nxt, tmo))
            rep.check('loop-wait', ok, 'xmpp_run_once', ev.where, 'select() may wait %s although the next timed handler is due in %s (limit %s)' % (tv, nxt, tmo), 'xmpp_run_once')
    if not done:
        raise AnalysisBroken('xmpp_run_once never returns')


def within(e, st, tv, nxt, tmo):
    """value of the timeval, over the decided order of next and timeout, never exceeds either"""
    lt = known_cmp(e, st, 'ult', nxt, tmo)
    for a in (0, 1, 2, 999, 1000, 1001, 60000, 86400123):
        for b in (0, 1, 2, 999, 1000, 1001, 60000, 86400123):
            if lt is not None and (a < b) != lt:
                continue
            v = [termval(x, {nxt: a, tmo: b}) for x in tv]
            if None in v or v[0] * 1000000 + v[1] > min(a, b) * 1000 or v[1] >= 1000000:
                return False
    return True


def termval(t, env):
    """value of an arithmetic term; None when it depends on anything else"""
    if type(t) is int:
        return t
    if not isinstance(t, Term):
        return None
    if t in env:
        return env[t]
    if t.op == 'lin':
        c, ts = t.args
        for a, k in ts:
            v = termval(a, env)
            if v is None:
                return None
            c += v * k
        return c
    a = [termval(x, env) if isinstance(x, (Term, int)) else x for x in t.args]
    if t.op in ('udiv', 'sdiv') and None not in a[:2] and a[1]:
        return a[0] // a[1]
    if t.op in ('urem', 'srem') and None not in a[:2] and a[1]:
        return a[0] % a[1]
    if t.op in ('zext', 'sext', 'trunc') and a and a[0] is not None:
        return a[0] & ((1 << (t.w or 64)) - 1)
    if t.op == 'mul' and None not in a[:2]:
        return a[0] * a[1]
    return None


# ------------------------------------------------------------------ id table
KEYS = {'ka': 'a', 'kb': 'b', 'kc': 'c'}


def hash_rules(rep, P):
    """the id table itself: add, get, replace, drop and iterate over colliding keys"""
    m = {}
    m.update(libc())
    m.update(logs())
    m.update(Alloc(False).models())
    K = [b'ka', b'kb', b'kc']
    V = [Sym('v%d' % i, tag='nonnull') for i in range(4)]

    # the table is built by the library's own functions, one call after the other
    import itertools
    for size in (1, 2):
        for perm in itertools.permutations(range(3)):
            for drop in (None, 0, 1, 2):
                script = [('hash_add', i, V[i]) for i in perm] + ([('hash_drop', drop)] if drop is not None else []) + [('hash_get', i) for i in range(3)] + [('iter', 4)]
                st, res = table_script(rep, P, m, size, K, script)
                what = 'hash table of %d: add %s drop %s' % (size, perm, drop)
                if st is None:
                    rep.bad('id-table', 'stuck', 'hash.c', '%s: no single outcome' % what)
                    continue
                mem_ok(rep, 'dispatch-safe', st, 'hash.c')
                got = res['get']
                want = [V[i] if i != drop else 0 for i in range(3)]
                rep.check('id-table', got == want, 'get', 'hash.c', '%s: hash_get returns %s, expected %s' % (what, got, want), 'hash_get')
                it = res['iter']
                wk = sorted(K[i] for i in range(3) if i != drop)
                rep.check('id-table', it is not None and sorted(it) == wk, 'iter', 'hash.c', '%s: the iterator yields %s, expected %s' % (what, it, wk), 'hash_iter_next')
        script = [('hash_add', 0, V[0]), ('hash_add', 1, V[1]), ('hash_add', 0, V[3])] + [('hash_get', i) for i in range(3)] + [('iter', 4)]
        st, res = table_script(rep, P, m, size, K, script)
        rep.check('id-table', st is not None and res['get'] == [V[3], V[1], 0] and sorted(res['iter']) == K[:2], 'replace', 'hash.c', 'replacing a value gives %s' % res, 'hash_add')


def table_script(rep, P, m, size, K, script):
    e = Engine(P, dict(m), max_paths=5000, max_steps=10 ** 9, loopk=64)
    res = {'get': [], 'iter': None}
    P1 = e.start(P.func('hash_new'), [CTX, size, 0])
    if len(P1) != 1 or P1[0].status != 'done':
        rep.engine(e, len(P1))
        return None, res
    st = P1[0]
    t = st.ret

    def one(f, args):
        nonlocal st
        ps = e.start(P.func(f), args, None, st)
        if len(ps) != 1 or ps[0].status != 'done':
            return False
        st = ps[0]
        return True
    for op in script:
        if op[0] == 'iter':
            if not one('hash_iter_new', [t]):
                return None, res
            it = st.ret
            out = []
            for _ in range(op[1]):
                if not one('hash_iter_next', [it]):
                    return None, res
                if st.ret == 0:
                    break
                out.append(lit(st, st.ret))
            res['iter'] = out
            if not one('hash_iter_release', [it]):
                return None, res
            continue
        k = Ptr(heap_str(st, (K[op[1]],), 'key').id, 0)
        if not one(op[0], [t, k] + list(op[2:])):
            return None, res
        if op[0] == 'hash_get':
            res['get'].append(st.norm(st.ret))
    rep.engine(e, 1)
    return st, res


def c11(rep):
    P = Program()
    R = rep.rule
    R('fires', 'during a dispatch exactly the handlers whose filter matches (id; ns of stanza or child, name, type) and that may run are called, once, with connection, stanza and their user data', 100)
    R('order', 'id handlers run first, each list in registration order', 50)
    R('removed', 'a handler is unlinked and freed exactly if it returned false', 50)
    R('dispatch-safe', 'no invalid memory access on any path of dispatch, registration and deletion', 100)
    R('deleted-not-called', 'a handler deleted from a callback is not called any more, all others still are, an added one does not see the stanza', 30)
    R('list-after', 'after changes made by a callback the lists contain exactly the remaining and the added handlers in order', 30)
    R('append', 'registration adds one item, stanza and id handlers at the end', 20)
    R('new-item', 'a new item carries callback, copies of the filter, user data, period, current time and starts disabled', 50)
    R('dup-once', 'a handler registered twice with same callback and user data is kept once', 6)
    R('delete', 'deletion removes and frees exactly the handlers with the given callback', 50)
    R('timed-due', 'a timed handler fires exactly if its period elapsed, its connection is connected and it may run', 50)
    R('timed-wait', 'the returned wait does not exceed the time left of any pending handler', 20)
    R('timed-rearm', 'a fired handler is re-armed with the time it was compared with', 10)
    R('stream-rearm', 'stream start re-arms all timed handlers', 5)
    R('dispatched', 'every received stanza is dispatched exactly once', 1)
    R('loop-fires', 'every loop iteration fires due timed handlers before waiting', 20)
    R('loop-wait', 'the loop does not wait beyond the next timed handler', 20)
    R('id-table', 'the table of id handlers returns what was stored, also for colliding keys', 20)
    dispatch_rules(rep, P)
    action_rules(rep, P)
    reg_rules(rep, P)
    del_rules(rep, P)
    timed_rules(rep, P)
    timed_action_rules(rep, P)
    reset_rules(rep, P)
    open_rules(rep, P)
    stanza_rules(rep, P)
    loop_rules(rep, P)
    hash_rules(rep, P)
    rep.assumptions += ['lists of up to three handlers stand for lists of any length (the code under analysis is a per-item list traversal)',
                        'the clock and stanza accessors are opaque; elapsed time is unsigned subtraction']
    return 'other', ('Path-sensitive dataflow over handler.c: each entry point is interpreted over abstract lists of up to three handlers with unknown filters, flags, periods and '
                     'user data and unknown stanza attributes; every path is compared with the filter semantics. Callbacks are modelled as arbitrary results plus every single API '
                     'action (add/delete/clear) at every dispatch position.')
