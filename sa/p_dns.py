"""C15: DNS SRV answers are decoded safely and correctly.

Safety: the decoder is analysed for an unknown buffer of unknown size (loops abstracted to an arbitrary iteration, a
recursive call replaced by the contract that every call is checked against).  Decoding: for message skeletons (counts, label
lengths, compression pointers, record sizes) with unknown contents the resulting list is compared with the records."""
import scan
from p_blob import m_in
from eng import *
from p_nego import conn_models as base_models
from ir import Program
from models import Alloc, m_memcpy, m_memset, content, S
from shapes import getfield, alarms, walk

BUF = '*msg'
N = Sym('msg.len', 64, lo=0, hi=65536)
RR = 'resolver_srv_rr_struc'
ENTRY = 'resolver_srv_lookup_buf'


def target_range(P):
    return P.off(RR, 'target'), P.fieldsize(RR, 'target')


def is_rr(o, P):
    return o.kind == 'heap' and o.size == P.structsize(RR)


class Dns:
    def __init__(s, P, rep):
        s.P, s.rep = P, rep
        s.to, s.tn = target_range(P)
        s.calls = 0
        s.loops = {}
        cl = scan.closure(P, [ENTRY])
        s.funcs = cl
        # readers: called with the message, walk it in a loop or by recursion
        s.rec = {}
        for n, f in cl.items():
            if n == ENTRY or f.ret.k != 'int':
                continue
            loop = bool(Engine(P, {}).loops_of(f))
            for g in scan.callees(P, f):
                if g in cl and n in scan.closure(P, [g]):
                    if g != n:
                        raise AnalysisBroken('mutually recursive functions %s and %s' % (n, g))
                    loop = True
            if loop:
                s.rec[n] = f
        s.roles = {}
        s.bounded = {}

    # -- terminators of the target field
    def mark(s, st, o, off, n, val):
        k = ('nul', o.id)
        if type(val) is int and val & 255 == 0 and n == 1:
            st.g[k] = ('at', off, 1)
            return
        m = st.g.get(k)
        if m is None:
            return
        f = st.facts
        before = f.range(st.norm(lsub(m[1], ladd(off, n))))[0] >= 0
        after = f.range(st.norm(lsub(off, ladd(m[1], m[2]))))[0] >= 0
        if not before and not after:
            st.g.pop(k)

    def in_target(s, st, o, off, n, why):
        f = st.facts
        if type(n) is int and n == 0:
            return
        lo = f.range(st.norm(lsub(off, s.to)), 3)[0]
        hi = f.range(st.norm(lsub(s.to + s.tn, ladd(off, n))), 3)[0]
        if lo < 0 or hi < 0:
            st.ev('oob', obj=o.id, off=off, size=n, osize=s.tn, sure=False, why=why + ' the target field', lo=lo, slack=(hi, hi))

    def on_store(s, st, o, off, n, val):
        if is_rr(o, s.P):
            if type(off) is not int:
                s.in_target(st, o, off, n, 'write to')
            if type(off) is not int or s.to <= off < s.to + s.tn:
                s.mark(st, o, off, n, val)

    def m_copy(s, e, st, a, ins):
        db, sb = st.base_of(a[0]), st.base_of(a[1])
        n = st.norm(a[2])
        if db is None or not is_rr(db[0], s.P) or sb is None or sb[0].name != BUF:
            return m_memcpy(e, st, a, ins)
        if type(n) is int and n == 0:
            return a[0]
        off, so = st.norm(db[1]), st.norm(sb[1])
        if not s.safe:
            st.in_bounds(sb[0], so, n, 'read')
            if type(n) is int and type(off) is int and type(so) is int and n <= 256:
                s.in_target(st, db[0], off, n, 'copy to')
                for i in range(n):
                    st.store(ladd_p(a[0], i), e.load_cell(st, sb[0], so + i, 1, I8), 1)
                return a[0]
        st.in_bounds(sb[0], so, n, 'read')
        s.in_target(st, db[0], off, n, 'copy to')
        o = st.wobj(db[0].id)
        e.clear_range(st, o, off, n)
        s.mark(st, o, off, n, None)
        return a[0]

    def m_set(s, e, st, a, ins):
        r = m_memset(e, st, a, ins)
        b = st.base_of(a[0])
        if b is not None and is_rr(b[0], s.P) and st.norm(a[1]) == 0 and st.norm(b[1]) == 0 and st.norm(a[2]) == b[0].size:
            st.g[('nul', b[0].id)] = ('at', s.to, 1)
        return r

    # -- a reader by its contract: the arguments are checked at every call, the body is analysed once
    def role(s, st, f, a):
        r = {}
        for k, (p, t) in enumerate(f.params):
            v = st.norm(a[k])
            if t.k == 'ptr':
                b = st.base_of(v) if isinstance(v, (Ptr, Term)) and st.isnull(v) is not True else None
                if b is not None and b[0].name == BUF and 'buf' not in r:
                    r['buf'] = k
                elif 'out' not in r and (b is None and st.isnull(v) is True or b is not None and is_rr(b[0], s.P)):
                    r['out'] = k
                else:
                    return None
            elif t.k == 'int':
                if v == N and 'len' not in r:
                    r['len'] = k
                elif 'out' in r and 'cap' not in r:
                    r['cap'] = k
                elif 'pos' not in r:
                    r['pos'] = k
                else:
                    return None
        return r if len(r) == 5 or set(r) == {'buf', 'len', 'pos'} else None

    def m_rec(s, name):
        f = s.rec[name]

        def m(e, st, a, ins):
            if not s.safe:
                return NotImplemented
            inner = [fr for fr in st.frames if fr.f.name == name]
            r = s.roles.get(name)
            if r is None:
                r = s.role(st, f, a)
                if r is None:
                    return NotImplemented
                s.roles[name] = r
            s.calls += 1
            bad = None
            rng = lambda v: st.facts.range(unz(st.norm(v)))
            b = st.base_of(a[r['buf']])
            if b is None or b[0].name != BUF or st.norm(b[1]) != 0 or unz(st.norm(a[r['len']])) != N:
                bad = 'a name is read with a buffer and a size that do not belong together'
            pos = a[r['pos']]
            if f.params[r['pos']][1].w == 32:
                pos = e.cast(st, 'zext', pos, I32, I64)
            pos = unz(st.norm(pos))
            if rng(pos)[0] < 0:
                bad = 'the offset of a name may be negative'
            if inner:
                ov = unz(st.norm(inner[-1].regs[f.params[r['pos']][0]]))
                if st.facts.range(st.norm(lsub(ov, pos)))[0] <= 0:
                    bad = 'the offset does not shrink from one recursive call to the next'
            other = st.copy()
            if 'out' in r:
                v = st.norm(a[r['out']])
                nul = st.isnull(v) if isinstance(v, (Ptr, Term)) else v == 0
                if nul is not True:
                    b = st.base_of(v)
                    cap = unz(st.norm(a[r['cap']]))
                    off = st.norm(b[1]) if b is not None else 0
                    if cap == 0:
                        pass        # no room: nothing is written there
                    elif b is None or not is_rr(b[0], s.P) or st.facts.range(st.norm(lsub(off, s.to)))[0] < 0 or \
                            rng(cap)[0] < 0 or st.facts.range(st.norm(lsub(s.to + s.tn, ladd(off, cap))))[0] < 0:
                        bad = 'a name is given more room than is left in the target'
                    else:
                        w = st.wobj(b[0].id)
                        e.clear_range(st, w, off, cap)
                        s.mark(st, w, off, cap, None)
                        if rng(cap)[0] > 0:
                            st.g[('nul', w.id)] = ('in', off, cap)
                        w = other.wobj(b[0].id)
                        e.clear_range(other, w, off, cap)
                        s.mark(other, w, off, cap, None)
            if bad:
                st.ev('recursion', why=bad)
            x = st.fresh('read', 32, lo=1, hi=(1 << 32) - 1)
            if s.bounded.get(name, True):
                st.facts.assume_range(st.norm(lsub(N, ladd(x, pos))), 0, 1 << 17)
            return [(st, x), (other, 0)]
        return m

    def engine(s, safe, loopk=1):
        s.safe = safe
        m = dict(base_models())
        m.update(Alloc(False).models())
        for k in ('memcpy', 'memmove', 'llvm.memcpy.p0.p0.i64', 'llvm.memmove.p0.p0.i64'):
            m[k] = s.m_copy
        for k in ('memset', 'llvm.memset.p0.i64'):
            m[k] = s.m_set
        for n in s.rec:
            m[n] = s.m_rec(n)
        e = Engine(s.P, m, max_paths=120000, max_steps=10 ** 8, loopk=loopk, bounds=True)
        e.store_hooks.append(s.on_store)
        e.cutloops = not safe
        return e


def unz(v):
    while isinstance(v, Term) and v.op in ('trunc', 'zext', 'cast'):
        v = v.args[0]
    return v


def ladd_p(p, i):
    return Ptr(p.obj, ladd(p.off, i)) if isinstance(p, Ptr) else ladd(p, i)


def safety(rep, P):
    d = Dns(P, rep)
    names = {}

    def byte(off, sz):
        return names.setdefault((off, sz), Sym('by~%d' % len(names), 8 * sz, lo=0, hi=(1 << 8 * sz) - 1))

    def back(st, fr, lab, old, new):
        moves = set()
        for r, v in new.items():
            ov = old.get(r)
            if ov is None or isinstance(v, (Ptr, Fn)) or isinstance(ov, (Ptr, Fn)):
                continue
            lo, hi = st.facts.range(st.norm(lsub(unz(st.norm(v)), unz(st.norm(ov)))))
            if lo > 0:
                moves.add((r, 'up'))
            if hi < 0:
                moves.add((r, 'down'))
        k = (fr.f.name, lab)
        d.loops[k] = moves if k not in d.loops else d.loops[k] & moves

    def engine():
        e = d.engine(True)
        e.gc, e.hints, e.counted = True, False, False
        e.load_hooks.append(lambda st, o, off, sz, ty: byte(st.norm(off), sz) if o.name == BUF else None)
        e.back_hooks.append(back)
        return e

    def common(st, fn):
        al = alarms(st) + st.events('oob')
        rep.check('bounds', not al, al[0].kind + ':' + str(al[0].where) if al else 'ok', al[0].where if al else fn, '%s %s' % (al[0].kind, al[0].d) if al else '', fn)
        rc = st.events('recursion')
        rep.check('ends' if rc and 'shrink' in rc[0].d['why'] else 'bounds', not rc, 'reader', rc[0].where if rc else fn, rc[0].d['why'] if rc else '', fn)
        if st.status != 'done':
            rep.check('outcome', bool(al), 'dead', fn, 'the analysis of a path ends with %s' % st.status, fn)
        return st.status == 'done'

    def buf(st):
        return Ptr(st.new_obj('global', BUF, N, 'lazy').id, 0)

    def lookup():
        e = engine()
        out = {}

        def lst(st):
            out['o'] = st.new_obj('alloca', 'list', 8, 'undef').id
            return Ptr(out['o'], 0)
        sts = e.start(P.func(ENTRY), [CTX0, buf, N, lst], lambda st: None)
        return e, sts, out['o']

    def readers():
        """bodies of the readers under their preconditions; which results are bounded by the size"""
        again = False
        got = []
        for name, r in sorted(d.roles.items()):
            f = d.rec[name]
            for null in ((True, False) if 'out' in r else (True,)):
                e = engine()
                pos, cap = Sym('pos', 64, lo=0, hi=(1 << 32) - 1), Sym('cap', 64, lo=0, hi=d.tn)
                if f.params[r['pos']][1].w == 32:
                    pos = Sym('pos', 32, lo=0, hi=(1 << 32) - 1)
                at = Sym('at', 64, lo=d.to, hi=d.to + d.tn)
                box = {}

                def outp(st):
                    o = st.new_obj('heap', 'rr', P.structsize(RR), 'lazy')
                    box['o'] = o.id
                    st.facts.assume_range(lsub(d.to + d.tn, ladd(at, cap)), 0, d.tn)
                    return Ptr(o.id, at)
                args = [None] * len(f.params)
                args[r['buf']], args[r['len']], args[r['pos']] = buf, N, pos
                if 'out' in r:
                    args[r['out']] = 0 if null else outp
                    args[r['cap']] = Sym('anycap', 64, lo=0, hi=(1 << 63) - 1) if null else cap
                sts = e.start(f, args, lambda st: None)
                got.append((name, null, e, sts, box.get('o'), cap))
                for st in sts:
                    if st.status == 'done' and st.facts.eq0(st.norm(st.ret)) is not True and d.bounded.get(name, True):
                        if st.facts.range(st.norm(lsub(N, ladd(unz(st.ret), pos))))[0] < 0:
                            d.bounded[name] = False
                            again = True
        return again, got
    e, sts, lo = lookup()
    for _ in range(4):
        again, got = readers()
        if again:
            e, sts, lo = lookup()
            continue
        break
    for name, null, e2, ss, oid, cap in got:
        rep.engine(e2, len(ss))
        for st in ss:
            if st.status == 'cut' or not common(st, name) or null:
                continue
            t = st.copy()
            if st.facts.eq0(st.norm(st.ret)) is True or not t.facts.assume_range(cap, 1, d.tn):
                continue
            rep.check('outcome', ('nul', oid) in st.g, 'nul:' + name, name, 'a name is read without terminating the target', name)
    rep.engine(e, len(sts))
    for st in sts:
        if st.status == 'cut' or not common(st, ENTRY):
            continue
        c = st.mem[lo].cells.get(0)
        head = st.norm(c[1]) if c else UNDEF
        null = st.isnull(head) if isinstance(head, (Ptr, Term)) else head == 0 if type(head) is int else None
        found = st.norm(st.ret)
        F, NF = P.enums['XMPP_DOMAIN_FOUND'], P.enums['XMPP_DOMAIN_NOT_FOUND']
        rep.check('outcome', (found == F and null is False) or (found == NF and (null is True or head == 0)), 'list:%s' % found, ENTRY, 'the result is %s and the list is %s' % (found, head), ENTRY)
        for oid, o in st.mem.items():
            if is_rr(o, P) and not o.freed:
                rep.check('outcome', ('nul', oid) in st.g, 'nul', ENTRY, 'a record is kept whose target need not be terminated', o.where)
    for (fn, lab), mv in sorted(d.loops.items()):
        f = d.funcs.get(fn)
        if mv or list_loop(P, f, e.loops_of(f).get(lab, ())):
            rep.check('ends', True, '', fn, '', '%s:%s' % (fn, lab))
        else:
            rep.bad('ends', 'loop:' + fn, fn, 'no number moves in one direction on every round of a loop in %s' % fn)
    if not d.roles:
        rep.notes.append('no reader of names was found')
    return d


def list_loop(P, f, body):
    """the loop follows the next pointers of the records (they are finite chains)"""
    for l in body:
        for ins in f.blocks[l]:
            if ins.op == 'gep' and scan.gep_field(ins.ty, ins.a[1]) == (RR, P.off(RR, 'next')):
                return True
    return False


CTX0 = Sym('ctx', tag='nonnull')


LIMIT = 1000


# -- decoding ---------------------------------------------------------------
class Msg:
    def __init__(s):
        s.b = []
        s.recs = []
        s.k = 0

    def sym(s, name):
        s.k += 1
        return Sym('%s%d' % (name, s.k), 8, lo=1 if name == 'c' else 0, hi=255)

    def u16(s, v):
        s.b += [v >> 8, v & 255]

    def name(s, spec):
        """spec: label lengths, ended by 0 or ('ptr', offset); returns the text"""
        out = []
        for x in spec:
            if x == 0:
                s.b.append(0)
            elif type(x) is tuple:
                s.b += [0xc0 | x[1] >> 8, x[1] & 255]
                out += s.at(x[1])
            else:
                ch = [s.sym('c') for _ in range(x)]
                s.b.append(x)
                s.b += ch
                out += [ch]
        return out

    def at(s, off):
        """labels of the name at an offset"""
        out = []
        while s.b[off] != 0:
            n = s.b[off]
            if n >= 0xc0:
                off = (n & 0x3f) << 8 | s.b[off + 1]
                continue
            out.append(s.b[off + 1:off + 1 + n])
            off += 1 + n
        return out

    def head(s, q, a):
        s.b += [s.sym('id'), s.sym('id'), 0x85, 0x80]
        s.u16(q)
        s.u16(a)
        s.b += [s.sym('ns') for _ in range(4)]

    def question(s, spec):
        s.name(spec)
        s.b += [0, 33, 0, 1]

    def rr(s, owner, target=None, rdlen=None, ty=33, cls=1, small=False):
        s.name(owner)
        s.u16(ty)
        s.u16(cls)
        s.b += [s.sym('ttl') for _ in range(4)]
        if target is None:
            s.u16(rdlen)
            # looks like the data of an SRV record where it is long enough
            rd = [s.sym('rd') for _ in range(6)] + [1, s.sym('c'), 0]
            s.b += rd[:rdlen] + [0] * (rdlen - 9)
            return
        at = len(s.b)
        s.u16(0)
        v = []
        for n in ('prio', 'weight', 'port'):
            hi, lo = 0 if small else s.sym(n + '.hi'), s.sym(n + '.lo')
            s.b += [hi, lo]
            v.append((hi, lo))
        labels = s.name(target)
        n = len(s.b) - at - 2
        s.b[at], s.b[at + 1] = n >> 8, n & 255
        if ty == 33 and cls == 1:
            s.recs.append((v, labels))


def is16(st, v, hl):
    """v is the big-endian number of the two bytes"""
    v = unz(st.norm(v))
    hi, lo = hl
    if isinstance(v, Term) and v.op in ('or', 'add', 'xor') and len(v.args) == 2:
        xs = [unz(x) for x in v.args]
        for x, y in (xs, xs[::-1]):
            if y == lo and isinstance(x, Term) and (x.op == 'shl' and unz(x.args[0]) == hi and x.args[1] == 8 or unz(lsub(x, lmul(hi, 256))) == 0):
                return True
        return False
    d = st.norm(lsub(v, ladd(lmul(hi, 256), lo)))
    return d == 0 or isinstance(d, Term) and st.facts.range(d) == (0, 0)


def messages(tier):
    out = []

    def add(label, q, recs, extra=0):
        m = Msg()
        m.head(len(q), len(recs))
        for x in q:
            m.question(x)
        for r in recs:
            m.rr(**r)
        out.append((label, m, extra))
    Q = [3, 2, 0]           # labels at 12 and 16
    P12 = [('ptr', 12)]
    names = {'plain': [3, 2, 0], 'one': [1, 0], 'root': [0], 'long': [63, 63, 1, 0], 'ptr': P12, 'label+ptr': [2, ('ptr', 16)], 'labels+ptr': [1, 4, ('ptr', 12)],
             'deep': [1, 1, 1, 1, 1, 0], 'root+ptr': [2, ('ptr', 19)]}
    for k, t in names.items():
        add('target:' + k, [Q], [dict(owner=P12, target=t)])
        add('target-more:' + k, [Q], [dict(owner=P12, target=t)], extra=1)
        if k not in ('long', 'root+ptr'):
            add('owner:' + k, [Q], [dict(owner=t, target=[2, 0])])
            add('question:' + k, [t] if k not in ('ptr', 'label+ptr', 'labels+ptr') else [Q, t], [dict(owner=[0], target=[1, 1, 0])])
    # pointer chain: the second record points to the target of the first, which ends in a pointer
    m = Msg()
    m.head(1, 2)
    m.question(Q)
    m.rr(P12, [2, ('ptr', 16)])
    p = len(m.b) - 5
    m.rr(P12, [1, ('ptr', p)])
    out.append(('chain', m, 0))
    add('no-question', [], [dict(owner=[0], target=[2, 0])])
    add('none', [Q], [])
    for ty, cls, n in ((1, 1, 4), (5, 1, 2), (16, 1, 40), (33, 3, 9), (257, 1, 0), (289, 1, 20), (33, 257, 8), (28, 1, 16)):
        o = dict(owner=P12, rdlen=n, ty=ty, cls=cls)
        s = dict(owner=P12, target=[1, 0])
        lab = 'mix-%d-%d-%d' % (ty, cls, n)
        add(lab + ':first', [Q], [o, s])
        add(lab + ':last', [Q], [s, o])
        if tier == 'thorough':
            add(lab + ':more', [Q], [s, o, s], extra=1)
            add(lab + ':only', [Q], [o, o])
    # a pointer to an offset with all of its high bits
    m = Msg()
    m.head(1, 3)
    m.question(Q)
    m.rr(P12, rdlen=0x3f10, ty=16)
    m.rr(P12, [2, 1, 0])
    m.rr(P12, [1, ('ptr', len(m.b) - 6)])
    out.append(('far', m, 0))
    s = dict(owner=P12, target=[1, 0])
    add('three', [Q], [s, s, s])
    add('four', [[0]], [dict(owner=[0], target=[1, 0])] * 4)
    if tier == 'thorough':
        add('five', [[0]], [dict(owner=[0], target=[1, 0], small=True)] * 5)
    return out


def dotted(r):
    w = []
    for l in r[1]:
        w += l + [ord('.')]
    return w[:-1]


def less(e, st, a, b):
    c = e.icmp(st, 'ult', a, b, I32)
    r = bool(c) if type(c) is int else e.decide(st, c)
    if r is None and st.facts.range(st.norm(lsub(a, b)), 4)[0] >= 0:
        return False
    return r


def decode(rep, P):
    d = Dns(P, rep)
    F, NF = P.enums['XMPP_DOMAIN_FOUND'], P.enums['XMPP_DOMAIN_NOT_FOUND']
    for label, m, extra in messages(rep.tier):
        e = d.engine(False, loopk=LIMIT)
        e.cutloops = True
        total = len(m.b)
        size = ladd(total, Sym('more', 64, lo=0, hi=4000)) if extra else total

        def hook(st, o, off, sz, ty):
            if o.name == BUF and type(off) is int and sz == 1:
                return m.b[off] if off < total else m_in(off, 1)
            if o.name == BUF:
                return m_in(st.norm(off), sz)
        e.load_hooks.append(hook)
        out = {}

        def arg(st):
            return Ptr(st.new_obj('global', BUF, size, 'lazy').id, 0)

        def lst(st):
            out['o'] = st.new_obj('alloca', 'list', 8, 'undef').id
            return Ptr(out['o'], 0)
        sts = e.start(P.func(ENTRY), [CTX0, arg, size, lst], lambda st: None)
        rep.engine(e, len(sts))
        done = 0
        for st in sts:
            if st.status == 'cut':
                rep.bad('ends', 'rounds', ENTRY, 'the decoding of a message of %d bytes (%s) may go through a loop more than %d times' % (total, label, LIMIT))
                continue
            al = alarms(st) + st.events('oob')
            rep.check('bounds', not al, al[0].kind + ':' + str(al[0].where) if al else 'ok', al[0].where if al else ENTRY, '%s %s' % (al[0].kind, al[0].d) if al else '', label)
            if st.status != 'done':
                continue
            done += 1
            c = st.mem[out['o']].cells.get(0)
            nodes = walk(e, st, RR, c[1] if c else 0, limit=len(m.recs) + 2)
            want = list(m.recs)
            rep.check('records', st.norm(st.ret) == (F if want else NF), 'result:' + label, ENTRY, 'a message (%s) with %d SRV answers is reported as %s' % (label, len(want), 'found' if st.norm(st.ret) == F else 'not found'), label)
            if nodes is None:
                rep.bad('records', 'list:' + label, ENTRY, 'the list of %s is not a list' % label)
                continue
            got = []
            for p in nodes:
                vals = [getfield(e, st, RR, p, x) for x in ('priority', 'weight', 'port')]
                b = st.base_of(p)
                text = []
                for i in range(d.tn):
                    ch = e.load_cell(st, b[0], d.to + i, 1, I8)
                    if ch == 0:
                        break
                    text.append(ch)
                got.append((vals, text))
            rest = list(want)
            order = []
            for vals, text in got:
                hit = [r for r in rest if all(is16(st, v, hl) for v, hl in zip(vals, r[0]))]
                hit.sort(key=lambda r: text != dotted(r))
                if not hit:
                    rep.bad('records', 'fields:' + label, ENTRY, 'a record of %s has priority, weight and port %s' % (label, vals))
                    continue
                r = hit[0]
                rest.remove(r)
                w = dotted(r)
                rep.check('target', text == w, 'target:' + label, ENTRY, 'the target of %s is %s instead of %s' % (label, text[:12], w[:12]), label)
                order.append(vals)
            rep.check('records', not rest, 'missing:' + label, ENTRY, '%d SRV answers of %s are not in the list' % (len(rest), label), label)
            for x, y in zip(order, order[1:]):
                z = [[e.cast(st, 'zext', v, I16, I32) for v in q] for q in (x, y)]
                t = st.copy()
                ok = less(e, st, z[1][0], z[0][0]) is False
                if ok and e.assume(t, e.icmp(t, 'eq', z[0][0], z[1][0], I32), True):
                    ok = less(e, t, z[0][1], z[1][1]) is False
                rep.check('order', ok, 'order', ENTRY, 'a record may stand behind one with a higher priority value, or with the same and a smaller weight', label)
        if not done:
            rep.bad('records', 'nopath:' + label, ENTRY, 'no path decodes ' + label)


def c15(rep):
    P = Program()
    R = rep.rule
    R('bounds', 'no access outside of the message, of the target field or of a record, for any bytes and any length', 40)
    R('ends', 'on every round of a loop of the decoder some number moves in one direction, on every recursive call one shrinks', 5)
    R('outcome', '"found" comes with a list of records whose targets are terminated, "not found" with no list', 20)
    R('records', 'the list holds exactly the IN/SRV answers with their priority, weight and port', 40)
    R('target', 'the target is the expanded name without the final dot', 30)
    R('order', 'ascending priority, and descending weight within a priority', 5)
    safety(rep, P)
    decode(rep, P)
    return 'other', 'disjunctive abstract interpretation of the decoder over an unknown message (arbitrary loop iterations, recursion by contract), and over message skeletons with unknown contents'
