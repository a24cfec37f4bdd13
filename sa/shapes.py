"""Heap shapes: typed abstract objects, linked lists, and walking them."""
from proto import *


def mkobj(e, st, struct, name, default='lazy', kind='heap', **fields):
    """typed object; fields not given are input symbols ('__' in a keyword is '.')"""
    o = st.new_obj(kind, name, e.prog.structsize(struct), default)
    o.stype = struct
    p = Ptr(o.id, 0)
    for f, v in fields.items():
        setfield(e, st, struct, p, f.replace('__', '.'), v)
    return p


def setfield(e, st, struct, p, field, v, sz=None):
    o, o0 = st.base_of(p)
    st.put(o.id, ladd(o0, e.prog.off(struct, field)), sz or e.prog.fieldsize(struct, field), v)


TYS = {1: I8, 2: I16, 4: I32, 8: I64}


def getfield(e, st, struct, p, field, sz=None):
    sz = sz or e.prog.fieldsize(struct, field)
    o, o0 = st.base_of(p)
    if o.stype is None:
        o.stype = struct
    return st.norm(e.load_cell(st, o, ladd(o0, e.prog.off(struct, field)), sz, PTR if sz == 8 else TYS[sz]))


def walk(e, st, struct, head, field='next', limit=12):
    """node pointers from head until NULL; None when cyclic, dangling or opaque"""
    out = []
    p = st.norm(head)
    while st.isnull(p) is not True:
        if len(out) > limit or not isinstance(p, (Ptr, Term)):
            return None
        b = st.base_of(p)
        if b is None or b[0].freed:
            return None
        out.append(p)
        p = getfield(e, st, struct, p, field, 8)
    return out


MEMEV = ('null-deref', 'use-after-free', 'double-free', 'undef-deref', 'bad-free', 'wild-deref', 'undef-call', 'undef-cmp', 'maybe-null-deref')


def alarms(st):
    return st.events(*MEMEV)


def heapstr(st, name, nonnull=True):
    """heap copy of an unknown string: (pointer, term)"""
    t = Sym(name, tag='nonnull')
    return Ptr(heap_str(st, (S(t),), name).id, 0), t


def chain(e, st, fr_ins, calls, result):
    """interpret API calls one after the other at the current call site, then deliver result(st)"""
    ins = fr_ins

    def nxt(st, rv, i=0):
        up = st.frames[-1]
        if i == len(calls):
            if ins.dst is not None:
                up.regs[ins.dst] = result(st)
            if i:
                return
            up.i += 1
            return
        if i:
            up.i -= 1
        f, args = calls[i]
        a = args(st) if callable(args) else args
        nf = Frame(f)
        nf.callline = ins.line
        nf.dst = None
        nf.sd = st.symdec
        nf.x = lambda s2, v, i=i: nxt(s2, v, i + 1)
        e.analysed.add(f)
        for (n, t), v in zip(f.params, a):
            nf.regs[n] = v
        st.frames.append(nf)
    nxt(st, None)
    return PUSHED
