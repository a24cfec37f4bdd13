"""Whole-program structural scans over the IR: call sites, struct field
accesses, callers, reachability (class-hierarchy-free: direct calls plus
address-taken functions for indirect ones)."""
from ir import *
from eng import _sn


def instrs(f):
    for lab in f.order:
        for ins in f.blocks[lab]:
            yield ins


def allfuncs(P):
    for m in P.modules.values():
        for f in m.funcs.values():
            if f.blocks:
                yield f


def callee(ins):
    f = ins.a[0]
    return f[1] if isinstance(f, tuple) and f[0] == 'g' else None


def calls(P, name=None):
    for f in allfuncs(P):
        for ins in instrs(f):
            if ins.op == 'call':
                c = callee(ins)
                if name is None or c == name:
                    yield f, ins, c


def where(f, ins):
    return '%s:%s:%s' % (f.mod.name, f.name, ins.line)


def gep_field(ty, idx):
    """(struct name, byte offset) addressed by a constant-index gep into a struct"""
    if ty.k != 'struct' or len(idx) < 2:
        return None
    off = 0
    t = ty
    for n, (it, iv) in enumerate(idx):
        if n == 0:
            if iv != ('c', 0):
                return None
            continue
        if t.k == 'array':
            return (_sn(ty), off)
        if t.k != 'struct' or iv[0] != 'c':
            return None
        o = offsets(t)[iv[1]]
        off += o
        t = t.els[iv[1]]
    return (_sn(ty), off)


def _val_field(v, fields):
    """struct field address denoted by an operand"""
    if isinstance(v, tuple):
        if v[0] == 'l':
            return fields.get(v[1])
        if v[0] == 'gep':
            return gep_field(v[1], v[3])
    return None


def accesses(P, struct, field):
    """every load/store/escape of the field: (func, ins, 'load'|'store'|'addr', value operand)"""
    off = P.off(struct, field)
    for f in allfuncs(P):
        fl = {}
        for ins in instrs(f):
            if ins.op == 'gep':
                r = gep_field(ins.ty, ins.a[1])
                if r is None and False:
                    continue
                if r:
                    fl[ins.dst] = r
                    # nested: gep of a gep (struct inside struct)
                    b = _val_field(ins.a[0], fl)
                    if b:
                        fl[ins.dst] = (b[0], b[1] + r[1])
        for ins in instrs(f):
            if ins.op == 'load':
                if _val_field(ins.a[0], fl) == (struct, off):
                    yield f, ins, 'load', None
            elif ins.op == 'store':
                if _val_field(ins.a[1], fl) == (struct, off):
                    yield f, ins, 'store', ins.a[0]
                if _val_field(ins.a[0], fl) == (struct, off):
                    yield f, ins, 'addr', None
            elif ins.op == 'call':
                for t, a in ins.a[1]:
                    if _val_field(a, fl) == (struct, off):
                        yield f, ins, 'addr', None


def writers(P, struct, field, nonzero=True):
    """functions that store something other than literal zero to the field"""
    out = {}
    for f, ins, k, v in accesses(P, struct, field):
        if k == 'store' and not (nonzero and v in (('c', 0), ('null',))):
            out.setdefault(f.name, []).append(where(f, ins))
    return out


def addr_taken(P):
    """names of functions whose address is used other than as a direct callee"""
    r = set()

    def ops(v):
        if isinstance(v, tuple):
            if v and v[0] == 'g':
                r.add(v[1])
            else:
                for x in v:
                    ops(x)
        elif isinstance(v, list):
            for x in v:
                ops(x)
        elif isinstance(v, dict):
            for x in v.values():
                ops(x)
    for m in P.modules.values():
        for g in m.globals.values():
            ops(g.init)
        for f in m.funcs.values():
            for ins in instrs(f):
                if ins.op == 'call':
                    if callee(ins) is None:
                        ops(ins.a[0])
                    ops(ins.a[1])
                else:
                    ops(ins.a)
    return {n for n in r if P.has(n)}


def callees(P, f):
    return {callee(i) for i in instrs(f) if i.op == 'call' and callee(i)}


def closure(P, roots, stop=()):
    """functions reachable from roots over direct calls"""
    seen = {}
    todo = [P.func(r) if isinstance(r, str) else r for r in roots]
    while todo:
        f = todo.pop()
        if f.name in seen or f.name in stop:
            continue
        seen[f.name] = f
        for c in callees(P, f):
            g = P.lookup(f.mod, c)
            if g is not None and g.blocks:
                todo.append(g)
    return seen


def callers(P, name):
    return sorted({f.name for f, ins, c in calls(P, name)})
