"""LLVM-IR front end: compiles /repo's current C sources with clang (-O0 -g),
promotes locals to SSA (mem2reg) and parses the textual IR into Python objects.

Nothing here executes the analysed program: the IR is only read."""
import os, re, subprocess, tempfile, shutil, glob
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')

COMMON = ['-DHAVE_STDIO_H=1', '-DHAVE_STDLIB_H=1', '-DHAVE_STRING_H=1', '-DHAVE_UNISTD_H=1',
          '-DHAVE_CLOCK_GETTIME=1', '-DHAVE_SNPRINTF=1', '-DHAVE_VSNPRINTF=1', '-DHAVE_VA_COPY=1',
          '-DHAVE_GETRANDOM=1', '-DLIBXMPP_VERSION_MAJOR=0', '-DLIBXMPP_VERSION_MINOR=14']
ALT_GROUPS = {'tls': ['tls_openssl.c', 'tls_gnutls.c', 'tls_dummy.c', 'tls_schannel.c'],
              'comp': ['compression.c', 'compression_dummy.c'],
              'parser': ['parser_expat.c', 'parser_libxml2.c'],
              'snprintf': ['snprintf.c']}
CONFIGS = {
    'default': (['-DHAVE_ZLIB=1'], {'tls_openssl.c', 'compression.c', 'parser_expat.c'}),
    'alt': (['-DHAVE_ZLIB=1', '-DHAVE_CARES=1', '-I/usr/include/libxml2', '-I/usr/include/p11-kit-1'],
            {'tls_gnutls.c', 'compression.c', 'parser_libxml2.c'}),
    'minimal': (['-DDONT_USE_GETRANDOM=1'], {'tls_dummy.c', 'compression_dummy.c', 'parser_expat.c'}),
}


class AnalysisBroken(Exception):
    """The analysis could not be carried out (vanished anchor, unparsable input)."""


def config_sources(config):
    flags, picks = CONFIGS[config]
    alts = set(sum(ALT_GROUPS.values(), []))
    out = []
    for p in sorted(glob.glob(os.path.join(REPO, 'src', '*.c'))):
        b = os.path.basename(p)
        if b in alts and b not in picks:
            continue
        out.append(b)
    return flags, out


def compile_ir(files, flags, tmp):
    def one(b):
        src = os.path.join(REPO, 'src', b)
        o1 = os.path.join(tmp, b + '.0.ll')
        o2 = os.path.join(tmp, b + '.ll')
        cmd = ['clang-18', '-O0', '-g', '-std=gnu17', '-Xclang', '-disable-O0-optnone', '-fno-builtin',
               '-w', '-S', '-emit-llvm', '-I' + REPO, '-I' + os.path.join(REPO, 'src')] + COMMON + flags + [src, '-o', o1]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise AnalysisBroken('clang failed on %s: %s' % (b, r.stderr[-2000:]))
        r = subprocess.run(['opt-18', '-S', '-passes=mem2reg', o1, '-o', o2], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisBroken('opt failed on %s: %s' % (b, r.stderr[-2000:]))
        os.unlink(o1)
        with open(o2) as f:
            return b, f.read()
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, files))


# ---------------------------------------------------------------- types
class T:
    """kind: int(w) ptr void float array(n,el) struct(name,els) func"""
    __slots__ = ('k', 'w', 'n', 'el', 'name', 'els', '_size', '_offs', 'mod')

    def __init__(s, k, w=0, n=0, el=None, name=None, els=None, mod=None):
        s.k, s.w, s.n, s.el, s.name, s.els, s.mod = k, w, n, el, name, els, mod
        s._size = None
        s._offs = None

    def __repr__(s):
        if s.k == 'int':
            return 'i%d' % s.w
        if s.k == 'array':
            return '[%d x %r]' % (s.n, s.el)
        if s.k == 'struct':
            return s.name or '{%s}' % ','.join(map(repr, s.els))
        return s.k


I1, I8, I16, I32, I64 = (T('int', w) for w in (1, 8, 16, 32, 64))
PTR, VOID = T('ptr'), T('void')
_ints = {1: I1, 8: I8, 16: I16, 32: I32, 64: I64}


def align_of(t):
    if t.k == 'int':
        return max(1, min(16, (t.w + 7) // 8))
    if t.k == 'ptr':
        return 8
    if t.k == 'float':
        return t.w // 8 if t.w != 80 else 16
    if t.k == 'array':
        return align_of(t.el)
    if t.k == 'struct':
        resolve(t)
        return max([align_of(e) for e in t.els] or [1])
    return 1


def resolve(t):
    if t.k == 'struct' and t.els is None:
        d = t.mod.structs.get(t.name)
        if d is None:
            raise AnalysisBroken('opaque struct ' + t.name)
        t.els = d
    return t


def size_of(t):
    if t._size is None:
        if t.k == 'int':
            w = (t.w + 7) // 8
            t._size = 1 << (w - 1).bit_length() if w > 1 else 1
        elif t.k == 'ptr':
            t._size = 8
        elif t.k == 'float':
            t._size = t.w // 8 if t.w != 80 else 16
        elif t.k == 'array':
            t._size = t.n * size_of(t.el)
        elif t.k == 'struct':
            offsets(t)
        else:
            t._size = 1
    return t._size


def offsets(t):
    if t._offs is None:
        resolve(t)
        o = 0
        offs = []
        al = 1
        for e in t.els:
            a = align_of(e)
            al = max(al, a)
            o = (o + a - 1) // a * a
            offs.append(o)
            o += size_of(e)
        t._size = (o + al - 1) // al * al
        t._offs = offs
    return t._offs


_tok = re.compile(r'\s*(c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*"|%"[^"]*"|@"[^"]*"|%[\w.$-]+|@[\w.$-]+|![\w.]*|#\d+|"[^"]*"|-?\d+\.\d+e[+-]\d+|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+|\.\.\.|[\w.$]+|[\[\]{}()<>,=*|:])')


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    m = _tok.match
    while i < n:
        r = m(s, i)
        if not r:
            if s[i:].strip() == '':
                break
            raise AnalysisBroken('tokenize: ' + s[i:i + 60])
        out.append(r.group(1))
        i = r.end()
    return out


# operands: ('c',int) ('null',) ('undef',) ('l',name) ('g',name) ('gep',ty,base,[idx]) ('agg',[...]) ('bytes',b) ('zero',) ('cast',op,x)
class Ins:
    __slots__ = ('op', 'dst', 'ty', 'a', 'x', 'line', 'idx')

    def __init__(s, op, dst=None, ty=None, a=None, x=None, line=0):
        s.op, s.dst, s.ty, s.a, s.x, s.line = op, dst, ty, a, x, line

    def __repr__(s):
        return '%s=%s %s %s %s @%s' % (s.dst, s.op, s.ty, s.a, s.x, s.line)


class Func:
    def __init__(s, name, mod, ret, params, internal, varargs):
        s.name, s.mod, s.ret, s.params, s.internal, s.varargs = name, mod, ret, params, internal, varargs
        s.blocks = {}
        s.order = []
        s.line = 0
        s.headers = None
        s.pnames = []

    def __repr__(s):
        return '<F %s:%s>' % (s.mod.name, s.name)


class Global:
    def __init__(s, name, mod, ty, init, const):
        s.name, s.mod, s.ty, s.init, s.const = name, mod, ty, init, const


class P:
    """token cursor"""

    def __init__(s, toks, mod):
        s.t, s.i, s.mod = toks, 0, mod

    def peek(s):
        return s.t[s.i] if s.i < len(s.t) else None

    def next(s):
        r = s.t[s.i]
        s.i += 1
        return r

    def accept(s, x):
        if s.i < len(s.t) and s.t[s.i] == x:
            s.i += 1
            return True
        return False

    def expect(s, x):
        if not s.accept(x):
            raise AnalysisBroken('expected %s at %s' % (x, s.t[max(0, s.i - 6):s.i + 6]))


ATTRS = {'noundef', 'signext', 'zeroext', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly', 'returned',
         'immarg', 'inreg', 'dso_local', 'local_unnamed_addr', 'unnamed_addr', 'internal', 'private', 'external',
         'hidden', 'global', 'constant', 'tail', 'musttail', 'notail', 'fastcc', 'ccc', 'readnone', 'allocptr',
         'noreturn', 'nounwind', 'weak', 'linkonce_odr', 'common', 'thread_local', 'nofree', 'default', 'swiftself', 'writable',
         'captures', 'range', 'extern_weak'}


def parse_type(p):
    t = p.next()
    if t == 'ptr':
        r = PTR
    elif t == 'void':
        r = VOID
    elif t[0] == 'i' and t[1:].isdigit():
        w = int(t[1:])
        r = _ints.get(w) or _ints.setdefault(w, T('int', w))
    elif t == '[':
        n = int(p.next())
        p.expect('x')
        el = parse_type(p)
        p.expect(']')
        r = T('array', n=n, el=el)
    elif t == '{':
        els = []
        while not p.accept('}'):
            els.append(parse_type(p))
            p.accept(',')
        r = T('struct', els=els, mod=p.mod)
    elif t == '<':
        if p.accept('{'):
            els = []
            while not p.accept('}'):
                els.append(parse_type(p))
                p.accept(',')
            p.expect('>')
            r = T('struct', els=els, mod=p.mod)
        else:
            n = int(p.next())
            p.expect('x')
            el = parse_type(p)
            p.expect('>')
            r = T('array', n=n, el=el)
    elif t[0] == '%':
        r = p.mod.stype(t[1:].strip('"'))
    elif t in ('double', 'float', 'x86_fp80', 'half', 'fp128'):
        r = T('float', w={'double': 64, 'float': 32, 'x86_fp80': 80, 'half': 16, 'fp128': 128}[t])
    elif t in ('metadata', 'label', 'opaque', 'token'):
        r = T(t)
    else:
        raise AnalysisBroken('type? %s in %s' % (t, p.t[max(0, p.i - 5):p.i + 5]))
    # function type?
    while p.peek() == '(' and r.k != 'metadata':
        # "ret (args...)" function type
        d = 0
        while True:
            x = p.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1
                if d == 0:
                    break
        r = T('func', el=r)
    return r


def skip_attrs(p):
    while True:
        t = p.peek()
        if t in ATTRS:
            p.next()
            if p.peek() == '(' and t in ('captures', 'range'):
                _skip_paren(p)
        elif t in ('align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'addrspace', 'initializes'):
            p.next()
            if p.peek() == '(':
                _skip_paren(p)
            else:
                p.next()
        else:
            return


def _skip_paren(p):
    d = 0
    while True:
        x = p.next()
        if x == '(':
            d += 1
        elif x == ')':
            d -= 1
            if d == 0:
                return


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


def parse_value(p, ty):
    t = p.next()
    c = t[0]
    if c == '%':
        return ('l', t[1:].strip('"'))
    if c == '@':
        return ('g', t[1:].strip('"'))
    if c == 'c' and t.startswith('c"'):
        return ('bytes', unescape(t[2:-1]))
    if t == 'null':
        return ('c', 0)
    if t in ('undef', 'poison'):
        return ('undef',)
    if t == 'true':
        return ('c', 1)
    if t == 'false':
        return ('c', 0)
    if t == 'zeroinitializer':
        return ('zero',)
    if t.lstrip('-').isdigit():
        v = int(t)
        if ty.k == 'int':
            v &= (1 << ty.w) - 1
        return ('c', v)
    if t in ('[', '{', '<'):
        end = {'[': ']', '{': '}', '<': '>'}[t]
        if t == '<' and p.peek() == '{':
            p.next()
            els = _agg(p, '}')
            p.expect('>')
            return ('agg', els)
        return ('agg', _agg(p, end))
    if t == 'getelementptr':
        while p.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
            p.next()
            if p.peek() == '(' and p.t[p.i - 1] == 'inrange':
                _skip_paren(p)
        p.expect('(')
        gt = parse_type(p)
        p.expect(',')
        parse_type(p)
        b = parse_value(p, PTR)
        idx = []
        while p.accept(','):
            if p.peek() == 'inrange':
                p.next()
            it = parse_type(p)
            idx.append(parse_value(p, it))
        p.expect(')')
        return ('gep', gt, b, idx)
    if t in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
        p.expect('(')
        ft = parse_type(p)
        v = parse_value(p, ft)
        p.expect('to')
        parse_type(p)
        p.expect(')')
        return ('cast', t, v)
    if t in ('add', 'sub', 'icmp', 'mul', 'and', 'or', 'xor'):
        _skip_paren(p)
        return ('undef',)
    if ty.k == 'float':
        return ('undef',)
    if c == '!':
        return ('md', t)
    raise AnalysisBroken('value? %s %s' % (t, p.t[:20]))


def _agg(p, end):
    els = []
    while not p.accept(end):
        et = parse_type(p)
        els.append((et, parse_value(p, et)))
        p.accept(',')
    return els


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv'}
CAST = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'freeze'}
_dbgre = re.compile(r', !(?:dbg|srcloc|tbaa|nosanitize|range|llvm\.loop|unpredictable) ![\w.]+')
_dbg = re.compile(r'!dbg !(\d+)')


class Module:
    def __init__(s, name, text, prog):
        s.name, s.prog = name, prog
        s.structs = {}
        s._st = {}
        s.globals = {}
        s.funcs = {}
        s.decls = set()
        s.md = {}
        s.mdlines = {}
        s.parse(text)

    def stype(s, n):
        t = s._st.get(n)
        if t is None:
            t = s._st[n] = T('struct', name=n, mod=s)
        return t

    def parse(s, text):
        lines = text.split('\n')
        # metadata first
        for ln in lines:
            if ln.startswith('!'):
                k, _, v = ln.partition(' = ')
                s.md[k[1:]] = v
        for ln in lines:
            if ln.startswith('%') and ' = type ' in ln:
                n, _, d = ln.partition(' = type ')
                n = n[1:].strip('"')
                if d.strip() == 'opaque':
                    continue
                p = P(tokenize(d), s)
                s.structs[n] = parse_type(p).els
        i = 0
        N = len(lines)
        while i < N:
            ln = lines[i]
            if ln.startswith('@'):
                s.parse_global(ln)
            elif ln.startswith('define '):
                i = s.parse_func(lines, i)
            elif ln.startswith('declare '):
                m = re.search(r'@("[^"]*"|[\w.$-]+)\(', ln)
                s.decls.add(m.group(1).strip('"'))
            i += 1

    def parse_global(s, ln):
        ln = _dbgre.sub('', ln)
        name, _, rest = ln.partition(' = ')
        name = name[1:].strip('"')
        p = P(tokenize(rest), s)
        const = False
        ext = False
        while p.peek() in ATTRS or p.peek() in ('thread_local',):
            x = p.next()
            if x == 'constant':
                const = True
                break
            if x == 'global':
                break
            if x == 'external':
                ext = True
        ty = parse_type(p)
        init = None
        if not ext and p.peek() not in (None, ','):
            init = parse_value(p, ty)
        s.globals[name] = Global(name, s, ty, init, const)

    def line_of(s, ln):
        m = _dbg.search(ln)
        if not m:
            return 0
        k = m.group(1)
        r = s.mdlines.get(k)
        if r is None:
            mm = re.search(r'line: (\d+)', s.md.get(k, ''))
            r = s.mdlines[k] = int(mm.group(1)) if mm else 0
        return r

    def parse_func(s, lines, i):
        ln = lines[i]
        line0 = s.line_of(ln)
        h = _dbg.sub('', ln)
        p = P(tokenize(h.rstrip('{ ')), s)
        p.next()
        internal = False
        while True:
            skip_attrs_before = p.i
            if p.peek() == 'internal':
                internal = True
            skip1 = p.peek()
            if skip1 in ATTRS:
                p.next()
                continue
            if skip1 in ('align', 'dereferenceable', 'dereferenceable_or_null'):
                skip_attrs(p)
                continue
            break
        ret = parse_type(p) if True else None
        # parse_type may have swallowed a '(' as fn type only if '@' missing; guard
        name = p.next()[1:].strip('"')
        p.expect('(')
        params = []
        va = False
        while not p.accept(')'):
            if p.accept('...'):
                va = True
                continue
            t = parse_type(p)
            skip_attrs(p)
            n = p.next()
            params.append((n[1:].strip('"'), t))
            p.accept(',')
        f = Func(name, s, ret, params, internal, va)
        f.line = line0
        nparam = len(params)
        cur = None
        i += 1
        first = True
        while lines[i] != '}':
            l = lines[i]
            i += 1
            if not l or l.lstrip().startswith(';'):
                continue
            if l[0] != ' ':
                lab = l.split(':')[0].strip('"')
                cur = []
                f.blocks[lab] = cur
                f.order.append(lab)
                first = False
                continue
            if first:
                # implicit entry label = number of params
                lab = str(nparam)
                # unnamed args numbering: entry block takes next number
                cur = []
                f.blocks[lab] = cur
                f.order.append(lab)
                first = False
            if '@llvm.dbg.' in l:
                continue
            if l.strip().startswith('switch') and '[' in l and ']' not in l.split('[', 1)[1]:
                while True:
                    l2 = lines[i]
                    i += 1
                    l += ' ' + l2
                    if l2.strip().startswith(']'):
                        break
            ins = s.parse_ins(l)
            if ins:
                cur.append(ins)
        s.funcs[name] = f
        return i

    def parse_ins(s, l):
        line = s.line_of(l)
        l = _dbgre.sub('', l)
        p = P(tokenize(l), s)
        dst = None
        if p.t[0][0] == '%' and p.t[1] == '=':
            dst = p.t[0][1:].strip('"')
            p.i = 2
        op = p.next()
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
        if op in BIN:
            while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint', 'fast', 'nnan', 'contract'):
                p.next()
            t = parse_type(p)
            a = parse_value(p, t)
            p.expect(',')
            b = parse_value(p, t)
            return Ins('bin', dst, t, (a, b), op, line)
        if op in CAST:
            while p.peek() in ('nneg', 'nuw', 'nsw'):
                p.next()
            t = parse_type(p)
            a = parse_value(p, t)
            if op == 'freeze':
                return Ins('cast', dst, t, (a, t), op, line)
            p.expect('to')
            t2 = parse_type(p)
            return Ins('cast', dst, t2, (a, t), op, line)
        if op == 'load':
            p.accept('volatile')
            t = parse_type(p)
            p.expect(',')
            parse_type(p)
            a = parse_value(p, PTR)
            return Ins('load', dst, t, (a,), None, line)
        if op == 'store':
            p.accept('volatile')
            t = parse_type(p)
            v = parse_value(p, t)
            p.expect(',')
            parse_type(p)
            a = parse_value(p, PTR)
            return Ins('store', None, t, (v, a), None, line)
        if op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                p.next()
            t = parse_type(p)
            p.expect(',')
            parse_type(p)
            b = parse_value(p, PTR)
            idx = []
            while p.accept(','):
                it = parse_type(p)
                idx.append((it, parse_value(p, it)))
            return Ins('gep', dst, t, (b, idx), None, line)
        if op == 'alloca':
            t = parse_type(p)
            n = ('c', 1)
            if p.accept(',') and p.peek() not in ('align',):
                nt = parse_type(p)
                n = parse_value(p, nt)
            return Ins('alloca', dst, t, (n,), None, line)
        if op == 'icmp':
            pred = p.next()
            t = parse_type(p)
            a = parse_value(p, t)
            p.expect(',')
            b = parse_value(p, t)
            return Ins('icmp', dst, t, (a, b), pred, line)
        if op == 'fcmp':
            return Ins('undef', dst, I1, (), None, line)
        if op == 'br':
            if p.accept('label'):
                return Ins('jmp', None, None, None, p.next()[1:].strip('"'), line)
            parse_type(p)
            c = parse_value(p, I1)
            p.expect(',')
            p.expect('label')
            a = p.next()[1:].strip('"')
            p.expect(',')
            p.expect('label')
            b = p.next()[1:].strip('"')
            return Ins('br', None, None, (c,), (a, b), line)
        if op == 'switch':
            t = parse_type(p)
            v = parse_value(p, t)
            p.expect(',')
            p.expect('label')
            d = p.next()[1:].strip('"')
            p.expect('[')
            cases = []
            while not p.accept(']'):
                ct = parse_type(p)
                cv = parse_value(p, ct)
                p.expect(',')
                p.expect('label')
                cases.append((cv[1], p.next()[1:].strip('"')))
            return Ins('switch', None, t, (v,), (d, cases), line)
        if op == 'ret':
            t = parse_type(p)
            if t.k == 'void':
                return Ins('ret', None, t, (), None, line)
            return Ins('ret', None, t, (parse_value(p, t),), None, line)
        if op == 'phi':
            t = parse_type(p)
            inc = []
            while True:
                p.expect('[')
                v = parse_value(p, t)
                p.expect(',')
                inc.append((p.next()[1:].strip('"'), v))
                p.expect(']')
                if not p.accept(','):
                    break
            return Ins('phi', dst, t, dict(inc), None, line)
        if op == 'select':
            parse_type(p)
            c = parse_value(p, I1)
            p.expect(',')
            t = parse_type(p)
            a = parse_value(p, t)
            p.expect(',')
            parse_type(p)
            b = parse_value(p, t)
            return Ins('select', dst, t, (c, a, b), None, line)
        if op == 'unreachable':
            return Ins('unreachable', line=line)
        if op == 'call':
            skip_attrs(p)
            # return type; may be a full function type
            save = p.i
            t = parse_type(p)
            if t.k == 'func':
                t = t.el
            callee = p.next()
            if callee in ('asm',):
                return Ins('asm', dst, t, (), None, line)
            if callee[0] == '@':
                fn = ('g', callee[1:].strip('"'))
            elif callee[0] == '%':
                fn = ('l', callee[1:].strip('"'))
            else:
                raise AnalysisBroken('callee? ' + l)
            p.expect('(')
            args = []
            while not p.accept(')'):
                at = parse_type(p)
                skip_attrs(p)
                if at.k == 'metadata':
                    p.next()
                    args.append((at, ('undef',)))
                else:
                    args.append((at, parse_value(p, at)))
                p.accept(',')
            return Ins('call', dst, t, (fn, args), None, line)
        if op == 'va_arg':
            return Ins('undef', dst, None, (), None, line)
        if op == 'extractvalue':
            t = parse_type(p)
            a = parse_value(p, t)
            idx = []
            while p.accept(','):
                idx.append(int(p.next()))
            return Ins('extractvalue', dst, t, (a,), idx, line)
        if op == 'insertvalue':
            return Ins('undef', dst, None, (), None, line)
        if op in ('fneg',):
            return Ins('undef', dst, None, (), None, line)
        if op in ('atomicrmw', 'cmpxchg', 'fence'):
            return Ins('undef', dst, None, (), None, line)
        raise AnalysisBroken('instruction? ' + l)

    # ------------------------------------------------------ debug info
    def di_fields(s, structname):
        """struct name without 'struct.' -> list of (byte offset, field, DI type id)"""
        d = s.prog.di_cache.setdefault(s.name, None)
        if d is None:
            d = {}
            for k, v in s.md.items():
                if v.startswith(('distinct !DICompositeType(', '!DICompositeType(')) and \
                        ('DW_TAG_structure_type' in v or 'DW_TAG_union_type' in v):
                    m = re.search(r'name: "([^"]*)"', v)
                    e = re.search(r'elements: !(\d+)', v)
                    if m and e:
                        d.setdefault(m.group(1), k)
            s.prog.di_cache[s.name] = d
        k = d.get(structname)
        return s.di_members(k) if k else None

    def di_members(s, k):
        v = s.md[k]
        e = re.search(r'elements: !(\d+)', v)
        if not e:
            return []
        out = []
        for mid in re.findall(r'!(\d+)', s.md[e.group(1)]):
            mv = s.md[mid]
            if 'DW_TAG_member' not in mv:
                continue
            nm = re.search(r'name: "([^"]*)"', mv)
            off = re.search(r'offset: (\d+)', mv)
            bt = re.search(r'baseType: !(\d+)', mv)
            sz = re.search(r'size: (\d+)', mv)
            out.append((int(off.group(1)) // 8 if off else 0, nm.group(1) if nm else '', bt.group(1) if bt else None, int(sz.group(1)) // 8 if sz else 0))
        return out

    def di_strip(s, k):
        while k:
            v = s.md[k]
            if re.search(r'DW_TAG_(typedef|const_type|volatile_type)', v):
                m = re.search(r'baseType: !(\d+)', v)
                k = m.group(1) if m else None
            else:
                return k
        return None


class Program:
    def __init__(s, config='default', only=None):
        s.config = config
        s.di_cache = {}
        flags, files = config_sources(config)
        if only:
            missing = [f for f in only if f not in files]
            files = [f for f in files if f in only]
            if missing:
                raise AnalysisBroken('source file vanished: %s' % missing)
        tmp = tempfile.mkdtemp(prefix='sa-ir-')
        try:
            texts = compile_ir(files, flags, tmp)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        s.modules = {}
        for b, txt in texts:
            s.modules[b] = Module(b, txt, s)
        s.index()

    def index(s):
        s.ext = {}
        s.gext = {}
        for m in s.modules.values():
            for f in m.funcs.values():
                if not f.internal:
                    s.ext[f.name] = f
            for g in m.globals.values():
                if g.init is not None and not g.name.startswith('.str'):
                    s.gext.setdefault(g.name, g)
        s.enums = {}
        for m in s.modules.values():
            for v in m.md.values():
                if v.startswith('!DIEnumerator('):
                    n = re.search(r'name: "([^"]*)", value: (-?\d+)', v)
                    if n:
                        s.enums[n.group(1)] = int(n.group(2))
        s._layout = {}
        s._fsize = {}

    def func(s, name, mod=None):
        """function by name: 'file.c:name' or 'name' (unique)."""
        if ':' in name:
            mod, name = name.split(':')
        if mod:
            m = s.modules.get(mod)
            if m and name in m.funcs:
                return m.funcs[name]
            # moved to another file?
        c = [m.funcs[name] for m in s.modules.values() if name in m.funcs]
        if len(c) == 1:
            return c[0]
        raise AnalysisBroken('anchor function %s not found (%d candidates)' % (name, len(c)))

    def has(s, name):
        return any(name in m.funcs for m in s.modules.values())

    def lookup(s, mod, name):
        f = mod.funcs.get(name)
        if f:
            return f
        return s.ext.get(name)

    def written_globals(s):
        """(module, name) of the variables with static storage some function stores to
        (directly, through a derived pointer, or by handing their address to a call)"""
        w = getattr(s, '_wg', None)
        if w is not None:
            return w
        w = set()

        def base(v, loc):
            while isinstance(v, tuple):
                if v[0] == 'g':
                    return v[1]
                if v[0] == 'l':
                    return loc.get(v[1])
                if v[0] not in ('gep', 'cast'):
                    return None
                v = v[2]
            return None
        for m in s.modules.values():
            for f in m.funcs.values():
                loc = {}
                for _ in (0, 1):
                    for lab in f.order:
                        for ins in f.blocks[lab]:
                            if ins.op in ('gep', 'cast') and ins.dst is not None:
                                b = base(ins.a[0], loc)
                                if b:
                                    loc[ins.dst] = b
                for lab in f.order:
                    for ins in f.blocks[lab]:
                        b = None
                        if ins.op == 'store':
                            b = base(ins.a[1], loc)
                        elif ins.op == 'call':
                            for t, v in ins.a[1]:
                                c = base(v, loc)
                                g = s.glob(m, c) if c else None
                                if g is not None and not g.const and g.ty.k not in ('struct', 'array'):
                                    w.add((g.mod.name, c))
                            fn = ins.a[0]
                            if ins.a[1] and isinstance(fn, tuple) and fn[0] == 'g' and (
                                    fn[1].startswith('llvm.mem') or fn[1] in ('memcpy', 'memset', 'strcpy', 'memmove')):
                                b = base(ins.a[1][0][1], loc)
                        g = s.glob(m, b) if b else None
                        if g is not None:
                            w.add((g.mod.name, b))
        s._wg = w
        return w

    def glob(s, mod, name):
        g = mod.globals.get(name)
        if g and g.init is not None:
            return g
        g2 = s.gext.get(name)
        return g2 or g

    def ninstr(s):
        return sum(len(b) for m in s.modules.values() for f in m.funcs.values() for b in f.blocks.values())

    def nfuncs(s):
        return sum(len(m.funcs) for m in s.modules.values())

    # struct layout: name -> {field path: (offset, size)}
    def layout(s, structname):
        r = s._layout.get(structname)
        if r is None:
            best = None
            for m in s.modules.values():
                f = m.di_fields(structname)
                if f and (best is None or len(f) > len(best[1])):
                    best = (m, f)
            if best is None:
                raise AnalysisBroken('struct %s not found' % structname)
            r = {}
            z = s._fsize.setdefault(structname, {})
            s._fill(best[0], best[1], 0, '', r, z)
            s._layout[structname] = r
        return r

    def fieldsize(s, structname, field):
        s.off(structname, field)
        return s._fsize[structname][field]

    def structsize(s, structname):
        l = s.layout(structname)
        e = max(l[k] + s._fsize[structname][k] for k in l)
        return (e + 7) // 8 * 8

    def _fill(s, m, fields, base, pref, out, sz):
        for off, nm, bt, size in fields:
            if nm:
                out.setdefault(pref + nm, base + off)
                sz.setdefault(pref + nm, size)
            k = m.di_strip(bt)
            if k and ('DW_TAG_structure_type' in m.md[k] or 'DW_TAG_union_type' in m.md[k]) and 'elements' in m.md[k]:
                s._fill(m, m.di_members(k), base + off, pref + nm + '.' if nm else pref, out, sz)

    def off(s, structname, field):
        l = s.layout(structname)
        if field not in l:
            raise AnalysisBroken('field %s.%s vanished' % (structname, field))
        return l[field]

    def fieldname(s, structname, off):
        try:
            l = s.layout(structname)
        except AnalysisBroken:
            return None
        best = None
        for k, v in l.items():
            if v == off and (best is None or k.count('.') > best.count('.')):
                best = k
        return best


if __name__ == '__main__':
    import time
    for c in CONFIGS:
        t = time.time()
        p = Program(c)
        print(c, len(p.modules), p.nfuncs(), p.ninstr(), time.time() - t)
        if c == 'default':
            print(p.layout('_xmpp_sm_t'))
            print(sorted(p.layout('_xmpp_conn_t').items(), key=lambda x: x[1])[:200])
