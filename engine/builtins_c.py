"""Models of the C library and the vf_* specification intrinsics."""
import z3
import vfe
from vfe import Ptr, NULL, Base, Cells, Copy, Write, BV, BVV, bv, simp, simpb, is_sym, Unsupported, PathEnd, F32, F64, RNE, \
    RTP, RTN, RTZ, RNA, sort_of, fconst
from llir import FConst, sx

TAB = {}


def lookup(n):
    return TAB.get(n)


def bi(*names):
    def d(f):
        for n in names:
            TAB[n] = f
        return f
    return d


def cstring(E, st, p, limit=1 << 16):
    """concrete C string at p, or None if any byte is symbolic"""
    out = bytearray()
    o = E.access(st, p, 1, 'read')
    off = p.off
    if type(off) is not int:
        return None
    while True:
        if type(o.size) is int and off >= o.size:
            E.prove(st, False, 'mem:read out of bounds in %s (string)' % st.frames[-1].fn.name, 'memory')
        b = E.read(st, o.node, off, 1, ('i', 8))
        if not isinstance(b, int):
            if z3.is_bv_value(b):
                b = b.as_long()
            else:
                return None
        if b == 0:
            return bytes(out)
        out.append(b)
        off += 1
        if len(out) > limit:
            raise Unsupported('long string')


def label(E, st, p):
    s = cstring(E, st, p).decode()
    pre = ()
    for f in reversed(st.frames):
        if f.prefix is not None:
            pre = f.prefix
            break
    key = ''.join(x if isinstance(x, str) else (str(x) if isinstance(x, int) else 'e%d' % x.get_id()) for x in pre) + s
    n = st.lab.get(key, 0)
    nm = s if n == 0 else '%s#%d' % (s, n)
    return key, n, pre + (nm,), key + ('' if n == 0 else '#%d' % n)


def commit(E, st, key, n, parts, kind, e):
    st.lab[key] = n + 1
    st.syms.append((parts, kind, e))


def symint(w, signed=False):
    def g(E, st, f, av, ts, rt):
        key, n, parts, name = label(E, st, av[0])
        v = BV(name, w)
        commit(E, st, key, n, parts, 'u%d' % w, v)
        return v
    return g


for w in (8, 16, 32, 64):
    TAB['vf_u%d' % w] = symint(w)
    TAB['vf_i%d' % w] = symint(w)


@bi('vf_f32')
def vf_f32(E, st, f, av, ts, rt):
    key, n, parts, name = label(E, st, av[0])
    v = z3.FP(name, F32)
    commit(E, st, key, n, parts, 'f32', v)
    return v


@bi('vf_bool')
def vf_bool(E, st, f, av, ts, rt):
    key, n, parts, name = label(E, st, av[0])
    v = z3.Bool(name)
    commit(E, st, key, n, parts, 'u32', z3.If(v, BVV(1, 32), BVV(0, 32)))
    return z3.If(v, BVV(1, 32), BVV(0, 32))


@bi('vf_choose')
def vf_choose(E, st, f, av, ts, rt):
    key, n, parts, name = label(E, st, av[0])
    k = av[1]
    v = BV(name, 32)
    r = None
    ck = ('choose', name)
    if ck not in st.cache:
        E.add(st, z3.ULT(v, BVV(k, 32)))
        st.cache[ck] = True
    fc = E.opts.get('force') or {}
    fk = key if n == 0 else '%s#%d' % (key, n)
    if fk in fc:
        r = fc[fk]
        if r >= k:
            raise PathEnd()
        E.add(st, v == r)
        commit(E, st, key, n, parts, 'u32', BVV(r, 32))
        return r
    for i in range(k - 1):
        if E.decide(st, v == i):
            r = i
            break
    else:
        r = k - 1
    commit(E, st, key, n, parts, 'u32', BVV(r, 32))
    return r


@bi('vf_opaque')
def vf_opaque(E, st, f, av, ts, rt):
    key, n, parts, name = label(E, st, av[0])
    st.opts['abs'] = True
    v = BV(name, 64)
    commit(E, st, key, n, parts, 'u64', v)
    return v


@bi('vf_abstract')
def vf_abstract(E, st, f, av, ts, rt):
    key, n, parts, name = label(E, st, av[0])
    st.lab[key] = n + 1
    st.opts['abs'] = True
    return Ptr(E.newobj(st, 16, Base('zero', parts), 'abstract', name), 0)


@bi('vf_buf')
def vf_buf(E, st, f, av, ts, rt):
    key, n, parts, name = label(E, st, av[0])
    b = Base('sym', parts)
    i = E.newobj(st, av[1], b, 'heap', name, lazy=any(fr.hook and fr.hook[0] == 'lazy' for fr in st.frames))
    commit(E, st, key, n, parts, 'buf', (b, av[1]))
    return Ptr(i, 0)


@bi('vf_lazyptrs')
def vf_lazyptrs(E, st, f, av, ts, rt):
    """void** vf_lazyptrs(label, count, cap, mk): array of cap pointers, element i made by mk(i) on first read"""
    key, n, parts, name = label(E, st, av[0])
    fn = E.funcs[E.idf[av[2].obj]]
    b = Base('lazy', parts, mk=fn)
    cap = av[1]
    size = cap * 8 if isinstance(cap, int) else simp(cap * 8)
    i = E.newobj(st, size, b, 'heap', name)
    st.lab[key] = n + 1
    return Ptr(i, 0)


@bi('vf_preset')
def vf_preset(E, st, f, av, ts, rt):
    """vf_preset(arr, idx, ptr): element idx of a lazy array is ptr"""
    o = E.obj(st, av[0].obj)
    nd = o.node
    while nd.__class__ is not Base:
        nd = nd.prev
    off = av[1] * 8 if isinstance(av[1], int) else simp(av[1] * 8)
    st.memo[nd.id] = st.memo.get(nd.id, ()) + ((off, av[2]),)


@bi('vf_assume')
def vf_assume(E, st, f, av, ts, rt):
    E.assume(st, E.truth(av[0]))


@bi('vf_assert')
def vf_assert(E, st, f, av, ts, rt):
    E.prove(st, E.truth(av[0]), 'post:' + cstring(E, st, av[1]).decode(), 'contract')


@bi('vf_cover')
def vf_cover(E, st, f, av, ts, rt):
    n = cstring(E, st, av[0]).decode()
    if n not in E.covers:
        if E.feasible(st):
            E.covers.add(n)


@bi('vf_note')
def vf_note(E, st, f, av, ts, rt):
    st.notes = st.notes + (cstring(E, st, av[0]).decode(),)


@bi('vf_end')
def vf_end(E, st, f, av, ts, rt):
    raise PathEnd()


@bi('vf_allow_abort')
def vf_allow_abort(E, st, f, av, ts, rt):
    st.opts['allow_abort'] = bool(av[0])


@bi('vf_muldiv')
def vf_muldiv(E, st, f, av, ts, rt):
    """from here on products and quotients of unknowns are known only by lemmas (proofs only)"""
    E.absmul = bool(av[0]) and not E.bounded


@bi('vf_unwind')
def vf_unwind(E, st, f, av, ts, rt):
    st.opts['unwind'] = av[0]


@bi('vf_live')
def vf_live(E, st, f, av, ts, rt):
    p = av[0]
    if not isinstance(p, Ptr) or p.obj == 0:
        return 0
    return 1 if E.obj(st, p.obj).alive else 0


@bi('vf_sameobj')
def vf_sameobj(E, st, f, av, ts, rt):
    p, q = av
    if not isinstance(p, Ptr) or not isinstance(q, Ptr) or p.obj == 0:
        return 0
    return 1 if p.obj == q.obj else 0


@bi('vf_bounded')
def vf_bounded(E, st, f, av, ts, rt):
    return 1 if E.bounded else 0


@bi('vf_fork')
def vf_fork(E, st, f, av, ts, rt):
    """split on a condition; returns it concretely"""
    return 1 if E.decide(st, E.truth(av[0])) else 0


@bi('vf_havoc')
def vf_havoc(E, st, f, av, ts, rt):
    p, n = av[0], av[1]
    E.access(st, p, n, 'havoc', True)
    if st.loopctx or st.modrec is not None:
        E.loopguard(st, p.obj, p.off, n)
    o = E.wobj(st, p.obj)
    o.node = Copy(p.off, n, Base('sym', ('havoc',)), 0, o.node)


@bi('vf_feq')
def vf_feq(E, st, f, av, ts, rt):
    """identical floats (same value, or both NaN)"""
    a, b = av
    r = simpb(z3.Or(a == b))
    return int(r) if isinstance(r, bool) else z3.If(r, BVV(1, 32), BVV(0, 32))


# ---- allocation -------------------------------------------------------------
@bi('malloc', 'alloca')
def malloc(E, st, f, av, ts, rt):
    return Ptr(E.newobj(st, av[0], Base('sym', ('malloc',)), 'heap', 'malloc in ' + f.fn.name), 0)


@bi('calloc')
def calloc(E, st, f, av, ts, rt):
    n = av[0] * av[1] if isinstance(av[0], int) and isinstance(av[1], int) else simp(bv(av[0], 64) * bv(av[1], 64))
    return Ptr(E.newobj(st, n, Base('zero'), 'heap', 'calloc in ' + f.fn.name), 0)


@bi('free')
def free(E, st, f, av, ts, rt):
    p = av[0]
    if isinstance(p, Ptr) and p.obj == 0:
        return None
    if not isinstance(p, Ptr):
        if E.decide(st, p == 0):
            return None
        E.prove(st, False, 'mem:free of a wild pointer in %s' % f.fn.name, 'memory')
    o = E.obj(st, p.obj)
    if o.kind == 'abstract':
        E.access(st, p, 0, 'free')
    if not o.alive:
        E.prove(st, False, 'mem:double free in %s' % f.fn.name, 'memory')
    if o.kind != 'heap' or not (type(p.off) is int and p.off == 0):
        E.prove(st, False, 'mem:invalid free in %s' % f.fn.name, 'memory')
    if st.loopctx or st.modrec is not None:
        E.loopguard(st, p.obj, 0, o.size)
    o = E.wobj(st, p.obj)
    o.alive = False


@bi('realloc')
def realloc(E, st, f, av, ts, rt):
    p, n = av
    if isinstance(p, Ptr) and p.obj == 0:
        return malloc(E, st, f, [n], ts, rt)
    o = E.access(st, p, 0, 'realloc')
    if o.kind != 'heap' or not (type(p.off) is int and p.off == 0):
        E.prove(st, False, 'mem:invalid realloc in %s' % f.fn.name, 'memory')
    if isinstance(n, int) and isinstance(o.size, int):
        k = min(n, o.size)
    else:
        a, b = bv(n, 64), bv(o.size, 64)
        if E.decide(st, z3.ULE(b, a)):
            k = o.size
        else:
            k = n
    if st.loopctx or st.modrec is not None:
        E.loopguard(st, p.obj, 0, o.size)
    i = E.newobj(st, n, Base('sym', ('realloc',)), 'heap', o.name)
    nd = o.node
    if nd.__class__ is Cells:
        nd = Cells(nd.d.copy(), nd.prev)
    if type(k) is int and o.size is k and type(n) is int and n >= k and nd.__class__ is Cells and nd.prev.__class__ is Base:
        st.mem[i].node = Copy(0, k, nd, 0, st.mem[i].node)
    elif not (type(k) is int and k == 0):
        st.mem[i].node = Copy(0, k, nd, 0, st.mem[i].node)
    o = E.wobj(st, p.obj)
    o.alive = False
    return Ptr(i, 0)


@bi('llvm.memcpy.p0.p0.i64', 'llvm.memmove.p0.p0.i64', 'memcpy', 'memmove')
def memcpy(E, st, f, av, ts, rt):
    E.memcopy(st, av[0], av[1], av[2])
    return av[0]


@bi('llvm.memset.p0.i64', 'memset')
def memset(E, st, f, av, ts, rt):
    p, c, n = av[0], av[1], av[2]
    if isinstance(n, int) and n == 0:
        return p
    if is_sym(n) and E.decide(st, n == 0):
        return p
    E.access(st, p, n, 'block write', True)
    if st.loopctx or st.modrec is not None:
        E.loopguard(st, p.obj, p.off, n)
    o = E.wobj(st, p.obj)
    if isinstance(c, int) and c & 0xff == 0:
        o.node = Copy(p.off, n, Base('zero'), 0, o.node)
    else:
        raise Unsupported('memset of nonzero')
    return p


# ---- strings (concrete fast path; else the C text in vf_libc.c) ---------------
@bi('strlen')
def strlen(E, st, f, av, ts, rt):
    s = cstring(E, st, av[0])
    return len(s) if s is not None else ('CCALL', 'vfl_strlen')


@bi('strcmp')
def strcmp(E, st, f, av, ts, rt):
    a, b = cstring(E, st, av[0]), cstring(E, st, av[1])
    if a is None or b is None:
        return ('CCALL', 'vfl_strcmp')
    if a == b:
        return 0
    # sign as glibc: difference of the first differing bytes
    a += b'\0'
    b += b'\0'
    for x, y in zip(a, b):
        if x != y:
            return (x - y) & 0xffffffff


@bi('__errno_location')
def errno_location(E, st, f, av, ts, rt):
    return ('CCALL', 'vfl_errno_location')


@bi('strtol', '__isoc23_strtol', 'strtoll')
def strtol(E, st, f, av, ts, rt):
    return ('CCALL', 'vfl_strtol')


@bi('strtof', 'strtod', 'atof')
def strtof(E, st, f, av, ts, rt):
    import re
    s = cstring(E, st, av[0])
    if s is None:
        raise Unsupported('strtof of symbolic text')
    m = re.match(rb'[ \t-\r]*([+-]?(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?)', s)
    if not m and re.match(rb'[ \t-\r]*[+-]?(inf|nan|0x)', s, re.I):
        raise Unsupported('strtof')
    if len(av) > 1 and av[1].obj:
        E.store(st, av[1], 8, Ptr(av[0].obj, av[0].off + (m.end() if m else 0)), ('p',))
    return z3.FPVal(float(m.group(1)) if m else 0.0, z3.Float32() if rt == ('f', 32) else z3.Float64())


@bi('strncmp')
def strncmp(E, st, f, av, ts, rt):
    return ('CCALL', 'vfl_strncmp')


def putbytes(E, st, p, bs):
    o = E.access(st, p, len(bs), 'block write', True)
    if st.loopctx or st.modrec is not None:
        E.loopguard(st, p.obj, p.off, len(bs))
    o = E.wobj(st, p.obj)
    for i, b in enumerate(bs):
        E.put(st, o, p.off + i if type(p.off) is int else simp(p.off + i), 1, b)


@bi('strdup')
def strdup(E, st, f, av, ts, rt):
    s = cstring(E, st, av[0])
    if s is None:
        return ('CCALL', 'vfl_strdup')
    s += b'\0'
    i = E.newobj(st, len(s), Cells({k: (1, b) for k, b in enumerate(s)}, Base('zero')), 'heap', 'strdup')
    return Ptr(i, 0)


@bi('strcpy')
def strcpy(E, st, f, av, ts, rt):
    s = cstring(E, st, av[1])
    if s is None:
        return ('CCALL', 'vfl_strcpy')
    putbytes(E, st, av[0], s + b'\0')
    return av[0]


for _n in ('strncpy', 'strncat', 'strchr', 'memcmp', 'strcat', 'qsort', 'strtok_r', 'memchr', 'strrchr', 'strnlen', 'strndup', 'strstr', 'strcasecmp', 'strsep', 'isspace', 'fopen', 'fclose', 'getline', 'strspn', 'strcspn'):
    TAB[_n] = (lambda nm: (lambda E, st, f, av, ts, rt: ('CCALL', 'vfl_' + nm)))(_n)


# ---- I/O ----------------------------------------------------------------------
@bi('printf', 'perror', 'puts', 'putchar', 'fflush', 'vfprintf')
def nop(E, st, f, av, ts, rt):
    return 0


# one file, kept in memory by contracts/vf_libc.c
def isfile(E, st, p):
    return isinstance(p, Ptr) and p.obj and E.obj(st, p.obj).name == 'vfl_file'


@bi('fprintf')
def fprintf(E, st, f, av, ts, rt):
    if not isfile(E, st, av[0]):
        return 0
    s = fmt(E, st, av[1:], ts[1:])
    if s is None:
        raise Unsupported('fprintf of symbolic values')
    return ('CCALL', 'vfl_fputs', [text(E, st, s), av[0]])


@bi('fputs')
def fputs(E, st, f, av, ts, rt):
    return ('CCALL', 'vfl_fputs') if isfile(E, st, av[1]) else 0


@bi('fputc', 'putc')
def fputc(E, st, f, av, ts, rt):
    return ('CCALL', 'vfl_fputc') if isfile(E, st, av[1]) else 0


@bi('__ctype_b_loc')
def ctype_b_loc(E, st, f, av, ts, rt):
    return ('CCALL', 'vfl_ctype_b_loc')


@bi('strtoul', '__isoc23_strtoul', 'strtoull')
def strtoul(E, st, f, av, ts, rt):
    return ('CCALL', 'vfl_strtoul')


def fmt(E, st, av, ts):
    """format with concrete arguments, or None"""
    s = cstring(E, st, av[0])
    if s is None:
        return None
    out = b''
    i = 0
    a = 1
    s = s.decode('latin1')
    import re
    for m in re.finditer(r'%(-?\d*)(?:\.(\d+))?(h{0,2}|l{0,2}|z)([duisfcxp%g])|([^%]+)', s):
        if m.group(5):
            out += m.group(5).encode('latin1')
            continue
        c = m.group(4)
        if c == '%':
            out += b'%'
            continue
        v = av[a]
        t = ts[a]
        a += 1
        if c == 's':
            if not isinstance(v, Ptr):
                E.prove(st, False, 'mem:%%s of a wild pointer in %s' % st.frames[-1].fn.name, 'memory')
            if v.obj == 0:
                x = b'(null)'
            else:
                x = cstring(E, st, v)
                if x is None:
                    return None
        elif c in 'di' and isinstance(v, int):
            x = str(sx(v, t[1])).encode()
        elif c == 'u' and isinstance(v, int):
            x = str(v).encode()
        elif c == 'x' and isinstance(v, int):
            x = ('%x' % v).encode()
        elif c == 'c' and isinstance(v, int):
            x = bytes([v & 255])
        elif c == 'f' and z3.is_expr(v) and not m.group(1):
            b = z3.simplify(z3.fpToIEEEBV(v))
            if not z3.is_bv_value(b):
                return None
            import struct
            d = struct.unpack('<d', struct.pack('<Q', b.as_long()))[0] if b.size() == 64 else struct.unpack('<f', struct.pack('<I', b.as_long()))[0]
            x = ('%.*f' % (int(m.group(2) or 6), d)).encode()
        else:
            return None
        out += x
    return out


@bi('asprintf')
def asprintf(E, st, f, av, ts, rt):
    s = fmt(E, st, av[1:], ts[1:])
    p = text(E, st, s)
    E.store(st, av[0], 8, p, ('p',))
    return len(s) if s is not None else 15


def text(E, st, s):
    if s is None:
        # some string: 15 arbitrary non-NUL bytes
        i = E.newobj(st, 16, Cells({k: (1, 63) for k in range(15)} | {15: (1, 0)}, Base('zero')), 'heap', 'asprintf')
    else:
        s += b'\0'
        i = E.newobj(st, len(s), Cells({k: (1, b) for k, b in enumerate(s)}, Base('zero')), 'heap', 'asprintf')
    return Ptr(i, 0)


@bi('vasprintf')
def vasprintf(E, st, f, av, ts, rt):
    E.store(st, av[0], 8, text(E, st, None), ('p',))
    return 15


@bi('sprintf')
def sprintf(E, st, f, av, ts, rt):
    s = fmt(E, st, av[1:], ts[1:])
    if s is None:
        raise Unsupported('sprintf of symbolic values')
    o = E.access(st, av[0], len(s) + 1, 'write')
    for i, b in enumerate(s + b'\0'):
        E.store(st, Ptr(av[0].obj, av[0].off + i), 1, b, ('i', 8))
    return len(s)


@bi('snprintf')
def snprintf(E, st, f, av, ts, rt):
    s = fmt(E, st, av[2:], ts[2:])
    if s is None or type(av[1]) is not int:
        raise Unsupported('snprintf of symbolic values')
    if av[1]:
        for i, b in enumerate(s[:av[1] - 1] + b'\0'):
            E.store(st, Ptr(av[0].obj, av[0].off + i), 1, b, ('i', 8))
    return len(s)


@bi('abort', 'exit', '__assert_fail')
def abort(E, st, f, av, ts, rt):
    if st.opts['allow_abort']:
        raise PathEnd()
    E.prove(st, False, 'abort:%s ends the process' % f.fn.name, 'abort')
    raise PathEnd()


# ---- byte order -----------------------------------------------------------------
@bi('htons', 'ntohs')
def htons(E, st, f, av, ts, rt):
    v = av[0]
    if isinstance(v, int):
        return ((v & 0xff) << 8) | ((v >> 8) & 0xff)
    return simp(z3.Concat(z3.Extract(7, 0, v), z3.Extract(15, 8, v)))


@bi('htonl', 'ntohl')
def htonl(E, st, f, av, ts, rt):
    v = av[0]
    if isinstance(v, int):
        return int.from_bytes((v & 0xffffffff).to_bytes(4, 'little'), 'big')
    return simp(z3.Concat(z3.Extract(7, 0, v), z3.Extract(15, 8, v), z3.Extract(23, 16, v), z3.Extract(31, 24, v)))


# ---- maths ------------------------------------------------------------------------
def fnum(v):
    """Python float of a concrete FP value, or None"""
    import struct
    b = z3.simplify(z3.fpToIEEEBV(v))
    if not z3.is_bv_value(b):
        return None
    b = b.as_long()
    return struct.unpack('<d', struct.pack('<Q', b))[0] if v.sort() == z3.Float64() else struct.unpack('<f', struct.pack('<I', b))[0]


def fun1(name, w):
    import math

    def g(E, st, f, av, ts, rt):
        c = [fnum(v) for v in av]
        if None not in c:
            try:
                return z3.FPVal(getattr(math, name)(*c), z3.Float32() if w == 32 else z3.Float64())
            except (ValueError, OverflowError):
                if name == 'log' and c[0] == 0:
                    return z3.fpMinusInfinity(z3.Float32() if w == 32 else z3.Float64())
        return E.uf(name, w, *av)
    return g


for _n in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'exp', 'log', 'log2', 'log10', 'pow', 'fmod', 'atan2'):
    TAB[_n + 'f'] = fun1(_n, 32)
    TAB[_n] = fun1(_n, 64)
for _w, _s in ((32, 'f'), (64, '')):
    TAB['sqrt' + _s] = lambda E, st, f, av, ts, rt: z3.fpSqrt(RNE, av[0])
    TAB['fabs' + _s] = lambda E, st, f, av, ts, rt: z3.fpAbs(av[0])
    TAB['floor' + _s] = lambda E, st, f, av, ts, rt: z3.fpRoundToIntegral(RTN, av[0])
    TAB['ceil' + _s] = lambda E, st, f, av, ts, rt: z3.fpRoundToIntegral(RTP, av[0])
    TAB['round' + _s] = lambda E, st, f, av, ts, rt: z3.fpRoundToIntegral(RNA, av[0])
    for _k in ('sqrt', 'fabs', 'floor', 'ceil', 'round'):
        TAB['llvm.%s.f%d' % (_k, _w)] = TAB[_k + _s]


@bi('llvm.fmuladd.f32', 'llvm.fmuladd.f64')
def fmuladd(E, st, f, av, ts, rt):
    return z3.simplify(z3.fpAdd(RNE, z3.fpMul(RNE, av[0], av[1]), av[2]))


@bi('llvm.abs.i32', 'abs')
def iabs(E, st, f, av, ts, rt):
    v = av[0]
    if isinstance(v, int):
        if v == 0x80000000:
            E.prove(st, False, 'arith:abs overflow in %s' % f.fn.name, 'arithmetic')
        return v if v < 1 << 31 else (-v) & 0xffffffff
    E.prove(st, v != BVV(0x80000000, 32), 'arith:abs overflow in %s' % f.fn.name, 'arithmetic')
    return z3.If(v < 0, -v, v)


@bi('frexpf')
def frexpf(E, st, f, av, ts, rt):
    """exact for zero and normal numbers; infinities/NaN give themselves and exponent 0"""
    x, p = av
    bits = z3.fpToIEEEBV(x)
    if E.decide(st, z3.Or(z3.fpIsZero(x), z3.fpIsInf(x), z3.fpIsNaN(x))):
        E.store(st, p, 4, 0, ('i', 32))
        return x
    if E.decide(st, z3.fpIsSubnormal(x)):
        # scale by 2^24 first (exact)
        y = z3.fpMul(RNE, x, z3.FPVal(16777216.0, F32))
        bits = z3.fpToIEEEBV(y)
        adj = 24
    else:
        adj = 0
    e = z3.ZeroExt(24, z3.Extract(30, 23, bits)) - 126 - adj
    m = z3.fpBVToFP(z3.Concat(z3.Extract(31, 31, bits), BVV(126, 8), z3.Extract(22, 0, bits)), F32)
    E.store(st, p, 4, simp(e), ('i', 32))
    return z3.simplify(m)


@bi('ldexpf')
def ldexpf(E, st, f, av, ts, rt):
    x, e = av
    e = bv(e, 32)
    ce = z3.If(e > 400, BVV(400, 32), z3.If(e < -400, BVV(-400, 32), e))
    scale = z3.fpBVToFP(z3.Concat(z3.Extract(11, 0, ce + 1023), BVV(0, 52)), F64)
    return z3.simplify(z3.fpFPToFP(RNE, z3.fpMul(RNE, z3.fpFPToFP(RNE, x, F64), scale), F32))


# ---- environment ------------------------------------------------------------------
@bi('gettimeofday')
def gettimeofday(E, st, f, av, ts, rt):
    # one fixed instant: only seeds the random generator (stated in DESIGN.md)
    E.store(st, av[0], 8, BVV(1700000000, 64), ('i', 64))
    E.store(st, Ptr(av[0].obj, av[0].off + 8), 8, BVV(0, 64), ('i', 64))
    return BVV(0, 32)


@bi('time', 'getenv')
def env(E, st, f, av, ts, rt):
    raise Unsupported('environment')
