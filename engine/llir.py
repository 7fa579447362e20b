"""Parser for the subset of textual LLVM 18 IR that clang -O0 emits for C.

The IR is generated from /repo's sources on every run; nothing here knows
anything about Buzz.
"""
import re, struct

TOK = re.compile(r'''
   (?P<cstr>c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
 | (?P<name>[%@](?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<str>"[^"]*")
 | (?P<hex>0x[KMLHR]?[0-9A-Fa-f]+)
 | (?P<num>-?\d+(?:\.\d+(?:e[+-]\d+)?)?)
 | (?P<word>[a-zA-Z_][a-zA-Z0-9_.]*)
 | (?P<dots>\.\.\.)
 | (?P<meta>![-a-zA-Z$._0-9]*)
 | (?P<attr>\#\d+)
 | (?P<punct>[()\[\]{}<>,=*:|])
 | (?P<ws>\s+)
''', re.X)

ATTRS = {'noundef', 'nonnull', 'zeroext', 'signext', 'noalias', 'immarg', 'nocapture', 'readonly',
         'writeonly', 'returned', 'inreg', 'nofree', 'readnone', 'noreturn', 'nounwind', 'dso_local',
         'local_unnamed_addr', 'unnamed_addr', 'allocptr', 'allocalign', 'writable'}
PATTRS = {'dereferenceable', 'dereferenceable_or_null', 'align', 'captures', 'memory', 'range', 'elementtype'}


class IRError(Exception):
    pass


def tokenize(s):
    out = []
    p = 0
    n = len(s)
    while p < n:
        if s[p] == ';':
            break
        m = TOK.match(s, p)
        if not m:
            raise IRError('tokenize: ' + s[p:p + 40])
        k = m.lastgroup
        if k != 'ws':
            out.append((k, m.group()))
        p = m.end()
    return out


# ---- types ---------------------------------------------------------------
# ('i',n) ('p',) ('f',32) ('f',64) ('v',) ('a',n,T) ('s',[T...],packed) ('n',name) ('fn',)
PTR = ('p',)
VOID = ('v',)


class Gl:
    """reference to a global symbol, resolved at link time"""
    __slots__ = ('name', 'off')

    def __init__(self, name, off=0):
        self.name = name
        self.off = off


class Zero:
    pass


ZERO = Zero()


class Undef:
    pass


UNDEF = Undef()


class FConst:
    __slots__ = ('bits', 'w')

    def __init__(self, bits, w):
        self.bits = bits
        self.w = w


class P:
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self):
        return self.t[self.i][1] if self.i < len(self.t) else None

    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def expect(self, s):
        v = self.next()
        if v != s:
            raise IRError('expected %s got %s in %s' % (s, v, self.t))

    def accept(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def skip_attrs(self):
        while True:
            w = self.peek()
            if w in ATTRS:
                self.i += 1
            elif w in PATTRS:
                self.i += 1
                if self.peek() == '(':
                    d = 0
                    while True:
                        x = self.next()
                        if x == '(':
                            d += 1
                        elif x == ')':
                            d -= 1
                            if d == 0:
                                break
                elif self.kind() == 'num':
                    self.i += 1
            else:
                return

    def type(self):
        w = self.next()
        if w == 'ptr':
            t = PTR
        elif w == 'void':
            t = VOID
        elif w == 'float':
            t = ('f', 32)
        elif w == 'double':
            t = ('f', 64)
        elif w == 'x86_fp80':
            t = ('f', 80)
        elif w[0] == 'i' and w[1:].isdigit():
            t = ('i', int(w[1:]))
        elif w == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('a', n, e)
        elif w == '{':
            fs = []
            if not self.accept('}'):
                while True:
                    fs.append(self.type())
                    if self.accept('}'):
                        break
                    self.expect(',')
            t = ('s', tuple(fs), False)
        elif w == '<':
            if self.accept('{'):
                fs = []
                while True:
                    fs.append(self.type())
                    if self.accept('}'):
                        break
                    self.expect(',')
                self.expect('>')
                t = ('s', tuple(fs), True)
            else:
                raise IRError('vector type')
        elif w[0] == '%':
            t = ('n', w)
        elif w in ('metadata', 'label', 'opaque'):
            t = (w,)
        else:
            raise IRError('type ' + w + ' in ' + str(self.t[:12]))
        # function type suffix
        if self.peek() == '(' :
            d = 0
            while True:
                x = self.next()
                if x == '(':
                    d += 1
                elif x == ')':
                    d -= 1
                    if d == 0:
                        break
            t = ('fn', t)
        return t

    def value(self, ty):
        """operand: register name (str), int, FConst, Gl, ZERO, UNDEF, or ('agg',[..])"""
        k = self.kind()
        w = self.next()
        if k == 'name':
            if w[0] == '%':
                return w
            return Gl(unq(w))
        if k == 'num':
            if ty[0] == 'f':
                v = float(w)
                if ty[1] == 32:
                    return FConst(struct.unpack('<I', struct.pack('<f', v))[0], 32)
                return FConst(struct.unpack('<Q', struct.pack('<d', v))[0], 64)
            return int(w) & ((1 << ty[1]) - 1)
        if k == 'hex':
            b = int(w[2:], 16)
            if ty == ('f', 32):
                v = struct.unpack('<d', struct.pack('<Q', b))[0]
                return FConst(struct.unpack('<I', struct.pack('<f', v))[0], 32)
            if ty == ('f', 64):
                return FConst(b, 64)
            raise IRError('hex const for ' + str(ty))
        if w == 'true':
            return 1
        if w == 'false':
            return 0
        if w == 'null':
            return ZERO
        if w in ('undef', 'poison'):
            return UNDEF
        if w == 'zeroinitializer':
            return ZERO
        if k == 'cstr':
            return ('agg', list(cstr(w)))
        if w == '[' or w == '{':
            close = ']' if w == '[' else '}'
            vs = []
            if not self.accept(close):
                while True:
                    t = self.type()
                    vs.append(self.value(t))
                    if self.accept(close):
                        break
                    self.expect(',')
            return ('agg', vs)
        if w == '<':
            v = self.value(ty)
            self.expect('>')
            return v
        if w == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw'):
                self.next()
            self.expect('(')
            bt = self.type()
            self.expect(',')
            self.type()
            base = self.value(PTR)
            idx = []
            while self.accept(','):
                it = self.type()
                idx.append(self.value(it))
            self.expect(')')
            off = self.mod.gep_const(bt, idx)
            if isinstance(base, Gl):
                return Gl(base.name, base.off + off)
            raise IRError('const gep base')
        if w in ('ptrtoint', 'inttoptr', 'bitcast'):
            self.expect('(')
            t = self.type()
            v = self.value(t)
            self.expect('to')
            self.type()
            self.expect(')')
            return v
        raise IRError('value %s %s in %s' % (k, w, str(self.t)[:200]))


def unq(w):
    n = w[1:]
    if n.startswith('"'):
        n = n[1:-1]
    return n


def cstr(w):
    s = w[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class Func:
    __slots__ = ('name', 'rtype', 'params', 'vararg', 'blocks', 'order', 'allocas', 'promoted', 'src',
                 'loops', 'static', 'mod', 'lowered', 'ninstr', 'loopblocks', 'loopstores', 'file')


class Module:
    def __init__(self, path, text):
        self.path = path
        self.structs = {}
        self.globals = {}   # name -> (type, init or None, const)
        self.funcs = {}
        self.decls = set()
        self.statics = set()
        self._lay = {}
        lines = text.split('\n')
        # struct types first
        for l in lines:
            if l.startswith('%') and ' = type ' in l:
                n, r = l.split(' = type ', 1)
                if r.strip() == 'opaque':
                    self.structs[n] = None
                else:
                    self.structs[n] = P(tokenize(r), self).type()
        i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith('@'):
                self.parse_global(l)
            elif l.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-\w$.]+)\(', l)
                self.decls.add(m.group(1).strip('"'))
            elif l.startswith('define'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self.parse_func(lines[i], lines[i + 1:j])
                i = j
            i += 1

    # -- layout
    def sizeof(self, t):
        return self.lay(t)[0]

    def lay(self, t):
        r = self._lay.get(t)
        if r is None:
            r = self._lay[t] = self._layout(t)
        return r

    def _layout(self, t):
        k = t[0]
        if k == 'i':
            n = t[1]
            b = 1 if n <= 8 else 2 if n <= 16 else 4 if n <= 32 else 8
            return (b, b, None)
        if k == 'p':
            return (8, 8, None)
        if k == 'f':
            return (t[1] // 8, t[1] // 8, None) if t[1] != 80 else (16, 16, None)
        if k == 'a':
            s, a, _ = self.lay(t[2])
            return (s * t[1], a, None)
        if k == 'n':
            st = self.structs[t[1]]
            if st is None:
                raise IRError('opaque struct layout ' + t[1])
            return self.lay(st)
        if k == 's':
            off = 0
            al = 1
            offs = []
            for f in t[1]:
                s, a, _ = self.lay(f)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a
                offs.append(off)
                off += s
                al = max(al, a)
            off = (off + al - 1) // al * al
            return (off, al, offs)
        raise IRError('layout ' + str(t))

    def resolve(self, t):
        return self.structs[t[1]] if t[0] == 'n' else t

    def gep_const(self, bt, idx):
        off = sx(idx[0], 64) * self.sizeof(bt)
        t = bt
        for ix in idx[1:]:
            t = self.resolve(t)
            if t[0] == 's':
                off += self.lay(t)[2][ix]
                t = t[1][ix]
            else:
                t = t[2]
                off += sx(ix, 64) * self.sizeof(t)
        return off

    # -- globals
    def parse_global(self, l):
        m = re.match(r'@("[^"]*"|[-\w$.]+) = (.*)$', l)
        name = m.group(1).strip('"')
        rest = m.group(2)
        rest = re.sub(r', (align|section|comdat).*$', '', rest)
        toks = tokenize(rest)
        p = P(toks, self)
        ext = False
        const = False
        while p.peek() not in ('global', 'constant'):
            w = p.next()
            if w in ('external', 'extern_weak'):
                ext = True
            if w in ('private', 'internal'):
                self.statics.add(name)
        const = p.next() == 'constant'
        t = p.type()
        init = None
        if not ext:
            init = p.value(t)
        self.globals[name] = (t, init, const)

    # -- functions
    def parse_func(self, head, body):
        head = re.sub(r'!dbg !\d+', '', head)
        m = re.search(r'@("[^"]*"|[-\w$.]+)\(', head)
        name = m.group(1).strip('"')
        pre = head[:m.start()]
        f = Func()
        f.name = name
        f.file = self.path
        f.static = ' internal ' in pre or ' private ' in pre
        if f.static:
            self.statics.add(name)
        # return type = last type token(s) before name
        toks = tokenize(pre)
        p = P(toks, self)
        p.next()
        while p.peek() in ('dso_local', 'internal', 'private', 'available_externally', 'linkonce_odr',
                           'weak', 'hidden', 'protected', 'default') or p.peek() in ATTRS or p.peek() in PATTRS:
            if p.peek() in PATTRS:
                p.skip_attrs()
            else:
                p.next()
        f.rtype = p.type()
        rest = head[m.end() - 1:]
        toks = tokenize(rest[:rest.rindex('{')].split(' #')[0])
        p = P(toks, self)
        p.expect('(')
        f.params = []
        f.vararg = False
        if not p.accept(')'):
            while True:
                if p.accept('...'):
                    f.vararg = True
                else:
                    t = p.type()
                    p.skip_attrs()
                    n = p.next()
                    f.params.append((n, t))
                if p.accept(')'):
                    break
                p.expect(',')
        f.blocks = {}
        f.order = []
        f.allocas = {}
        cur = None
        k = 0
        first = True
        while k < len(body):
            l = body[k]
            k += 1
            if not l.strip() or l.lstrip().startswith(';'):
                continue
            if not l.startswith(' '):
                lab = l.split(':')[0]
                cur = []
                f.blocks['%' + lab] = cur
                f.order.append('%' + lab)
                first = False
                continue
            if first:
                cur = []
                f.blocks['%0'] = cur
                f.order.append('%0')
                first = False
            if l.lstrip().startswith('switch'):
                while ']' not in l:
                    l += ' ' + body[k]
                    k += 1
            ins = self.parse_ins(l, f)
            if ins is not None:
                cur.append(ins)
        f.ninstr = sum(len(b) for b in f.blocks.values())
        self.analyse(f)
        self.funcs[name] = f

    def parse_ins(self, l, f):
        p = P(tokenize(l.split(', !')[0] if ', !' in l else l), self)
        dst = None
        if p.kind() == 'name' and p.t[1][1] == '=':
            dst = p.next()
            p.next()
        op = p.next()
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
        if op == 'alloca':
            t = p.type()
            cnt = 1
            if p.accept(','):
                if p.peek() != 'align':
                    ct = p.type()
                    cnt = p.value(ct)
            if isinstance(cnt, int):
                f.allocas[dst] = t
            return ('alloca', dst, t, self.sizeof(t), cnt)
        if op == 'load':
            p.accept('volatile')
            t = p.type()
            p.expect(',')
            p.type()
            return ('load', dst, self.resolve(t), p.value(PTR), self.sizeof(t))
        if op == 'store':
            p.accept('volatile')
            t = p.type()
            v = p.value(t)
            p.expect(',')
            p.type()
            return ('store', None, self.resolve(t), v, p.value(PTR), self.sizeof(t))
        if op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                p.next()
            bt = p.type()
            p.expect(',')
            p.type()
            base = p.value(PTR)
            const = 0
            var = []
            t = bt
            firsti = True
            while p.accept(','):
                it = p.type()
                ix = p.value(it)
                if firsti:
                    sz = self.sizeof(t)
                    firsti = False
                else:
                    t = self.resolve(t)
                    if t[0] == 's':
                        const += self.lay(t)[2][ix]
                        t = t[1][ix]
                        continue
                    t = t[2]
                    sz = self.sizeof(t)
                if isinstance(ix, int):
                    const += sx(ix, it[1]) * sz
                else:
                    var.append((ix, it[1], sz))
            return ('gep', dst, base, const, var)
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint'):
                p.next()
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            return ('bin', dst, op, t[1], a, b)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                p.next()
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            return ('fbin', dst, op, t[1], a, b)
        if op == 'fneg':
            t = p.type()
            return ('fneg', dst, p.value(t), t[1])
        if op == 'icmp':
            pred = p.next()
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            return ('icmp', dst, pred, t, a, b)
        if op == 'fcmp':
            pred = p.next()
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            return ('fcmp', dst, pred, t[1], a, b)
        if op in ('zext', 'sext', 'trunc', 'fpext', 'fptrunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'ptrtoint',
                  'inttoptr', 'bitcast', 'freeze'):
            while p.peek() in ('nneg', 'nuw', 'nsw'):
                p.next()
            t = p.type()
            a = p.value(t)
            if op == 'freeze':
                return ('cast', dst, op, t, a, t)
            p.expect('to')
            t2 = p.type()
            return ('cast', dst, op, t, a, t2)
        if op == 'br':
            if p.accept('label'):
                return ('jmp', None, p.next())
            t = p.type()
            c = p.value(t)
            p.expect(',')
            p.expect('label')
            a = p.next()
            p.expect(',')
            p.expect('label')
            b = p.next()
            return ('br', None, c, a, b)
        if op == 'switch':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            p.expect('label')
            d = p.next()
            p.expect('[')
            cases = []
            while not p.accept(']'):
                ct = p.type()
                cv = p.value(ct)
                p.expect(',')
                p.expect('label')
                cases.append((cv, p.next()))
            return ('switch', None, v, t[1], d, cases)
        if op == 'ret':
            t = p.type()
            if t == VOID:
                return ('ret', None, None, t)
            return ('ret', None, p.value(t), t)
        if op == 'phi':
            t = p.type()
            inc = {}
            while True:
                p.expect('[')
                v = p.value(t)
                p.expect(',')
                lab = p.next()
                p.expect(']')
                inc[lab] = v
                if not p.accept(','):
                    break
            return ('phi', dst, t, inc)
        if op == 'select':
            p.type()
            c = p.value(('i', 1))
            p.expect(',')
            t = p.type()
            a = p.value(t)
            p.expect(',')
            p.type()
            b = p.value(t)
            return ('select', dst, t, c, a, b)
        if op == 'unreachable':
            return ('unreachable', None)
        if op == 'call':
            while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                p.next()
            p.skip_attrs()
            rt = p.type()
            if rt[0] == 'fn':
                rt = rt[1]
            callee = p.value(PTR)
            p.expect('(')
            args = []
            if not p.accept(')'):
                while True:
                    t = p.type()
                    p.skip_attrs()
                    if t == ('metadata',):
                        return None
                    args.append((p.value(t), t))
                    if p.accept(')'):
                        break
                    p.expect(',')
            if isinstance(callee, Gl) and callee.name.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.va_')):
                return None
            return ('call', dst, rt, callee, args)
        if op == 'extractvalue' or op == 'insertvalue':
            raise IRError(op)
        raise IRError('instruction ' + l)

    def analyse(self, f):
        """promotable allocas; natural loops"""
        bad = set()
        tys = {}
        for b in f.blocks.values():
            for ins in b:
                k = ins[0]
                if k == 'alloca':
                    if ins[1] not in f.allocas or f.allocas[ins[1]][0] not in ('i', 'p', 'f'):
                        bad.add(ins[1])
                    continue
                if k == 'load':
                    if isinstance(ins[3], str):
                        if f.allocas.get(ins[3]) != ins[2]:
                            bad.add(ins[3])
                    continue
                if k == 'store':
                    if isinstance(ins[4], str) and f.allocas.get(ins[4]) != ins[2]:
                        bad.add(ins[4])
                    if isinstance(ins[3], str):
                        bad.add(ins[3])
                    continue
                for o in operands(ins):
                    if isinstance(o, str):
                        bad.add(o)
        f.promoted = set(a for a in f.allocas if a not in bad)
        # CFG
        succ = {}
        for n, b in f.blocks.items():
            t = b[-1]
            if t[0] == 'jmp':
                succ[n] = [t[2]]
            elif t[0] == 'br':
                succ[n] = [t[3], t[4]]
            elif t[0] == 'switch':
                succ[n] = [t[4]] + [c[1] for c in t[5]]
            else:
                succ[n] = []
        # dominators (iterative)
        order = []
        seen = set()

        def dfs(n):
            stack = [(n, iter(succ[n]))]
            seen.add(n)
            while stack:
                x, it = stack[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y)
                        stack.append((y, iter(succ[y])))
                        break
                else:
                    order.append(x)
                    stack.pop()
        entry = f.order[0]
        dfs(entry)
        rpo = order[::-1]
        pred = {n: [] for n in rpo}
        for n in rpo:
            for s in succ[n]:
                pred[s].append(n)
        dom = {n: set(rpo) for n in rpo}
        dom[entry] = {entry}
        ch = True
        while ch:
            ch = False
            for n in rpo[1:]:
                nd = set.intersection(*[dom[p_] for p_ in pred[n]]) | {n} if pred[n] else {n}
                if nd != dom[n]:
                    dom[n] = nd
                    ch = True
        loops = {}
        for n in rpo:
            for s in succ[n]:
                if s in dom[n]:
                    body = loops.setdefault(s, {s})
                    st = [n]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(pred[x])
        f.loops = [h for h in f.order if h in loops]
        f.loopblocks = loops
        f.loopstores = {}
        for h, body in loops.items():
            ss = set()
            for n in body:
                for ins in f.blocks[n]:
                    if ins[0] == 'store' and isinstance(ins[4], str) and ins[4] in f.allocas:
                        ss.add(ins[4])
            f.loopstores[h] = ss


def operands(ins):
    k = ins[0]
    if k == 'gep':
        return [ins[2]] + [v[0] for v in ins[4]]
    if k in ('bin', 'fbin', 'icmp', 'fcmp'):
        return [ins[4], ins[5]]
    if k == 'cast':
        return [ins[4]]
    if k == 'fneg':
        return [ins[2]]
    if k in ('br', 'switch', 'ret'):
        return [ins[2]]
    if k == 'phi':
        return list(ins[3].values())
    if k == 'select':
        return [ins[3], ins[4], ins[5]]
    if k == 'call':
        return [ins[3]] + [a[0] for a in ins[4]]
    return []


def sx(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v
