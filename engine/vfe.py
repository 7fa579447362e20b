"""vfe - a deductive verifier for C, working on the LLVM IR clang emits.

It executes a *contract unit* (a C function in /verif/contracts that builds an
arbitrary state satisfying a precondition, calls one function of /repo and
asserts its postcondition) symbolically, on every path, with

  * inputs, array lengths, capacities and contents as solver variables
    (no size bound: a heap object may have a symbolic size and its content is
    a persistent chain of writes / block copies over a symbolic base),
  * loops cut by invariants (vf_inv__f__n / vf_mod__f__n) when the unit gives
    one, otherwise unrolled - completely, or the unit is not accepted,
  * callees replaced by their contracts (vf_stub__f) when the unit gives one,
    otherwise inlined from /repo's source,

and discharges every obligation (asserted postcondition, invariant, memory
safety of every access, no division by zero, no abort) with Z3.
"""
import sys, time, os, re, itertools
import z3
import llir
from llir import Gl, ZERO, UNDEF, FConst, sx

BV = z3.BitVec
BVV = z3.BitVecVal
F32 = z3.Float32()
F64 = z3.Float64()
RNE = z3.RNE()
RTZ = z3.RTZ()
RTP = z3.RTP()
RTN = z3.RTN()
RNA = z3.RNA()


class Fork(Exception):
    def __init__(self, cond):
        self.cond = cond


class PathEnd(Exception):
    pass


class Unsupported(Exception):
    pass


class PushFrame(Exception):
    """raised by memory reads that need a C callback first"""
    def __init__(self, fn, args, hook, prefix):
        self.fn, self.args, self.hook, self.prefix = fn, args, hook, prefix


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def __repr__(self):
        return 'P(%s,%s)' % (self.obj, self.off)


NULL = Ptr(0, 0)


def is_sym(v):
    return isinstance(v, z3.ExprRef)


def bv(v, w):
    if isinstance(v, int):
        return BVV(v, w)
    if isinstance(v, z3.BoolRef):
        return z3.If(v, BVV(1, w), BVV(0, w))
    return v


def simp(e):
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    return e


def simpb(e):
    """simplify a Bool; python bool if decided"""
    if isinstance(e, bool):
        return e
    if isinstance(e, int):
        return e != 0
    if z3.is_bv(e):
        e = e != BVV(0, e.size())
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


def sort_of(w):
    return F32 if w == 32 else F64


def fpval(c):
    return z3.fpBVToFP(BVV(c.bits, c.w), sort_of(c.w))


_fpc = {}


def fconst(c):
    k = (c.bits, c.w)
    r = _fpc.get(k)
    if r is None:
        r = _fpc[k] = z3.simplify(fpval(c))
    return r


# ---- memory content nodes ---------------------------------------------------
class Base:
    __slots__ = ('kind', 'arr', 'id', 'label', 'mk', 'stride')
    _n = itertools.count()

    def __init__(self, kind, label=None, mk=None, stride=8):
        self.kind = kind      # zero | sym | lazy
        self.id = next(Base._n)
        self.label = label
        self.mk = mk
        self.stride = stride
        self.arr = None
        if kind != 'zero':
            self.arr = z3.Array('mem!a%d' % self.id, z3.BitVecSort(64), z3.BitVecSort(8))


class Cells:
    __slots__ = ('d', 'prev')

    def __init__(self, d, prev):
        self.d = d            # off -> (size, val)
        self.prev = prev


class Write:
    __slots__ = ('off', 'size', 'val', 'prev')

    def __init__(self, off, size, val, prev):
        self.off, self.size, self.val, self.prev = off, size, val, prev


class Copy:
    __slots__ = ('dst', 'n', 'src', 'srcoff', 'prev')

    def __init__(self, dst, n, src, srcoff, prev):
        self.dst, self.n, self.src, self.srcoff, self.prev = dst, n, src, srcoff, prev


class Obj:
    __slots__ = ('size', 'node', 'alive', 'kind', 'name', 'lazy', 'ep')

    def __init__(self, size, node, kind, name, lazy=False):
        self.size, self.node, self.kind, self.name = size, node, kind, name
        self.alive = True
        self.lazy = lazy
        self.ep = 0

    def copy(self):
        o = Obj(self.size, self.node, self.kind, self.name, self.lazy)
        o.alive = self.alive
        return o


class Frame:
    __slots__ = ('fn', 'regs', 'blk', 'code', 'prev', 'ip', 'vars', 'dst', 'hook', 'spec', 'loops', 'lcnt', 'prefix',
                 'stk', 'args')

    def copy(self):
        f = Frame()
        f.fn, f.blk, f.code, f.prev, f.ip, f.dst, f.hook, f.spec, f.prefix = \
            self.fn, self.blk, self.code, self.prev, self.ip, self.dst, self.hook, self.spec, self.prefix
        f.regs = self.regs.copy()
        f.vars = self.vars.copy()
        f.loops = self.loops
        f.lcnt = self.lcnt.copy()
        f.stk = self.stk
        f.args = self.args
        return f


class State:
    def __init__(self):
        self.frames = []
        self.mem = {}
        self.path = []
        self.cache = {}
        self.model = None
        self.lab = {}
        self.syms = []
        self.memo = {}
        self.ep = 1
        self.opts = {'allow_abort': False, 'unwind': 24}
        self.loopctx = ()
        self.notes = ()
        self.modrec = None

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = self.mem.copy()
        s.path = self.path[:]
        s.cache = self.cache.copy()
        s.model = self.model
        s.lab = self.lab.copy()
        s.syms = self.syms[:]
        s.memo = self.memo.copy()
        s.opts = self.opts.copy()
        s.loopctx = self.loopctx
        s.notes = self.notes
        s.modrec = self.modrec
        return s


EP = itertools.count(1)


class Engine:
    def __init__(self, modules, harness_paths, opts=None):
        self.opts = opts or {}
        self.funcs = {}
        self.gdefs = {}
        self.fid = {}          # function name -> obj id
        self.idf = {}
        self.gid = {}
        self.objn = itertools.count(1)
        self.specfiles = set(harness_paths)
        self.link(modules)
        self.solver = z3.Solver()
        self.solver.set('timeout', int(self.opts.get('qtimeout', 250)))
        self.spath = []
        self.addrs = {}
        self.obl = {}          # id -> [n, status]
        self.fails = []
        self.unknowns = []
        self.covers = set()
        self.incomplete = []
        self.absmul = False
        self.stat = dict(paths=0, instrs=0, queries=0, qtime=0.0, forks=0, assumed_dead=0)
        self.fresh = itertools.count()
        self.stubs = {n[len('vf_stub__'):]: n for n in self.funcs if n.startswith('vf_stub__')}
        self.recs = {n[len('vf_rec__'):]: n for n in self.funcs if n.startswith('vf_rec__')}
        self.used_stubs = set()
        self.entered = set()
        self.used_loops = set()
        self.loopc = {}
        self.lost = set()
        self.binding = {}
        for n in self.funcs:
            m = re.match(r'vf_inv__(\w+?)__(\d+)$', n)
            if m:
                self.loopc[(m.group(1), int(m.group(2)))] = n
        self.hotfns = set(k[0] for k in self.loopc)
        self.bounded = bool(self.opts.get('bounded'))
        self.deadline = None
        self.maxfail = self.opts.get('maxfail', 3)
        for k, inv in list(self.loopc.items()):
            f = self.funcs.get(k[0])
            # a contract names its variables; drop it if the loop is gone or renamed
            if f is None or k[1] >= len(f.loops) or not self.bindable(f, f.loops[k[1]], inv):
                self.lost.add(k)
                del self.loopc[k]

    def bindable(self, f, hdr, inv):
        m = {}
        missing = []
        for p in self.params_of_contract(inv):
            if ('%' + p + '.addr') in f.allocas:
                m[p] = '%' + p + '.addr'
            elif ('%' + p) in f.allocas:
                m[p] = '%' + p
            else:
                missing.append(p)
        if missing:
            # a renamed loop variable: the only other local the loop assigns
            cand = [a for a in f.loopstores[hdr] if a not in m.values() and f.allocas[a][0] == 'i']
            if len(missing) == 1 and len(cand) == 1:
                m[missing[0]] = cand[0]
            else:
                return False
        self.binding[(f.name, inv)] = m
        return True

    def params_of_contract(self, inv):
        return [p[0][1:] for p in self.funcs[inv].params]

    # ---- linking
    def link(self, modules):
        seen = {}
        for m in modules:
            for n, f in m.funcs.items():
                if n in m.statics:
                    key = n if n not in self.funcs else n + '@' + os.path.basename(m.path)
                else:
                    key = n
                    if n in self.funcs and not self.funcs[n].static:
                        raise Unsupported('duplicate symbol ' + n)
                    if n in self.funcs:       # a static took the name
                        o = self.funcs[n]
                        self.funcs[n + '@' + os.path.basename(o.file)] = o
                self.funcs[key] = f
                seen[(m.path, n)] = f
        for m in modules:
            loc = {}
            for n, (t, init, const) in m.globals.items():
                key = n
                if n in m.statics:
                    key = os.path.basename(m.path) + ':' + n
                    loc[n] = key
                if key not in self.gdefs or self.gdefs[key][1] is None:
                    self.gdefs[key] = (t, init, const, m)
            for n in m.statics:
                if n in m.funcs:
                    for k, f in self.funcs.items():
                        if f is m.funcs[n]:
                            loc[n] = k
            m.loc = loc
        for k in list(self.gdefs) + list(self.funcs):
            self.gid[k] = next(self.objn)
        for k in self.funcs:
            self.idf[self.gid[k]] = k
        for m in modules:
            for f in m.funcs.values():
                f.src = m.path in self.specfiles
                f.mod = m
                f.lowered = False
        self.modules = modules

    def lowop(self, o, m):
        if isinstance(o, Gl):
            n = m.loc.get(o.name, o.name)
            if n not in self.gid:
                self.gid[n] = next(self.objn)
                self.idf[self.gid[n]] = n      # external function
            return Ptr(self.gid[n], o.off)
        if isinstance(o, FConst):
            return fconst(o)
        return o

    def lower(self, ins, m):
        k = ins[0]
        lo = self.lowop
        if k == 'load':
            return ins[:3] + (self.lz(lo(ins[3], m), llir.PTR),) + ins[4:]
        if k == 'store':
            return ins[:3] + (self.lz(lo(ins[3], m), ins[2]), lo(ins[4], m)) + ins[5:]
        if k == 'gep':
            return ('gep', ins[1], self.lz(lo(ins[2], m), llir.PTR), ins[3], [(lo(a, m), w, s) for a, w, s in ins[4]])
        if k == 'bin':
            t = ('i', ins[3])
            return ins[:4] + (self.lz(ins[4], t), self.lz(ins[5], t))
        if k in ('fbin', 'fcmp'):
            t = ('f', ins[3])
            return ins[:4] + (self.lz(lo(ins[4], m), t), self.lz(lo(ins[5], m), t))
        if k == 'icmp':
            return ins[:4] + (self.lz(lo(ins[4], m), ins[3]), self.lz(lo(ins[5], m), ins[3]))
        if k == 'cast':
            return ins[:4] + (self.lz(lo(ins[4], m), ins[3]), ins[5])
        if k == 'fneg':
            return ('fneg', ins[1], lo(ins[2], m), ins[3])
        if k == 'ret':
            return ins[:2] + ((self.lz(lo(ins[2], m), ins[3]) if ins[2] is not None else None), ins[3])
        if k == 'phi':
            return ins[:3] + ({b: self.lz(lo(v, m), ins[2]) for b, v in ins[3].items()},)
        if k == 'select':
            return ins[:3] + (ins[3], self.lz(lo(ins[4], m), ins[2]), self.lz(lo(ins[5], m), ins[2]))
        if k == 'call':
            return ins[:3] + (lo(ins[3], m), [(self.lz(lo(a, m), t), t) for a, t in ins[4]])
        return ins

    def lz(self, v, t):
        if v is ZERO:
            return NULL if t[0] == 'p' else (fconst(FConst(0, t[1])) if t[0] == 'f' else 0)
        if v is UNDEF:
            return 0 if t[0] == 'i' else NULL if t[0] == 'p' else fconst(FConst(0, t[1]))
        return v

    # ---- objects
    def newobj(self, st, size, node, kind, name, lazy=False):
        i = next(self.objn)
        o = Obj(size, node, kind, name, lazy)
        o.ep = st.ep
        st.mem[i] = o
        return i

    def obj(self, st, i):
        o = st.mem.get(i)
        if o is not None:
            return o
        return self.mkglobal(st, i)

    def mkglobal(self, st, i):
        if i in self.idf:
            o = Obj(1, Base('zero'), 'func', self.idf[i])
            st.mem[i] = o
            return o
        for k, v in self.gid.items():
            if v == i:
                name = k
                break
        else:
            raise Unsupported('unknown object %s' % i)
        t, init, const, m = self.gdefs[name]
        if init is None:
            o = Obj(m.sizeof(t) if name not in ('stderr', 'stdout', 'stdin') else 8, Base('zero'), 'global', name)
            st.mem[i] = o
            if name in ('stderr', 'stdout', 'stdin'):
                j = self.newobj(st, 64, Base('zero'), 'global', name + '_file')
                o.node = Cells({0: (8, Ptr(j, 0))}, o.node)
            return o
        d = {}
        self.fill(d, 0, t, init, m)
        o = Obj(m.sizeof(t), Cells(d, Base('zero')), 'const' if const else 'global', name)
        o.ep = -1
        st.mem[i] = o
        return o

    def fill(self, d, off, t, v, m):
        if v is ZERO or v is UNDEF:
            return
        t = m.resolve(t)
        if isinstance(v, tuple) and v[0] == 'agg':
            if t[0] == 'a':
                s = m.sizeof(t[2])
                for i, x in enumerate(v[1]):
                    self.fill(d, off + i * s, t[2], x, m)
            else:
                offs = m.lay(t)[2]
                for i, x in enumerate(v[1]):
                    self.fill(d, off + offs[i], t[1][i], x, m)
            return
        d[off] = (m.sizeof(t), self.lz(self.lowop(v, m), t))

    def addr(self, st, p):
        """integer address of a Ptr (only when code looks at it)"""
        if not isinstance(p, Ptr):
            return p
        if p.obj == 0:
            return p.off
        if self.obj(st, p.obj).kind == 'func':
            # functions: one fixed layout, apart from all data
            return simp(BVV(0x400000 + 16 * (abs(p.obj) & 0xffffff), 64) + bv(p.off, 64))
        a = self.addrs.get(p.obj)
        if a is None:
            a = self.addrs[p.obj] = BV('addr!%d' % p.obj, 64)
        key = ('addr', p.obj)
        if key not in st.cache:
            st.cache[key] = True
            self.add(st, z3.And(z3.UGE(a, BVV(1 << 30, 64)), z3.ULT(a, BVV(1 << 47, 64)), z3.Extract(3, 0, a) == 0))
            # blocks that are alive together do not overlap
            known = st.cache.get('addrs', ())
            size = lambda o: BVV(max(o.size, 1), 64) if type(o.size) is int else bv(o.size, 64) + 1
            me = self.obj(st, p.obj)
            for q in known:
                o = self.obj(st, q)
                if o.alive:
                    b = self.addrs[q]
                    self.add(st, z3.Or(z3.ULE(a + size(me), b), z3.ULE(b + size(o), a)))
            st.cache['addrs'] = known + (p.obj,)
        return a + bv(p.off, 64)

    # ---- solver
    def sync(self, path):
        sp = self.spath
        i = 0
        n = min(len(sp), len(path))
        while i < n and sp[i] is path[i]:
            i += 1
        if len(sp) > i:
            self.solver.pop(len(sp) - i)
            del sp[i:]
        while len(sp) < len(path):
            c = path[len(sp)]
            self.solver.push()
            self.solver.add(c)
            sp.append(c)

    def check(self, st, cond, final=False):
        t0 = time.time()
        self.stat['queries'] += 1
        if self.opts.get('fresh'):
            r = z3.unknown
        else:
            self.sync(st.path)
            r = self.solver.check(cond) if not isinstance(cond, list) else self.solver.check(*cond)
        m = None
        if r == z3.sat:
            m = self.solver.model()
        elif r == z3.unknown:
            s = z3.Solver() if not self.opts.get('tactic') else z3.Tactic(self.opts['tactic']).solver()
            s.set('timeout', int(self.opts.get('qtimeout2', 60000)))
            s.add(*st.path)
            s.add(cond)
            r = s.check()
            if r == z3.sat:
                m = s.model()
        self.stat['qtime'] += time.time() - t0
        return r, m

    def add(self, st, c):
        c = simpb(c)
        if c is True:
            return True
        if c is False:
            raise PathEnd()
        st.path.append(c)
        st.cache[c.get_id()] = True
        if st.model is not None:
            v = st.model.eval(c, model_completion=True)
            if not z3.is_true(v):
                st.model = None
        return True

    def decide(self, st, c):
        c = simpb(c)
        if c is True or c is False:
            return c
        k = st.cache.get(c.get_id())
        if k is not None:
            return k
        neg = z3.Not(c)
        side = None
        if st.model is not None:
            v = st.model.eval(c, model_completion=True)
            if z3.is_true(v):
                side = True
            elif z3.is_false(v):
                side = False
        if side is None:
            r, m = self.check(st, c)
            if r == z3.unsat:
                st.cache[c.get_id()] = False
                self.keep(c)
                return False
            if r == z3.sat:
                st.model = m
                side = True
            else:
                raise Fork(c)
        r, m = self.check(st, neg if side else c)
        if r == z3.unsat:
            st.cache[c.get_id()] = side
            self.keep(c)
            return side
        raise Fork(c)

    _keep = []

    def keep(self, c):
        self._keep.append(c)     # AST ids stay unique while referenced

    def feasible(self, st):
        if st.model is not None:
            return True
        r, m = self.check(st, z3.BoolVal(True))
        if r == z3.unsat:
            return False
        st.model = m
        return True

    def where(self, st):
        return ' <- '.join('%s' % (f.fn.name,) for f in reversed(st.frames[-6:]))

    def prove(self, st, c, oid, kind):
        c = simpb(c)
        rec = self.obl.setdefault(oid, [0, 'proved', kind])
        rec[0] += 1
        if c is True:
            return
        if c is not False and st.cache.get(c.get_id()) is True:
            return
        r, m = (None, None)
        if c is False:
            r, m = self.check(st, z3.BoolVal(True))
        else:
            r, m = self.check(st, z3.Not(c))
        if r == z3.unsat:
            if c is False:
                raise PathEnd()
            self.keep(c)
            st.cache[c.get_id()] = True
            return
        if r == z3.sat:
            rec[1] = 'FAILED'
            self.fail(st, oid, kind, m, None if c is False else z3.Not(c))
        else:
            if rec[1] != 'FAILED':
                rec[1] = 'unknown'
            self.unknowns.append((oid, self.where(st)))
        if c is False:
            raise PathEnd()
        self.add(st, c)
        if not self.feasible(st):
            raise PathEnd()

    def small(self, st, m, bad):
        """prefer small numbers in the counterexample"""
        s = z3.Solver()
        s.set('timeout', 2000)
        s.add(*st.path)
        if bad is not None:
            s.add(bad)
        t0 = time.time()
        for lab, k, e in st.syms:
            if k[0] != 'u' or not z3.is_bv(e) or time.time() - t0 > 10:
                continue
            for lim in (4, 64):
                v = m.eval(e, model_completion=True)
                if z3.is_bv_value(v) and v.as_long() <= lim:
                    s.add(z3.ULE(e, lim))
                    break
                s.push()
                s.add(z3.ULE(e, lim))
                if s.check() == z3.sat:
                    m = s.model()
                    break
                s.pop()
        return m

    def fail(self, st, oid, kind, m, bad=None):
        n = sum(1 for f in self.fails if f['id'] == oid)
        if n >= 2:
            return
        m = self.small(st, m, bad)
        vals = []
        for lab, k, e in st.syms:
            vals.append(self.evalsym(m, lab, k, e))
        self.fails.append(dict(id=oid, kind=kind, where=self.where(st), values=[v for v in vals if v],
                               notes=list(st.notes), inloop=bool(st.loopctx), abs=bool(st.opts.get('abs')), unrolled=bool(st.opts.get('unrolled')), stubs=sorted(self.used_stubs)))
        if len(self.fails) >= self.maxfail:
            raise StopUnit()

    def evalsym(self, m, lab, k, e):
        if isinstance(lab, tuple):    # lazy prefix: (label, idxexpr, rest)
            lab = ''.join(str(self.ev(m, x)) if not isinstance(x, str) else x for x in lab)
        if k == 'buf':
            base, size = e
            n = size if isinstance(size, int) else self.ev(m, size)
            n = min(n, 4096)
            bs = []
            for i in range(n):
                bs.append('%02x' % self.ev(m, z3.Select(base.arr, BVV(i, 64))))
            return [lab, 'buf', ''.join(bs)]
        if k == 'f32':
            b = m.eval(z3.fpToIEEEBV(e), model_completion=True)
            return [lab, 'f32', b.as_long() if z3.is_bv_value(b) else 0x7fc00000]
        return [lab, k, self.ev(m, e)]

    def ev(self, m, e):
        if isinstance(e, int):
            return e
        v = m.eval(e, model_completion=True)
        if z3.is_bv_value(v):
            return v.as_long()
        if z3.is_true(v):
            return 1
        return 0

    # ---- memory
    def access(self, st, p, n, what, write=False):
        """bounds / liveness obligations; returns Obj"""
        if not isinstance(p, Ptr):
            nul = simpb(bv(p, 64) == 0) if is_sym(p) else p == 0
            self.prove(st, False, 'mem:%s through a wild pointer in %s' % (what, st.frames[-1].fn.name), 'memory')
        if p.obj == 0:
            self.prove(st, False, 'mem:%s through a null pointer in %s' % (what, st.frames[-1].fn.name), 'memory')
        o = self.obj(st, p.obj)
        if o.kind == 'abstract':
            self.incomplete.append('%s looks inside %s, which its contract keeps abstract' % (st.frames[-1].fn.name, o.name))
            raise PathEnd()
        if not o.alive:
            self.prove(st, False, 'mem:%s after free in %s' % (what, st.frames[-1].fn.name), 'memory')
        if write and o.kind in ('const', 'func'):
            self.prove(st, False, 'mem:write to constant in %s' % st.frames[-1].fn.name, 'memory')
        off = p.off
        sz = o.size
        if type(off) is int and type(sz) is int and type(n) is int:
            if 0 <= off and off + n <= sz:
                return o
            self.prove(st, False, 'mem:%s out of bounds in %s' % (what, st.frames[-1].fn.name), 'memory')
        b64 = lambda x: bv(x, 64)
        if type(off) is int and off < 0:
            off = off & ((1 << 64) - 1)
        c = z3.And(z3.ULE(b64(n), b64(sz)), z3.ULE(b64(off), b64(sz) - b64(n)))
        self.prove(st, c, 'mem:%s out of bounds in %s' % (what, st.frames[-1].fn.name), 'memory')
        return o

    def conv(self, v, size, t):
        k = t[0]
        if k == 'i':
            if isinstance(v, Ptr):
                if t[1] == 64:
                    return v if v.obj else v.off
                raise Unsupported('int load of pointer')
            if isinstance(v, z3.FPRef):
                v = z3.fpToIEEEBV(v)
            if t[1] == 1:
                if isinstance(v, int):
                    return v & 1
                return z3.Extract(0, 0, v) == 1
            if isinstance(v, z3.BoolRef):
                v = bv(v, 8 * size)
            return v
        if k == 'p':
            if isinstance(v, int) and v == 0:
                return NULL
            return v
        if k == 'f':
            if isinstance(v, z3.FPRef):
                return v
            if isinstance(v, int):
                return fconst(FConst(v, t[1]))
            if isinstance(v, Ptr):
                raise Unsupported('float load of pointer')
            return z3.fpBVToFP(v, sort_of(t[1]))
        raise Unsupported('load type %s' % (t,))

    def tobits(self, st, v, size):
        if isinstance(v, z3.FPRef):
            return z3.fpToIEEEBV(v)
        if isinstance(v, Ptr):
            return self.addr(st, v)
        if isinstance(v, z3.BoolRef):
            return bv(v, 8 * size)
        return v

    def byte_of(self, st, v, size, i):
        v = self.tobits(st, v, size)
        if isinstance(v, int):
            return (v >> (8 * i)) & 0xff
        return simp(z3.Extract(8 * i + 7, 8 * i, v))

    def load(self, st, p, n, t):
        o = self.access(st, p, n, 'read')
        if o.kind == 'func':
            raise Unsupported('read of function')
        v = self.read(st, o.node, p.off, n, t)
        return self.conv(v, n, t)

    def read(self, st, node, off, n, t):
        """value of n bytes at off"""
        while True:
            c = node.__class__
            if c is Cells:
                d = node.d
                if type(off) is int:
                    x = d.get(off)
                    if x is not None and x[0] == n:
                        return x[1]
                    # overlap?
                    ov = False
                    for k in range(off - 15, off + n):
                        x = d.get(k)
                        if x is not None and k + x[0] > off:
                            ov = True
                            break
                    if not ov:
                        node = node.prev
                        continue
                    if n == 1:
                        return self.byte_of(st, x[1], x[0], off - k)
                    return self.bytewise(st, node, off, n, t)
                else:
                    hit = None
                    keys = d.items()
                    if len(d) <= 16 and t is not None and t[0] == 'i' and node.prev.__class__ is Base and node.prev.kind == 'zero' and n in (1, 2, 4, 8) \
                       and all(x[0] == n and k % n == 0 and not isinstance(x[1], Ptr) and (isinstance(x[1], int) or z3.is_bv(x[1])) for k, x in keys) \
                       and (n == 1 or self.surely(st, z3.Extract({2: 0, 4: 1, 8: 2}[n], 0, off) == 0)):
                        # a small table of integers: no need to split cases
                        v = BVV(0, 8 * n)
                        for k, x in sorted(keys):
                            v = z3.If(off == k, bv(x[1], 8 * n), v)
                        return simp(v)
                    if len(d) > 1:
                        lo = min(d)
                        hi = max(k + x[0] for k, x in d.items())
                        allc = z3.Or(z3.ULE(off + n, BVV(lo, 64)), z3.UGE(off, BVV(hi, 64)))
                        if z3.is_true(z3.simplify(allc)) or self.surely(st, allc):
                            node = node.prev
                            continue
                    for k, x in sorted(keys):
                        # disjoint?
                        dis = z3.Or(z3.ULE(off + n, BVV(k, 64)), z3.UGE(off, BVV(k + x[0], 64)))
                        if self.decide(st, dis):
                            continue
                        if x[0] == n and self.decide(st, off == k):
                            hit = x
                            break
                        if n == 1:
                            for j in range(x[0]):
                                if self.decide(st, off == k + j):
                                    return self.byte_of(st, x[1], x[0], j)
                        return self.bytewise(st, node, off, n, t)
                    if hit is not None:
                        return hit[1]
                    node = node.prev
                    continue
            if c is Write:
                wo = node.off
                if type(off) is int and type(wo) is int:
                    if off == wo and n == node.size:
                        return node.val
                    if off + n <= wo or off >= wo + node.size:
                        node = node.prev
                        continue
                    if n == 1:
                        return self.byte_of(st, node.val, node.size, off - wo)
                    return self.bytewise(st, node, off, n, t)
                a, b = bv(off, 64), bv(wo, 64)
                if node.size == n:
                    e = simpb(a == b)
                    if e is True:
                        return node.val
                    if e is not False and self.decide(st, e):
                        return node.val
                dis = z3.Or(z3.ULE(a + n, b), z3.UGE(a, b + node.size))
                if self.decide(st, dis):
                    node = node.prev
                    continue
                if n == 1:
                    for j in range(node.size):
                        if self.decide(st, a == b + j):
                            return self.byte_of(st, node.val, node.size, j)
                return self.bytewise(st, node, off, n, t)
            if c is Copy:
                if type(off) is int and type(node.dst) is int and type(node.n) is int:
                    if node.dst <= off and off + n <= node.dst + node.n and type(node.srcoff) is int:
                        off = off - node.dst + node.srcoff
                        node = node.src
                        continue
                    if off + n <= node.dst or off >= node.dst + node.n:
                        node = node.prev
                        continue
                a, dst, ln = bv(off, 64), bv(node.dst, 64), bv(node.n, 64)
                # dst+ln does not wrap: established when the copy was made
                inside = z3.And(z3.UGE(a, dst), z3.ULE(a + n, dst + ln))
                if type(off) is int and type(node.dst) is int and type(node.n) is int:
                    inside = node.dst <= off and off + n <= node.dst + node.n
                    dis = off + n <= node.dst or off >= node.dst + node.n
                else:
                    dis = z3.Or(ln == 0, z3.ULE(a + n, dst), z3.UGE(a, dst + ln))
                if self.decide(st, inside):
                    if type(off) is int and type(node.dst) is int and type(node.srcoff) is int:
                        off = off - node.dst + node.srcoff
                    else:
                        off = simp(a - dst + bv(node.srcoff, 64))
                    node = node.src
                    continue
                if n == 1 or self.decide(st, dis):
                    node = node.prev
                    continue
                return self.bytewise(st, node, off, n, t)
            # Base
            if node.kind == 'zero':
                return 0
            if node.kind == 'lazy' and n == 8 and (t is None or t[0] == 'p'):
                for mo, mv in st.memo.get(node.id, ()):
                    e = simpb(bv(mo, 64) == bv(off, 64))
                    if e is True or (e is not False and self.decide(st, e)):
                        return mv
                idx = simp(z3.LShR(bv(off, 64), 3))
                k = len(st.memo.get(node.id, ()))
                raise PushFrame(node.mk, [idx], ('lazy', node.id, off), node.label + ('@', idx, '.'))
            return self.selbytes(node, off, n)

    def surely(self, st, c):
        c = simpb(c)
        if c is True or c is False:
            return c
        k = st.cache.get(c.get_id())
        if k is not None:
            return k
        if st.model is not None and not z3.is_true(st.model.eval(c, model_completion=True)):
            return False
        r, m = self.check(st, z3.Not(c))
        if r == z3.unsat:
            self.keep(c)
            st.cache[c.get_id()] = True
            return True
        return False

    def selbytes(self, node, off, n):
        bs = []
        for i in range(n):
            o = BVV(off + i, 64) if type(off) is int else (z3.simplify(off + i) if i else off)
            bs.append(z3.Select(node.arr, o))
        if n == 1:
            return bs[0]
        return z3.Concat(*reversed(bs))

    def bytewise(self, st, node, off, n, t):
        bs = []
        for i in range(n):
            o = off + i if type(off) is int else simp(off + i)
            b = self.read(st, node, o, 1, ('i', 8))
            bs.append(b)
        if all(isinstance(b, int) for b in bs):
            v = 0
            for i, b in enumerate(bs):
                v |= b << (8 * i)
            return v
        return simp(z3.Concat(*[bv(b, 8) for b in reversed(bs)]))

    def wobj(self, st, i):
        o = self.obj(st, i)
        if o.ep != st.ep:
            o = o.copy()
            o.ep = st.ep
            if o.node.__class__ is Cells:
                o.node = Cells(o.node.d.copy(), o.node.prev)
            st.mem[i] = o
        return o

    def loopguard(self, st, i, off, n):
        if st.modrec is not None:
            st.modrec = st.modrec + ((i, off, n),)
            return
        for (depth, hdr, start, allowed, mine, start0) in st.loopctx:
            o = self.obj(st, i)
            if i >= start and not o.lazy:
                continue
            if start0 <= i < start:      # made by the loop's mod function: arbitrary contents
                continue
            if i in mine:
                continue
            ok = False
            for (ai, ao, an) in allowed:
                if ai != i:
                    continue
                if type(ao) is int and type(off) is int and type(an) is int and type(n) is int:
                    if ao <= off and off + n <= ao + an:
                        ok = True
                        break
                else:
                    c = z3.And(z3.UGE(bv(off, 64), bv(ao, 64)), z3.ULE(bv(off, 64) + bv(n, 64), bv(ao, 64) + bv(an, 64)))
                    if self.surely(st, c):
                        ok = True
                        break
            if not ok:
                raise Unsupported('loop frame: %s writes %s outside the assigns clause of its loop contract' %
                                  (st.frames[-1].fn.name, o.name))

    def store(self, st, p, n, v, t):
        self.access(st, p, n, 'write', True)
        if st.loopctx or st.modrec is not None:
            self.loopguard(st, p.obj, p.off, n)
        if t[0] == 'i' and t[1] == 1:
            v = bv(v, 8) if is_sym(v) else v
        o = self.wobj(st, p.obj)
        self.put(st, o, p.off, n, v)

    def put(self, st, o, off, n, v):
        if type(off) is not int:
            o.node = Write(off, n, v, o.node)
            return
        nd = o.node
        if nd.__class__ is not Cells:
            o.node = Cells({off: (n, v)}, nd)
            return
        d = nd.d
        x = d.get(off)
        if x is not None and x[0] == n:
            d[off] = (n, v)
            return
        for k in range(off - 15, off + n):
            x = d.get(k)
            if x is None or k + x[0] <= off:
                continue
            del d[k]
            for j in range(x[0]):
                if not (off <= k + j < off + n):
                    d[k + j] = (1, self.byte_of(st, x[1], x[0], j))
        d[off] = (n, v)

    def memcopy(self, st, dst, src, n):
        if type(n) is int and n == 0:
            return
        if is_sym(n):
            if self.decide(st, n == 0):
                return
        so = self.access(st, src, n, 'block read')
        self.access(st, dst, n, 'block write', True)
        if st.loopctx or st.modrec is not None:
            self.loopguard(st, dst.obj, dst.off, n)
        snode = so.node
        if type(n) is int and type(dst.off) is int and type(src.off) is int and n <= 64:
            # element-wise when the source is made of plain cells
            vals = []
            i = 0
            ok = True
            nd = snode
            if nd.__class__ is Cells and nd.prev.__class__ is Base and nd.prev.kind in ('zero', 'sym'):
                while i < n:
                    x = nd.d.get(src.off + i)
                    if x is not None and i + x[0] <= n:
                        vals.append((i, x[0], x[1]))
                        i += x[0]
                    else:
                        cover = any((y is not None and k + y[0] > src.off + i) for k in range(src.off + i - 15, src.off + i)
                                    for y in (nd.d.get(k),)) or x is not None
                        if cover:
                            ok = False
                            break
                        vals.append((i, 1, 0 if nd.prev.kind == 'zero' else z3.Select(nd.prev.arr, BVV(src.off + i, 64))))
                        i += 1
                # merge runs of zero bytes is unnecessary
                if ok:
                    o = self.wobj(st, dst.obj)
                    for i, s, v in vals:
                        self.put(st, o, dst.off + i, s, v)
                    return
        if snode.__class__ is Cells:
            snode = Cells(snode.d.copy(), snode.prev)
        o = self.wobj(st, dst.obj)
        o.node = Copy(dst.off, n, snode, src.off, o.node)

    # ---- frames
    def lower_fn(self, fn):
        fn.lowered = True
        m = fn.mod
        nb = {}
        for n, b in fn.blocks.items():
            nb[n] = [self.lower(ins, m) for ins in b]
        fn.blocks = nb

    def call(self, st, fn, args, dst=None, hook=None, prefix=None):
        if not fn.lowered:
            self.lower_fn(fn)
        f = Frame()
        f.fn = fn
        f.regs = {}
        f.vars = {}
        f.blk = fn.order[0]
        f.code = fn.blocks[f.blk]
        f.prev = None
        f.ip = 0
        f.dst = dst
        f.hook = hook
        f.spec = fn.src
        f.loops = ()
        f.lcnt = {}
        f.stk = ()
        f.args = None
        f.prefix = prefix
        if not fn.src:
            self.entered.add(fn.name)
        if len(args) < len(fn.params):
            raise Unsupported('too few args to ' + fn.name)
        for (n, t), a in zip(fn.params, args):
            f.regs[n] = a
        if len(st.frames) > 200:
            raise Unsupported('call depth')
        st.frames.append(f)

    def ret(self, st, v):
        f = st.frames.pop()
        for i in f.stk:
            o = self.wobj(st, i)
            o.alive = False
        if st.loopctx:
            st.loopctx = tuple(c for c in st.loopctx if c[0] <= len(st.frames))
        if f.hook is not None:
            return self.hook(st, f, v)
        if not st.frames:
            raise PathEnd('done')
        g = st.frames[-1]
        if f.dst is not None:
            g.regs[f.dst] = v

    def hook(self, st, f, v):
        h = f.hook
        if h[0] == 'lazy':
            if isinstance(v, Ptr) and v.obj and v.obj in st.mem:
                pass
            st.memo[h[1]] = st.memo.get(h[1], ()) + ((h[2], v),)
            return
        if h[0] == 'inv-init':
            _, fname, n, hdr = h
            self.prove(st, self.truth(v), 'inv:%s#%d holds on entry' % (fname, n), 'loop invariant')
            fr = st.frames[-1]
            fn = fr.fn
            # havoc locals assigned in the loop
            mine = set(fr.regs[a].obj for a in fn.allocas if a in fr.regs and isinstance(fr.regs[a], Ptr))
            for a in fn.loopstores[hdr]:
                t = fn.allocas[a]
                t = self.resolve_t(fn, t)
                if t[0] not in ('i', 'p', 'f'):
                    continue
                val = self.symval(t, 'loop!%s!%d' % (a, next(self.fresh)))
                if a in fr.vars or a in fn.promoted and not isinstance(fr.regs.get(a), Ptr):
                    fr.vars[a] = val
                else:
                    p = fr.regs[a]
                    o = self.wobj(st, p.obj)
                    self.put(st, o, 0, self.sizeof_t(t), val)
            mod = 'vf_mod__%s__%d' % (fname, n)
            st.opts['abs'] = True
            if mod in self.funcs:
                st.modrec = ()
                self.call(st, self.funcs[mod], self.bind(st, fr, self.funcs[mod]), None, ('mod-done', fname, n, hdr, mine, next(self.objn)))
            else:
                self.after_mod(st, fname, n, hdr, mine, (), next(self.objn))
            return
        if h[0] == 'mod-done':
            rec = st.modrec
            st.modrec = None
            self.after_mod(st, h[1], h[2], h[3], h[4], rec, h[5])
            return
        if h[0] == 'inv-assume':
            self.assume(st, self.truth(v))
            return
        if h[0] == 'inv-keep':
            self.prove(st, self.truth(v), 'inv:%s#%d is preserved' % (h[1], h[2]), 'loop invariant')
            raise PathEnd()
        raise Unsupported(h[0])

    def after_mod(self, st, fname, n, hdr, mine, allowed, start0):
        fr = st.frames[-1]
        st.loopctx = st.loopctx + ((len(st.frames), hdr, next(self.objn), allowed, frozenset(mine), start0),)
        inv = self.funcs[self.loopc[(fname, n)]]
        self.call(st, inv, self.bind(st, fr, inv), None, ('inv-assume',))

    def resolve_t(self, fn, t):
        return t

    def sizeof_t(self, t):
        return 8 if t[0] == 'p' else max(1, t[1] // 8)

    def symval(self, t, name):
        if t[0] == 'i':
            return BV(name, t[1]) if t[1] > 1 else z3.Bool(name)
        if t[0] == 'p':
            return BV(name, 64)
        return z3.FP(name, sort_of(t[1]))

    def bind(self, st, fr, contract):
        args = []
        hdr = None
        m = {}
        for (fnm, inv), b in self.binding.items():
            if fnm == fr.fn.name:
                m.update(b)
        for p in self.params_of_contract_f(contract):
            args.append(fr.regs[m[p]])
        return args

    def params_of_contract_f(self, f):
        return [p[0][1:] for p in f.params]

    def truth(self, v):
        if isinstance(v, int):
            return v != 0
        if isinstance(v, z3.BoolRef):
            return v
        return v != BVV(0, v.size())

    def assume(self, st, c):
        c = simpb(c)
        if c is True:
            return
        if c is False:
            self.stat['assumed_dead'] += 1
            raise PathEnd()
        self.add(st, c)
        if not self.feasible(st):
            self.stat['assumed_dead'] += 1
            raise PathEnd()

    # ---- main loop
    def run(self, entry, budget=600):
        st = State()
        self.call(st, self.funcs[entry], [])
        work = [st]
        self.deadline = time.time() + budget
        self.timedout = False
        try:
            while work:
                st = work.pop()
                try:
                    self.steps(st, work)
                except PathEnd:
                    self.stat['paths'] += 1
                if time.time() > self.deadline:
                    self.timedout = True
                    break
        except StopUnit:
            pass
        return self

    def steps(self, st, work):
        n = 0
        while True:
            f = st.frames[-1]
            ins = f.code[f.ip]
            n += 1
            if n & 1023 == 0:
                self.stat['instrs'] += 1024
                if time.time() > self.deadline:
                    self.timedout = True
                    raise PathEnd()
            f.ip += 1
            try:
                getattr(self, 'i_' + ins[0])(st, f, ins)
            except Fork as e:
                f = self.undo(st, f)
                self.stat['forks'] += 1
                b = st.copy()
                b.ep = next(EP) + 1000000
                st.ep = next(EP) + 1000000
                # order: true branch first
                self.keep(e.cond)
                try:
                    self.add(b, z3.Not(e.cond))
                    b.cache[e.cond.get_id()] = False
                    work.append(b)
                except PathEnd:
                    pass
                self.add(st, e.cond)
                if st.model is None and not self.feasible(st):
                    return
                continue
            except PushFrame as e:
                f = self.undo(st, f)
                pre = f.prefix
                self.call(st, e.fn, e.args, None, e.hook, e.prefix)
                continue

    def undo(self, st, f):
        f.ip -= 1
        return f

    def val(self, f, o):
        if type(o) is str:
            return f.regs[o]
        return o

    # ---- instructions
    def i_alloca(self, st, f, ins):
        if ins[1] in f.fn.promoted and f.fn.name not in self.hotfns:
            return
        cnt = ins[4]
        if not isinstance(cnt, int):
            cnt = self.val(f, cnt)
        size = ins[3] * cnt if isinstance(cnt, int) else simp(bv(cnt, 64) * ins[3])
        i = self.newobj(st, size, Base('sym', 'stk' + ins[1][1:]), 'stack', ins[1][1:])
        f.stk = f.stk + (i,)
        f.regs[ins[1]] = Ptr(i, 0)

    def i_load(self, st, f, ins):
        a = ins[3]
        if type(a) is str:
            if a in f.fn.promoted and f.fn.name not in self.hotfns:
                v = f.vars.get(a)
                if v is None:
                    v = f.vars[a] = self.symval(ins[2], 'uninit!%s!%d' % (a, next(self.fresh)))
                f.regs[ins[1]] = v
                return
            a = f.regs[a]
        f.regs[ins[1]] = self.load(st, a, ins[4], ins[2])

    def i_store(self, st, f, ins):
        a = ins[4]
        v = ins[3]
        if type(v) is str:
            v = f.regs[v]
        if type(a) is str:
            if a in f.fn.promoted and f.fn.name not in self.hotfns:
                f.vars[a] = v
                return
            a = f.regs[a]
        self.store(st, a, ins[5], v, ins[2])

    def i_gep(self, st, f, ins):
        b = ins[2]
        if type(b) is str:
            b = f.regs[b]
        off = ins[3]
        sym = None
        for ix, w, s in ins[4]:
            v = f.regs[ix] if type(ix) is str else ix
            if isinstance(v, int):
                off += sx(v, w) * s
            elif isinstance(v, Ptr):
                raise Unsupported('gep by pointer')
            else:
                e = z3.SignExt(64 - w, v) if w < 64 else v
                e = e * s if s != 1 else e
                sym = e if sym is None else sym + e
        if isinstance(b, Ptr):
            if b.obj == 0:
                base = b.off
                if sym is None and isinstance(base, int):
                    if base + off == 0:
                        f.regs[ins[1]] = NULL
                    else:
                        f.regs[ins[1]] = Ptr(0, base + off)
                    return
            if sym is None:
                if type(b.off) is int:
                    f.regs[ins[1]] = Ptr(b.obj, b.off + off)
                else:
                    f.regs[ins[1]] = Ptr(b.obj, simp(b.off + off) if off else b.off)
            else:
                f.regs[ins[1]] = Ptr(b.obj, simp(bv(b.off, 64) + sym + off))
            return
        e = bv(b, 64) + off
        if sym is not None:
            e = e + sym
        f.regs[ins[1]] = simp(e)

    def i_bin(self, st, f, ins):
        _, dst, op, w, a, b = ins
        a = f.regs[a] if type(a) is str else a
        b = f.regs[b] if type(b) is str else b
        f.regs[dst] = self.binop(st, op, w, a, b)

    def binop(self, st, op, w, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                return simp(bv(a.off, 64) - bv(b.off, 64))
            if op in ('add', 'sub') and isinstance(a, Ptr) and not isinstance(b, Ptr):
                return Ptr(a.obj, simp(bv(a.off, 64) + b if op == 'add' else bv(a.off, 64) - b))
            a, b = self.addr(st, a), self.addr(st, b)
        m = (1 << w) - 1
        if isinstance(a, int) and isinstance(b, int):
            if op == 'add':
                return (a + b) & m
            if op == 'sub':
                return (a - b) & m
            if op == 'mul':
                return (a * b) & m
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return (a << b) & m if b < w else 0
            if op == 'lshr':
                return a >> b if b < w else 0
            if op == 'ashr':
                return (sx(a, w) >> min(b, w - 1)) & m
            if op in ('udiv', 'urem', 'sdiv', 'srem') and b == 0:
                self.prove(st, False, 'arith:division by zero in %s' % st.frames[-1].fn.name, 'arithmetic')
            if op == 'udiv':
                return a // b
            if op == 'urem':
                return a % b
            x, y = sx(a, w), sx(b, w)
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0):
                q = -q
            if op == 'sdiv':
                return q & m
            return (x - q * y) & m
        if w == 1:
            A = self.truth(a) if not isinstance(a, int) else z3.BoolVal(bool(a))
            B = self.truth(b) if not isinstance(b, int) else z3.BoolVal(bool(b))
            r = {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op](A, B)
            r = simpb(r)
            return int(r) if isinstance(r, bool) else r
        A, B = bv(a, w), bv(b, w)
        if op == 'add':
            r = A + B
        elif op == 'sub':
            r = A - B
        elif op == 'mul':
            if self.absmul and w == 64 and not z3.is_bv_value(A) and not z3.is_bv_value(B):
                return z3.Function('mul64', A.sort(), A.sort(), A.sort())(A, B)
            r = A * B
        elif op == 'and':
            r = A & B
        elif op == 'or':
            r = A | B
        elif op == 'xor':
            r = A ^ B
        elif op == 'shl':
            r = A << B
        elif op == 'lshr':
            r = z3.LShR(A, B)
        elif op == 'ashr':
            r = A >> B
        else:
            nz = B != 0
            if op in ('sdiv', 'srem'):
                nz = z3.And(nz, z3.Not(z3.And(A == (1 << (w - 1)), B == m)))
            self.prove(st, nz, 'arith:division by zero or overflow in %s' % st.frames[-1].fn.name, 'arithmetic')
            if op == 'udiv' and self.absmul and w == 64 and z3.is_bv_value(B) and z3.is_app(A) and A.decl().name() == 'mul64':
                self.lemma_muldiv(st)
                r = z3.Function('div64', A.sort(), A.sort(), A.sort())(A, B)
                x, y = A.children()
                top = z3.BitVecVal(0xffffffff, 64)
                for p, q in ((x, y), (y, x)):
                    self.add(st, z3.Implies(z3.And(z3.ULE(p, B), z3.ULE(p, top), z3.ULE(q, top)), z3.ULE(r, q)))
                return r
            if op == 'udiv':
                r = z3.UDiv(A, B)
            elif op == 'urem':
                r = z3.URem(A, B)
            elif op == 'sdiv':
                r = A / B
            else:
                r = z3.SRem(A, B)
        return simp(r)

    def i_fbin(self, st, f, ins):
        _, dst, op, w, a, b = ins
        a = f.regs[a] if type(a) is str else a
        b = f.regs[b] if type(b) is str else b
        if op in ('fadd', 'fsub') and self.absmul and not (z3.is_fp_value(z3.simplify(a)) and z3.is_fp_value(z3.simplify(b))):
            self.nfresh = getattr(self, 'nfresh', 0) + 1
            r = z3.FP('%s!%d' % (op, self.nfresh), sort_of(w))
            i, n, neg = z3.fpIsInf, z3.fpIsNaN, z3.fpIsNegative
            opp = neg(a) != neg(b) if op == 'fadd' else neg(a) == neg(b)
            big = z3.FPVal(2.0 ** (100 if w == 32 else 1000), sort_of(w))
            self.add(st, n(r) == z3.Or(n(a), n(b), z3.And(i(a), i(b), opp)))
            self.add(st, z3.Implies(z3.And(z3.fpLEQ(z3.fpAbs(a), big), z3.fpLEQ(z3.fpAbs(b), big)), z3.Not(i(r))))
            f.regs[dst] = r
            return
        if op == 'fadd':
            r = z3.fpAdd(RNE, a, b)
        elif op == 'fsub':
            r = z3.fpSub(RNE, a, b)
        elif op in ('fmul', 'fdiv') and self.absmul and not (z3.is_fp_value(z3.simplify(a)) and z3.is_fp_value(z3.simplify(b))):
            # the value is unknown; when it is NaN is not
            self.nfresh = getattr(self, 'nfresh', 0) + 1
            r = z3.FP('%s!%d' % (op, self.nfresh), sort_of(w))
            z, i, n = z3.fpIsZero, z3.fpIsInf, z3.fpIsNaN
            bad = z3.Or(z3.And(z(a), i(b)), z3.And(i(a), z(b))) if op == 'fmul' else z3.Or(z3.And(z(a), z(b)), z3.And(i(a), i(b)))
            self.add(st, n(r) == z3.Or(n(a), n(b), bad))
            f.regs[dst] = r
            return
        elif op == 'fmul':
            r = z3.fpMul(RNE, a, b)
        elif op == 'fdiv':
            r = z3.fpDiv(RNE, a, b)
        else:
            r = self.uf('fmod', w, a, b)
        f.regs[dst] = z3.simplify(r)

    def lemma_muldiv(self, st):
        """x <= c implies x*y/c <= y, for integers; discharged when used"""
        if 'lemma:muldiv' in self.obl:
            return
        x, y, c, q = z3.Ints('x y c q')
        s = z3.Solver()
        s.set('timeout', 30000)
        # q = x*y div c is the largest number with q*c <= x*y
        s.add(x >= 0, y >= 0, c > 0, x <= c, q * c <= x * y, q > y)
        ok = s.check() == z3.unsat
        self.stat['queries'] += 1
        self.prove(st, z3.BoolVal(ok), 'lemma:muldiv', 'lemma')

    def uf(self, name, w, *args):
        s = sort_of(w)
        fn = z3.Function('%s%d' % (name, w), *([s] * (len(args) + 1)))
        return fn(*args)

    def i_fneg(self, st, f, ins):
        f.regs[ins[1]] = z3.simplify(z3.fpNeg(self.val(f, ins[2])))

    CMP = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b,
           'ult': z3.ULT, 'ule': z3.ULE, 'ugt': z3.UGT, 'uge': z3.UGE,
           'slt': lambda a, b: a < b, 'sle': lambda a, b: a <= b, 'sgt': lambda a, b: a > b, 'sge': lambda a, b: a >= b}

    def i_icmp(self, st, f, ins):
        _, dst, pred, t, a, b = ins
        a = f.regs[a] if type(a) is str else a
        b = f.regs[b] if type(b) is str else b
        w = 64 if t[0] == 'p' else t[1]
        f.regs[dst] = self.icmp(st, pred, w, a, b)

    def icmp(self, st, pred, w, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, int) and a == 0:
                a = NULL
            if isinstance(b, int) and b == 0:
                b = NULL
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.obj == b.obj:
                    a, b = a.off, b.off
                    if isinstance(a, int):
                        a &= (1 << 64) - 1
                    if isinstance(b, int):
                        b &= (1 << 64) - 1
                elif pred == 'eq':
                    return 0
                elif pred == 'ne':
                    return 1
                else:
                    a, b = self.addr(st, a), self.addr(st, b)
            elif (isinstance(a, Ptr) and a.obj == 0) or (isinstance(b, Ptr) and b.obj == 0):
                a = a.off if isinstance(a, Ptr) else a
                b = b.off if isinstance(b, Ptr) else b
            else:
                a, b = self.addr(st, a), self.addr(st, b)
        if isinstance(a, int) and isinstance(b, int):
            if pred[0] == 's':
                a, b = sx(a, w), sx(b, w)
            p = pred[-2:]
            r = {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p]
            return int(r)
        if w == 1:
            A = self.truth(a) if not isinstance(a, int) else z3.BoolVal(bool(a))
            B = self.truth(b) if not isinstance(b, int) else z3.BoolVal(bool(b))
            r = A == B if pred == 'eq' else z3.Xor(A, B)
        else:
            r = self.CMP[pred](bv(a, w), bv(b, w))
        r = simpb(r)
        return int(r) if isinstance(r, bool) else r

    def i_fcmp(self, st, f, ins):
        _, dst, pred, w, a, b = ins
        a = f.regs[a] if type(a) is str else a
        b = f.regs[b] if type(b) is str else b
        nan = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        p = pred[1:]
        base = {'eq': z3.fpEQ, 'ne': z3.fpNEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ}
        if pred == 'ord':
            r = z3.Not(nan)
        elif pred == 'uno':
            r = nan
        elif pred == 'true':
            r = z3.BoolVal(True)
        elif pred == 'one':
            r = z3.And(z3.Not(nan), z3.fpNEQ(a, b))
        else:
            r = base[p](a, b)
            if pred[0] == 'u':
                r = z3.Or(nan, r)
        r = simpb(r)
        f.regs[dst] = int(r) if isinstance(r, bool) else r

    def i_cast(self, st, f, ins):
        _, dst, op, t, a, t2 = ins
        a = f.regs[a] if type(a) is str else a
        f.regs[dst] = self.cast(st, op, t, a, t2)

    def cast(self, st, op, t, a, t2):
        if op == 'zext':
            if isinstance(a, int):
                return a
            if t[1] == 1:
                return z3.If(self.truth(a), BVV(1, t2[1]), BVV(0, t2[1]))
            return z3.ZeroExt(t2[1] - t[1], a)
        if op == 'sext':
            if isinstance(a, int):
                return sx(a, t[1]) & ((1 << t2[1]) - 1)
            if t[1] == 1:
                return z3.If(self.truth(a), BVV(-1, t2[1]), BVV(0, t2[1]))
            return z3.SignExt(t2[1] - t[1], a)
        if op == 'trunc':
            if isinstance(a, Ptr):
                a = self.addr(st, a)
            if isinstance(a, int):
                return a & ((1 << t2[1]) - 1)
            if t2[1] == 1:
                r = simpb(z3.Extract(0, 0, a) == 1)
                return int(r) if isinstance(r, bool) else r
            return simp(z3.Extract(t2[1] - 1, 0, a))
        if op in ('ptrtoint', 'inttoptr', 'freeze'):
            if isinstance(a, int) and a == 0 and t2[0] == 'p':
                return NULL
            if isinstance(a, Ptr) and a.obj == 0 and t2[0] == 'i':
                return a.off
            return a
        if op == 'bitcast':
            if t[0] == t2[0]:
                return a
            if t[0] == 'f':
                return z3.fpToIEEEBV(a)
            return z3.fpBVToFP(bv(a, t[1]), sort_of(t2[1]))
        if op == 'fpext' or op == 'fptrunc':
            return z3.simplify(z3.fpFPToFP(RNE, a, sort_of(t2[1])))
        if op == 'sitofp':
            return z3.simplify(z3.fpSignedToFP(RNE, bv(a, t[1]), sort_of(t2[1])))
        if op == 'uitofp':
            return z3.simplify(z3.fpUnsignedToFP(RNE, bv(a, t[1]), sort_of(t2[1])))
        if op == 'fptosi':
            return simp(z3.fpToSBV(RTZ, a, z3.BitVecSort(t2[1])))
        if op == 'fptoui':
            return simp(z3.fpToUBV(RTZ, a, z3.BitVecSort(t2[1])))
        raise Unsupported('cast ' + op)

    def i_jmp(self, st, f, ins):
        self.goto(st, f, ins[2])

    def i_br(self, st, f, ins):
        c = ins[2]
        c = f.regs[c] if type(c) is str else c
        if not isinstance(c, int):
            c = self.decide(st, self.truth(c))
        self.goto(st, f, ins[3] if c else ins[4])

    def i_switch(self, st, f, ins):
        v = ins[2]
        v = f.regs[v] if type(v) is str else v
        if isinstance(v, int):
            for c, lab in ins[5]:
                if c == v:
                    return self.goto(st, f, lab)
            return self.goto(st, f, ins[4])
        for c, lab in ins[5]:
            if self.decide(st, v == c):
                return self.goto(st, f, lab)
        self.goto(st, f, ins[4])

    def goto(self, st, f, lab):
        fn = f.fn
        src = f.blk
        f.prev = src
        f.blk = lab
        f.code = fn.blocks[lab]
        f.ip = 0
        if fn.loops:
            # leaving contract loops
            if st.loopctx:
                top = st.loopctx[-1]
                while top[0] == len(st.frames) and lab not in fn.loopblocks[top[1]]:
                    st.loopctx = st.loopctx[:-1]
                    if not st.loopctx:
                        break
                    top = st.loopctx[-1]
            if lab in fn.loopblocks:
                n = fn.loops.index(lab)
                key = (fn.name, n)
                if key in self.loopc and not self.bounded:
                    inv = self.funcs[self.loopc[key]]
                    if src in fn.loopblocks[lab]:
                        ctx = [c for c in st.loopctx if c[0] == len(st.frames) and c[1] == lab]
                        if ctx:
                            self.call(st, inv, self.bind(st, f, inv), None, ('inv-keep', fn.name, n))
                            return
                    else:
                        self.used_loops.add(key)
                        self.call(st, inv, self.bind(st, f, inv), None, ('inv-init', fn.name, n, lab))
                        return
                # unrolling: only symbolic progress counts against the bound
                if src in fn.loopblocks[lab]:
                    c = f.lcnt.get(lab)
                    if c is None:
                        f.lcnt[lab] = (0, len(st.path))
                    else:
                        k, pl = c
                        if len(st.path) > pl:
                            k += 1
                            pl = len(st.path)
                            if not f.spec and not self.bounded:
                                st.opts['unrolled'] = True       # a loop no contract covers
                            if k > st.opts['unwind']:
                                self.incomplete.append('loop %s#%d not fully unrolled%s' % (key + (' (its contract no longer applies)'
                                                       if key in self.lost else '',)))
                                raise PathEnd()
                        f.lcnt[lab] = (k, pl)
                else:
                    f.lcnt[lab] = (0, len(st.path))

    def i_phi(self, st, f, ins):
        # phis of a block are evaluated one by one: clang -O0 phis never read each other
        f.regs[ins[1]] = self.val(f, ins[3][f.prev])

    def i_select(self, st, f, ins):
        _, dst, t, c, a, b = ins
        c = self.val(f, c)
        a = self.val(f, a)
        b = self.val(f, b)
        if not isinstance(c, int):
            if t[0] == 'i' and t[1] > 1 and not isinstance(a, Ptr) and not isinstance(b, Ptr):
                f.regs[dst] = z3.If(self.truth(c), bv(a, t[1]), bv(b, t[1]))
                return
            if t[0] == 'f':
                f.regs[dst] = z3.If(self.truth(c), a, b)
                return
            c = self.decide(st, self.truth(c))
        f.regs[dst] = a if c else b

    def i_unreachable(self, st, f, ins):
        raise PathEnd()

    def i_ret(self, st, f, ins):
        v = ins[2]
        if v is not None:
            v = f.regs[v] if type(v) is str else v
        self.ret(st, v)

    def i_call(self, st, f, ins):
        _, dst, rt, callee, args = ins
        if type(callee) is str:
            callee = f.regs[callee]
        if not isinstance(callee, Ptr):
            self.prove(st, False, 'mem:call through a wild pointer in %s' % f.fn.name, 'memory')
        name = self.idf.get(callee.obj)
        if name is None or not (type(callee.off) is int and callee.off == 0):
            self.prove(st, False, 'mem:call through a bad function pointer in %s' % f.fn.name, 'memory')
        av = [f.regs[a] if type(a) is str else a for a, t in args]
        if not f.spec and name in self.stubs:
            self.used_stubs.add(name)
            st.opts['abs'] = True
            fn = self.funcs[self.stubs[name]]
            return self.call(st, fn, av, dst)
        if not f.spec and name in self.recs and any(x.fn.name == name for x in st.frames):
            # a recursive call is checked against the contract of the function
            self.used_stubs.add(name)
            st.opts['abs'] = True
            return self.call(st, self.funcs[self.recs[name]], av, dst)
        fn = self.funcs.get(name)
        if fn is not None:
            return self.call(st, fn, av, dst)
        b = getattr(self, 'b_' + name.replace('.', '_'), None)
        if b is None:
            import builtins_c
            b = builtins_c.lookup(name)
            if b is None:
                raise Unsupported('external function ' + name)
            r = b(self, st, f, av, [t for _, t in args], rt)
        else:
            r = b(st, f, av, [t for _, t in args], rt)
        if isinstance(r, tuple) and len(r) in (2, 3) and r[0] == 'CCALL':
            return self.call(st, self.funcs[r[1]], r[2] if len(r) == 3 else av, dst)
        if dst is not None:
            f.regs[dst] = r


class StopUnit(Exception):
    pass
