"""Symbolic executor / verification condition generator over LLVM IR.

Executes functions of the IR module (compiled from /repo's current sources on every run) on
symbolic states.  Control-flow joins are merged, so a function without unbounded loops yields one
final state that describes all its executions.  Calls are inlined unless a contract is registered
for the callee (`hooks`), in which case the caller only sees the contract.  Every memory access,
signed overflow, shift amount and reachability of `unreachable` produces an obligation, checked by z3.
"""
import re
import sys
import z3
from .irparse import Unsupported, Module

sys.setrecursionlimit(100000)

T, F_ = True, False


class CantMerge(Exception):
    pass


class Budget(Exception):
    """Work limit of one proof reached."""


# ------------------------------------------------------------------ values
BLOCK = re.compile(r'^@(llvm\.)?mem(cpy|move|set)\b')


class Ptr:
    __slots__ = ('obj', 'off', 'sym', 'bnd')

    def __init__(self, obj, off=0, sym=(), bnd=()):
        self.obj, self.off, self.sym, self.bnd = obj, off, sym, bnd

    def __repr__(self):
        return f'&{self.obj}+{self.off}' + (f'+{self.sym}' if self.sym else '')

    def offset(self):
        """as one 64 bit term"""
        r = z3.BitVecVal(self.off, 64)
        for e, n in self.sym:
            r = r + e * n
        return z3.simplify(r)

    def same(self, o):
        return (isinstance(o, Ptr) and self.obj == o.obj and self.off == o.off and len(self.sym) == len(o.sym)
                and all(s[1] == t[1] and s[0].eq(t[0]) for s, t in zip(self.sym, o.sym)))


NULL = Ptr(None, 0)
FLAT = set()         # objects whose pointers are merged into one with a computed offset


class FnPtr:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'fn' + self.name


class GPtr:
    """one of several pointers, each with the condition under which it is the value"""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts


class FpExt:
    __slots__ = ('bits',)

    def __init__(self, bits):
        self.bits = bits


class PInt:
    """address of a pointer as an integer; only differences and comparisons are supported"""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p


class Agg:
    __slots__ = ('vals',)

    def __init__(self, vals):
        self.vals = vals


_fresh = [0]


def fresh_name(base):
    _fresh[0] += 1
    return f'{base}!{_fresh[0]}'


def fresh(w, base='u'):
    return z3.BitVec(fresh_name(base), w)


def is_sym(v):
    return isinstance(v, z3.ExprRef)


def bv(v, w):
    if isinstance(v, bool):
        return z3.BitVecVal(1 if v else 0, w)
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    return v


def b_(v):
    """i1 to z3 Bool"""
    if isinstance(v, bool):
        return z3.BoolVal(v)
    return v


def conc(e):
    """fold a z3 expression to a python value if it is a literal"""
    if z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


def simp(e):
    if isinstance(e, (int, bool)):
        return e
    return conc(z3.simplify(e))


def ite(c, a, b, w=None):
    """c: python bool or z3 Bool; a, b values of the same kind (BV width w or Bool)"""
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if isinstance(a, PInt) or isinstance(b, PInt):
        raise CantMerge('address')
    if isinstance(a, (Ptr, GPtr, FnPtr)) or isinstance(b, (Ptr, GPtr, FnPtr)):
        if isinstance(a, Ptr) and a.same(b):
            return a
        if isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name:
            return a
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and a.obj in FLAT:
            return Ptr(a.obj, 0, ((z3.If(c, a.offset(), b.offset()), 1),))
        return mk_gptr(c, a, b)
    if isinstance(a, FpExt) or isinstance(b, FpExt):
        if isinstance(a, FpExt) and isinstance(b, FpExt):
            return FpExt(ite(c, a.bits, b.bits, 32))
        raise CantMerge('fpext')
    if isinstance(a, Agg) or isinstance(b, Agg):
        if isinstance(a, Agg) and isinstance(b, Agg) and len(a.vals) == len(b.vals):
            return Agg(tuple(ite(c, x, y, None) for x, y in zip(a.vals, b.vals)))
        raise CantMerge('agg')
    if isinstance(a, bool) or isinstance(b, bool) or z3.is_bool(a):
        if isinstance(a, bool) and isinstance(b, bool):
            if a == b:
                return a
            return c if a else z3.Not(c)
        if not is_sym(a) and not is_sym(b):
            raise CantMerge('bool/int')
        return z3.If(c, b_(a), b_(b))
    if isinstance(a, int) and isinstance(b, int):
        if a == b:
            return a
        if w is None:
            raise CantMerge('width')
        return z3.If(c, z3.BitVecVal(a, w), z3.BitVecVal(b, w))
    if is_sym(a) and is_sym(b):
        if a.eq(b):
            return a
        if a.sort() != b.sort():
            raise CantMerge('sort')
        return z3.If(c, a, b)
    s = a if is_sym(a) else b
    if not z3.is_bv(s):
        raise CantMerge('kind')
    w = s.size()
    return z3.If(c, bv(a, w), bv(b, w))


def mk_gptr(c, a, b):
    alts = []
    for cond, x in ((c, a), (z3.Not(c), b)):
        if isinstance(x, GPtr):
            alts += [(z3.And(cond, g), p) for g, p in x.alts]
        elif isinstance(x, (Ptr, FnPtr)):
            alts.append((cond, x))
        elif isinstance(x, int) and x == 0:
            alts.append((cond, NULL))
        else:
            raise CantMerge('pointer/int')
    # fuse equal targets
    out = []
    for g, p in alts:
        for k, (g2, p2) in enumerate(out):
            if (isinstance(p, Ptr) and isinstance(p2, Ptr) and p.same(p2)) or \
               (isinstance(p, FnPtr) and isinstance(p2, FnPtr) and p.name == p2.name):
                out[k] = (z3.Or(g2, g), p2)
                break
        else:
            out.append((g, p))
    if len(out) == 1:
        return out[0][1]
    return GPtr(tuple(out))


def veq(a, b):
    if a is b:
        return True
    if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
        return a == b and isinstance(a, bool) == isinstance(b, bool)
    if is_sym(a) and is_sym(b):
        return a.eq(b)
    if isinstance(a, Ptr):
        return a.same(b)
    if isinstance(a, FnPtr) and isinstance(b, FnPtr):
        return a.name == b.name
    if isinstance(a, FpExt) and isinstance(b, FpExt):
        return veq(a.bits, b.bits)
    return False


# ------------------------------------------------------------------ regions (large / symbolic-size byte or element arrays)
class RNode:
    """Immutable contents of a region, as an update chain; read() expands it at an index."""
    __slots__ = ('k', 'a')

    def __init__(self, k, *a):
        self.k, self.a = k, a


def rread(node, idx, w):
    """value of element idx (BV64 or int) of width w bits"""
    idx = simp(idx) if is_sym(idx) else idx
    cache = {}

    def rd(n, i):
        key = (id(n), i if isinstance(i, int) else i.get_id())
        if key in cache:
            return cache[key]
        r = rd2(n, i)
        cache[key] = r
        return r

    def rd2(n, i):
        k, a = n.k, n.a
        if k == 'arr':                     # z3 array BV64 -> BVw
            return z3.Select(a[0], bv(i, 64))
        if k == 'const':
            return a[0]
        if k == 'store':                   # prev, idx, val
            c = simp(bv(i, 64) == bv(a[1], 64))
            if c is True:
                return a[2]
            if c is False:
                return rd(a[0], i)
            return ite(c, a[2], rd(a[0], i), w)
        if k == 'copy':                    # prev, dstidx, n, srcnode, srcidx
            d = simp(bv(i, 64) - bv(a[1], 64))
            c = simp(z3.ULT(bv(d, 64), bv(a[2], 64)))
            if c is False:
                return rd(a[0], i)
            s = rd(a[3], simp(bv(d, 64) + bv(a[4], 64)))
            if c is True:
                return s
            return ite(c, s, rd(a[0], i), w)
        if k == 'fill':                    # prev, dstidx, n, val
            d = simp(bv(i, 64) - bv(a[1], 64))
            c = simp(z3.ULT(bv(d, 64), bv(a[2], 64)))
            if c is True:
                return a[3]
            if c is False:
                return rd(a[0], i)
            return ite(c, a[3], rd(a[0], i), w)
        if k == 'ite':
            return ite(a[0], rd(a[1], i), rd(a[2], i), w)
        if k == 'cells':                   # list of values
            if isinstance(i, int):
                return a[0][i] if 0 <= i < len(a[0]) else 0
            r = bv(0, w)
            for j in range(len(a[0]) - 1, -1, -1):
                r = z3.If(bv(i, 64) == j, bv(a[0][j], w), r)
            return r
        if k == 'guard':                   # cond(i) -> n1 else n2 ; python callables
            return ite(a[0](i), rd(a[1], i), rd(a[2], i), w)
        raise Unsupported('region ' + k)
    return rd(node, idx)


class Region:
    __slots__ = ('start', 'n', 'es', 'node')

    def __init__(self, start, n, es, node):
        self.start, self.n, self.es, self.node = start, n, es, node   # n elements (int or BV64), es bytes each


# ------------------------------------------------------------------ memory
class Obj:
    __slots__ = ('name', 'size', 'cells', 'regions', 'const', 'ghost', 'owner', 'zero')

    def __init__(self, name, size, const=False, ghost=None):
        self.name, self.size, self.const, self.ghost = name, size, const, ghost
        self.cells = {}       # off -> (nbytes, value)
        self.regions = ()
        self.owner = None
        self.zero = False     # unwritten bytes read as zero (zeroinitializer globals)

    def clone(self):
        o = Obj(self.name, self.size, self.const, self.ghost)
        o.cells = dict(self.cells)
        o.regions = self.regions
        o.zero = self.zero
        return o


class State:
    _n = 0
    __slots__ = ('mem', 'pc', 'gh', 'tok')

    def __init__(self):
        self.mem = {}
        self.pc = ()
        self.gh = {}
        self.tok = object()

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        s.pc = self.pc
        s.gh = dict(self.gh)
        s.tok = object()
        self.tok = object()     # neither copy owns the shared objects any more
        return s

    def wobj(self, oid):
        o = self.mem[oid]
        if o.owner is not self.tok:
            o = o.clone()
            o.owner = self.tok
            self.mem[oid] = o
        return o

    def assume(self, c):
        if c is True:
            return
        self.pc = self.pc + (b_(c),)


def conj(l):
    l = [x for x in l if not z3.is_true(x)]
    if not l:
        return z3.BoolVal(True)
    if len(l) == 1:
        return l[0]
    return z3.And(*l)


def neg_of(a, b):
    return (z3.is_not(a) and a.arg(0).eq(b)) or (z3.is_not(b) and b.arg(0).eq(a))


REGION_MIN = 72


class Exec:
    def __init__(self, mod: Module, hooks=None, limits=None):
        self.m = mod
        self.hooks = {} if hooks is None else hooks
        self.solver = z3.SolverFor('QF_AUFBV') if False else z3.Solver()
        self.solver.set('timeout', 3000)
        self.obls = []            # (name, pc, cond) still to be decided
        self.n_trivial = 0
        self.globals = {}
        self.oid = 0
        self.finfo = {}
        self.steps = 0
        self.max_steps = (limits or {}).get('steps', 3_000_000)
        self.max_unroll = (limits or {}).get('unroll', 400)
        self.max_states = 64
        self.nomerge = False
        self.used_contracts = {}
        self.called = {}
        self.safety = True
        self.feas_calls = 0
        self.depth = 0
        self.loopcut = {}
        self.axioms = []
        self.axset = {}

    def add_axiom(self, a):
        a = b_(a)
        k = a.get_id()
        if k in self.axset:
            return
        self.axset[k] = a
        self.axioms.append(a)
        self.solver.add(a)

    # ---- objects
    def new_obj(self, st, name, size, **kw):
        self.oid += 1
        oid = f'{name}#{self.oid}'
        o = Obj(name, size, **kw)
        o.owner = st.tok
        st.mem[oid] = o
        return oid

    def global_ptr(self, st, name):
        name = self.m.aliases.get(name, name)
        if name in self.m.funcs or name in self.m.decls:
            return FnPtr(name)
        oid = 'G' + name
        if oid not in st.mem:
            if name not in self.m.globals:
                raise Unsupported('global ' + name)
            t, init, const = self.m.globals[name]
            if t is None:
                raise Unsupported('global type ' + name)
            o = Obj(name, self.m.size(t) if init is not None else 1 << 20, const=const)
            st.mem[oid] = o
            if init is not None:
                self.init_const(st, o, 0, t, init)
        return Ptr(oid, 0)

    def init_const(self, st, o, off, t, v):
        t = self.m.resolve(t)
        if v[0] == 'zeroinitializer':
            o.zero = True
            return
        if v[0] in ('undef', 'poison'):
            return
        if v[0] == 'bytes':
            for k, c in enumerate(v[1]):
                o.cells[off + k] = (1, c)
            return
        if v[0] == 'agg':
            for k, (et, ev) in enumerate(v[1]):
                if t[0] == 'arr':
                    eo = off + k * self.m.size(t[2])
                else:
                    eo = off + self.m.field_off(t, k)[0]
                self.init_const(st, o, eo, et, ev)
            return
        o.cells[off] = (self.m.size(t), self.const(st, t, v))

    def const(self, st, t, v):
        k = v[0]
        if k == 'int':
            if t == ('i', 1):
                return bool(v[1] & 1)
            return v[1] & ((1 << t[1]) - 1)
        if k == 'glo':
            return self.global_ptr(st, v[1])
        if k in ('null',):
            return NULL
        if k in ('undef', 'poison'):
            return self.undef(t)
        if k == 'zeroinitializer':
            t2 = self.m.resolve(t)
            if t2[0] == 'i':
                return False if t2[1] == 1 else 0
            if t2[0] == 'ptr':
                return NULL
            if t2[0] in ('float', 'double'):
                return 0
            raise Unsupported('zeroinitializer value')
        if k == 'fp':
            import struct
            if t[0] == 'float':
                return int.from_bytes(struct.pack('<f', v[1]), 'little')
            return int.from_bytes(struct.pack('<d', v[1]), 'little')
        if k == 'fphex':
            if t[0] == 'double':
                return v[1]
            import struct
            d = struct.unpack('<d', v[1].to_bytes(8, 'little'))[0]
            return int.from_bytes(struct.pack('<f', d), 'little')
        if k == 'gep':
            base = self.const(st, ('ptr',), v[2])
            return self.gep(st, v[1], base, [(it, self.const(st, it, iv)) for it, iv in v[3]])
        raise Unsupported(f'constant {v}')

    def undef(self, t):
        t = self.m.resolve(t)
        if t[0] == 'i':
            if t[1] == 1:
                return z3.Bool(fresh_name('undef'))
            return fresh(t[1], 'undef')
        if t[0] == 'float':
            return fresh(32, 'undef')
        if t[0] == 'double':
            return fresh(64, 'undef')
        if t[0] == 'ptr':
            return NULL
        if t[0] == 'struct':
            return Agg(tuple(self.undef(x) for x in t[1]))
        raise Unsupported(f'undef {t}')

    def width(self, t):
        t = self.m.resolve(t)
        if t[0] == 'i':
            return t[1]
        if t[0] == 'float':
            return 32
        if t[0] in ('double', 'ptr'):
            return 64
        raise Unsupported(f'width {t}')

    # ---- obligations
    def oblige(self, st, name, c, where=None):
        if c is True:
            self.n_trivial += 1
            return
        c = b_(c)
        s = z3.simplify(c)
        if z3.is_true(s):
            self.n_trivial += 1
            return
        self.obls.append((name + (f' @{where}' if where else ''), st.pc, c))
        st.assume(c)

    def feasible(self, st, c=None):
        self.feas_calls += 1
        s = self.solver
        s.push()
        for p in st.pc:
            s.add(p)
        if c is not None:
            s.add(c)
        r = s.check()
        s.pop()
        return r != z3.unsat

    # ---- GEP
    def gep(self, st, bt, base, idx):
        if isinstance(base, GPtr):
            return GPtr(tuple((g, self.gep(st, bt, p, idx)) for g, p in base.alts))
        if not isinstance(base, Ptr):
            raise Unsupported(f'gep on {base}')
        off, sym, bnd = base.off, list(base.sym), list(base.bnd)
        t = bt
        first = True
        for it, iv in idx:
            if first:
                stride = self.m.size(t)
                first = False
                n = None
            else:
                t = self.m.resolve(t)
                if t[0] == 'struct':
                    if is_sym(iv):
                        raise Unsupported('symbolic struct index')
                    o, t = self.m.field_off(t, iv)
                    off += o
                    continue
                assert t[0] == 'arr'
                n = t[1]
                t = t[2]
                stride = self.m.size(t)
            if isinstance(iv, int):
                w = it[1]
                if iv >> (w - 1) & 1:
                    iv -= 1 << w
                off += iv * stride
                if n is not None and not (0 <= iv <= n):
                    bnd.append((z3.BitVecVal(iv, 64), n))
            else:
                e = iv
                if e.size() < 64:
                    e = z3.SignExt(64 - e.size(), e)
                e = simp(e)
                if isinstance(e, int):
                    if e >> 63:
                        e -= 1 << 64
                    off += e * stride
                    continue
                sym.append((e, stride))
                if n is not None and n > 0:
                    bnd.append((e, n))
        return Ptr(base.obj, off, tuple(sym), tuple(bnd))

    # ---- raw cell access on an Obj (concrete offset)
    def cell_read(self, o, off, n, st=None, oid=None):
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return c[1]
        # assemble from bytes
        parts = []
        any_ = False
        for k in range(n):
            bvv = self.byte_read(o, off + k)
            if bvv is not None:
                any_ = True
            parts.append(bvv)
        if not any_:
            if o.zero:
                return 0
            v = fresh(8 * n, f'uninit_{o.name}_{off}')
            if st is not None:
                st.wobj(oid).cells[off] = (n, v)
            else:
                o.cells[off] = (n, v)
            return v
        out = []
        for k, p in enumerate(parts):
            if p is None:
                p = 0 if o.zero else fresh(8, f'uninit_{o.name}_{off + k}')
                if st is not None and not o.zero:
                    st.wobj(oid).cells[off + k] = (1, p)
            out.append(p)
        if all(isinstance(p, int) for p in out):
            return int.from_bytes(bytes(out), 'little')
        if n == 1:
            return out[0]
        return simp(z3.Concat(*[bv(p, 8) for p in reversed(out)]))

    def byte_read(self, o, off):
        for back in range(0, 8):
            c = o.cells.get(off - back)
            if c is not None and c[0] > back:
                v = c[1]
                if isinstance(v, (Ptr, GPtr, FnPtr)):
                    raise Unsupported('byte of a pointer')
                if isinstance(v, bool):
                    return (1 if v else 0) if back == 0 else 0
                if isinstance(v, int):
                    return (v >> (8 * back)) & 0xff
                if z3.is_bool(v):
                    return z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
                if c[0] == 1:
                    return v
                return simp(z3.Extract(8 * back + 7, 8 * back, v))
        for r in o.regions:
            if isinstance(r.n, int) and r.start <= off < r.start + r.n * r.es:
                if r.es == 1:
                    return rread(r.node, off - r.start, 8)
                q, rem = divmod(off - r.start, r.es)
                v = rread(r.node, q, 8 * r.es)
                return (v >> (8 * rem)) & 0xff if isinstance(v, int) else simp(z3.Extract(8 * rem + 7, 8 * rem, v))
        return None

    def cell_write(self, o, off, n, v):
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == n:
            # no other cell can overlap an existing cell
            cells[off] = (n, v)
            return
        for k in range(off - 7, off + n):
            c = cells.get(k)
            if c is None or k + c[0] <= off:
                continue
            # overlap: keep the bytes outside
            del cells[k]
            if isinstance(c[1], (Ptr, GPtr, FnPtr)):
                continue
            for j in range(c[0]):
                if not (off <= k + j < off + n):
                    cv = c[1]
                    if isinstance(cv, bool):
                        cv = int(cv)
                    if isinstance(cv, int):
                        cells[k + j] = (1, (cv >> (8 * j)) & 0xff)
                    elif z3.is_bool(cv):
                        cells[k + j] = (1, z3.If(cv, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))
                    else:
                        cells[k + j] = (1, simp(z3.Extract(8 * j + 7, 8 * j, cv)))
        cells[off] = (n, v)

    # ---- pointer resolution
    def bounds(self, st, p, n, where, what):
        """obligation that n bytes at p are inside the object (n int)"""
        o = st.mem.get(p.obj)
        if o is None:
            self.oblige(st, f'memory: {what} through an invalid pointer', False, where)
            raise Dead()
        for e, N in p.bnd:
            self.oblige(st, f'memory: {what} index inside the array of {N}', z3.ULT(e, N), where)
        if not p.sym:
            if isinstance(o.size, int):
                ok = 0 <= p.off and p.off + n <= o.size
                if not ok:
                    self.oblige(st, f'memory: {what} inside the object ({o.name})', False, where)
                    raise Dead()
                self.n_trivial += 1
            else:
                self.oblige(st, f'memory: {what} inside the object ({o.name})', z3.ULE(z3.BitVecVal(p.off + n, 64), o.size), where)
        return o

    def offexpr(self, p):
        e = z3.BitVecVal(p.off, 64)
        for x, s in p.sym:
            e = e + x * s
        return e

    def find_region(self, o, p, n):
        for r in o.regions:
            if p.off >= r.start and (not isinstance(r.n, int) or p.off < r.start + r.n * r.es):
                if n == r.es and (p.off - r.start) % r.es == 0 and all(s % r.es == 0 for _, s in p.sym):
                    return r
        return None

    def region_idx(self, r, p):
        c = (p.off - r.start) // r.es
        e = None
        for x, s in p.sym:
            t = x if s == r.es else x * (s // r.es)
            e = t if e is None else e + t
        if e is None:
            return c
        return e + c if c else e

    def candidates(self, st, o, p, n, where, what):
        """list of (cond, concrete offset) for a symbolic pointer into a small object"""
        lists = [[]]
        conds = [([], p.off)]
        for e, s in p.sym:
            N = None
            for be, bn in p.bnd:
                if be.eq(e):
                    N = bn
            new = []
            if N is None:
                if not isinstance(o.size, int):
                    raise Unsupported('symbolic offset in an object of symbolic size')
                lo = -(-(-p.off) // s) if p.off < 0 else 0
                lo = -(p.off // s) if p.off > 0 and False else lo
                N = (o.size - p.off) // s + 1
            if N > 130:
                raise Unsupported(f'symbolic index over {N} elements without a region')
            for cs, off in conds:
                for k in range(N):
                    new.append((cs + [e == k], off + k * s))
            conds = new
            if len(conds) > 300:
                raise Unsupported('symbolic index expansion')
        out = [(conj(cs), off) for cs, off in conds if off >= 0 and off + n <= o.size]
        self.oblige(st, f'memory: {what} inside the object ({o.name})', z3.Or(*[c for c, _ in out]) if out else False, where)
        # skip alternatives excluded by the path condition syntactically
        return out

    def ensure_region(self, st, p, n):
        """make a region for a large array member that is accessed with a symbolic index"""
        o = st.mem[p.obj]
        for e, N in p.bnd:
            if N >= REGION_MIN:
                stride = [s for x, s in p.sym if x.eq(e)]
                if len(stride) == 1 and len(p.sym) == 1 and stride[0] == n:
                    o = st.wobj(p.obj)
                    vals = [self.cell_read(o, p.off + k * n, n) for k in range(N)]
                    if any(isinstance(v, (Ptr, GPtr, FnPtr)) for v in vals):
                        return None
                    for k in range(N):
                        for j in range(n):
                            o.cells.pop(p.off + k * n + j, None)
                    r = Region(p.off, N, n, RNode('cells', vals))
                    o.regions = o.regions + (r,)
                    return r
        return None

    # ---- load / store
    def load(self, st, p, t, where=None):
        t = self.m.resolve(t)
        if isinstance(p, GPtr):
            res = None
            first = True
            for g, q in p.alts:
                s2 = st.fork()
                s2.assume(g)
                n0 = len(s2.pc)
                try:
                    v = self.load(s2, q, t, where)
                except Dead:
                    st.assume(z3.Not(g))
                    continue
                for c in s2.pc[n0:]:
                    st.assume(z3.Implies(g, c))
                for oid in s2.mem:       # lazily created cells and globals
                    if oid not in st.mem:
                        st.mem[oid] = s2.mem[oid]
                res = v if first else ite(g, v, res, self.width(t))
                first = False
            if first:
                raise Dead()
            return res
        if not isinstance(p, Ptr):
            raise Unsupported(f'load through {p}')
        if t[0] == 'struct':
            return Agg(tuple(self.load(st, self.gep(st, t, p, [(('i', 32), 0), (('i', 32), k)]), x, where) for k, x in enumerate(t[1])))
        n = self.m.size(t)
        o = self.bounds(st, p, n, where, 'read')
        if o.ghost is not None and hasattr(o.ghost, 'load'):
            return o.ghost.load(self, st, p, t)
        if p.sym or o.regions:
            r = self.find_region(o, p, n)
            if r is None and p.sym:
                r = self.ensure_region(st, p, n)
                o = st.mem[p.obj]
            if r is not None:
                i = self.region_idx(r, p)
                self.oblige(st, f'memory: read inside the array ({o.name})', z3.ULT(bv(i, 64), bv(r.n, 64)), where)
                v = rread(r.node, i, 8 * n)
            elif p.sym:
                cands = self.candidates(st, o, p, n, where, 'read')
                v = None
                for c, off in cands:
                    x = self.cell_read(st.mem[p.obj], off, n, st, p.obj)
                    if t == ('i', 1) or isinstance(x, bool) or z3.is_bool(x):
                        x = self.tobv(x, 8)
                    v = x if v is None else ite(c, x, v, 8 * n)
                if v is None:
                    raise Dead()
            else:
                v = self.cell_read(o, p.off, n, st, p.obj)
        else:
            v = self.cell_read(o, p.off, n, st, p.obj)
        return self.fromcell(v, t)

    def tobv(self, v, w):
        if isinstance(v, bool):
            return 1 if v else 0
        if is_sym(v) and z3.is_bool(v):
            return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        return v

    def fromcell(self, v, t):
        if t[0] == 'ptr':
            if isinstance(v, (Ptr, GPtr, FnPtr)):
                return v
            if isinstance(v, int) and v == 0:
                return NULL
            raise Unsupported('pointer from data')
        if isinstance(v, (Ptr, GPtr, FnPtr)):
            raise Unsupported('data from pointer')
        if t == ('i', 1):
            if isinstance(v, bool) or (is_sym(v) and z3.is_bool(v)):
                return v
            if isinstance(v, int):
                return bool(v & 1)
            return simp(z3.Extract(0, 0, v) == 1)
        if t[0] == 'i' and t[1] % 8:
            raise Unsupported('odd integer load')
        w = self.width(t)
        if isinstance(v, bool):
            return int(v)
        if is_sym(v) and z3.is_bool(v):
            return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        return v

    def store(self, st, p, t, v, where=None):
        t = self.m.resolve(t)
        if isinstance(p, GPtr):
            for g, q in p.alts:
                old_pc = st.pc
                try:
                    s2 = st.fork()
                    s2.assume(g)
                    n0 = len(s2.pc)
                    cur = self.load(s2, q, t, where)
                    for c in s2.pc[n0:]:
                        st.assume(z3.Implies(g, c))
                except Dead:
                    st.assume(z3.Not(g))
                    continue
                self.safety_off = True
                self.store(st, q, t, ite(g, v, cur, self.width(t)), where)
            return
        if not isinstance(p, Ptr):
            raise Unsupported(f'store through {p}')
        if isinstance(v, Agg):
            for k, x in enumerate(t[1]):
                self.store(st, self.gep(st, t, p, [(('i', 32), 0), (('i', 32), k)]), x, v.vals[k], where)
            return
        if isinstance(v, FpExt):
            raise Unsupported('store of fpext')
        n = self.m.size(t)
        o = self.bounds(st, p, n, where, 'write')
        if o.const:
            self.oblige(st, f'memory: write to constant {o.name}', False, where)
            raise Dead()
        if p.sym or o.regions:
            r = self.find_region(o, p, n)
            if r is None and p.sym:
                r = self.ensure_region(st, p, n)
            if r is not None:
                o = st.wobj(p.obj)
                i = self.region_idx(r, p)
                self.oblige(st, f'memory: write inside the array ({o.name})', z3.ULT(bv(i, 64), bv(r.n, 64)), where)
                nr = Region(r.start, r.n, r.es, RNode('store', r.node, i, self.tobv(v, 8 * n)))
                o.regions = tuple(nr if x.start == r.start else x for x in o.regions)
                return
            if p.sym:
                cands = self.candidates(st, o, p, n, where, 'write')
                for c, off in cands:
                    old = self.cell_read(st.mem[p.obj], off, n, st, p.obj)
                    o = st.wobj(p.obj)
                    if isinstance(old, bool) or z3.is_bool(old) or isinstance(v, bool) or z3.is_bool(v):
                        old, v2 = self.tobv(old, 8), self.tobv(v, 8)
                    else:
                        v2 = v
                    self.cell_write(o, off, n, ite(c, v2, old, 8 * n))
                return
        o = st.wobj(p.obj)
        self.cell_write(o, p.off, n, v)

    # ---- bulk memory
    def memset(self, st, p, val, n, where=None):
        if not isinstance(p, Ptr):
            raise Unsupported('memset pointer')
        n = simp(n) if is_sym(n) else n
        if isinstance(n, int) and n == 0:
            return
        if p.sym:
            raise Unsupported('memset symbolic pointer')
        o = st.mem.get(p.obj)
        if o is None:
            self.oblige(st, 'memory: fill through an invalid pointer', False, where)
            raise Dead()
        if isinstance(n, int):
            self.bounds(st, p, n, where, 'fill')
            o = st.wobj(p.obj)
            for r in o.regions:
                if r.start == p.off and isinstance(r.n, int) and r.n * r.es == n:
                    if r.es != 1:
                        if val != 0:
                            raise Unsupported('memset of elements')
                    o.regions = tuple(Region(x.start, x.n, x.es, RNode('const', val)) if x.start == r.start else x for x in o.regions)
                    return
                if not (p.off + n <= r.start or p.off >= r.start + r.n * r.es):
                    if r.es == 1 and p.off >= r.start and p.off + n <= r.start + r.n:
                        o.regions = tuple(Region(x.start, x.n, x.es, RNode('fill', x.node, p.off - r.start, n, val)) if x.start == r.start else x for x in o.regions)
                        return
                    raise Unsupported('memset over part of a region')
            if n >= 4096:
                for k in list(o.cells):
                    if p.off <= k < p.off + n:
                        del o.cells[k]
                o.regions = o.regions + (Region(p.off, n, 1, RNode('const', val)),)
                return
            # keep the existing cell structure where it matches
            k = 0
            while k < n:
                c = o.cells.get(p.off + k)
                if c is not None and k + c[0] <= n:
                    m = c[0]
                elif isinstance(val, int) and val == 0 and n - k >= 4 and (p.off + k) % 4 == 0 and all(p.off + k + j not in o.cells for j in range(1, 4)) and n > 64:
                    m = 1
                else:
                    m = 1
                if isinstance(val, int):
                    vv = int.from_bytes(bytes([val & 0xff]) * m, 'little')
                else:
                    vv = z3.Concat(*[val] * m) if m > 1 else val
                self.cell_write(o, p.off + k, m, vv)
                k += m
            return
        # symbolic length
        r = self.find_region(o, p, 1)
        if r is not None:
            i = self.region_idx(r, p)
            self.oblige(st, f'memory: fill inside the array ({o.name})', z3.And(z3.ULE(bv(i, 64), bv(r.n, 64)), z3.ULE(n, bv(r.n, 64) - bv(i, 64))), where)
            o = st.wobj(p.obj)
            o.regions = tuple(Region(x.start, x.n, x.es, RNode('fill', x.node, i, n, val)) if x.start == r.start else x for x in o.regions)
            return
        mx = o.size - p.off
        if mx > 300:
            raise Unsupported('memset symbolic length')
        self.oblige(st, f'memory: fill inside the object ({o.name})', z3.ULE(n, mx), where)
        mx = self.max_of(st, n, mx)
        o = st.wobj(p.obj)
        for k in range(mx):
            old = self.cell_read(o, p.off + k, 1)
            self.cell_write(o, p.off + k, 1, ite(simp(z3.UGT(n, k)), val, old, 8))

    def max_of(self, st, n, mx):
        """smallest power-of-two-ish bound of n provable cheaply, at most mx"""
        b = mx
        for c in (1, 2, 3, 4, 5, 6, 8, 12, 16, 32, 64, 128):
            if c >= b:
                break
            if not self.feasible(st, z3.UGT(n, c)):
                return c
        return b

    def memcpy(self, st, d, s, n, where=None, move=False):
        n = simp(n) if is_sym(n) else n
        if isinstance(n, int) and n == 0:
            return
        if isinstance(s, GPtr) or isinstance(d, GPtr):
            g = s if isinstance(s, GPtr) else d
            raise Unsupported('memcpy guarded pointer')
        if not (isinstance(d, Ptr) and isinstance(s, Ptr)):
            raise Unsupported('memcpy pointer')
        so, do = st.mem.get(s.obj), st.mem.get(d.obj)
        if so is None or do is None:
            c = False if isinstance(n, int) else (n == 0)
            self.oblige(st, 'memory: copy through an invalid pointer', c, where)
            if c is False:
                raise Dead()
            return
        if do.const:
            self.oblige(st, 'memory: copy to a constant', False, where)
            raise Dead()
        sr = self.find_region(so, s, 1) if (so.regions) else None
        dr = self.find_region(do, d, 1) if (do.regions) else None
        if isinstance(n, int) and not s.sym and not d.sym and sr is None and dr is None and not so.regions and not do.regions:
            self.bounds(st, s, n, where, 'copy source')
            self.bounds(st, d, n, where, 'copy destination')
            src = []
            k = 0
            while k < n:
                c = so.cells.get(s.off + k)
                if c is not None and k + c[0] <= n:
                    src.append((k, c[0], c[1]))
                    k += c[0]
                else:
                    b1 = self.byte_read(so, s.off + k)
                    if b1 is None:
                        if so.zero:
                            b1 = 0
                        else:
                            # uninitialised: look for the extent up to the next cell
                            b1 = fresh(8, f'uninit_{so.name}_{s.off + k}')
                            st.wobj(s.obj).cells[s.off + k] = (1, b1)
                            so = st.mem[s.obj]
                    src.append((k, 1, b1))
                    k += 1
            o = st.wobj(d.obj)
            for k, m, v in src:
                self.cell_write(o, d.off + k, m, v)
            return
        if isinstance(n, int) and not s.sym and not d.sym and s.obj != d.obj or (isinstance(n, int) and not s.sym and not d.sym and s.off != d.off):
            # objects with regions: copy region by region when whole regions are covered
            whole = [r for r in so.regions if s.off <= r.start and isinstance(r.n, int) and r.start + r.n * r.es <= s.off + n]
            if whole and len(whole) == len([r for r in so.regions if not (r.start >= s.off + n or r.start + r.n * r.es <= s.off)]):
                self.bounds(st, s, n, where, 'copy source')
                self.bounds(st, d, n, where, 'copy destination')
                o = st.wobj(d.obj)
                delta = d.off - s.off
                keep = []
                for r in o.regions:
                    if r.start >= d.off + n or r.start + r.n * r.es <= d.off:
                        keep.append(r)
                    elif not (d.off <= r.start and r.start + r.n * r.es <= d.off + n):
                        raise Unsupported('copy over part of a region')
                for k in list(o.cells):
                    if d.off <= k < d.off + n:
                        del o.cells[k]
                for r in whole:
                    keep.append(Region(r.start + delta, r.n, r.es, r.node))
                o.regions = tuple(keep)
                for k, c in list(so.cells.items()):
                    if s.off <= k < s.off + n:
                        o.cells[k + delta] = c
                return
        # general byte copy
        if sr is not None:
            si = self.region_idx(sr, s)
            self.oblige(st, f'memory: copy source inside the array ({so.name})',
                        z3.And(z3.ULE(bv(si, 64), bv(sr.n, 64)), z3.ULE(bv(n, 64), bv(sr.n, 64) - bv(si, 64))), where)
            rd = lambda k: rread(sr.node, bv(si, 64) + bv(k, 64), 8)
        else:
            if s.sym:
                raise Unsupported('copy from a symbolic offset')
            smax = so.size - s.off if isinstance(so.size, int) else None
            if isinstance(n, int):
                self.bounds(st, s, n, where, 'copy source')
            else:
                self.oblige(st, f'memory: copy source inside the object ({so.name})', z3.ULE(n, smax), where)
        if dr is not None:
            di = self.region_idx(dr, d)
            self.oblige(st, f'memory: copy destination inside the array ({do.name})',
                        z3.And(z3.ULE(bv(di, 64), bv(dr.n, 64)), z3.ULE(bv(n, 64), bv(dr.n, 64) - bv(di, 64))), where)
            if sr is not None:
                node, sidx = sr.node, si
            else:
                mx = n if isinstance(n, int) else self.max_of(st, n, min(smax, 300))
                node, sidx = RNode('cells', [self.cell_read(so, s.off + k, 1, st, s.obj) for k in range(mx)]), 0
            o = st.wobj(d.obj)
            o.regions = tuple(Region(x.start, x.n, x.es, RNode('copy', x.node, di, n, node, sidx)) if x.start == dr.start else x for x in o.regions)
            return
        dmax = do.size - d.off
        if isinstance(n, int) and not d.sym:
            self.bounds(st, d, n, where, 'copy destination')
            mx = n
        elif not d.sym:
            self.oblige(st, f'memory: copy destination inside the object ({do.name})', z3.ULE(bv(n, 64), dmax), where)
            mx = self.max_of(st, n, min(dmax, 300))
            if mx == 300 and dmax > 300:
                raise Unsupported('copy of symbolic length')
        else:
            oe = self.offexpr(d)
            self.oblige(st, f'memory: copy destination inside the object ({do.name})',
                        z3.And(z3.ULE(oe, do.size), z3.ULE(bv(n, 64), do.size - oe)), where)
            if isinstance(n, int):
                mx = n
            else:
                mx = self.max_of(st, n, min(do.size, 300))
        if sr is None:
            vals = [self.cell_read(so, s.off + k, 1, st, s.obj) for k in range(min(mx, smax if smax is not None else mx))]
            rd = lambda k: vals[k] if k < len(vals) else 0
        vs = [rd(k) for k in range(mx)]
        for k in range(mx):
            q = Ptr(d.obj, d.off + k, d.sym, ())
            g = True if isinstance(n, int) else simp(z3.UGT(n, k))
            if g is False:
                continue
            if not d.sym:
                o = st.wobj(d.obj)
                if g is True:
                    self.cell_write(o, d.off + k, 1, vs[k])
                else:
                    old = self.cell_read(o, d.off + k, 1)
                    self.cell_write(o, d.off + k, 1, ite(g, vs[k], old, 8))
            else:
                # symbolic destination: expand over the possible offsets
                oe = simp(self.offexpr(q))
                o = st.wobj(d.obj)
                for off in self.sym_offsets(o, d):
                    t = off + k
                    if t >= o.size:
                        continue
                    c = simp(z3.And(oe == t, b_(g)))
                    if c is False:
                        continue
                    old = self.cell_read(o, t, 1)
                    if isinstance(old, (Ptr, GPtr, FnPtr)):
                        continue
                    self.cell_write(o, t, 1, ite(c, vs[k], old, 8))

    def sym_offsets(self, o, p):
        offs = [p.off]
        for e, s in p.sym:
            offs = [x + k * s for x in offs for k in range((o.size - p.off) // s + 1)]
            if len(offs) > 300:
                raise Unsupported('symbolic destination')
        return [x for x in offs if 0 <= x <= o.size]

    # ---- function info: loop-aware order and liveness
    def info(self, f):
        if f.name in self.finfo:
            return self.finfo[f.name]
        inf = FInfo(f)
        wm = {nm: self.ty_width(t) for t, nm, _ in f.params}
        for b in f.blocks.values():
            for i in b.insts:
                if i.res is not None and i.op not in ('icmp', 'fcmp'):
                    wm[i.res] = self.ty_width(i.ty)
        inf.widths = wm
        self.finfo[f.name] = inf
        return inf

    def ty_width(self, t):
        try:
            t = self.m.resolve(t)
            return t[1] if t[0] == 'i' else {'float': 32, 'double': 64}.get(t[0])
        except Exception:
            return None

    # ---- merging
    def merge(self, items, w=None):
        """items: list of (state, env) -> merged list"""
        if self.nomerge:
            return items
        out = [items[0]]
        for it in items[1:]:
            for k in range(len(out)):
                try:
                    out[k] = self.merge2(out[k], it, w)
                    break
                except CantMerge:
                    continue
            else:
                out.append(it)
        return out

    def merge2(self, A, B, wm=None):
        (s1, e1), (s2, e2) = A, B
        n = 0
        m = min(len(s1.pc), len(s2.pc))
        while n < m and (s1.pc[n] is s2.pc[n] or s1.pc[n].eq(s2.pc[n])):
            n += 1
        d1, d2 = list(s1.pc[n:]), list(s2.pc[n:])
        if not d1 and not d2:
            c = True
        c1, c2 = conj(d1), conj(d2)
        # selector that distinguishes the two, valid under the merged condition
        if len(d1) == 1 and len(d2) == 1 and neg_of(d1[0], d2[0]):
            c = d1[0]
            extra = ()
        elif d1 and d2 and neg_of(d1[0], d2[0]):
            c = d1[0]
            extra = []
            if len(d1) > 1:
                extra.append(z3.Implies(d1[0], conj(d1[1:])))
            if len(d2) > 1:
                extra.append(z3.Implies(d2[0], conj(d2[1:])))
            extra = tuple(extra)
        else:
            c = c1 if len(d1) <= len(d2) else z3.Not(c2)
            extra = (z3.Or(c1, c2),)
        swap = z3.is_not(c) and False
        ns = State()
        ns.pc = s1.pc[:n] + extra
        env = {}
        for k, v in e1.items():
            if k not in e2:
                continue
            u = e2[k]
            env[k] = v if veq(v, u) else self.mval(c, v, u, (wm or {}).get(k))
        for oid, o1 in s1.mem.items():
            o2 = s2.mem.get(oid)
            if o2 is None:
                if oid.startswith('G'):
                    ns.mem[oid] = o1
                continue
            if o1 is o2:
                ns.mem[oid] = o1
                continue
            o = o1.clone()
            o.owner = ns.tok
            cells = {}
            c1s, c2s = o1.cells, o2.cells
            for off, (sz, v) in c1s.items():
                u = c2s.get(off)
                if u is not None and u[0] == sz:
                    x, y = v, u[1]
                    if veq(x, y):
                        cells[off] = (sz, x)
                    else:
                        if (isinstance(x, bool) or z3.is_bool(x)) != (isinstance(y, bool) or z3.is_bool(y)):
                            x, y = self.tobv(x, 8), self.tobv(y, 8)
                        cells[off] = (sz, self.mval(c, x, y, 8 * sz))
            # the cells whose structure differs
            r1 = {off for off in c1s if off not in cells}
            r2 = {off for off in c2s if off not in cells}
            if r1 or r2:
                offs = set()
                for off in r1:
                    offs.update(range(off, off + c1s[off][0]))
                for off in r2:
                    offs.update(range(off, off + c2s[off][0]))
                covered = set()
                for off, (sz, _) in cells.items():
                    covered.update(range(off, off + sz))
                offs -= covered
                # whole cells present in one and entirely absent in the other
                done = set()
                for (ra, ca, ob, first) in ((r1, c1s, o2, True), (r2, c2s, o1, False)):
                    for off in ra:
                        sz, v = ca[off]
                        if any(x in done or x in covered for x in range(off, off + sz)):
                            continue
                        bs = [self.byte_read_opt(ob, off + k) for k in range(sz)]
                        if all(x is None for x in bs) and not ob.regions:
                            if ob.zero:
                                y = 0 if not isinstance(v, (Ptr, GPtr, FnPtr)) else NULL
                                cells[off] = (sz, self.mval(c if first else z3.Not(c), v, y, 8 * sz))
                            elif isinstance(v, (Ptr, GPtr, FnPtr)):
                                cells[off] = (sz, v)      # the other side is uninitialised
                            else:
                                y = fresh(8 * sz, 'uninit_m')
                                if isinstance(v, bool) or z3.is_bool(v):
                                    v = self.tobv(v, 8)
                                cells[off] = (sz, self.mval(c if first else z3.Not(c), v, y, 8 * sz))
                            done.update(range(off, off + sz))
                for off in sorted(offs - done):
                    x, y = self.byte_read_opt(o1, off), self.byte_read_opt(o2, off)
                    if x is PTRBYTE or y is PTRBYTE:
                        # a pointer on one side, data on the other: unreadable after the join
                        continue
                    if x is None:
                        x = 0 if o1.zero else fresh(8, 'uninit_m')
                    if y is None:
                        y = 0 if o2.zero else fresh(8, 'uninit_m')
                    cells[off] = (1, x if veq(x, y) else self.mval(c, x, y, 8))
            o.cells = cells
            if o1.regions or o2.regions:
                regs = []
                for ra in o1.regions:
                    rb = [r for r in o2.regions if r.start == ra.start and r.es == ra.es]
                    if not rb:
                        raise CantMerge('regions')
                    rb = rb[0]
                    regs.append(ra if ra.node is rb.node else Region(ra.start, ra.n, ra.es, RNode('ite', c, ra.node, rb.node)))
                if len(o1.regions) != len(o2.regions):
                    raise CantMerge('regions')
                o.regions = tuple(regs)
            if o1.ghost is not o2.ghost:
                o.ghost = o1.ghost
            ns.mem[oid] = o
        for oid, o2 in s2.mem.items():
            if oid.startswith('G') and oid not in ns.mem:
                ns.mem[oid] = o2
        for k, v in s1.gh.items():
            if k not in s2.gh:
                continue
            u = s2.gh[k]
            ns.gh[k] = v if (v is u or veq(v, u)) else self.mval(c, v, u)
        return ns, env

    def byte_read_opt(self, o, off):
        try:
            return self.byte_read(o, off)
        except Unsupported:
            return PTRBYTE

    def mval(self, c, a, b, w=None):
        if hasattr(a, 'merge_ghost'):
            return a.merge_ghost(c, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                raise CantMerge('tuple')
            return tuple(x if (x is y or veq(x, y)) else self.mval(c, x, y) for x, y in zip(a, b))
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
            if a == b:
                return a
            raise CantMerge('str')
        if w is None and isinstance(a, int) and isinstance(b, int) and not isinstance(a, bool):
            raise Unsupported('merge of integers of unknown width')
        return ite(c, a, b, w)

    # ---- execution of a function
    def call(self, st, name, args, where=None):
        """returns list of (state, return value)"""
        name = self.m.aliases.get(name, name)
        h = self.hooks.get(name)
        if h is not None:
            r = h(self, st, args, where)
            if r is not None:
                self.used_contracts[name] = self.used_contracts.get(name, 0) + 1
                return r
        f = self.m.funcs.get(name)
        if f is None:
            return self.external(st, name, args, where)
        self.called[name] = self.called.get(name, 0) + 1
        return self.run(st, f, args)

    def run(self, st, f, args, cut=None, start=None):
        """Run f from its entry (or from `start`=(block, env)); with cut=header the arrivals at that
        loop header are returned instead of being executed: (returns, arrivals)."""
        inf = self.info(f)
        self.depth += 1
        if self.depth > 120:
            raise Unsupported('recursion depth')
        allocas = []
        work = {}     # key -> list of (state, env)
        if start is None:
            env = {}
            for (t, nm, _), a in zip(f.params, args):
                env[nm] = a
            work[inf.key(f.entry, ())] = (f.entry, (), [(st, env)])
        else:
            work[inf.key(start[0], ())] = (start[0], ((start[0], 0),) if start[0] in inf.headers else (), [(st, start[1])])
        rets = []
        arrivals = []
        first = start is not None
        while work:
            key = min(work)
            bname, ctx, items = work.pop(key)
            if len(items) > 1:
                items = self.merge(items, inf.widths)
                if len(items) > self.max_states:
                    raise Unsupported('too many unmerged states')
            if ctx and ctx[-1][1] > self.max_unroll:
                raise Unsupported(f'loop in {f.name} not finished after {self.max_unroll} iterations')
            for s, env in items:
                for (s2, env2, nxt) in self.block(f, inf, bname, s, env, allocas, rets):
                    nctx = inf.enter(bname, nxt, ctx)
                    # evaluate phis on this edge
                    env3 = self.phis(f, s2, env2, bname, nxt)
                    if cut is not None and nxt == cut:
                        arrivals.append((s2, env3))
                        continue
                    k = inf.key(nxt, nctx)
                    if k in work:
                        work[k][2].append((s2, env3))
                    else:
                        work[k] = (nxt, nctx, [(s2, env3)])
        self.depth -= 1
        # merge returns
        out = []
        if rets:
            items = [(s, {'r': v} if v is not None else {}) for s, v in rets]
            for s, e in self.merge(items, {'r': self.ty_width(f.ret)}):
                if cut is None:
                    for a in allocas:
                        s.mem.pop(a, None)
                out.append((s, e.get('r')))
        if cut is not None:
            return out, (self.merge(arrivals, inf.widths) if arrivals else []), allocas
        return out

    def phis(self, f, st, env, src, dst):
        b = f.blocks[dst]
        inf = self.info(f)
        new = {}
        for i in b.insts:
            if i.op != 'phi':
                break
            for v, blk in i.a:
                if blk == src:
                    new[i.res] = self.val(st, env, i.ty, v)
                    break
            else:
                raise Unsupported('phi edge')
        live = inf.live_in[dst]
        e = {k: v for k, v in env.items() if k in live}
        e.update(new)
        return e

    def val(self, st, env, t, v):
        if v[0] == 'loc':
            try:
                return env[v[1]]
            except KeyError:
                raise Unsupported('undefined value ' + v[1])
        return self.const(st, self.m.resolve(t), v)

    def block(self, f, inf, bname, st, env, allocas, rets):
        """execute a block; yields (state, env, successor)"""
        items = [(st, env)]
        b = f.blocks[bname]
        for ins in b.insts[:-1]:
            if ins.op == 'phi':
                continue
            nxt = []
            for s, e in items:
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Unsupported('step limit')
                try:
                    r = self.inst(f, s, e, ins, allocas)
                except Dead:
                    continue
                if r is None:
                    nxt.append((s, e))
                else:
                    nxt.extend(r)
            items = nxt
        out = []
        t = b.insts[-1]
        for s, e in items:
            if t.op == 'br':
                if len(t.a) == 1:
                    out.append((s, e, t.a[0]))
                    continue
                c = self.val(s, e, ('i', 1), t.a[0])
                if is_sym(c):
                    c = simp(c)
                if c is True or c is False:
                    out.append((s, e, t.a[1] if c else t.a[2]))
                    continue
                yes = self.feasible(s, c)
                no = self.feasible(s, z3.Not(c))
                if yes and no:
                    s2 = s.fork()
                    s.assume(c)
                    s2.assume(z3.Not(c))
                    out.append((s, dict(e), t.a[1]))
                    out.append((s2, dict(e), t.a[2]))
                elif yes:
                    out.append((s, e, t.a[1]))
                elif no:
                    out.append((s, e, t.a[2]))
            elif t.op == 'switch':
                v = self.val(s, e, t.ty, t.a[0])
                if is_sym(v):
                    v = simp(v)
                if not is_sym(v):
                    for cv, lab in t.a[2]:
                        if (cv & ((1 << t.ty[1]) - 1)) == v:
                            out.append((s, e, lab))
                            break
                    else:
                        out.append((s, e, t.a[1]))
                    continue
                groups = {}
                for cv, lab in t.a[2]:
                    groups.setdefault(lab, []).append(v == (cv & ((1 << t.ty[1]) - 1)))
                dflt = [z3.Not(x) for l in groups.values() for x in l]
                groups2 = [(lab, z3.Or(*cs) if len(cs) > 1 else cs[0]) for lab, cs in groups.items()]
                if t.a[1] in groups:
                    groups2 = [(lab, c) for lab, c in groups2 if lab != t.a[1]]
                    groups2.append((t.a[1], z3.Or(groups[t.a[1]] + [conj(dflt)])))
                else:
                    groups2.append((t.a[1], conj(dflt)))
                for lab, c in groups2:
                    if self.feasible(s, c):
                        s2 = s.fork()
                        s2.assume(c)
                        out.append((s2, dict(e), lab))
            elif t.op == 'ret':
                rets.append((s, self.val(s, e, t.ty, t.a[0]) if t.a else None))
            elif t.op == 'unreachable':
                self.oblige(s, 'control flow: unreachable code is not reached', False, self.m.loc(t.dbg))
            elif t.op == 'unsupported':
                raise Unsupported('instruction: ' + t.text)
            else:
                raise Unsupported('terminator ' + t.op)
        return out

    def inst(self, f, s, e, ins, allocas):
        op = ins.op
        if op == 'load':
            e[ins.res] = self.load(s, self.val(s, e, ('ptr',), ins.a[0]), ins.ty, self.m.loc(ins.dbg))
        elif op == 'store':
            self.store(s, self.val(s, e, ('ptr',), ins.a[1]), ins.ty, self.val(s, e, ins.ty, ins.a[0]), self.m.loc(ins.dbg))
        elif op == 'getelementptr':
            e[ins.res] = self.gep(s, ins.ty, self.val(s, e, ('ptr',), ins.a[0]), [(it, self.val(s, e, it, iv)) for it, iv in ins.a[1]])
        elif op == 'alloca':
            if ins.a[0] is not None and self.val(s, e, ('i', 32), ins.a[0]) != 1:
                raise Unsupported('dynamic alloca')
            oid = self.new_obj(s, ins.res[1:], self.m.size(ins.ty))
            allocas.append(oid)
            e[ins.res] = Ptr(oid, 0)
        elif op == 'call':
            return self.do_call(f, s, e, ins)
        elif op == 'icmp':
            e[ins.res] = self.icmp(s, ins.a[0], self.val(s, e, ins.ty, ins.a[1]), self.val(s, e, ins.ty, ins.a[2]), ins.ty)
        elif op == 'fcmp':
            e[ins.res] = self.fcmp(ins.a[0], self.val(s, e, ins.ty, ins.a[1]), self.val(s, e, ins.ty, ins.a[2]), ins.ty)
        elif op == 'select':
            c = self.val(s, e, ('i', 1), ins.a[0])
            if is_sym(c):
                c = simp(c)
            x = self.val(s, e, ins.ty, ins.a[1])
            y = self.val(s, e, ins.ty, ins.a[2])
            w = None if ins.ty[0] == 'ptr' else self.width(ins.ty)
            if x is NULL and isinstance(y, Ptr) or y is NULL:
                pass
            e[ins.res] = ite(c, x, y, w)
        elif op in ('zext', 'sext', 'trunc', 'bitcast', 'fpext', 'ptrtoint', 'inttoptr', 'fptrunc', 'uitofp', 'sitofp', 'fptoui', 'fptosi'):
            e[ins.res] = self.cast(op, self.val(s, e, ins.a[0], ins.a[1]), self.m.resolve(ins.a[0]), self.m.resolve(ins.ty))
        elif op == 'freeze':
            e[ins.res] = self.val(s, e, ins.ty, ins.a[0])
        elif op == 'extractvalue':
            v = self.val(s, e, ins.ty, ins.a[0])
            for k in ins.a[1]:
                v = v.vals[k]
            e[ins.res] = v
        elif op == 'insertvalue':
            v = self.val(s, e, ins.ty, ins.a[0])
            x = self.val(s, e, ins.a[1][0], ins.a[1][1])
            if len(ins.a[2]) != 1:
                raise Unsupported('insertvalue')
            vs = list(v.vals)
            vs[ins.a[2][0]] = x
            e[ins.res] = Agg(tuple(vs))
        elif op == 'unsupported':
            raise Unsupported('instruction: ' + ins.text)
        else:
            e[ins.res] = self.binop(s, op, self.val(s, e, ins.ty, ins.a[0]), self.val(s, e, ins.ty, ins.a[1]), ins)
        return None

    def binop(self, s, op, a, b, ins):
        w = ins.ty[1] if ins.ty[0] == 'i' else None
        if w is None:
            raise Unsupported('float arithmetic')
        if isinstance(a, PInt) or isinstance(b, PInt):
            if op == 'sub' and isinstance(a, PInt) and isinstance(b, PInt) and a.p.obj == b.p.obj:
                return simp(self.offexpr(a.p) - self.offexpr(b.p))
            raise Unsupported('arithmetic on addresses')
        if w == 1:
            if isinstance(a, bool) and isinstance(b, bool):
                return {'and': a and b, 'or': a or b, 'xor': a != b}[op]
            if op == 'and':
                if a is False or b is False:
                    return False
                if a is True:
                    return b
                if b is True:
                    return a
                return z3.And(b_(a), b_(b))
            if op == 'or':
                if a is True or b is True:
                    return True
                if a is False:
                    return b
                if b is False:
                    return a
                return z3.Or(b_(a), b_(b))
            if op == 'xor':
                if a is True:
                    return z3.Not(b_(b))
                if b is True:
                    return z3.Not(b_(a))
                return z3.Xor(b_(a), b_(b))
            raise Unsupported('i1 ' + op)
        mask = (1 << w) - 1
        where = self.m.loc(ins.dbg)
        if op in ('shl', 'lshr', 'ashr'):
            if not isinstance(b, int) or b >= w:
                self.oblige(s, 'arithmetic: shift amount below the width', z3.ULT(bv(b, w), w), where)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if not isinstance(b, int) or b == 0:
                self.oblige(s, 'arithmetic: divisor not zero', bv(b, w) != 0, where)
        if ins.nsw and op in ('add', 'sub', 'mul', 'shl') and not (isinstance(a, int) and isinstance(b, int) and op != 'shl'):
            A, B = bv(a, w), bv(b, w)
            if op == 'shl':
                ok = z3.SignExt(w, A) << z3.ZeroExt(w, B) == z3.SignExt(w, A << B)
            else:
                X, Y = z3.SignExt(w, A), z3.SignExt(w, B)
                r = {'add': X + Y, 'sub': X - Y, 'mul': X * Y}[op]
                r0 = {'add': A + B, 'sub': A - B, 'mul': A * B}[op]
                ok = r == z3.SignExt(w, r0)
            self.oblige(s, f'arithmetic: no signed overflow in {op}', ok, where)
        if isinstance(a, int) and isinstance(b, int):
            sg = lambda x: x - (1 << w) if x >> (w - 1) else x
            if op == 'add':
                r = a + b
            elif op == 'sub':
                r = a - b
            elif op == 'mul':
                r = a * b
            elif op == 'and':
                r = a & b
            elif op == 'or':
                r = a | b
            elif op == 'xor':
                r = a ^ b
            elif op == 'shl':
                r = a << b
            elif op == 'lshr':
                r = a >> b
            elif op == 'ashr':
                r = sg(a) >> b
            elif op == 'udiv':
                r = a // b
            elif op == 'urem':
                r = a % b
            elif op == 'sdiv':
                q = abs(sg(a)) // abs(sg(b))
                r = q if (sg(a) < 0) == (sg(b) < 0) else -q
            elif op == 'srem':
                r = abs(sg(a)) % abs(sg(b))
                r = -r if sg(a) < 0 else r
            else:
                raise Unsupported(op)
            return r & mask
        A, B = bv(a, w), bv(b, w)
        if isinstance(b, int) and b == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            return a
        if isinstance(a, int) and a == 0 and op in ('add', 'or', 'xor'):
            return b
        r = {'add': lambda: A + B, 'sub': lambda: A - B, 'mul': lambda: A * B, 'and': lambda: A & B, 'or': lambda: A | B,
             'xor': lambda: A ^ B, 'shl': lambda: A << B, 'lshr': lambda: z3.LShR(A, B), 'ashr': lambda: A >> B,
             'udiv': lambda: z3.UDiv(A, B), 'urem': lambda: z3.URem(A, B), 'sdiv': lambda: A / B, 'srem': lambda: z3.SRem(A, B)}[op]()
        return r

    def icmp(self, st, pred, a, b, t):
        if isinstance(a, PInt) or isinstance(b, PInt):
            return self.pcmp(st, pred, a.p if isinstance(a, PInt) else a, b.p if isinstance(b, PInt) else b)
        if isinstance(a, (Ptr, GPtr, FnPtr)) or isinstance(b, (Ptr, GPtr, FnPtr)):
            return self.pcmp(st, pred, a, b)
        if t == ('i', 1):
            a, b = b_(a), b_(b)
            r = {'eq': lambda: a == b, 'ne': lambda: a != b, 'ult': lambda: z3.And(z3.Not(a), b), 'ugt': lambda: z3.And(a, z3.Not(b))}.get(pred)
            if r is None:
                raise Unsupported('icmp i1 ' + pred)
            return simp(r())
        w = t[1]
        if isinstance(a, int) and isinstance(b, int):
            sg = lambda x: x - (1 << w) if x >> (w - 1) else x
            return {'eq': a == b, 'ne': a != b, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b,
                    'slt': sg(a) < sg(b), 'sle': sg(a) <= sg(b), 'sgt': sg(a) > sg(b), 'sge': sg(a) >= sg(b)}[pred]
        A, B = bv(a, w), bv(b, w)
        r = {'eq': lambda: A == B, 'ne': lambda: A != B, 'ult': lambda: z3.ULT(A, B), 'ule': lambda: z3.ULE(A, B), 'ugt': lambda: z3.UGT(A, B),
             'uge': lambda: z3.UGE(A, B), 'slt': lambda: A < B, 'sle': lambda: A <= B, 'sgt': lambda: A > B, 'sge': lambda: A >= B}[pred]()
        return r

    def pcmp(self, st, pred, a, b):
        if isinstance(a, int) and a == 0:
            a = NULL
        if isinstance(b, int) and b == 0:
            b = NULL
        if isinstance(a, GPtr):
            return simp(z3.Or(*[z3.And(g, b_(self.pcmp(st, pred, p, b))) for g, p in a.alts]))
        if isinstance(b, GPtr):
            return simp(z3.Or(*[z3.And(g, b_(self.pcmp(st, pred, a, p))) for g, p in b.alts]))
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            same = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
            return same if pred == 'eq' else not same
        if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
            raise Unsupported('pointer comparison')
        if a.obj != b.obj:
            if pred == 'eq':
                return False
            if pred == 'ne':
                return True
            raise Unsupported('ordering of pointers into different objects')
        if not a.sym and not b.sym:
            return {'eq': a.off == b.off, 'ne': a.off != b.off, 'ult': a.off < b.off, 'ule': a.off <= b.off, 'ugt': a.off > b.off, 'uge': a.off >= b.off,
                    'slt': a.off < b.off, 'sgt': a.off > b.off, 'sle': a.off <= b.off, 'sge': a.off >= b.off}[pred]
        return simp(self.icmp(st, pred, self.offexpr(a), self.offexpr(b), ('i', 64)))

    def fcmp(self, pred, a, b, t):
        if isinstance(a, FpExt) or isinstance(b, FpExt):
            if isinstance(b, FpExt) and isinstance(a, int):
                a, b = b, a
                pred = {'olt': 'ogt', 'ogt': 'olt', 'ole': 'oge', 'oge': 'ole'}.get(pred, pred)
            if isinstance(b, int) and b in (0, 1 << 63):
                a, b, w = a.bits, 0, 32
            elif isinstance(b, FpExt):
                a, b, w = a.bits, b.bits, 32
            else:
                raise Unsupported('fcmp of extended float')
        else:
            w = 32 if t[0] == 'float' else 64
        e, m = (8, 23) if w == 32 else (11, 52)
        A, B = bv(a, w), bv(b, w)
        nan = lambda x: z3.UGT(x & ((1 << (w - 1)) - 1), ((1 << e) - 1) << m)
        zero = lambda x: (x & ((1 << (w - 1)) - 1)) == 0
        un = z3.Or(nan(A), nan(B))
        eq = z3.And(z3.Not(un), z3.Or(A == B, z3.And(zero(A), zero(B))))
        if pred == 'oeq':
            r = eq
        elif pred == 'une':
            r = z3.Not(eq)
        elif pred == 'ueq':
            r = z3.Or(un, eq)
        elif pred == 'one':
            r = z3.And(z3.Not(un), z3.Not(eq))
        elif pred == 'uno':
            r = un
        elif pred == 'ord':
            r = z3.Not(un)
        else:
            S = z3.Float32() if w == 32 else z3.Float64()
            x, y = z3.fpBVToFP(A, S), z3.fpBVToFP(B, S)
            r = {'olt': lambda: z3.fpLT(x, y), 'ole': lambda: z3.fpLEQ(x, y), 'ogt': lambda: z3.fpGT(x, y), 'oge': lambda: z3.fpGEQ(x, y),
                 'ult': lambda: z3.Not(z3.fpGEQ(x, y)), 'ule': lambda: z3.Not(z3.fpGT(x, y)), 'ugt': lambda: z3.Not(z3.fpLEQ(x, y)), 'uge': lambda: z3.Not(z3.fpLT(x, y))}[pred]()
        return simp(r)

    def cast(self, op, v, ft, tt):
        if op == 'bitcast':
            if isinstance(v, FpExt):
                raise Unsupported('bitcast of fpext')
            return v
        if op == 'fpext':
            if isinstance(v, int):
                import struct
                d = struct.unpack('<f', v.to_bytes(4, 'little'))[0]
                if d == d:
                    return int.from_bytes(struct.pack('<d', d), 'little')
            return FpExt(v)
        if op in ('ptrtoint', 'inttoptr', 'fptrunc', 'uitofp', 'sitofp', 'fptoui', 'fptosi'):
            if op == 'ptrtoint' and v is NULL:
                return 0
            if op == 'ptrtoint' and isinstance(v, Ptr) and v.obj is not None:
                return PInt(v)
            raise Unsupported(op)
        fw, tw = ft[1], tt[1]
        if fw == 1:
            if isinstance(v, bool):
                return (1 if v else 0) if op == 'zext' else (((1 << tw) - 1) if v else 0)
            one = 1 if op == 'zext' else (1 << tw) - 1
            return z3.If(v, z3.BitVecVal(one, tw), z3.BitVecVal(0, tw))
        if op == 'trunc':
            if tw == 1:
                return bool(v & 1) if isinstance(v, int) else simp(z3.Extract(0, 0, v) == 1)
            return v & ((1 << tw) - 1) if isinstance(v, int) else z3.Extract(tw - 1, 0, v)
        if op == 'zext':
            return v if isinstance(v, int) else z3.ZeroExt(tw - fw, v)
        if op == 'sext':
            if isinstance(v, int):
                return (v - (1 << fw)) & ((1 << tw) - 1) if v >> (fw - 1) else v
            return z3.SignExt(tw - fw, v)
        raise Unsupported(op)

    IGNORED = ('llvm.lifetime.', 'llvm.dbg.', 'llvm.experimental.noalias', 'llvm.invariant.')

    def do_call(self, f, s, e, ins):
        cal, args = ins.a
        where = self.m.loc(ins.dbg)
        if cal[0] == 'glo':
            targets = [(True, FnPtr(cal[1]))]
        else:
            v = self.val(s, e, ('ptr',), cal)
            targets = list(v.alts) if isinstance(v, GPtr) else [(True, v)]
        if cal[0] == 'glo' and cal[1][1:].startswith(self.IGNORED):
            return None
        vals = [None if a is None else self.val(s, e, t, a) for t, a in args]
        outs = []
        for g, tgt in targets:
            if not isinstance(tgt, FnPtr):
                self.oblige(s, 'control flow: call through an invalid pointer', False if g is True else z3.Not(g), where)
                if g is True:
                    raise Dead()
                continue
            s1 = s
            if g is not True:
                if not self.feasible(s, g):
                    continue
                s1 = s.fork()
                s1.assume(g)
            vlists = [(s1, vals)]
            # a guarded `this` pointer of a contract or virtual call: split on it
            for k, v in enumerate(vals):
                if isinstance(v, GPtr) and tgt.name in self.hooks:
                    nl = []
                    for sx, vx in vlists:
                        for g2, p2 in v.alts:
                            if self.feasible(sx, g2):
                                sy = sx.fork()
                                sy.assume(g2)
                                vy = list(vx)
                                vy[k] = p2
                                nl.append((sy, vy))
                    vlists = nl
            if BLOCK.match(tgt.name):
                vlists = self.split_block(vlists, where)
            for sx, vx in vlists:
                outs += self.intrinsic(sx, tgt.name, vx, where, ins) or self.call(sx, tgt.name, vx, where)
        res = []
        for s2, r in outs:
            e2 = dict(e) if len(outs) > 1 else e
            if ins.res is not None:
                e2[ins.res] = r
            res.append((s2, e2))
        if len(res) > 1:
            res = self.merge(res, self.info(f).widths)
        return res

    def split_block(self, vlists, where):
        """a block of known size is copied to, from or set at one of several places: one state for each"""
        for k in (0, 1):
            nl = []
            for sx, vx in vlists:
                v, n = vx[k], simp(vx[2]) if is_sym(vx[2]) else vx[2]
                alts = None
                if isinstance(v, GPtr):
                    alts = v.alts
                elif isinstance(v, Ptr) and v.sym and isinstance(n, int) and n and v.obj in sx.mem and v.obj not in FLAT:
                    o = sx.mem[v.obj]
                    if isinstance(o.size, int) and not self.find_region(o, v, 1):
                        alts = [(c, Ptr(v.obj, off)) for c, off in self.candidates(sx, o, v, n, where, 'copy')]
                if alts is None:
                    nl.append((sx, vx))
                    continue
                for g, p in alts:
                    if self.feasible(sx, g):
                        sy = sx.fork()
                        sy.assume(g)
                        nl.append((sy, [p if j == k else x for j, x in enumerate(vx)]))
            vlists = nl
        return vlists

    def intrinsic(self, s, name, a, where, ins):
        n = name[1:]
        if n.startswith('llvm.memset') or n == 'memset':
            val = a[1]
            if n == 'memset':
                val = val & 0xff if isinstance(val, int) else z3.Extract(7, 0, val)
            self.memset(s, a[0], val, a[2], where)
            return [(s, a[0])]
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove') or n in ('memcpy', 'memmove'):
            self.memcpy(s, a[0], a[1], a[2], where)
            return [(s, a[0])]
        if n.startswith('llvm.expect'):
            return [(s, a[0])]
        if n.startswith('llvm.assume'):
            return [(s, None)]
        if n in ('llvm.trap', 'abort', '__assert_fail'):
            self.oblige(s, 'control flow: abort is not reached', False, where)
            raise Dead()
        if n.startswith(('llvm.umin', 'llvm.umax', 'llvm.smin', 'llvm.smax')):
            w = int(n.split('.i')[-1])
            A, B = bv(a[0], w), bv(a[1], w)
            c = {'umin': lambda: z3.ULT(A, B), 'umax': lambda: z3.UGT(A, B), 'smin': lambda: A < B, 'smax': lambda: A > B}[n.split('.')[1]]()
            return [(s, simp(z3.If(c, A, B)))]
        return None

    def external(self, st, name, args, where):
        raise Unsupported('external function ' + name)


PTRBYTE = object()


class Dead(Exception):
    """the current path ends here (an obligation that is always false was recorded)"""


class FInfo:
    """loop nest, loop-contiguous topological order and liveness of a function"""

    def __init__(self, f):
        self.f = f
        succ = {b: list(dict.fromkeys(f.blocks[b].succ)) for b in f.blocks}
        pred = {b: [] for b in f.blocks}
        reach = []
        seen = set()
        stack = [f.entry]
        while stack:
            b = stack.pop()
            if b in seen:
                continue
            seen.add(b)
            reach.append(b)
            stack += succ[b]
        for b in seen:
            for s in succ[b]:
                pred[s].append(b)
        # dominators
        order = []
        vis = set()

        def dfs(b):
            st = [(b, iter(succ[b]))]
            vis.add(b)
            while st:
                x, it = st[-1]
                for y in it:
                    if y not in vis:
                        vis.add(y)
                        st.append((y, iter(succ[y])))
                        break
                else:
                    order.append(x)
                    st.pop()
        dfs(f.entry)
        rpo = order[::-1]
        idx = {b: i for i, b in enumerate(rpo)}
        dom = {b: None for b in rpo}
        dom[f.entry] = {f.entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [dom[p] for p in pred[b] if dom[p] is not None]
                d = set.intersection(*ps) | {b} if ps else {b}
                if d != dom[b]:
                    dom[b] = d
                    ch = True
        loops = {}
        self.irreducible = False
        for b in rpo:
            for s in succ[b]:
                if idx[s] <= idx[b]:
                    if s not in dom[b]:
                        self.irreducible = True
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st += pred[x]
        self.loops = loops
        self.headers = set(loops)
        # loop chain of each block, outermost first
        self.chain = {}
        for b in rpo:
            hs = [h for h in loops if b in loops[h]]
            hs.sort(key=lambda h: -len(loops[h]))
            self.chain[b] = tuple(hs)
        # loop-contiguous topological positions
        self.pos = {}

        def topo(level, blocks, header):
            # collapse inner loops at this level
            node = {}
            for b in blocks:
                ch_ = self.chain[b]
                node[b] = ch_[level] if len(ch_) > level else b
            nodes = set(node.values())
            g = {n: set() for n in nodes}
            indeg = {n: 0 for n in nodes}
            for b in blocks:
                for s in succ[b]:
                    if s in node and node[s] != node[b] and not (s == header):
                        if node[s] not in g[node[b]]:
                            g[node[b]].add(node[s])
                            indeg[node[s]] += 1
            ready = sorted([n for n in nodes if indeg[n] == 0], key=lambda n: idx[n])
            k = 0
            while ready:
                n = ready.pop(0)
                self.pos[(level, n)] = k
                k += 1
                for x in sorted(g[n], key=lambda n: idx[n]):
                    indeg[x] -= 1
                    if indeg[x] == 0:
                        ready.append(x)
            if k != len(nodes):
                self.irreducible = True
                for n in nodes:
                    self.pos.setdefault((level, n), idx[n] + 1000)
            for n in nodes:
                inner = {b for b in blocks if node[b] == n}
                if n in loops and len(self.chain[n]) > level and self.chain[n][level] == n:
                    topo(level + 1, inner, n)
        topo(0, set(rpo), None)
        # liveness
        use, deff = {}, {}
        phi_use = {b: {} for b in rpo}
        for b in rpo:
            u, d = set(), set()
            for ins in f.blocks[b].insts:
                if ins.op == 'phi':
                    for v, blk in ins.a:
                        if v[0] == 'loc':
                            phi_use[b].setdefault(blk, set()).add(v[1])
                    d.add(ins.res)
                    continue
                for v in operands(ins):
                    if v not in d:
                        u.add(v)
                if ins.res:
                    d.add(ins.res)
            use[b], deff[b] = u, d
        live = {b: set() for b in rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(rpo):
                o = set()
                for s in succ[b]:
                    o |= live[s] - {i.res for i in f.blocks[s].insts if i.op == 'phi'}
                    o |= phi_use[s].get(b, set())
                n = use[b] | (o - deff[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        self.live_in = live

    def enter(self, src, dst, ctx):
        ch = self.chain[dst]
        d = dict(ctx)
        new = []
        for h in ch:
            if h in d:
                n = d[h]
                if h == dst and src in self.loops[h]:
                    n += 1
                    new.append((h, n))
                else:
                    new.append((h, n))
            else:
                new.append((h, 0))
        return tuple(new)

    def key(self, b, ctx):
        ch = self.chain[b]
        d = dict(ctx)
        k = []
        for lvl, h in enumerate(ch):
            k.append(self.pos[(lvl, h)])
            k.append(d.get(h, 0))
        k.append(self.pos[(len(ch), b)])
        return tuple(k) + (b,)


def operands(ins):
    out = []

    def walk(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'loc' and isinstance(x[1], str):
                out.append(x[1])
            else:
                for y in x:
                    walk(y)
    walk(ins.a)
    return out
