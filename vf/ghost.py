"""Ghost buffers and the contracts of the functions they stand for.

GhostRead / GhostWrite (harness.py) are implementations of the library's buffer interfaces whose
methods are specified, not implemented: the hooks below are those specifications.  The code under
verification only sees the interface contract, so what is proved holds for every buffer that keeps it
(that ReadBufferFixedSize, ReadBufferSection, WriteBufferFixedSize and MessageSizeCalculator do is
proved separately: C04, C05, C06)."""
import z3
from .sym import Ptr, GPtr, FnPtr, NULL, State, Exec, Dead, bv, b_, simp, ite, fresh, fresh_name, is_sym, conj
from .irparse import Unsupported

BV8, BV32, BV64 = z3.BitVecSort(8), z3.BitVecSort(32), z3.BitVecSort(64)
D = z3.Function('D', BV32, BV8)                 # the bytes of the read buffer
S = z3.DeclareSort('Stream')
AB = z3.Function('ab', S, BV8, S)               # stream followed by a byte
AV = z3.Function('av', S, BV64, S)              # stream followed by the varint of a value
VE = {32: z3.Function('VE32', BV32, BV32, BV32), 64: z3.Function('VE64', BV32, BV32, BV32)}
VN = {32: z3.Function('VN32', BV32, BV32, BV32), 64: z3.Function('VN64', BV32, BV32, BV32)}
VV = {32: z3.Function('VV32', BV32, BV32, BV32), 64: z3.Function('VV64', BV32, BV32, BV64)}

SV = {'_ZN13EmbeddedProto13WireFormatter15SerializeVarintIjEENS_5ErrorET_RNS_20WriteBufferInterfaceE': 32,
      '_ZN13EmbeddedProto13WireFormatter15SerializeVarintImEENS_5ErrorET_RNS_20WriteBufferInterfaceE': 64}
DV = {'_ZN13EmbeddedProto13WireFormatter17DeserializeVarintIjEENS_5ErrorERNS_19ReadBufferInterfaceERT_': 32,
      '_ZN13EmbeddedProto13WireFormatter17DeserializeVarintImEENS_5ErrorERNS_19ReadBufferInterfaceERT_': 64}


def b32(v):
    return bv(v, 32)


VSF = z3.Function('vs', BV64, BV32)       # length of the varint of a value (defined by vsize)


def vsize_uf(v, ex):
    """vsize as an uninterpreted function with its range; definition added on demand"""
    v = simp(v) if is_sym(v) else v
    if isinstance(v, int):
        return vsize(v)
    w = v.size()
    t = VSF(zx64(v))
    if ex is not None:
        ex.add_axiom(z3.And(z3.UGE(t, 1), z3.ULE(t, 5 if w == 32 else 10)))
    return t


def vsize(v, w=None, out=32):
    """number of bytes of the varint of v (BV32 or BV64)"""
    if isinstance(v, int):
        n = 1
        while v >= 128:
            v >>= 7
            n += 1
        return n
    w = v.size()
    k = 5 if w == 32 else 10
    r = z3.BitVecVal(k, out)
    for i in range(k - 1, 0, -1):
        r = z3.If(z3.ULT(v, z3.BitVecVal(1 << (7 * i), w)), z3.BitVecVal(i, out), r)
    return r


def zx64(v):
    if isinstance(v, int):
        return z3.BitVecVal(v, 64)
    return v if v.size() == 64 else z3.ZeroExt(64 - v.size(), v)


def varint_bytes(v):
    """[(present condition, byte)] of the varint of v: byte i is present iff i < vsize(v)"""
    v64 = zx64(v)
    w = 64 if isinstance(v, int) else v.size()
    k = 10 if w == 64 else 5
    out = []
    for i in range(k):
        sh = z3.LShR(v64, 7 * i)
        more = z3.UGE(sh, z3.BitVecVal(128, 64))
        b = z3.If(more, z3.Extract(7, 0, sh) | 0x80, z3.Extract(7, 0, sh)) if i < 9 else z3.Extract(7, 0, sh)
        pres = True if i == 0 else z3.UGE(v64, z3.BitVecVal(1 << (7 * i), 64))
        out.append((pres, b))
    return out


def const_varint(v):
    out = []
    while v >= 128:
        out.append((v & 0x7f) | 0x80)
        v >>= 7
    out.append(v)
    return out


def app_varint(s, v):
    """stream followed by the varint of v"""
    if is_sym(v):
        v = simp(v)
    if isinstance(v, int):
        for b in const_varint(v):
            s = AB(s, z3.BitVecVal(b, 8))
        return s
    return AV(s, zx64(v))


def av_definition(t):
    """defining equation of the term AV(s, v): one case per length"""
    s, v = t.arg(0), t.arg(1)
    cases = []
    cur = s
    for i in range(10):
        sh = z3.Extract(6, 0, z3.LShR(v, 7 * i))
        last = AB(cur, z3.Concat(z3.BitVecVal(0, 1), sh))
        cases.append(last)
        cur = AB(cur, z3.Concat(z3.BitVecVal(1, 1), sh))
    r = cases[9]
    for i in range(8, -1, -1):
        r = z3.If(z3.ULT(v, z3.BitVecVal(1 << (7 * (i + 1)), 64)), cases[i], r)
    return t == r


def varint_spec(pos, lim, w):
    """(error, bytes consumed, value) of the varint at pos in data ending at lim, from the bytes D"""
    k = 5 if w == 32 else 10
    # value / outcome by the index of the first byte without continuation bit, evaluated from the back
    val = z3.BitVecVal(0, w)
    E = z3.BitVecVal(6, 32)
    N = z3.BitVecVal(k, 32)
    V = z3.BitVecVal(0, w)
    accs = []
    acc = z3.BitVecVal(0, w)
    for i in range(k):
        b = D(pos + i)
        part = z3.ZeroExt(w - 8, b & 0x7f) << (7 * i) if 7 * i < w else z3.BitVecVal(0, w)
        acc = acc | part
        accs.append(acc)
    for i in range(k - 1, -1, -1):
        b = D(pos + i)
        have = z3.ULT(z3.BitVecVal(i, 32), lim - pos)
        stop = z3.Extract(7, 7, b) == 0
        E = z3.If(have, z3.If(stop, z3.BitVecVal(0, 32), E), z3.BitVecVal(1, 32))
        N = z3.If(have, z3.If(stop, z3.BitVecVal(i + 1, 32), N), z3.BitVecVal(i, 32))
        V = z3.If(have, z3.If(stop, accs[i], V), z3.BitVecVal(0, w))
    return E, N, V


def varint_facts(pos, lim):
    """facts about the varint at pos that follow from varint_spec (proved in C02: lemma tasks)"""
    out = []
    for w, k in ((32, 5), (64, 10)):
        E, N = VE[w](pos, lim), VN[w](pos, lim)
        out += [z3.Or(E == 0, E == 1, E == 6), z3.ULE(N, k), z3.ULE(N, lim - pos),
                z3.Implies(E == 0, z3.UGE(N, 1)), z3.Implies(E == 1, z3.And(N == lim - pos, z3.ULT(N, k))), z3.Implies(E == 6, N == k)]
    out += [z3.Implies(VE[32](pos, lim) == 0, z3.And(VE[64](pos, lim) == 0, VN[64](pos, lim) == VN[32](pos, lim),
                                                     VV[32](pos, lim) == z3.Extract(31, 0, VV[64](pos, lim)))),
            (VE[32](pos, lim) == 1) == z3.And(VE[64](pos, lim) == 1, z3.ULT(VN[64](pos, lim), 5)),
            z3.Implies(pos == lim, z3.And(VE[32](pos, lim) == 1, VN[32](pos, lim) == 0))]
    return out


def varint_defs(pos, lim):
    out = []
    for w in (32, 64):
        E, N, V = varint_spec(pos, lim, w)
        out += [VE[w](pos, lim) == E, VN[w](pos, lim) == N, z3.Implies(E == 0, VV[w](pos, lim) == V)]
    return out


def canon(t):
    """key of a term, the same for sums that differ only in the order of their parts"""
    acc = {}

    def go(x, k):
        if z3.is_bv_value(x):
            acc[None] = (acc.get(None, 0) + k * x.as_long()) & 0xffffffff
        elif z3.is_app_of(x, z3.Z3_OP_BADD):
            for y in x.children():
                go(y, k)
        elif z3.is_app_of(x, z3.Z3_OP_BMUL) and x.num_args() == 2 and z3.is_bv_value(x.arg(0)):
            go(x.arg(1), k * x.arg(0).as_long())
        elif z3.is_app_of(x, z3.Z3_OP_BSUB):
            go(x.arg(0), k)
            for y in x.children()[1:]:
                go(y, -k)
        else:
            i = x.get_id()
            acc[i] = (acc.get(i, 0) + k) & 0xffffffff
            KEEP.append(x)
    go(t, 1)
    return tuple(sorted((k if k is not None else -1, v) for k, v in acc.items() if v))


KEEP = []


class Ctx:
    """one proof task's executor with the ghost buffers installed"""

    def __init__(self, mod, stream=False, varint_contract=False, limits=None):
        self.m = mod
        self.hooks = {}
        self.ex = Exec(mod, self.hooks, limits)
        self.stream = stream
        self.instances = {}
        self.known = []
        self.specpos = []
        self.named = False
        self.decide = False        # varint instances (pos, lim) for lazily added definitions
        self.av_terms = {}
        self.lim = self.mode = self.R = None
        self.wmode = 'exact'       # 'any': every write may be refused; 'fits': every write is shown to fit
        self.room_obls = []
        H = self.hooks
        for n in ('pop', 'peek', 'adv1', 'adv', 'size', 'max'):
            H['@g_r_' + n] = getattr(self, 'r_' + n)
        for n in ('push', 'pushn', 'clear', 'size', 'max', 'avail'):
            H['@g_w_' + n] = getattr(self, 'w_' + n)
        self.sec = self.calc = None
        self.varint_contract = varint_contract
        if varint_contract:
            self.probe()
            for n, w in SV.items():
                H['@' + n] = self.mk_sv(w)
            for n, w in DV.items():
                H['@' + n] = self.mk_dv(w)

    # ---- set up
    def call1(self, st, name, *args):
        """call an extern "C" wrapper that has a single merged result"""
        r = self.ex.call(st, '@' + name, list(args))
        if len(r) != 1:
            if not r:
                raise Dead()
            raise Unsupported(f'{len(r)} unmerged results of {name}')
        return r[0]

    def calln(self, st, name, *args):
        return self.ex.call(st, '@' + name, list(args))

    def new(self, st, what, name=None):
        n = self.call1(st, what + 'sizeof')[1] if what in ('gr_', 'gw_', 'sec_', 'calc_') else self.call1(st, what + '__sizeof')[1]
        return Ptr(self.ex.new_obj(st, name or what.strip('_'), n), 0)

    def reader(self, st, pos=None, lim=None):
        p = self.new(st, 'gr_')
        st, _ = self.call1(st, 'gr_ctor', p)
        self.pos0 = z3.BitVec('pos', 32) if pos is None else pos
        self.lim = z3.BitVec('lim', 32) if lim is None else lim
        self.mode = z3.Bool('mode')
        st.gh['pos'] = self.pos0
        st.assume(z3.ULE(self.pos0, self.lim))
        self.robj = p.obj
        st.mem[p.obj].ghost = 'R'
        return st, p

    def writer(self, st):
        p = self.new(st, 'gw_')
        st, _ = self.call1(st, 'gw_ctor', p)
        self.wobj = p.obj
        self.R = z3.BitVec('room', 32)         # free space at the start
        self.len0 = z3.BitVec('len0', 32)      # bytes in the buffer at the start
        st.assume(z3.ULE(self.len0, ~self.R))   # len0 + room does not wrap: it is the capacity
        st.gh['used'] = z3.BitVecVal(0, 32)
        if self.stream:
            self.S0 = z3.Const('S0', S)
            st.gh['S'] = self.S0
        else:
            self.A0 = z3.Array('A0', BV32, BV8)
            st.gh['arr'] = self.A0
        return st, p

    def dec(self, st, c):
        """settle a condition when the path decides it"""
        if not self.decide or not is_sym(c):
            return c
        if not self.ex.feasible(st, z3.Not(c)):
            return True
        if not self.ex.feasible(st, c):
            return False
        return c

    # ---- read buffer contract
    def r_pop(self, ex, st, a, where):
        pos = st.gh['pos']
        ok = self.dec(st, simp(z3.ULT(pos, self.lim)))
        if ex.nomerge and is_sym(ok):
            out = []
            for c in (ok, z3.Not(ok)):
                if ex.feasible(st, c):
                    s2 = st.fork()
                    s2.assume(c)
                    if c is ok:
                        ex.store(s2, a[1], ('i', 8), D(b32(pos)), where)
                        s2.gh['pos'] = b32(simp(b32(pos) + 1))
                    out.append((s2, c is ok))
            return out
        old = ex.load(st, a[1], ('i', 8), where)
        ex.store(st, a[1], ('i', 8), ite(ok, D(b32(pos)), old, 8), where)
        st.gh['pos'] = b32(simp(ite(ok, b32(pos) + 1, b32(pos), 32)))
        return [(st, ok)]

    def r_peek(self, ex, st, a, where):
        pos = st.gh['pos']
        ok = self.dec(st, simp(z3.ULT(pos, self.lim)))
        old = ex.load(st, a[1], ('i', 8), where)
        ex.store(st, a[1], ('i', 8), ite(ok, D(b32(pos)), old, 8), where)
        return [(st, ok)]

    def r_adv1(self, ex, st, a, where):
        pos = st.gh['pos']
        ok = self.dec(st, simp(z3.ULT(pos, self.lim)))
        st.gh['pos'] = b32(simp(ite(ok, b32(pos) + 1, b32(pos), 32)))
        return [(st, ok)]

    def r_adv(self, ex, st, a, where):
        pos = b32(st.gh['pos'])
        n = b32(a[1])
        ok = self.dec(st, simp(z3.ULE(n, self.lim - pos)))
        st.gh['pos'] = b32(simp(ite(ok, pos + n, self.lim, 32)))
        return [(st, ok)]

    def r_size(self, ex, st, a, where):
        return [(st, simp(z3.If(self.mode, self.lim - b32(st.gh['pos']), self.lim)))]

    def r_max(self, ex, st, a, where):
        return [(st, self.lim)]

    # ---- write buffer contract
    def accept(self, st, n, where):
        used = st.gh['used']
        if self.wmode == 'any':
            return z3.Bool(fresh_name('accepted'))
        ok = simp(z3.ULE(b32(n), self.R - used))
        if self.wmode == 'fits' and ok is not True:
            self.room_obls.append((f'room: {where}', st.pc, ok))
            return True
        return ok

    def w_push(self, ex, st, a, where):
        used = st.gh['used']
        ok = simp(z3.ULT(used, self.R)) if self.wmode == 'exact' else self.accept(st, 1, where)
        if ex.nomerge and is_sym(ok):
            out = []
            for c in (ok, z3.Not(ok)):
                if ex.feasible(st, c):
                    s2 = st.fork()
                    s2.assume(c)
                    if c is ok:
                        if self.stream:
                            s2.gh['S'] = AB(st.gh['S'], bv(a[1], 8))
                        else:
                            s2.gh['arr'] = z3.Store(st.gh['arr'], self.len0 + used, bv(a[1], 8))
                        s2.gh['used'] = b32(simp(used + 1))
                    out.append((s2, c is ok))
            return out
        if self.stream:
            st.gh['S'] = ite(ok, AB(st.gh['S'], bv(a[1], 8)), st.gh['S'])
        else:
            st.gh['arr'] = z3.Store(st.gh['arr'], self.len0 + used, ite(ok, bv(a[1], 8), z3.Select(st.gh['arr'], self.len0 + used))) if ok is not True \
                else z3.Store(st.gh['arr'], self.len0 + used, bv(a[1], 8))
        st.gh['used'] = b32(simp(ite(ok, used + 1, used)))
        return [(st, ok)]

    def w_pushn(self, ex, st, a, where):
        used = st.gh['used']
        n = a[2]
        n = simp(n) if is_sym(n) else n
        ok = self.accept(st, n, where)
        mx = n if isinstance(n, int) else None
        p = a[1]
        if mx is None:
            mx = self.bound(ex, st, p, n, where)
        Sv = st.gh.get('S')
        arr = st.gh.get('arr')
        for k in range(mx):
            g = True if isinstance(n, int) else simp(z3.UGT(n, k))
            if g is False:
                continue
            s2 = st
            if g is not True:
                s2 = st.fork()
                s2.assume(g)
                n0 = len(s2.pc)
            b = bv(ex.load(s2, ex.gep(s2, ('i', 8), p, [(('i', 64), k)]), ('i', 8), where), 8)
            if s2 is not st:
                for c in s2.pc[n0:]:
                    st.assume(z3.Implies(g, c))
            gg = simp(z3.And(b_(ok), b_(g)))
            if self.stream:
                Sv = ite(gg, AB(Sv, b), Sv)
            else:
                arr = z3.Store(arr, self.len0 + used + k, ite(gg, b, z3.Select(arr, self.len0 + used + k)))
        if self.stream:
            st.gh['S'] = Sv
        else:
            st.gh['arr'] = arr
        st.gh['used'] = b32(simp(ite(ok, used + b32(n), used)))
        return [(st, ok)]

    def bound(self, ex, st, p, n, where):
        for c in (1, 2, 3, 4, 5, 6, 8, 10, 16, 32, 64, 128, 300):
            if not ex.feasible(st, z3.UGT(n, c)):
                return c
        # more than any object holds: the read beyond the object is an obligation
        o = st.mem.get(p.obj) if isinstance(p, Ptr) else None
        if o is None or not isinstance(o.size, int) or p.sym:
            raise Unsupported('push of an unbounded number of bytes')
        ex.oblige(st, 'memory: push reads inside the object', z3.ULE(n, o.size - p.off), where)
        return o.size - p.off

    def w_clear(self, ex, st, a, where):
        ex.oblige(st, 'frame: the bytes that were in the write buffer are kept (clear is not called)', False, where)
        raise Dead()

    def w_size(self, ex, st, a, where):
        return [(st, simp(self.len0 + st.gh['used']))]

    def w_max(self, ex, st, a, where):
        return [(st, simp(self.len0 + self.R))]

    def w_avail(self, ex, st, a, where):
        if self.wmode == 'any':
            return [(st, z3.BitVec(fresh_name('avail'), 32))]
        return [(st, simp(self.R - st.gh['used']))]

    # ---- contracts of the varint functions
    def probe(self):
        """find out where a section keeps its parent and its remaining size, and a size calculator its count"""
        try:
            st = State()
            st, r = self.reader(st)
            p = self.new(st, 'sec_')
            st, _ = self.call1(st, 'sec_ctor', p, r, z3.BitVec('probe_n', 32))
            o = st.wobj(p.obj)
            vt = o.cells[0][1]
            par = [k for k, (n, v) in o.cells.items() if isinstance(v, Ptr) and v.obj == r.obj]
            for k, (n, v) in list(o.cells.items()):
                if not isinstance(v, (Ptr, FnPtr, GPtr)):
                    o.cells[k] = (n, z3.BitVec(f'probe_{k}', 8 * n))
            st, sz = self.call1(st, 'sec_size', p)
            szc = [k for k, (n, v) in st.mem[p.obj].cells.items() if is_sym(v) and is_sym(sz) and v.eq(sz)]
            if len(par) == 1 and len(szc) == 1 and isinstance(vt, Ptr):
                self.sec = (vt.obj, par[0], szc[0])
        except (Unsupported, Dead, KeyError):
            pass
        try:
            st = State()
            p = self.new(st, 'calc_')
            st, _ = self.call1(st, 'calc_ctor', p)
            o = st.wobj(p.obj)
            vt = o.cells[0][1]
            for k, (n, v) in list(o.cells.items()):
                if not isinstance(v, (Ptr, FnPtr, GPtr)):
                    o.cells[k] = (n, z3.BitVec(f'probe_{k}', 8 * n))
            st, sz = self.call1(st, 'calc_size', p)
            szc = [k for k, (n, v) in st.mem[p.obj].cells.items() if is_sym(v) and is_sym(sz) and v.eq(sz)]
            if len(szc) == 1 and isinstance(vt, Ptr):
                self.calc = (vt.obj, szc[0])
        except (Unsupported, Dead, KeyError):
            pass
        self.ex.obls.clear()
        self.ex.called.clear()
        self.ex.n_trivial = 0

    def vtable_of(self, st, p):
        o = st.mem.get(p.obj)
        if o is None or p.sym:
            return None
        c = o.cells.get(p.off)
        return c[1].obj if c is not None and isinstance(c[1], Ptr) else None

    def mk_sv(self, w):
        def h(ex, st, a, where):
            v, p = a
            if not isinstance(p, Ptr):
                return None
            if p.obj == getattr(self, 'wobj', None) and self.stream:
                used = st.gh['used']
                n = vsize_uf(v, ex)
                ok = self.accept(st, n, where)
                s1 = app_varint(st.gh['S'], v)
                if ok is True:
                    st.gh['S'] = s1
                    st.gh['used'] = b32(simp(used + n))
                    return [(st, 0)]
                st.gh['S'] = z3.If(b_(ok), s1, z3.Const(fresh_name('Sfail'), S))
                st.gh['used'] = z3.If(b_(ok), used + n, self.R)
                return [(st, z3.If(b_(ok), z3.BitVecVal(0, 32), z3.BitVecVal(2, 32)))]
            if self.calc and self.vtable_of(st, p) == self.calc[0]:
                o = st.wobj(p.obj)
                c = o.cells.get(p.off + self.calc[1])
                if c is None or c[0] != 4:
                    return None
                o.cells[p.off + self.calc[1]] = (4, simp(b32(c[1]) + b32(vsize_uf(v, ex))))
                return [(st, 0)]
            return None
        return h

    def chain(self, st, p):
        """[(object, offset)] of the sections from p down to the ghost, or None"""
        out = []
        while isinstance(p, Ptr) and p.obj != getattr(self, 'robj', None):
            if self.sec is None or self.vtable_of(st, p) != self.sec[0] or len(out) > 6:
                return None
            out.append((p.obj, p.off))
            c = st.mem[p.obj].cells.get(p.off + self.sec[1])
            s = st.mem[p.obj].cells.get(p.off + self.sec[2])
            if c is None or s is None or s[0] != 4:
                return None
            p = c[1]
        return out if isinstance(p, Ptr) else None

    def has(self, st, t):
        """is the condition implied by the path?  Looked up among its conditions first, and kept there when shown."""
        t = simp(t)
        if isinstance(t, bool):
            return t
        if any(is_sym(x) and x.eq(t) for x in st.pc):
            return True
        if self.ex.feasible(st, z3.Not(t)):
            return False
        st.assume(t)
        return True

    def efflim(self, st, chain):
        """end of the data that can be read through the chain of sections"""
        pos, left = b32(st.gh['pos']), self.lim - b32(st.gh['pos'])
        if not chain:
            return self.lim
        if self.known and len(chain) == 1:
            # under one of the terms the specification uses for it, if the path shows it equal
            o, off = chain[0]
            sz = b32(st.mem[o].cells[off + self.sec[2]][1])
            for k in self.known:
                d = b32(simp(k - pos))
                if canon(b32(simp(sz))) == canon(d) or self.has(st, sz == d):
                    st.wobj(o).cells[off + self.sec[2]] = (4, d)
                    if self.has(st, z3.ULE(pos, k)) and self.has(st, z3.ULE(k, self.lim)):
                        return k
            if self.has(st, z3.UGE(sz, left)):
                return self.lim
        for o, off in chain:
            sz = b32(st.mem[o].cells[off + self.sec[2]][1])
            left = ite(self.dec(st, z3.ULT(sz, left)), sz, left, 32)
        return simp(pos + left)

    def consume(self, st, chain, n, lim=None):
        """n bytes are read.  The facts added are instances of lemmas proved in C02 (lemma_* tasks)."""
        pos = b32(st.gh['pos'])
        new = b32(simp(pos + b32(n)))
        st.gh['pos'] = new
        facts = []
        if self.decide and lim is not None and self.has(st, z3.ULE(pos, lim)):
            facts += [z3.ULE(new, lim), z3.ULE(pos, new)]          # lemma: pos <= lim, n <= lim - pos
        for o, off in chain:
            ob = st.wobj(o)
            sz = b32(ob.cells[off + self.sec[2]][1])
            nsz = b32(simp(sz - b32(n)))
            ob.cells[off + self.sec[2]] = (4, nsz)
            if facts and any(is_sym(x) and x.eq(simp(z3.UGE(sz, self.lim - pos))) for x in st.pc):
                facts.append(z3.UGE(nsz, self.lim - new))          # lemma: sz >= lim - pos, n <= lim - pos
        for f in facts:
            f = simp(f)
            if is_sym(f):
                st.assume(f)

    def varint_at(self, pos, lim, w):
        """error, consumed, value of the varint at pos, as uninterpreted functions (or, when named is set, one constant
        per instance, for which the congruence of the functions is added with the definitions) with their facts"""
        if not self.named:
            pos, lim = b32(pos), b32(lim)
            key = (pos.get_id(), lim.get_id())
            if key not in self.instances:
                self.instances[key] = (pos, lim)
                for f in varint_facts(pos, lim):
                    self.ex.add_axiom(z3.Implies(z3.ULE(pos, lim), f))
            return VE[w](pos, lim), VN[w](pos, lim), VV[w](pos, lim)
        pos, lim = b32(simp(b32(pos))), b32(simp(b32(lim)))
        key = (canon(pos), canon(lim))
        if key not in self.instances:
            i = len(self.instances)
            mp = []
            cs = {}
            for w_ in (32, 64):
                cs[w_] = (z3.BitVec(f'VE{w_}_{i}', 32), z3.BitVec(f'VN{w_}_{i}', 32), z3.BitVec(f'VV{w_}_{i}', w_))
                mp += list(zip((VE[w_](pos, lim), VN[w_](pos, lim), VV[w_](pos, lim)), cs[w_]))
            self.instances[key] = (pos, lim, cs, mp)
            for f in varint_facts(pos, lim):
                self.ex.add_axiom(z3.Implies(z3.ULE(pos, lim), z3.substitute(f, *mp)))
            for w_ in (32, 64):
                self.lemma_add(pos, cs[w_][1], lim)
        return self.instances[key][2][w]

    def congruence(self):
        out = []
        ins = list(self.instances.values()) if self.named else []
        for i, (p1, l1, c1, _) in enumerate(ins):
            for p2, l2, c2, _ in ins[:i]:
                out.append(z3.Implies(z3.And(p1 == p2, l1 == l2), z3.And(*[a == b for w in (32, 64) for a, b in zip(c1[w], c2[w])])))
        return out

    def lemma_add(self, a, n, l):
        """a <= l and n <= l - a: a <= a + n <= l (proved in C02)"""
        self.ex.add_axiom(z3.Implies(z3.And(z3.ULE(a, l), z3.ULE(n, l - a)), z3.And(z3.ULE(a, simp(a + n)), z3.ULE(simp(a + n), l))))

    def moved(self, pos, lim, npos):
        """substitution that takes the terms about the varint at pos to those about the one at npos"""
        out = [(pos, b32(npos))]
        if self.named:
            for w in (32, 64):
                out += list(zip(self.varint_at(pos, lim, w), self.varint_at(npos, lim, w)))
        return out

    def mk_dv(self, w):
        def h(ex, st, a, where):
            p, out = a
            ch = self.chain(st, p)
            if ch is None:
                return None
            lim = self.efflim(st, ch)
            for k in self.specpos:
                # a position the specification has a term for
                if canon(b32(simp(b32(st.gh['pos'])))) == canon(k) or self.has(st, b32(st.gh['pos']) == k):
                    st.gh['pos'] = k
                    break
            E, N, V = self.varint_at(st.gh['pos'], lim, w)
            old = ex.load(st, out, ('i', w), where)
            ok = self.dec(st, E == 0)
            ex.store(st, out, ('i', w), ite(ok, V, old, w), where)
            self.consume(st, ch, N, lim)
            return [(st, 0 if ok is True else E)]
        return h

    # ---- definitions for the second attempt at an obligation
    def definitions(self, exprs):
        out = []
        if self.named:
            ins = list(self.instances.values())
            for pos, lim, cs, mp in ins:
                out += [z3.Implies(z3.ULE(pos, lim), z3.substitute(d, *mp)) for d in varint_defs(pos, lim)]
            out += self.congruence()
        else:
            for pos, lim in self.instances.values():
                out += [z3.Implies(z3.ULE(pos, lim), d) for d in varint_defs(pos, lim)]
        seen = set()
        av = {}
        vs = {}

        def walk(e):
            stack = [e]
            while stack:
                x = stack.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_app(x):
                    if x.decl().name() == 'av':
                        av[x.get_id()] = x
                    elif x.decl().name() == 'vs':
                        vs[x.get_id()] = x
                    stack += x.children()
        for e in exprs:
            walk(e)
        out += [av_definition(t) for t in av.values()]
        out += [t == vsize(t.arg(0)) for t in vs.values()]
        return out
