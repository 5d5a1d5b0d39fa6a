"""Contracts of the buffers (C04, C05, C06).

The state before an operation is a normal form built with public operations from unconstrained
symbols (content, length, position); `closure` obligations show that the state after each operation
is again a normal form, so by induction the contracts hold after every history."""
import z3
from .ghost import *
from .sym import State, Ptr, GPtr, FnPtr, bv, b_, simp, is_sym, Region, RNode, rread
from .irparse import Unsupported
from .prove import Prover
from .harness import WB_N, RB_N


def source(c, st, name, n):
    """an object of n bytes (n symbolic) with unconstrained content"""
    arr = z3.Array(name, BV64, BV8)
    n64 = zx64(n)
    oid = c.ex.new_obj(st, name, n64)
    st.mem[oid].regions = (Region(0, n64, 1, RNode('arr', arr)),)
    return Ptr(oid, 0), arr


def make_region(c, st, p, n, node):
    """give the n bytes at p the content node"""
    o = st.wobj(p.obj)
    if not isinstance(p, Ptr) or p.sym or not (0 <= p.off and p.off + n <= o.size):
        raise Unsupported('storage of the buffer')
    for k in list(o.cells):
        if p.off <= k < p.off + n:
            del o.cells[k]
    keep = []
    for r in o.regions:
        if isinstance(r.n, int) and (r.start + r.n * r.es <= p.off or r.start >= p.off + n):
            keep.append(r)
        elif r.es != 1 or not isinstance(r.n, int):
            raise Unsupported('storage of the buffer')
        else:
            if r.start < p.off:
                keep.append(Region(r.start, p.off - r.start, 1, r.node))
            if r.start + r.n > p.off + n:
                k = r.start + r.n - p.off - n
                keep.append(Region(p.off + n, k, 1, RNode('copy', RNode('const', 0), 0, k, r.node, p.off + n - r.start)))
    o.regions = tuple(keep) + (Region(p.off, n, 1, node),)


def content(st, p, i):
    o = st.mem[p.obj]
    for r in o.regions:
        if r.start == p.off:
            return bv(rread(r.node, i, 8), 8)
    raise Unsupported('storage of the buffer')


def node_of(st, p):
    for r in st.mem[p.obj].regions:
        if r.start == p.off:
            return r.node
    raise Unsupported('storage of the buffer')


def same_cells(a, b):
    """all data cells of two objects are equal, as a list of conditions; None if not comparable"""
    out = []
    if set(a.cells) != set(b.cells):
        return None
    for k, (n, v) in a.cells.items():
        m, u = b.cells[k]
        if n != m:
            return None
        if isinstance(v, (Ptr, FnPtr, GPtr)) or isinstance(u, (Ptr, FnPtr, GPtr)):
            if not (isinstance(v, Ptr) and v.same(u)):
                return None
            continue
        out.append(bv(v, 8 * n) == bv(u, 8 * n) if not z3.is_bool(v) else b_(v) == b_(u))
    return out


def closure(P, name, st, obj, st2, obj2, pc):
    cs = same_cells(st.mem[obj], st2.mem[obj2])
    if cs is None:
        P.res.unknown.append(f'closure {name}: representation not comparable')
        return
    n0, r0 = len(P.res.refuted), None
    if P.prove(f'closure {name}: the state is again a normal form', pc, z3.And(*cs) if cs else z3.BoolVal(True)) is False:
        r0 = P.res.refuted.pop()
        P.res.unknown.append(f'closure {name}: not a normal form ({str(r0[1])[:100]})')


# ------------------------------------------------------------------ write buffer
def wb_state(c, N, tag=''):
    st = State()
    p = Ptr(c.ex.new_obj(st, 'wb' + tag, c.call1(st, f'wb{N}_sizeof')[1]), 0)
    st, _ = c.call1(st, f'wb{N}_ctor', p)
    st, d = c.call1(st, f'wb{N}_data', p)
    A = z3.Array('A' + tag, BV64, BV8)
    make_region(c, st, d, N, RNode('arr', A))
    return st, p, d, A


def wb_fill(c, st, N, p, src, n):
    st, ok = c.call1(st, f'wb{N}_pushn', p, src, n)
    return st, ok


def wb_task(build, res, N, op):
    c = Ctx(build.ir('buffers'))
    P = Prover(c, res)
    st, p, d, A = wb_state(c, N)
    n = z3.BitVec('len', 32)
    st.assume(z3.ULE(n, N))
    src, B = source(c, st, 'B', n)
    st, ok = wb_fill(c, st, N, p, src, n)
    P.safety()
    P.prove(f'WriteBuffer<{N}>: storing up to the capacity succeeds', st.pc, b_(ok))
    st.assume(b_(ok))
    i = z3.BitVec('i', 64)
    idx = z3.And(z3.ULT(i, N))
    old = content(st, d, i)
    st, sz = c.call1(st, f'wb{N}_size', p)
    st, mx = c.call1(st, f'wb{N}_max', p)
    st, av = c.call1(st, f'wb{N}_avail', p)
    P.prove(f'WriteBuffer<{N}>: size is the number of bytes pushed', st.pc, b32(sz) == n)
    P.prove(f'WriteBuffer<{N}>: maximum size', st.pc, b32(mx) == N)
    P.prove(f'WriteBuffer<{N}>: available size', st.pc, b32(av) == N - n)
    P.prove(f'WriteBuffer<{N}>: content is what was pushed', st.pc, z3.Implies(z3.ULT(i, zx64(n)), old == z3.Select(B, i)))
    s2 = st.fork()
    n2 = None
    if op == 'push':
        b = z3.BitVec('b', 8)
        s2, r = c.call1(s2, f'wb{N}_push', p, b)
        fits = z3.ULT(n, N)
        P.prove('push: accepts iff there is room', s2.pc, b_(r) == fits)
        n2 = z3.If(fits, n + 1, n)
        want = z3.If(z3.And(fits, i == zx64(n)), b, old)
    elif op == 'pushn':
        m = z3.BitVec('m', 32)
        src2, Q = source(c, s2, 'Q', m)
        s2, r = c.call1(s2, f'wb{N}_pushn', p, src2, m)
        fits = z3.ULE(m, N - n)
        P.prove('push(bytes): accepts iff all the bytes fit', s2.pc, b_(r) == fits)
        n2 = z3.If(fits, n + m, n)
        want = z3.If(z3.And(fits, z3.UGE(i, zx64(n)), z3.ULT(i, zx64(n) + zx64(m))), z3.Select(Q, i - zx64(n)), old)
    elif op == 'clear':
        s2, _ = c.call1(s2, f'wb{N}_clear', p)
        n2 = z3.BitVecVal(0, 32)
        want = old
    P.safety()
    s2, sz2 = c.call1(s2, f'wb{N}_size', p)
    P.prove(f'{op}: size afterwards', s2.pc, b32(sz2) == n2)
    P.prove(f'{op}: content afterwards is the old content followed by the new bytes', s2.pc, z3.Implies(z3.ULT(i, zx64(n2)), content(s2, d, i) == want))
    s2, d2 = c.call1(s2, f'wb{N}_data', p)
    P.prove(f'{op}: the storage does not move', s2.pc, z3.BoolVal(isinstance(d2, Ptr) and d2.same(d)))
    # closure
    st3, p3, d3, _ = wb_state(c, N, '3')
    st3.pc = s2.pc
    n3 = z3.BitVec('n3', 32)
    st3.assume(n3 == n2)
    src3 = Ptr(c.ex.new_obj(st3, 'src3', zx64(n3)), 0)
    st3.mem[src3.obj].regions = (Region(0, zx64(n3), 1, node_of(s2, d)),)
    st3, ok3 = wb_fill(c, st3, N, p3, src3, n3)
    c.ex.obls.clear()
    st3.assume(b_(ok3))
    closure(P, f'WriteBuffer<{N}>::{op}', s2, p.obj, st3, p3.obj, st3.pc)
    res.functions += list(c.ex.called)


# ------------------------------------------------------------------ size calculator
def calc_task(build, res):
    c = Ctx(build.ir('scalar'))
    P = Prover(c, res)
    st = State()
    p = c.new(st, 'calc_')
    st, _ = c.call1(st, 'calc_ctor', p)
    st, z = c.call1(st, 'calc_size', p)
    P.prove('size calculator: starts at zero', st.pc, b32(z) == 0)
    n = z3.BitVec('n', 32)
    src, _ = source(c, st, 'B', n)
    st, ok = c.call1(st, 'calc_pushn', p, src, n)
    P.prove('size calculator: never refuses bytes', st.pc, b_(ok))
    st, s = c.call1(st, 'calc_size', p)
    P.prove('size calculator: counts the bytes', st.pc, b32(s) == n)
    base = st
    st = base.fork()
    st, ok = c.call1(st, 'calc_push', p, z3.BitVec('b', 8))
    st, s = c.call1(st, 'calc_size', p)
    P.prove('size calculator: counts one byte', st.pc, z3.And(b_(ok), b32(s) == n + 1))
    st = base.fork()
    m = z3.BitVec('m', 32)
    src, _ = source(c, st, 'B2', m)
    st, ok = c.call1(st, 'calc_pushn', p, src, m)
    st, s = c.call1(st, 'calc_size', p)
    P.prove('size calculator: counts further bytes', st.pc, z3.And(b_(ok), b32(s) == n + m))
    for f in ('max', 'avail'):
        st = base.fork()
        st, a = c.call1(st, 'calc_' + f, p)
        P.prove(f'size calculator: unlimited ({f})', st.pc, b32(a) == 0xffffffff)
    st = base.fork()
    st, _ = c.call1(st, 'calc_clear', p)
    st, s = c.call1(st, 'calc_size', p)
    P.prove('size calculator: clear resets the count', st.pc, b32(s) == 0)
    P.safety()
    res.functions += list(c.ex.called)


def calc_varint_task(build, res):
    """SerializeVarint into a size calculator (contract used at message level)"""
    for w in (32, 64):
        c = Ctx(build.ir('scalar'))
        c.ex.nomerge = True
        P = Prover(c, res)
        st = State()
        p = c.new(st, 'calc_')
        st, _ = c.call1(st, 'calc_ctor', p)
        n, v = z3.BitVec('n', 32), z3.BitVec('v', w)
        src, _ = source(c, st, 'B', n)
        st, ok = c.call1(st, 'calc_pushn', p, src, n)
        for s, r in c.calln(st, f'w_svarint{w}', v, p):
            P.prove('SerializeVarint into a size calculator succeeds', s.pc, bv(r, 32) == 0)
            s, z = c.call1(s, 'calc_size', p)
            P.prove('SerializeVarint into a size calculator adds the length of the varint', s.pc, b32(z) == n + vsize(v))
        P.safety()
        res.functions += list(c.ex.called)


# ------------------------------------------------------------------ read buffer
def rb_state(c, N, tag='', pars=None, node=None):
    st = State()
    p = Ptr(c.ex.new_obj(st, 'rb' + tag, c.call1(st, f'rb{N}_sizeof')[1]), 0)
    st, _ = c.call1(st, f'rb{N}_ctor', p)
    st, d = c.call1(st, f'rb{N}_data', p)
    A = z3.Array('A' + tag, BV64, BV8)
    make_region(c, st, d, N, node or RNode('arr', A))
    n, k, n2 = pars or z3.BitVecs('n k n2', 32)
    st, _ = c.call1(st, f'rb{N}_setn', p, n)
    st, _ = c.call1(st, f'rb{N}_adv', p, k)
    st, _ = c.call1(st, f'rb{N}_setn', p, n2)
    return st, p, d, A


def umin(a, b):
    return z3.If(z3.ULT(a, b), a, b)


def rb_task(build, res, N, op):
    c = Ctx(build.ir('buffers'))
    P = Prover(c, res)
    n, k, n2 = z3.BitVecs('n k n2', 32)
    st, p, d, A = rb_state(c, N)
    P.safety()
    NN = z3.BitVecVal(N, 32)
    w1 = umin(n, NN)
    r = umin(k, w1)
    w = umin(n2, NN)
    left = z3.If(z3.ULT(r, w), w - r, z3.BitVecVal(0, 32))
    out = Ptr(c.ex.new_obj(st, 'byte', 1), 0)
    old = z3.BitVec('old', 8)
    c.ex.store(st, out, ('i', 8), old)
    T = f'ReadBuffer<{N}>::{op}'
    s = st.fork()
    i = z3.BitVec('i', 64)
    r2, w2 = r, w
    dwant = z3.Select(A, i)
    if op in ('peek', 'pop'):
        s, ok = c.call1(s, f'rb{N}_{op}', p, out)
        P.prove(f'{T}: succeeds iff a byte is left', s.pc, b_(ok) == (left != 0))
        P.prove(f'{T}: delivers the next byte', s.pc, bv(c.ex.load(s, out, ('i', 8)), 8) == z3.If(left != 0, z3.Select(A, zx64(r)), old))
        if op == 'pop':
            r2 = z3.If(left != 0, r + 1, r)
    elif op == 'adv1':
        s, ok = c.call1(s, f'rb{N}_adv1', p)
        P.prove(f'{T}: succeeds iff a byte is left', s.pc, b_(ok) == (left != 0))
        r2 = z3.If(left != 0, r + 1, r)
    elif op == 'adv':
        m = z3.BitVec('m', 32)
        s, ok = c.call1(s, f'rb{N}_adv', p, m)
        P.prove(f'{T}: succeeds iff that many bytes are left', s.pc, b_(ok) == z3.UGE(left, m))
        r2 = r + umin(m, left)
    elif op == 'push':
        b = z3.BitVec('b', 8)
        s, ok = c.call1(s, f'rb{N}_push', p, b)
        P.prove(f'{T}: succeeds iff there is room', s.pc, b_(ok) == z3.ULT(w, NN))
        w2 = z3.If(z3.ULT(w, NN), w + 1, w)
        dwant = z3.If(z3.And(z3.ULT(w, NN), i == zx64(w)), b, dwant)
    elif op == 'setn':
        m = z3.BitVec('m', 32)
        s, _ = c.call1(s, f'rb{N}_setn', p, m)
        w2 = umin(m, NN)
    elif op == 'clear':
        s, _ = c.call1(s, f'rb{N}_clear', p)
        r2 = w2 = z3.BitVecVal(0, 32)
    elif op == 'obs':
        s, mx = c.call1(s, f'rb{N}_max', p)
        P.prove(f'{T}: maximum size', s.pc, b32(mx) == N)
    P.safety()
    s, sz = c.call1(s, f'rb{N}_size', p)
    P.prove(f'{T}: number of stored bytes afterwards', s.pc, b32(sz) == w2)
    P.prove(f'{T}: stored bytes afterwards', s.pc, z3.Implies(z3.ULT(i, zx64(w2)), content(s, d, i) == dwant))
    # what a reader sees next
    c.ex.store(s, out, ('i', 8), z3.BitVec('old2', 8))
    if op != 'clear':
        s2 = s.fork()
        s2, ok = c.call1(s2, f'rb{N}_peek', p, out)
        P.prove(f'{T}: a byte is left afterwards iff the reader has not reached the end', s2.pc, b_(ok) == z3.ULT(r2, w2))
        P.prove(f'{T}: next byte afterwards', s2.pc, z3.Implies(z3.ULT(r2, w2), bv(c.ex.load(s2, out, ('i', 8)), 8) == z3.substitute(dwant, (i, zx64(r2)))))
    # closure: full length first so that the position can be anything
    pn = (NN, r2, w2)
    st3, p3, d3, _ = rb_state(c, N, '3', pars=pn, node=node_of(s, d))
    closure(P, T, s, p.obj, st3, p3.obj, tuple(s.pc) + tuple(st3.pc))
    c.ex.obls.clear()
    res.functions += list(c.ex.called)


# ------------------------------------------------------------------ section
def sec_task(build, res, op):
    c = Ctx(build.ir('scalar'))
    P = Prover(c, res)
    st = State()
    st, rp = c.reader(st)
    n, k = z3.BitVecs('n k', 32)
    p = c.new(st, 'sec_')
    pos0, lim = c.pos0, c.lim
    st, psz = c.call1(st, 'sec_size', rp)
    st, _ = c.call1(st, 'sec_ctor', p, rp, n)
    st, s0 = c.call1(st, 'sec_size', p)
    st, m0 = c.call1(st, 'sec_max', p)
    P.prove('section: its size is the length asked for, limited to what the parent reports', st.pc, z3.And(b32(s0) == umin(n, b32(psz)), b32(m0) == umin(n, b32(psz))))
    P.prove('section: creating it consumes nothing', st.pc, b32(st.gh['pos']) == pos0)
    # an arbitrary later moment: k bytes were skipped through it, and the parent is anywhere
    st, _ = c.call1(st, 'sec_adv', p, k)
    st.gh['pos'] = z3.BitVec('pos1', 32)
    st.assume(z3.ULE(st.gh['pos'], lim))
    pos = st.gh['pos']
    st, s = c.call1(st, 'sec_size', p)
    s = b32(s)
    out = Ptr(c.ex.new_obj(st, 'byte', 1), 0)
    old = z3.BitVec('old', 8)
    c.ex.store(st, out, ('i', 8), old)
    P.safety()
    left = umin(s, lim - pos)
    T = 'section ' + op
    zero = z3.BitVecVal(0, 32)
    skipped = zero
    if op in ('peek', 'pop'):
        st, ok = c.call1(st, 'sec_' + op, p, out)
        P.prove(f'{T}: succeeds iff section and parent have a byte left', st.pc, b_(ok) == (left != 0))
        P.prove(f'{T}: delivers the next byte of the parent', st.pc, z3.Implies(left != 0, bv(c.ex.load(st, out, ('i', 8)), 8) == D(pos)))
        moved = z3.If(left != 0, z3.BitVecVal(1, 32), zero) if op == 'pop' else zero
        dec = moved
    elif op == 'adv1':
        st, ok = c.call1(st, 'sec_adv1', p)
        P.prove(f'{T}: succeeds iff section and parent have a byte left', st.pc, b_(ok) == (left != 0))
        moved = z3.If(left != 0, z3.BitVecVal(1, 32), zero)
        dec = umin(s, z3.BitVecVal(1, 32))
    elif op == 'adv':
        m = z3.BitVec('m', 32)
        st, ok = c.call1(st, 'sec_adv', p, m)
        P.prove(f'{T}: succeeds iff section and parent have that many bytes left', st.pc, b_(ok) == z3.ULE(m, left))
        moved = umin(m, left)
        dec = umin(m, s)
    P.safety()
    st, s2 = c.call1(st, 'sec_size', p)
    st, m2 = c.call1(st, 'sec_max', p)
    P.prove(f'{T}: consumes exactly the bytes read or skipped from the parent', st.pc, b32(st.gh['pos']) == pos + moved)
    P.prove(f'{T}: size afterwards', st.pc, b32(s2) == s - dec)
    P.prove(f'{T}: maximum size stays', st.pc, b32(m2) == b32(m0))
    res.functions += list(c.ex.called)


def sec_varint_task(build, res, depth):
    """DeserializeVarint on a section of a section ... (contract used at message level)"""
    for w in (32, 64):
        c = Ctx(build.ir('scalar'))
        c.ex.nomerge = True
        c.ex.max_states = 4000
        P = Prover(c, res)
        st = State()
        st, p = c.reader(st)
        pos, left = c.pos0, c.lim - c.pos0
        secs = []
        for i in range(depth):
            q = c.new(st, 'sec_')
            n = z3.BitVec(f'n{i}', 32)
            rs = c.calln(st, 'sec_ctor', q, p, n)
            if len(rs) != 1:
                raise Unsupported('section constructor branches')
            st = rs[0][0]
            st, sz = c.call1(st, 'sec_size', q)
            left = umin(b32(sz), left)
            secs.append((q, b32(sz)))
            p = q
        v = z3.BitVec('v', w)
        vo = Ptr(c.ex.new_obj(st, 'v', w // 8), 0)
        c.ex.store(st, vo, ('i', w), v)
        E, N, V = varint_spec(pos, pos + left, w)
        for s, r in c.calln(st, f'w_rvarint{w}', vo, p):
            P.prove('DeserializeVarint on a section: error code', s.pc, bv(r, 32) == E)
            P.prove('DeserializeVarint on a section: bytes consumed', s.pc, b32(s.gh['pos']) == pos + N)
            P.prove('DeserializeVarint on a section: value', s.pc, bv(c.ex.load(s, vo, ('i', w)), w) == z3.If(E == 0, V, v))
            for q, sz in secs:
                s, z = c.call1(s, 'sec_size', q)
                P.prove('DeserializeVarint on a section: size afterwards', s.pc, b32(z) == sz - N)
        P.safety()
        res.functions += list(c.ex.called)


def tasks(prop):
    T = []
    if prop == 'C04':
        T += [('wb', (N, op), 'buffers') for N in WB_N for op in ('push', 'pushn', 'clear')] + [('calc', (), 'scalar')]
    elif prop == 'C05':
        T += [('rb', (N, op), 'buffers') for N in RB_N for op in ('obs', 'peek', 'pop', 'adv1', 'adv', 'push', 'setn', 'clear')]
    elif prop == 'C06':
        T += [('sec', (op,), 'scalar') for op in ('peek', 'pop', 'adv1', 'adv')]
    elif prop == 'varint':
        T += [('calc_varint', (), 'scalar'), ('sec_varint', (1,), 'scalar')]
    return [('vf.t_buffers', f + '_task', a, (u,)) for f, a, u in T]
