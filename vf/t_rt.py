"""The round trip lemma (C17).

Over the specifications alone: the encoding `enc_field` that serialize is proved to write (C11), read by the
record specification `spec`/`step_packed` that deserialize is proved to follow (C12), gives the value back.
The lemma is proved field by field for every message type; the sequence of the records is covered because each
record ends where the next one starts, and embedded messages by induction over the nesting of the types.
The obligations that tie the specifications to the code are those of C11 and C12, which the check of C17 runs too."""
import z3
from .ghost import *
from .msg import *
from .prove import Prover
from . import t_des
from .t_des import spec, step_packed, step_scalar
from .t_ser import find, msgs, UNITS


def paths(t):
    """the ways in which a stream term can have been written: (conditions, items in order)"""
    t = z3.simplify(t)
    out = []

    def go(t, conds, items):
        while True:
            if z3.is_app_of(t, z3.Z3_OP_ITE):
                go(t.arg(1), conds + [t.arg(0)], items)
                go(t.arg(2), conds + [z3.Not(t.arg(0))], items)
                return
            n = t.decl().name()
            if t.num_args() == 0:
                out.append((conds, items[::-1]))
                return
            if t.decl().eq(AB):
                items = items + [('b', t.arg(1))]
            elif t.decl().eq(AV):
                items = items + [('v', t.arg(1))]
            elif t.decl().eq(AM):
                items = items + [('m', t.arg(1))]
            else:
                raise Unsupported(f'stream term {n}')
            t = t.arg(0)
    go(t, [], [])
    return out


def symbolic(f, tag, k=None, l=None, pc=None, i0=0):
    """an arbitrary value of a field (k elements, length l)"""
    if f.rep:
        return N32(k), [one(f, f'{tag}_{i}', l, pc, i0 + i) for i in range(f.N)]
    return one(f, tag, l, pc, i0)


def one(f, tag, l, pc, i=0):
    if f.scalar:
        v = z3.BitVec(tag, f.w)
        if f.kind == 'bool':
            pc.append(z3.ULE(v, 1))
        return v
    if f.kind == 'msg':
        a = Abs(N32(i + 1), z3.BitVec(tag + '_sz', 32))
        pc.append(z3.ULE(a.sz, 0xffffff))
        return a
    return N32(l), [z3.BitVec(f'{tag}_b{j}', 8) for j in range(f.SL)]


def wide(v):
    """does the 64 bit term come from a 32 bit one?"""
    v = z3.simplify(v)
    return not (z3.is_bv_value(v) and v.as_long() < 1 << 32) and not (
        z3.is_app_of(v, z3.Z3_OP_ZERO_EXT) and v.arg(0).size() <= 32) and not (
        z3.is_app_of(v, z3.Z3_OP_CONCAT) and z3.is_bv_value(v.arg(0)) and v.arg(0).as_long() == 0 and v.arg(0).size() >= 32)


class Rd:
    """the bytes of an encoding laid out from a position"""

    def __init__(self, c, items, q, lims, szs):
        self.hyps = []
        self.at = []
        p = q
        for k, x in items:
            self.at.append((p, k, x))
            if k == 'b':
                self.hyps.append(D(p) == x)
                p = z3.simplify(p + 1)
            elif k == 'v':
                n = b32(vsize_uf(x, EX[0]))
                if not wide(x):
                    self.hyps.append(z3.ULE(n, 5))
                for lim in lims:
                    E, N, V = c.varint_at(p, lim, 64)
                    g = z3.And(z3.ULE(p, lim), z3.ULE(n, lim - p))
                    self.hyps.append(z3.Implies(g, z3.And(E == 0, N == n, V == x)))
                    if not wide(x):
                        E, N, V = c.varint_at(p, lim, 32)
                        self.hyps.append(z3.Implies(g, z3.And(E == 0, N == n, V == z3.Extract(31, 0, x))))
                p = z3.simplify(p + n)
            else:
                p = z3.simplify(p + szs[x.as_long()])
        self.end = p


def varint_task(build, res):
    """the bytes of the varint of v are read back as v, with its length, whatever follows"""
    c = Ctx(build.ir('scalar'))
    P = Prover(c, res)
    q, lim = z3.BitVec('q', 32), z3.BitVec('lim', 32)
    for w in (32, 64):
        v = z3.BitVec(f'v{w}', w)
        for k in range(1, (5 if w == 32 else 10) + 1):
            pc = [z3.ULE(q, lim), vsize(v) == k, z3.ULE(k, lim - q)]
            for i, (pres, b) in enumerate(varint_bytes(v)[:k]):
                pc.append(D(q + i) == b)
            for w2 in (32, 64):
                if w2 < w:
                    continue
                E, N, V = varint_spec(q, lim, w2)
                P.prove(f'varint of {k} bytes of a {w} bit value is read back as {w2} bits', tuple(pc), z3.And(E == 0, N == k, V == (v if w == w2 else zx64(v))))
        # the definition of AV agrees with the bytes
    v = z3.BitVec('v', 64)
    s = z3.Const('s', S)
    for k in range(1, 11):
        t = s
        for pres, b in varint_bytes(v)[:k]:
            t = AB(t, b)
        P.prove(f'the stream term of a varint of {k} bytes is its bytes', (vsize(v) == k, av_definition(AV(s, v))), AV(s, v) == t)


def field_task(build, res, unit, mid, name):
    m = find(unit, mid)
    f = m.byname(name)
    c = Ctx(build.ir(unit))
    EX[0] = c.ex
    P = Prover(c, res)
    Tn = f'{mid}.{name}'
    ks = range(f.N + 1) if f.rep else [None]
    ls = range(f.SL + 1) if f.kind in ('string', 'bytes') else [None]
    for k in ks:
        for l in ls:
            value_case(c, P, m, f, Tn, k, l)
            if k == 0:
                break
    P.prove(f'{Tn}: field numbers are distinct', (), z3.BoolVal(all(g is f or g.num != f.num for g in m.fields)))
    P.prove(f'{Tn}: written exactly once', (), z3.BoolVal(sum(g is f for g in m.order) == 1))


def value_case(c, P, m, f, Tn, k, l):
    pc = []
    v = symbolic(f, 'x', k, l, pc)
    els = v[1] if f.rep else [v]
    szs = {x.key.as_long(): x.sz for x in els if isinstance(x, Abs)}
    q0, lim = z3.BitVec('q0', 32), z3.BitVec('lim', 32)
    s0 = z3.Const('S0', S)
    e = enc_field(Enc(s0, N32(0)), m, f, v)
    n = z3.simplify(e.n)
    pc += [z3.ULE(q0, lim), z3.ULE(n, lim - q0)]
    what = '' if k is None and l is None else f' [{k},{l}]'
    for conds, items in paths(e.S):
        pcc = pc + conds
        if not items:
            # not written: the value is that of a cleared message
            if f.rep:
                P.prove(f'{Tn}{what}: not written only when there is no element', tuple(pcc), v[0] == 0)
            elif f.kind == 'msg':
                P.prove(f'{Tn}{what}: not written only when the embedded encoding is empty', tuple(pcc), v.sz == 0)
            elif f.scalar:
                P.prove(f'{Tn}{what}: not written only when the value is zero', tuple(pcc), z3.And(z3.BoolVal(not f.presence), fp_zero(f.kind, v)))
            else:
                P.prove(f'{Tn}{what}: not written only when empty', tuple(pcc), v[0] == 0)
            continue
        read_back(c, P, m, f, Tn + what, v, k, items, tuple(pcc), q0, lim, n, szs)


def read_tag(c, P, f, Tn, pc, q, lim):
    E, N, V = c.varint_at(q, lim, 32)
    d = [VE[32](q, lim) == varint_spec(q, lim, 32)[0], VN[32](q, lim) == varint_spec(q, lim, 32)[1],
         z3.Implies(VE[32](q, lim) == 0, VV[32](q, lim) == varint_spec(q, lim, 32)[2])]
    t = (f.num << 3) | f.wt
    g = z3.And(E == 0, N == vsize(t), V == t)
    P.prove(f'{Tn}: the tag is read as that of the field', pc + tuple(d), g)
    return pc + (g,), z3.simplify(q + vsize(t))


def read_back(c, P, m, f, Tn, v, k, items, pc, q0, lim, n, szs):
    if f.rep and f.scalar:
        # one packed record
        nt = vsize((f.num << 3) | f.wt)
        q = z3.simplify(q0 + nt)
        r0 = Rd(c, items, q0, [lim], szs)
        E, N, L = c.varint_at(q, lim, 32)
        end = q + N + L
        r = Rd(c, items, q0, [lim, end], szs)
        pc = pc + tuple(r.hyps)
        pc, q = read_tag(c, P, f, Tn, pc, q0, lim)
        z = [z3.BitVecVal(0, f.w)] * f.N
        g = z3.And(E == 0, end == r.end, z3.ULE(end, lim), r.end == q0 + n)
        P.prove(f'{Tn}: the length prefix is that of the elements', pc, g)
        pc += (g,)
        # element by element
        p = q + N
        vals = []
        at = [a for a, _, _ in r.at[len(const_varint((f.num << 3) | f.wt)) + 1:]] + [r.end]
        at = at[::1 if SC[f.kind][1] == 0 else f.w // 8]
        for i in range(k):
            P.prove(f'{Tn}: element {i} starts where it was written', pc, p == at[i])
            pc += (p == at[i],)
            e, np, x = step_scalar(c, f, p, end)
            g = z3.And(p != end, e == 0)
            P.prove(f'{Tn}: element {i} is read', pc, g)
            pc += (g,)
            P.prove(f'{Tn}: element {i} is read as the value written', pc, x == v[1][i])
            vals.append(x)
            p = np
        P.prove(f'{Tn}: the elements end with the record', pc, p == end)
        pre, err, pos, val = step_packed(c, f, q, lim, (N32(0), z), 0, 0, k, 'stop')
        P.prove(f'{Tn}: the record is good and ends where the encoding ends', pc + (p == end,), z3.And(*pre, err == 0, pos == q0 + n, val[0] == k))
        P.prove(f'{Tn}: the decoded elements are those of the message', pc, z3.And(*[a == b for a, b in zip(val[1][:k], vals)]))
        return
    els = v[1][:k] if f.rep else [v]
    nt = len(const_varint((f.num << 3) | f.wt))
    idx = 0
    tot = N32(0)
    pc0 = pc
    for i, x in enumerate(els):
        # one record, laid out at a position of its own: q0 and lim are arbitrary
        Ti = f'{Tn}: element {i}' if f.rep else Tn
        cnt = nt + (1 if f.kind == 'msg' or SC.get(f.kind, (0, 0))[1] == 0 or f.kind in ('string', 'bytes') else f.w // 8)
        if f.kind == 'bool':
            cnt = nt + 1
        if f.kind == 'msg':
            cnt += len(items) > idx + cnt and items[idx + cnt][0] == 'm' and items[idx + cnt][1].as_long() == x.key.as_long()
        elif not f.scalar:
            cnt += x[0].as_long()
        its = items[idx:idx + cnt]
        P.prove(f'{Ti}: its record is in the encoding', (), z3.BoolVal(len(its) == cnt))
        if len(its) != cnt:
            return
        idx += cnt
        r = Rd(c, its, q0, [lim], szs)
        ni = z3.simplify(r.end - q0)
        tot = tot + ni
        pc = tuple(a for a in pc0 if not z3.eq(a, z3.ULE(n, lim - q0))) + (z3.ULE(ni, lim - q0),) + tuple(r.hyps)
        pc, q1 = read_tag(c, P, f, Ti, pc, q0, lim)
        old = {f.name: v} if not f.rep else {f.name: (N32(i), v[1])}
        embs = {}
        if f.kind == 'msg':
            em = t_des.Emb(f.typ, i, None)
            embs = {i: em} if not f.rep else {j: (em if j == i else t_des.Emb(f.typ, j, None)) for j in range(f.N)}
            pc += (em.err == 0,)         # induction: the embedded encoding is decoded without error
        st = spec(c, m, f, old, q1, lim, f.wt, ('field', f.name), embs, 'ok')
        if f.kind == 'msg':
            _, ln, p1, end = st.val
            lo = r.at[nt + 1][0] if cnt > nt + 1 else r.end
            P.prove(f'{Ti}: the embedded message is decoded from its own bytes', pc, z3.And(p1 == lo, end == lo + x.sz, end == r.end))
            if f.rep:
                P.prove(f'{Ti}: one more element', pc, ln == i + 1)
        else:
            val = st.val
            if f.rep:
                P.prove(f'{Ti}: one more element', pc, val[0] == i + 1)
                val = val[1][i]
            if f.scalar:
                P.prove(f'{Ti}: decoded as the value written', pc, val == x)
            else:
                l = x[0].as_long()
                P.prove(f'{Ti}: decoded with the length written', pc, val[0] == x[0])
                P.prove(f'{Ti}: decoded with the content written', pc, z3.And(True, *[a == b for a, b in zip(val[1][:l], x[1][:l])]))
        P.prove(f'{Ti}: the record is good and ends where its bytes end', pc, z3.And(st.err == 0, st.pos == r.end))
    P.prove(f'{Tn}: the records make up the encoding', pc0, z3.And(z3.BoolVal(idx == len(items)), tot == n))
    if f.rep:
        P.prove(f'{Tn}: each record has its place before the end', pc0, z3.And(True, *[z3.And(z3.ULE(a, n), z3.ULE(b, n - a)) for a, b in sums(items, els, idx, f, nt, szs)]))


def sums(items, els, idx, f, nt, szs):
    """(what precedes the record, its size)"""
    a = N32(0)
    for x in els:
        if f.kind == 'msg':
            b = N32(nt) + b32(vsize_uf(x.sz, EX[0])) + x.sz
        else:
            b = N32(nt) + b32(vsize_uf(x[0], EX[0])) + x[0]
        yield z3.simplify(a), z3.simplify(b)
        a = a + b


def empty_task(build, res, unit, mid):
    """a message whose encoding is empty is a cleared one (up to the sign of zero)"""
    m = find(unit, mid)
    c = Ctx(build.ir(unit))
    EX[0] = c.ex
    P = Prover(c, res)
    pc = []
    t = {}
    q = []
    for i, f in enumerate(m.fields):
        if f.rep:
            v = symbolic(f, f.name, 0, 1, pc, 16 * i)
            ln = z3.BitVec(f.name + '_n', 32)
            pc.append(z3.ULE(ln, f.N))
            if f.kind in ('string', 'bytes'):
                v = (ln, [(z3.BitVec(f'{f.name}_l{j}', 32), x[1]) for j, x in enumerate(v[1])])
                pc += [z3.ULE(x[0], f.SL) for x in v[1]]
            else:
                v = (ln, v[1])
            d = ln == 0
        else:
            v = symbolic(f, f.name, None, 1, pc, 16 * i)
            if f.kind in ('string', 'bytes'):
                v = (z3.BitVec(f.name + '_n', 32), v[1])
                pc.append(z3.ULE(v[0], f.SL))
                d = v[0] == 0
            elif f.kind == 'msg':
                d = v.sz == 0
            else:
                d = fp_zero(f.kind, v)
        if f.presence:
            h = z3.Bool(f.name + '_h')
            t[f.name] = (h, v)
            d = z3.Not(h)
        else:
            t[f.name] = v
        q.append((f, d))
    n = enc_msg(Enc(z3.Const('S0', S), N32(0)), m, t).n
    for f, d in q:
        P.prove(f'{mid}: an empty encoding means that {f.name} is as in a cleared message', tuple(pc) + (n == 0,), d)
    if not q:
        P.prove(f'{mid}: has no fields', (), z3.BoolVal(True))


def tasks():
    T = [('vf.t_rt', 'varint_task', (), ('scalar',))]
    for u in UNITS:
        for mid in msgs(u):
            T.append(('vf.t_rt', 'empty_task', (u, mid), (u,)))
            for f in find(u, mid).fields:
                T.append(('vf.t_rt', 'field_task', (u, mid, f.name), (u,)))
    return T
