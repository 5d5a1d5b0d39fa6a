"""Contracts of the wire formatter and of the scalar field classes (C01, C02, C03, parts of C07, C15)."""
import z3
from .ghost import *
from .sym import State, Ptr, bv, b_, simp, conj, is_sym
from .prove import Prover
from .zoo import SC


# ---- specification
def payload(kind, v):
    """[(condition, byte)] encoding of the value bits v, and its size"""
    w, wt, _ = SC[kind]
    if kind == 'bool':
        return [(True, z3.ZeroExt(7, z3.Extract(0, 0, v)))], z3.BitVecVal(1, 32)
    if wt == 0:
        x = v
        if kind == 'sint32':
            x = (v << 1) ^ (v >> 31)
        if kind == 'sint64':
            x = (v << 1) ^ (v >> 63)
        return varint_bytes(x), vsize(x)
    n = w // 8
    return [(True, z3.Extract(8 * i + 7, 8 * i, v)) for i in range(n)], z3.BitVecVal(n, 32)


def wire_value(kind, x):
    """the value whose varint is written (BV32/BV64), for varint kinds"""
    if kind == 'sint32':
        return (x << 1) ^ (x >> 31)
    if kind == 'sint64':
        return (x << 1) ^ (x >> 63)
    return x


def from_varint(kind, V):
    """value bits from the decoded varint (BV64; BV32 for uint32 and enum)"""
    if kind in ('uint32', 'enum', 'uint64', 'int64'):
        return V
    if kind == 'int32':
        return z3.Extract(31, 0, V)
    if kind == 'sint32':
        V = z3.Extract(31, 0, V)
        return z3.LShR(V, 1) ^ (-(V & 1))
    if kind == 'sint64':
        return z3.LShR(V, 1) ^ (-(V & 1))
    if kind == 'bool':
        return z3.If(V == 0, z3.BitVecVal(0, 8), z3.BitVecVal(1, 8))
    raise KeyError(kind)


def vwidth(kind):
    return 32 if kind in ('uint32', 'enum') else 64


def decode_spec(kind, pos, lim, w=None):
    """(error, bytes consumed, value) as terms over D"""
    if SC[kind][1] == 0:
        vw = w or vwidth(kind)
        E, N, V = varint_spec(pos, lim, vw)
        return E, N, (from_varint(kind, V) if w is None else z3.Extract(31, 0, V))
    n = SC[kind][0] // 8
    ok = z3.ULE(n, lim - pos)
    V = z3.Concat(*[D(pos + i) for i in reversed(range(n))])
    return z3.If(ok, z3.BitVecVal(0, 32), z3.BitVecVal(1, 32)), z3.If(ok, z3.BitVecVal(n, 32), lim - pos), V


def norm(kind, v):
    """bool arguments are one bit"""
    return v & 1 if kind == 'bool' else v


def ret32(r):
    return bv(r, 32)


# ---- encoders
def enc_task(build, res, fn, kind, tag):
    """fn(v[, id[, ..]], buffer): appends tag? + payload(v)"""
    if tag:      # by the length of the tag
        for k in range(1, 6):
            enc1(build, res, fn, kind, tag, k)
    else:
        enc1(build, res, fn, kind, tag, 0)


def enc1(build, res, fn, kind, tag, tlen):
    c = Ctx(build.ir('scalar'))
    c.ex.nomerge = True
    c.ex.max_states = 4000
    st = State()
    st, p = c.writer(st)
    w = SC[kind][0]
    v = z3.BitVec('v', w)
    ident = z3.BitVec('id', 32)
    if tag:
        lo, hi = (1 << (7 * (tlen - 1))) >> 3, min(1 << (7 * tlen), 1 << 32) >> 3
        st.assume(z3.And(z3.UGE(ident, lo if tlen > 1 else 0), z3.ULT(ident, hi)))
    if tag == 'field':
        opt = z3.Bool('opt')
        args = [v, ident, p, opt]
    elif tag == 'wire':
        args = [ident, v, p]
    else:
        args = [v, p]
    rs = c.calln(st, fn, *args)
    P = Prover(c, res)
    P.safety()
    pb, pn = payload(kind, v)
    tn = z3.BitVecVal(0, 32)
    exp = []
    if tag:
        t = (ident << 3) | SC[kind][1]
        tn = z3.BitVecVal(tlen, 32)
        Prover(c, res).prove(f'{fn}: length of the tag', st.pc, vsize(t) == tlen)
        tb = varint_bytes(t)[:tlen]
        exp += [(z3.BitVecVal(i, 32), pr, by) for i, (pr, by) in enumerate(tb)]
    exp += [(z3.simplify(tn + i), pr, by) for i, (pr, by) in enumerate(pb)]
    tot = tn + pn
    j = z3.BitVec('j', 32)
    for st, r in rs:
        r = ret32(r)
        P.prove(f'{fn}: ensures success iff the encoding fits, BUFFER_FULL otherwise', st.pc, r == z3.If(z3.ULE(tot, c.R), b32(0), b32(2)))
        P.prove(f'{fn}: ensures exactly the wire bytes are appended', st.pc, z3.Implies(r == 0, z3.And(st.gh['used'] == tot, *[
            z3.Implies(b_(pr), z3.Select(st.gh['arr'], c.len0 + o) == by) for o, pr, by in exp])))
        P.prove(f'{fn}: ensures the bytes before are unchanged', st.pc, z3.Implies(z3.ULT(j, c.len0), z3.Select(st.gh['arr'], j) == z3.Select(c.A0, j)))
    res.functions += list(c.ex.called)


def pure_task(build, res, fn, widths, spec, what, merge=True):
    """a function of values only: result == spec(args)"""
    c = Ctx(build.ir('scalar'))
    st = State()
    vs = [z3.BitVec(f'v{i}', w) for i, w in enumerate(widths)]
    rs = c.calln(st, fn, *vs)
    P = Prover(c, res)
    P.safety()
    for st, r in rs:
        e = spec(*vs)
        if isinstance(r, bool) or (is_sym(r) and z3.is_bool(r)):
            P.prove(f'{fn}: ensures {what}', st.pc, b_(r) == e)
        else:
            P.prove(f'{fn}: ensures {what}', st.pc, bv(r, e.size()) == e)
    res.functions += list(c.ex.called)


def zz_task(build, res):
    pure_task(build, res, 'w_zz32', [32], lambda v: (v << 1) ^ (v >> 31), 'zig-zag encoding')
    pure_task(build, res, 'w_zz64', [64], lambda v: (v << 1) ^ (v >> 63), 'zig-zag encoding')
    pure_task(build, res, 'w_uzz32', [32], lambda v: z3.LShR(v, 1) ^ (-(v & 1)), 'zig-zag decoding')
    pure_task(build, res, 'w_uzz64', [64], lambda v: z3.LShR(v, 1) ^ (-(v & 1)), 'zig-zag decoding')
    c = Ctx(build.ir('scalar'))
    for w in (32, 64):      # lemma: decoding inverts encoding
        st = State()
        v = z3.BitVec('v', w)
        st, e = c.call1(st, f'w_zz{w}', v)
        st, d = c.call1(st, f'w_uzz{w}', e)
        P = Prover(c, res)
        P.prove(f'lemma: ZigZagDecode(ZigZagEncode(v)) == v, {w} bit', st.pc, d == v)
    st = State()
    i, wt = z3.BitVec('id', 32), z3.BitVec('wt', 32)
    st.assume(z3.ULE(wt, 5))
    st, r = c.call1(st, 'w_mktag', i, wt)
    P = Prover(c, res)
    P.safety()
    P.prove('MakeTag: ensures (id << 3) | type', st.pc, r == ((i << 3) | wt))
    res.functions += list(c.ex.called)


# ---- decoders
def dec_task(build, res, fn, kind, wide=None):
    c = Ctx(build.ir('scalar'))
    c.ex.nomerge = True
    c.ex.max_states = 4000
    st = State()
    st, p = c.reader(st)
    w = SC[kind][0]
    v = z3.BitVec('v', w)
    vo = Ptr(c.ex.new_obj(st, 'v', w // 8), 0)
    c.ex.store(st, vo, ('i', w), v)
    rs = c.calln(st, fn, vo, p)
    P = Prover(c, res)
    P.safety()
    E, N, V = decode_spec(kind, c.pos0, c.lim, wide)
    for st, r in rs:
        r = ret32(r)
        P.prove(f'{fn}: ensures the error code', st.pc, r == E)
        P.prove(f'{fn}: ensures exactly the bytes of the encoding are consumed', st.pc, b32(st.gh['pos']) == c.pos0 + N)
        P.prove(f'{fn}: ensures the value of the wire format, unchanged on error', st.pc, bv(c.ex.load(st, vo, ('i', w)), w) == z3.If(E == 0, V, norm(kind, v)))
    res.functions += list(c.ex.called)


def deschk_task(build, res, kind):
    fn = f's_{kind}_deschk'
    c = Ctx(build.ir('scalar'))
    c.ex.nomerge = True
    c.ex.max_states = 4000
    st = State()
    st, p = c.reader(st)
    w = SC[kind][0]
    v, wt = z3.BitVec('v', w), z3.BitVec('wt', 32)
    vo = Ptr(c.ex.new_obj(st, 'v', w // 8), 0)
    c.ex.store(st, vo, ('i', w), v)
    rs = c.calln(st, fn, vo, p, wt)
    P = Prover(c, res)
    P.safety()
    E, N, V = decode_spec(kind, c.pos0, c.lim)
    bad = wt != SC[kind][1]
    for st, r in rs:
        r = ret32(r)
        P.prove(f'{fn}: ensures INVALID_WIRETYPE iff the wire type differs, else the error of the decoding', st.pc, r == z3.If(bad, b32(3), E))
        P.prove(f'{fn}: ensures the bytes consumed', st.pc, b32(st.gh['pos']) == c.pos0 + z3.If(bad, b32(0), N))
        P.prove(f'{fn}: ensures the value', st.pc, bv(c.ex.load(st, vo, ('i', w)), w) == z3.If(z3.And(z3.Not(bad), E == 0), V, norm(kind, v)))
    res.functions += list(c.ex.called)


def tag_task(build, res):
    c = Ctx(build.ir('scalar'))
    c.ex.nomerge = True
    st = State()
    st, p = c.reader(st)
    wt, ident = z3.BitVec('wt', 32), z3.BitVec('id', 32)
    a, b = Ptr(c.ex.new_obj(st, 'wt', 4), 0), Ptr(c.ex.new_obj(st, 'id', 4), 0)
    c.ex.store(st, a, ('i', 32), wt)
    c.ex.store(st, b, ('i', 32), ident)
    rs = c.calln(st, 'w_tag', a, b, p)
    P = Prover(c, res)
    P.safety()
    E, N, V = varint_spec(c.pos0, c.lim, 32)
    t = V & 7
    err = z3.If(E != 0, E, z3.If(z3.UGT(t, 5), b32(3), b32(0)))
    for st, r in rs:
        P.prove('DeserializeTag: ensures the error code', st.pc, ret32(r) == err)
        P.prove('DeserializeTag: ensures the bytes consumed', st.pc, b32(st.gh['pos']) == c.pos0 + N)
        P.prove('DeserializeTag: ensures field number and wire type', st.pc, z3.Implies(err == 0, z3.And(
            b32(c.ex.load(st, a, ('i', 32))) == t, b32(c.ex.load(st, b, ('i', 32))) == z3.LShR(V, 3))))
    res.functions += list(c.ex.called)


def facts_task(build, res):
    """the facts about varints used at message level follow from the definition"""
    c = Ctx(build.ir('scalar'))
    P = Prover(c, res)
    pos, lim = z3.BitVecs('pos lim', 32)
    E3, N3, V3 = varint_spec(pos, lim, 32)
    E6, N6, V6 = varint_spec(pos, lim, 64)
    subs = [(VE[32](pos, lim), E3), (VN[32](pos, lim), N3), (VV[32](pos, lim), V3), (VE[64](pos, lim), E6), (VN[64](pos, lim), N6), (VV[64](pos, lim), V6)]
    for i, f in enumerate(varint_facts(pos, lim)):
        P.prove(f'lemma: varint fact {i}', (z3.ULE(pos, lim),), z3.substitute(f, *subs))
    # the facts ghost.py adds when bytes are consumed, and the range of the varint size
    n, sz, lim2 = z3.BitVecs('n sz lim2', 32)
    pre = (z3.ULE(pos, lim), z3.ULE(n, lim - pos))
    P.prove('lemma: pos <= lim, n <= lim - pos: pos <= pos + n <= lim', pre, z3.And(z3.ULE(pos, pos + n), z3.ULE(pos + n, lim)))
    P.prove('lemma: sz >= lim2 - pos, n <= lim - pos, lim <= lim2: sz - n >= lim2 - (pos + n)',
            pre + (z3.ULE(lim, lim2), z3.UGE(sz, lim2 - pos)), z3.UGE(sz - n, lim2 - (pos + n)))
    for w, k in ((32, 5), (64, 10)):
        v = z3.BitVec(f'v{w}', w)
        P.prove(f'lemma: a varint of {w} bit has 1 to {k} bytes', (), z3.And(z3.UGE(vsize(v), 1), z3.ULE(vsize(v), k)))
        P.prove(f'lemma: the bytes of a varint of {w} bit are as many as its size', (),
                vsize(v) == sum([z3.If(p_, b32(1), b32(0)) if p_ is not True else b32(1) for p_, _ in varint_bytes(v)]))


# ---- round trip
def rt_task(build, res, kind):
    """the real encoder followed by the real decoder on its output"""
    c = Ctx(build.ir('scalar'))
    c.ex.nomerge = True
    c.ex.max_states = 4000
    st = State()
    st, wp = c.writer(st)
    w = SC[kind][0]
    v = z3.BitVec('v', w)
    st.assume(z3.UGE(c.R, 16))
    P = Prover(c, res)
    n_ok = 0
    lim = z3.BitVec('lim', 32)
    for st1, r in c.calln(st, f's_{kind}_ser', v, wp):
        P.prove(f's_{kind}: encoding succeeds with 16 bytes of room', st1.pc, ret32(r) == 0)
        st1, rp = c.reader(st1, pos=c.len0, lim=lim)
        used = st1.gh['used']
        st1.assume(lim == c.len0 + used)
        for i in range(11):
            st1.assume(z3.Implies(z3.ULT(i, used), D(c.len0 + i) == z3.Select(st1.gh['arr'], c.len0 + i)))
        old = z3.BitVec('old', w)
        vo = Ptr(c.ex.new_obj(st1, 'v', w // 8), 0)
        c.ex.store(st1, vo, ('i', w), old)
        for st2, r2 in c.calln(st1, f's_{kind}_des', vo, rp):
            n_ok += 1
            P.prove(f's_{kind}: decoding the encoding succeeds', st2.pc, ret32(r2) == 0)
            P.prove(f's_{kind}: decoding the encoding consumes all of it', st2.pc, b32(st2.gh['pos']) == lim)
            P.prove(f's_{kind}: decode(encode(v)) == v', st2.pc, bv(c.ex.load(st2, vo, ('i', w)), w) == norm(kind, v))
    P.safety()
    P.prove(f's_{kind}: some path decodes (not vacuous)', (), z3.BoolVal(n_ok > 0))
    res.functions += list(c.ex.called)


# ---- accessors and comparison of a scalar field
def acc_task(build, res, kind):
    w = SC[kind][0]
    n = lambda v: norm(kind, v)
    pure_task(build, res, f's_{kind}_clear', [w], lambda v: z3.BitVecVal(0, w), 'clear gives the default value')
    for f in ('set', 'setr', 'asg', 'asgv'):
        pure_task(build, res, f's_{kind}_{f}', [w, w], lambda v, v2: n(v2), 'holds the value assigned')
    pure_task(build, res, f's_{kind}_copy', [w], lambda v: n(v), 'the copy holds the value')
    if kind == 'enum':
        lt, eq = (lambda a, b: z3.ULT(a, b)), (lambda a, b: a == b)
    elif kind in ('float', 'double'):
        S_ = z3.Float32() if kind == 'float' else z3.Float64()
        fp = lambda a: z3.fpBVToFP(a, S_)
        lt, eq = (lambda a, b: z3.fpLT(fp(a), fp(b))), (lambda a, b: z3.fpEQ(fp(a), fp(b)))
    elif kind in ('bool', 'uint32', 'uint64', 'fixed32', 'fixed64'):
        lt, eq = (lambda a, b: z3.ULT(n(a), n(b))), (lambda a, b: n(a) == n(b))
    else:
        lt, eq = (lambda a, b: a < b), (lambda a, b: a == b)

    def spec(a, b):
        bits = [eq(a, b), z3.Not(eq(a, b)), lt(a, b), lt(b, a), z3.Or(lt(a, b), eq(a, b)), z3.Or(lt(b, a), eq(a, b))]
        r = z3.BitVecVal(0, 32)
        for i, x in enumerate(bits):
            r = r | z3.If(x, z3.BitVecVal(1 << i, 32), z3.BitVecVal(0, 32))
        return r
    for f in ('cmp', 'cmpf'):
        pure_task(build, res, f's_{kind}_{f}', [w, w], spec, 'the comparison operators agree with the values')


def size_task(build, res, kind):
    w = SC[kind][0]
    c = Ctx(build.ir('scalar'))
    c.ex.nomerge = True
    st = State()
    v = z3.BitVec('v', w)
    P = Prover(c, res)
    for st1, r in c.calln(st, f's_{kind}_size', v):
        P.prove(f's_{kind}_size: ensures the number of bytes of the encoding', st1.pc, ret32(r) == payload(kind, v)[1])
    P.safety()
    res.functions += list(c.ex.called)


ENC_WIRE = [('w_int32', 'int32'), ('w_int64', 'int64'), ('w_uint32', 'uint32'), ('w_uint64', 'uint64'), ('w_sint32', 'sint32'), ('w_sint64', 'sint64'),
            ('w_fixed32', 'fixed32'), ('w_fixed64', 'fixed64'), ('w_sfixed32', 'sfixed32'), ('w_sfixed64', 'sfixed64'), ('w_float', 'float'),
            ('w_double', 'double'), ('w_bool', 'bool'), ('w_enum', 'enum')]


def tasks(prop):
    T = []
    if prop == 'C01':
        for k in SC:
            T.append(('enc', (f's_{k}_ser', k, None)))
            T.append(('enc', (f's_{k}_serid', k, 'field')))
        for fn, k in ENC_WIRE:
            T.append(('enc', (fn, k, 'wire')))
        T += [('enc', ('w_varint32', 'uint32', None)), ('enc', ('w_varint64', 'uint64', None)), ('zz', ())]
    elif prop == 'C02':
        for k in SC:
            T.append(('dec', (f's_{k}_des', k)))
            T.append(('deschk', (k,)))
        T += [('dec', ('w_dvarint32', 'uint32')), ('dec', ('w_dvarint64', 'uint64')), ('dec', ('w_denum', 'enum', 64)), ('tag', ()), ('facts', ()), ('zz', ())]
    elif prop == 'C03':
        T += [('rt', (k,)) for k in SC] + [('zz', ())]
    elif prop == 'acc':
        T += [('acc', (k,)) for k in SC]
    elif prop == 'size':
        T += [('size', (k,)) for k in SC]
    elif prop == 'varint':      # the contracts the message level proofs rely on
        T += [('enc', ('w_varint32', 'uint32', None)), ('enc', ('w_varint64', 'uint64', None)), ('dec', ('w_dvarint32', 'uint32')), ('dec', ('w_dvarint64', 'uint64')), ('facts', ())]
    return [('vf.t_scalar', f + '_task', a, ('scalar',)) for f, a in T]
