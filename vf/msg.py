"""Message states, observers and the contracts (specifications) of generated messages.

A message is observed only through its public accessors.  `tree` is the observed value:
  plain scalar            BV
  optional / oneof scalar (has, BV)
  string, bytes           (len, [BV8 ...])
  repeated scalar         (len, [BV ...])
  repeated string         (len, [(len, [BV8 ...]) ...])
  message                 tree
  repeated message        (len, [tree ...])
  optional X              (has, X)
  oneof member            (has, X or None)   X only for the member that is set
"""
import z3
from .ghost import *
from .sym import State, Ptr, GPtr, FnPtr, bv, b_, simp, is_sym, fresh_name, Region
from .irparse import Unsupported
from .zoo import SC
from .t_scalar import wire_value, norm


def N32(v):
    return z3.BitVecVal(v, 32)


# ------------------------------------------------------------------ states
def construct(c, st, m, case, name='msg'):
    """default constructed message with the given oneof members set (case: {oneof: field or None})"""
    p = c.new(st, m.id, name)
    st, _ = c.call1(st, m.id + '__ctor', p)
    return activate(c, st, m, p, case), p


def activate(c, st, m, p, case):
    for on, f in case.items():
        if f is None:
            continue
        P = f'{m.id}_{f.name}_'
        if f.scalar:
            st, _ = c.call1(st, P + 'set', p, z3.BitVec(fresh_name('act'), f.w))
        elif f.kind == 'msg':
            st, q = c.call1(st, P + 'mut', p)
        else:
            st, _ = c.call1(st, P + 'mclear', p)
    return st


def havoc(c, st, p, n, tag):
    """every data cell of the n bytes at p becomes an unconstrained value"""
    o = st.wobj(p.obj)
    if o.regions:
        raise Unsupported('message with a large array')
    for k, (w, v) in list(o.cells.items()):
        if p.off <= k < p.off + n and not isinstance(v, (Ptr, GPtr, FnPtr)):
            o.cells[k] = (w, z3.BitVec(f'{tag}_{k}', 8 * w))


def keep_which(c, st, m, p, case):
    """re-establish which member is set after havoc: assume it, and make it concrete where possible"""
    for on, f in case.items():
        st, w = c.call1(st, f'{m.id}__which_{on}', p)
        want = 0 if f is None else f.num
        st.assume(b32(w) == want)
        if is_sym(w) and z3.is_const(w):
            o = st.wobj(p.obj)
            for k, (n, v) in list(o.cells.items()):
                if is_sym(v) and v.eq(w):
                    o.cells[k] = (n, want)
    return st


def nested_cases(m):
    """oneof cases of messages inside m are fixed to their first member (they are varied in the task of that message)"""
    return {on: l[0] for on, l in m.oneofs.items()}


def sub(c, st, f, m, p, case):
    """[(nested message, pointer)] of all the messages stored in field f"""
    P = f'{m.id}_{f.name}_'
    out = []
    if f.kind == 'msg':
        if f.rep:
            for i in range(f.N):
                st, q = c.call1(st, P + 'ptr', p, i)
                out.append(q)
        else:
            st, q = c.call1(st, P + 'ptr', p)
            out.append(q)
    return st, out


def members(m, case):
    """fields that can be observed in this case"""
    act = {f.name for f in case.values() if f is not None}
    return [f for f in m.fields if f.label != 'oneof' or f.name in act]


def arbitrary(c, st, m, case, tag='m', name='msg'):
    """a message in an arbitrary state with the given members set.  Returns state, pointer"""
    st, p = construct(c, st, m, case, name)

    def deep_activate(st, m, p, case):
        for f in members(m, case):
            st, qs = sub(c, st, f, m, p, case)
            for q in qs:
                cs = nested_cases(f.typ)
                st = activate(c, st, f.typ, q, cs)
                st = deep_activate(st, f.typ, q, cs)
        return st
    st = deep_activate(st, m, p, case)
    c.ex.obls.clear()
    havoc(c, st, p, st.mem[p.obj].size, tag)
    st = invariant(c, st, m, p, case)
    return st, p


def invariant(c, st, m, p, case):
    """assume the representation invariant, stated with the public observers: lengths within capacity"""
    st = keep_which(c, st, m, p, case)
    for f in members(m, case):
        P = f'{m.id}_{f.name}_'
        if f.rep or f.kind in ('string', 'bytes'):
            st, n = c.call1(st, P + 'len', p)
            st.assume(z3.ULE(b32(n), f.N if f.rep else f.SL))
        if f.rep and f.kind in ('string', 'bytes'):
            for i in range(f.N):
                st, n = c.call1(st, P + 'elen', p, i)
                st.assume(z3.ULE(b32(n), f.SL))
        if f.kind == 'msg':
            st, qs = sub(c, st, f, m, p, case)
            for q in qs:
                st = invariant(c, st, f.typ, q, nested_cases(f.typ))
    return st


# ------------------------------------------------------------------ observation
def observe(c, st, m, p, case, nc=nested_cases):
    """(state, tree); only the members set in `case` (nc: in nested messages) are read"""
    t = {}
    act = {f.name for f in case.values() if f is not None}
    for f in m.fields:
        P = f'{m.id}_{f.name}_'
        if f.label == 'oneof' and f.name not in act:
            st, h = c.call1(st, P + 'has', p)
            t[f.name] = (b_(h), None)
            continue
        st, v = observe_field(c, st, m, f, p, nc)
        if f.presence:
            st, h = c.call1(st, P + 'has', p)
            v = (b_(h), v)
        t[f.name] = v
    for on in m.oneofs:
        st, w = c.call1(st, f'{m.id}__which_{on}', p)
        t['?' + on] = b32(w)
    return st, t


def observe_field(c, st, m, f, p, nc=nested_cases):
    P = f'{m.id}_{f.name}_'
    if f.rep:
        st, n = c.call1(st, P + 'len', p)
        el = []
        for i in range(f.N):
            if f.scalar:
                st, v = c.call1(st, P + 'at', p, i)
                v = bv(v, f.w)
            elif f.kind == 'msg':
                st, q = c.call1(st, P + 'ptr', p, i)
                st, v = observe(c, st, f.typ, q, nc(f.typ), nc)
            else:
                st, ln = c.call1(st, P + 'elen', p, i)
                bs = []
                for j in range(f.SL):
                    st, b = c.call1(st, P + 'eat', p, i, j)
                    bs.append(bv(b, 8))
                v = (b32(ln), bs)
            el.append(v)
        return st, (b32(n), el)
    if f.scalar:
        st, v = c.call1(st, P + 'get', p)
        return st, bv(v, f.w)
    if f.kind == 'msg':
        st, q = c.call1(st, P + 'ptr', p)
        return observe(c, st, f.typ, q, nc(f.typ), nc)
    st, ln = c.call1(st, P + 'len', p)
    bs = []
    for j in range(f.SL):
        st, b = c.call1(st, P + 'at', p, j)
        bs.append(bv(b, 8))
    return st, (b32(ln), bs)


def feq(f, a, b):
    """list of (what, condition): the observed values of field f are equal"""
    if f.presence:
        (h1, x), (h2, y) = a, b
        out = [('presence', h1 == h2)]
        if x is not None and y is not None:
            out += [(w, z3.Implies(h1, k)) for w, k in veq1(f, x, y)]
        return out
    return veq1(f, a, b)


def veq1(f, a, b):
    if f.rep:
        out = [('length', a[0] == b[0])]
        for i, (x, y) in enumerate(zip(a[1], b[1])):
            for w, k in veq2(f, x, y):
                out.append((f'element {i} {w}', z3.Implies(z3.UGT(a[0], i), k)))
        return out
    return veq2(f, a, b)


def veq2(f, a, b):
    if f.scalar:
        return [('value', a == b)]
    if f.kind == 'msg':
        return teq(f.typ, a, b)
    return [('length', a[0] == b[0])] + [(f'byte {j}', z3.Implies(z3.UGT(a[0], j), x == y)) for j, (x, y) in enumerate(zip(a[1], b[1]))]


def teq(m, a, b, skip=()):
    out = []
    for f in m.fields:
        if f.name in skip:
            continue
        out += [(f'{f.name} {w}', k) for w, k in feq(f, a[f.name], b[f.name])]
    for on in m.oneofs:
        if '?' + on not in skip:
            out.append((f'which {on}', a['?' + on] == b['?' + on]))
    return out


# ------------------------------------------------------------------ default values
def dflt(f):
    """cleared value of a field, without presence"""
    if f.rep:
        return (N32(0), [zero(f) for _ in range(f.N)])
    return zero(f)


def zero(f):
    if f.scalar:
        return z3.BitVecVal(0, f.w)
    if f.kind == 'msg':
        return dtree(f.typ)
    return (N32(0), [z3.BitVecVal(0, 8)] * f.SL)


def dtree(m):
    t = {}
    for f in m.fields:
        v = dflt(f)
        if f.label == 'oneof':
            v = (z3.BoolVal(False), None)
        elif f.label == 'optional':
            v = (z3.BoolVal(False), v)
        t[f.name] = v
    for on in m.oneofs:
        t['?' + on] = N32(0)
    return t


# ------------------------------------------------------------------ contracts of the nested messages
AM = z3.Function('am', S, z3.BitVecSort(32), S)      # stream followed by the encoding of a message


class Abs:
    """a nested message known only by its contract: size and encoding are unconstrained"""

    def __init__(self, key, sz):
        self.key, self.sz = key, sz


def vfuncs(c, st, p):
    """names of the virtual functions of the object at p"""
    o = st.mem[p.obj]
    vt = o.cells.get(p.off)
    if vt is None or not isinstance(vt[1], Ptr) or vt[1].obj is None:
        return []
    return [v.name for _, v in st.mem[vt[1].obj].cells.values() if isinstance(v, FnPtr)]


def vfind(c, st, p, suffix):
    l = [n for n in vfuncs(c, st, p) if n.endswith(suffix)]
    return l[0] if len(l) == 1 else None


SER = '9serializeERN13EmbeddedProto20WriteBufferInterfaceE'
DES = '11deserializeERN13EmbeddedProto19ReadBufferInterfaceE'
SER1 = '9serializeERNS_20WriteBufferInterfaceE'


def snapshot(st, p, n):
    o = st.mem[p.obj]
    return {k: v for k, v in o.cells.items() if p.off <= k < p.off + n}


def same_snapshot(st, p, snap):
    from .sym import veq
    o = st.mem[p.obj]
    return all(k in o.cells and o.cells[k][0] == w and veq(o.cells[k][1], v) for k, (w, v) in snap.items())


def abstract(c, st, m, p, case, t):
    """replace the nested messages of tree t by their contracts, and install the contract of their serialize"""
    t = dict(t)
    cells = {}
    for f in members(m, case):
        if f.kind != 'msg':
            continue
        st, qs = sub(c, st, f, m, p, case)
        ab = []
        for q in qs:
            a = Abs(N32(q.off), z3.BitVec(f'size_{f.name}_{q.off}', 32))
            st.assume(z3.ULE(a.sz, 1 << 30))
            n = c.call1(st, f.typ.id + '__sizeof')[1]
            cells[(q.obj, q.off)] = (a, snapshot(st, q, n))
            fn = vfind(c, st, q, SER)
            if fn is not None and fn not in c.hooks:
                c.hooks[fn] = ser_contract(c, cells, c.hooks.get(fn))
            ab.append(a)
        v = t[f.name]
        if f.rep:
            v = (v[0], ab)
        elif f.presence:
            v = (v[0], ab[0])
        else:
            v = ab[0]
        t[f.name] = v
    return st, t


def ser_contract(c, cells, prev):
    def h(ex, st, a, where):
        this, buf = a
        if not (isinstance(this, Ptr) and isinstance(buf, Ptr)) or this.sym or (this.obj, this.off) not in cells:
            return None
        ab, snap = cells[(this.obj, this.off)]
        if not same_snapshot(st, this, snap):
            return None
        if buf.obj == getattr(c, 'wobj', None):
            used = st.gh['used']
            ok = c.accept(st, ab.sz, where)
            s1 = z3.If(ab.sz == 0, st.gh['S'], AM(st.gh['S'], ab.key))
            if ok is True:
                st.gh['S'] = s1
                st.gh['used'] = b32(simp(used + ab.sz))
                return [(st, 0)]
            st.gh['S'] = z3.If(b_(ok), s1, z3.Const(fresh_name('Sfail'), S))
            st.gh['used'] = z3.If(b_(ok), used + ab.sz, c.R)
            return [(st, z3.If(b_(ok), N32(0), N32(2)))]
        if c.calc and c.vtable_of(st, buf) == c.calc[0]:
            o = st.wobj(buf.obj)
            k = o.cells.get(buf.off + c.calc[1])
            if k is None or k[0] != 4:
                return None
            o.cells[buf.off + c.calc[1]] = (4, simp(b32(k[1]) + ab.sz))
            return [(st, 0)]
        return None
    return h


# ------------------------------------------------------------------ specification of serialization
class Enc:
    """what the encoding appends: stream term and size"""
    __slots__ = ('S', 'n')

    def __init__(self, S, n):
        self.S, self.n = S, n


EX = [None]     # executor that receives the range facts of the varint lengths


def enc_varint(e, v, cond=None):
    return Enc(app_varint(e.S, v), e.n + b32(vsize_uf(v, EX[0])))


def enc_bytes(e, bs):
    s = e.S
    for b in bs:
        s = AB(s, b)
    return Enc(s, e.n + len(bs))


def sel(cond, a, b):
    if z3.is_true(cond):
        return a
    if z3.is_false(cond):
        return b
    return Enc(z3.If(cond, a.S, b.S), z3.If(cond, a.n, b.n))


def enc_scalar(e, f, v):
    """payload of a scalar"""
    if f.kind == 'bool':
        return Enc(app_varint(e.S, z3.ZeroExt(31, z3.Extract(0, 0, v))), e.n + 1)
    if SC[f.kind][1] == 0:
        return enc_varint(e, wire_value(f.kind, v))
    n = f.w // 8
    return enc_bytes(e, [z3.Extract(8 * i + 7, 8 * i, v) for i in range(n)])


def size_scalar(f, v):
    return z3.simplify(enc_scalar(Enc(z3.Const('S_any', S), N32(0)), f, v).n)


def fp_zero(kind, v):
    if kind in ('float', 'double'):
        return (v << 1) == 0
    return v == 0


def tag(e, f, wt=None):
    t = (f.num << 3) | (f.wt if wt is None else wt)
    return Enc(app_varint(e.S, t), e.n + vsize(t))


def enc_data(e, ln, bs):
    """length bytes of a string: the first ln of bs"""
    s = e.S
    for j, b in enumerate(bs):
        s = z3.If(z3.UGT(ln, j), AB(s, b), s)
    return Enc(s, e.n + ln)


def enc_field(e, m, f, v):
    """the whole record(s) of a field; v without presence; presence handled by the caller"""
    force = f.presence
    if f.rep:
        ln, el = v
        if f.scalar:
            tot = N32(0)
            for i, x in enumerate(el):
                tot = z3.If(z3.UGT(ln, i), tot + size_scalar(f, x), tot)
            r = enc_varint(tag(e, f), tot)
            for i, x in enumerate(el):
                r = sel(z3.UGT(ln, i), enc_scalar(r, f, x), r)
            return sel(tot != 0, r, e)
        r = e
        for i, x in enumerate(el):
            if f.kind == 'msg':
                n = enc_msg(Enc(z3.Const('S_any', S), N32(0)), f.typ, x).n
                k = enc_msg(enc_varint(tag(r, f), n), f.typ, x)
            else:
                k = enc_data(enc_varint(tag(r, f), x[0]), x[0], x[1])
            r = sel(z3.UGT(ln, i), k, r)
        return r
    if f.scalar:
        r = enc_scalar(tag(e, f), f, v)
        return r if force else sel(z3.Not(fp_zero(f.kind, v)), r, e)
    if f.kind == 'msg':
        n = enc_msg(Enc(z3.Const('S_any', S), N32(0)), f.typ, v).n
        r = enc_msg(enc_varint(tag(e, f), n), f.typ, v)
        return r if force else sel(n != 0, r, e)
    r = enc_data(enc_varint(tag(e, f), v[0]), v[0], v[1])
    return r if force else sel(v[0] != 0, r, e)


def enc_msg(e, m, t):
    if isinstance(t, Abs):
        return Enc(z3.If(t.sz == 0, e.S, AM(e.S, t.key)), e.n + t.sz)
    for f in m.order:
        v = t[f.name]
        if f.presence:
            h, v = v
            if v is None:
                continue
            e = sel(z3.simplify(h), enc_field(e, m, f, v), e)
        else:
            e = enc_field(e, m, f, v)
    return e


def enc_steps(e, m, t):
    """the encodings after each field, for the lemmas"""
    out = [e]
    for f in m.order:
        v = t[f.name]
        if f.presence:
            h, v = v
            if v is None:
                continue
            e = sel(z3.simplify(h), enc_field(e, m, f, v), e)
        else:
            e = enc_field(e, m, f, v)
        out.append(e)
    return out


def cases(m):
    """all combinations of oneof members"""
    out = [{}]
    for on, l in m.oneofs.items():
        out = [dict(c, **{on: f}) for c in out for f in [None] + l]
    return out


def few_cases(m):
    """each member of each oneof at least once, the others unset"""
    if not m.oneofs:
        return [{}]
    out = [{on: None for on in m.oneofs}]
    for on, l in m.oneofs.items():
        for f in l:
            c = {o: None for o in m.oneofs}
            c[on] = f
            out.append(c)
    if len(m.oneofs) > 1:
        out.append({on: l[-1] for on, l in m.oneofs.items()})
    return out
