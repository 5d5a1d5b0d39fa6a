"""Contracts of the accessors, of copying and of clearing (C08, C09, C14, C15).

Every function is started in an arbitrary state of the message (all data unconstrained but for the
representation invariant); its postcondition gives the new observed value of the field it is about and
says that all other fields are as before."""
import z3
from .ghost import *
from .msg import *
from .prove import Prover
from .sym import Dead, NULL
from . import t_des
from .t_buffers import source, zx64
from .t_ser import Z, UNITS, find, msgs, case_of, names_of, done

OK, ARRAY_FULL, INDEX = 0, 4, 7
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


def unset(m):
    return {on: None for on in m.oneofs}


def strncpy(c):
    """assumed contract of the C library: at most n characters, zero padded, nothing read after the terminator"""
    def h(ex, st, a, where):
        d, s, n = a
        if isinstance(n, int):
            mx = n
        else:
            mx = ex.max_of(st, n, 64)
            if mx is None:
                return None
        n = bv(n, 64)
        ended = FALSE
        tmp = []
        for k in range(mx):
            more = z3.UGT(n, k)
            rd = z3.simplify(z3.And(more, z3.Not(ended)))
            if z3.is_false(rd):
                b = z3.BitVecVal(0, 8)
            else:
                s2 = st.fork()
                s2.assume(rd)
                if not ex.feasible(s2):
                    b = z3.BitVecVal(0, 8)
                else:
                    b = bv(ex.load(s2, Ptr(s.obj, s.off + k, s.sym, s.bnd), ('i', 8), where), 8)
                    b = z3.If(ended, z3.BitVecVal(0, 8), b)
            ended = z3.Or(ended, b == 0)
            s2 = st.fork()
            s2.assume(more)
            if not ex.feasible(s2):
                continue
            dp = Ptr(d.obj, d.off + k, d.sym, d.bnd)
            ex.oblige(s2, 'memory: strncpy stays inside its destination', ex_inside(ex, s2, dp), where)
            old = bv(ex.load(st, dp, ('i', 8), where), 8)
            ex.store(st, dp, ('i', 8), z3.simplify(z3.If(more, b, old)))
        ex.used_contracts['strncpy (C library, assumed)'] = 1
        return [(st, d)]
    return h


def ex_inside(ex, st, p):
    o = st.mem[p.obj]
    sz = o.size if isinstance(o.size, int) else None
    return sz is not None and not p.sym and 0 <= p.off < sz


def start(build, res, unit, mid, names):
    m = find(unit, mid)
    case = case_of(m, names)
    c = Ctx(build.ir(unit))
    c.hooks['@strncpy'] = strncpy(c)
    P = Prover(c, res)
    st = State()
    st, p = arbitrary(c, st, m, case)
    st, t0 = observe(c, st, m, p, case)
    c.ex.obls.clear()
    T = f'{mid}' + (f'[{",".join(str(n) for _, n in names)}]' if names else '')
    return m, case, c, P, st, p, t0, T


class Acc:
    """one field of one message in one case"""

    def __init__(self, build, res, unit, mid, names, fname):
        self.m, self.case, self.c, self.P, self.st0, self.p, self.t0, self.T = start(build, res, unit, mid, names)
        self.f = self.m.byname(fname)
        self.pre = f'{mid}_{fname}_'
        f = self.f
        self.active = f.label != 'oneof' or self.case[f.oneof] is f
        v = self.t0[fname]
        if f.label == 'oneof':
            self.cur = v[1] if self.active else zero(f)
        elif f.presence:
            self.cur = v[1]
        else:
            self.cur = v

    def call(self, fn, *a, st=None):
        st = (self.st0 if st is None else st).fork()
        self.nm = f'{self.T}.{self.f.name} {fn}'
        st, r = self.c.call1(st, self.pre + fn, self.p, *a)
        self.P.safety()
        return st, r

    def touched(self):
        """expected tree and case after the field was set or mutably accessed"""
        f = self.f
        e = dict(self.t0)
        case = dict(self.case)
        if f.label == 'oneof':
            for g in self.m.oneofs[f.oneof]:
                e[g.name] = (FALSE, None)
            e['?' + f.oneof] = N32(f.num)
            case[f.oneof] = f
        return e, case

    def put(self, e, v):
        e[self.f.name] = (TRUE, v) if self.f.presence else v

    def get(self, st, case, nc=nested_cases):
        st, t = observe(self.c, st, self.m, self.p, case, nc)
        self.P.safety()
        return st, t

    def val(self, t):
        v = t[self.f.name]
        return v[1] if self.f.presence else v

    def same(self, st, exp, got, what=''):
        for w, k in teq(self.m, exp, got):
            self.P.prove(f'{self.nm}{what}: {w} afterwards', st.pc, k)

    def unchanged(self, st):
        st, t = self.get(st, self.case)
        self.same(st, self.t0, t, ' changes nothing')
        if self.f.label == 'optional':
            for w, k in veq1(self.f, self.t0[self.f.name][1], t[self.f.name][1]):
                self.P.prove(f'{self.nm} changes nothing: {w}', st.pc, k)
        return st

    def set_to(self, st, v):
        """postcondition of an operation that makes the field v"""
        e, case = self.touched()
        self.put(e, v)
        st, t = self.get(st, case)
        self.same(st, e, t)
        return st, t

    def eq(self, what, st, a, b):
        self.P.prove(f'{self.nm}: {what}', st.pc, a == b)

    # ---- clear_<field>()
    def clear(self):
        st, _ = self.call('clear')
        f = self.f
        e, case = dict(self.t0), dict(self.case)
        if f.label == 'oneof':
            if not self.active:
                return self.unchanged(st)
            e[f.name] = (FALSE, None)
            e['?' + f.oneof] = N32(0)
            case[f.oneof] = None
        elif f.label == 'optional':
            e[f.name] = (FALSE, dflt(f))
        else:
            e[f.name] = dflt(f)
        # other fields keep their nested cases, the cleared one has nothing set
        nc = unset if f.kind == 'msg' and f.typ.oneofs else nested_cases
        if nc is unset and any(g.kind == 'msg' and g is not f and g.typ.oneofs for g in self.m.fields):
            raise Unsupported('clear next to another message with a oneof')
        st, t = self.get(st, case, nc)
        self.same(st, e, t)
        if f.label == 'optional':
            for w, k in veq1(f, dflt(f), t[f.name][1]):
                self.P.prove(f'{self.nm}: cleared {w}', st.pc, k)

    # ---- scalars
    def scalar(self):
        f, w = self.f, self.f.w
        v = z3.BitVec('v', w)
        for k in ('set', 'set2') + (('mset',) if f.label != 'oneof' and f.kind != 'enum' else ()):
            st, _ = self.call(k, v)
            st, t = self.set_to(st, norm(f.kind, v))
            st, g = self.c.call1(st, self.pre + 'get2', self.p)
            self.eq('the other getter agrees', st, bv(g, w), norm(f.kind, v))
        if f.label != 'oneof' and f.kind != 'enum':
            st, r = self.call('mut')
            self.eq('gives the value', st, bv(r, w), self.cur)
            self.set_to(st, self.cur)
        if self.active:
            st, r = self.call('get2')
            self.eq('gives the value', st, bv(r, w), self.cur)
            self.unchanged(st)

    # ---- messages
    def other(self, st, typ, tag, cs=None):
        st = st.fork()
        cs = nested_cases(typ) if cs is None else cs
        st, q = arbitrary(self.c, st, typ, cs, tag, tag)
        st, t = observe(self.c, st, typ, q, cs)
        self.c.ex.obls.clear()
        return st, q, t

    def kept(self, st, typ, q, t, cs=None):
        st, t2 = observe(self.c, st, typ, q, nested_cases(typ) if cs is None else cs)
        for w, k in teq(typ, t, t2):
            self.P.prove(f'{self.nm} leaves its argument as it was: {w}', st.pc, k)

    def no_alias(self, st, q):
        bad = [k for k, (_, v) in st.mem[self.p.obj].cells.items() if isinstance(v, Ptr) and v.obj == q.obj]
        self.P.prove(f'{self.nm}: no storage is shared with the argument', (), z3.BoolVal(not bad))

    def message(self):
        f = self.f
        for k in ('set', 'set2'):
            st, q, tq = self.other(self.st0, f.typ, 'src')
            st, _ = self.call(k, q, st=st)
            st, _ = self.set_to(st, tq)
            self.kept(st, f.typ, q, tq)
            self.no_alias(st, q)
        st, r = self.call('mut')
        nc = nested_cases if self.active else unset
        e, case = self.touched()
        self.put(e, self.cur)
        s2, t = self.get(st, case, nc)
        self.same(s2, e, t)
        s2, g = self.c.call1(s2, self.pre + 'ptr', self.p)
        s2, h = self.c.call1(s2, self.pre + 'ptr2', self.p)
        self.P.prove(f'{self.nm}: both getters give the same object', s2.pc, z3.BoolVal(isinstance(r, Ptr) and r.same(g) and g.same(h)))
        if self.active:
            st, _ = self.call('ptr')
            self.unchanged(st)

    # ---- strings and bytes
    def blob(self, st, n, tag='D'):
        return source(self.c, st, tag, n)

    def chars(self, arr, n):
        return [z3.Select(arr, z3.BitVecVal(k, 64)) for k in range(n)]

    def string(self):
        f, c = self.f, self.c
        n = z3.BitVec('n', 32)
        i = z3.BitVec('i', 32)
        x = z3.BitVec('x', 8)
        ln, bs = self.cur
        for k in ('mset', 'set'):
            st = self.st0.fork()
            d, arr = self.blob(st, n)
            st, r = self.call(k, d, n, st=st)
            fits = z3.ULE(n, f.SL)
            self.eq('refused exactly when it is too long', st, b32(r), z3.If(fits, N32(OK), N32(ARRAY_FULL)))
            old = self.cur if k == 'mset' else zero(f)
            new = (z3.If(fits, n, old[0]), [z3.If(fits, a, b) for a, b in zip(self.chars(arr, f.SL), old[1])])
            self.set_to(st, new)
        # writing one element
        st, _ = self.call('mat', i, x)
        j = z3.If(z3.ULT(i, f.SL), i, N32(f.SL - 1))
        e, case = self.touched()
        st, t = self.get(st, case)
        got = self.val(t)
        nl = z3.If(z3.ULT(j, ln), ln, j + 1)
        nb = [z3.If(j == k, x, z3.If(z3.ULT(k, ln), b, g)) for k, (b, g) in enumerate(zip(bs, got[1]))]
        self.put(e, (nl, nb))
        self.same(st, e, t)
        st, _ = self.call('mclear')
        self.set_to(st, zero(f))
        # assignment from another field
        cs = dict(unset(self.m), **({f.oneof: f} if f.label == 'oneof' else {}))
        st, q, tq = self.other(self.st0, self.m, 'src', cs)
        st, _ = self.call('fset', q, st=st)
        v = tq[f.name][1] if f.presence else tq[f.name]
        self.set_to(st, v)
        self.kept(st, self.m, q, tq, cs)
        self.no_alias(st, q)
        if f.kind == 'string':
            st, _ = self.call('cset', NULL)
            self.set_to(st, zero(f))
            # a C string of any length: L characters that are not zero, then a zero
            L = z3.BitVec('L', 32)
            st = self.st0.fork()
            st.assume(z3.ULT(L, 0xffffffff))
            d, arr = self.blob(st, L + 1)
            ch = self.chars(arr, f.SL + 2)
            for k, b in enumerate(ch):
                st.assume(z3.Implies(z3.UGT(L, k), b != 0))
                st.assume(z3.Implies(L == k, b == 0))
            st, _ = self.call('cset', d, st=st)
            st, t = self.set_to(st, (z3.If(z3.ULT(L, f.SL), L, N32(f.SL)), ch[:f.SL]))
            if t_des.TERM:
                self.P.prove(f'{self.nm}: a zero follows a string that is shorter than its maximum', st.pc, t_des.terminated(self.val(t)))
        if self.active:
            st = self.st0.fork()
            o = Ptr(c.ex.new_obj(st, 'out', 1), 0)
            c.ex.store(st, o, ('i', 8), x)
            st, r = self.call('atc', i, o, st=st)
            inside = z3.ULT(i, ln)
            self.eq('reports an index outside', st, b32(r), z3.If(inside, N32(OK), N32(INDEX)))
            v = x
            for k, b in enumerate(bs):
                v = z3.If(z3.And(inside, i == k), b, v)
            self.eq('value', st, bv(c.ex.load(st, o, ('i', 8)), 8), v)
            self.unchanged(st)
            jj = z3.If(z3.ULT(i, f.SL), i, N32(f.SL - 1))
            for q_ in range(f.SL):
                st, r = self.call('raw', q_)
                self.eq(f'value {q_}', st, bv(r, 8), bs[q_])
            for k in ('at', 'at2'):
                st, r = self.call(k, i)
                w = bs[-1]
                for q_, b in enumerate(bs[:-1]):
                    w = z3.If(jj == q_, b, w)
                self.eq('value', st, bv(r, 8), w)
                self.unchanged(st)
            st, r = self.call('max')
            self.eq('is the maximum length', st, b32(r), N32(f.SL))

    # ---- repeated fields
    def elem(self, st, k):
        """(state, arguments, tree of the value, check to run afterwards) of a new element"""
        f = self.f
        if f.scalar:
            v = z3.BitVec('v', f.w)
            return st, (v,), norm(f.kind, v), None
        if f.kind == 'msg':
            st, q, t = self.other(st, f.typ, 'src')
            return st, (q,), t, lambda s: (self.kept(s, f.typ, q, t), self.no_alias(s, q))
        n = z3.BitVec('n', 32)
        st = st.fork()
        d, arr = self.blob(st, n)
        ok = z3.ULE(n, f.SL)
        return st, (d, n), (z3.If(ok, n, N32(0)), [z3.If(ok, b, z3.BitVecVal(0, 8)) for b in self.chars(arr, f.SL)]), None

    def pick(self, cond, a, b):
        """tree of an element: cond ? a : b"""
        f = self.f
        if f.scalar:
            return z3.If(cond, a, b)
        if f.kind == 'msg':
            return tsel(f.typ, cond, a, b)
        return (z3.If(cond, a[0], b[0]), [z3.If(cond, x, y) for x, y in zip(a[1], b[1])])

    def repeated(self):
        f, c = self.f, self.c
        ln, el = self.cur
        i = z3.BitVec('i', 32)
        for k in ('add', 'addr'):
            st, a, v, after = self.elem(self.st0, k)
            st, r = self.call(k, *a, st=st)
            room = z3.ULT(ln, f.N)
            if k == 'addr':
                self.eq('refused exactly when full', st, b32(r), z3.If(room, N32(OK), N32(ARRAY_FULL)))
            new = (z3.If(room, ln + 1, ln), [self.pick(z3.And(room, ln == q), v, x) for q, x in enumerate(el)])
            st, _ = self.set_to(st, new)
            if after:
                after(st)
        for k in ('eset',) + (('eset2', 'mset') if f.scalar else ()):
            st, a, v, after = self.elem(self.st0, k)
            st, r = self.call(k, i, *a, st=st)
            self.written(st, i, v)
            if after:
                after(st)
        if f.kind == 'msg':
            for q in range(f.N + 1):
                st, r = self.call('mut', q)
                j = min(q, f.N - 1)
                s2, t = self.written(st, N32(q), el[j], z3.UGT(ln, j))
                s2, g = c.call1(s2, self.pre + 'ptr', self.p, j)
                self.P.prove(f'{self.nm}({q}): is element {j}', s2.pc, z3.BoolVal(isinstance(r, Ptr) and r.same(g)))
        st, _ = self.call('mclear')
        self.set_to(st, dflt(f))
        # another repeated field
        cs = unset(self.m)
        st, q, tq = self.other(self.st0, self.m, 'src', cs)
        st, _ = self.call('rset', q, st=st)
        st, _ = self.set_to(st, tq[f.name])
        self.kept(st, self.m, q, tq, cs)
        self.no_alias(st, q)
        # itself
        st, _ = self.call('rset', self.p)
        self.unchanged(st)
        st, r = self.call('max')
        self.eq('is the maximum length', st, b32(r), N32(f.N))
        st, a_ = self.call('fld')
        st, b__ = self.call('fld2')
        self.P.prove(f'{self.nm}: both getters give the same field', (), z3.BoolVal(isinstance(a_, Ptr) and a_.same(b__)))
        if not f.scalar:
            return
        w = f.w
        st, r = self.call('at2', i, st=self.st0)
        j = z3.If(z3.ULT(i, f.N), i, N32(f.N - 1))
        v = el[-1]
        for q, x in enumerate(el[:-1]):
            v = z3.If(j == q, x, v)
        self.eq('value', st, bv(r, w), v)
        self.unchanged(st)
        st = self.st0.fork()
        o = Ptr(c.ex.new_obj(st, 'out', w // 8), 0)
        x = z3.BitVec('x', w)
        c.ex.store(st, o, ('i', w), x)
        st, r = self.call('atc', i, o, st=st)
        inside = z3.ULT(i, ln)
        self.eq('reports an index outside', st, b32(r), z3.If(inside, N32(OK), N32(INDEX)))
        v = norm(f.kind, x)
        for q, y in enumerate(el):
            v = z3.If(z3.And(inside, i == q), y, v)
        self.eq('value', st, bv(c.ex.load(st, o, ('i', w)), w), v)
        self.unchanged(st)
        # a whole array
        n = z3.BitVec('n', 32)
        st = self.st0.fork()
        M = f.N + 2
        d = Ptr(c.ex.new_obj(st, 'arr', M * w // 8), 0)
        xs = []
        for q in range(M):
            y = z3.BitVec(f'a{q}', w)
            c.ex.store(st, Ptr(d.obj, q * w // 8), ('i', w), y)
            xs.append(norm(f.kind, y))
        st, r = self.call('setd', d, n, st=st)
        fits = z3.ULE(n, f.N)
        self.eq('refused exactly when it is too long', st, b32(r), z3.If(fits, N32(OK), N32(ARRAY_FULL)))
        self.set_to(st, (z3.If(fits, n, ln), [z3.If(fits, a, b) for a, b in zip(xs, el)]))

    def written(self, st, i, v, cond=TRUE):
        """element min(i, N-1) is now v (if cond), the length includes it, the others are as before"""
        f = self.f
        ln, el = self.cur
        j = z3.If(z3.ULT(i, f.N), i, N32(f.N - 1))
        e, case = self.touched()
        st, t = self.get(st, case)
        got = self.val(t)[1]
        nl = z3.If(z3.ULT(j, ln), ln, j + 1)
        ne = [self.pick(z3.And(cond, j == q), v, self.pick(z3.And(z3.ULT(q, ln), j != q), x, g)) for q, (x, g) in enumerate(zip(el, got))]
        self.put(e, (nl, ne))
        self.same(st, e, t)
        return st, t


def tsel(m, cond, a, b):
    t = {}
    for f in m.fields:
        x, y = a[f.name], b[f.name]
        if f.presence:
            t[f.name] = (z3.If(cond, x[0], y[0]), None if x[1] is None or y[1] is None else vsel(f, cond, x[1], y[1]))
        else:
            t[f.name] = vsel(f, cond, x, y)
    for on in m.oneofs:
        t['?' + on] = z3.If(cond, a['?' + on], b['?' + on])
    return t


def vsel(f, cond, a, b):
    if f.rep:
        return (z3.If(cond, a[0], b[0]), [vsel1(f, cond, x, y) for x, y in zip(a[1], b[1])])
    return vsel1(f, cond, a, b)


def vsel1(f, cond, a, b):
    if f.scalar:
        return z3.If(cond, a, b)
    if f.kind == 'msg':
        return tsel(f.typ, cond, a, b)
    return (z3.If(cond, a[0], b[0]), [z3.If(cond, x, y) for x, y in zip(a[1], b[1])])


def acc_task(build, res, unit, mid, names, fname):
    a = Acc(build, res, unit, mid, names, fname)
    f = a.f
    a.clear()
    if f.rep:
        a.repeated()
    elif f.scalar:
        a.scalar()
    elif f.kind == 'msg':
        a.message()
    else:
        a.string()
    done(res, a.c)


# ------------------------------------------------------------------ copy, move, assignment
def copy_task(build, res, unit, mid, names, names2, op):
    m, case, c, P, st, p, t0, T = start(build, res, unit, mid, names)
    T = f'{T} {op}'
    if op in ('copy', 'move'):
        q = c.new(st, m.id, 'dst')
    else:
        cs2 = case_of(m, names2)
        st, q = arbitrary(c, st, m, cs2, 'd', 'dst')
        T += f' over [{",".join(str(n) for _, n in names2)}]' if names2 else ''
    c.ex.obls.clear()
    st, _ = c.call1(st, f'{m.id}__{op}', q, p)
    P.safety()
    st, tq = observe(c, st, m, q, case)
    P.safety()
    for w, k in teq(m, t0, tq):
        P.prove(f'{T}: the target has the {w} of the source', st.pc, k)
    for f in m.fields:
        if f.label == 'optional':
            x, y = t0[f.name][1], tq[f.name][1]
            P.prove(f'{T}: {f.name} has the value of the source, or the default if it is not present', st.pc, z3.Or(
                z3.And(*[k for _, k in veq1(f, x, y)]), z3.And(z3.Not(t0[f.name][0]), *[k for _, k in veq1(f, dflt(f), y)])))
    st, t1 = observe(c, st, m, p, case)
    for w, k in teq(m, t0, t1):
        P.prove(f'{T}: the source keeps its {w}', st.pc, k)
    bad = [k for k, (_, v) in st.mem[q.obj].cells.items() if isinstance(v, Ptr) and v.obj == p.obj]
    bad += [k for k, (_, v) in st.mem[p.obj].cells.items() if isinstance(v, Ptr) and v.obj == q.obj]
    P.prove(f'{T}: no storage is shared', (), z3.BoolVal(not bad))
    done(res, c)


def self_task(build, res, unit, mid, names):
    for op in ('asg', 'masg'):
        m, case, c, P, st, p, t0, T = start(build, res, unit, mid, names)
        st, _ = c.call1(st, f'{m.id}__{op}', p, p)
        P.safety()
        st, t1 = observe(c, st, m, p, case)
        for w, k in teq(m, t0, t1):
            P.prove(f'{T} {op} to itself: keeps its {w}', st.pc, k)
        done(res, c)


def fresh_checks(c, P, st, m, p, T):
    st, t = observe(c, st, m, p, unset(m), unset)
    P.safety()
    for w, k in teq(m, dtree(m), t):
        P.prove(f'{T}: {w} is the default', st.pc, k)
    for f in m.fields:
        if f.label == 'optional':
            for w, k in veq1(f, dflt(f), t[f.name][1]):
                P.prove(f'{T}: {f.name} {w} is the default', st.pc, k)
    for w, k in blank(m, t):
        P.prove(f'{T}: {w} shows nothing of what it held before', st.pc, k)
    EX[0] = c.ex
    e = enc_msg(Enc(z3.Const('S_any', S), N32(0)), m, t)
    P.prove(f'{T}: serializes to nothing', st.pc, z3.And(e.n == 0, e.S == z3.Const('S_any', S)))


def blank(m, t):
    """elements and characters beyond the length, which come to light when the length is extended, are the default too"""
    out = []
    for f in m.fields:
        v = t[f.name][1] if f.presence else t[f.name]
        if v is None:
            continue
        for i, x in enumerate(v[1] if f.rep else [v]):
            w = f'{f.name}[{i}]' if f.rep else f.name
            if f.kind == 'msg':
                out += [(f'{w}.{a}', k) for a, k in blank(f.typ, x)]
                if f.rep:
                    out += [(f'{w} {a}', k) for a, k in teq(f.typ, dtree(f.typ), x)]
            elif f.scalar:
                if f.rep:
                    out.append((w, bv(x, f.w) == 0))
            else:
                out.append((w, z3.And(b32(x[0]) == 0, *[bv(b, 8) == 0 for b in x[1]])))
    return out


def clear_task(build, res, unit, mid, names):
    m, case, c, P, st, p, t0, T = start(build, res, unit, mid, names)
    st, _ = c.call1(st, m.id + '__clear', p)
    P.safety()
    fresh_checks(c, P, st, m, p, T + ' clear')
    done(res, c)


def ctor_task(build, res, unit, mid):
    m = find(unit, mid)
    c = Ctx(build.ir(unit))
    P = Prover(c, res)
    st = State()
    p = c.new(st, m.id, 'msg')
    st, _ = c.call1(st, m.id + '__ctor', p)
    P.safety()
    fresh_checks(c, P, st, m, p, mid + ' constructor')
    st, _ = c.call1(st, m.id + '__dtor', p)
    P.safety()
    done(res, c)


def pairs(m):
    cs = cases(m) if len(cases(m)) <= 5 else few_cases(m)
    n = len(cs)
    if n <= 5:
        return cs, [(a, b) for a in cs for b in cs]
    out = []
    for i in range(n):
        for j in {i, (i + 1) % n, (i + n - 1) % n, (i + n // 2) % n, 0}:
            out.append((cs[i], cs[j]))
        out.append((cs[0], cs[i]))
    return cs, out


def tasks(what):
    """what: str, rep, pres, copy, acc"""
    T = []
    for u in UNITS:
        for mid in msgs(u):
            m = find(u, mid)
            cs, ps = pairs(m)
            if what == 'copy':
                T.append(('vf.t_acc', 'ctor_task', (u, mid), (u,)))
                for a in cs:
                    T.append(('vf.t_acc', 'clear_task', (u, mid, names_of(a)), (u,)))
                    T.append(('vf.t_acc', 'self_task', (u, mid, names_of(a)), (u,)))
                    for op in ('copy', 'move'):
                        T.append(('vf.t_acc', 'copy_task', (u, mid, names_of(a), (), op), (u,)))
                for a, b in ps:
                    for op in ('asg', 'masg'):
                        T.append(('vf.t_acc', 'copy_task', (u, mid, names_of(a), names_of(b), op), (u,)))
                continue
            for f in m.fields:
                k = 'rep' if f.rep else 'str' if f.kind in ('string', 'bytes') else 'acc'
                if not (what == k or (what == 'pres' and f.presence)):
                    continue
                fcs = cs
                if f.label != 'oneof' and m.oneofs:
                    fcs = [cs[0], cs[-1]]
                elif f.label == 'oneof':
                    l = m.oneofs[f.oneof]
                    i = l.index(f)
                    near = {None, f, l[(i + 1) % len(l)], l[i - 1], l[0]} if len(l) > 5 else {None, *l}
                    fcs = [k_ for k_ in cs if k_[f.oneof] in near]
                for a in fcs:
                    T.append(('vf.t_acc', 'acc_task', (u, mid, names_of(a), f.name), (u,)))
    seen, out = set(), []
    for t in T:
        if repr(t) not in seen:
            seen.add(repr(t))
            out.append(t)
    return out
