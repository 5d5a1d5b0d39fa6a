"""Contracts of the text rendering (C16), compiled with MSG_TO_STRING.

The character array is known by its size only.  snprintf is used by contract (assumed: the C library keeps it):
it requires the array to lie inside the given one, every %s argument to be a string that ends inside its object
(or as far as its precision says) and the arguments to fit the format; it writes at most `size` characters, ends
them with a zero when size is not 0, and returns the number of characters of the whole text.
to_string of an embedded message is used by its contract and proved separately."""
import re
import z3
from .ghost import *
from .msg import *
from .prove import Prover
from .sym import FLAT, GPtr, Dead, Agg
from .t_ser import find, msgs, case_of, names_of, UNITS

STD, FLAGS = 'c++17', ('-DMSG_TO_STRING',)
TEXT = 'TEXT'
FLAT.add(TEXT)
NONE = z3.BitVecVal((1 << 64) - 1, 64)


PAIRS = []          # (extension of a difference, difference of the extensions): equal because the difference does not wrap


def text(st, p):
    """offset of a pointer into the character array"""
    if isinstance(p, Ptr) and p.obj == TEXT:
        r = z3.BitVecVal(p.off, 64)
        for e, n in p.sym:
            e = z3.simplify(e)
            for a, b in PAIRS:
                if e.eq(a):
                    e = b
                    break
            r = r + e * n
        return z3.simplify(r)
    raise Unsupported('pointer to something else than the character array')


def cstring(c, st, p):
    """bytes of a constant string, or None"""
    if not (isinstance(p, Ptr) and p.obj and not p.sym):
        return None
    o = st.mem.get(p.obj)
    if o is None or not o.const:
        return None
    out = []
    for i in range(4096):
        if p.off + i >= o.size:
            return None
        b = c.ex.byte_read(o, p.off + i)
        if b is None:
            b = 0 if o.zero else None
        b = simp(b) if b is not None else None
        if not isinstance(b, int):
            return None
        if b == 0:
            return bytes(out)
        out.append(b)
    return None


class Text:
    def __init__(self, c, P, T):
        self.c, self.P, self.T = c, P, T
        self.SZ = z3.BitVec('size', 32)
        self.n = 0
        self.obls = []
        self.done = set()

    def sz64(self):
        return z3.ZeroExt(32, self.SZ)

    def ob(self, st, name, k):
        self.obls.append((name, st.pc, k))

    def string_arg(self, st, p, prec):
        c = self.c
        if isinstance(p, GPtr):
            for g, q in p.alts:
                s = st.fork()
                s.assume(b_(g))
                self.string_arg(s, q, prec)
            return
        if isinstance(p, Ptr) and p.obj == 'NAME':
            return
        s = cstring(c, st, p)
        if s is not None:
            return
        if not (isinstance(p, Ptr) and p.obj in st.mem):
            self.ob(st, 'a string argument is a string', z3.BoolVal(False))
            return
        if p.sym:
            raise Unsupported('string argument at a computed address')
        o = st.mem[p.obj]
        room = o.size - p.off
        lim = self.field_room(st, p)
        if lim is not None:
            room = min(room, lim)
        if room > 300:
            raise Unsupported('large string argument')
        ends = []
        for j in range(room):
            v = c.ex.load(st, Ptr(p.obj, p.off + j), ('i', 8), 'snprintf')
            ends.append(bv(v, 8) == 0)
        if prec is not None:
            ends.append(z3.And(prec >= 0, prec <= room))       # signed: a negative precision is none
        self.ob(st, 'a string argument ends inside its object', z3.Or(False, *ends))

    def field_room(self, st, p):
        """characters from p to the end of the array it points into"""
        for o, f, n in self.arrays:
            if p.obj == o and f <= p.off < f + n:
                return f + n - p.off
        return None

    def snprintf(self, ex, st, a, where):
        dst, size, fmt = a[:3]
        args = list(a[3:])
        off = text(st, dst)
        size = bv(size, 64)
        self.ob(st, f'text stays inside the array ({where})', z3.And(z3.ULE(off, self.sz64()), z3.ULE(size, self.sz64() - off)))
        if isinstance(fmt, GPtr):
            raise Unsupported('computed format')
        f = cstring(self.c, st, fmt)
        if f is None:
            raise Unsupported('format is not a constant')
        for m in re.finditer(rb'%(%|([-+ #0]*)(\*|\d*)(?:\.(\*|\d*))?(hh|h|ll|l|z|j|t)?([a-zA-Z]))', f):
            if m.group(1) == b'%':
                continue

            def take(w):
                if not args:
                    self.ob(st, f'the arguments fit the format ({where})', z3.BoolVal(False))
                    return None
                x = args.pop(0)
                return x
            prec = None
            if m.group(3) == b'*':
                take(32)
            if m.group(4) == b'*':
                prec = take(32)
                prec = bv(prec, 32) if prec is not None else None
            elif m.group(4):
                prec = z3.BitVecVal(int(m.group(4)), 32)
            x = take(0)
            if x is None:
                break
            if m.group(6) == b's':
                self.string_arg(st, x, prec)
            else:
                isp = isinstance(x, (Ptr, GPtr, FnPtr))
                w = x.size() if is_sym(x) and z3.is_bv(x) else None
                want = {b'l': 64, b'll': 64, b'z': 64, b'j': 64, b't': 64}.get(m.group(5), 32)
                if m.group(6) in b'diuxXoc':
                    self.ob(st, f'the arguments fit the format ({where})', z3.BoolVal(not isp and (w is None or w == want)))
        L = z3.simplify(z3.Extract(31, 0, size))
        nul = b64(st.gh['nul'])
        outs = []

        def case(conds, r, at):
            s = st.fork()
            for k in conds:
                s.assume(k)
            if z3.is_false(z3.simplify(z3.And(*conds))) or not ex.feasible(s, None):
                return
            s.gh['nul'] = at
            outs.append((s, r))
        if not z3.eq(z3.simplify(size), z3.simplify(z3.ZeroExt(32, L))):
            self.ob(st, f'the size of the array is a 32 bit number ({where})', size == z3.ZeroExt(32, L))
            size = z3.ZeroExt(32, L)
        # no room; nothing printed; all printed, left characters remain; cut short
        r = z3.FreshConst(BV32, 'chars')
        case([L == 0, r >= 0], r, nul)
        case([L != 0], z3.BitVecVal(0, 32), off)
        left = z3.FreshConst(BV32, 'left')
        r2 = z3.simplify(L - left)
        self.pair(r2, z3.ZeroExt(32, L) - z3.ZeroExt(32, left))
        case([z3.ULT(left, L), left != 0, r2 > 0], r2, off + z3.ZeroExt(32, L) - z3.ZeroExt(32, left))
        self.pair(z3.simplify(L - 1), z3.ZeroExt(32, L) - 1, L)
        case([L != 0, r >= 0, z3.UGE(r, L)], r, off + z3.ZeroExt(32, L) - 1)
        for s, _ in outs:
            s.gh['nul'] = z3.simplify(b64(s.gh['nul']))
        return outs

    def pair(self, t, wide, nz=None):
        """a difference that does not wrap: its extension to 64 bits"""
        if not z3.is_bv_value(t):
            PAIRS.append((z3.simplify(z3.ZeroExt(32, t)), wide))

    def view(self, st, name):
        """an arbitrary view of the rest of the array"""
        left = z3.BitVec(f'{name}_left', 32)
        d = self.sz64() - z3.ZeroExt(32, left)
        st.assume(z3.And(z3.ULE(left, self.SZ), z3.Implies(self.SZ != 0, left != 0)))
        return Ptr(TEXT, 0, ((d, 1),)), left, d

    def inv(self, off, size):
        """the view is the rest of the array, with at least one character when there is any"""
        return z3.And(z3.ULE(size, self.SZ), off == self.sz64() - z3.ZeroExt(32, size), z3.Implies(self.SZ != 0, size != 0))

    def callee(self, fn, embedded, before=True):
        def h(ex, st, a, where):
            """contract of to_string of a field: checked here for the arguments it gets; of an embedded message: proved on its own"""
            if len(a) != 5:
                raise Unsupported('to_string with other arguments')
            p, v, ind, name, first = a
            off = text(st, ex.load(st, v, ('ptr',), where))
            size = bv(ex.load(st, Ptr(v.obj, v.off + 8, v.sym), ('i', 32), where), 32)
            nul = b64(st.gh['nul'])
            self.ob(st, f'to_string gets the rest of the array ({where})', self.inv(off, size))
            before and self.ob(st, f'the text before is terminated ({where})', z3.Implies(self.SZ != 0, nul == off))
            self.n += 1
            key = (fn, repr(p), repr(name), repr(first))
            if not embedded and key not in self.done:
                self.done.add(key)
                s = st.fork()
                ind = z3.FreshConst(BV32, 'indent')
                s.pc = self.base
                q, sz, d = self.view(s, f'in{self.n}')
                ex.store(s, v, ('ptr',), q)
                ex.store(s, Ptr(v.obj, v.off + 8, v.sym), ('i', 32), sz)
                n0 = z3.FreshConst(z3.BitVecSort(64), 'nul')
                s.gh['nul'] = n0
                s.assume(z3.Implies(self.SZ != 0, n0 == d))
                ex.called[fn] = ex.called.get(fn, 0) + 1
                for s2, r in ex.run(s, ex.m.funcs[fn], [p, v, ind, name, first]):
                    if not isinstance(r, Agg):
                        raise Unsupported('result of to_string')
                    o2, z2 = text(s2, r.vals[0]), bv(r.vals[1], 32)
                    self.ob(s2, f'{fn}: returns the rest of the array', z3.And(self.inv(o2, z2), z3.ULE(z2, sz)))
                    self.ob(s2, f'{fn}: the text is terminated where the returned view starts', z3.Implies(self.SZ != 0, b64(s2.gh['nul']) == o2))
                    self.ob(s2, f'{fn}: the given view stays as it was', z3.And(text(s2, ex.load(s2, v, ('ptr',), where)) == q.offset(), bv(ex.load(s2, Ptr(v.obj, v.off + 8, v.sym), ('i', 32), where), 32) == sz))
            elif embedded and not isinstance(name, Ptr) or embedded and name.obj is not None:
                self.string_arg(st, name, None)
            q, sz, d = self.view(st, f'out{self.n}')
            st.assume(z3.ULE(sz, size))
            new = z3.FreshConst(z3.BitVecSort(64), 'nul')
            st.assume(z3.Implies(self.SZ != 0, new == d))
            st.gh['nul'] = new
            return [(st, Agg((q, sz)))]
        return h


def b64(v):
    return bv(v, 64)


def str_task(build, res, unit, mid, names, top):
    m = find(unit, mid)
    case = case_of(m, names)
    c = Ctx(build.ir(unit, STD, FLAGS))
    c.ex.max_states = 4000
    P = Prover(c, res)
    PAIRS.clear()
    st = State()
    st, p = arbitrary(c, st, m, case)
    Tn = f'{mid}' + (f'[{",".join(str(n) for _, n in names)}]' if names else '') + '::to_string'
    t = Text(c, P, Tn)
    c.hooks['@snprintf'] = t.snprintf
    # the character arrays of the fields
    t.arrays = []
    st, t0 = observe(c, st, m, p, case)
    for f in members(m, case):
        if f.kind == 'string' and not f.rep:
            st, q = c.call1(st, f'{m.id}_{f.name}_cptr', p)
            t.arrays.append((q.obj, q.off, f.SL))
        elif f.kind == 'string':
            for i in range(f.N):
                st, q = c.call1(st, f'{m.id}_{f.name}_ecptr', p, i)
                t.arrays.append((q.obj, q.off, f.SL))
    c.ex.obls.clear()
    # contracts of the functions that are called
    t.base = st.pc
    emb = set()
    for sm in {f.typ.id: f.typ for f in m.fields if f.kind == 'msg'}:
        s1 = State()
        x = c.new(s1, sm)
        s1, _ = c.call1(s1, sm + '__ctor', x)
        emb |= {fn for fn in vfuncs(c, s1, x) if isinstance(fn, str) and '9to_stringER' in fn}
    s1 = State()
    x = c.new(s1, mid)
    s1, _ = c.call1(s1, mid + '__ctor', x)
    own = {fn for fn in vfuncs(c, s1, x) if isinstance(fn, str) and '9to_stringER' in fn}
    if not own:
        raise Unsupported('to_string is not virtual')
    for fn in c.m.funcs:
        if re.search(r'9to_stringER.*jPKcb$', fn) and fn not in own:
            c.hooks[fn] = t.callee(fn, fn in emb)
    if top:
        for fn in own:
            c.hooks[fn] = t.callee(fn, True, before=False)     # proved by the other task of the message
    c.ex.obls.clear()
    st.gh['nul'] = NONE
    msg0 = snapshot(st, p, st.mem[p.obj].size)
    v = Ptr(c.ex.new_obj(st, 'view', 16), 0)
    out = Ptr(c.ex.new_obj(st, 'out', 16), 0)
    if top:
        data, size, off0 = Ptr(TEXT, 0), t.SZ, z3.BitVecVal(0, 64)
        args = None
    else:
        data, size, off0 = t.view(st, 'arg')
    c.ex.store(st, v, ('ptr',), data)
    c.ex.store(st, Ptr(v.obj, 8), ('i', 32), size)
    c.ex.nomerge = True
    if top:
        outs = c.calln(st, mid + '__tostr1', p, v, out)
    else:
        indent = z3.BitVec('indent', 32)
        name = top_name(c, st)
        first = z3.Bool('first')
        outs = c.calln(st, mid + '__tostr', p, v, indent, name, first, out)
    c.ex.nomerge = False
    P.safety()
    for nm, pc, k in t.obls:
        P.prove(f'{Tn}: {nm}', pc, k)
    for st, _ in outs:
        off = text(st, c.ex.load(st, out, ('ptr',)))
        sz = bv(c.ex.load(st, Ptr(out.obj, 8), ('i', 32)), 32)
        P.prove(f'{Tn}: the returned view is the rest of the array', st.pc, t.inv(off, sz))
        P.prove(f'{Tn}: the text is terminated where the returned view starts', st.pc, z3.Implies(t.SZ != 0, b64(st.gh['nul']) == off))
        P.prove(f'{Tn}: the given view stays as it was', st.pc, z3.And(text(st, c.ex.load(st, v, ('ptr',))) == data.offset(), bv(c.ex.load(st, Ptr(v.obj, 8), ('i', 32)), 32) == size))
    P.prove(f'{Tn}: some path returns (not vacuous)', (), z3.BoolVal(len(outs) > 0))
    if any(not same_snapshot(st, p, msg0) for st, _ in outs):
        st, _ = outs[0]
        st, t2 = observe(c, st, m, p, case)
        for w_, k in teq(m, t0, t2):
            P.prove(f'{Tn} leaves the message as it was ({w_})', st.pc, k)
    res.functions += list(c.ex.called)
    res.contracts += list(c.ex.used_contracts) + ['snprintf (assumed)']


def top_name(c, st):
    """null or the name of a field"""
    b = z3.Bool('named')
    return GPtr(((b, Ptr('NAME', 0)), (z3.Not(b), Ptr(None, 0))))


def tasks():
    T = []
    for u in UNITS:
        for mid in msgs(u):
            m = find(u, mid)
            cs = cases(m) if len(cases(m)) <= 8 else few_cases(m)
            for k in cs:
                T.append(('vf.t_str', 'str_task', (u, mid, names_of(k), True), ((u, STD, FLAGS),)))
                T.append(('vf.t_str', 'str_task', (u, mid, names_of(k), False), ((u, STD, FLAGS),)))
    return T
