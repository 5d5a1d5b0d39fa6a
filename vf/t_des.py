"""Contracts of message deserialization (C10, C12, C13, C14).

The record loop of T::deserialize is cut at its header.  H(m, p) is the state in which the header is
first reached from an arbitrary message m with the reader at an arbitrary position p.  One iteration
started in H must either come back in H(m', p'), where m' is m with the record at p applied and p' the
position after it, or return the result the specification gives.  By induction over the records this
decides deserialize for every message, every byte sequence and every length."""
import z3
from .ghost import *
from .msg import *
from .prove import Prover, Result
from .sym import veq, Dead
from .t_ser import find, msgs, case_of, names_of, Z, UNITS
from .t_scalar import from_varint, vwidth

LAST = {}
TERM = False           # strings must be followed by a zero (C08)
OK_ONLY = False        # only the records that are good (the round trip needs no others)


def add_bounds(c, q):
    return q


# ------------------------------------------------------------------ specification of one record
class Step:
    """effect of one record: error code, position after it, new value of the field (when there is no error)"""

    def __init__(self, err, pos, val=None, alt=None):
        self.err, self.pos, self.val = err, pos, val
        self.alt = alt          # condition under which success is accepted instead of the error (known findings)


def umin(a, b):
    return z3.If(z3.ULT(a, b), a, b)


def step_scalar(c, f, q, lim):
    if SC[f.kind][1] == 0:
        w = vwidth(f.kind)
        E, N, V = c.varint_at(q, lim, w)
        return E, q + N, from_varint(f.kind, V)
    n = f.w // 8
    ok = z3.ULE(n, lim - q)
    return z3.If(ok, N32(0), N32(1)), q + n, z3.Concat(*[D(q + i) for i in reversed(range(n))])


def step_string(c, f, q, lim):
    E, N, L = c.varint_at(q, lim, 32)
    q1 = q + N
    c.lemma_add(q1, L, lim)
    err = z3.If(E != 0, E, z3.If(z3.UGT(L, f.SL), N32(4), z3.If(z3.UGT(L, lim - q1), N32(1), N32(0))))
    return err, q1 + L, (L, [D(q1 + j) for j in range(f.SL)])


def packed_cases(f, k, tr):
    """ways in which a packed record can go when k elements are held and it is (tr) cut short: (element, what happens there)"""
    out = []
    for i in range(f.N - k + 1):
        out += [(i, 'stop'), (i, 'bad')]
    return out + [(f.N - k, 'full')]


def step_packed(c, f, q, lim, old, k, tr, i, how):
    """the specification of a packed record in one of its cases: assumptions, error, end, value"""
    E, N, L = c.varint_at(q, lim, 32)
    ln, el = old
    if how == 'len':
        return [E != 0], E, q + N, (ln, el)
    q1 = q + N
    c.lemma_add(q1, L, lim)
    trunc = z3.UGT(L, lim - q1)
    end = lim if tr else q1 + L
    pre = [ln == k, E == 0, trunc if tr else z3.Not(trunc)]
    p = q1
    new = list(el)
    for j in range(i):
        e, np, v = step_scalar(c, f, p, end)
        pre += [p != end, e == 0]
        new[k + j] = v
        p = np
    e, np, v = step_scalar(c, f, p, end)
    if how == 'stop':
        pre.append(p == end)
        err = N32(1) if tr else N32(0)
    elif how == 'bad':
        pre += [p != end, e != 0]
        err = e
    else:
        pre += [p != end, e == 0]
        err = N32(4)
    return pre, err, end, (N32(k + i), new)


def packed_cover(c, f, q, lim, ln, P, pc, Tn):
    """the cases are all there are"""
    al = []
    for k in range(f.N + 1):
        for tr in (0, 1):
            for i, how in packed_cases(f, k, tr):
                al.append(z3.And(*step_packed(c, f, q, lim, (ln, [N32(0)] * f.N), k, tr, i, how)[0]))
    E, _, _ = c.varint_at(q, lim, 32)
    P.prove(f'{Tn}: the cases of a packed {f.name} are complete', pc, z3.Or(E != 0, *al))


def step_len(c, q, lim, mode):
    """length prefix: error, start, end, truncated"""
    E, N, L = c.varint_at(q, lim, 32)
    q1 = q + N
    c.lemma_add(q1, L, lim)
    trunc = z3.UGT(L, lim - q1)
    # in the cases that go on it is known whether the data is cut short
    end = q1 + L if mode == 'ok' else lim if mode in ('alt0', 'alt1') else z3.If(trunc, lim, q1 + L)
    return E, q1, end, trunc


# ------------------------------------------------------------------ contract of the deserialize of an embedded message
class Emb:
    def __init__(self, m, off, expect):
        self.m, self.off, self.expect = m, off, expect
        self.err = z3.BitVec(f'emb_err_{off}', 32)
        self.k1 = z3.Bool(f'emb_k1_{off}')
        self.tree = None
        self.calls = 0


def des_contract(c, embs):
    def h(ex, st, a, where):
        this, buf = a
        if not (isinstance(this, Ptr) and isinstance(buf, Ptr)) or this.sym or (this.obj, this.off) not in embs:
            return None
        e = embs[(this.obj, this.off)]
        ch = c.chain(st, buf)
        if ch is None or not ch:
            return None
        lim = c.efflim(st, ch)
        pos = b32(st.gh['pos'])
        st, t = observe(c, st, e.m, this, nested_cases(e.m))
        for w, k in teq(e.m, t, e.expect):
            ex.oblige(st, f'embedded message: decoded into the right starting state ({w})', k, where)
        k = f'ev{e.off}'
        st.gh[k + 'n'] = b32(simp(b32(st.gh.get(k + 'n', 0)) + 1))
        st.gh[k + 'pos'] = pos
        st.gh[k + 'lim'] = b32(lim)
        n = c.call1(st, e.m.id + '__sizeof')[1]
        havoc(c, st, this, n, f'emb{e.off}')
        st = inv_len(c, st, e.m, this)
        if e.tree is None:
            st, e.tree = observe(c, st, e.m, this, nested_cases(e.m))
        st.assume(z3.ULE(e.err, 7))
        # success: everything up to the end was consumed; a section that is longer than the data keeps the rest,
        # unless a cut short unknown field ended it (known finding K1)
        np = z3.If(e.err == 0, b32(lim), z3.BitVec(f'emb_pos_{e.off}', 32))
        used = b32(lim) - pos
        for i, (o, off) in enumerate(ch):
            ob = st.wobj(o)
            sz = b32(ob.cells[off + c.sec[2]][1])
            left = sz - used
            if i == 0:
                left = z3.If(e.k1, N32(0), left)
            ob.cells[off + c.sec[2]] = (4, simp(z3.If(e.err == 0, left, z3.BitVec(f'emb_left_{e.off}_{i}', 32))))
        st.gh['pos'] = b32(simp(np))
        e.calls += 1
        return [(st, e.err)]
    return h


def inv_len(c, st, m, p):
    """lengths are within capacity (the invariant that every deserialize keeps)"""
    for f in m.fields:
        if f.label == 'oneof' and f.kind in ('string', 'bytes', 'msg') and f is not nested_cases(m).get(f.oneof):
            continue
        P = f'{m.id}_{f.name}_'
        if f.rep or f.kind in ('string', 'bytes'):
            st, n = c.call1(st, P + 'len', p)
            st.assume(z3.ULE(b32(n), f.N if f.rep else f.SL))
        if f.rep and f.kind in ('string', 'bytes'):
            for i in range(f.N):
                st, n = c.call1(st, P + 'elen', p, i)
                st.assume(z3.ULE(b32(n), f.SL))
        if f.kind == 'msg':
            st, qs = sub(c, st, f, m, p, {})
            for q in qs:
                st = inv_len(c, st, f.typ, q)
    return st


# ------------------------------------------------------------------ the loop
class Loop:
    """T::deserialize cut at its record loop"""

    def __init__(self, c, st, m, p, r):
        self.c, self.m, self.p, self.r = c, m, p, r
        fn = vfind(c, st, p, DES)
        if fn is None:
            raise Unsupported('virtual deserialize not found')
        self.fn = fn
        f = c.m.funcs.get(fn)
        if f is None:
            raise Unsupported('deserialize has no body')
        self.f = f
        inf = c.ex.info(f)
        top = [h for h in inf.headers if len(inf.chain[h]) == 1]
        if len(top) != 1:
            raise Unsupported(f'{len(top)} outermost loops in deserialize')
        self.h = top[0]
        c.ex.called[fn] = 1

    def entry(self, st):
        return self.c.ex.run(st, self.f, [self.p, self.r], cut=self.h)

    def iterate(self, st, env):
        return self.c.ex.run(st, self.f, None, cut=self.h, start=(self.h, dict(env)))


def subst(v, m):
    return z3.substitute(v, *m) if is_sym(v) else v


def eqv(a, b, w=None):
    """condition that two executor values are equal; None if not comparable"""
    if is_sym(a) or is_sym(b):
        if isinstance(a, (Ptr, GPtr, FnPtr)) or isinstance(b, (Ptr, GPtr, FnPtr)):
            return None
        if (is_sym(a) and z3.is_bool(a)) or (is_sym(b) and z3.is_bool(b)):
            return b_(a) == b_(b) if not (isinstance(a, int) and not isinstance(a, bool)) else None
        w = a.size() if is_sym(a) else b.size()
        x, y = bv(a, w), bv(b, w)
        return x == y if x.size() == y.size() else None
    return z3.BoolVal(True) if veq(a, b) else z3.BoolVal(False)


def des_task(build, res, unit, mid, names, rec, weak=(), drop=()):
    """rec: ('field', name) | ('unknown', wt) | ('group',) | ('zero',) | ('end',)
    weak, drop: loop locals (beyond those in memory) about which the invariant says nothing when the next tag is bad, or nothing at all"""
    m = find(unit, mid)
    case = case_of(m, names)
    c = None
    weak, drop = set(weak), set(drop)
    modes = {'field': ('ok', 'alt0', 'alt1', 'err', 'bad'), 'unknown': ('ok', 'alt0', 'alt1', 'err'), 'group': ('err',), 'zero': ('err',), 'end': ('end',)}[rec[0]]
    if len(rec) > 2:
        f = m.byname(rec[1])
        k, tr = rec[2:]
        modes = [('packed', k, tr, i, how) for i, how in packed_cases(f, k, tr)] if k is not None else [('packed', None, 0, 0, 'len'), 'bad', 'cover']
    elif rec[0] == 'field' and m.byname(rec[1]).rep and m.byname(rec[1]).kind != 'msg':
        f = m.byname(rec[1])
        modes = [(a, k, l) for k in range(f.N + 1) for l in list(range(f.SL + 1)) for a in ('ok', 'err')]
        modes += [('err', k, l) for k in range(f.N + 1) for l in ('len', 'long')] + ['bad']
    elif rec[0] == 'field' and m.byname(rec[1]).rep:
        f = m.byname(rec[1])
        modes = [(a, k) for a in ('ok', 'alt0', 'alt1', 'err') for k in range(f.N + 1)] + ['bad']
    elif rec[0] == 'field' and m.byname(rec[1]).kind in ('string', 'bytes'):
        SL = m.byname(rec[1]).SL
        modes = [(a, None, l) for l in list(range(SL + 1)) for a in ('ok', 'err')] + [('err', None, 'len'), ('err', None, 'long'), 'bad']
    if OK_ONLY:
        modes = [x for x in modes if x in ('ok', 'end') or isinstance(x, tuple) and (x[0] == 'ok' or x[0] == 'packed' and x[1:3] == (0, 0) and x[4] == 'stop')]
    for mode in modes:
        if len(res.refuted) >= 2:
            res.unknown.append(f'{mid} {rec}: other cases not tried after obligations failed')
            break
        des_case(build, res, m, unit, case, names, rec, weak, drop, mode)
    res.extra = (tuple(sorted(weak)), tuple(sorted(drop)))


def des_case(build, res, m, unit, case, names, rec, weak, drop, mode):
    for attempt in range(5):
        r1 = Result(res.task)
        if not des_attempt(build, r1, m, unit, case, names, rec, weak, drop, mode):
            break
    else:
        res.unknown.append('loop invariant not found')
    if r1.refuted and (weak or drop or mode == 'end'):
        # a refutation stands when it is also one for the exact state in which the loop is entered
        r2 = Result(res.task)
        des_attempt(build, r2, m, unit, case, names, rec, None, None, mode)
        ex = {n for n, _, _ in r2.refuted}
        r1.unknown += [f'{n} (with a weakened loop invariant)' for n, _, _ in r1.refuted if n not in ex]
        r1.refuted = [r for r in r2.refuted]
    res.refuted += r1.refuted
    for a in ('proved', 'trivial', 'solver'):
        setattr(res, a, getattr(res, a) + getattr(r1, a))
    res.unknown += r1.unknown
    res.functions += r1.functions
    res.contracts += r1.contracts
    res.names += r1.names


def agree(results, tasks):
    """tasks to run again because the tasks of one message ended with different loop invariants"""
    un = {}
    for t, r in zip(tasks, results):
        if t[1] == 'des_task' and getattr(r, 'extra', None) is not None:
            w, d = un.setdefault(t[2][:2], (set(), set()))
            w.update(r.extra[0])
            d.update(r.extra[1])
    out = []
    for i, (t, r) in enumerate(zip(tasks, results)):
        if t[1] == 'des_task' and getattr(r, 'extra', None) is not None:
            w, d = un[t[2][:2]]
            w = tuple(sorted(w - d))
            d = tuple(sorted(d))
            if (w, d) != r.extra:
                out.append((i, (t[0], t[1], t[2][:4] + (w, d)) + tuple(t[3:])))
    return out


def des_attempt(build, res, m, unit, case, names, rec, weak, drop, mode):
    c = Ctx(build.ir(unit), varint_contract=True)
    c.named = True
    P = Prover(c, res)
    st = State()
    st, p = arbitrary(c, st, m, case)
    st, r = c.reader(st)
    st, t = observe(c, st, m, p, case)
    c.ex.obls.clear()
    pos, lim = c.pos0, c.lim
    Tn = m.id + (f'[{",".join(str(n) for _, n in names)}]' if names else '') + '::deserialize'
    E, N, V = c.varint_at(pos, lim, 32)
    ident, wt = z3.LShR(V, 3), V & 7
    tagok = z3.And(E == 0, z3.ULE(wt, 5))
    q = pos + N
    lp = Loop(c, st, m, p, r)
    msg0 = snapshot(st, p, st.mem[p.obj].size)

    # ---- contracts of the embedded messages
    embs = {}
    fld = m.byname(rec[1]) if rec[0] == 'field' else None
    ecase = dict(case)
    if fld is not None and fld.kind == 'msg':
        if fld.label == 'oneof':
            ecase[fld.oneof] = fld
        s0 = st.fork()
        s0, qs = sub(c, s0, fld, m, p, ecase)
        for i, qq in enumerate(qs):
            if fld.rep:
                exp = dtree(fld.typ)
            elif fld.label == 'oneof':
                exp = t[fld.name][1] if case.get(fld.oneof) is fld else dtree(fld.typ)
            elif fld.presence:
                exp = t[fld.name][1]
            else:
                exp = t[fld.name]
            embs[(qq.obj, qq.off)] = Emb(fld.typ, qq.off, exp)
        # the function name is found on a fresh object of the type
        s1 = State()
        x = c.new(s1, fld.typ.id)
        s1, _ = c.call1(s1, fld.typ.id + '__ctor', x)
        fn = vfind(c, s1, x, DES)
        if fn is not None and fn != lp.fn:
            c.hooks[fn] = des_contract(c, embs)
    # ---- entry
    rets, arr, allocas = lp.entry(st.fork())
    P.safety()
    if len(arr) != 1:
        raise Unsupported(f'{len(arr)} states at the loop header')
    H, henv = arr[0]
    if not same_snapshot(H, p, msg0):
        raise Unsupported('message changed before the loop')
    term0 = z3.If(z3.And(E == 1, N == 0), N32(0), z3.If(E != 0, E, N32(3)))    # result when the tag at pos is bad
    k2 = z3.And(E == 1, N != 0)
    if rec[0] == 'end':
        for s, rv in rets:
            P.prove(f'{Tn}: result when the data ends or the tag is bad', s.pc, z3.Or(b32(rv) == term0, z3.And(k2, b32(rv) == 0)))
            P.prove(f'{Tn}: only ends before the first record when there is none', s.pc, z3.Not(tagok))
    hmem = {}
    for o, ob in H.mem.items():
        if o in (p.obj, r.obj) or o.startswith('G') or o not in allocas and o in st.mem:
            continue
        for k, (n, v) in ob.cells.items():
            hmem[(o.split('#')[0], k)] = (o, n, v)
    # ---- weakened locals
    S2 = H.fork()
    env = dict(henv)
    base = {}
    exact = weak is None

    def weaken(key, v):
        f_ = z3.FreshConst(v.sort(), 'loc')
        return f_ if key in drop else z3.If(tagok, v, f_)
    if not exact:
        for key in weak | drop:
            if key[0] == 'env':
                v = env[key[1]]
                if isinstance(v, bool):
                    v = z3.BoolVal(v)
                elif isinstance(v, int):
                    w = c.ex.info(lp.f).widths.get(key[1])
                    if w is None:
                        raise Unsupported('local of unknown width')
                    v = z3.BitVecVal(v, w)
                base[key] = v
                env[key[1]] = weaken(key, v)
        for key, (o, n, v) in hmem.items():
            if isinstance(v, (Ptr, GPtr, FnPtr)):
                if key in drop:
                    raise Unsupported('pointer local varies')
                continue
            v = bv(v, 8 * n) if not z3.is_bool(v) else v
            base[key] = v
            S2.wobj(o).cells[key[1]] = (n, weaken(key, v))
    # ---- the record
    sub_ = None
    ln_, full_mode, sel, L_ = None, mode, None, None
    if isinstance(mode, tuple) and mode[0] == 'packed':
        sel = mode[1:]
        ln_ = mode[1]
        mode = 'err'
        if sel[3] == 'stop' and not sel[1]:
            mode = 'ok'
    elif isinstance(mode, tuple):
        mode, ln_, L_ = mode + (None,) * (3 - len(mode))
    if rec[0] == 'field':
        S2.assume(z3.And(tagok, ident == fld.num, wt != fld.wt if mode == 'bad' else wt == fld.wt))
        sub_ = z3.Concat(z3.BitVecVal(fld.num, 29), z3.Extract(2, 0, V) if mode == 'bad' else z3.BitVecVal(fld.wt, 3))
    elif rec[0] == 'unknown':
        S2.assume(z3.And(tagok, ident != 0, wt == rec[1], *[ident != f.num for f in m.fields]))
        sub_ = z3.Concat(z3.Extract(31, 3, V), z3.BitVecVal(rec[1], 3))
    elif rec[0] == 'group':
        S2.assume(z3.And(tagok, ident != 0, z3.Or(wt == 3, wt == 4), *[ident != f.num for f in m.fields]))
        sub_ = V
    elif rec[0] == 'zero':
        S2.assume(z3.And(tagok, ident == 0))
        sub_ = z3.Concat(z3.BitVecVal(0, 29), z3.Extract(2, 0, V))
    else:
        S2.assume(z3.Not(tagok))
    if not c.ex.feasible(S2):
        raise Unsupported('vacuous case')
    if sub_ is not None:
        # the facts about the tag are put into the state: E = 0, and the known parts of its value
        mp0 = [(E, N32(0)), (V, sub_)]

        def rw(v):
            return simp(z3.substitute(v, *mp0)) if is_sym(v) else v
        for (_, k), (o, n, v) in hmem.items():
            ob = S2.wobj(o)
            n, v = ob.cells[k]
            ob.cells[k] = (n, rw(v))
        if ln_ is not None:
            ln0 = t[fld.name][0]
            S2.assume(ln0 == ln_)
            if z3.is_const(ln0):
                ob = S2.wobj(p.obj)
                for k, (n, v) in list(ob.cells.items()):
                    if is_sym(v):
                        ob.cells[k] = (n, simp(z3.substitute(v, (ln0, N32(ln_)))))
        S2.gh['pos'] = b32(rw(b32(S2.gh['pos'])))
        for k in env:
            env[k] = rw(env[k])
    if rec[0] == 'end':
        step = Step(term0, pos)
    else:
        if full_mode == 'cover':
            packed_cover(c, fld, q, lim, t[fld.name][0], P, S2.pc, Tn)
            return False
        if sel is not None:
            pre, e_, np_, v_ = step_packed(c, fld, q, lim, t[fld.name], *sel)
            for x in pre:
                S2.assume(x)
            step = Step(e_, np_, v_)
        elif mode == 'bad':
            step = Step(N32(3), q)
        else:
            step = spec(c, m, fld, t, q, lim, wt, rec, embs, mode)
    err, np = step.err, step.pos
    if mode == 'ok':
        S2.assume(err == 0)
    elif mode in ('alt0', 'alt1'):
        if step.alt is None:
            return False
        # the two possible meanings of get_size() of a user's buffer
        S2.assume(z3.And(step.alt, c.mode if mode == 'alt1' else z3.Not(c.mode)))
    elif mode == 'err':
        S2.assume(err != 0 if step.alt is None else z3.And(err != 0, z3.Not(step.alt)))
    if not c.ex.feasible(S2):
        if full_mode == 'ok':
            raise Unsupported('vacuous case')
        return False
    if L_ is not None:
        E1_, N1_, L1_ = c.varint_at(q, lim, 32)
        S2.assume(E1_ != 0 if L_ == 'len' else z3.And(E1_ == 0, z3.UGT(L1_, fld.SL)) if L_ == 'long' else z3.And(E1_ == 0, L1_ == L_))
        if not c.ex.feasible(S2):
            return False
    c.decide = True
    if mode in ('ok', 'alt0', 'alt1'):
        c.specpos = [b32(simp(np))]
    if fld is not None and fld.wt == 2 and mode != 'bad':
        E1_, N1_, L1_ = c.varint_at(q, lim, 32)
        c.known = [simp(q + N1_ + L1_), lim]
    hpos = b32(S2.gh['pos'])
    rets, arr, _ = lp.iterate(S2, env)
    P.safety()
    what = ' '.join(str(x) for x in rec[:2]) + ({'bad': ' (wrong wire type)', 'err': ' (bad data)'}.get(mode, ''))
    c2 = dict(case)
    if fld is not None and fld.label == 'oneof':
        c2[fld.oneof] = fld
    if ln_ is not None:
        what += f' with {ln_} held'
    if L_ is not None:
        what += f' of length {L_}' if isinstance(L_, int) else ' with a bad length' if L_ == 'len' else ' that is too long'
    again = False
    # ---- back at the header: either the record was good and the loop goes on from H(m', p'), or an error is pending
    back = []
    for s, e2 in arr:
        if rec[0] == 'end':
            P.prove(f'{Tn}: stops when the data ends or the tag is bad', s.pc, z3.BoolVal(False))
            continue
        if mode == 'ok':
            back.append((s, e2))
            continue
        r2, a2, _ = lp.iterate(s.fork(), e2)
        if mode in ('alt0', 'alt1'):
            # known finding: either the error or acceptance, decided by what the loop does next
            sb = s.fork()
            for x, v in r2:
                sb.assume(z3.Not(z3.And(*[b_(k) for k in x.pc[len(s.pc):]], b32(v) == err)))
                x.assume(b32(v) == err)
                if c.ex.feasible(x):
                    rets.append((x, v))
            if a2 or c.ex.feasible(sb):
                back.append((sb, e2))
            continue
        rets += r2
        for x, _ in a2:
            P.prove(f'{Tn}: stops after record {what}', x.pc, z3.BoolVal(False))
    for s, e2 in back:
        P.prove(f'termination: {Tn}: record {what} consumes data and stays inside it', s.pc,
                z3.And(z3.UGT(b32(s.gh['pos']), hpos), z3.ULE(b32(s.gh['pos']), lim)))
        P.prove(f'{Tn}: record {what} consumes at least one byte and stays inside the data', s.pc, z3.And(z3.UGT(np, pos), z3.ULE(np, lim)))
        tree_obligations(c, P, s, m, p, t, c2, fld, step, Tn, what, embs)
        inv_obligations(c, P, s, m, p, c2, Tn, what)
        shape(c, P, s, m, p, c2, case)
        # H(m', p')
        mp = c.moved(pos, lim, np)
        npos = subst(b32(H.gh['pos']), mp)
        P.prove(f'{Tn}: after record {what} the reader is behind it', s.pc, b32(s.gh['pos']) == npos)
        tag2 = z3.substitute(tagok, *mp)
        if exact:
            continue
        for k, v in henv.items():
            key = ('env', k)
            if key in drop or k not in e2:
                continue
            x = eqv(e2[k], subst(base.get(key, v), mp))
            if x is not None and key in base:
                x = z3.Implies(tag2, x)
            again |= match(P, s, x, key, weak, drop, base)
        for key, (o, n, v) in hmem.items():
            if key in drop or o not in s.mem:
                continue
            cur = s.mem[o].cells.get(key[1])
            if cur is None or cur[0] != n:
                again |= match(P, s, None, key, weak, drop, base)
                continue
            x = eqv(cur[1], subst(base.get(key, v), mp))
            if x is not None and key in base:
                x = z3.Implies(tag2, x)
            again |= match(P, s, x, key, weak, drop, base)
    # ---- returns
    for s, rv in rets:
        rv = b32(rv)
        if rec[0] == 'end':
            P.prove(f'{Tn}: result when the data ends or the tag is bad', s.pc, z3.Or(rv == term0, z3.And(k2, rv == 0)))
            P.prove(f'{Tn}: success only at the end of the data', s.pc, z3.Implies(rv == 0, b32(s.gh['pos']) == lim))
            tree_obligations(c, P, s, m, p, t, case, None, step, Tn, what, embs)
            continue
        E2, N2, V2 = c.varint_at(np, lim, 32)
        mp = c.moved(pos, lim, np)
        bad2 = z3.Not(z3.substitute(tagok, *mp))
        t2 = z3.substitute(term0, *mp)
        k22 = z3.And(E2 == 1, N2 != 0)
        good = z3.And(bad2, z3.Or(rv == t2, z3.And(k22, rv == 0)))
        okc = z3.If(err != 0, rv == err, good)
        if step.alt is not None:
            okc = z3.Or(okc, z3.And(step.alt, good))
        P.prove(f'{Tn}: error reported for record {what}', s.pc, okc)
        # a return after a good record that ends the data
        if c.ex.feasible(s, rv == 0):
            s3 = s.fork()
            s3.assume(rv == 0)
            tree_obligations(c, P, s3, m, p, t, c2, fld, step, Tn, what, embs)
        s4 = s.fork()
        s4.assume(rv != 0)
        if c.ex.feasible(s4):
            error_obligations(c, P, s4, m, p, t, case, fld, Tn, what)
    if rec[0] != 'end' and not arr:
        # nothing comes back: right only if every such record is an error
        P.prove(f'{Tn}: goes on after a good record {what}', S2.pc, z3.BoolVal(mode != 'ok'))
    if not arr and not rets:
        raise Unsupported('no path through the loop body')
    P.safety()
    res.functions += list(c.ex.called)
    res.contracts += list(c.ex.used_contracts)
    return again


def match(P, s, x, key, weak, drop, base):
    """does the local match the invariant?  If not, weaken the invariant; returns True to try again"""
    if x is not None:
        if z3.is_true(z3.simplify(x)):
            P.res.trivial += 1
            return False
        r, _ = P.check(list(P.ctx.ex.axioms) + P.ctx.congruence(), s.pc, x, 20)
        if r == z3.unsat:
            P.res.proved += 1
            return False
    if key in base:             # it was weakened already
        weak.discard(key)
        drop.add(key)
    else:
        weak.add(key)
    return True


def spec(c, m, f, t, q, lim, wt, rec, embs, mode):
    if rec[0] == 'zero':
        return Step(N32(5), q)
    if rec[0] == 'group':
        return Step(N32(3), q)
    if rec[0] == 'unknown':
        k = rec[1]
        if k == 0:
            E, N, V = c.varint_at(q, lim, 64)
            return Step(E, q + N)
        if k in (1, 5):
            n = 8 if k == 1 else 4
            return Step(z3.If(z3.ULE(n, lim - q), N32(0), N32(1)), q + n)
        E, q1, end, trunc = step_len(c, q, lim, mode)
        # known finding K1: a cut short unknown length delimited field is accepted
        return Step(z3.If(E != 0, E, z3.If(trunc, N32(1), N32(0))), end, alt=z3.And(E == 0, trunc))
    bad = z3.BoolVal(False)
    if f.rep:
        old = t[f.name]
        if f.scalar:
            raise Unsupported('packed record without a case')
        elif f.kind == 'msg':
            ln, el = old
            E, q1, end, trunc = step_len(c, q, lim, mode)
            es = list(embs.values())
            err = N32(0)
            k1 = z3.BoolVal(False)
            new = []
            for i, x in enumerate(es):
                err = z3.If(ln == i, x.err, err)
                k1 = z3.If(ln == i, x.k1, k1)
            full = z3.UGE(ln, f.N)
            e = z3.If(full, N32(4), z3.If(E != 0, E, z3.If(err != 0, err, z3.If(trunc, N32(1), N32(0)))))
            return Step(z3.If(bad, N32(3), e), end, ('emb', ln + 1, q1, end), alt=z3.And(z3.Not(bad), z3.Not(full), E == 0, err == 0, trunc, k1))
        else:
            ln, el = old
            e, np, v = step_string(c, f, q, lim)
            e = z3.If(z3.UGE(ln, f.N), N32(4), e)
            new = [(z3.If(ln == i, v[0], x[0]), [z3.If(ln == i, a, b) for a, b in zip(v[1], x[1])]) for i, x in enumerate(el)]
            v = (ln + 1, new)
        return Step(z3.If(bad, N32(3), e), np, v)
    if f.scalar:
        e, np, v = step_scalar(c, f, q, lim)
        return Step(z3.If(bad, N32(3), e), np, v)
    if f.kind == 'msg':
        E, q1, end, trunc = step_len(c, q, lim, mode)
        x = list(embs.values())[0]
        e = z3.If(E != 0, E, z3.If(x.err != 0, x.err, z3.If(trunc, N32(1), N32(0))))
        return Step(z3.If(bad, N32(3), e), end, ('emb', None, q1, end), alt=z3.And(z3.Not(bad), E == 0, x.err == 0, trunc, x.k1))
    e, np, v = step_string(c, f, q, lim)
    return Step(z3.If(bad, N32(3), e), np, v)


def tree_obligations(c, P, s, m, p, t, case, f, step, Tn, what, embs):
    """the message after a good record"""
    s = s.fork()
    s, t2 = observe(c, s, m, p, case)
    want = dict(t)
    skip = set()
    if f is not None:
        v = step.val
        if isinstance(v, tuple) and v and isinstance(v[0], str):
            _, n, q1, end = v
            got = t2[f.name][1] if f.presence else t2[f.name]
            es = list(embs.values())
            for i, x in enumerate(es):
                sel_ = (t[f.name][0] == i) if f.rep else z3.BoolVal(True)
                k = f'ev{x.off}'
                P.prove(f'{Tn}: record {what}: the embedded message is decoded exactly once', s.pc, z3.Implies(sel_, b32(s.gh.get(k + 'n', 0)) == 1))
                if k + 'pos' not in s.gh:
                    continue
                P.prove(f'{Tn}: record {what}: the embedded message is decoded from its own bytes', s.pc,
                        z3.Implies(sel_, z3.And(b32(s.gh[k + 'pos']) == q1, b32(s.gh[k + 'lim']) == end)))
                new = got[1][i] if f.rep else got
                if x.tree is not None:
                    for w_, kk in teq(f.typ, new, x.tree):
                        P.prove(f'{Tn}: record {what}: embedded message holds what was decoded ({w_})', s.pc, z3.Implies(sel_, kk))
                if f.rep:
                    for w_, kk in teq(f.typ, new, t[f.name][1][i]):
                        P.prove(f'{Tn}: record {what}: other elements stay ({i} {w_})', s.pc, z3.Implies(z3.UGT(t[f.name][0], i), kk))
            if f.rep:
                P.prove(f'{Tn}: record {what}: length afterwards', s.pc, got[0] == n)
            if f.presence:
                P.prove(f'{Tn}: record {what}: presence afterwards', s.pc, t2[f.name][0])
            skip.add(f.name)
        else:
            want[f.name] = (z3.BoolVal(True), v) if f.presence else v
        if f.label == 'oneof':
            for g in m.oneofs[f.oneof]:
                if g is not f:
                    want[g.name] = (z3.BoolVal(False), None)
            want['?' + f.oneof] = N32(f.num)
    for w_, k in teq(m, t2, want, skip):
        P.prove(f'{Tn}: message after record {what} ({w_})', s.pc, k)
    if TERM and f is not None and f.kind == 'string':
        got = t2[f.name][1] if f.presence else t2[f.name]
        for i, x in enumerate(got[1] if f.rep else [got]):
            P.prove(f'{Tn}: record {what}: a zero follows a string that is shorter than its maximum', s.pc,
                    z3.Implies(t[f.name][0] == i, terminated(x)) if f.rep else terminated(x))


def terminated(x):
    ln, bs = x
    return z3.And(*[z3.Implies(ln == k, bv(b, 8) == 0) for k, b in enumerate(bs)])


def error_obligations(c, P, s, m, p, t, case, f, Tn, what):
    """what stays when a record is bad"""
    s = s.fork()
    case2 = dict(case)
    skip = set()
    want = dict(t)
    if f is not None and f.label == 'oneof':
        case2[f.oneof] = None
        for g in m.oneofs[f.oneof]:
            want[g.name] = (z3.BoolVal(False), None)
        want['?' + f.oneof] = N32(0)
    elif f is not None:
        skip.add(f.name)
    s, t2 = observe(c, s, m, p, case2)
    if f is not None and f.scalar and f.label == '':
        P.prove(f'{Tn}: a bad record {what} leaves the value', s.pc, t2[f.name] == t[f.name])
    for w_, k in teq(m, t2, want, skip):
        P.prove(f'{Tn}: message after a bad record {what} ({w_})', s.pc, k)


def inv_obligations(c, P, s, m, p, case, Tn, what):
    s = s.fork()
    for f in members(m, case):
        Q = f'{m.id}_{f.name}_'
        if f.rep or f.kind in ('string', 'bytes'):
            s, n = c.call1(s, Q + 'len', p)
            P.prove(f'{Tn}: length of {f.name} stays within its maximum after record {what}', s.pc, z3.ULE(b32(n), f.N if f.rep else f.SL))
        if f.rep and f.kind in ('string', 'bytes'):
            for i in range(f.N):
                s, n = c.call1(s, Q + 'elen', p, i)
                P.prove(f'{Tn}: length of element {i} of {f.name} stays within its maximum after record {what}', s.pc, z3.ULE(b32(n), f.SL))


def shape(c, P, s, m, p, case, case0):
    """the pointers inside the message are those of a message in which the members of `case` are set"""
    if case == case0:
        return
    s0 = State()
    try:
        s0, p0 = construct(c, s0, m, case, 'shape')
    except Dead:
        return
    finally:
        c.ex.obls.clear()
    a = {k: v for k, (n, v) in s.mem[p.obj].cells.items() if isinstance(v, (Ptr, FnPtr, GPtr))}
    b = {k: v for k, (n, v) in s0.mem[p0.obj].cells.items() if isinstance(v, (Ptr, FnPtr, GPtr))}
    if not all(k in a and isinstance(a[k], Ptr) and a[k].same(v) for k, v in b.items()):
        P.res.unknown.append('shape: the storage of the oneof differs from that of a constructed one')


def records(m):
    out = [('field', f.name) for f in m.fields]
    out += [('unknown', k) for k in (0, 1, 2, 5)] + [('group',), ('zero',), ('end',)]
    return out


def tasks(prop):
    T = []
    for u in UNITS:
        for mid in msgs(u):
            m = find(u, mid)
            base = {on: None for on in m.oneofs}
            for rec in records(m):
                f = m.byname(rec[1]) if rec[0] == 'field' else None
                if prop == 'C10' and not (f is not None and f.rep):
                    continue
                if prop == 'C13' and rec[0] not in ('unknown', 'group'):
                    continue
                if prop == 'C14' and not (f is not None and f.presence):
                    continue
                cs = [base]
                if f is not None and f.label == 'oneof':
                    cs = [dict(base, **{f.oneof: g}) for g in [None] + m.oneofs[f.oneof]]
                    if len(cs) > 6:
                        i = cs.index(dict(base, **{f.oneof: f}))
                        cs = [cs[0], cs[i], cs[1 if i != 1 else 2], cs[-1] if i != len(cs) - 1 else cs[-2]]
                elif m.oneofs:
                    cs = [base, {on: l[-1] for on, l in m.oneofs.items()}]
                rs = [rec]
                if f is not None and f.rep and f.scalar:
                    rs = [rec + (None, None)] + [rec + (k, tr) for k in range(f.N + 1) for tr in (0, 1)]
                for k in cs:
                    for rec_ in rs:
                        if prop == 'C17' and (rec_[0] not in ('field', 'end') or len(rec_) > 2 and rec_[2:] != (0, 0)):
                            continue
                        T.append(('vf.t_des', 'des_task', (u, mid, names_of(k), rec_), (u,)))
    return T
