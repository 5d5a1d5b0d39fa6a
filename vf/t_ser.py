"""Contracts of message serialization and size (C07, C11)."""
import z3
from .ghost import *
from .msg import *
from .prove import Prover
from . import zoo

Z = zoo.build()
UNITS = [n for n in Z if n not in ('zbig', 'zlong')]


def find(unit, mid):
    s = Z[unit]
    for m in [m for i in s.imports for m in i.all_msgs()] + s.all_msgs():
        if m.id == mid:
            return m
    raise KeyError(mid)


def msgs(unit):
    return [m.id for m in Z[unit].all_msgs()]


def case_of(m, names):
    """{oneof: member name} -> {oneof: field}"""
    return {on: (m.byname(n) if n else None) for on, n in names}


def names_of(case):
    return tuple((on, f.name if f else None) for on, f in case.items())


def start(build, res, unit, mid, names, mode):
    m = find(unit, mid)
    case = case_of(m, names)
    c = Ctx(build.ir(unit), stream=True, varint_contract=True)
    c.wmode = mode
    EX[0] = c.ex
    P = Prover(c, res)
    st = State()
    st, p = arbitrary(c, st, m, case)
    st, t0 = observe(c, st, m, p, case)
    c.ex.obls.clear()
    st, w = c.writer(st)
    st, t = abstract(c, st, m, p, case, t0)
    t = dict(t)
    t['full'] = t0
    T = f'{mid}' + (f'[{",".join(str(n) for _, n in names)}]' if names else '')
    return m, case, c, P, st, p, t, w, T


def done(res, c):
    res.functions += list(c.ex.called)
    res.contracts += list(c.ex.used_contracts)


def size_task(build, res, unit, mid, names):
    m, case, c, P, st, p, t, w, T = start(build, res, unit, mid, names, 'exact')
    tot = enc_msg(Enc(c.S0, N32(0)), m, t).n
    st, sz = c.call1(st, m.id + '__size', p)
    P.safety()
    P.prove(f'{T}::serialized_size: is the length of the encoding', st.pc, b32(sz) == tot)
    st, t2 = observe(c, st, m, p, case)
    for w_, k in teq(m, t['full'], t2):
        P.prove(f'{T}::serialized_size leaves the message as it was ({w_})', st.pc, k)
    done(res, c)


def ser_task(build, res, unit, mid, names, what):
    """any: success means everything was written; fits: enough room means success"""
    n0 = len(res.refuted)
    ser_mode(build, res, unit, mid, names, what, 'any')
    if len(res.refuted) > n0:
        # a writer that refuses at will is more than the interface allows: decide with the exact writer
        del res.refuted[n0:]
        ser_mode(build, res, unit, mid, names, what, 'exact')
        if len(res.refuted) > n0:
            return
    ser_mode(build, res, unit, mid, names, what, 'fits')
    if len(res.refuted) > n0:
        del res.refuted[n0:]
        ser_mode(build, res, unit, mid, names, what, 'exact')


def ser_mode(build, res, unit, mid, names, what, mode):
    m, case, c, P, st, p, t, w, T = start(build, res, unit, mid, names, mode)
    e0 = Enc(c.S0, N32(0))
    args = []
    if what == 'ser':
        lem = enc_steps(e0, m, t)
        fin = lem[-1]
        fn, call, args = 'serialize', '__ser', [p, w]
    else:
        # the message itself is known by the contract of its serialize, whatever its size
        ident = z3.BitVec('id', 32)
        a = Abs(N32(p.off), z3.BitVec('size', 32))
        st.assume(z3.ULE(a.sz, 0xffffff00))
        fnm = vfind(c, st, p, SER)
        if fnm is None:
            raise Unsupported('virtual serialize not found')
        c.hooks[fnm] = ser_contract(c, {(p.obj, p.off): (a, snapshot(st, p, st.mem[p.obj].size))}, None)
        tot = a.sz
        st.assume(z3.And(z3.UGE(ident, 1), z3.ULT(ident, 1 << 29)))
        opt = z3.Bool('opt')
        e1 = enc_varint(enc_varint(e0, (ident << 3) | 2), tot)
        lem = [e0, e1, enc_msg(e1, m, a)]
        fin = sel(z3.Or(opt, tot != 0), lem[-1], e0)
        fn, call, args = 'serialize_with_id', '__serid', [p, ident, w, opt]
    pre = ()
    if mode == 'fits':
        st.assume(z3.ULE(fin.n, c.R))
    if mode != 'any':
        # the size of what was encoded only grows: proved field by field, then used
        for a, b in zip(lem, lem[1:]):
            if P.prove(f'{T}: encoding grows', st.pc, z3.ULE(a.n, b.n), need=True):
                pre += (z3.ULE(a.n, b.n),)
        for x in lem[:-1]:
            pre += (z3.ULE(x.n, lem[-1].n),)
        for x in pre:
            st.assume(x)
    st, r = c.call1(st, m.id + call, *args)
    P.safety()
    for nm, pc, k in c.room_obls:
        P.prove(f'{T}::{fn}: {nm}', pc, k)
    pc = st.pc
    r = b32(r)
    if mode != 'fits':
        P.prove(f'{T}::{fn}: result is NO_ERRORS or BUFFER_FULL', pc, z3.Or(r == 0, r == 2))
        P.prove(f'{T}::{fn}: on success the bytes written are the encoding', pc, z3.Implies(r == 0, st.gh['S'] == fin.S))
    if mode != 'any':
        P.prove(f'{T}::{fn}: succeeds when the encoding fits', pc, z3.Implies(z3.ULE(fin.n, c.R), r == 0))
    st, t2 = observe(c, st, m, p, case)
    for w_, k in teq(m, t['full'], t2):
        P.prove(f'{T}::{fn} leaves the message as it was ({w_})', st.pc, k)
    done(res, c)


def safe_task(build, res, unit, mid, names):
    size_task(build, res, unit, mid, names)
    ser_mode(build, res, unit, mid, names, 'ser', 'any')
    ser_mode(build, res, unit, mid, names, 'serid', 'any')


def tasks(prop):
    T = []
    for u in UNITS:
        for mid in msgs(u):
            m = find(u, mid)
            cs = cases(m) if len(cases(m)) <= 8 else few_cases(m)
            for k in cs:
                if prop == 'C18':
                    T.append(('vf.t_ser', 'safe_task', (u, mid, names_of(k)), (u,)))
                elif prop == 'C07':
                    T.append(('vf.t_ser', 'size_task', (u, mid, names_of(k)), (u,)))
                    T.append(('vf.t_ser', 'ser_task', (u, mid, names_of(k), 'serid'), (u,)))
                else:
                    T.append(('vf.t_ser', 'ser_task', (u, mid, names_of(k), 'ser'), (u,)))
    return T
