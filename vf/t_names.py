"""Field numbers, field names and enumeration constants (C20)."""
import z3
from .ghost import *
from .msg import *
from .prove import Prover
from . import zoo
from .t_ser import Z, find, msgs, done

UNITS = [n for n in Z]


def text(c, st, p):
    """the constant string at p"""
    if not isinstance(p, Ptr) or p.obj is None or p.sym:
        return None
    out = b''
    for k in range(200):
        b = c.ex.load(st, Ptr(p.obj, p.off + k), ('i', 8))
        if z3.is_bv_value(b) if is_sym(b) else False:
            b = b.as_long()
        if is_sym(b):
            return None
        if b == 0:
            return out.decode('latin1')
        out += bytes([b])
    return None


def texts(c, st, r):
    """[(condition, text)] of a pointer value"""
    if isinstance(r, GPtr):
        return [(g, text(c, st, p)) for g, p in r.alts]
    return [(True, text(c, st, r))]


def name_task(build, res, unit, mid):
    m = find(unit, mid)
    c = Ctx(build.ir(unit))
    P = Prover(c, res)
    st0 = State()
    names = {f.name for f in m.fields}
    for f in m.fields:
        st, r = c.call1(st0.fork(), f'{mid}_{f.name}_num')
        P.prove(f'{mid}: the number of {f.name} is {f.num}', st.pc, b32(r) == f.num)
        st, r = c.call1(st0.fork(), f'{mid}__name', f.num)
        P.safety()
        t = [x for g, x in texts(c, st, r)]
        P.prove(f'{mid}: the name of number {f.num} is {f.name}', st.pc, z3.BoolVal(t == [f.name]))
    n = z3.BitVec('number', 32)
    st = st0.fork()
    for f in m.fields:
        st.assume(n != f.num)
    inv = None
    for st, r in c.calln(st, f'{mid}__name', n):
        P.safety()
        for g, x in texts(c, st, r):
            g = b_(g)
            if x is None or x in names:
                P.prove(f'{mid}: a number that is not in the schema is not given the name {x}', st.pc, z3.Not(g))
                continue
            # which text it is, is fixed by a number that is never in a schema
            if inv is None:
                s0, r0 = c.call1(st0.fork(), f'{mid}__name', 0)
                inv = texts(c, s0, r0)[0][1]
            P.prove(f'{mid}: all numbers that are not in the schema give the same text', st.pc, z3.Or(z3.Not(g), z3.BoolVal(x == inv)))
    done(res, c)


def enum_task(build, res, unit):
    c = Ctx(build.ir(unit))
    P = Prover(c, res)
    for i, _, v in zoo.enums_of(Z[unit]):
        st, r = c.call1(State(), 'ENUM_' + i)
        P.prove(f'{unit}: enumeration constant {i} is {v}', st.pc, b32(r) == v)
    done(res, c)


def tasks():
    T = []
    for u in UNITS:
        T += [('vf.t_names', 'name_task', (u, mid), (u,)) for mid in msgs(u)]
        T.append(('vf.t_names', 'enum_task', (u,), (u,)))
    return T
