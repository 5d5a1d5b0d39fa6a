"""What each check runs: proof tasks (contracts on the code of /repo) and the native complement."""
from . import t_scalar, t_buffers, t_ser, t_des, t_acc, t_names, t_alloc, t_rt, t_str
from .zoo import build as zoo

ALL = [u for u in zoo() if u not in ('zimp', 'zlong')]
REP = ['zrep0', 'zrep1', 'zrep2', 'zrep3', 'zrep4', 'zrept', 'zrepm', 'zreps', 'zrepst', 'znestr', 'zbig']
STR = ['zstr', 'zstrt', 'zoptc', 'zone', 'zreps', 'zrepst', 'znestt', 'zbig']
PRES = ['zopt', 'zoptc', 'zone', 'zone2', 'zuse', 'zrepm', 'znestr']


def varint():
    """the contracts of the varint coding that the message level proofs use"""
    return t_scalar.tasks('varint') + t_buffers.tasks('varint')


def strings(tasks):
    """the tasks about records of string and bytes fields"""
    out = []
    for t in tasks:
        u, mid, names, rec = t[2][:4]
        if rec[0] == 'field' and t_ser.find(u, mid).byname(rec[1]).kind in ('string', 'bytes'):
            out.append(t)
    return out


def only(tasks, units):
    return [t for t in tasks if set(t[3]) & set(units)]


def uniq(ts):
    out, seen = [], set()
    for t in ts:
        if repr(t) not in seen:
            seen.add(repr(t))
            out.append(t)
    return out


def tasks(prop, tier='quick'):
    if prop in ('C01', 'C02'):
        return t_scalar.tasks(prop)
    if prop == 'C03':
        return uniq(t_scalar.tasks('C03') + t_scalar.tasks('C01') + t_scalar.tasks('C02'))
    if prop in ('C04', 'C05', 'C06'):
        return t_buffers.tasks(prop)
    if prop == 'C07':
        return uniq(t_ser.tasks('C07') + t_scalar.tasks('size') + t_ser.tasks('C11') + varint())
    if prop == 'C10':
        return uniq(t_des.tasks('C10') + only(t_ser.tasks('C11'), REP) + varint())
    if prop == 'C11':
        return uniq(t_ser.tasks('C11') + varint() + t_ser.tasks('C07'))
    if prop == 'C12':
        return uniq(t_des.tasks('C12') + varint())
    if prop == 'C13':
        return uniq(t_des.tasks('C13') + varint())
    if prop == 'C14':
        return uniq(t_acc.tasks('pres') + t_des.tasks('C14') + varint())
    if prop == 'C08':
        return uniq([t + ('term',) for t in t_acc.tasks('str') + strings(t_des.tasks('C12'))] + only(t_ser.tasks('C11'), STR) + varint())
    if prop == 'C09':
        return uniq(t_acc.tasks('rep') + only(t_acc.tasks('copy'), REP))
    if prop == 'C15':
        return uniq(t_acc.tasks('copy') + t_acc.tasks('acc') + t_acc.tasks('str') + t_acc.tasks('rep') + t_scalar.tasks('acc'))
    if prop == 'C18':
        ts = t_acc.tasks('str') + t_acc.tasks('rep') + t_acc.tasks('acc') + t_acc.tasks('copy') + t_ser.tasks('C18') + t_des.tasks('C12')
        for p in ('C01', 'C02', 'acc', 'size', 'varint'):
            ts += t_scalar.tasks(p)
        for p in ('C04', 'C05', 'C06'):
            ts += t_buffers.tasks(p)
        return [t + ('safety',) for t in uniq(ts)]
    if prop == 'C16':
        return t_str.tasks()
    if prop == 'C17':
        return t_rt.tasks() + [t + ('support',) for t in uniq(t_ser.tasks('C11') + t_des.tasks('C17') + varint())]
    if prop == 'C19':
        return t_alloc.tasks()
    if prop == 'C20':
        return t_names.tasks()
    raise KeyError(prop)


def native(prop, tier='quick'):
    """(suite, unit, cases, seconds)"""
    k = 1 if tier == 'quick' else 12
    big = 10 ** 9

    def j(suite, units, sec):
        return [(suite, u, big, sec * k) for u in units]
    sc = lambda *s: [x for n in s for x in j(n, ['scalar'], 6)]
    return {
        'C01': sc('enc'), 'C02': sc('dec'), 'C03': sc('srt', 'enc', 'dec'),
        'C04': j('wb', ['buffers'], 6) + sc('calc'), 'C05': j('rb', ['buffers'], 8), 'C06': sc('sec'),
        'C07': j('ser', ALL, 2), 'C10': j('des', REP, 2) + j('ser', REP, 1), 'C11': j('ser', ALL, 2),
        'C12': j('des', ALL, 3), 'C13': j('des', ALL, 2), 'C14': j('des', PRES, 2) + j('ops', PRES, 3),
        'C08': with_(j('ops', STR, 3) + j('des', STR, 2), term=True) + j('ser', STR, 1), 'C09': j('ops', REP, 4), 'C15': j('ops', ALL, 3),
        'C18': with_(j('des', ALL, 2) + j('ops', ALL, 2) + j('ser', ALL, 1) + sc('enc', 'dec', 'sec', 'calc') + j('wb', ['buffers'], 6) + j('rb', ['buffers'], 6), only='crash'),
        'C19': with_(j('des', ALL, 1) + j('ops', ALL, 1) + j('ser', ALL, 1) + sc('enc', 'dec', 'sec', 'calc') + j('wb', ['buffers'], 3) + j('rb', ['buffers'], 3), only='alloc'),
        'C20': j('names', ALL + ['zlong'], 2), 'C17': j('rt', ALL, 4), 'C16': j('str', ALL, 3),
    }[prop]


def with_(jobs, **kw):
    return [j + (kw,) for j in jobs]


def assumptions(prop):
    """what the proofs of a property take for granted"""
    out = ['translation: clang 18 with opt sroa,instsimplify,simplifycfg keeps the meaning of the C++ source; the target is x86-64',
           'memcpy, memmove, memset, strlen, strnlen, strncpy, memcmp and strcmp are executed by their C standard meaning, not from their source',
           'strict aliasing and alignment are not modelled']
    inst = 'templates and generated code are verified for the instances in vf/zoo.py and vf/harness.py (all values, states and byte sequences; not all schemas)'
    if prop in ('C04', 'C05', 'C06'):
        out += ['the buffer capacities are those of vf/harness.py; content, position, counts and history are arbitrary']
    else:
        out += [inst]
    if prop in ('C01', 'C02', 'C03', 'C07', 'C08', 'C10', 'C11', 'C12', 'C13', 'C14', 'C17', 'C18'):
        out += ['a buffer given to the library keeps the contract of ReadBufferInterface / WriteBufferInterface (proved for the buffers of the library: C04, C05, C06; assumed for those of a user)']
    if prop in ('C07', 'C08', 'C10', 'C11', 'C12', 'C13', 'C14', 'C17', 'C18'):
        out += ['varints at message level are uninterpreted functions; the facts used about them are discharged from their definition in the varint tasks of the same check',
                'embedded messages at call sites: by the contract that the same check proves for their own type (induction over the nesting of types, which is finite)']
    if prop == 'C17':
        out += ['the composition of the per-field lemmas over the fields of a message and over the nesting of types is an induction argued in DESIGN.md, not discharged by the solver',
                'serialized sizes of embedded messages at most 0xffffff']
    if prop == 'C16':
        out += ['snprintf: writes at most size bytes including the terminator, only when size > 0, and returns a non-negative length of the full text; its text is not interpreted']
    if prop in ('C12', 'C13'):
        out += ['the inputs of the findings listed in known_findings.txt are specified as the code behaves']
    if prop == 'C19':
        out += ['the listed leaf functions of the C library do not allocate (snprintf of the C library may do so for formats the library does not use)']
    if prop == 'C20':
        out += ['the name table of the schemas in vf/zoo.py; every 32 bit field number']
    return out
