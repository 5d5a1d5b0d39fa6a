"""Reference model of the library over plain Python values.

It is used to look for a concrete failing input once an obligation was refuted, as the (bounded)
stand-in where a function is outside the verifier's reach, and to replay.  It shares no text with the
code in /repo and none with the proof specifications.

A message state is a dict: scalars as raw bit patterns, strings and bytes as bytes, repeated fields
as lists, embedded messages as dicts; 'h:<f>' presence of an optional field, 'o:<oneof>' the name of
the set member or None."""
from .zoo import SC

OK, EOB, FULL, WIRE, ARRAY, FIELD, OVERLONG, INDEX = range(8)


# ------------------------------------------------------------------ values
def zero(f):
    if f.scalar:
        return 0
    if f.kind == 'msg':
        return new(f.typ)
    return b''


def new(m):
    s = {}
    for f in m.fields:
        if f.label == 'oneof':
            continue
        s[f.name] = [] if f.rep else zero(f)
        if f.label == 'optional':
            s['h:' + f.name] = False
    for on in m.oneofs:
        s['o:' + on] = None
    return s


def copy(v):
    if isinstance(v, dict):
        return {k: copy(x) for k, x in v.items()}
    if isinstance(v, list):
        return [copy(x) for x in v]
    return v


def assign(d, s):
    c = copy(s)
    d.clear()
    d.update(c)


# ------------------------------------------------------------------ encoding
def varint(v):
    o = bytearray()
    while v >= 128:
        o.append(v & 127 | 128)
        v >>= 7
    o.append(v)
    return bytes(o)


def zz(v, w):
    s = v - (1 << w) if v >> (w - 1) else v
    return (2 * s if s >= 0 else -2 * s - 1) & ((1 << w) - 1)


def scalar(kind, v):
    w, wt, _ = SC[kind]
    if kind == 'bool':
        return bytes([v & 1])
    if kind in ('sint32', 'sint64'):
        return varint(zz(v, w))
    if wt == 0:
        return varint(v)
    return v.to_bytes(w // 8, 'little')


def iszero(kind, v):
    if kind in ('float', 'double'):
        return v & ((1 << (SC[kind][0] - 1)) - 1) == 0
    return v == 0


def tag(f):
    return varint(f.num << 3 | f.wt)


def blob(b):
    return varint(len(b)) + b


def field(f, v, force):
    if f.rep:
        if f.scalar:
            p = b''.join(scalar(f.kind, x) for x in v)
            return tag(f) + blob(p) if p else b''
        return b''.join(tag(f) + blob(encode(f.typ, x) if f.kind == 'msg' else x) for x in v)
    if f.scalar:
        return tag(f) + scalar(f.kind, v) if force or not iszero(f.kind, v) else b''
    p = encode(f.typ, v) if f.kind == 'msg' else v
    return tag(f) + blob(p) if force or p else b''


def present(f, s):
    if f.label == 'oneof':
        return s['o:' + f.oneof] == f.name
    if f.label == 'optional':
        return s['h:' + f.name]
    return True


def encode(m, s):
    return b''.join(field(f, s[f.name], f.presence) for f in m.order if present(f, s))


# ------------------------------------------------------------------ decoding
class Rd:
    def __init__(self, d, pos=0, lim=None):
        self.d, self.pos, self.lim = d, pos, len(d) if lim is None else lim

    def size(self):
        return self.lim

    def pop(self):
        if self.pos >= self.lim:
            return None
        self.pos += 1
        return self.d[self.pos - 1]

    def skip(self, n):
        r = n <= self.lim - self.pos
        self.pos = min(self.lim, self.pos + n)
        return r


class Sec:
    def __init__(self, p, n):
        self.p, self.left = p, min(n, p.size())
        self.cut = n > self.left

    def size(self):
        return self.left

    def pop(self):
        if not self.left:
            return None
        b = self.p.pop()
        if b is not None:
            self.left -= 1
        return b

    def skip(self, n):
        k = min(n, self.left)
        self.left -= k
        return self.p.skip(k) and k == n


def dvarint(r, w):
    """(error, value, bytes read)"""
    v, n, mx = 0, 0, 5 if w == 32 else 10
    while n < mx:
        b = r.pop()
        if b is None:
            return EOB, None, n
        v |= (b & 127) << (7 * n)
        n += 1
        if not b & 128:
            return OK, v & ((1 << w) - 1), n
    return OVERLONG, None, n


def vwidth(kind):
    return 32 if kind in ('uint32', 'enum') else 64


def dscalar(r, kind):
    w, wt, _ = SC[kind]
    if wt == 0:
        e, v, _n = dvarint(r, vwidth(kind))
        if e:
            return e, None
        if kind == 'bool':
            return OK, int(v != 0)
        v &= (1 << w) - 1
        if kind in ('sint32', 'sint64'):
            v = (v >> 1) ^ (((1 << w) - 1) if v & 1 else 0)
        return OK, v
    o = []
    for _ in range(w // 8):
        b = r.pop()
        if b is None:
            return EOB, None
        o.append(b)
    return OK, int.from_bytes(bytes(o), 'little')


def dblob(r, mx):
    e, n, _ = dvarint(r, 32)
    if e:
        return e, None
    if n > mx:
        return ARRAY, None
    o = bytearray()
    for _ in range(n):
        b = r.pop()
        if b is None:
            return EOB, None
        o.append(b)
    return OK, bytes(o)


def decode(m, s, r, lenient=False, dc=None):
    """decode into s; dc collects what is left open after an error.  lenient: with the known findings K1 and K2"""
    dc = set() if dc is None else dc
    byn = {f.num: f for f in m.fields}
    while True:
        e, t, n = dvarint(r, 32)
        if e == EOB and (n == 0 or lenient):
            return OK
        if e:
            return e
        num, wt = t >> 3, t & 7
        if wt > 5:
            return WIRE
        if num == 0:
            return FIELD
        f = byn.get(num)
        if f is None:
            e = skip(r, wt, lenient)
            if e:
                return e
            continue
        e = record(m, f, s, r, wt, lenient, dc)
        if e:
            if f.label == 'oneof':
                s['o:' + f.oneof] = None
                for g in m.oneofs[f.oneof]:
                    s.pop(g.name, None)
                    dc.discard(g.name)
            elif f.scalar and f.label == '':
                pass
            else:
                dc.add(f.name)
            return e


def skip(r, wt, lenient):
    if wt == 0:
        return dvarint(r, 64)[0]
    if wt in (1, 5):
        for _ in range(8 if wt == 1 else 4):
            if r.pop() is None:
                return EOB
        return OK
    if wt == 2:
        e, n, _ = dvarint(r, 32)
        if e:
            return e
        return OK if r.skip(n) or lenient else EOB
    return WIRE


def record(m, f, s, r, wt, lenient, dc):
    if f.label == 'oneof' and s['o:' + f.oneof] != f.name:
        for g in m.oneofs[f.oneof]:
            s.pop(g.name, None)
        s['o:' + f.oneof] = f.name
        s[f.name] = zero(f)
    if f.label == 'optional':
        s['h:' + f.name] = True
    if wt != f.wt:
        return WIRE
    if f.rep:
        v = s[f.name]
        if f.scalar:
            e, n, _ = dvarint(r, 32)
            if e:
                return e
            q = Sec(r, n)
            while True:
                probe = peek(q)
                if not probe:
                    return EOB if q.left or q.cut else OK
                e, x = dscalar(q, f.kind)
                if e:
                    return e
                if len(v) >= f.N:
                    return ARRAY
                v.append(x)
        if len(v) >= f.N:
            return ARRAY
        if f.kind == 'msg':
            x = new(f.typ)
            e = demb(f.typ, x, r, lenient)
        else:
            e, x = dblob(r, f.SL)
        if not e:
            v.append(x)
        return e
    if f.scalar:
        e, x = dscalar(r, f.kind)
    elif f.kind == 'msg':
        return demb(f.typ, s[f.name], r, lenient)
    else:
        e, x = dblob(r, f.SL)
    if not e:
        s[f.name] = x
    return e


def peek(q):
    """is there another byte?"""
    while isinstance(q, Sec):
        if not q.left:
            return False
        q = q.p
    return q.pos < q.lim


def demb(m, s, r, lenient):
    e, n, _ = dvarint(r, 32)
    if e:
        return e
    q = Sec(r, n)
    e = decode(m, s, q, lenient)
    return e or (EOB if q.left or q.cut else OK)


# ------------------------------------------------------------------ comparison
def same(m, a, b, dc=()):
    """first difference between two states, or None"""
    for f in m.fields:
        if f.name in dc:
            continue
        if f.label == 'oneof':
            if a['o:' + f.oneof] != b['o:' + f.oneof]:
                return f'oneof {f.oneof}: {a["o:" + f.oneof]} instead of {b["o:" + f.oneof]}'
            if a['o:' + f.oneof] != f.name:
                continue
        if f.label == 'optional' and a['h:' + f.name] != b['h:' + f.name]:
            return f'presence of {f.name}: {a["h:" + f.name]} instead of {b["h:" + f.name]}'
        x, y = a[f.name], b[f.name]
        if f.rep:
            if len(x) != len(y):
                return f'length of {f.name}: {len(x)} instead of {len(y)}'
            for i, (p, q) in enumerate(zip(x, y)):
                d = same(f.typ, p, q) if f.kind == 'msg' else None if p == q else f'{p!r} instead of {q!r}'
                if d:
                    return f'{f.name}[{i}]: {d}'
        elif f.kind == 'msg':
            d = same(f.typ, x, y)
            if d:
                return f'{f.name}.{d}'
        elif x != y:
            return f'{f.name}: {x!r} instead of {y!r}'
    return None


def normal(m, s):
    """a plain minus zero is written like zero"""
    s = copy(s)
    for f in m.fields:
        if f.name not in s:
            continue
        if f.kind in ('float', 'double') and f.label == '' and iszero(f.kind, s[f.name]):
            s[f.name] = 0
        elif f.kind == 'msg':
            s[f.name] = [normal(f.typ, x) for x in s[f.name]] if f.rep else normal(f.typ, s[f.name])
    return s
