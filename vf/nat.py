"""Native runs of the real code against the reference model (worker process).

  python3-vt -m vf.nat <job.json>

runs under the address and undefined behaviour sanitizers; the case being run is kept in a journal so
that a crash can be attributed to it.  Prints one JSON line with what was run and the first mismatches."""
import ctypes
import json
import mmap
import os
import random
import struct
import sys
import time
from . import ref, zoo
from .ref import OK, EOB, FULL, WIRE, ARRAY, FIELD, OVERLONG, INDEX
from .zoo import SC

T = {'v': ctypes.c_void_p, 'I': ctypes.c_uint32, 'Q': ctypes.c_uint64, 'B': ctypes.c_uint8, '?': ctypes.c_bool, 's': ctypes.c_char_p, '0': None}
UT = {8: 'B', 32: 'I', 64: 'Q'}


class Bad(Exception):
    pass


class Nat:
    def __init__(self, job):
        self.job = job
        self.R = random.Random(job['seed'])
        self.lib = ctypes.CDLL(job['so']) if job.get('so') else None
        self.libc = ctypes.CDLL(None)
        self.libc.malloc.restype = ctypes.c_void_p
        self.libc.malloc.argtypes = [ctypes.c_size_t]
        self.libc.free.argtypes = [ctypes.c_void_p]
        self.only = job.get('only')
        self.nalloc = self.lib.n_allocs() if self.lib and self.only == 'alloc' else 0
        self.cache = {}
        self.end = time.time() + job.get('budget', 20)
        self.maxcases = job.get('cases', 10 ** 9)
        self.n = 0
        self.checks = 0
        self.bad = []
        self.distinct = set()
        self.samples = []
        self.trail = []
        self.pool = [int(x) for x in job.get('pool', [])]
        self.f = open(job['journal'], 'w+b')
        self.f.write(b'\0' * 65536)
        self.f.flush()
        self.mm = mmap.mmap(self.f.fileno(), 65536)

    # ---- plumbing
    def call(self, name, sig, *a):
        """sig: result then arguments"""
        k = self.cache.get((name, sig))
        if k is None:
            k = getattr(self.lib, name)
            k.restype = T[sig[0]]
            k.argtypes = [T[c] for c in sig[1:]]
            self.cache[(name, sig)] = k
        return k(*a)

    def alloc(self, n, data=None, fill=0xa5):
        p = self.libc.malloc(max(1, n)) if n else self.libc.malloc(1) + 1
        if n:
            ctypes.memset(p, fill, n)
        if data:
            ctypes.memmove(p, data, len(data))
        return p

    def free(self, p, n=1):
        self.libc.free(p if n else p - 1)

    def note(self, s):
        self.trail.append(s)
        b = s.encode() + b'\n'
        o = self.off
        if o + len(b) < 65000:
            self.mm[o:o + len(b) + 1] = b + b'\0'
            self.off += len(b)

    def case(self, s):
        """start of a case; false when the budget is used up"""
        if time.time() > self.end or self.n >= self.maxcases or len(self.bad) >= 3:
            return False
        self.n += 1
        self.trail = []
        self.off = 0
        self.mm[0:1] = b'\0'
        self.note(s)
        return True

    def fail(self, what):
        raise Bad(what)

    def eq(self, what, got, want):
        self.checks += 1
        if got != want:
            raise Bad(f'{what}: got {got!r}, want {want!r}')

    def run(self, s, fn):
        """one case"""
        if not self.case(s):
            return False
        try:
            r = fn()
            if r is not None:
                self.distinct.add(hash(repr(r)))
                if len(self.samples) < 4 and self.n % 97 == 1:
                    self.samples.append(' | '.join(self.trail)[:400])
            self.allocs()
        except Bad as e:
            if self.only and not str(e).startswith('heap'):
                self.allocs_quiet()
                return True
            self.bad.append({'what': str(e)[:600], 'trail': [t[:600] for t in self.trail[-60:]], 'unit': self.job.get('unit'), 'suite': self.job['suite'], 'seed': self.job['seed'], 'case': self.n, 'only': self.only, 'term': self.job.get('term')})
        return True

    def allocs(self):
        """no heap operation since the last case"""
        if self.only != 'alloc':
            return
        k = self.lib.n_allocs()
        if k != self.nalloc:
            d, self.nalloc = k - self.nalloc, k
            self.fail(f'heap: {d} allocations or releases during the case')

    def allocs_quiet(self):
        if self.only == 'alloc':
            k = self.lib.n_allocs()
            if k != self.nalloc:
                self.bad.append({'what': f'heap: {k - self.nalloc} allocations or releases during the case', 'trail': [t[:600] for t in self.trail[-60:]], 'unit': self.job.get('unit'), 'suite': self.job['suite'], 'seed': self.job['seed'], 'case': self.n, 'only': self.only})
                self.nalloc = k

    # ---- random values
    def bits(self, w):
        R = self.R
        k = R.random()
        M = (1 << w) - 1
        if k < 0.2:
            v = R.choice((0, 1, 2, 127, 128, 255, 256, 300, M, M - 1, 1 << (w - 1), (1 << (w - 1)) - 1))
        elif k < 0.45:
            v = (1 << R.randrange(w)) + R.choice((-1, 0, 1))
        elif k < 0.6 and self.pool:
            v = R.choice(self.pool) + R.choice((0, 0, 0, 1, -1))
            if R.random() < 0.1:
                v = -v
        elif k < 0.75:
            v = -R.getrandbits(R.randrange(1, w + 1))
        else:
            v = R.getrandbits(R.randrange(1, w + 1))
        return v & M

    def val(self, kind):
        if kind == 'bool':
            return self.R.randrange(2)
        return self.bits(SC[kind][0])

    def data(self, n):
        R = self.R
        k = R.random()
        if k < 0.15:
            return bytes(n)
        if k < 0.3:
            return bytes([R.choice((0, 65, 255)) for _ in range(n)])
        return R.randbytes(n)

    def length(self, mx, over=True):
        R = self.R
        c = [0, 1, mx, mx - 1] + ([mx + 1, mx + 2] if over else [])
        v = R.choice(c) if R.random() < 0.6 else R.randrange(mx + (3 if over else 1))
        return max(0, min(v, mx + 2 if over else mx))

    # ---- ghost buffers
    def reader(self, data, lim=None):
        n = len(data)
        b = self.alloc(n, data)
        g = self.alloc(self.call('gr_sizeof', 'Q'))
        self.call('n_gr_init', '0vvIII', g, b, 0, n if lim is None else lim, 0)
        return g, b, n

    def writer(self, pre, cap):
        b = self.alloc(cap, pre[:cap])
        g = self.alloc(self.call('gw_sizeof', 'Q'))
        self.call('n_gw_init', '0vvII', g, b, len(pre), cap)
        return g, b, cap

    def wdata(self, w):
        g, b, cap = w
        n = self.call('n_gw_len', 'Iv', g)
        return ctypes.string_at(b, n) if n else b''

    def drop(self, w):
        g, b, n = w
        self.free(g)
        self.free(b, n)


# ------------------------------------------------------------------ messages
class Msgs(Nat):
    def __init__(self, job):
        super().__init__(job)
        self.s = zoo.build()[job['unit']]
        self.msgs = [m for i in self.s.imports for m in i.all_msgs()] + self.s.all_msgs()
        self.size = {m.id: self.call(m.id + '__sizeof', 'Q') for m in self.msgs}

    def create(self, m):
        p = self.alloc(self.size[m.id], fill=self.R.choice((0xa5, 0xff, 0x01)))
        self.call(m.id + '__ctor', '0v', p)
        return p

    def destroy(self, m, p):
        self.call(m.id + '__dtor', '0v', p)
        self.free(p)

    def obs(self, m, p):
        s = {}
        for on, l in m.oneofs.items():
            w = self.call(f'{m.id}__which_{on}', 'Iv', p)
            f = next((f for f in l if f.num == w), None)
            s['o:' + on] = f.name if f else (None if w == 0 else f'?{w}')
            for g in l:
                if self.call(f'{m.id}_{g.name}_has', '?v', p) != (g is f):
                    self.fail(f'has_{g.name} disagrees with which_{on} = {w}')
        for f in m.fields:
            if f.label == 'oneof' and s['o:' + f.oneof] != f.name:
                continue
            if f.label == 'optional':
                s['h:' + f.name] = self.call(f'{m.id}_{f.name}_has', '?v', p)
            s[f.name] = self.obsf(m, f, p)
        return s

    def obsf(self, m, f, p):
        P = f'{m.id}_{f.name}_'
        c = self.call
        if f.rep:
            n = c(P + 'len', 'Iv', p)
            if n > f.N:
                self.fail(f'length {n} of {f.name} exceeds its maximum {f.N}')
            o = []
            for i in range(n):
                if f.scalar:
                    o.append(c(P + 'at', UT[f.w] + 'vI', p, i))
                elif f.kind == 'msg':
                    o.append(self.obs(f.typ, c(P + 'ptr', 'vvI', p, i)))
                else:
                    k = c(P + 'elen', 'IvI', p, i)
                    if k > f.SL:
                        self.fail(f'length {k} of {f.name}[{i}] exceeds its maximum {f.SL}')
                    o.append(bytes(c(P + 'eat', 'BvII', p, i, j) for j in range(k)))
            return o
        if f.scalar:
            return c(P + 'get', UT[f.w] + 'v', p)
        if f.kind == 'msg':
            return self.obs(f.typ, c(P + 'ptr', 'vv', p))
        n = c(P + 'len', 'Iv', p)
        if n > f.SL:
            self.fail(f'length {n} of {f.name} exceeds its maximum {f.SL}')
        return bytes(c(P + 'at', 'BvI', p, j) for j in range(n))

    def cmp(self, what, m, p, s, dc=()):
        self.checks += 1
        d = ref.same(m, self.obs(m, p), s, dc)
        if d:
            self.fail(f'{m.id}: {what}: {d}')

    # ---- building a state through the public interface
    def touch(self, m, f, s):
        """mutable access or setting: presence"""
        if f.label == 'optional':
            s['h:' + f.name] = True
        elif f.label == 'oneof' and s['o:' + f.oneof] != f.name:
            for g in m.oneofs[f.oneof]:
                s.pop(g.name, None)
            s['o:' + f.oneof] = f.name
            s[f.name] = ref.zero(f)

    def clear_field(self, m, f, s):
        if f.label == 'oneof':
            if s['o:' + f.oneof] == f.name:
                s['o:' + f.oneof] = None
                s.pop(f.name)
            return
        if f.label == 'optional':
            s['h:' + f.name] = False
        s[f.name] = [] if f.rep else ref.zero(f)

    def blob(self, v):
        """a copy of v in memory of exactly its size"""
        b = self.alloc(len(v), v)
        self.tmp.append((b, len(v)))
        return b

    def op(self, m, p, s, others, depth=0):
        """one random operation on message p, whose model state is s"""
        if not m.fields:
            return
        R = self.R
        f = R.choice(m.fields)
        P = f'{m.id}_{f.name}_'
        c = self.call
        self.tmp = []
        if R.random() < 0.08:
            self.note(f'clear_{f.name}()')
            c(P + 'clear', '0v', p)
            self.clear_field(m, f, s)
        elif f.rep:
            self.op_rep(m, f, p, s, others, P)
        elif f.scalar:
            v = self.val(f.kind)
            w = ['set', 'set2']
            if f.label != 'oneof' and f.kind != 'enum':
                w += ['mset', 'mut']
            k = R.choice(w)
            self.note(f'{k} {f.name} {v:#x}')
            u = UT[f.w]
            if k == 'mut':
                self.eq(f'mutable_{f.name}()', c(P + 'mut', u + 'v', p), s[f.name])
                self.touch(m, f, s)
            else:
                c(P + k, '0v' + u, p, v)
                self.touch(m, f, s)
                s[f.name] = v
            self.eq(f'{f.name}()', c(P + 'get2', u + 'v', p), s[f.name])
        elif f.kind == 'msg':
            k = R.choice(['mut', 'mut', 'mut', 'set', 'set2'])
            if k == 'mut':
                q = c(P + 'mut', 'vv', p)
                self.note(f'mutable_{f.name}()')
                self.touch(m, f, s)
                if depth < 4:
                    self.op(f.typ, q, s[f.name], [], depth + 1)
            else:
                q, x = self.random_msg(f.typ, depth + 1)
                self.note(f'{k} {f.name} {short(x)}')
                c(P + k, '0vv', p, q)
                self.touch(m, f, s)
                s[f.name] = x
                self.destroy(f.typ, q)
        else:
            self.op_str(m, f, p, s, others, P)
        for b, n in self.tmp:
            self.free(b, n)
        self.tmp = []

    def op_rep(self, m, f, p, s, others, P):
        R, c = self.R, self.call
        v = s[f.name]
        ks = ['add', 'addr', 'eset', 'mclear', 'add', 'rset']
        if f.scalar:
            ks += ['eset2', 'mset', 'setd', 'atc']
        if f.kind == 'msg':
            ks += ['mut', 'mut']
        k = R.choice(ks)
        i = self.length(f.N - 1) if R.random() < 0.9 else R.choice((f.N, f.N + 1, 0xffffffff, 0x80000000, 256))
        j = min(i, f.N - 1)
        if k == 'mclear':
            self.note(f'mutable_{f.name}().clear()')
            c(P + k, '0v', p)
            s[f.name] = []
            return
        if k == 'rset':
            o = R.choice(others) if others else None
            if o is None:
                return
            self.note(f'set_{f.name}(other)')
            c(P + 'rset', '0vv', p, o[0])
            s[f.name] = ref.copy(o[1][f.name])
            return
        if f.scalar:
            u = UT[f.w]
            x = self.val(f.kind)
            sig, args = u, (x,)
        elif f.kind == 'msg':
            if k == 'mut':
                self.note(f'mutable_{f.name}({i})')
                q = c(P + 'mut', 'vvI', p, i)
                self.grow(m, f, p, s, j, P, keep=True)
                self.op(f.typ, q, v[j], [], 3)
                return
            q, x = self.random_msg(f.typ, 2)
            sig, args = 'v', (q,)
        else:
            n = self.length(f.SL)
            x = self.data(n)
            sig, args = 'vI', (self.blob(x), n)
            if n > f.SL:
                x = b''
        if k == 'atc':
            got = (u_ := {'B': ctypes.c_uint8, 'I': ctypes.c_uint32, 'Q': ctypes.c_uint64}[u])(x)
            self.note(f'get_{f.name}().get_const({i}, x)')
            e = c(P + 'atc', 'IvIv', p, i, ctypes.addressof(got))
            self.eq('get_const error', e, OK if i < len(v) else INDEX)
            self.eq('get_const value', got.value, v[i] if i < len(v) else x)
            return
        if k in ('add', 'addr'):
            self.note(f'{k} {f.name} {x!r:.60}')
            e = c(P + k, ('I' if k == 'addr' else '0') + 'v' + sig, p, *args)
            full = len(v) >= f.N
            if k == 'addr':
                self.eq(f'add({f.name}) result', e, ARRAY if full else OK)
            if not full:
                v.append(x)
        elif k == 'setd':
            n = self.length(f.N)
            a = [self.val(f.kind) for _ in range(f.N + 2)]
            arr = (T[UT[f.w]] * len(a))(*a)
            self.note(f'set_data {f.name} {a[:n]}')
            e = c(P + k, 'IvvI', p, ctypes.addressof(arr), n)
            self.eq(f'set_data({f.name}) result', e, ARRAY if n > f.N else OK)
            if n <= f.N:
                s[f.name] = a[:n]
        else:
            self.note(f'{k} {f.name}[{i}] {x!r:.60}')
            c(P + k, '0vI' + sig, p, i, *args)
            self.grow(m, f, p, s, j, P)
            s[f.name][j] = x
        if f.kind == 'msg':
            self.destroy(f.typ, args[0])

    def blank(self, m, p):
        """what comes to light when the length is extended after clear"""
        for f in m.fields:
            P = f'{m.id}_{f.name}_'
            if f.label == 'oneof':
                continue
            if f.rep and f.scalar:
                self.eq(f'elements of {f.name} after clear', [x for x in (self.call(P + 'at', UT[f.w] + 'vI', p, i) for i in range(f.N)) if x], [])
            elif f.kind in ('string', 'bytes') and not f.rep:
                self.eq(f'characters of {f.name} after clear', [x for x in (self.call(P + 'raw', 'BvI', p, i) for i in range(f.SL)) if x], [])
            elif f.kind in ('string', 'bytes'):
                self.eq(f'elements of {f.name} after clear', [x for x in (self.call(P + 'elen', 'IvI', p, i) for i in range(f.N)) if x], [])

    def grow(self, m, f, p, s, j, P, keep=False):
        """the length now includes j; elements skipped over are whatever was there"""
        v = s[f.name]
        n = self.call(P + 'len', 'Iv', p)
        self.eq(f'length of {f.name} after writing element {j}', n, max(len(v), j + 1))
        if j >= len(v):
            got = self.obsf(m, f, p)
            k = len(v)
            s[f.name] += got[k:]

    def op_str(self, m, f, p, s, others, P):
        R, c = self.R, self.call
        ks = ['set', 'set', 'mset', 'mset', 'mat', 'mclear', 'fset', 'atc']
        if f.kind == 'string':
            ks += ['cset', 'cset']
        k = R.choice(ks)
        cur = s.get(f.name, b'') if f.label != 'oneof' or s['o:' + f.oneof] == f.name else b''
        if k == 'fset':
            o = R.choice(others) if others else None
            if o is None or (f.label == 'oneof' and o[1]['o:' + f.oneof] != f.name):
                return
            self.note(f'set_{f.name}(other)')
            c(P + k, '0vv', p, o[0])
            self.touch(m, f, s)
            s[f.name] = o[1][f.name]
        elif k == 'atc':
            if f.label == 'oneof' and s['o:' + f.oneof] != f.name:
                return
            i = self.length(f.SL)
            got = ctypes.c_uint8(0x5a)
            self.note(f'get_{f.name}().get_const({i}, x)')
            e = c(P + 'atc', 'IvIv', p, i, ctypes.addressof(got))
            self.eq('get_const error', e, OK if i < len(cur) else INDEX)
            self.eq('get_const value', got.value, cur[i] if i < len(cur) else 0x5a)
            for i in range(len(cur)):
                self.eq(f'{f.name}()[{i}]', (c(P + 'raw', 'BvI', p, i), c(P + 'at2', 'BvI', p, i)), (cur[i], cur[i]))
            self.eq('max length', c(P + 'max', 'Iv', p), f.SL)
        elif k == 'mclear':
            self.note(f'mutable_{f.name}().clear()')
            c(P + k, '0v', p)
            self.touch(m, f, s)
            s[f.name] = b''
        elif k == 'mat':
            i = self.length(f.SL - 1) if R.random() < 0.8 else R.choice((f.SL, f.SL + 7, 0xffffffff))
            x = R.randrange(256)
            self.note(f'mutable_{f.name}()[{i}] = {x}')
            c(P + k, '0vIB', p, i, x)
            self.touch(m, f, s)
            j = min(i, f.SL - 1)
            got = self.obsf(m, f, p)
            self.eq(f'length of {f.name} after writing element {j}', len(got), max(len(cur), j + 1))
            b = bytearray(cur)
            if j >= len(cur):
                b += got[len(cur):]
            b[j] = x
            s[f.name] = bytes(b)
        elif k == 'cset':
            if R.random() < 0.15:
                self.note(f'mutable_{f.name}() = nullptr')
                c(P + k, '0vv', p, None)
                x = b''
            else:
                n = self.length(f.SL)
                x = bytes(b or 65 for b in self.data(n))
                self.note(f'mutable_{f.name}() = {x!r:.80}')
                c(P + k, '0vv', p, self.blob(x + b'\0'))
            self.touch(m, f, s)
            s[f.name] = x[:f.SL]
            if self.job.get('term'):
                self.terminated(m, f, p, len(s[f.name]))
        else:
            n = self.length(f.SL)
            x = self.data(n)
            self.note(f'{k} {f.name} {x!r:.80}')
            e = c(P + k, 'IvvI', p, self.blob(x), n)
            self.touch(m, f, s)
            self.eq('set result', e, ARRAY if n > f.SL else OK)
            if n <= f.SL:
                s[f.name] = x
            elif k == 'set':
                s[f.name] = b''

    def random_msg(self, m, depth=0):
        """a message in a random state, and its model"""
        tmp, self.tmp = getattr(self, 'tmp', []), []
        p, s = self.create(m), ref.new(m)
        k = len(self.trail)
        off = self.off
        for _ in range(self.R.choice((0, 1, 2, 3, len(m.fields), 2 * len(m.fields)))):
            self.op(m, p, s, [], depth)
        if depth:
            del self.trail[k:]
            self.off = off
        self.tmp = tmp
        return p, s

    def rand_state(self, m, depth=0):
        """a random model state"""
        R = self.R
        s = ref.new(m)
        for f in m.fields:
            if R.random() < 0.45:
                continue
            if f.label == 'oneof':
                self.touch(m, f, s)
            elif f.label == 'optional':
                s['h:' + f.name] = True
            one = lambda: (self.val(f.kind) if f.scalar else self.rand_state(f.typ, depth + 1) if f.kind == 'msg' else self.data(self.length(f.SL, False)))
            s[f.name] = [one() for _ in range(self.length(f.N, False))] if f.rep else one()
        return s

    # ---- suites
    def suite_ops(self):
        while self.run('operations', self.ops_case):
            pass

    def ops_case(self):
        R, c = self.R, self.call
        m = R.choice(self.msgs)
        self.note(m.id)
        objs = [[self.create(m), ref.new(m)] for _ in range(3)]
        for i, (p, s) in enumerate(objs):
            self.cmp(f'object {i} after construction', m, p, s)
        for _ in range(R.choice((4, 10, 25))):
            i = R.randrange(3)
            p, s = objs[i]
            k = R.random()
            if k < 0.78:
                self.note(f'on object {i}:')
                self.op(m, p, s, [o for o in objs if o[0] != p])
            elif k < 0.93:
                j = R.randrange(3)
                w = R.choice(('asg', 'masg', 'copy', 'move'))
                if w in ('copy', 'move'):
                    if i == j:
                        continue
                    self.note(f'object {i} = new from object {j} ({w})')
                    self.destroy(m, p)
                    p = objs[i][0] = self.alloc(self.size[m.id], fill=R.choice((0xa5, 0xff, 0x01)))
                    c(f'{m.id}__{w}', '0vv', p, objs[j][0])
                else:
                    self.note(f'object {i} = object {j} ({w})')
                    c(f'{m.id}__{w}', '0vv', p, objs[j][0])
                ref.assign(s, objs[j][1])
            elif k < 0.97:
                self.note(f'object {i}.clear()')
                c(m.id + '__clear', '0v', p)
                ref.assign(s, ref.new(m))
                self.eq('serialized size after clear', c(m.id + '__size', 'Iv', p), 0)
                self.blank(m, p)
            else:
                self.note(f'object {i}: serialize and size')
                self.ser_checks(m, p, s)
            for j, (p, s) in enumerate(objs):
                self.cmp(f'object {j} after {self.trail[-1]}', m, p, s)
        for p, _ in objs:
            self.destroy(m, p)
        return self.trail

    def ser_checks(self, m, p, s):
        R, c = self.R, self.call
        e = ref.encode(m, s)
        n = len(e)
        self.eq(f'{m.id} serialized_size', c(m.id + '__size', 'Iv', p), n)
        for cap in {n, n - 1, R.randrange(n + 1), n + R.randrange(1, 9)}:
            if cap < 0:
                continue
            pre = R.randbytes(R.choice((0, 0, 1, 5)))
            w = self.writer(pre, cap + len(pre))
            r = c(m.id + '__ser', 'Ivv', p, w[0])
            self.eq(f'{m.id} serialize with {cap} bytes free ({n} needed)', r, OK if cap >= n else FULL)
            d = self.wdata(w)
            if cap >= n:
                self.eq(f'{m.id} serialized bytes', d.hex(), (pre + e).hex())
            else:
                self.eq(f'{m.id} bytes before', d[:len(pre)], pre)
            self.drop(w)

    def suite_ser(self):
        while self.run('serialize', self.ser_case):
            pass

    def ser_case(self):
        R, c = self.R, self.call
        m = R.choice(self.msgs)
        self.note(m.id)
        p, s = self.random_msg(m)
        self.note(f'state {short(s)}')
        self.ser_checks(m, p, s)
        ident = R.choice((1, 15, 16, 2047, 2048, (1 << 29) - 1, R.randrange(1, 1 << 29)))
        opt = R.random() < 0.5
        e = ref.encode(m, s)
        full = ref.varint(ident << 3 | 2) + ref.blob(e) if opt or e else b''
        for cap in {len(full), max(0, len(full) - 1), len(full) + 3, R.randrange(len(full) + 1)}:
            w = self.writer(b'', cap)
            r = c(m.id + '__serid', 'IvIv?', p, ident, w[0], opt)
            self.note(f'serialize_with_id({ident}, optional={opt}) capacity {cap}')
            self.eq(f'{m.id} serialize_with_id result', r, OK if cap >= len(full) else FULL)
            if cap >= len(full):
                self.eq(f'{m.id} serialize_with_id bytes', self.wdata(w).hex(), full.hex())
            self.drop(w)
        self.cmp('after serialization', m, p, s)
        self.destroy(m, p)
        return e

    def suite_rt(self):
        while self.run('round trip', self.rt_case):
            pass

    def rt_case(self):
        R, c = self.R, self.call
        m = R.choice(self.msgs)
        self.note(m.id)
        p, s = self.random_msg(m)
        self.note(f'state {short(s)}')
        n = c(m.id + '__size', 'Iv', p)
        if n > 1 << 20:
            self.fail(f'size {n}')
        w = self.writer(b'', n + 64)
        self.eq('serialize', c(m.id + '__ser', 'Ivv', p, w[0]), OK)
        d = self.wdata(w)
        r = self.reader(d)
        q = self.create(m)
        if R.random() < 0.3:
            q2, s2 = self.random_msg(m)
            c(m.id + '__asg', '0vv', q, q2)
            c(m.id + '__clear', '0v', q)
            self.destroy(m, q2)
        self.note(f'bytes {d.hex()}')
        self.eq('deserialize', c(m.id + '__des', 'Ivv', q, r[0]), OK)
        self.eq('bytes consumed', c('n_gr_pos', 'Iv', r[0]), len(d))
        self.cmp('round trip', m, q, ref.normal(m, s))
        self.cmp('the original', m, p, s)
        for x in (p, q):
            self.destroy(m, x)
        self.drop(r)
        self.drop(w)
        return d

    # ---- decoding
    def rvarint(self, v, pad=None):
        """an encoding of v, sometimes not the shortest"""
        b = bytearray(ref.varint(v))
        R = self.R
        if pad is None:
            pad = R.choice((0, 0, 0, 0, 0, 0, 1, 2)) if R.random() < 0.5 else 0
        if pad and len(b) + pad <= 11:
            b[-1] |= 128
            b += b'\x80' * (pad - 1) + R.choice((b'\0', b'\0', b'\1', b'\x7f'))
        return bytes(b)

    def rrecord(self, m, f, s, depth):
        """one record for f with random content (mostly good)"""
        R = self.R
        wt = f.wt if R.random() < 0.96 else R.randrange(8)
        t = self.rvarint(f.num << 3 | wt)
        if f.scalar and not f.rep:
            return t + self.rscalar(f.kind)
        if f.scalar:
            k = self.length(f.N) if R.random() < 0.8 else R.randrange(f.N + 4)
            p = b''.join(self.rscalar(f.kind) for _ in range(k))
            if R.random() < 0.06 and p:
                p = p[:-1]
        elif f.kind == 'msg':
            p = self.rstream(f.typ, depth + 1)
        else:
            p = self.data(self.length(f.SL))
        n = len(p)
        if R.random() < 0.06:
            n = max(0, n + R.choice((-1, 1, 2, 100, 1 << 20, (1 << 32) - 1 - n, (1 << 31) - n)))
        return t + self.rvarint(n) + p

    def rscalar(self, kind):
        w, wt, _ = SC[kind]
        v = self.val(kind)
        if wt == 0:
            x = self.R.random()
            if x < 0.1:
                v = self.bits(64)
            elif w == 32 and v >> 31 and x < 0.5:
                v |= 0xffffffff00000000
            elif kind in ('sint32', 'sint64'):
                v = ref.zz(v, w)
            return self.rvarint(v)
        return v.to_bytes(w // 8, 'little')

    def runknown(self, m):
        R = self.R
        nums = {f.num for f in m.fields}
        while True:
            n = R.choice((R.randrange(1, 40), R.randrange(1, 1 << 29), 1 << 28, 19000, (1 << 29) - 1) + tuple(max(1, k + d) & 0x1fffffff or 1 for k in list(nums)[:6] for d in (-1, 1, 128, 256, 65536)))
            if n not in nums:
                break
        wt = R.choice((0, 1, 2, 5, 0, 1, 2, 5, 3, 4))
        t = self.rvarint(n << 3 | wt)
        if wt == 0:
            return t + self.rvarint(self.bits(64))
        if wt in (1, 5):
            return t + R.randbytes(8 if wt == 1 else 4)
        if wt == 2:
            k = R.choice((0, 1, 2, 5, 127, 128, 300)) if R.random() < 0.4 else R.randrange(12)
            b = self.rstream(m, 9) if R.random() < 0.3 and m.fields else R.randbytes(k)
            return t + self.rvarint(len(b)) + b
        return t

    def rstream(self, m, depth=0):
        R = self.R
        o = b''
        for _ in range(R.choice((0, 1, 1, 2, 3, 5, 8)) if depth < 3 else R.choice((0, 1))):
            k = R.random()
            if m.fields and k < 0.8:
                o += self.rrecord(m, R.choice(m.fields), None, depth)
            elif k < 0.985:
                o += self.runknown(m)
            else:
                o += R.choice((b'\0', b'\x07', b'\x0e', b'\xff\xff\xff\xff\xff\1', b'\x80', R.randbytes(3)))
        return o

    def mutate(self, d):
        R = self.R
        k = R.random()
        if not d or k < 0.55:
            return d
        if k < 0.75:
            return d[:R.randrange(len(d) + 1)]
        b = bytearray(d)
        if k < 0.9:
            b[R.randrange(len(b))] = R.choice((0, 1, 0x7f, 0x80, 0xff, R.randrange(256)))
        else:
            i = R.randrange(len(b) + 1)
            b[i:i] = R.randbytes(R.choice((1, 2)))
        return bytes(b)

    def suite_des(self):
        while self.run('deserialize', self.des_case):
            pass

    def des_case(self):
        R, c = self.R, self.call
        m = R.choice(self.msgs)
        self.note(m.id)
        if R.random() < 0.4:
            p, s = self.random_msg(m)
            self.note(f'state {short(s)}')
        else:
            p, s = self.create(m), ref.new(m)
        k = R.random()
        if k < 0.25:
            d = ref.encode(m, self.rand_state(m))
        elif k < 0.3 and self.job.get('blobs'):
            d = bytes.fromhex(R.choice(self.job['blobs']))
        else:
            d = self.rstream(m)
        d = self.mutate(d)
        self.des_check(m, p, s, d)
        self.destroy(m, p)
        return d

    def des_check(self, m, p, s, d):
        c = self.call
        self.note(f'bytes {d.hex()}')
        res = []
        for len_ in (False, True):
            s1, dc, rd = ref.copy(s), set(), ref.Rd(d)
            e = ref.decode(m, s1, rd, len_, dc)
            res.append((e, s1, dc, rd.pos))
        r = self.reader(d)
        e = c(m.id + '__des', 'Ivv', p, r[0])
        pos = c('n_gr_pos', 'Iv', r[0])
        self.drop(r)
        got = self.obs(m, p)
        self.checks += 1
        why = []
        for e1, s1, dc, pos1 in res:
            if e != e1:
                why.append(f'error {e} instead of {e1}')
            elif e == OK and pos != pos1:
                why.append(f'consumed {pos} bytes instead of {pos1}')
            else:
                x = ref.same(m, got, s1, dc if e else ())
                if not x:
                    if self.job.get('term') and e == OK:
                        for f in m.fields:
                            if f.kind == 'string' and not f.rep and f.num in top(d) and f.name in got:
                                self.terminated(m, f, p, len(got[f.name]))
                    return
                why.append(x)
        self.fail(f'{m.id} deserialize({d.hex()}): {why[0]}')

    def terminated(self, m, f, p, n):
        if n < f.SL:
            self.eq(f'character behind the {n} of {f.name}', self.call(f'{m.id}_{f.name}_raw', 'BvI', p, n), 0)

    def suite_str(self):
        while self.run('to_string', self.str_case):
            pass

    def str_case(self):
        R, c = self.R, self.call
        m = R.choice(self.msgs)
        self.note(m.id)
        p, s = self.random_msg(m)
        self.note(f'state {short(s)}')
        total = 3000
        for k in range(3):
            # small arrays are where the text does not fit
            n = R.choice((0, 1, 2, 3, R.randrange(8), R.randrange(64), R.randrange(300), R.randrange(total), total * 8))
            a = self.alloc(n)
            v, o = self.alloc(16), self.alloc(16)
            ctypes.memmove(v, struct.pack('<QQ', a, n), 16)
            if R.random() < 0.5:
                self.note(f'to_string into {n} characters')
                c(m.id + '__tostr1', '0vvv', p, v, o)
            else:
                ind, nm, first = R.choice((0, 2, 4, R.randrange(40))), R.choice((None, b'x', b'name')), R.random() < 0.5
                self.note(f'to_string into {n} characters, indent {ind}, name {nm}, first {first}')
                nb = self.alloc(len(nm) + 1, nm + b'\0') if nm else None
                c(m.id + '__tostr', '0vvIv?v', p, v, ind, nb, first, o)
                if nb:
                    self.free(nb)
            d, z = struct.unpack('<QQ', ctypes.string_at(o, 16))
            z &= 0xffffffff
            if not (a <= d <= a + n and d + z <= a + n):
                self.fail(f'{m.id} to_string: view at {d - a} of size {z} returned for an array of {n}')
            if n and b'\0' not in ctypes.string_at(a, n):
                self.fail(f'{m.id} to_string: text in {n} characters is not terminated')
            d2, z2 = struct.unpack('<QQ', ctypes.string_at(v, 16))
            if d2 != a or z2 & 0xffffffff != n:
                self.fail(f'{m.id} to_string: the view it was given changed')
            self.checks += 3
            for x in (a if n else a - 1, v, o):
                self.free(x)
        self.cmp('after to_string', m, p, s)
        self.destroy(m, p)
        return m.id + repr(s)

    def suite_names(self):
        c, R = self.call, self.R

        def one(m):
            self.note(m.id)
            nm = {f.num: f.name for f in m.fields}
            for f in m.fields:
                self.eq(f'{m.id}.{f.name} number', c(f'{m.id}_{f.name}_num', 'I'), f.num)
            inv = None
            xs = list(nm) + [0, 0xffffffff, 1 << 31] + [k + d for k in nm for d in (-1, 1, 128, 256, 65536, 1 << 29)] + [R.getrandbits(R.randrange(1, 33)) for _ in range(3000)]
            for x in xs:
                x &= 0xffffffff
                g = c(f'{m.id}__name', 'sI', x)
                self.checks += 1
                if x in nm:
                    if g != nm[x].encode():
                        self.fail(f'{m.id}: name of field {x}: {g!r} instead of {nm[x]!r}')
                else:
                    if g is None or g.decode() in nm.values():
                        self.fail(f'{m.id}: name of number {x}, which is not in the schema: {g!r}')
                    if inv is not None and g != inv:
                        self.fail(f'{m.id}: name of number {x}: {g!r}, but {inv!r} for others')
                    inv = g
            return m.id
        for m in self.msgs:
            self.run('names', lambda: one(m))

        def enums():
            for i, _, v in zoo.enums_of(self.s):
                self.eq(f'enumeration constant {i}', c('ENUM_' + i, 'I'), v)
            return 'enums'
        self.run('names', enums)


def short(s):
    return repr({k: v for k, v in s.items() if v not in (0, False, None, b'', [])})[:500]


# ------------------------------------------------------------------ scalars
class Scalars(Nat):
    def suite_enc(self):
        while self.run('encode', self.enc_case):
            pass

    def enc_case(self):
        R, c = self.R, self.call
        k = R.choice(list(SC))
        w, wt, _ = SC[k]
        u = UT[w]
        v = self.val(k)
        ident = R.choice((1, 15, 16, 2047, 2048, (1 << 18) - 1, 1 << 18, (1 << 25) - 1, 1 << 25, (1 << 29) - 1, R.randrange(1, 1 << 29)))
        opt = R.random() < 0.5
        pay = ref.scalar(k, v)
        tg = ref.varint(ident << 3 | wt)
        pre = R.randbytes(R.choice((0, 1, 7)))
        for fn, want in ((0, pay), (1, tg + pay), (2, tg + pay)):
            if fn == 2 and k == 'enum':
                wn = 'w_enum'
            elif fn == 2:
                wn = {'boolean': 'w_bool'}.get(k, 'w_' + k)
            for cap in {len(want), len(want) - 1, len(want) + 2, R.randrange(len(want) + 1)}:
                wr = self.writer(pre, len(pre) + max(0, cap))
                cap = max(0, cap)
                if fn == 0:
                    self.note(f's_{k}_ser({v:#x}) room {cap}')
                    e = c(f's_{k}_ser', f'I{u}v', v, wr[0])
                elif fn == 1:
                    self.note(f's_{k}_serid({v:#x}, {ident}, {opt}) room {cap}')
                    e = c(f's_{k}_serid', f'I{u}Iv?', v, ident, wr[0], opt)
                else:
                    self.note(f'{wn}({ident}, {v:#x}) room {cap}')
                    e = c(wn, f'II{u}v', ident, v, wr[0])
                x = want
                if fn == 1 and not opt and ref.iszero(k, v):
                    x = b'' if self.job.get('skipzero') else want
                self.eq(f'{k} {v:#x} result', e, OK if cap >= len(x) else FULL)
                d = self.wdata(wr)
                if cap >= len(x):
                    self.eq(f'{k} {v:#x} bytes', d.hex(), (pre + x).hex())
                else:
                    self.eq('bytes before', d[:len(pre)], pre)
                self.drop(wr)
        self.eq(f'{k} size', c(f's_{k}_size', 'I' + u, v), len(pay))
        return k, v, ident

    def suite_dec(self):
        while self.run('decode', self.dec_case):
            pass

    def dec_case(self):
        R, c = self.R, self.call
        k = R.choice(list(SC))
        w, wt, _ = SC[k]
        u = UT[w]
        if wt == 0:
            v = self.val(k) if R.random() < .5 else self.bits(64)
            b = bytearray(ref.varint(v))
            if R.random() < .3:
                n = R.randrange(1, 12)
                b = bytearray([x | 128 for x in b[:n]] + [128] * max(0, n - len(b)) + [R.randrange(128)])
            d = bytes(b) + R.randbytes(R.randrange(3))
        else:
            d = R.randbytes(w // 8) if R.random() < .5 else self.val(k).to_bytes(w // 8, 'little')
            d += R.randbytes(R.randrange(3))
        if R.random() < .3:
            d = d[:R.randrange(len(d) + 1)]
        old = self.val(k)
        cell = T[u](old)
        rd = ref.Rd(d)
        e1, v1 = ref.dscalar(rd, k)
        pos1 = rd.pos
        r = self.reader(d)
        chk = R.random() < .4
        if chk:
            t = wt if R.random() < .7 else R.randrange(6)
            self.note(f's_{k}_deschk {d.hex()} wt {t} old {old:#x}')
            e = c(f's_{k}_deschk', 'IvvI', ctypes.addressof(cell), r[0], t)
            if t != wt:
                e1, v1, pos1 = WIRE, None, 0
        else:
            self.note(f's_{k}_des {d.hex()} old {old:#x}')
            e = c(f's_{k}_des', 'Ivv', ctypes.addressof(cell), r[0])
        pos = c('n_gr_pos', 'Iv', r[0])
        self.drop(r)
        self.eq(f'{k} decode {d.hex()} result', e, e1)
        self.eq(f'{k} decode {d.hex()} value', cell.value, v1 if not e1 else old)
        if not e1 or e1 == WIRE:
            self.eq(f'{k} decode {d.hex()} consumed', pos, pos1)
        return k, d

    def suite_srt(self):
        while self.run('scalar round trip', self.srt_case):
            pass

    def srt_case(self):
        R, c = self.R, self.call
        k = R.choice(list(SC))
        w = SC[k][0]
        u = UT[w]
        v = self.val(k)
        wr = self.writer(b'', 12)
        self.note(f'{k} {v:#x}')
        self.eq('serialize', c(f's_{k}_ser', f'I{u}v', v, wr[0]), OK)
        d = self.wdata(wr)
        r = self.reader(d)
        cell = T[u](self.val(k))
        self.eq('deserialize', c(f's_{k}_des', 'Ivv', ctypes.addressof(cell), r[0]), OK)
        self.eq('value', cell.value, v)
        self.eq('consumed', c('n_gr_pos', 'Iv', r[0]), len(d))
        self.drop(r)
        self.drop(wr)
        return k, v

    def suite_sec(self):
        while self.run('section', self.sec_case):
            pass

    def sec_case(self):
        R, c = self.R, self.call
        d = R.randbytes(R.choice((0, 1, 2, 5, 20)))
        r = self.reader(d)
        rd = ref.Rd(d)
        n = R.choice((0, 1, 2, len(d), len(d) + 1, 0xffffffff, 1 << 31, R.randrange(25)))
        for _ in range(R.choice((0, 0, 1, 3))):
            b = ctypes.c_uint8(0)
            c('g_r_pop', '?vv', r[0], ctypes.addressof(b))
            rd.pop()
        p = self.alloc(c('sec_sizeof', 'Q'))
        c('sec_ctor', '0vvI', p, r[0], n)
        self.note(f'section of {n} of {d.hex()} at {rd.pos}')
        sec = ref.Sec(rd, n)
        mx = sec.left
        for _ in range(R.choice((3, 8, 25))):
            k = R.choice(('pop', 'pop', 'peek', 'adv1', 'adv'))
            b = ctypes.c_uint8(0x5a)
            self.note(k)
            pos = rd.pos
            if k == 'pop':
                x = sec.pop()
                self.eq('pop result', c('sec_pop', '?vv', p, ctypes.addressof(b)), x is not None)
                if x is not None:
                    self.eq('pop byte', b.value, x)
            elif k == 'peek':
                ok = sec.left > 0 and rd.pos < rd.lim
                self.eq('peek result', c('sec_peek', '?vv', p, ctypes.addressof(b)), ok)
                if ok:
                    self.eq('peek byte', b.value, d[rd.pos])
            else:
                a = 1 if k == 'adv1' else R.choice((0, 1, 2, 3, 30, 0xffffffff, 1 << 31))
                x = sec.skip(a) if sec.left or k == 'adv' else False
                if a == 0:
                    x = True
                self.note(f'advance {a}')
                g = c('sec_adv1', '?v', p) if k == 'adv1' else c('sec_adv', '?vI', p, a)
                self.eq(f'advance({a}) result', g, x)
            self.eq('parent position', c('n_gr_pos', 'Iv', r[0]), rd.pos)
            self.eq('section size', c('sec_size', 'Iv', p), sec.left)
            self.eq('section max size', c('sec_max', 'Iv', p), mx)
        self.free(p)
        self.drop(r)
        return d, n

    def suite_calc(self):
        while self.run('size calculator', self.calc_case):
            pass

    def calc_case(self):
        R, c = self.R, self.call
        p = self.alloc(c('calc_sizeof', 'Q'))
        c('calc_ctor', '0v', p)
        n = 0
        for _ in range(R.choice((2, 10))):
            k = R.choice(('push', 'pushn', 'pushn', 'clear'))
            if k == 'push':
                self.eq('push', c('calc_push', '?vB', p, R.randrange(256)), True)
                n += 1
            elif k == 'pushn':
                a = R.choice((0, 1, 5, 255, 256, 70000))
                b = self.alloc(a)
                self.note(f'push {a}')
                self.eq('push block', c('calc_pushn', '?vvI', p, b, a), True)
                self.free(b, a)
                n += a
            elif R.random() < .2:
                c('calc_clear', '0v', p)
                n = 0
            self.eq('size', c('calc_size', 'Iv', p), n)
        self.free(p)
        return n


class Buffers(Nat):
    def suite_wb(self):
        while self.run('write buffer', self.wb_case):
            pass

    def wb_case(self):
        from .harness import WB_N
        R, c = self.R, self.call
        N = R.choice(WB_N)
        X = f'wb{N}_'
        p = self.alloc(c(X + 'sizeof', 'Q'))
        c(X + 'ctor', '0v', p)
        s = b''
        self.note(f'WriteBufferFixedSize<{N}>')
        for _ in range(R.choice((3, 12))):
            k = R.choice(('push', 'pushn', 'pushn', 'clear'))
            free = N - len(s)
            if k == 'push':
                b = R.randrange(256)
                self.note(f'push({b})')
                self.eq('push', c(X + 'push', '?vB', p, b), free > 0)
                if free:
                    s += bytes([b])
            elif k == 'pushn':
                n = R.choice((0, 1, 2, free, free + 1, max(0, free - 1), N, N + 1))
                d = R.randbytes(n)
                b = self.alloc(n, d)
                self.note(f'push({n} bytes), {free} free')
                self.eq(f'push of {n} with {free} free', c(X + 'pushn', '?vvI', p, b, n), n <= free)
                self.free(b, n)
                if n <= free:
                    s += d
                # a length far beyond the capacity is refused without being looked at
                big = R.choice((0xffffffff, 0x80000000, (1 << 32) - max(1, len(s)), N + 1))
                if big > N - len(s):
                    b = self.alloc(1)
                    self.note(f'push({big} bytes)')
                    self.eq(f'push of {big}', c(X + 'pushn', '?vvI', p, b, big), False)
                    self.free(b)
            elif R.random() < .3:
                self.note('clear')
                c(X + 'clear', '0v', p)
                s = b''
            self.eq('sizes', (c(X + 'size', 'Iv', p), c(X + 'max', 'Iv', p), c(X + 'avail', 'Iv', p)), (len(s), N, N - len(s)))
            self.eq('content', hash(ctypes.string_at(c(X + 'data', 'vv', p), len(s))), hash(s))
        self.free(p)
        return N, s[:40]

    def suite_rb(self):
        while self.run('read buffer', self.rb_case):
            pass

    def rb_case(self):
        from .harness import RB_N
        R, c = self.R, self.call
        N = R.choice(RB_N)
        X = f'rb{N}_'
        p = self.alloc(c(X + 'sizeof', 'Q'))
        c(X + 'ctor', '0v', p)
        d = b''
        pos = 0
        self.note(f'ReadBufferFixedSize<{N}>')
        for _ in range(R.choice((3, 12, 30))):
            k = R.choice(('push', 'push', 'setn', 'pop', 'pop', 'peek', 'adv1', 'adv', 'clear'))
            b = ctypes.c_uint8(0x5a)
            left = len(d) - pos
            if k == 'push':
                x = R.randrange(256)
                self.note(f'push({x})')
                self.eq('push', c(X + 'push', '?vB', p, x), len(d) < N)
                if len(d) < N:
                    d += bytes([x])
            elif k == 'setn':
                if R.random() < .5:
                    continue
                n = R.choice((0, 1, N, N - 1, N + 1, 0xffffffff, R.randrange(N + 1)))
                m = min(n, N)
                x = R.randbytes(m)
                if R.random() < .7:
                    ctypes.memmove(c(X + 'data', 'vv', p), x, m)
                else:
                    x = ctypes.string_at(c(X + 'data', 'vv', p), m)
                self.note(f'set_bytes_written({n}), position {pos}')
                if pos > m:
                    c(X + 'clear', '0v', p)
                    pos = 0
                c(X + 'setn', '0vI', p, n)
                d = x
            elif k == 'pop':
                self.note('pop')
                self.eq('pop', c(X + 'pop', '?vv', p, ctypes.addressof(b)), left > 0)
                if left > 0:
                    self.eq('pop byte', b.value, d[pos])
                    pos += 1
            elif k == 'peek':
                self.note('peek')
                self.eq('peek', c(X + 'peek', '?vv', p, ctypes.addressof(b)), left > 0)
                if left > 0:
                    self.eq('peek byte', b.value, d[pos])
            elif k == 'adv1':
                self.note('advance()')
                self.eq('advance()', c(X + 'adv1', '?v', p), left > 0)
                pos += left > 0
            elif k == 'adv':
                n = R.choice((0, 1, 2, left, left + 1, max(0, left - 1), 0xffffffff, 0x80000000, (1 << 32) - max(1, pos), 300))
                self.note(f'advance({n}), {left} left')
                self.eq(f'advance({n}) with {left} left', c(X + 'adv', '?vI', p, n), n <= left)
                pos += min(n, left)
            elif R.random() < .2:
                self.note('clear')
                c(X + 'clear', '0v', p)
                d, pos = b'', 0
            self.eq('sizes', (c(X + 'size', 'Iv', p), c(X + 'max', 'Iv', p)), (len(d), N))
        self.free(p)
        return N, d[:40]


def top(d):
    """field numbers of the length delimited records of a valid message"""
    out, i = set(), 0

    def var():
        nonlocal i
        v = k = 0
        while True:
            b = d[i]
            i += 1
            v |= (b & 127) << k
            k += 7
            if b < 128:
                return v
    try:
        while i < len(d):
            t = var()
            w = t & 7
            if w == 2:
                out.add((t & 0xffffffff) >> 3)
                n = var()
                i += n
            elif w == 0:
                var()
            else:
                i += 8 if w == 1 else 4
    except IndexError:
        pass
    return out


SUITES = {'ops': Msgs, 'ser': Msgs, 'rt': Msgs, 'des': Msgs, 'names': Msgs, 'str': Msgs, 'enc': Scalars, 'dec': Scalars, 'srt': Scalars, 'sec': Scalars, 'calc': Scalars, 'wb': Buffers, 'rb': Buffers}


def main():
    with open(sys.argv[1]) as f:
        job = json.load(f)
    sys.setrecursionlimit(20000)
    n = SUITES[job['suite']](job)
    getattr(n, 'suite_' + job['suite'])()
    print(json.dumps({'cases': n.n, 'checks': n.checks, 'distinct': len(n.distinct), 'bad': n.bad, 'samples': n.samples}), flush=True)
    os._exit(0)


if __name__ == '__main__':
    main()
