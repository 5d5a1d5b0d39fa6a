"""Parser for the textual LLVM IR that clang emits for the code in /repo.

Only the instructions that occur in that code are decoded; anything else becomes an
instruction with op 'unsupported', on which the executor raises Unsupported when (and only
when) an execution reaches it.
"""
import re

TOK = re.compile(r'''
  (?P<cstr>c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
 |(?P<loc>%"[^"]*"|%[-\w.$]+)
 |(?P<glo>@"[^"]*"|@[-\w.$]+)
 |(?P<meta>![\w.]*)
 |(?P<attr>\#\d+)
 |(?P<str>"[^"]*")
 |(?P<flt>-?\d+\.\d*(?:e[+-]?\d+)?)
 |(?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 |(?P<num>-?\d+)
 |(?P<word>[A-Za-z_$][\w.$]*)
 |(?P<dots>\.\.\.)
 |(?P<punct>[()\[\]{}<>,=*|:])
''', re.X)


class Unsupported(Exception):
    pass


class Inst:
    __slots__ = ('op', 'res', 'ty', 'a', 'dbg', 'text', 'nsw', 'nuw')

    def __init__(self, op, res=None, ty=None, a=(), dbg=None, text=''):
        self.op, self.res, self.ty, self.a, self.dbg, self.text = op, res, ty, a, dbg, text
        self.nsw = self.nuw = False

    def __repr__(self):
        return f'<{self.op} {self.res} {self.a}>'


class Block:
    __slots__ = ('name', 'insts', 'succ')

    def __init__(self, name):
        self.name, self.insts, self.succ = name, [], []


class Function:
    def __init__(self, name, ret, params, vararg):
        self.name, self.ret, self.params, self.vararg = name, ret, params, vararg
        self.blocks = {}
        self.order = []
        self.entry = None
        self.dbg = None


class P:
    """Token cursor over one line."""

    def __init__(self, text, mod):
        self.mod = mod
        self.t = []
        pos = 0
        n = len(text)
        while pos < n:
            c = text[pos]
            if c in ' \t\n':
                pos += 1
                continue
            m = TOK.match(text, pos)
            if not m:
                raise Unsupported('token at ' + text[pos:pos + 40])
            self.t.append((m.lastgroup, m.group(0)))
            pos = m.end()
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else None

    def kind(self, k=0):
        return self.t[self.i + k][0] if self.i + k < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def eat(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if self.peek() != v:
            raise Unsupported(f'expected {v} got {self.peek()}')
        self.i += 1

    # ---- types
    def type(self):
        t = self._basetype()
        while True:
            if self.peek() == '*':
                self.next()
                t = ('ptr',)
            elif self.peek() == '(' and self._looks_fnty():
                self.next()
                ps = []
                va = False
                while not self.eat(')'):
                    if self.eat(','):
                        continue
                    if self.eat('...'):
                        va = True
                        continue
                    ps.append(self.type())
                t = ('fn', t, tuple(ps), va)
            else:
                return t

    def _looks_fnty(self):
        # only used after a return type in a call of a vararg function
        d = 0
        j = self.i
        while j < len(self.t):
            v = self.t[j][1]
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1
                if d == 0:
                    return j + 1 < len(self.t) and self.t[j + 1][0] in ('glo', 'loc')
            j += 1
        return False

    def _basetype(self):
        v = self.next()
        k = self.t[self.i - 1][0]
        if k == 'word':
            if re.fullmatch(r'i\d+', v):
                return ('i', int(v[1:]))
            if v in ('ptr', 'void', 'float', 'double', 'label', 'metadata', 'token'):
                if v == 'ptr' and self.peek() == 'addrspace':
                    raise Unsupported('addrspace')
                return (v,)
            raise Unsupported('type ' + v)
        if k == 'loc':
            return ('named', v)
        if v == '[':
            n = int(self.next())
            self.expect('x')
            t = self.type()
            self.expect(']')
            return ('arr', n, t)
        if v == '{':
            return self._struct(False, '}')
        if v == '<':
            if self.peek() == '{':
                self.next()
                t = self._struct(True, '}')
                self.expect('>')
                return t
            raise Unsupported('vector type')
        raise Unsupported('type ' + v)

    def _struct(self, packed, close):
        ts = []
        while not self.eat(close):
            if self.eat(','):
                continue
            ts.append(self.type())
        return ('struct', tuple(ts), packed)

    # ---- values
    ATTRS_PAREN = {'dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'align', 'range',
                   'captures', 'nofpclass', 'elementtype', 'memory', 'initializes', 'byref', 'preallocated', 'inalloca'}
    VALWORDS = {'true', 'false', 'null', 'undef', 'poison', 'zeroinitializer', 'none',
                'getelementptr', 'inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext', 'sub', 'add', 'blockaddress',
                'dso_local_equivalent', 'no_cfi', 'icmp', 'select'}

    def skip_attrs(self):
        while True:
            k, v = self.kind(), self.peek()
            if k == 'attr' or k == 'str':
                self.next()
                if self.peek() == '=' and k == 'str':
                    self.next()
                    self.next()
                continue
            if k == 'word' and v not in self.VALWORDS:
                self.next()
                if self.peek() == '(' and v in self.ATTRS_PAREN:
                    d = 0
                    while True:
                        x = self.next()
                        if x == '(':
                            d += 1
                        elif x == ')':
                            d -= 1
                            if d == 0:
                                break
                elif v == 'align' and self.kind() == 'num':
                    self.next()
                continue
            return

    def value(self, ty):
        k, v = self.kind(), self.peek()
        if k == 'loc':
            self.next()
            return ('loc', v)
        if k == 'glo':
            self.next()
            return ('glo', v)
        if k == 'num':
            self.next()
            if ty[0] in ('float', 'double'):
                return ('fp', float(v))
            return ('int', int(v))
        if k == 'flt':
            self.next()
            return ('fp', float(v))
        if k == 'hex':
            self.next()
            return ('fphex', int(v[2:], 16))
        if k == 'cstr':
            self.next()
            return ('bytes', _cstr(v))
        if v in ('true', 'false'):
            self.next()
            return ('int', 1 if v == 'true' else 0)
        if v in ('null', 'undef', 'poison', 'zeroinitializer', 'none'):
            self.next()
            return (v,)
        if v == 'getelementptr':
            self.next()
            while self.peek() in ('inbounds', 'nuw', 'nusw'):
                self.next()
            if self.peek() == 'inrange':
                self.next()
                if self.eat('('):
                    while not self.eat(')'):
                        self.next()
            self.expect('(')
            bt = self.type()
            self.expect(',')
            pt = self.type()
            base = self.value(pt)
            idx = []
            while self.eat(','):
                self.eat('inrange')
                t = self.type()
                idx.append((t, self.value(t)))
            self.expect(')')
            return ('gep', bt, base, tuple(idx))
        if v in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext'):
            self.next()
            self.expect('(')
            t = self.type()
            x = self.value(t)
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            return ('cast', v, t, x, t2)
        if v == '{' or v == '[' or v == '<':
            self.next()
            if v == '<':
                self.expect('{')
            close = {'{': '}', '[': ']', '<': '}'}[v]
            out = []
            while not self.eat(close):
                if self.eat(','):
                    continue
                t = self.type()
                out.append((t, self.value(t)))
            if v == '<':
                self.expect('>')
            return ('agg', tuple(out))
        raise Unsupported(f'value {v}')

    def tv(self):
        t = self.type()
        self.skip_attrs()
        return (t, self.value(t))


def _cstr(v):
    s = v[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
       'fadd', 'fsub', 'fmul', 'fdiv'}
CAST = {'zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'fpext', 'fptrunc', 'uitofp', 'sitofp', 'fptoui', 'fptosi'}


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}      # name -> (type, init value or None, constant)
        self.funcs = {}
        self.decls = set()
        self.meta = {}
        self.aliases = {}
        self._parse(text)

    # ---- layout (x86-64 data layout)
    def resolve(self, t):
        while t[0] == 'named':
            t = self.types[t[1]]
        return t

    def align(self, t):
        t = self.resolve(t)
        if t[0] == 'i':
            n = max(1, (t[1] + 7) // 8)
            return min(8 if n > 4 else 4 if n > 2 else n, 16)
        if t[0] in ('ptr', 'double'):
            return 8
        if t[0] == 'float':
            return 4
        if t[0] == 'arr':
            return self.align(t[2])
        if t[0] == 'struct':
            return 1 if t[2] else max([self.align(x) for x in t[1]] or [1])
        raise Unsupported(f'align {t}')

    def size(self, t):
        t = self.resolve(t)
        if t[0] == 'i':
            n = max(1, (t[1] + 7) // 8)
            a = self.align(t)
            return (n + a - 1) // a * a
        if t[0] in ('ptr', 'double'):
            return 8
        if t[0] == 'float':
            return 4
        if t[0] == 'arr':
            return t[1] * self.size(t[2])
        if t[0] == 'struct':
            off, al = 0, 1
            for x in t[1]:
                a = 1 if t[2] else self.align(x)
                al = max(al, a)
                off = (off + a - 1) // a * a + self.size(x)
            return (off + al - 1) // al * al
        raise Unsupported(f'size {t}')

    def field_off(self, t, i):
        t = self.resolve(t)
        off = 0
        for k, x in enumerate(t[1]):
            a = 1 if t[2] else self.align(x)
            off = (off + a - 1) // a * a
            if k == i:
                return off, x
            off += self.size(x)
        raise Unsupported('field index')

    # ---- parsing
    def _parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self._func(ln, lines[i + 1:j])
                i = j + 1
                continue
            if ln.startswith('declare '):
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', ln)
                if m:
                    self.decls.add('@' + m.group(1))
            elif ln.startswith('%'):
                m = re.match(r'(%"[^"]*"|%[-\w.$]+) = type (.*)$', ln)
                if m and m.group(2) != 'opaque':
                    self.types[m.group(1)] = P(m.group(2), self).type()
            elif ln.startswith('@'):
                self._global(ln)
            elif ln.startswith('!'):
                m = re.match(r'!(\d+) = (.*)$', ln)
                if m:
                    self.meta[int(m.group(1))] = m.group(2)
            i += 1

    def _global(self, ln):
        m = re.match(r'(@"[^"]*"|@[-\w.$]+) = (.*)$', ln)
        name, rest = m.group(1), m.group(2)
        ma = re.search(r'\balias\b .*?, ptr (@"[^"]*"|@[-\w.$]+)', rest)
        if ma:
            self.aliases[name] = ma.group(1)
            return
        m2 = re.search(r'\b(constant|global) (.*)$', rest)
        if not m2:
            return
        ext = re.match(r'(external|extern_weak)\b', rest) is not None
        body = re.sub(r', (align \d+|comdat(\([^)]*\))?|section "[^"]*"|!dbg !\d+|!type !\d+)', '', m2.group(2))
        try:
            p = P(body, self)
            t = p.type()
            init = None if ext else p.value(t)
        except Unsupported:
            t, init = None, None
        self.globals[name] = (t, init, m2.group(1) == 'constant')

    def _func(self, head, body):
        m = re.search(r'@("[^"]*"|[-\w.$]+)\(', head)
        name = '@' + m.group(1)
        # return type: tokens before the name
        pre = head[len('define '):m.start()].strip()
        p = P(pre, self)
        ret = None
        # skip linkage words and attributes until a type parses at the end
        for k in range(len(p.t)):
            p.i = k
            try:
                t = p.type()
                if p.i == len(p.t):
                    ret = t
                    break
            except (Unsupported, IndexError):
                continue
        # params
        d = 1
        j = m.end()
        while d:
            if head[j] == '(':
                d += 1
            elif head[j] == ')':
                d -= 1
            j += 1
        p = P(head[m.end():j - 1], self)
        params = []
        vararg = False
        while p.i < len(p.t):
            if p.eat(','):
                continue
            if p.eat('...'):
                vararg = True
                continue
            t = p.type()
            attrs_from = p.i
            p.skip_attrs()
            byval = any(x[1] == 'byval' for x in p.t[attrs_from:p.i])
            nm = p.next() if p.kind() == 'loc' else '%' + str(len(params))
            params.append((t, nm, byval))
        f = Function(name, ret, params, vararg)
        md = re.search(r'!dbg !(\d+)', head[j:])
        if md:
            f.dbg = int(md.group(1))
        cur = None
        nlines = len(body)
        k = 0
        while k < nlines:
            ln = body[k]
            k += 1
            if not ln.strip():
                continue
            ml = re.match(r'("[^"]*"|[-\w.$]+):', ln)
            if ml and not ln.startswith(' '):
                cur = Block('%' + ml.group(1))
                f.blocks[cur.name] = cur
                f.order.append(cur.name)
                continue
            if cur is None:
                # unnamed entry block
                cur = Block('%<entry>')
                f.blocks[cur.name] = cur
                f.order.append(cur.name)
            s = ln.strip()
            if s.startswith('#dbg') or s.startswith(';'):
                continue
            if s.startswith('switch ') and s.endswith('['):
                while not body[k].strip().startswith(']'):
                    s += ' ' + body[k].strip()
                    k += 1
                s += ' ' + body[k].strip()
                k += 1
            cur.insts.append(self._inst(s))
        f.entry = f.order[0]
        if f.entry == '%<entry>':
            for b in f.blocks.values():
                for i in b.insts:
                    if i.op == 'phi':
                        i.a = tuple((v, blk if blk in f.blocks else f.entry) for v, blk in i.a)
        for b in f.blocks.values():
            t = b.insts[-1]
            if t.op == 'br':
                b.succ = [t.a[0]] if len(t.a) == 1 else [t.a[1], t.a[2]]
            elif t.op == 'switch':
                b.succ = [t.a[1]] + [x[1] for x in t.a[2]]
        self.funcs[name] = f

    def _inst(self, s):
        dbg = None
        m = re.search(r', !dbg !(\d+)', s)
        if m:
            dbg = int(m.group(1))
        body = re.sub(r', ![\w.]+ !\d+', '', s)
        body = re.sub(r'\s*;.*$', '', body) if ';' in body and '"' not in body else body
        try:
            ins = self._inst2(body)
        except (Unsupported, IndexError, ValueError) as e:
            ins = Inst('unsupported', text=s)
            mm = re.match(r'(%"[^"]*"|%[-\w.$]+) = ', s)
            if mm:
                ins.res = mm.group(1)
        ins.dbg = dbg
        ins.text = s
        return ins

    def _inst2(self, s):
        p = P(s, self)
        res = None
        if p.kind() == 'loc' and p.peek(1) == '=':
            res = p.next()
            p.next()
        op = p.next()
        while op in ('tail', 'musttail', 'notail'):
            op = p.next()
        if op in BIN:
            nsw = nuw = False
            while p.kind() == 'word' and p.peek() in ('nsw', 'nuw', 'exact', 'disjoint', 'nnan', 'ninf', 'nsz', 'fast', 'contract', 'arcp', 'afn', 'reassoc'):
                w = p.next()
                nsw |= w == 'nsw'
                nuw |= w == 'nuw'
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            i = Inst(op, res, t, (a, b))
            i.nsw, i.nuw = nsw, nuw
            return i
        if op in CAST:
            while p.peek() in ('nneg', 'nuw', 'nsw'):
                p.next()
            t = p.type()
            a = p.value(t)
            p.expect('to')
            return Inst(op, res, p.type(), (t, a))
        if op in ('icmp', 'fcmp'):
            while p.peek() in ('samesign', 'fast', 'nnan', 'ninf', 'nsz'):
                p.next()
            pred = p.next()
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            return Inst(op, res, t, (pred, a, b))
        if op == 'alloca':
            p.eat('inalloca')
            t = p.type()
            cnt = None
            if p.eat(',') and p.peek() != 'align':
                ct = p.type()
                cnt = p.value(ct)
            return Inst(op, res, t, (cnt,))
        if op == 'load':
            p.eat('volatile')
            t = p.type()
            p.expect(',')
            pt = p.type()
            return Inst(op, res, t, (p.value(pt),))
        if op == 'store':
            p.eat('volatile')
            t = p.type()
            v = p.value(t)
            p.expect(',')
            pt = p.type()
            return Inst(op, None, t, (v, p.value(pt)))
        if op == 'getelementptr':
            inb = False
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                inb |= p.next() == 'inbounds'
            bt = p.type()
            p.expect(',')
            pt = p.type()
            base = p.value(pt)
            idx = []
            while p.eat(','):
                t = p.type()
                idx.append((t, p.value(t)))
            return Inst(op, res, bt, (base, tuple(idx)))
        if op == 'br':
            if p.peek() == 'label':
                p.next()
                return Inst(op, a=(p.next(),))
            p.type()
            c = p.value(('i', 1))
            p.expect(',')
            p.expect('label')
            x = p.next()
            p.expect(',')
            p.expect('label')
            return Inst(op, a=(c, x, p.next()))
        if op == 'switch':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            p.expect('label')
            d = p.next()
            p.expect('[')
            cases = []
            while not p.eat(']'):
                ct = p.type()
                cv = p.value(ct)
                p.expect(',')
                p.expect('label')
                cases.append((cv[1], p.next()))
            return Inst(op, ty=t, a=(v, d, tuple(cases)))
        if op == 'ret':
            t = p.type()
            if t[0] == 'void':
                return Inst(op, ty=t)
            return Inst(op, ty=t, a=(p.value(t),))
        if op == 'unreachable':
            return Inst(op)
        if op == 'phi':
            t = p.type()
            inc = []
            while True:
                p.expect('[')
                v = p.value(t)
                p.expect(',')
                b = p.next()
                p.expect(']')
                inc.append((v, b))
                if not p.eat(','):
                    break
            return Inst(op, res, t, tuple(inc))
        if op == 'select':
            p.type()
            c = p.value(('i', 1))
            p.expect(',')
            t = p.type()
            a = p.value(t)
            p.expect(',')
            t2 = p.type()
            b = p.value(t2)
            return Inst(op, res, t, (c, a, b))
        if op == 'call':
            # attributes, return type, callee, args
            p.skip_cc = None
            while p.kind() == 'word' and not re.fullmatch(r'i\d+|ptr|void|float|double', p.peek()):
                w = p.next()
                if p.peek() == '(' and w in P.ATTRS_PAREN:
                    d = 0
                    while True:
                        x = p.next()
                        d += (x == '(') - (x == ')')
                        if d == 0:
                            break
                elif w == 'align' and p.kind() == 'num':
                    p.next()
            t = p.type()
            rt = t[1] if t[0] == 'fn' else t
            if p.peek() == 'asm':
                raise Unsupported('asm')
            cal = p.value(('ptr',))
            p.expect('(')
            args = []
            while not p.eat(')'):
                if p.eat(','):
                    continue
                at = p.type()
                if at[0] == 'metadata':
                    while p.peek() not in (',', ')'):
                        p.next()
                    args.append((at, None))
                    continue
                p.skip_attrs()
                args.append((at, p.value(at)))
            return Inst(op, res, rt, (cal, tuple(args)))
        if op == 'extractvalue':
            t = p.type()
            v = p.value(t)
            idx = []
            while p.eat(','):
                idx.append(int(p.next()))
            return Inst(op, res, t, (v, tuple(idx)))
        if op == 'insertvalue':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            et, ev = p.tv()
            idx = []
            while p.eat(','):
                idx.append(int(p.next()))
            return Inst(op, res, t, (v, (et, ev), tuple(idx)))
        if op == 'freeze':
            t = p.type()
            return Inst(op, res, t, (p.value(t),))
        raise Unsupported(op)

    def loc(self, dbg):
        """source file:line of a !dbg attachment"""
        try:
            s = self.meta[dbg]
            m = re.search(r'line: (\d+)', s)
            sc = re.search(r'scope: !(\d+)', s)
            line = m.group(1) if m else '?'
            f = '?'
            k = int(sc.group(1)) if sc else None
            for _ in range(20):
                if k is None:
                    break
                x = self.meta[k]
                mf = re.search(r'file: !(\d+)', x)
                if mf:
                    ff = self.meta[int(mf.group(1))]
                    f = re.search(r'filename: "([^"]*)"', ff).group(1)
                    break
                ms = re.search(r'scope: !(\d+)', x)
                k = int(ms.group(1)) if ms else None
            return f.split('/')[-1] + ':' + line
        except Exception:
            return '?'


if __name__ == '__main__':
    import sys, time
    t = time.time()
    m = Module(open(sys.argv[1]).read())
    print(len(m.funcs), 'functions', len(m.globals), 'globals', time.time() - t)
    for f in m.funcs.values():
        for b in f.blocks.values():
            for i in b.insts:
                if i.op == 'unsupported':
                    print(f.name, i.text)
    for g, v in m.globals.items():
        if v[0] is None:
            print('global?', g)
