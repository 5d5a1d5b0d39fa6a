"""The schemas the message level contracts are instantiated with, and the C++ wrappers around the generated code.

A schema is described once here; from it come the .proto text (fed to the real generator), the
extern "C" wrappers through which both the verifier and the native replay reach the generated
classes, the contracts (spec.py) and the reference oracle (oracle.py)."""

SC = {  # kind: (width, wire type, C++ value type)
    'int32': (32, 0, 'int32_t'), 'int64': (64, 0, 'int64_t'), 'uint32': (32, 0, 'uint32_t'), 'uint64': (64, 0, 'uint64_t'),
    'sint32': (32, 0, 'int32_t'), 'sint64': (64, 0, 'int64_t'), 'bool': (8, 0, 'bool'),
    'fixed32': (32, 5, 'uint32_t'), 'fixed64': (64, 1, 'uint64_t'), 'sfixed32': (32, 5, 'int32_t'), 'sfixed64': (64, 1, 'int64_t'),
    'float': (32, 5, 'float'), 'double': (64, 1, 'double'), 'enum': (32, 0, None)}
FT = {'bool': 'boolean', 'float': 'floatfixed', 'double': 'doublefixed'}
SCALARS = [k for k in SC if k != 'enum']


class F:
    def __init__(self, name, num, kind, label='', N=0, SL=0, typ=None, oneof=None, tmpl=False):
        self.name, self.num, self.kind, self.label, self.N, self.SL, self.typ, self.oneof, self.tmpl = name, num, kind, label, N, SL, typ, oneof, tmpl
        # string/bytes: SL maximum length; repeated: N maximum number of elements
        self.ctype = None

    @property
    def scalar(self):
        return self.kind in SC

    @property
    def rep(self):
        return self.label == 'repeated'

    @property
    def w(self):
        return SC[self.kind][0]

    @property
    def wt(self):
        return 2 if (self.rep or self.kind in ('string', 'bytes', 'msg')) else SC[self.kind][1]

    @property
    def presence(self):
        return self.label in ('optional', 'oneof')


class M:
    def __init__(self, name, fields, enums=(), nested=(), pkg=None, file=None, parent=None):
        self.name, self.fields, self.enums, self.nested = name, fields, list(enums), list(nested)
        self.pkg, self.file, self.parent = pkg, file, parent
        for n in self.nested:
            n.parent = self
        self.id = name

    def byname(self, n):
        return next(f for f in self.fields if f.name == n)

    @property
    def plain(self):
        return [f for f in self.fields if f.label != 'oneof']

    @property
    def oneofs(self):
        out = {}
        for f in self.fields:
            if f.label == 'oneof':
                out.setdefault(f.oneof, []).append(f)
        return out

    @property
    def order(self):
        """serialization order"""
        return self.plain + [f for l in self.oneofs.values() for f in l]


class E:
    def __init__(self, name, values):
        self.name, self.values = name, values


class Schema:
    """one .proto file (plus imports) and the messages of it that get wrappers"""

    def __init__(self, name, msgs, enums=(), pkg=None, imports=(), use=None):
        self.name, self.msgs, self.enums, self.pkg, self.imports = name, msgs, list(enums), pkg, list(imports)
        self.use = use or [m.name for m in msgs]
        for m in self.all_msgs():
            m.pkg, m.file = pkg, name
        self.wrapped = []

    def all_msgs(self):
        out = []

        def go(m):
            for n in m.nested:
                go(n)
            out.append(m)
        for m in self.msgs:
            go(m)
        return out

    # ---- proto text
    def proto(self):
        s = ['syntax = "proto3";']
        if self.pkg:
            s.append(f'package {self.pkg};')
        s.append('import "embedded_proto_options.proto";')
        for i in self.imports:
            s.append(f'import "{i.name}.proto";')
        for e in self.enums:
            s += self.enum_txt(e, '')
        for m in self.msgs:
            s += self.msg_txt(m, '')
        return '\n'.join(s) + '\n'

    def enum_txt(self, e, ind):
        return [f'{ind}enum {e.name} {{'] + [f'{ind}  {n} = {v};' for n, v in e.values] + [f'{ind}}}']

    def msg_txt(self, m, ind):
        s = [f'{ind}message {m.name} {{']
        for e in m.enums:
            s += self.enum_txt(e, ind + '  ')
        for n in m.nested:
            s += self.msg_txt(n, ind + '  ')
        done = set()
        for f in m.fields:
            if f.label == 'oneof':
                if f.oneof in done:
                    continue
                done.add(f.oneof)
                s.append(f'{ind}  oneof {f.oneof} {{')
                for g in m.oneofs[f.oneof]:
                    s.append(ind + '    ' + self.field_txt(g))
                s.append(f'{ind}  }}')
            else:
                s.append(ind + '  ' + self.field_txt(f))
        s.append(ind + '}')
        return s

    def field_txt(self, f):
        t = f.kind
        if f.kind == 'msg':
            t = f.typ.proto_ref
        elif f.kind == 'enum':
            t = f.typ
        lab = f.label + ' ' if f.label in ('optional', 'repeated') else ''
        opt = ''
        if not f.tmpl:
            ml = f.N if f.rep else (f.SL if f.kind in ('string', 'bytes') else 0)
            if ml:
                opt = f' [(EmbeddedProto.options).maxLength = {ml}]'
        return f'{lab}{t} {f.name} = {f.num}{opt};'


def finish(schema):
    """resolve C++ names"""
    for m in schema.all_msgs():
        chain = [m.name]
        p = m.parent
        while p is not None:
            chain.insert(0, p.name)
            p = p.parent
        m.proto_ref = '.'.join(([schema.pkg] if schema.pkg else []) + chain)
        m.id = '_'.join(chain)
        m.schema = schema
    for m in schema.all_msgs():
        ns = '::' + '::'.join((schema.pkg.split('.') if schema.pkg else []))
        if schema.pkg:
            ns += '::'
        chain = [m.name]
        p = m.parent
        while p is not None:
            chain.insert(0, p.name)
            p = p.parent
        m.base = ns + '::'.join(chain)
    return schema


def targs(m):
    """template arguments of m in the generator's order: fields, then oneofs"""
    out = []
    for f in m.order:
        out += fargs(f)
    return out


def fargs(f):
    out = []
    if not f.tmpl and f.kind != 'msg':
        return out
    if f.rep:
        if f.tmpl:
            out.append(f.N)
        else:
            return out
    if f.kind in ('string', 'bytes') and f.tmpl:
        out.append(f.SL)
    if f.kind == 'msg':
        out += targs(f.typ)
    return out


def cpp(m):
    a = targs(m)
    return m.base + ('<' + ', '.join(map(str, a)) + '>' if a else '')


def enums_of(s):
    """[(id, C++ name, value)] of all the enumeration constants of a schema"""
    ns = '::' + ('::'.join(s.pkg.split('.')) + '::' if s.pkg else '')
    out = [(f'{e.name}_{n}', f'{ns}{e.name}::{n}', v) for e in s.enums for n, v in e.values]
    for m in s.all_msgs():
        out += [(f'{m.id}_{e.name}_{n}', f'{cpp(m)}::{e.name}::{n}', v) for e in m.enums for n, v in e.values]
    return out


def elem_cpp(f, m):
    """C++ type of the (element of the) field"""
    if f.kind == 'msg':
        return cpp(f.typ)
    if f.kind == 'string':
        return f'::EmbeddedProto::FieldString<{f.SL}>'
    if f.kind == 'bytes':
        return f'::EmbeddedProto::FieldBytes<{f.SL}>'
    if f.kind == 'enum':
        return f'::EmbeddedProto::enumeration<{enum_cpp(f, m)}>'
    return '::EmbeddedProto::' + FT.get(f.kind, f.kind)


def enum_cpp(f, m):
    t = f.typ
    if any(e.name == t for e in m.enums):
        return cpp(m) + '::' + t
    if '.' in t:
        return '::' + t.replace('.', '::')
    return ('::' + '::'.join(m.schema.pkg.split('.')) + '::' if m.schema.pkg else '::') + t


# ------------------------------------------------------------------ the zoo
def scal_fields(label='', start=0, nums=None, N=0, prefix=''):
    out = []
    for i, k in enumerate(SCALARS):
        out.append(F(f'{prefix}{k[0]}{"" if k[0] != "s" else k[1]}{i}', nums[i] if nums else start + i, k, label, N=N))
    return out


def build():
    Z = {}

    def add(s):
        finish(s)
        Z[s.name] = s
        return s

    # all scalar kinds, plain; one, two, three and five byte tags, numbers not in order
    add(Schema('zplain', [M('Plain', [
        F('a', 1, 'int32'), F('b', 15, 'int64'), F('c', 16, 'uint32'), F('d', 2047, 'uint64'), F('e', 2048, 'sint32'), F('f', 3, 'sint64'),
        F('g', 262143, 'bool'), F('h', 262144, 'fixed32'), F('i', 33554431, 'fixed64'), F('j', 33554432, 'sfixed32'), F('k', 2, 'sfixed64'),
        F('l', 536870911, 'float'), F('m', 5, 'double'), F('n', 17, 'enum', typ='Kind'), F('o', 4, 'enum', typ='Col')],
        enums=[E('Col', [('RED', 0), ('GREEN', 1), ('BIG', 2147483647)])])],
        enums=[E('Kind', [('K0', 0), ('K1', 1), ('K7', 300)])], pkg='zp'))

    # more than 32 optional fields, every kind
    of = []
    kinds = SCALARS + ['enum']
    for i in range(36):
        k = kinds[i % len(kinds)]
        of.append(F(f'o{i}', i + 1 if i % 3 else i + 1000, k, 'optional', typ='OE' if k == 'enum' else None))
    add(Schema('zopt', [M('Opt', of)], enums=[E('OE', [('OA', 0), ('OB', 5)])]))
    Leaf = M('Leaf', [F('x', 1, 'int32'), F('y', 2, 'uint32', 'optional')])
    add(Schema('zoptc', [Leaf, M('OptC', [
        F('s', 1, 'string', 'optional', SL=3), F('p', 2, 'int32'), F('b', 3, 'bytes', 'optional', SL=2), F('m', 4, 'msg', 'optional', typ=Leaf),
        F('q', 5, 'bool', 'optional'), F('e', 6, 'enum', 'optional', typ='OptE')], enums=[E('OptE', [('X', 0), ('Y', 9)])])], pkg='zo.c'))

    # oneofs
    Leaf2 = M('Leaf2', [F('x', 1, 'uint32'), F('y', 2, 'sint32')])
    add(Schema('zone', [Leaf2, M('One', [
        F('p', 1, 'uint32'), F('ua', 2, 'int32', 'oneof', oneof='u'), F('ub', 3, 'double', 'oneof', oneof='u'), F('uc', 20, 'enum', 'oneof', typ='OnE', oneof='u'),
        F('ud', 4, 'bool', 'oneof', oneof='u'), F('q', 5, 'sint64'),
        F('va', 6, 'string', 'oneof', SL=3, oneof='v'), F('vb', 7, 'bytes', 'oneof', SL=2, oneof='v'), F('vc', 8, 'msg', 'oneof', typ=Leaf2, oneof='v'),
        F('vd', 3000, 'fixed64', 'oneof', oneof='v'), F('z', 9, 'bool', 'optional')],
        enums=[E('OnE', [('A', 0), ('B', 7)])])]))
    add(Schema('zone2', [M('OneS', [F(f'k{i}', i + 1, k, 'oneof', oneof='w') for i, k in enumerate(SCALARS)]),
                         M('OneE', [F('e', 1, 'enum', 'oneof', typ='EE', oneof='only'), F('g', 2, 'enum', 'oneof', typ='EE', oneof='only')])],
               enums=[E('EE', [('E0', 0), ('E3', 3)])], pkg='z2'))

    # strings and bytes
    add(Schema('zstr', [M('Str', [F('a', 1, 'string', SL=4), F('b', 2, 'bytes', SL=3), F('c', 200, 'string', SL=1), F('d', 4, 'int32')])]))
    add(Schema('zstrt', [M('StrT', [F('a', 1, 'string', SL=3, tmpl=True), F('k', 3, 'uint64'), F('b', 2, 'bytes', SL=2, tmpl=True)])], pkg='zt'))

    # repeated scalars
    for j, ks in enumerate((['int32', 'uint64', 'bool'], ['sint32', 'fixed32', 'double'], ['int64', 'uint32', 'enum'], ['sint64', 'sfixed64', 'float'], ['fixed64', 'sfixed32'])):
        add(Schema(f'zrep{j}', [M(f'Rep{j}', [F(f'r{i}', 1 + i * 16, k, 'repeated', N=3 if j == 0 else 2, typ='RE' if k == 'enum' else None) for i, k in enumerate(ks)] + [F('t', 2, 'uint32')])],
                   enums=[E('RE', [('R0', 0), ('R2', 2)])]))
    add(Schema('zrept', [M('RepT', [F('a', 1, 'uint32', 'repeated', N=2, tmpl=True), F('b', 2, 'bool')])]))

    # repeated messages, strings, bytes
    RL = M('RLeaf', [F('x', 1, 'int32'), F('y', 2, 'bool', 'optional')])
    add(Schema('zrepm', [RL, M('RepM', [F('m', 1, 'msg', 'repeated', N=2, typ=RL), F('t', 2, 'uint32')])]))
    add(Schema('zreps', [M('RepS', [F('s', 1, 'string', 'repeated', N=2, SL=2), F('b', 18, 'bytes', 'repeated', N=2, SL=2), F('t', 2, 'uint32')])]))
    add(Schema('zrepst', [M('RepST', [F('s', 1, 'string', 'repeated', N=2, SL=3, tmpl=True), F('t', 2, 'sint32')])]))

    # nested messages
    In = M('In', [F('v', 1, 'sint32'), F('w', 2, 'uint64')])
    Mid = M('Mid', [F('i', 1, 'msg', typ=In), F('k', 2, 'uint32')])
    add(Schema('znest', [In, Mid, M('Nest', [F('a', 1, 'msg', typ=Mid), F('b', 2, 'msg', typ=In), F('t', 100, 'int32')])], pkg='zn'))
    Inner = M('Inner', [F('s', 1, 'string', SL=2, tmpl=True), F('v', 2, 'int32')])
    add(Schema('znestt', [Inner, M('Outer', [F('i', 1, 'msg', typ=Inner), F('q', 2, 'bool')])]))
    Kid = M('Kid', [F('x', 3, 'uint32'), F('e', 4, 'enum', typ='KE')], enums=[E('KE', [('KA', 0), ('KB', 2)])])
    add(Schema('znestd', [M('Dad', [F('k', 1, 'msg', typ=Kid), F('q', 2, 'bool')], nested=[Kid])], pkg='zd'))
    # message with a repeated field and a oneof inside a nested one
    RI = M('RI', [F('r', 1, 'uint32', 'repeated', N=2), F('oa', 2, 'int32', 'oneof', oneof='o'), F('ob', 3, 'fixed32', 'oneof', oneof='o')])
    add(Schema('znestr', [RI, M('NestR', [F('n', 1, 'msg', typ=RI), F('t', 2, 'int32')])]))

    # packages and imports
    Imp = M('Imp', [F('x', 1, 'int64')])
    imp = add(Schema('zimp', [Imp], enums=[E('IE', [('I0', 0), ('I4', 4)])], pkg='zi.sub'))
    add(Schema('zuse', [M('Use', [F('m', 1, 'msg', typ=Imp), F('e', 2, 'enum', typ='zi.sub.IE'), F('o', 3, 'msg', 'optional', typ=Imp)])], pkg='zu', imports=[imp]))
    add(Schema('zempty', [M('Empty', []), ]))
    # names: mixed case, digits, underscores; enumerations at two levels
    add(Schema('znames', [M('Mixed_Name9', [
        F('camelCase', 1, 'int32'), F('with_under_score', 2, 'bool', 'optional'), F('UPPER', 536870911, 'uint32'), F('x1', 128, 'string', SL=1), F('x12', 129, 'uint32', 'repeated', N=1),
        F('pick_a', 5, 'int32', 'oneof', oneof='pick'), F('pickB', 300, 'enum', 'oneof', typ='Deep', oneof='pick'), F('t_Last', 2097151, 'enum', typ='wide_E')],
        enums=[E('Deep', [('DEEP_ZERO', 0), ('D1', 1), ('D255', 255), ('D256', 256)])])],
        enums=[E('wide_E', [('w_zero', 0), ('W_BIG', 2147483647), ('W65536', 65536)])], pkg='Zn_A.b1'))
    # long and unusual names for every kind of field (names only)
    LL = M('A_message_with_a_rather_long_name_that_goes_on_for_more_than_64_characters', [F('v', 1, 'int32')])
    kinds = [('int32', {}), ('float', {}), ('bool', {}), ('string', {'SL': 2}), ('bytes', {'SL': 2}), ('enum', {'typ': 'An_enumeration_with_a_rather_long_name_that_goes_on'}), ('msg', {'typ': LL})]
    tail = '_and_a_rather_long_rest_that_makes_it_more_than_64_characters_in_all'
    fs, no = [], 0
    for lab in ('plain', 'optional', 'oneof', 'repeated'):
        for k, kw in kinds:
            for nm in (f'{lab}_{k}{tail}', f'{lab[:2]}{k.title()}__X2_y'):
                no += 7
                fs.append(F(nm, no, k, '' if lab == 'plain' else lab, **kw, **({'oneof': 'one_of_them' + tail} if lab == 'oneof' else {}), **({'N': 2} if lab == 'repeated' else {})))
    add(Schema('zlong', [LL, M('Long_names', fs)], enums=[E('An_enumeration_with_a_rather_long_name_that_goes_on', [
        ('A_CONSTANT_WITH_A_RATHER_LONG_NAME_THAT_GOES_ON_FOR_MORE_THAN_64_CHARACTERS_0', 0), ('mixedCase__Constant9', 5), ('A_CONSTANT_WITH_A_RATHER_LONG_NAME_THAT_GOES_ON_FOR_MORE_THAN_64_CHARACTERS_1', 77777)])],
        pkg='a_package_with_a_rather_long_name.and_a_second_part'))
    # large sizes, for the bounded native checks
    BL = M('BLeaf', [F('x', 1, 'uint32'), F('s', 2, 'string', SL=300)])
    add(Schema('zbig', [BL, M('Big', [F('r', 1, 'uint32', 'repeated', N=300), F('s', 2, 'string', SL=400), F('b', 3, 'bytes', SL=260), F('m', 4, 'msg', 'repeated', N=3, typ=BL),
                                      F('n', 5, 'msg', typ=BL), F('d', 6, 'double', 'repeated', N=70), F('bo', 7, 'bool', 'repeated', N=260)])]))
    return Z
