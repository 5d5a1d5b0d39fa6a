"""Effect contract (C19): no operation allocates, frees, throws, recurses or uses stack of variable size.

Every function of the library and of the generated messages in the compiled module is under the contract
`calls only: functions under the same contract, and the leaf functions listed here`; it is checked function by
function on the LLVM IR, for every call site, so it holds for all inputs.  Virtual calls are covered because every
function of the module is under the contract, whether or not something calls it."""
import re
import z3
from . import zoo

Z = zoo.build()
EXC = ('-fexceptions',)
LEAF = re.compile(r'^(llvm\.|mem(cpy|set|move|cmp|chr)$|str(n?cpy|n?len|n?cmp|chr)$|snprintf$|g_[rw]_|__clang_call_terminate$|_ZSt9terminatev$|'
                  r'__cxa_begin_catch$|__cxa_pure_virtual$|__gxx_personality_v0$|bcmp$|abort$|__assert_fail$|_ZSt(3(min|max)|4move|7forward)|_Unwind_Resume$|'
                  r'(l?l?abs|isnan|isinf|signbit|fabsf?|__fpclassifyf?|__signbitf?|__isnanf?)$)')
BAD = re.compile(r'^(malloc|calloc|realloc|free|aligned_alloc|posix_memalign|strn?dup|alloca|_Zn[wa][mj].*|_Zd[la]Pv.*|__cxa_(throw|rethrow|allocate_exception).*|'
                 r'_ZSt(17__throw|1\d__throw|2\d__throw).*|_ZNSt7__cxx1112basic_string.*|_ZNS[st].*(append|assign|_M_create|reserve|replace).*|setjmp|longjmp|qsort)$')
DEF = re.compile(r'^define .*?@("[^"]*"|[\w.$]+)\(')
CALL = re.compile(r'\b(?:call|invoke)\b(?:[^@(%]|\([^()@%]*\))*@("[^"]*"|[\w.$]+)\(')
ALIAS = re.compile(r'^@("[^"]*"|[\w.$]+) = .*?alias .*?, ptr @("[^"]*"|[\w.$]+)', re.M)
ALLOCA = re.compile(r'= alloca [^,]+, i\d+ (%[\w.]+)')


def functions(text):
    """{name: lines of the body}"""
    out, cur = {}, None
    for l in text.splitlines():
        if cur is None:
            m = DEF.match(l)
            if m:
                cur = out.setdefault(m.group(1).strip('"'), [])
        elif l == '}':
            cur = None
        else:
            cur.append(l)
    return out


def deleting(n):
    """deleting destructors release an object that the user allocated"""
    return bool(re.search(r'D0Ev$', n))


def cycles(g):
    """strongly connected components with more than one node, and self loops"""
    idx, low, st, on, out, k = {}, {}, [], set(), [], [0]

    def go(v):
        work = [(v, iter(g.get(v, ())))]
        idx[v] = low[v] = k[0]
        k[0] += 1
        st.append(v)
        on.add(v)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in g:
                    continue
                if w not in idx:
                    idx[w] = low[w] = k[0]
                    k[0] += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(g[w])))
                    break
                if w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    c = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.append(w)
                        if w == v:
                            break
                    if len(c) > 1 or v in g.get(v, ()):
                        out.append(c)
    for v in list(g):
        if v not in idx:
            go(v)
    return out


def scan_task(build, res, unit, std, flags):
    with open(build.ll(unit, std, flags)) as f:
        text = f.read()
    F = functions(text)
    alias = {a.strip('"'): b.strip('"') for a, b in ALIAS.findall(text)}
    T = unit if isinstance(unit, str) else unit[0]
    g = {}
    for n, body in F.items():
        calls, bad, strange, dyn = set(), [], [], []
        for l in body:
            m = CALL.search(l)
            if m:
                x = m.group(1).strip('"')
                x = alias.get(x, x)
                if x in F:
                    calls.add(x)
                elif BAD.match(x):
                    if not (deleting(n) and x.startswith('_ZdlPv')):
                        bad.append(x)
                elif not LEAF.match(x):
                    strange.append(x)
            m = ALLOCA.search(l)
            if m:
                dyn.append(m.group(1))
        g[n] = sorted(calls)
        res.functions.append('@' + n)
        for what, lst in (('does not allocate, release or throw', bad), ('has stack of constant size', dyn)):
            nm = f'{T}: {n} {what}'
            res.names.append(nm)
            if lst:
                res.refuted.append((nm, {}, f'calls {lst}'[:600]))
            else:
                res.trivial += 1
        for x in strange:
            res.unknown.append(f'{T}: {n} calls {x}, whose effects are not known')
    cyc = cycles(g)
    for c in cyc:
        res.refuted.append((f'{T}: {c[0]} does not call itself', {}, ' -> '.join(reversed(c))[:1000]))
    res.trivial += len(F) - sum(len(c) for c in cyc)
    res.contracts += ['memcpy/memset/memmove/strncpy/strlen/snprintf do not allocate (C library, assumed)', 'buffer implementations supplied by the user do not allocate (assumed)']


def tasks():
    us = [u for u in Z if u != 'zimp'] + ['scalar', 'buffers']
    return [('vf.t_alloc', 'scan_task', (u, 'c++14', EXC), ((u, 'c++14', EXC),)) for u in us]
