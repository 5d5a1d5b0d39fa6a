"""Starts the native workers and collects what they found."""
import json
import os
import re
import subprocess
import sys
import threading
import time
from . import build as B

ASAN = None


def asan():
    global ASAN
    if ASAN is None:
        ASAN = subprocess.run(['clang++', '-print-file-name=libclang_rt.asan-x86_64.so'], stdout=subprocess.PIPE).stdout.decode().strip()
    return ASAN


def literals():
    """integer literals of the sources: values at which code may behave in a special way"""
    out = set()
    for d in ('src', 'generator/EmbeddedProto/templates'):
        p = f'{B.REPO}/{d}'
        if not os.path.isdir(p):
            continue
        for n in os.listdir(p):
            if n.endswith(('.h', '.cpp')):
                with open(f'{p}/{n}', errors='replace') as f:
                    t = re.sub(r'/\*.*?\*/|//[^\n]*|\{#.*?#\}', '', f.read(), flags=re.S)
                for x in re.findall(r'\b(0[xX][0-9a-fA-F]+|\d+)(?:[uUlL]*)\b', t):
                    v = int(x, 0) if x[:2] in ('0x', '0X') else int(x)
                    if v < 1 << 64:
                        out.add(v)
    return sorted(out)


class Out:
    def __init__(self):
        self.cases = self.checks = self.distinct = 0
        self.bad = []           # mismatches
        self.crash = []         # sanitizer reports, hangs
        self.errors = []        # could not be run
        self.samples = []
        self.jobs = []


def run(b, jobs, seed=1, pool=(), workers=8, wall=None):
    """jobs: (suite, unit, cases, budget seconds)"""
    out = Out()
    pool = sorted(set(literals()) | set(pool))[:2000]
    lock = threading.Lock()
    todo = list(enumerate(jobs))

    def one(i, j):
        suite, unit, cases, budget = j[:4]
        extra = j[4] if len(j) > 4 else {}
        try:
            so = natives(b, unit, lock, suite)
        except B.BuildError as e:
            out.errors.append(f'{unit}: {str(e)[:500]}')
            return
        jr, jf = f'{b.dir}/j{i}.journal', f'{b.dir}/j{i}.json'
        job = dict(suite=suite, unit=unit, so=so, seed=seed * 1000003 + (i * 7919 if 'seed' not in extra else 0), cases=cases, budget=budget, pool=pool, journal=jr)
        job.update(extra)
        with open(jf, 'w') as f:
            json.dump(job, f)
        env = dict(os.environ)
        env.update(LD_PRELOAD=asan(), ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0',
                   UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1', PYTHONMALLOC='malloc', PYTHONDONTWRITEBYTECODE='1',
                   PYTHONPATH=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        try:
            r = subprocess.run([sys.executable, '-m', 'vf.nat', jf], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=budget + 60)
        except subprocess.TimeoutExpired:
            out.crash.append({'what': f'no answer within {budget + 60} s', 'trail': journal(jr), 'suite': suite, 'unit': unit, 'seed': job['seed'], 'only': job.get('only'), 'term': job.get('term')})
            return
        line = r.stdout.decode(errors='replace').strip().splitlines()
        if r.returncode == 0 and line:
            x = json.loads(line[-1])
            out.cases += x['cases']
            out.checks += x['checks']
            out.distinct += x['distinct']
            out.bad += x['bad']
            out.samples += x['samples'][:2]
            out.jobs.append((suite, unit, x['cases']))
            return
        e = r.stderr.decode(errors='replace')
        if 'AddressSanitizer' in e or 'runtime error' in e or 'UndefinedBehavior' in e or r.returncode < 0:
            m = re.search(r'runtime error: [^\n]*|AddressSanitizer: [^\n]*', e)
            out.crash.append({'what': (m.group(0) if m else f'signal {-r.returncode}')[:300], 'trail': journal(jr), 'suite': suite, 'unit': unit, 'seed': job['seed'], 'only': job.get('only'), 'term': job.get('term'), 'report': e[:4000]})
        else:
            out.errors.append(f'{suite} {unit}: {e[-800:]}')

    def work():
        while True:
            with lock:
                if not todo or (wall and time.time() > wall):
                    return
                i, j = todo.pop(0)
            try:
                one(i, j)
            except Exception as e:
                out.errors.append(f'{j[:2]}: {e!r}')
    ths = [threading.Thread(target=work) for _ in range(min(workers, len(jobs)))]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    return out


_locks = {}


def natives(b, unit, lock, suite=None):
    with lock:
        l = _locks.setdefault((b.dir, unit, suite == 'str'), threading.Lock())
    with l:
        if unit not in ('scalar', 'buffers'):
            with _gen:
                b.prepare(unit)
        if suite == 'str':
            return b.native(unit, std='c++17', flags=('-DMSG_TO_STRING',))
        return b.native(unit)


_gen = threading.Lock()


def journal(p):
    try:
        with open(p, 'rb') as f:
            d = f.read().split(b'\0')[0]
        return d.decode(errors='replace').splitlines()[-60:]
    except OSError:
        return []
