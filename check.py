#!/opt/veriftools/pyvenv/bin/python3
"""check.py <property> [--tier quick|thorough]      decide one property on /repo's current tree
check.py --replay <file>                           run a recorded failing case again"""
import argparse
import json
import os
import re
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import build as B, known, natrun, props, runner   # noqa: E402

HERE = os.path.dirname(os.path.abspath(__file__))
EVID = HERE + '/evidence'


def pool_of(refuted):
    out = set()
    for _, hints, _ in refuted:
        for v in (hints or {}).values():
            for x in v if isinstance(v, list) else [v]:
                if isinstance(x, int):
                    out.add(x)
    return sorted(out)[:400]


def name(u):
    """a unit, without its compiler options"""
    return u[0] if isinstance(u, tuple) else u


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay(a.replay))
    sys.exit(check(a.prop, a.tier if a.tier in ('quick', 'thorough') else 'quick', int(os.environ.get('VERIF_SEED', '1') or 1)))


def check(prop, tier, seed):
    t0 = time.time()
    limit = 560 if tier == 'quick' else 3000
    b = B.Build()
    try:
        return check1(b, prop, tier, seed, t0, limit)
    finally:
        b.close()


def check1(b, prop, tier, seed, t0, limit):
    tasks = props.tasks(prop, tier)
    units = sorted({u for t in tasks for u in t[3]}, key=str)
    errs = {}
    good = []
    for u in units:
        try:
            b.prepare(name(u))
            good.append(u)
        except B.BuildError as e:
            errs[u] = str(e)
    errs.update(runner.compile_units(b, good))
    run = [t for t in tasks if not any(u in errs for u in t[3])]
    res = runner.run(b, run, deadline=t0 + limit)
    refuted = [(n, h, x) for r in res for n, h, x in r.refuted]
    # contracts the property rests on but does not state: when one fails, only a failing input of the property itself is an alarm
    nsup = sum(len(r.refuted) for r, t in zip(res, run) if t[4:] == ('support',))
    unknown = [f'{r.task}: {u}' for r in res for u in r.unknown]
    unsup = [f'{r.task}: {r.unsupported}' for r in res if r.unsupported] + [f'{u}: does not compile with the wrappers: {e[-300:]}' for u, e in errs.items()]
    t1 = time.time()
    # ---- native complement; more of it where obligations failed or were out of reach
    jobs = props.native(prop, tier)
    late = 'not waited for'
    if refuted or unknown or unsup:
        bu = {name(u) for r, t in zip(res, run) if r.refuted for u in t[3]}
        more = {name(u) for r, t in zip(res, run) if r.unknown or (r.unsupported and late not in r.unsupported) for u in t[3]} | {name(u) for u in errs}
        jobs = sorted([(s, u, c, max(sec, 25) if u in bu else max(sec, 12) if u in more else sec, *x) for s, u, c, sec, *x in jobs], key=lambda j: -j[3])
    nat = natrun.run(b, jobs, seed=seed, pool=pool_of(refuted), wall=t0 + limit + 120)
    fails = nat.crash + nat.bad
    if not fails and refuted:
        bu = {name(u) for r, t in zip(res, run) if r.refuted for u in t[3]}
        again = [(s, u, c, 40, *x) for s, u, c, _, *x in jobs if u in bu or (not any(x[1] in bu for x in jobs))]
        left = t0 + limit + 200 - time.time()
        if again and left > 60:
            n2 = natrun.run(b, again, seed=seed + 77, pool=pool_of(refuted), wall=time.time() + left - 50)
            fails = n2.crash + n2.bad
            nat.cases += n2.cases
            nat.checks += n2.checks
    for u in sorted({name(u) for u in errs}):
        if u in b.zoo:
            e = b.header_error(u)
            if e:
                fails.append({'suite': 'compile', 'unit': u, 'what': f'the generated code of schema {u} does not compile: {e}', 'trail': b.zoo[u].proto().splitlines()})
    kf, kbad = known.demonstrate(b, prop)
    fails += kbad
    if nsup and not fails:
        sup = [(n, h, x) for r, t in zip(res, run) if t[4:] == ('support',) for n, h, x in r.refuted]
        refuted = [x for x in refuted if x not in sup]
        unknown += [f'{n}: a contract this property rests on failed, but no input breaks the property' for n, _, _ in sup]
    viol = []
    os.makedirs(EVID, exist_ok=True)
    rp = f'{EVID}/{prop}.replay.json'
    if os.path.exists(rp):
        os.remove(rp)
    if refuted or fails:
        with open(rp, 'w') as f:
            json.dump({'property': prop, 'tier': tier, 'seed': seed,
                       'failed_obligations': [{'obligation': n, 'model': h, 'verifier': x} for n, h, x in refuted[:40]],
                       'failing_cases': fails[:10],
                       'replay': f'python3-vt {HERE}/check.py --replay {rp}' if fails else 'none found; see the failed obligations'}, f, indent=1, default=str)
        for n, _, x in refuted[:8]:
            print(f'failed obligation: {n}'[:300])
        for x in fails[:4]:
            print(f'failing case ({x.get("suite")} {x.get("unit")}): {x["what"]}'[:400])
            for l in x['trail'][-8:]:
                print('    ' + l[:200])
        viol.append({'obligations': [n for n, _, _ in refuted[:20]], 'failing_input': fails[0]['what'] if fails else None, 'replay': rp})
    for k in kf:
        print(f'KNOWN-FINDING: property={prop} {k}')
    proved, triv = sum(r.proved for r in res), sum(r.trivial for r in res)
    nobl = proved + triv + len(refuted) + len(unknown)
    fns = sorted({f for r in res for f in r.functions})
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof',
        'coverage': {
            'obligations': nobl, 'discharged': proved + triv,
            'discharged_by_z3': proved, 'discharged_by_simplification': triv,
            'failed': len(refuted), 'undecided': len(unknown), 'out_of_reach': len(unsup),
            'undecided_names': unknown[:20], 'out_of_reach_reasons': unsup[:20],
            'proof_tasks': len(res), 'schemas': [str(u) for u in units],
            'functions_under_contract': len(fns), 'functions': demangle(fns)[:400],
            'contracts_used_at_call_sites': sorted({c for r in res for c in r.contracts})[:60],
            'solver_seconds': round(sum(r.solver for r in res), 2), 'proof_wall_s': round(t1 - t0, 2),
            'checker_cmd': f'python3-vt check.py {prop} --tier {tier}',
            'trusted_base': ['clang 18 front end and opt passes sroa,instsimplify,simplifycfg (C++ to LLVM IR)', 'the LLVM IR verification condition generator vf/sym.py', 'z3 5.3 (python)', 'the specifications in vf/*.py'],
            'bounded_complement': {'label': 'bounded, not counted as proved', 'cases': nat.cases, 'comparisons': nat.checks, 'distinct_cases': nat.distinct, 'jobs': len(jobs), 'not_run': nat.errors[:5], 'samples': nat.samples[:4]},
        },
        'assumptions': props.assumptions(prop),
        'wall_s': round(time.time() - t0, 2), 'violations': viol,
    }
    with open(f'{EVID}/{prop}.json', 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print(f'{prop}: {proved + triv} of {nobl} obligations discharged ({proved} by z3), {len(refuted)} failed, {len(unknown)} undecided, {len(unsup)} tasks out of reach, '
          f'{nat.cases} native cases, {time.time() - t0:.0f} s')
    for x in (unknown + unsup)[:6]:
        print('  bounded only: ' + x[:300])
    for x in nat.errors[:4]:
        print('  native part not run: ' + x[:300])
    if fails:
        print(f'VIOLATION property={prop} replay={rp}')
        return 1
    if refuted:
        print(f'VIOLATION property={prop} replay={rp} no-failing-input-found')
        return 1
    if not proved + triv and not nat.cases:
        print(f'{prop}: nothing could be examined')
        return 2
    return 0


def demangle(fns):
    import subprocess
    try:
        r = subprocess.run(['c++filt'], input='\n'.join(fns).encode(), stdout=subprocess.PIPE, timeout=30)
        return r.stdout.decode().splitlines()
    except (OSError, subprocess.TimeoutExpired):
        return fns


def replay(path):
    with open(path) as f:
        d = json.load(f)
    b = B.Build()
    try:
        n = 0
        pool = pool_of([(x['obligation'], x['model'], '') for x in d['failed_obligations']])
        for x in d['failing_cases'][:3]:
            if 'suite' not in x or x['suite'] in ('known', 'compile'):
                continue
            o = natrun.run(b, [(x['suite'], x['unit'], x.get('case', 10 ** 9), 120, {'seed': x['seed'], 'only': x.get('only'), 'term': x.get('term')})], pool=pool)
            for y in o.bad + o.crash:
                print(f'{y["what"]}\n   ' + '\n   '.join(y['trail'][-20:]))
                n += 1
        print(f'{n} of the recorded cases failed again')
        return 1 if n else 0
    finally:
        b.close()


if __name__ == '__main__':
    main()
