#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decides one property of /repo's current source by static analysis.
Exit 0: holds on everything analysed.  Exit 1: VIOLATION line(s).  Exit 2: the analysis itself could not be carried out."""
import glob
import json
import os
import resource
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
EVID = os.environ.get('VERIF_EVIDENCE') or os.path.join(HERE, 'evidence')
sys.path.insert(0, HERE)
from engine import build, rules, runner, table  # noqa: E402

LEVEL = 'other'


def load_known():
    known = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('known: '):
                f = l.split(None, 4)
                known.append(dict(property=f[1].split('=')[1], function=f[2].split('=')[1], output=f[3].split('=')[1],
                                  what=f[4].strip()))
    return known


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    pid = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    for a in sys.argv[1:]:
        if a.startswith('--tier='):
            tier = a.split('=')[1]
    only = args[1:]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    try:
        mod = build.load_library()
        spec = build.load_files(sorted(glob.glob(os.path.join(HERE, 'spec', '*.cc'))))
        ctx = rules.Ctx(mod, spec, tier)
    except build.FrontEndError as e:
        print('ANALYSIS-BROKEN %s: %s' % (pid, e))
        return 2
    jobs = table.jobs(pid, tier)
    if only:
        jobs = [j for j in jobs if any(o in ' '.join(map(str, j)) for o in only)]
    # an internal helper that a refactoring folded into its caller leaves its own instance undecided, not the whole check
    gone = {j for j in jobs if len(j) > 1 and isinstance(j[1], str) and j[1] in rules.api.API and j[1] not in ctx.res}

    def work(j):
        if j in gone:
            return dict(status='undecided', why='routine %s is not in the library' % j[1], findings=[])
        return rules.RULES[j[0]](ctx, *j[1:])

    verbose = '--verbose' in sys.argv
    log = (lambda k, r: print('  %6.1fs %-9s %s %s' % (r['secs'], r['status'], ' '.join(map(str, k)), r.get('why', '')),
                              flush=True)) if verbose else None
    limit = 300 if tier == 'quick' else 1500
    deadline = 780 if tier == 'quick' else 6 * 3600
    results = runner.run_jobs([(j, j) for j in jobs], work, limit=limit, deadline=deadline, log=log)
    order = {j: i for i, j in enumerate(jobs)}
    results.sort(key=lambda kr: order[kr[0]])
    return report(pid, tier, seed, ctx, results, time.time() - t0)


def report(pid, tier, seed, ctx, results, wall):
    known = [k for k in load_known() if k['property'] == pid]
    viol, und, obligations, decided = [], [], 0, 0
    used = []
    samples = []
    for key, r in results:
        n = r.get('n', 0)
        bad = 0
        if r['status'] == 'undecided' and not r['findings']:
            und.append(dict(instance=list(key), why=r.get('why', ''), trace=r.get('trace')))
            obligations += 1
            continue
        for f in r['findings']:
            f['instance'] = list(key)
            if f['status'] == 'violation':
                k = next((k for k in known if k['function'] == f.get('function') and k['output'] == f.get('output')), None)
                if k:
                    used.append(k)
                else:
                    viol.append(f)
            else:
                und.append(f)
            bad += 1
        obligations += n
        decided += max(0, n - bad)
        if n and len(samples) < 12 and not r['findings']:
            samples.append(dict(instance=' '.join(map(str, key)), analysed=r.get('what'), obligations=n, **(r.get('sample') or {})))
    funcs = [f for f in ctx.mod.funcs.values() if not f.decl] if hasattr(next(iter(ctx.mod.funcs.values())), 'decl') else list(ctx.mod.funcs.values())
    rulesused = sorted({k[0] for k, _ in results})
    ev = dict(property=pid, tier=tier, seed=seed, level=LEVEL, wall_s=round(wall, 1), violations=len(viol),
              coverage=dict(
                  explanation='Static analysis of the LLVM value graph of every library translation unit; no library code is executed. '
                              + ' '.join('[%s] %s.' % (k, (rules.RULES[k].__doc__ or '').strip().replace('\n', ' ')) for k in rulesused),
                  translation_units=len(build.library_sources()), functions_in_module=len(funcs),
                  rule_instances=len(results), obligations=obligations, discharged=decided,
                  undecided=len(und), rules=rulesused, samples=samples,
                  undecided_list=[{k: v for k, v in u.items() if k in ('instance', 'why', 'output', 'region', 'function')} for u in und[:40]]),
              assumptions=['floating-point operations are treated as exact real arithmetic; coefficients are matched to the stated tolerance',
                           'libm functions have their mathematical meaning'])
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, pid + '.json'), 'w'), indent=1, default=str)
    for k in used:
        print('KNOWN-FINDING: property=%s function=%s output=%s %s' % (pid, k['function'], k['output'], k['what']))
    for u in und:
        print('undecided: %s' % json.dumps({k: str(v)[:200] for k, v in u.items() if k in ('instance', 'why', 'output', 'region')}))
    print('%s: %d rule instances, %d obligations, %d discharged, %d undecided, %d violations, %.1f s'
          % (pid, len(results), obligations, decided, len(und), len(viol), wall))
    if viol:
        rp = os.path.join(EVID, pid + '.replay.json')
        json.dump(viol, open(rp, 'w'), indent=1, default=str)
        for f in viol[:10]:
            print('  %s: %s: output %s; where %s' % (f.get('at'), f.get('function'), f.get('output'), str(f.get('region'))[:200]))
            print('      code: %s' % str(f.get('code'))[:240])
            print('      rule: %s' % str(f.get('rule'))[:240])
            if f.get('valuation'):
                print('      e.g. %s: code %s, rule %s' % (str(f['valuation'])[:200], f.get('code_value'), f.get('rule_value')))
        print('VIOLATION property=%s replay=%s' % (pid, os.path.relpath(rp, HERE)))
        return 1
    if not results or not decided:
        print('ANALYSIS-BROKEN %s: nothing was decided' % pid)
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
