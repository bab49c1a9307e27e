#!/usr/bin/env python3
"""run.py <property id> [quick|thorough]  -- decide one property statically on the current /repo tree.
exit 0: held (KNOWN-FINDING lines possible); exit 1: VIOLATION; exit 2: analysis broken (no answer)."""
import sys, os, json, time, importlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, 'engine')); sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import front
from front import AnalysisBroken


class Result:
    """what a check found and what it covered"""

    def __init__(s):
        s.violations = []       # dicts: key, rule, where, msg, path
        s.cov = {}
        s.undecided = []
        s.assumptions = []
        s.samples = []
        s._keys = set()

    def violation(s, rule, where, msg, key=None, path=None):
        key = key or '%s|%s|%s' % (rule, where, msg)
        if key in s._keys:
            return
        s._keys.add(key)
        s.violations.append({'key': key, 'rule': rule, 'where': where, 'message': msg, 'path': path or []})

    def add(s, k, n=1):
        s.cov[k] = s.cov.get(k, 0) + n

    def need(s, k, n):
        """vacuity guard: instance count must reach what was confirmed by hand"""
        if s.cov.get(k, 0) < n:
            raise AnalysisBroken('vacuous: only %d %s analysed, expected at least %d' % (s.cov.get(k, 0), k, n))


def main():
    os.chdir('/')   # the compiler shortens file names relative to its directory: keep them absolute wherever the check is started
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    ev = os.environ.get('HDB_EVID') or os.path.join(VERIF, 'evidence'); os.makedirs(ev, exist_ok=True)
    evf = os.path.join(ev, pid + '.json'); rep = os.path.join(ev, pid + '.report.txt')
    R = Result()
    try:
        mod = importlib.import_module(pid.lower())
        mod.check(R, tier)
        if not R.cov:
            raise AnalysisBroken('nothing analysed')
    except AnalysisBroken as e:
        if R.violations:
            pass          # a definite violation already found outranks an incomplete remainder
        else:
            print('ANALYSIS-BROKEN property=%s %s' % (pid, e)); sys.exit(2)
    except Exception:
        traceback.print_exc(); print('ANALYSIS-BROKEN property=%s internal error' % pid); sys.exit(2)
    known = {}
    kf = os.path.join(VERIF, 'known-findings.jsonl')
    if os.path.exists(kf):
        for l in open(kf):
            l = l.strip()
            if not l or l.startswith('#') or l.startswith('fixed:'):
                continue
            d = json.loads(l)
            if d['property'] == pid:
                known[d['key']] = d
    new = [v for v in R.violations if v['key'] not in known]
    old = [v for v in R.violations if v['key'] in known]
    cov = {'explanation': (mod.__doc__ or '').strip(), 'analysed': R.cov, 'undecided_obligations': len(R.undecided), 'samples': R.samples[:12]}
    if R.undecided:
        n = {}
        for u in R.undecided:
            n[str(u)] = n.get(str(u), 0) + 1
        cov['undecided'] = ['%d x %s' % (k, u) for u, k in sorted(n.items(), key=lambda x: -x[1])[:40]]
    json.dump({'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
               'coverage': cov, 'assumptions': R.assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}, open(evf, 'w'), indent=1)
    with open(rep, 'w') as f:
        for v in R.violations:
            f.write('%s\n  rule: %s\n  where: %s\n  %s\n' % ('KNOWN' if v['key'] in known else 'VIOLATION', v['rule'], v['where'], v['message']))
            for p in v['path']:
                f.write('    via %s\n' % (p,))
    for v in old:
        print('KNOWN-FINDING: property=%s %s' % (pid, known[v['key']]['what']))
    for v in new[:10]:
        print('  [%s] %s: %s' % (v['rule'], v['where'], v['message']))
    print('property=%s analysed=%s undecided=%d wall=%.1fs' % (pid, json.dumps(R.cov), len(R.undecided), time.time() - t0))
    if new:
        print('VIOLATION property=%s replay=%s' % (pid, rep)); sys.exit(1)
    sys.exit(0)


if __name__ == '__main__':
    main()
