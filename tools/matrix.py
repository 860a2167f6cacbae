#!/usr/bin/env python3
"""matrix.py [seed ids]: applies each planted bug to a scratch copy and says, for every property (searches: the plain ones and those of the bug's own property), whether its check would raise an alarm
(i: failing input on the real code, p: failed obligation only). Units and searches are run once per bug and judged as check.py does."""
import sys, os, subprocess, threading, time, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get('TRIAL_DIR', '/tmp/mx') + '/repo'
os.environ['VERIF_REPO'] = W
sys.path.insert(0, V)
import check
from units import UNITS, PROPS, PLAIN, DIAG


def judge(us, ss):
    """property -> 'i' or 'p', as in check.main (without the longer search)"""
    r = {}
    for p, P in PROPS.items():
        mine = [u for u in us if u.name in P['units']]
        sm = [s for s in ss if (s.feats, s.toolchain, s.mode) in P['searches']]
        strong = [f for u in mine for f in u.fail if f['strong'] and p in f['tags']]
        weak = [f for u in mine for f in u.fail if not f['strong'] and p in f['tags']]
        if any(p in s.findings for s in sm):
            r[p] = 'i' + ('+' if strong else '')
        elif strong:
            r[p] = 'p'
        elif weak and not any(s.findings for s in sm):
            r[p] = 'w'
    return r


def run(prop, secs=6, threads=4):
    exe = check.build_extract()
    us = [check.Unit(u, exe, 'quick', 1) for u in UNITS]
    check.T0 = time.time()
    ss = [check.Search(fe, tc, mo, 1, secs, 'C01') for fe, tc, mo in sorted({PLAIN, DIAG} | set(PROPS[prop]['searches'] if prop else [x for p in PROPS.values() for x in p['searches']]), key=str)]
    ts = [threading.Thread(target=u.go) for u in us]
    bs = [threading.Thread(target=s.build) for s in ss]
    [x.start() for x in ts + bs]
    [x.join() for x in bs]
    for s in ss:
        s.go(threads=threads)
    [x.join() for x in ts]
    return us, ss


def main():
    ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
    os.makedirs(os.path.dirname(W), exist_ok=True)
    if not os.path.isdir(W):
        subprocess.run(['git', 'clone', '-q', '/repo', W], check=True)
    shutil.copy('/repo/Cargo.lock', W)
    os.makedirs(check.BUILD, exist_ok=True)
    for i in ids:
        subprocess.run(['git', '-C', W, 'checkout', '-q', '--', '.'], check=True)
        subprocess.run(['git', '-C', W, 'apply', '%s/seeded/%s/patch.diff' % (V, i)], check=True)
        m = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
        us, ss = run(m['property'])
        r = judge(us, ss)
        print(i, m['property'], r.get(m['property'], 'MISSED'), ' '.join('%s:%s' % x for x in sorted(r.items())),
              '| degraded:', ','.join(sorted({k for u in us for k in list(u.demote) + [k for k, x in getattr(u, 'meta', {'fns': {}})['fns'].items() if x.get('degraded')]})))
        sys.stdout.flush()
    subprocess.run(['git', '-C', W, 'checkout', '-q', '--', '.'])


if __name__ == '__main__':
    main()
