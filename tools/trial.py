#!/usr/bin/env python3
"""trial.py [names|all] [--units a,b] [--props C01,..] [--test]: applies behaviour-preserving edits to a scratch copy
and reports what the verification units (and, with --props, the checks) say about them"""
import sys, os, re, subprocess, threading, time
W = os.environ.get('TRIAL_DIR', '/tmp/rf') + '/repo'
os.environ['VERIF_REPO'] = W
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, os.path.join(V, 'tools'))
import check
from refactors import R
from units import UNITS


def fnspan(s, where, nth=0):
    i = -1
    for _ in range(nth + 1):
        i = s.index(where, i + 1)
    a = i
    depth = 0
    while True:
        if s[a] in '([':
            depth += 1
        elif s[a] in ')]':
            depth -= 1
        elif s[a] == '{' and depth == 0:
            break
        a += 1
    d, b = 0, a
    while True:
        c = s[b]
        if c == '{':
            d += 1
        elif c == '}':
            d -= 1
            if d == 0:
                break
        elif s.startswith("'\\''", b) or s.startswith("'\"'", b):
            b += 3
        elif s.startswith("'\\\\'", b):
            b += 4
            continue
        elif c == '"':
            raw = s[b - 1] == 'r' or (s[b - 1] == '#')
            if raw:
                h = 0
                while s[b - 1 - h] == '#':
                    h += 1
                b = s.index('"' + '#' * h, b + 1)
            else:
                b += 1
                while s[b] != '"':
                    b += 2 if s[b] == '\\' else 1
        elif s.startswith('//', b):
            b = s.index('\n', b)
        b += 1
    st = s.rindex('\n', 0, i) + 1
    while True:     # doc comments and attributes
        p = s.rindex('\n', 0, st - 1) + 1
        l = s[p:st].strip()
        if l.startswith('//') or l.startswith('#['):
            st = p
        else:
            break
    return st, a, b


def apply(name):
    subprocess.run(['git', '-C', W, 'checkout', '-q', '--', '.'], check=True)
    for f, kind, where, text in R[name]:
        p = os.path.join(W, f)
        s = open(p).read()
        if kind.startswith('body'):
            st, a, b = fnspan(s, where)
            s = s[:a + 1] + text + s[b:]
        elif kind == 'before':
            st, a, b = fnspan(s, where)
            s = s[:st] + text.lstrip('\n') + '\n' + s[st:]
        elif kind == 'sub':
            assert s.count(where) == 1, (name, where, s.count(where))
            s = s.replace(where, text)
        elif kind in ('sub0', 'subn0'):
            assert where in s, (name, where)
            s = s.replace(where, text, 1)
        elif kind == 'all':
            assert where in s, (name, where)
            s = s.replace(where, text)
        elif kind == 'allregex':
            assert re.search(where, s), (name, where)
            s = re.sub(where, lambda m: text, s)
        open(p, 'w').write(s)


def build():
    r = []
    for cmd in (['cargo', 'check', '--offline', '--quiet'], ['cargo', 'check', '--offline', '--quiet', '--features', 'diagnostics,tynm'],
                ['cargo', '+nightly', 'check', '--offline', '--quiet', '--all-features']):
        p = subprocess.run(cmd, cwd=W, env=dict(os.environ, CARGO_TARGET_DIR=W + '/../target', RUSTFLAGS='-Awarnings'), capture_output=True, text=True)
        if p.returncode:
            r.append(p.stderr[-1500:])
    return r


def main():
    a = sys.argv[1:]
    opt = {}
    names = []
    while a:
        x = a.pop(0)
        if x in ('--units', '--props'):
            opt[x] = a.pop(0).split(',')
        elif x.startswith('--'):
            opt[x] = True
        else:
            names.append(x)
    if not names or names == ['all']:
        names = list(R)
    os.makedirs(os.path.dirname(W), exist_ok=True)
    if not os.path.isdir(W):
        subprocess.run(['git', 'clone', '-q', '/repo', W], check=True)
    subprocess.run(['git', '-C', W, 'fetch', '-q', '/repo', 'HEAD'], check=True)
    subprocess.run(['git', '-C', W, 'reset', '-q', '--hard', 'FETCH_HEAD'], check=True)
    if os.path.exists('/repo/Cargo.lock') and not os.path.exists(W + '/Cargo.lock'):
        import shutil
        shutil.copy('/repo/Cargo.lock', W)
    exe = check.build_extract()
    os.makedirs(check.BUILD, exist_ok=True)
    for n in names:
        try:
            apply(n)
        except (AssertionError, ValueError) as e:
            print(n, 'DOES NOT APPLY', str(e)[:200], flush=True)
            continue
        files = {x[0] for x in R[n]}
        if '--nobuild' not in opt:
            e = build()
            if e:
                print(n, 'DOES NOT BUILD', e[0])
                continue
        if '--test' in opt:
            p = subprocess.run(['cargo', 'test', '--offline', '--quiet', '--lib', '--features', 'diagnostics'], cwd=W,
                               env=dict(os.environ, CARGO_TARGET_DIR=W + '/../target', RUSTFLAGS='-Awarnings'), capture_output=True, text=True)
            if p.returncode:
                print(n, 'TESTS FAIL', p.stdout[-800:])
        us = [check.Unit(u, exe, 'quick', 1) for u in opt.get('--units', UNITS) if files & set(UNITS[u]['files'])]
        check.T0 = time.time()
        ts = [threading.Thread(target=u.go) for u in us]
        [t.start() for t in ts]
        [t.join() for t in ts]
        out = []
        for u in us:
            b = [k for k, f in u.meta['fns'].items() if f.get('degraded')] if hasattr(u, 'meta') else []
            if u.fail or u.soft or u.undecided or u.error or u.demote or u.noghost or b or (hasattr(u, 'meta') and u.meta.get('lost')):
                out.append('   %s: %d ok, %d err, %d rounds%s' % (u.name, u.verified, u.errors, u.rounds, (' ERROR ' + u.error[:500]) if u.error else ''))
                for w, l in (('demoted', u.demote), ('noghost', u.noghost), ('flip', u.flip), ('degraded', b), ('lost', getattr(u, 'meta', {}).get('lost', []))):
                    if l:
                        out.append('      %s: %s' % (w, '; '.join(l)))
                for f in u.fail:
                    out.append('      %s %s %s %s: %s [%s]' % ('STRONG' if f['strong'] else 'weak', f['fn'], f['kind'], f['text'][:100], f['message'][:80], ','.join(sorted(f['tags']))))
                for f in u.soft:
                    out.append('      soft %s (%s) %s: %s' % (f['fn'], '; '.join(u.soft_reason(f['fn'])), f['kind'], f['text'][:100]))
                for f in u.undecided:
                    out.append('      undecided %s' % f['fn'])
        print(n, 'clean' if not out else '', '(%.0f s)' % (time.time() - check.T0))
        for l in out:
            print(l)
        sys.stdout.flush()
        for p in opt.get('--props', []):
            r = subprocess.run([sys.executable, V + '/check.py', p], env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'), capture_output=True, text=True)
            print('   ', p, r.returncode, r.stdout.strip()[-200:])
    "--keep" in opt or subprocess.run(["git", "-C", W, "checkout", "-q", "--", "."])


if __name__ == "__main__":
    main()
