#!/usr/bin/env python3
"""check.py PROPERTY -- decides one property of /repo's current source.

1. extracts the functions under contract from the source (extract/, verus/*.vs) and has Verus
   discharge every obligation, once per unit the property rests on;
2. meanwhile looks for an input on which the real code breaks the property (replay/): this is what
   turns a failed obligation into a failing input.
See DESIGN.md for how a verdict is formed.
"""
import sys, os, json, re, subprocess, threading, time, hashlib, resource, shutil, signal, struct

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, VERIF)
from units import UNITS, PROPS  # noqa: E402

T0 = time.time()
BUDGET = 840


def left():
    return BUDGET - (time.time() - T0)


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, file=sys.stderr, flush=True)


def big(n):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_AS, (n << 30, n << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def run(cmd, timeout, env=None, mem=16, cwd=None):
    """-> (rc, stdout, stderr); rc None on timeout"""
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd,
                         preexec_fn=big(mem), stdin=subprocess.DEVNULL)
    try:
        o, r = p.communicate(timeout=timeout)
        return p.returncode, o.decode('utf8', 'replace'), r.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, r = p.communicate()
        return None, o.decode('utf8', 'replace'), r.decode('utf8', 'replace')


BUILD = os.path.join(VERIF, 'build', hashlib.sha1(REPO.encode()).hexdigest()[:8])
ENV = {'CARGO_NET_OFFLINE': 'true', 'CARGO_TERM_COLOR': 'never', 'RUSTFLAGS': '', 'RUST_BACKTRACE': '0'}


class Broken(Exception):
    pass


# ---------------------------------------------------------------- building
def build_extract():
    t = os.path.join(VERIF, 'build', 'ext')
    rc, o, e = run(['cargo', 'build', '--offline', '--quiet'], 400, dict(ENV, CARGO_TARGET_DIR=t),
                   cwd=os.path.join(VERIF, 'extract'))
    if rc != 0:
        raise Broken('the extractor does not build:\n' + e[-3000:])
    return os.path.join(t, 'debug', 'extract')


def build_replay(feats, toolchain=None, mode='search'):
    binary = 'replay' if mode == 'search' else 'suite'
    name = 'rp_' + (feats.replace(',', '_') or 'default') + ('_n' if toolchain else '')
    d = os.path.join(BUILD, name)
    os.makedirs(d, exist_ok=True)
    src = open(os.path.join(VERIF, 'replay', 'Cargo.toml')).read()
    src = src.replace('path = "/repo"', 'path = "%s"' % REPO)
    src = src.replace('path = "src/', 'path = "%s/replay/src/' % VERIF)
    old = None
    f = os.path.join(d, 'Cargo.toml')
    if os.path.exists(f):
        old = open(f).read()
    if old != src:
        open(f, 'w').write(src)
    lock = os.path.join(d, 'Cargo.lock')
    if not os.path.exists(lock):
        shutil.copy(os.path.join(VERIF, 'replay', 'Cargo.lock'), lock)
    cmd = ['cargo'] + (['+' + toolchain] if toolchain else []) + ['build', '--offline', '--quiet', '--bin', binary, '--features', feats]
    if 'rel' in feats.split(','):
        cmd.append('--release')
    rc, o, e = run(cmd, 400, dict(ENV, CARGO_TARGET_DIR=os.path.join(d, 'target')), cwd=d)
    if rc != 0:
        return None, e[-4000:]
    return os.path.join(d, 'target', 'release' if 'rel' in feats.split(',') else 'debug', binary), ''


# ---------------------------------------------------------------- the verifier
class Unit:
    """One extraction and its verification; ends with self.fail = list of failed obligations."""

    def __init__(self, name, exe, tier, seed):
        self.name, self.exe, self.tier, self.seed = name, exe, tier, seed
        self.cfg = UNITS[name]
        self.demote, self.flip, self.noghost = [], [], []
        self.spinoff = []
        self.soft = []
        self.fail = []          # dicts: fn, kind, tags, strong, text, message, line, where
        self.undecided = []     # obligations the verifier gave up on
        self.lostclauses = []
        self.verified = 0
        self.errors = 0
        self.times = {}
        self.error = None       # the whole unit is out of reach
        self.rounds = 0
        self.out = ''
        self.smt_ms = 0
        self.fns = {}
        self.fndetail = []

    def verus(self, out, extra, timeout):
        # Verus takes the file's stem as crate name
        cmd = ['verus', '--crate-type', 'lib', '--edition', '2021', out, '--multiple-errors', '8', '--output-json',
               '--time-expanded'] + extra + ['--', '--error-format=json']
        rc, o, e = run(cmd, timeout, dict(ENV), mem=20, cwd=os.path.dirname(out))
        diags = []
        for l in e.splitlines():
            if l.startswith('{'):
                try:
                    d = json.loads(l)
                except ValueError:
                    continue
                if d.get('level') == 'error':
                    diags.append(d)
        try:
            js = json.loads(o[o.index('{'):])
        except ValueError:
            js = {}
        return rc, js, diags, e

    def extract(self, record=None, suffix=''):
        # (the file's stem is the crate's name)
        d = os.path.join(BUILD, 'units' + suffix)
        os.makedirs(d, exist_ok=True)
        out = os.path.join(d, 'unit_%s.rs' % self.name)
        c = self.cfg
        cmd = [self.exe, '--repo', REPO, '--features', c['features'], '--files', ','.join(c['files']),
               '--specs', ','.join(os.path.join(VERIF, 'verus', s) for s in c['specs']),
               '--baseline', record or os.path.join(VERIF, 'verus', 'baseline_%s.json' % self.name), '--out', out]
        if record:
            cmd += ['--record']
        if getattr(self, 'smoke', False):
            cmd += ['--smoke']
        for k, v in (('--demote', self.demote), ('--noghost', self.noghost), ('--flip', self.flip), ('--spinoff', self.spinoff)):
            if v:
                cmd += [k, ','.join(v)]
        rc, o, e = run(cmd, 60, ENV)
        if rc != 0:
            return None, (e or o)[-2000:]
        self.meta = json.load(open(out + '.json'))
        return out, ''

    def at(self, line):
        best = None
        for m in self.meta['map']:
            if m['line'] <= line <= m['end'] and (best is None or m['end'] - m['line'] <= best['end'] - best['line']):
                best = m
        return best

    def fnat(self, line):
        for n, f in self.meta['fns'].items():
            if f.get('start', 0) <= line <= f.get('end', -1):
                return n
        m = self.at(line)
        return m['fn'] if m else None

    def tags_of(self, fn):
        t = set()
        for m in self.meta['map']:
            if m['fn'] == fn and m['kind'] in ('ensures', 'invariant', 'decreases') and m['tags']:
                t |= set(m['tags'].split(','))
        return t

    def go(self):
        t0 = time.time()
        extra = list(self.cfg.get('args', []))
        for rnd in range(14):
            self.rounds = rnd + 1
            if left() < 60:
                self.error = 'out of time'
                return
            out, err = self.extract()
            if out is None:
                bad = re.search(r'cannot normalise ([\w:<> ]+)', err)
                if bad and bad.group(1) not in self.demote:
                    self.demote.append(bad.group(1))
                    continue
                self.error = 'extraction failed: ' + err.strip()[-600:]
                return
            rc, js, diags, raw = self.verus(out, extra, min(300, max(30, left() - 30)))
            if rc is None:
                self.error = 'the verifier ran out of time'
                return
            vr = js.get('verification-results', {})
            comp = [d for d in diags if not self.is_vc(d)]
            comp = [d for d in comp if d['spans']]
            if vr.get('encountered-vir-error') or 'verified' not in vr or (comp and not vr.get('verified')):
                if not self.repair(comp, raw):
                    self.error = 'the extracted text is outside the verifier\'s language: ' + \
                        '; '.join(d['message'][:200] for d in comp[:3]) + ('' if comp else raw[-500:])
                    return
                continue
            break
        else:
            self.error = 'no verifiable extraction after %d attempts' % self.rounds
            return
        self.out = out
        self.take(js, diags)
        # a proof may fail for want of resources or luck only: keep what fails again, in a solver of its own, under other seeds
        for k in range(4):
            if not (self.fail or self.undecided) or left() < 120 or time.time() - t0 > 260:
                break
            again = Unit(self.name, self.exe, self.tier, self.seed)
            again.demote, again.flip, again.noghost = self.demote, self.flip, self.noghost
            again.spinoff = sorted({f['fn'] for f in self.fail + self.undecided if f['fn']}) if k % 2 == 0 else []
            o2, err = again.extract(suffix='_again')
            if o2 is None:
                break
            rc, js, diags, raw = self.verus(o2, extra + ['--rlimit', '60', '--smt-option', 'smt.random_seed=%d' % (self.seed + 7 * (k + 1))],
                                            min(200, max(30, left() - 90)))
            self.rounds += 1
            if rc is None or 'verified' not in js.get('verification-results', {}):
                break
            again.take(js, diags)
            keep = {(f['fn'], f['kind'], f['text']) for f in again.fail}
            keepfn = {f['fn'] for f in again.fail}
            und = {u['fn'] for u in self.undecided}
            self.fail = [f for f in self.fail if (f['fn'], f['kind'], f['text']) in keep or (f['fn'] in keepfn and not f['strong'])]
            self.fail += [f for f in again.fail if f['fn'] in und and f not in self.fail]
            self.undecided = [u for u in again.undecided if u['fn'] in und or u['fn'] in keepfn]
            self.smt_ms += again.smt_ms
            left_over = {f['fn'] for f in self.fail + self.undecided}
            # one obligation is one function
            self.errors = len(left_over)
            self.verified = max(self.verified, js['verification-results']['verified'] + js['verification-results']['errors'] - self.errors)
            if all(self.soft_reason(f['fn']) for f in self.fail) and k >= 1:
                break
        # where the body has another shape than the proof was written for, a failure says nothing about the code
        self.soft = [f for f in self.fail if self.soft_reason(f['fn'])]
        self.fail = [f for f in self.fail if not self.soft_reason(f['fn'])]
        self.wall = time.time() - t0

    def soft_reason(self, fn):
        f = self.fns.get(fn, {})
        r = list(f.get('soft', [])) + list(f.get('degraded', []))
        if fn in self.noghost:
            r.append('the annotations of the body do not fit it')
        return r

    @staticmethod
    def is_vc(d):
        m = d['message']
        return bool(re.match(r'(postcondition not satisfied|precondition not satisfied|assertion failed|invariant not satisfied|'
                             r'loop invariant|possible |decreases not satisfied|could not prove termination|requires not satisfied|'
                             r'unable to prove|recommendation not met|while loop: |function body check|loop: |bit-vector|'
                             r'.*rlimit|.*Resource limit|cannot show|failed |assert_by|loop must|split )', m)) or m.startswith('aborting due')

    def repair(self, comp, raw):
        """compile errors: leave out what cannot be expressed; True if something changed"""
        changed = False
        for d in comp:
            msg = d['message']
            for s in d['spans']:
                fn = self.fnat(s['line_start'])
                if not fn or fn.startswith('('):
                    continue
                f = self.meta['fns'].get(fn)
                if not f:
                    continue
                m = self.at(s['line_start'])
                if s.get('is_primary') or True:
                    if re.search(r'Option|Result', msg) and 'mismatched' in msg and fn not in self.flip:
                        self.flip.append(fn)
                        changed = True
                        break
                    if m and m['kind'] in ('ghost', 'invariant', 'decreases') and fn not in self.noghost and fn not in self.demote:
                        self.noghost.append(fn)
                        changed = True
                        break
                    if fn not in self.demote:
                        self.demote.append(fn)
                        changed = True
                        break
        return changed

    def take(self, js, diags):
        vr = js['verification-results']
        self.verified, self.errors = vr['verified'], vr['errors']
        t = js.get('times-ms', {})
        self.smt_ms += t.get('smt', {}).get('smt-run', 0)
        self.times = {'total_ms': t.get('total'), 'smt_ms': t.get('smt', {}).get('smt-run')}
        for mm in t.get('smt', {}).get('smt-run-module-times', []):
            for fb in mm.get('function-breakdown', []):
                self.fndetail.append((fb.get('function', '').split('::', 1)[-1], fb.get('time-micros', 0), fb.get('success')))
        self.fns = self.meta['fns']
        for d in diags:
            msg = d['message']
            if msg.startswith('aborting due') or not d['spans']:
                continue
            spans = d['spans']
            ms = [(s, self.at(s['line_start'])) for s in spans]
            ms = [(s, m) for s, m in ms if m]
            prim = next((s for s in spans if s.get('is_primary')), spans[0])
            fn = None
            for s in spans:       # the function whose body is checked
                f = self.fnat(s['line_start'])
                if f in self.meta['fns'] and not self.meta['fns'][f].get('trusted'):
                    fn = fn or f
            pl = self.fnat(prim['line_start'])
            fn = pl if pl in self.meta['fns'] else (fn or pl)
            if re.search(r'rlimit|Resource limit', msg):
                self.undecided.append({'fn': fn, 'message': msg, 'tags': sorted(self.tags_of(fn))})
                continue
            rec = {'fn': fn, 'message': msg, 'strong': False, 'tags': set(), 'kind': '', 'text': '', 'lines': [s['line_start'] for s in spans],
                   'rendered': d.get('rendered', '')[:3000]}
            clause = [m for s, m in ms if m['kind'] in ('ensures', 'requires', 'invariant', 'decreases')]
            if msg.startswith('postcondition') or 'invariant not satisfied' in msg:
                kinds = ('ensures',) if msg.startswith('post') else ('invariant',)
                cl = [m for m in clause if m['kind'] in kinds]
                for m in cl:
                    rec['kind'], rec['text'] = m['kind'], m['text']
                    if m['tags']:
                        rec['tags'] |= set(m['tags'].split(','))
                        rec['strong'] = True
                if not rec['tags']:
                    rec['tags'] = self.tags_of(fn)
            elif msg.startswith('precondition'):
                cl = [m for m in clause if m['kind'] == 'requires']
                rec['kind'] = 'requires'
                for m in cl:
                    rec['text'] = m['text']
                    if m['tags']:
                        rec['tags'] |= set(m['tags'].split(','))
                if not cl:    # a precondition of a library function: it would panic
                    rec['tags'] = {'C09'}
                    rec['text'] = msg
                elif not rec['tags']:
                    rec['tags'] = self.tags_of(fn)
            elif 'decreases' in msg or 'termination' in msg:
                rec['kind'] = 'decreases'
                rec['tags'] = {'C09'}
            elif msg.startswith('possible'):
                rec['kind'] = 'overflow'
                rec['tags'] = {'C09'}
            else:
                rec['kind'] = 'assert'
                rec['text'] = (prim.get('text') or [{}])[0].get('text', '').strip()
                m = self.at(prim['line_start'])
                rec['tags'] = set(m['tags'].split(',')) if m and m.get('tags') else self.tags_of(fn)
            f = self.meta['fns'].get(fn, {})
            rec['where'] = '%s:%s' % (f.get('file', '?'), f.get('srcline', '?'))
            self.fail.append(rec)


def smoke(u, timeout=800):
    """Are the contexts of the proofs free of contradictions? With an unprovable clause at the entry and exit of each function, at the beginning
    of each loop and after it, all of them have to be rejected. Returns the number of clauses and those that were accepted."""
    u.smoke = True
    out, err = u.extract(suffix='_smoke')
    u.smoke = False
    if out is None:
        return {'error': err[-500:]}
    meta = json.load(open(out + '.json'))
    cmd = ['verus', '--crate-type', 'lib', '--edition', '2021', out, '--multiple-errors', '60', '--', '--error-format=json']
    rc, o, e = run(cmd, timeout, dict(ENV), mem=20, cwd=os.path.dirname(out))
    lines = {m['line']: '%s: %s' % (m['fn'], m['tags']) for m in meta['map'] if m['kind'] == 'smoke'}
    got = set()
    for l in e.splitlines():
        if l.startswith('{'):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get('level') == 'error':
                got |= {s['line_start'] for s in d['spans'] if s['line_start'] in lines}
    return {'clauses': len(lines), 'rejected': len(got), 'accepted': sorted(lines[l] for l in set(lines) - got), 'timeout': rc is None}


# ---------------------------------------------------------------- the replayer
class Search:
    """The replayer on the real code, in one configuration."""

    def __init__(self, feats, toolchain, mode, seed, secs, prop):
        self.feats, self.toolchain, self.mode, self.seed, self.secs, self.prop = feats, toolchain, mode, seed, secs, prop
        self.findings = {}
        self.stats = {}
        self.note = ''
        self.exe = None

    def build(self):
        self.exe, err = build_replay(self.feats, self.toolchain, self.mode)
        if self.exe is None:
            self.note = 'does not build: ' + err[-1500:]

    def go(self, secs=None, first=0, stop=None, threads=8):
        if self.exe is None:
            return
        secs = secs or self.secs
        tag = '%s_%s_%s' % (self.prop, self.feats.replace(',', '_'), self.mode)
        prog = os.path.join(BUILD, 'progress_' + tag)
        outf = os.path.join(BUILD, 'found_' + tag)
        for f in (prog, outf):
            if os.path.exists(f):
                os.unlink(f)
        cmd = [self.exe, self.mode, '--seed', str(self.seed), '--secs', str(secs), '--first', str(first), '--threads', str(threads),
               '--out', outf, '--progress', prog, '--only', self.prop]
        if stop:
            cmd += ['--stop-on', stop]
        rc, o, e = run(cmd, secs + 90, mem=24)
        res = None
        try:
            res = json.loads(o.strip().splitlines()[-1])
        except (ValueError, IndexError):
            pass
        if res is None:
            # it crashed: look at what each thread was at
            if os.path.exists(outf):
                try:
                    self.add(json.load(open(outf)))
                except ValueError:
                    pass
            hs = []
            if os.path.exists(prog):
                b = open(prog, 'rb').read()
                hs = sorted({x - 1 for (x,) in struct.iter_unpack('<Q', b[:len(b) // 8 * 8]) if x})
            self.note = 'search ended abnormally (%s)' % rc
            log(self.note, 'at', hs)
            for h in hs[:8]:
                self.single(h, 'crash')
            return
        self.add(res.pop('findings'))
        for k, v in res.items():
            if isinstance(v, (int, float)) and k not in ('deepest',):
                self.stats[k] = self.stats.get(k, 0) + v
            elif k == 'deepest':
                self.stats[k] = max(self.stats.get(k, 0), v)
            elif k == 'samples':
                self.stats.setdefault('samples', []).extend(v[:2])
        for h in res.get('hangs', [])[:3]:
            self.single(h, 'hang')

    def single(self, h, how):
        """one history alone: does it really hang or crash?"""
        cmd = [self.exe, 'replay' if self.mode == 'search' else self.mode, '--seed', str(self.seed), '--hist', str(h), '--announce', '1']
        rc, o, e = run(cmd, 25, mem=4)
        if rc in (0, 1):
            return
        lines = [l for l in o.splitlines() if l.startswith('{')]
        try:
            last = json.loads(lines[-1])
        except (ValueError, IndexError):
            return
        if 'end' in last:
            return
        props = set(last.get('props', [])) | {'C09'}
        rec = {'seed': self.seed, 'hist': h, 'what': 'the operation does not terminate' if rc is None else
               'the process dies (status %s) during the operation' % rc, 'at': last.get('at'), 'op': last.get('op'),
               'ops': [json.loads(l).get('op') for l in lines], 'props': sorted(props), 'announce': True}
        for p in props:
            self.findings.setdefault(p, rec)

    def add(self, f):
        for p, v in f.items():
            self.findings.setdefault(p, v)

    def command(self, rec):
        feats = "--features '%s'" % self.feats if self.feats else ''
        if 'rel' in self.feats.split(','):
            feats += ' --release'
        tc = '+%s ' % self.toolchain if self.toolchain else ''
        m = 'replay' if self.mode == 'search' else self.mode
        c = 'cd /verif/replay && CARGO_TARGET_DIR=/tmp/replay_target cargo %srun --offline --bin %s %s -- %s --seed %s' % (tc, 'replay' if self.mode == 'search' else 'suite', feats, m, self.seed)
        if 'hist' in rec:
            c += ' --hist %s' % rec['hist']
        if 'case' in rec:
            c += ' --case %s' % rec['case']
        if rec.get('announce'):
            c += ' --announce 1'
        return c + ' --prop ' + self.prop


# ---------------------------------------------------------------- verdict
def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == '--setup':
        os.makedirs(BUILD, exist_ok=True)
        print(build_extract())
        for feats, tc, mode in sorted({(f, t or '', m) for p in PROPS.values() for f, t, m in p['searches']}):
            exe, err = build_replay(feats, tc or None, mode)
            if exe is None:
                raise Broken(err)
            print(exe)
        return 0
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = PROPS[prop]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    secs = P.get('secs', {'quick': 8, 'thorough': 240})[tier]
    units, searches = [], []
    problems = []
    for feats, tc, mode in P['searches']:
        searches.append(Search(feats, tc, mode, seed, secs, prop))

    def side_v():
        try:
            exe = build_extract()
            log('extractor built')
            us = [Unit(u, exe, tier, seed) for u in P['units']]
            units.extend(us)
            ts = [threading.Thread(target=u.go) for u in us]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            log('verifier done:', ['%s: %d verified, %d errors%s' % (u.name, u.verified, u.errors, ' (%s)' % u.error if u.error else '') for u in us])
        except Exception as e:  # noqa
            import traceback
            problems.append(''.join(traceback.format_exc())[-2000:])

    def side_r():
        ts = [threading.Thread(target=s.build) for s in searches]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        log('replayers built', [s.note[-1500:] for s in searches if s.note])
        n = max(1, len(searches))
        ts = [threading.Thread(target=s.go, kwargs={'threads': max(2, 8 // n)}) for s in searches]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        log('search done', {k: v['what'] for s in searches for k, v in s.findings.items()})

    tv, tr = threading.Thread(target=side_v), threading.Thread(target=side_r)
    tv.start(), tr.start(), tv.join(), tr.join()
    if problems:
        raise Broken(problems[0])
    if tier == 'thorough':
        meta = [getattr(u, 'meta', None) for u in units]
        ts = [threading.Thread(target=lambda u=u: setattr(u, 'smoked', smoke(u, max(60, left() - 30)))) for u in units if not u.error]
        [t.start() for t in ts]
        [t.join() for t in ts]
        for u, m in zip(units, meta):
            u.meta = m
        log('contradiction test:', {u.name: {k: v for k, v in getattr(u, 'smoked', {}).items()} for u in units})
    if all(s.exe is None for s in searches) and searches and all(u.error or u.demote for u in units):
        # the crate itself does not build, or its interface changed altogether
        raise Broken('neither the verifier nor the replayer can be applied: ' + searches[0].note)

    strong = [(u, f) for u in units for f in u.fail if f['strong'] and prop in f['tags']]
    weak = [(u, f) for u in units for f in u.fail if not f['strong'] and prop in f['tags']]
    hit = next(((s, s.findings[prop]) for s in searches if prop in s.findings), None)
    soft = [(u, f) for u in units for f in u.soft if prop in f['tags']]
    # code that runs where the proof does not see it: only the search can tell
    watch = [n for u in units for n, f in u.fns.items() if any('the destructor of' in r for r in f.get('soft', []))]
    watch += [n for u in units for n in u.demote] + [n for u in units for n, f in u.fns.items() if f.get('demoted') or f.get('degraded')] + [u.name for u in units if u.error]
    if (strong or weak or soft or watch) and not hit and left() > 100:
        log('obligations failed, looking longer for a failing input')
        more = min(75, left() - 60)
        ts = [threading.Thread(target=s.go, kwargs={'secs': int(more), 'first': 10_000_000, 'stop': prop, 'threads': max(2, 8 // len(searches))}) for s in searches]
        [t.start() for t in ts]
        [t.join() for t in ts]
        hit = next(((s, s.findings[prop]) for s in searches if prop in s.findings), None)
    others = sorted({p for s in searches for p in s.findings})

    known = known_findings(prop)
    lines = []
    alarm = None
    if hit:
        alarm = ('input', hit)
    elif strong:
        alarm = ('strong', strong)
    elif weak and not others:
        alarm = ('weak', weak)
    for k in known:
        lines.append('KNOWN-FINDING: property=%s %s' % (prop, k))
    replay = None
    if alarm:
        replay = write_replay(prop, alarm, strong, weak, units, searches)
        tail = '' if alarm[0] == 'input' else ' no-failing-input-found'
        lines.append('VIOLATION property=%s replay=%s%s' % (prop, replay, tail))
    evidence(prop, tier, seed, P, units, searches, alarm, strong, weak, others)
    for l in lines:
        print(l)
    if not alarm:
        print('property %s: %s' % (prop, summary(units, searches)))
    return 1 if alarm else 0


def summary(units, searches):
    a = ', '.join('%s %d obligations verified%s' % (u.name, u.verified, ' (%s)' % u.error[:200] if u.error else
                  (' except in ' + ', '.join(u.demote) if u.demote else '')) for u in units)
    b = ', '.join('%d real histories in [%s] %s' % (s.stats.get('hists', 0), s.feats or 'default', s.mode) for s in searches)
    return a + '; ' + b


def known_findings(prop):
    f = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'known: property=(\S+) (.*)', l)
            if m and m.group(1) == prop:
                out.append(m.group(2).strip())
    return out


def write_replay(prop, alarm, strong, weak, units, searches):
    d = os.path.join(VERIF, 'out')
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, 'replay_%s.txt' % prop)
    with open(f, 'w') as w:
        if alarm[0] == 'input':
            s, r = alarm[1]
            w.write('property %s is broken by this input on the real code\n\nwhat: %s\n' % (prop, r['what']))
            if 'op' in r:
                w.write('at operation %s: %s\n' % (r.get('at'), r.get('op')))
            w.write('container: %s\nto run it again: %s\n\noperations:\n' % (r.get('conf', '(hist mod 3 of rc, arc, boxed)'), s.command(r)))
            for i, o in enumerate(r.get('ops', [])):
                w.write('%4d %s\n' % (i, o))
            w.write('\n')
        else:
            w.write('property %s: the verifier rejects an obligation generated from the current source; no failing input was found\n\n' % prop)
        for name, fs in (('failed obligations of this property', strong), ('failed obligations this property may rest on', weak)):
            w.write('%s: %d\n' % (name, len(fs)))
            for u, x in fs:
                w.write('\n- unit %s, function %s (%s): %s\n  %s %s\n  properties: %s\n' %
                        (u.name, x['fn'], x['where'], x['message'], x['kind'], x['text'], ', '.join(sorted(x['tags']))))
                w.write(x['rendered'] + '\n')
        for u in units:
            w.write('\nunit %s: %d verified, %d errors, text in %s\n' % (u.name, u.verified, u.errors, u.out))
    return f


def evidence(prop, tier, seed, P, units, searches, alarm, strong, weak, others):
    fns, clauses, trusted, degraded, dropped, inlined = [], 0, [], [], [], []
    supp = set()
    mine = {}
    for u in units:
        meta = getattr(u, 'meta', None)
        if not meta:
            continue
        for m in meta['map']:
            if m['kind'] in ('ensures', 'requires', 'invariant', 'decreases', 'ghost', 'code'):
                supp.add((u.name, m['fn']))
            if m['kind'] in ('ensures', 'invariant', 'requires') and prop in m['tags'].split(','):
                mine.setdefault('%s: %s' % (u.name, m['fn']), 0)
                mine['%s: %s' % (u.name, m['fn'])] += 1
                clauses += 1
        for n, f in sorted(meta['fns'].items()):
            if not f.get('has_body'):
                continue
            if f.get('trusted'):
                trusted.append('%s: %s' % (u.name, n))
            elif f.get('demoted') or n in u.demote:
                degraded.append('%s: %s (body not accepted by the verifier this time)' % (u.name, n))
            elif f.get('contract'):
                fns.append('%s: %s' % (u.name, n))
            for r in f.get('soft', []):
                if 'the destructor of' in r:
                    degraded.append('%s: %s: %s' % (u.name, n, r))
            if f.get('degraded'):
                degraded.append('%s: %s: %s' % (u.name, n, f['degraded']))
            for i in f.get('inlined', []):
                inlined.append('%s into %s' % (i, n))
        dropped += ['%s: %s: %s' % (d['file'], d['item'], d['why']) for d in meta['dropped']]
        degraded += ['%s: %s' % (u.name, x) for x in meta.get('lost', [])]
        for f in u.soft:
            degraded.append('%s: %s: not decided, %s: %s %s' % (u.name, f['fn'], '; '.join(u.soft_reason(f['fn'])), f['kind'], f['text'][:200]))
    obligations = sum(u.verified + u.errors for u in units)
    ok = sum(u.verified for u in units)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': P['level'],
        'coverage': {
            'obligations': obligations,
            'discharged': ok,
            'checker_cmd': 'python3 check.py %s  (per unit: verus --crate-type lib --edition 2021 build/*/unit_<unit>.rs)' % prop,
            'trusted_base': sorted(set(P.get('trusted', []) + ['contract assumed, body not verified: ' + t for t in trusted])),
            'back_end': 'Verus 0.2026.09.13, z3 (bundled)',
            'what_one_obligation_is': 'one function (or lemma, or loop-free proof item) of the extracted source whose complete verification condition - all postconditions, all invariants, all preconditions of its callees, all assertions, arithmetic and termination - is accepted',
            'functions_under_contract': fns,
            'clauses_stating_this_property': clauses,
            'functions_stating_this_property': sorted(mine),
            'functions_inlined_into_their_callers': inlined,
            'degraded': degraded,
            'units': {u.name: {'verified': u.verified, 'errors': u.errors, 'features': u.cfg['features'], 'attempts': u.rounds,
                               'times_ms': u.times, 'out_of_reach': u.error,
                               'slowest': [{'fn': a, 'ms': round(b / 1000, 1)} for a, b, c in sorted(u.fndetail, key=lambda x: -x[1])[:8]]} for u in units},
            'contradiction_test': {u.name: u.smoked for u in units if hasattr(u, 'smoked')},
            'solver_ms': sum(u.smt_ms for u in units),
            'not_extracted': dropped,
            'failed_obligations': [{'unit': u.name, 'fn': f['fn'], 'kind': f['kind'], 'clause': f['text'], 'message': f['message']} for u, f in strong + weak][:40],
            'undecided': [{'unit': u.name, 'fn': f['fn'], 'message': f['message']} for u in units for f in u.undecided],
            'bounded_search_on_the_real_code': {
                'label': 'bounded: random cases executed on the real code against an executable reading of the contracts; looks for failing inputs, never counted as proved',
                'runs': [dict({'features': s.feats or 'default', 'mode': s.mode, 'note': s.note[:400],
                               'properties_with_a_difference': sorted(s.findings)}, **s.stats) for s in searches],
            },
        },
        'assumptions': P.get('assumptions', []),
        'wall_s': round(time.time() - T0, 2),
        'violations': 1 if alarm else 0,
    }
    if P['level'] != 'proof':
        c = ev['coverage']
        c['explanation'] = P.get('explanation', '')
        c['evaluations'] = sum(int(s.stats.get('hists', 0)) for s in searches)
        c['distinct_nontrivial'] = sum(int(s.stats.get('nontrivial', 0)) for s in searches)
        c['rule'] = P.get('rule', '')
        c['samples'] = [x for s in searches for x in s.stats.get('samples', [])][:6]
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1, default=str)


if __name__ == '__main__':
    try:
        sys.exit(main())
    except Broken as e:
        print('ERROR: the check cannot be run: %s' % e, file=sys.stderr)
        sys.exit(2)
