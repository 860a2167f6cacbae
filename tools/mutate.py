#!/usr/bin/env python3
"""mutate.py K N [--files a,b] [--list]: worker K of N. Makes small changes to the non-test sources of /repo in a scratch copy, one at a
time; those that build and pass the unit tests are run against the verification units and the replayers. Results go to /tmp/mut/K.jsonl"""
import sys, os, re, subprocess, threading, time, json, shutil
K, N = int(sys.argv[1]), int(sys.argv[2])
W = '/tmp/mut/w%d/repo' % K
os.environ['VERIF_REPO'] = W
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
from units import UNITS, PROPS
FILES = ['src/cache/internal.rs', 'src/cache.rs', 'src/blueprint.rs', 'src/utils.rs', 'src/canning.rs', 'src/lib.rs', 'src/rc.rs', 'src/arc.rs',
         'src/boxed.rs', 'src/diagnostics/mod.rs', 'src/diagnostics/textual.rs', 'src/diagnostics/visgraph.rs']


def mask(s):
    """the text with comments and strings blanked"""
    o, i = [], 0
    while i < len(s):
        if s.startswith('//', i):
            j = s.index('\n', i)
            o.append(' ' * (j - i)); i = j
        elif s.startswith('/*', i):
            j = s.index('*/', i) + 2
            o.append(re.sub(r'[^\n]', ' ', s[i:j])); i = j
        elif s[i] == '"' or re.match(r'r#*"', s[i:i + 5]) and not re.match(r'\w', s[i - 1]):
            m = re.match(r'r(#*)"', s[i:i + 5])
            if m:
                j = s.index('"' + m.group(1), i + len(m.group(0))) + 1 + len(m.group(1))
            else:
                j = i + 1
                while s[j] != '"':
                    j += 2 if s[j] == '\\' else 1
                j += 1
            o.append('"' + re.sub(r'[^\n]', '_', s[i + 1:j - 1]) + '"'); i = j
        elif re.match(r"'(\\.|[^\\'])'", s[i:i + 4]):
            m = re.match(r"'(\\.|[^\\'])'", s[i:i + 4])
            o.append('_' * len(m.group(0))); i += len(m.group(0))
        else:
            o.append(s[i]); i += 1
    return ''.join(o)


def close(m, i):
    d = 0
    while True:
        if m[i] in '([{':
            d += 1
        elif m[i] in ')]}':
            d -= 1
            if d == 0:
                return i
        i += 1


def header(m, i):
    """the `{` that opens the block of the keyword at i"""
    while m[i] != '{':
        if m[i] in '([':
            i = close(m, i)
        i += 1
    return i


def stmts(m, a, b):
    """(start, end, kind) of the statements between a and b (a code block's inside)"""
    i = a
    out = []
    while True:
        while i < b and m[i].isspace():
            i += 1
        if i >= b:
            return out
        st = i
        while m[i] == '#':
            i = close(m, m.index('[', i)) + 1
            while m[i].isspace():
                i += 1
        kw = re.match(r'(if|for|while|loop|match|unsafe)\b|\{', m[i:])
        if kw:
            while True:
                j = close(m, header(m, i)) + 1
                e = re.match(r'\s*else\s*(if\b)?', m[j:])
                if not e:
                    break
                i = j + (e.start(1) if e.group(1) else e.end())
            n = re.match(r'\s*([.?;])', m[j:])
            if not n:
                out.append((st, j, 'block'))
                i = j
                continue
            i = j
        while i < b and m[i] != ';':
            if m[i] in '([{':
                i = close(m, i)
            i += 1
        if i >= b:
            out.append((st, b, 'tail'))
            return out
        i += 1
        k = 'let' if m.startswith('let ', st) else 'use' if m.startswith('use ', st) else 'stmt'
        out.append((st, i, k))


def blocks(m, a, b):
    """insides of the code blocks within a fn body"""
    yield a, b
    i = a
    match = set()
    block = set()
    for x in re.finditer(r'\b(if|for|while|loop|match|else|unsafe)\b', m[a:b]):
        h = header(m, a + x.start())
        (match if x.group(1) == 'match' else block).add(h)
    while i < b:
        if m[i] == '{':
            p = m[:i].rstrip()
            if i in block or p.endswith('=>') or p.endswith('|'):
                yield i + 1, close(m, i)
        i += 1


TOK = [(r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'), (r'\.is_some\(', '.is_none('), (r'\.is_none\(', '.is_some('),
       (r'\.is_ok\(', '.is_err('), (r'\.is_err\(', '.is_ok('), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\+= 1', '+= 2'), (r'\+= 1', '-= 1'),
       (r'\+= 1', '+= 0'), (r'= 0;', '= 1;'), (r'!(?=[a-z(])', ''), (r'\bself\.artifacts\b', 'self.dyn_states'), (r'\bself\.dependents\b', 'self.leaf_builders'),
       (r'\.remove\(', '.get('), (r'\.insert\(', '.replace('), (r'\bcontinue\b', 'break'), (r'\bbreak\b', 'continue'), (r'\?;', ';'),
       (r'\bSome\(\w+\)', 'None'), (r'\.any\(', '.all('), (r'\.all\(', '.any('), (r'\.count\.0', '.count.1'), (r'\.count\.1', '.count.0'), (r'count\.0', 'count.1'), (r'count\.1', 'count.0'),
       (r'\bbuilder\b(?!:)', 'used'), (r'\bused\b(?!:)', 'builder'), (r'\buser\b(?!:)', 'promise'), (r'\bpromise\b(?!:)', 'user'), (r'\bshow_builder_values\b(?!:)', 'show_artifact_values'), (r'\bshow_artifact_values\b(?!:)', 'show_builder_values'),
       (r'\bdbg_text\b(?!:)', 'type_name'), (r'\btype_name\b(?!:)', 'dbg_text'), (r'\.upgrade\(\)', '.upgrade().filter(|_| false)'), (r'\.pop\(\)', '.first().cloned()'),
       (r'\bErr\(_\) => ', 'Err(_) if false => '), (r'\bdoctor\.(\w+)\(', None), (r'\.clone\(\)', ''),
       (r'\bArtifact\b', 'Builder'), (r' > ', ' >= '), (r' < ', ' <= '), (r'\.get\(', '.remove('), (r'\.entry\(', '.get('), (r'\.contains_key\(', '.is_empty() && !self.contains_key('),
       (r'\bNone => ', 'None if false => '), (r'or_insert_with', 'or_default'), (r'\.or_else\(', '.and_then(|_| None).or_else('),(r'\.last\b', '.first'), (r'\.chain\(', '.zip('),
       (r'\.extend\(', '.retain(|_| false);//('), (r'\.take\(\)', '.clone()'), (r'\.drain\(\)', '.iter().cloned()'), (r'\.drain\(\.\.\)', '.iter().cloned()'), (r'\.clear\(\)', '.len()'), (r'\.copied\(\)', '.copied().take(1)'), (r'\.copied\(\)', '.copied().skip(1)'), (r'\.iter\(\)', '.iter().take(1)'), (r'\.iter\(\)', '.iter().skip(1)'), (r'\.keys\(\)', '.keys().skip(1)'), (r'\.values\(\)', '.values().skip(1)'),
       (r'\bOk\(', 'Err('), (r'\.ok\(\)', '.ok().filter(|_| false)'), (r'\.cloned\(\)', '.cloned().filter(|_| false)')]


def mutants(f, s):
    m = mask(s)
    seen = set()
    cut = re.search(r'#\[cfg\(test\)\]\s*(pub )?mod ', m)
    cut = cut.start() if cut else len(m)

    def emit(a, b, t, why):
        k = (a, b, t)
        if k not in seen and s[a:b] != t:
            seen.add(k)
            return [(f, a, b, t, '%s:%d %s' % (f, s.count('\n', 0, a) + 1, why))]
        return []
    for x in re.finditer(r'\bfn (\w+)', m):
        if x.start() > cut:
            break
        i = x.end()
        while m[i] not in '{;':
            if m[i] in '([':
                i = close(m, i)
            i += 1
        if m[i] == ';' or m.startswith('Debug for', m.rfind('impl', 0, i) + 0) or x.group(1) in ('fmt',):
            continue
        a, b = i + 1, close(m, i)
        name = x.group(1)
        ret = m[x.end():i]
        ret = ret[ret.rindex('->') + 2:].split(' where')[0].strip() if '->' in ret and ')' not in ret[ret.rindex('->'):].split('where')[0].replace('()', '') else ''
        unit = ret == ''
        vals = ['()'] if unit else ['None'] if ret.startswith('Option') else ['false', 'true'] if ret == 'bool' else ['Ok(Default::default())'] if ret.startswith('Result') else ['Default::default()']
        for p, q in blocks(m, a, b):
            ss = stmts(m, p, q)
            for n, (u, v, k) in enumerate(ss):
                if k in ('stmt', 'block'):
                    yield from emit(u, v, '', '%s: delete %r' % (name, s[u:v][:60]))
                if n + 1 < len(ss) and k != 'use' and ss[n + 1][2] in ('stmt', 'block', 'let'):
                    u2, v2, _ = ss[n + 1]
                    yield from emit(u, v2, s[u2:v2] + s[v:u2] + s[u:v], '%s: swap %r' % (name, s[u:v2][:90]))
                if k == 'stmt' and n > 0:
                    yield from emit(p, p, s[u:v], '%s: repeat first %r' % (name, s[u:v][:60]))
                if k in ('stmt', 'block', 'let') and n + 1 < len(ss):
                    for r in ['return ' + v0 + ';' for v0 in vals]:
                        yield from emit(v, v, ' if true { ' + r + ' }', '%s: %s after %r' % (name, r, s[u:v][:40]))
        for c in re.finditer(r'\b(if|while) (?!let\b)', m[a:b]):
            h = header(m, a + c.end())
            yield from emit(a + c.end(), h, '!(' + s[a + c.end():h].strip() + ') ', name + ': negate ' + s[a + c.end():h])
            yield from emit(a + c.end(), h, 'true ', name + ': true for ' + s[a + c.end():h])
            yield from emit(a + c.end(), h, 'false ', name + ': false for ' + s[a + c.end():h])
        for pat, rep in TOK:
            if rep is None:
                continue
            for c in re.finditer(pat, m[a:b]):
                yield from emit(a + c.start(), a + c.end(), rep, '%s: %s -> %s' % (name, c.group(0), rep))
        for r in vals:
            if s[a:b].strip():
                yield from emit(a, b, ' ' + r + ' ', '%s: whole body -> %r' % (name, r))


def sh(cmd, t=120):
    try:
        return subprocess.run(cmd, cwd=W, env=dict(os.environ, CARGO_TARGET_DIR=W + '/../target', RUSTFLAGS='-Awarnings', CARGO_BUILD_JOBS='3'), capture_output=True, text=True, timeout=t).returncode
    except subprocess.TimeoutExpired:
        return 99


def main():
    files = FILES
    if '--files' in sys.argv:
        files = sys.argv[sys.argv.index('--files') + 1].split(',')
    allm = []
    for f in files:
        allm += list(mutants(f, open('/repo/' + f).read()))
    import random
    random.Random(7).shuffle(allm)
    if '--list' in sys.argv:
        from collections import Counter
        print(len(allm), Counter(x[0] for x in allm))
        return
    if not os.path.isdir(W):
        os.makedirs(os.path.dirname(W), exist_ok=True)
        subprocess.run(['git', 'clone', '-q', '/repo', W], check=True)
    shutil.copy('/repo/Cargo.lock', W)
    exe = check.build_extract()
    os.makedirs(check.BUILD, exist_ok=True)
    done = set()
    log = '/tmp/mut/%d.jsonl' % K
    if os.path.exists(log):
        done = {json.loads(l)['n'] for l in open(log)}
    for n, (f, a, b, t, why) in enumerate(allm):
        if n % N != K or n in done:
            continue
        subprocess.run(['git', '-C', W, 'checkout', '-q', '--', '.'], check=True)
        s = open('/repo/' + f).read()
        open(W + '/' + f, 'w').write(s[:a] + t + s[b:])
        r = {'n': n, 'why': why, 'text': t[:200]}
        diag = ['--features', 'diagnostics'] if 'diag' in f else ['--features', 'diagnostics,tynm']
        if sh(['cargo', 'check', '--offline', '--quiet'] + diag):
            r['st'] = 'nobuild'
        elif sh(['cargo', 'test', '--offline', '--quiet', '--lib'] + diag):
            r['st'] = 'tests'
        elif sh(['cargo', '+nightly', 'check', '--offline', '--quiet', '--all-features']):
            r['st'] = 'nobuild'
        else:
            us = [check.Unit(u, exe, 'quick', 1) for u in UNITS if f in UNITS[u]['files'] + ['src/lib.rs']]
            check.T0 = time.time()
            ss = sorted({x for p in PROPS.values() for x in p['searches'] if set(p['units']) & {u.name for u in us}}, key=str)
            if sh(['cargo', '+nightly', 'test', '--offline', '--quiet', '--lib', '--all-features'], 240):
                r['st'] = 'tests'
                print(json.dumps(r), file=open(log, 'a'))
                continue
            ts = [threading.Thread(target=u.go) for u in us]
            [x.start() for x in ts]
            [x.join() for x in ts]
            r['strong'] = sorted({'%s %s: %s' % (q['fn'], q['kind'], q['text'][:120]) for u in us for q in u.fail if q['strong']})
            r['weak'] = sorted({'%s %s: %s' % (q['fn'], q['kind'], q['text'][:120]) for u in us for q in u.fail if not q['strong']})
            r['soft'] = sorted({'%s' % q['fn'] for u in us for q in u.soft})
            r['degr'] = sorted({k for u in us for k in list(u.demote) + [k for k, x in getattr(u, 'meta', {'fns': {}})['fns'].items() if x.get('degraded')]})
            r['err'] = [u.error[:200] for u in us if u.error]
            r['found'] = {}
            for fe, tc, mo in ss:
                if r['strong'] or r['found'] or ('rel' in fe and mo != 'search'):
                    continue
                q = check.Search(fe, tc, mo, 1, 6, 'C01')
                q.build()
                q.go(threads=3)
                if q.note:
                    r['found']['note'] = q.note[:300]
                for k, v in q.findings.items():
                    r['found'].setdefault(k, v['what'][:150])
            r['st'] = 'CAUGHT' if r['found'] else 'proof' if r['strong'] or r['weak'] else 'SURVIVES'
        print(json.dumps(r), file=open(log, 'a'))


main()
