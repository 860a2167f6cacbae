#!/usr/bin/env python3
"""Writes /verif/seeded/* from the list below (patches are made against /repo's HEAD)."""
import os, subprocess, json, sys, shutil
V = '/verif'
D = V + '/tools/demo'
SEEDS = []


def seed(id, prop, edits, main, needs, breaks, feats='"mut_box"', tool='stable', pre='node.rs', release=False):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, main=main, needs=needs, breaks=breaks, feats=feats, tool=tool, pre=pre, release=release))


exec(open(V + '/tools/seeds_list.py').read())
only = sys.argv[1:]
w = '/tmp/mkseeds'
shutil.rmtree(w, ignore_errors=True)
subprocess.check_call(['git', 'clone', '-q', '/repo', w])
for s in SEEDS:
    if only and s['id'] not in only:
        continue
    for f, a, b in s['edits']:
        t = open(w + '/' + f).read()
        assert t.count(a) == 1, (s['id'], f, t.count(a), a)
        open(w + '/' + f, 'w').write(t.replace(a, b))
    d = V + '/seeded/' + s['id']
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', '-C', w, 'diff'], text=True))
    subprocess.check_call(['git', '-C', w, 'checkout', '-q', '--', '.'])
    open(d + '/demo.sh', 'w').write(open(D + '/demo.sh').read().replace('@FEATS@', s['feats']).replace('@TOOL@', s['tool']).replace('debug = 0\\n', 'debug = 0\\ndebug-assertions = false\\noverflow-checks = false\\n' if s['release'] else 'debug = 0\\n'))
    os.chmod(d + '/demo.sh', 0o755)
    pre = ''.join(open(D + '/' + x).read() for x in s['pre'].split())
    open(d + '/demo.rs', 'w').write(pre + '\n' + s['main'].strip() + '\n')
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    print(s['id'])
shutil.rmtree(w, ignore_errors=True)
