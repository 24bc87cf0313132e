#!/usr/bin/env python3
"""plant.py SPEC.py ... : makes seeded changes.  A spec file holds
   bug(id, property, needs, breaks, [(file, old, new), ...], [sql, ...] [, demo=dir])
Each is applied in a scratch copy of /repo, built, tested, demonstrated, and kept in seeded/<id>."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = '/tmp/plant-repo'
bugs = []
def bug(id, prop, needs, breaks, edits, sqls, demo=None):
    bugs.append((id, prop, needs, breaks, edits, sqls, demo))
def sh(c, cwd=None, env=None):
    return subprocess.run(c, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
def fresh():
    if not os.path.exists(WT):
        sh(f'cp -a /repo {WT}')
    sh(f'git checkout -q --detach $(git -C /repo rev-parse HEAD) 2>/dev/null || (git fetch -q /repo HEAD && git checkout -q --detach FETCH_HEAD); git checkout -- .', cwd=WT)
ENV = open('/opt/vp/env.sh').read()
def tests():
    # the same as /opt/vp/test.sh in the copy
    s = ENV.replace('/repo', WT)
    r = sh(s + '\ncargo test --workspace --no-fail-fast --offline -- --test-threads 8 > /tmp/plant-n.log 2>&1; cargo test --workspace --no-fail-fast --offline $WASM --tests > /tmp/plant-w.raw 2>&1; sed -E "s/^(test .+ \\.\\.\\. )FAIL$/\\1FAILED/" /tmp/plant-w.raw > /tmp/plant-w.log; python3 /opt/vp/results.py /tmp/plant-out.json cargo:/tmp/plant-n.log cargo:/tmp/plant-w.log')
    b = json.load(open('/opt/vp/BASELINE.json')); o = json.load(open('/tmp/plant-out.json'))
    want = set(b.get('stable', b.get('passed', b if isinstance(b, list) else [])))
    return want - set(o['passed'])
for spec in sys.argv[1:]:
    exec(open(spec).read())
only = os.environ.get('ONLY')
for id, prop, needs, breaks, edits, sqls, demo in bugs:
    if only and id not in only.split(','): continue
    d = f'{V}/seeded/{id}'
    fresh()
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    if demo is None:
        for f in ('demo.sh', 'main.rs', 'demo.lock'): shutil.copy(f'{V}/tools/demo/{f}', d)
        os.makedirs(d + '/cases')
        for i, s in enumerate(sqls): open(f'{d}/cases/{i}.sql', 'w', newline='').write(s)
        r = sh(f'bash {d}/demo.sh', cwd=WT, env={**os.environ, 'DEMO_RECORD': d + '/cases'})
    else:
        for f in os.listdir(f'{V}/tools/{demo}'): shutil.copy(f'{V}/tools/{demo}/{f}', d)
        open(d + '/demo.js', 'w').write(sqls)
    bad = None
    r = sh(f'bash {d}/demo.sh', cwd=WT)
    if r.returncode != 0: bad = 'demo fails on the unchanged tree: ' + r.stdout[-2000:]
    for f, a, b in edits:
        p = f'{WT}/{f}'; s = open(p).read()
        if s.count(a) != 1: bad = f'{f}: {s.count(a)} times {a!r}'; break
        open(p, 'w').write(s.replace(a, b))
    if not bad:
        open(d + '/patch.diff', 'w').write(sh('git diff', cwd=WT).stdout)
        miss = tests()
        if miss: bad = f'tests fail: {miss}' + sh('grep -A8 ^error /tmp/plant-n.log | head -40').stdout
    if not bad:
        r = sh(f'bash {d}/demo.sh', cwd=WT)
        if r.returncode == 0: bad = 'demo passes with the change'
        else: print(f'{id}: {r.stdout[:300]}')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    if bad:
        print(f'{id}: DISCARDED: {bad}')
        shutil.rmtree(d)
    else: print(f'{id}: kept')
sh('git checkout -- .', cwd=WT)
