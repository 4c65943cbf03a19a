#!/usr/bin/env python3
"""Writes /verif/seeded/<id> for the bugs in bugs*.py and confirms each of them.
plant.py [write] [confirm] [check] [ID...]   (check: run the property's check against it)"""
import sys, os, subprocess, json, shutil, glob, importlib.util, time
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(os.path.dirname(HERE))
REPO = '/repo'
G = 'rust-src/src/gridstore/'

def load():
    bugs = []
    for f in sorted(glob.glob(HERE + '/bugs*.py')):
        spec = importlib.util.spec_from_file_location('b', f)
        m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        bugs += m.BUGS
    return bugs

def sh(cmd, **k):
    return subprocess.run('timeout 600 bash -c ' + __import__('shlex').quote(cmd) if 'run.sh' not in cmd else cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def clean():
    sh(f'git -C {REPO} checkout -- .')

def write(b):
    d = f'{ROOT}/seeded/{b["id"]}'
    clean()
    for f, old, new in b['edits']:
        p = f'{REPO}/{f}' if '/' in f or f == 'index.js' else f'{REPO}/{G}{f}'
        s = open(p).read()
        assert s.count(old) == 1 or b.get('all'), f'{b["id"]}: {f}: {s.count(old)} times: {old!r}'
        open(p, 'w').write(s.replace(old, new))
    diff = sh(f'git -C {REPO} diff').stdout
    clean()
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + '/patch.diff', 'w').write(diff)
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    shutil.copy(HERE + '/demo.sh', d + '/demo.sh'); os.chmod(d + '/demo.sh', 0o755)
    js = b.get('js')
    shutil.copytree(HERE + ('/demojs' if js else '/demo'), d + '/demo')
    if js == 'node':
        open(d + '/check.js', 'w').write(b['demo'])
        open(d + '/demo.sh', 'w').write('#!/bin/bash\n# Run in the repository\'s directory: exit 0 if the property shown here holds, else nonzero.\nexec node "$(cd "$(dirname "$0")" && pwd)/check.js" "$(pwd)/index.js"\n')
        shutil.rmtree(d + '/demo')
        return
    open(d + '/demo/src/main.rs', 'w').write('mod util;\nuse util::*;\n' + b['demo'])
    lock = open(ROOT + '/mc/Cargo.lock').read().replace('name = "mc"', 'name = "demo"').replace(' "failure",\n "fixedbitset",\n "rocksdb",\n "vsched",\n]', ' "fixedbitset",\n "rocksdb",\n "vsched",\n]')
    if js:
        lock = open(ROOT + '/js/Cargo.lock').read().replace('name = "mcjs"', 'name = "demo"').replace(' "mc",\n', '')
        import re
        lock = re.sub(r'\[\[package\]\]\nname = "mc"\n.*?\n\n', '', lock, flags=re.S)
    open(d + '/demo/Cargo.lock', 'w').write(lock)
    os.makedirs(d + '/shims')
    for s in os.listdir(ROOT + '/shims'):
        shutil.copytree(f'{ROOT}/shims/{s}', f'{d}/shims/{s}', ignore=shutil.ignore_patterns('target', 'Cargo.lock'))

def apply(b):
    r = sh(f'git -C {REPO} apply {ROOT}/seeded/{b["id"]}/patch.diff')
    assert r.returncode == 0, r.stdout

def confirm(b):
    d = f'{ROOT}/seeded/{b["id"]}'
    r0 = sh(f'bash {d}/demo.sh', cwd=REPO)
    apply(b)
    try:
        bl = sh('bash /opt/vp/build.sh'); t = sh('bash /opt/vp/test.sh /tmp/plant-out.json')
        passed = 'test_write' in json.dumps(json.load(open('/tmp/plant-out.json')))
        st = sh('CARGO_TARGET_DIR=/tmp/st-target cargo test --offline --quiet', cwd=ROOT + '/selftest')
        r1 = sh(f'bash {d}/demo.sh', cwd=REPO)
    finally:
        clean()
    ok = r0.returncode == 0 and r1.returncode not in (0, 3) and bl.returncode == 0 and t.returncode == 0 and passed and st.returncode == 0
    print(f'{b["id"]}: {"CONFIRMED" if ok else "REJECTED"} unpatched={r0.returncode} patched={r1.returncode} build={bl.returncode} test={t.returncode} selftest={st.returncode}', flush=True)
    if not ok:
        for n, r in (('unpatched', r0), ('patched', r1), ('selftest', st)):
            print('--', n, [l for l in r.stdout.splitlines() if 'panicked' in l or l.startswith('error') or l.startswith('    gridstore::')][:4]); print(r.stdout[:600] if r is r0 or 'rror' in r.stdout[:300] else '')
    return ok

def check(b, tier=''):
    apply(b)
    t0 = time.time()
    try:
        r = sh(f'bash {ROOT}/run.sh {b["property"]} {tier}')
    finally:
        clean()
    line = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION property=' + b['property'])]
    print(f'{b["id"]}: {b["property"]} {"CAUGHT" if r.returncode == 1 and line else "MISSED"} rc={r.returncode} {time.time()-t0:.0f}s', flush=True)
    import re
    fam = re.search(r'replay=\S*/' + b['property'] + r'-(\S+?)-\d+\.txt', line[0]) if line else None
    cj = HERE + '/caught.json'
    got = json.load(open(cj)) if os.path.exists(cj) else {}
    got[b['id']] = [b['property'], (fam.group(1) if fam else 'yes') if r.returncode == 1 and line else 'MISSED']
    json.dump(dict(sorted(got.items())), open(cj, 'w'), indent=0)
    if r.returncode != 1: print(r.stdout[-1500:])
    elif b.get('show'): print(r.stdout[-800:])

def others(b):
    """which of the other checks catch it"""
    apply(b)
    got = []
    try:
        for i in range(1, 40):
            p = f'C{i:02}'
            if not any(json.loads(l)['id'] == p for l in open(ROOT + '/properties.jsonl')): continue
            r = sh(f'bash {ROOT}/run.sh {p}')
            if r.returncode == 1: got.append(p)
            elif r.returncode != 0: got.append(p + '?')
    finally:
        clean()
    print(f'{b["id"]}: {b["property"]}: caught by {" ".join(got)}', flush=True)

if __name__ == '__main__':
    modes = [a for a in sys.argv[1:] if a in ('write', 'confirm', 'check', 'others', 'table')]
    ids = [a for a in sys.argv[1:] if a not in modes]
    assert sh(f'git -C {REPO} status --porcelain').stdout.strip() == '', 'repo not clean'
    if 'table' in modes:
        # the table in DESIGN.md
        got = json.load(open(HERE + '/caught.json')); first = json.load(open(HERE + '/missed_at_first.json'))
        rows = ['| bug | property | what it breaks | caught by family |', '|---|---|---|---|']
        for b in sorted(load(), key=lambda b: (b['property'], b['id'])):
            p, f = got[b['id']]
            rows.append(f"| {b['id']} | {p} | {b['breaks']} | {f}{' (missed at first)' if b['id'] in first else ''} |")
        d = open(ROOT + '/DESIGN.md').read()
        a, z = '<!-- planted -->\n', '<!-- /planted -->'
        d = d[:d.index(a) + len(a)] + '\n'.join(rows) + '\n' + d[d.index(z):]
        open(ROOT + '/DESIGN.md', 'w').write(d)
    for b in load() if modes != ['table'] else []:
        if ids and b['id'] not in ids: continue
        if 'write' in modes: write(b)
        if 'confirm' in modes: confirm(b)
        if 'check' in modes: check(b)
        if 'others' in modes: others(b)
