#!/usr/bin/env python3
"""Mutation testing of the checks: makes small changes to the non-test code, one at a time, in a
copy of /repo, and runs the checks of the file until one reports it. Survivors are what to look at.

mutate.py list [FILE...]             the mutants
mutate.py worker K N OUT [FILE...]   every mutant whose number is K mod N (run by `run`)
mutate.py run N OUT [FILE...]        N workers, each in a mount namespace of its own with copies of
                                     /repo and /verif (under /tmp/mut.K) mounted over the real ones
"""
import sys, os, re, subprocess, json, time, shutil

REPO = '/repo'
G = 'rust-src/src/gridstore/'
# lines (from 1, inclusive) of test code, found by looking for #[cfg(test)]
CHECKS = {  # the quick ones first; `slow` adds the others
    'builder.rs': 'C03 C07 C08 C12 C05 C02 C01 C06'.split(),
    'store.rs': 'C08 C03 C13 C12 C10 C11 C05 C09 C07 C01'.split(),
    'common.rs': 'C08 C23 C12 C13 C10 C18 C21 C15 C11 C20 C09 C16'.split(),
    'coalesce.rs': 'C15 C21 C20 C12 C16 C17'.split(),
    'gridstore_format.rs': 'C04 C01'.split(),
    'spatial.rs': 'C13 C10 C12 C09 C11 C15'.split(),
    'stackable.rs': 'C18 C19 C20'.split(),
    'gridstore.rs': 'C25 C26'.split(),
    'fuzzy_phrase.rs': 'C27'.split(),
    'index.js': 'C25'.split(),
}
SLOW = {
    'builder.rs': 'C04 C14 C22 C25'.split(),
    'store.rs': 'C14 C02 C15 C16 C17 C25 C26 C22'.split(),
    'common.rs': 'C24 C01 C17 C26 C25 C05'.split(),
    'coalesce.rs': 'C26 C22'.split(),
    'gridstore_format.rs': 'C02 C08 C07 C25'.split(),
    'spatial.rs': 'C16 C17 C05 C26'.split(),
    'stackable.rs': 'C17 C22 C26'.split(),
}
if os.environ.get('MUTATE_SLOW'):
    for k, v in SLOW.items(): CHECKS[k] = CHECKS[k] + v
FILES = [G + f for f in 'builder.rs store.rs common.rs coalesce.rs gridstore_format.rs spatial.rs stackable.rs'.split()] + \
    ['native/src/gridstore.rs', 'native/src/fuzzy_phrase.rs', 'index.js']

def code_lines(text, path):
    """numbers of the lines that are not test code, comments or blank"""
    lines = text.split('\n')
    out, skip_until, depth = [], None, 0
    i = 0
    while i < len(lines):
        l = lines[i]
        if re.match(r'\s*#\[(cfg\((test|carmen_verif)\)|test)\]', l):
            # skip the item: up to the matching brace, or the ; that ends it
            j, d, seen = i + 1, 0, False
            while j < len(lines):
                s = re.sub(r"'[{}]'|\"[^\"]*\"", '', lines[j])
                d += s.count('{') - s.count('}')
                seen = seen or '{' in s
                if (seen and d <= 0) or (not seen and s.rstrip().endswith(';')):
                    break
                j += 1
            i = j + 1
            continue
        s = l.strip()
        if s and not s.startswith('//') and not s.startswith('#[') and not s.startswith('use ') and not s.startswith('*') and not s.startswith('/*'):
            out.append(i)
        i += 1
    return out

OPS = [
    (r' < ', [' <= ', ' > ']), (r' <= ', [' < ']), (r' > ', [' >= ', ' < ']), (r' >= ', [' > ']),
    (r' == ', [' != ']), (r' != ', [' == ']),
    (r' \+ ', [' - ']), (r' - ', [' + ']), (r' \* ', [' / ']), (r' / ', [' * ']),
    (r' \+= ', [' -= ', ' = ']), (r' -= ', [' += ']),
    (r' && ', [' || ']), (r' \|\| ', [' && ']),
    (r' & ', [' | ']), (r' \| ', [' & ']), (r' << ', [' >> ']), (r' >> ', [' << ']), (r' \|= ', [' &= ', ' = ']), (r' &= ', [' |= ']),
    (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
    (r'\bmin\(', ['max(']), (r'\bmax\(', ['min(']),
    (r'(?<![\w.])!(?=[a-zA-Z(])', ['']),
    (r'\.rev\(\)', ['']), (r'\.abs\(\)', ['']), (r'\.\.=', ['..']), (r'(?<=[\w)])\.\.(?=[\w(])', ['..=']),
    (r'\bcontinue;', ['break;', '']), (r'\bbreak;', ['continue;', '']),
    (r'\.any\(', ['.all(']), (r'\.all\(', ['.any(']),
    (r'\.is_some\(\)', ['.is_none()']), (r'\.is_none\(\)', ['.is_some()']),
    (r'\.is_empty\(\)', ['.is_empty() == false']),
    (r'\.floor\(\)', ['.ceil()', '.round()']), (r'\.ceil\(\)', ['.floor()']), (r'\.round\(\)', ['.floor()']),
    (r'saturating_sub', ['wrapping_sub']),
    (r'Ordering::Less', ['Ordering::Greater']), (r'Ordering::Greater', ['Ordering::Less']),
    (r'\bu16::(max_value\(\)|MAX)', ['(u16::MAX - 1)']), (r'\bu32::(max_value\(\)|MAX)', ['(u32::MAX - 1)']), (r'\bu128::(max_value\(\)|MAX)', ['(u128::MAX - 1)']),
    (r'\.push_max\(', ['.push(']),
    (r'\.sort_unstable_by|\.sort_by', None), (r'\.sort\(\);', [';']), (r'\.dedup\(\);', [';']),
    (r'\.unwrap_or\(', None),
    (r'\.skip_while\(', ['.filter(']), (r'\.take_while\(', ['.filter(']),
]
NUM = re.compile(r'(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|\d[\d_]*(?:\.\d*)?)(?![\w]|\.\d)')

def mutants(path):
    text = open(f'{REPO}/{path}').read()
    lines = text.split('\n')
    out = []
    for i in code_lines(text, path):
        l = lines[i]
        code = l.split(' // ')[0]
        spans = [m.span() for m in re.finditer(r'"[^"]*"', code)]
        inside = lambda a: any(s <= a < e for s, e in spans)
        seen = set()
        def add(new, what):
            if new != l and new not in seen:
                seen.add(new)
                out.append((path, i, new, what))
        for pat, reps in OPS:
            if reps is None: continue
            for m in re.finditer(pat, code):
                if inside(m.start()): continue
                for r in reps:
                    add(l[:m.start()] + r + l[m.end():], f'{m.group(0).strip()} -> {r.strip()}')
        for m in NUM.finditer(code):
            if inside(m.start()): continue
            s = m.group(1)
            v = s.replace('_', '')
            if v.startswith('0x') or v.startswith('0b'):
                n = int(v, 0); reps = [hex(n >> 1), hex(n + 1)]
            elif '.' in v:
                f = float(v); reps = [f'{f + 0.5}', f'{f * 2 + 1.0}']
            else:
                n = int(v); reps = [str(n + 1)] + ([str(n - 1)] if n > 0 else [])
            if re.search(r'[\w>)]\.$', code[:m.start()]): continue  # tuple field
            for r in reps:
                add(l[:m.start()] + r + l[m.end():], f'{s} -> {r}')
        m = re.match(r'(\s*)(\} else )?(if|while) (?!let )(.*) \{$', code)
        if m:
            add(f'{m[1]}{m[2] or ""}{m[3]} {{ let _c = {m[4]}; false }} {{', 'condition false')
            if m[3] == 'if': add(f'{m[1]}{m[2] or ""}{m[3]} {{ let _c = {m[4]}; true }} {{', 'condition true')
        s = code.strip()
        if s.endswith(';') and not re.match(r'(let|use|return|pub|const|type|mod|extern|static|var)\b', s) and s.count('(') == s.count(')') and s.count('{') == s.count('}') and not s.startswith('}') and not s.startswith('.') and not s.startswith(')'):
            add('', 'deleted')
    return out

def sh(cmd, timeout=900):
    return subprocess.run(['timeout', '-k', '5', str(timeout), 'bash', '-c', cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')

def worker(k, n, out, files):
    os.environ.update(CARGO_PROFILE_RELEASE_INCREMENTAL='true', CARGO_PROFILE_RELEASE_DEBUG='0', CARGO_PROFILE_RELEASE_CODEGEN_UNITS='32')
    allm = [m for f in files for m in mutants(f) if 'with_capacity' not in m[2] and not m[2].startswith('type ')]
    __import__('random').Random(7).shuffle(allm)
    done = set()
    if os.path.exists(out):
        for line in open(out):
            d = json.loads(line); done.add((d['file'], d['line'], d['new']))
    for idx, (path, i, new, what) in enumerate(allm):
        if idx % n != k or (path, i + 1, new) in done: continue
        p = f'{REPO}/{path}'
        orig = open(p).read()
        lines = orig.split('\n')
        old = lines[i]
        lines[i] = new
        open(p, 'w').write('\n'.join(lines))
        t0 = time.time()
        res, log = 'survived', ''
        try:
            js = path.startswith('native') or path == 'index.js'
            if path != 'index.js':
                b = sh(f'cd /verif/{"js" if js else "mc"} && RUSTFLAGS=-Awarnings CARGO_TARGET_DIR=/verif/mc/target/{"js" if js else "std"} cargo build --release --offline --locked --quiet --bin {"mcjs" if js else "mc"}', 300)
            else:
                b = None
            if b is not None and b.returncode != 0:
                res = 'build'
            else:
                if path.endswith('gridstore_format.rs'):
                    t = sh('bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/t.json && grep -c . /tmp/t.json', 200)
                    if b and '"failed": []' not in open('/tmp/t.json').read() if os.path.exists('/tmp/t.json') else False:
                        res = 'test'
                if res == 'survived':
                    for c in CHECKS[os.path.basename(path)]:
                        r = sh(f'bash /verif/run.sh {c}', 200)
                        if r.returncode == 1:
                            res = 'caught ' + c; break
                        if r.returncode == 124 or r.returncode == 137:
                            res = 'timeout ' + c; break
                        if r.returncode != 0:
                            res = f'broken {c} rc={r.returncode}'; log = r.stdout[-600:]; break
        finally:
            open(p, 'w').write(orig)
        with open(out, 'a') as f:
            f.write(json.dumps({'file': path, 'line': i + 1, 'old': old, 'new': new, 'what': what, 'result': res, 'log': log, 's': round(time.time() - t0, 1)}) + '\n')

def main():
    a = sys.argv[1:]
    pick = lambda names: [f for f in FILES if not names or any(f.endswith(x) for x in names)]
    if a[0] == 'list':
        tot = 0
        for f in pick(a[1:]):
            ms = mutants(f); tot += len(ms); print(f, len(ms))
            if len(a) > 1:
                for m in ms: print('  ', m[1] + 1, m[3], '|', m[2].strip())
        print(tot)
    elif a[0] == 'worker':
        worker(int(a[1]), int(a[2]), a[3], pick(a[4:]))
    elif a[0] == 'run':
        n, out = int(a[1]), a[2]
        ps = []
        for k in range(n):
            d = f'/tmp/mut.{k}'
            if not os.path.exists(d):
                os.makedirs(d)
                sh(f'rm -rf {d}/verif; cp -a /repo {d}/repo; rsync -a --exclude replays /verif {d}/ 2>/dev/null || cp -a /verif {d}/verif')
            else:
                sh(f'git -C {d}/repo checkout -q -- .')
                sh(f'for x in mc/src js/src js/index_check.js js/addon shims run.sh known-findings.txt tools; do rm -rf {d}/verif/$x; cp -a /verif/$x {d}/verif/$x; done')
            w = int(os.environ.get('MUTATE_CPUS', 8)) // n; lo = k * w
            cmd = f'mount --bind {d}/repo /repo && mount --bind {d}/verif /verif && mkdir -p {d}/tmp && exec taskset -c {lo}-{lo + w - 1} python3 /verif/tools/mutate/mutate.py worker {k} {n} {out}.{k} {" ".join(a[3:])}'
            ps.append(subprocess.Popen(['unshare', '-m', 'bash', '-c', cmd]))
        for p in ps: p.wait()

main()
