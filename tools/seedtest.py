#!/usr/bin/env python3
"""Makes and confirms planted bugs (development tool; no check uses it).

seedtest.py make DEFS.py [id...]   writes seeded/<id>/ from definitions and confirms each in a scratch copy
seedtest.py check [id...]          runs the property's check against each planted bug, prints what catches it
"""
import json, os, queue, re, shutil, subprocess, sys, tempfile, threading
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(ROOT, 'seeded')
DEMO = '''#!/bin/bash
# exit 0: the property holds in this scenario
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
%s -std=c++20 %s -include concepts -include cstdint -w -I. "$here/demo.cc" %s -o "$t/demo" -pthread || exit 3
timeout 120 "$t/demo"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def replace(s, old, new):
    """Blank lines do not matter in what is looked for."""
    rx = r'\n(?:[ \t]*\n)*'.join(re.escape(l) for l in re.split(r'\n(?:[ \t]*\n)*', old))
    m = list(re.finditer(rx, s))
    if len(m) != 1:
        return None, len(m)
    return s[:m[0].start()] + new + s[m[0].end():], 1


def one(b, base, w):
    git = 'git -C %s ' % base
    sh(git + 'checkout -q -- . ')
    d = os.path.join(SEED, b['id'])
    for f, old, new in b['edits']:
        p = os.path.join(base, f)
        s, n = replace(open(p).read(), old, new)
        if s is None:
            return '%s EDIT: %d matches in %s' % (b['id'], n, f)
        open(p, 'w').write(s)
    # every line taken away must be one of the original repository
    df = sh(git + 'diff -U0').stdout
    mine = []
    cur = None
    for l in df.split('\n'):
        m = re.match(r'--- a/(.*)', l)
        if m:
            cur = m.group(1)
        m = re.match(r'@@ -(\d+)(?:,(\d+))? ', l)
        if m:
            n = int(m.group(2) or 1)
            for k in range(int(m.group(1)), int(m.group(1)) + n):
                bl = sh(git + 'blame -s -L %d,%d HEAD -- %s' % (k, k, cur)).stdout
                if not bl.startswith('^'):
                    mine.append(k)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'patch.diff'), 'w').write(sh(git + 'diff').stdout)
    open(os.path.join(d, 'demo.cc'), 'w').write(b['demo'].strip() + '\n')
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO % (b.get('cxx', 'g++'), b.get('flags', '-O1'), b.get('srcs', '')))
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    with open(os.path.join(d, 'meta.json'), 'w') as f:
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), f, indent=1)
    res = confirm_tests(base, w)
    demo1 = sh('bash %s/demo.sh' % d, cwd=base)
    sh(git + 'checkout -q -- .')
    demo0 = sh('bash %s/demo.sh' % d, cwd=base)
    ok = demo0.returncode == 0 and demo1.returncode not in (0, 2, 3) and res == 'ok' and not mine
    t = '%s %s demo unchanged %d, patched %d, tests %s%s' % (b['id'], 'OK' if ok else 'BAD', demo0.returncode,
                                                             demo1.returncode, res, ', LINES NOT ORIGINAL %s' % mine if mine else '')
    if not ok:
        shutil.rmtree(d)
        if demo0.returncode:
            t += '\n' + demo0.stdout[-1200:]
        if demo1.returncode in (2, 3):
            t += '\n' + demo1.stdout[-1200:]
    return t


def make(defs, only):
    ns = {}
    exec(open(defs).read(), ns)
    w = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    todo = queue.Queue()
    for b in ns['BUGS']:
        if not only or b['id'] in only:
            todo.put(b)

    def worker(k):
        wk = os.path.join(w, str(k))
        base = os.path.join(wk, 'repo')
        os.makedirs(wk)
        sh('cp -a /repo %s && rm -rf %s/_build %s/tests/build' % (base, base, base))
        while True:
            try:
                b = todo.get_nowait()
            except queue.Empty:
                return
            print(one(b, base, wk))
            sys.stdout.flush()

    ts = [threading.Thread(target=worker, args=(k,)) for k in range(4)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    shutil.rmtree(w)


def confirm_tests(base, w):
    """The repository's own build and tests, as /opt/vp does them but in the scratch copy."""
    out = os.path.join(w, 'out.json')
    common = open('/opt/vp/common.sh').read().replace('/repo', base)
    open(os.path.join(w, 'common.sh'), 'w').write(common)
    log = ''
    for n in ('build.sh', 'test.sh'):
        t = open('/opt/vp/' + n).read().replace('/opt/vp/common.sh', os.path.join(w, 'common.sh')).replace('/repo', base)
        open(os.path.join(w, n), 'w').write(t)
        r = sh('bash %s/%s %s' % (w, n, out), cwd=base)
        log += r.stdout
        if r.returncode:
            return n + ' failed ' + r.stdout[-800:]
    got = json.load(open(out))
    bl = json.load(open('/opt/vp/BASELINE.json'))
    miss = set(bl['stable']) - set(got['passed'])
    return 'ok' if not miss else 'FAIL %s' % sorted(miss)[:3]


RESULTS = os.path.join(ROOT, 'tools', 'seeded_results.json')


def record(i, prop, caught, keys):
    """What the last run of the check said, for DESIGN.md."""
    d = json.load(open(RESULTS)) if os.path.exists(RESULTS) else {}
    d[i] = dict(property=prop, caught=caught, by=sorted(set(keys))[:4])
    with open(RESULTS, 'w') as f:
        json.dump(d, f, indent=1, sort_keys=True)


def check(only):
    w = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    base = os.path.join(w, 'repo')
    sh('cp -a /repo %s' % base)
    for i in sorted(os.listdir(SEED)):
        if only and i not in only:
            continue
        d = os.path.join(SEED, i)
        m = json.load(open(os.path.join(d, 'meta.json')))
        sh('git -C %s checkout -q -- .' % base)
        r = sh('git -C %s apply %s/patch.diff' % (base, d))
        if r.returncode:
            print(i, 'patch does not apply'); continue
        r = sh('python3 check.py ' + m['property'], cwd=ROOT, env=dict(os.environ, VERIF_REPO=base))
        k = re.findall(r'^  (\w+:[\w-]+):', r.stdout, re.M)
        record(i, m['property'], r.returncode == 1 and 'VIOLATION' in r.stdout, k)
        print(i, m['property'], 'CAUGHT' if r.returncode == 1 and 'VIOLATION' in r.stdout else 'MISSED rc=%d %s' % (r.returncode, r.stdout[-300:]), ' '.join(k[:4]))
        sys.stdout.flush()
    shutil.rmtree(w)


if __name__ == '__main__':
    a = [x for x in sys.argv[1:] if not x.startswith('--')]
    if a[0] == 'make':
        make(a[1], a[2:])
    else:
        check(a[1:])
