#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough] [--replay FILE]

Builds the harness of one property against /repo's working tree, runs its
suites under the configured instrumentation, collects what the monitors saw,
writes evidence/<ID>.json and reports violations.
Exit: 0 held, 1 violated (VIOLATION line), 2 the check itself could not run.
"""
import argparse, concurrent.futures as cf, json, os, re, shutil, struct, subprocess, sys, tempfile, threading, time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
from table import CHECKS  # noqa: E402

REPO = os.environ.get('VERIF_REPO', '/repo')
JOBS = int(os.environ.get('VERIF_JOBS', '8'))
WALL = 840  # a check is given 900 s in the quick tier

BASE = ['-std=c++20', '-DTESTPROJECT', '-include', 'concepts', '-include', 'cstdint',
        '-Wno-everything', '-pthread']
SAN = ['clang++', '-O1', '-g', '-fsanitize=address,undefined,float-cast-overflow',
       '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-ftrivial-auto-var-init=pattern', '-D_GLIBCXX_ASSERTIONS']
CONFIGS = {
    # name: (compiler+flags, environment)
    'san': SAN,
    'opt': ['g++', '-O2', '-funsigned-char'],  # char is unsigned on the targets
    'tsan': ['clang++', '-O1', '-g', '-fsanitize=thread', '-fno-omit-frame-pointer'],
    # every basic block executed is reported to the monitor (C40)
    'steps': ['clang++', '-O0', '-g', '-fsanitize-coverage=trace-pc-guard,no-prune', '-fno-vectorize', '-fno-unroll-loops',
              '-fno-builtin'],
}
ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:detect_stack_use_after_return=1:strict_string_checks=1:'
                    'handle_sigfpe=1:handle_abort=1:handle_segv=1:hard_rss_limit_mb=6000:'
                    'max_allocation_size_mb=3000:allocator_may_return_null=0:symbolize=1:color=never',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:color=never',
    'TSAN_OPTIONS': 'halt_on_error=1:second_deadlock_stack=1:history_size=4:color=never',
}


def die(msg):
    print('CHECK-ERROR: ' + msg)
    sys.stdout.flush()
    sys.exit(2)


def build(pid, spec, cfg, bdir):
    exe = os.path.join(bdir, cfg)
    flags = list(CONFIGS[cfg]) + BASE + spec.get('flags', [])
    if flags[0] == 'g++':
        flags = [f for f in flags if f != '-Wno-everything' and not f.startswith('-fconstexpr-steps')] + ['-w']
    else:
        flags = [f for f in flags if not f.startswith(('-fconstexpr-ops', '-fconstexpr-loop'))]
    if cfg == 'san':
        flags += spec.get('san_flags', [])
    flags += ['-DVF_CFG_' + cfg.upper(), '-I', REPO, '-I', os.path.join(ROOT, 'harness')]
    srcs = [os.path.join(ROOT, 'harness', s) for s in spec.get('src', [pid + '.cc'])]
    srcs += [os.path.join(REPO, s) for s in spec.get('repo_src', [])]
    procs, objs = [], []
    for i, s in enumerate(srcs):
        o = '%s.%d.o' % (exe, i)
        objs.append(o)
        procs.append(subprocess.Popen(flags + ['-c', s, '-o', o], stdout=subprocess.PIPE,
                                      stderr=subprocess.STDOUT, text=True))
    out = ''
    bad = False
    for p in procs:
        o, _ = p.communicate()
        out += o
        bad |= p.returncode != 0
    if not bad:
        r = subprocess.run(flags[:1] + [f for f in flags if f.startswith('-fsanitize') or f == '-pthread'] +
                           objs + ['-o', exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        out += r.stdout
        bad = r.returncode != 0
    if bad:
        return None, out
    return exe, out


def probe(spec, bdir, p):
    """Compiles one use of the library.  A use that does not compile, while its headers do, is a violation."""
    key, headers, use = p
    outs = []
    for body in (use, ''):
        src = os.path.join(bdir, 'probe-%s-%d.cc' % (key, bool(body)))
        with open(src, 'w') as f:
            f.write(''.join('#include %s\n' % h for h in headers) + 'void probe_%s() {\n%s\n}\n' % (key.replace('-', '_'), body))
        base = BASE if headers else [x for x in BASE if x not in ('-include', 'concepts', 'cstdint')]
        r = subprocess.run(['clang++'] + base + ['-fsyntax-only', '-I', REPO, src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True)
        outs.append((r.returncode, r.stdout))
        if r.returncode == 0:
            break
    return outs[0] if len(outs) == 1 or outs[1][0] == 0 else (-1, outs[1][1])


def refused_sections(pid, spec, tier, seed, cfg, out):
    """Which sections of a harness of compile-time computations the compiler refuses, if the rest is fine."""
    cc = CONFIGS[cfg][0]
    secs = spec['sections']
    flags = [cc] + BASE + spec.get('flags', []) + (['-w'] if cc == 'g++' else [])
    flags += ['-fsyntax-only', '-I', REPO, '-I', os.path.join(ROOT, 'harness'), os.path.join(ROOT, 'harness', pid + '.cc')]
    if cc == 'g++':
        flags = [f for f in flags if f != '-Wno-everything' and not f.startswith('-fconstexpr-steps')]
    else:
        flags = [f for f in flags if not f.startswith(('-fconstexpr-ops', '-fconstexpr-loop'))]

    def one(keep):
        return subprocess.run(flags + ['-DVF_NO_' + x for x in secs if x != keep], stdout=subprocess.PIPE,
                              stderr=subprocess.STDOUT, text=True)
    if one(None).returncode:
        return {}
    viols = {}
    for x in secs:
        r = one(x)
        if r.returncode:
            key = 'compile:' + x
            errs = [l for l in r.stdout.split('\n') if 'error' in l or 'note' in l]
            viols[key] = dict(property=pid, key=key, suite='compile', config=cfg, idx=0, seed=seed, seed_used=seed, tier=tier,
                              section=x, message='%s refuses to compute section "%s" at compile time' % (cc, x),
                              report='\n'.join(errs[:12])[-4000:])
    return viols


def run_probes(pid, spec, tier, seed, bdir, only=None):
    viols = {}
    for p in spec.get('probes', []):
        if only and p[0] != only:
            continue
        rc, out = probe(spec, bdir, p)
        if rc < 0:
            die('headers of %s do not compile\n%s' % (pid, out[-4000:]))
        if rc:
            key = 'compile:' + p[0]
            viols[key] = dict(property=pid, key=key, suite='compile', config='probe', idx=0, seed=seed, seed_used=seed, tier=tier,
                              probe=p[0], message='does not compile: ' + p[2], report=out[-4000:])
    return viols


def classify(stderr, rc):
    """Name of what went wrong in an aborted run."""
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', stderr)
    if m:
        return 'asan-' + m.group(1)
    m = re.search(r'runtime error: (.*)', stderr)
    if m:
        t = re.sub(r"-?\d[\w.+-]*|'[^']*'|0x[0-9a-f]+", '_', m.group(1))
        return 'ubsan-' + re.sub(r'\W+', '-', t)[:60].strip('-')
    m = re.search(r'WARNING: ThreadSanitizer: ([\w -]+)', stderr)
    if m:
        return 'tsan-' + re.sub(r'\W+', '-', m.group(1)).strip('-')
    if 'VF-HANG' in stderr:
        return 'does-not-terminate'
    m = re.search(r'VF-SIGNAL (\d+)', stderr)
    if m:
        return 'signal-' + m.group(1)
    return 'abnormal-exit-%s' % rc


stop = threading.Event()  # set when something hangs: the rest is not waited for


def run_one(job):
    if stop.is_set():
        return dict(job=job, rc=0, err='', data=None, skipped=True)
    r = run_job(job)
    if 'VF-HANG' in r['err']:
        key = job[2] + ':' + classify(r['err'], r['rc'])
        if key not in {k for p, k, t in known_findings()}:
            stop.set()
    return r


def run_job(job):
    exe, cfg, suite, lo, hi, seed, tier, bdir, deadline, hang = job
    tag = '%s-%s-%d' % (cfg, suite, lo)
    out = os.path.join(bdir, tag + '.json')
    hs = os.path.join(bdir, tag + '.h')
    cmd = [exe, '--suite', suite, '--seed', str(seed), '--lo', str(lo), '--hi', str(hi), '--out', out,
           '--hashes', hs, '--hang', str(hang)]
    if tier == 'thorough':
        cmd.append('--thorough')
    env = dict(os.environ, **ENV)
    wd = os.path.join(bdir, tag + '.d')
    os.makedirs(wd, exist_ok=True)
    for attempt in (0, 1):
        left = max(30, deadline - time.time())
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=wd,
                               timeout=left if attempt else max(30, left * 0.6))
        except subprocess.TimeoutExpired as e:
            err = (e.stderr or b'').decode(errors='replace') + '\nVF-HANG wall\n'
            if attempt == 0:
                continue
            return dict(job=job, rc='timeout', err=err, data=None)
        err = r.stderr.decode(errors='replace')
        data = None
        if os.path.exists(out):
            try:
                data = json.load(open(out))
            except ValueError:
                data = None
        if r.returncode == -9 and data is None and attempt == 0:
            continue  # ended from outside (memory pressure): once more
        return dict(job=job, rc=r.returncode, err=err, data=data, hashes=hs,
                    stdout=r.stdout.decode(errors='replace'))


def known_findings():
    ks = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l.strip())
            if m:
                ks.append((m.group(1), m.group(2), m.group(3)))
    return ks


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--suite', help='only suites whose name contains this')
    ap.add_argument('--config')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--replay')
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('--first', action='store_true', help='stop at the first violation (development)')
    a = ap.parse_args()
    pid, tier = a.id, a.tier
    if pid not in CHECKS:
        die('unknown property ' + pid)
    spec = CHECKS[pid]
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    rep = None
    if a.replay:
        rep = json.load(open(a.replay))
        seed, tier = rep['seed_used'], rep['tier']
    t0 = time.time()
    deadline = t0 + (WALL if tier == 'quick' else 6 * 3600)
    os.makedirs(os.path.join(ROOT, 'build'), exist_ok=True)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    bdir = tempfile.mkdtemp(prefix=pid + '-', dir=os.path.join(ROOT, 'build'))
    try:
        return run(a, pid, spec, tier, seed, t0, deadline, bdir, rep)
    finally:
        if not a.keep:
            shutil.rmtree(bdir, ignore_errors=True)


def run(a, pid, spec, tier, seed, t0, deadline, bdir, rep):
    cfgs = spec.get('configs', ['san', 'opt'])
    if a.config:
        cfgs = [a.config]
    if rep:
        cfgs = [rep['config']]
    if rep and rep.get('probe'):
        bad = run_probes(pid, spec, tier, seed, bdir, rep['probe'])
        print('replayed %s: %s' % (rep['probe'], 'does not compile' if bad else 'compiles'))
        return 1 if bad else 0
    if spec.get('sections'):
        spec = dict(spec, flags=spec.get('flags', []) + ['-DVF_SEED=%d' % seed] + ['-DVF_THOROUGH'] * (tier == 'thorough'))
    if rep and rep.get('section'):
        bad = refused_sections(pid, spec, tier, seed, rep['config'], '')
        print('replayed section %s: %s' % (rep['section'], 'refused' if 'compile:' + rep['section'] in bad else 'computed'))
        return 1 if bad else 0
    probes = {} if rep else run_probes(pid, spec, tier, seed, bdir)
    exes = {}
    reduced = None
    with cf.ThreadPoolExecutor(4) as ex:
        for cfg, (exe, out) in zip(cfgs, ex.map(lambda c: build(pid, spec, c, bdir), cfgs)):
            if exe is None and spec.get('sections'):
                bad = refused_sections(pid, spec, tier, seed, cfg, out)
                if bad:
                    probes.update(bad)
                    reduced = out
                    exe, out = build(pid, dict(spec, flags=spec['flags'] + ['-DVF_NO_' + k[8:] for k in bad]), cfg, bdir)
            if exe is None and (spec.get('reducible') or probes):
                # what is left when the uses that no longer compile are left out can still show a violation
                reduced = out
                exe, out = build(pid, dict(spec, flags=spec.get('flags', []) + ['-DVF_REDUCED']), cfg, bdir)
            if exe is None:
                die('harness of %s does not build (%s)\n%s' % (pid, cfg, out[-6000:]))
            exes[cfg] = exe
    tb = time.time()
    if rep:
        cmd = [exes[rep['config']], '--suite', rep['suite'], '--seed', str(seed), '--lo', str(rep['idx']), '--hi',
               str(rep['idx'] + 1), '--replay']
        if tier == 'thorough':
            cmd.append('--thorough')
        r = subprocess.run(cmd, env=dict(os.environ, **ENV))
        print('replayed %s case %d: exit %d' % (rep['suite'], rep['idx'], r.returncode))
        return 1 if r.returncode else 0

    jobs = []
    for ci, cfg in enumerate(cfgs):
        lst = subprocess.run([exes[cfg], '--list'], stdout=subprocess.PIPE, text=True, env=dict(os.environ, **ENV))
        if lst.returncode:
            die('cannot run the %s build: exit %d' % (cfg, lst.returncode))
        for line in lst.stdout.split('\n'):
            if not line.strip():
                continue
            name, q, t = line.split()
            n = int(q if tier == 'quick' else t)
            mt, enum = name.startswith('mt_'), name.startswith('enum_')
            if cfg == 'tsan' and not mt:
                continue
            if a.suite and a.suite not in name:
                continue
            if not enum:
                deep = spec.get('deep', 1) if tier == 'thorough' else 1
                n = int(n * a.scale * deep * (spec.get('opt_mult', 4) if cfg == 'opt' and not mt else 1))
            n = max(n, 1)
            shards = min(n, (spec.get('shards', 4) if tier == 'quick' else 8) if not mt else (2 if tier == 'quick' else 4))
            # each configuration explores different cases: own seed
            useed = seed * 16 + ci
            hang = 150 if mt else 10 if a.first else 40
            for k in range(shards):
                jobs.append((exes[cfg], cfg, name, n * k // shards, n * (k + 1) // shards, useed, tier, bdir, deadline, hang))
    jobs.sort(key=lambda j: not j[2].startswith('mt_'))
    results = []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        if a.first:
            for r in ex.map(run_one, jobs[:]) if JOBS > 1 else map(run_one, jobs):
                results.append(r)
                listed = {k for p, k, t in known_findings() if p == pid}
                if r['rc'] != 0 and not (r['data'] and r['data']['violations'] and
                                         all(r['job'][2] + ':' + v['key'] in listed for v in r['data']['violations'])):
                    break
        else:
            results = list(ex.map(run_one, jobs))

    evals, counters, samples, by_suite = 0, {}, [], {}
    distinct = set()
    viols = dict(probes)
    for r in results:
        _, cfg, suite, lo, hi, useed, _, _, _, _ = r['job']
        d = r['data']
        if d:
            evals += d['evaluations']
            b = by_suite.setdefault(suite, {})
            b[cfg] = b.get(cfg, 0) + d['evaluations']
            for k, v in d['counters'].items():
                counters[k] = counters.get(k, 0) + v
            for s in d['samples']:
                if sum(1 for x in samples if x.startswith(suite + ':')) < 2 and len(samples) < 24:
                    samples.append(suite + ': ' + s)
            raw = open(r['hashes'], 'rb').read()
            distinct.update(struct.unpack('<%dQ' % (len(raw) // 8), raw))
            for v in d['violations']:
                key = suite + ':' + v['key']
                viols.setdefault(key, dict(property=pid, key=key, suite=suite, config=cfg, idx=v['idx'], seed=seed,
                                           seed_used=useed, tier=tier, message=v['msg'],
                                           reproduces=v['replayed'], operations=v['log'].split('\n')))
        if r['rc'] not in (0, 1) or (r['rc'] == 1 and not (d and d['violations'])):
            if r['rc'] == 3:
                die('harness could not write its result')
            key = suite + ':' + classify(r['err'], r['rc'])
            m = re.search(r'VF-(?:CRASH|HANG) suite=\S* idx=(\d+)', r['err'])
            idx = int(m.group(1)) if m else lo
            viols.setdefault(key, dict(property=pid, key=key, suite=suite, config=cfg, idx=idx, seed=seed,
                                       seed_used=useed, tier=tier, message='run aborted', report=r['err'][-6000:]))

    known = [(k, t) for p, k, t in known_findings() if p == pid]
    new = {k: v for k, v in viols.items() if k not in dict(known)}
    require = [c for c in spec.get('require', []) if not counters.get(c)]

    ev = dict(property=pid, tier=tier, seed=seed, level=spec['level'],
              coverage=dict(evaluations=evals, distinct_nontrivial=len(distinct), rule=spec['rule'],
                            samples=samples or ['(no sample recorded)'], observed=dict(sorted(counters.items())),
                            cases_by_suite_and_build=by_suite, builds=cfgs,
                            build_s=round(tb - t0, 1)),
              assumptions=spec.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(new))
    tmp = os.path.join(ROOT, 'evidence', '.%s.%d' % (pid, os.getpid()))
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(ROOT, 'evidence', pid + '.json'))

    for k, t in known:
        if k in viols or spec.get('known_always'):
            print('KNOWN-FINDING: property=%s %s' % (pid, t))
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %d suites, %.1f s' %
          (pid, tier, seed, evals, len(distinct), len(by_suite), time.time() - t0))
    if new:
        os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
        for i, (k, v) in enumerate(sorted(new.items())):
            name = re.sub(r'[^\w.-]+', '_', '%s-%s' % (pid, k))[:120]
            p = os.path.join(ROOT, 'replays', name + '.json')
            json.dump(v, open(p, 'w'), indent=1)
            if i < 8:
                print('  %s: %s' % (k, v['message'][:400]))
                if 'report' in v:
                    print('    ' + '\n    '.join(v['report'].strip().split('\n')[-40:])[:3000])
                print('VIOLATION property=%s replay=%s' % (pid, p))
        return 1
    if reduced:
        die('parts of the harness of %s do not build\n%s' % (pid, reduced[-6000:]))
    if require and tier == 'quick' and not a.suite and not a.config and a.scale >= 1:
        die('monitors of %s never saw: %s' % (pid, ', '.join(require)))
    return 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
