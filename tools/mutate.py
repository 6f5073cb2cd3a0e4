#!/usr/bin/env python3
"""Mutation run (development tool; no check uses it): small changes to each header, one at a time, and which of
them no check of a property that uses the header notices.

mutate.py OUTDIR header... [--scale f] [--sample n]
"""
import argparse, concurrent.futures as cf, glob, os, re, shutil, subprocess, sys, tempfile, random, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'


def uses():
    m = {}
    for h in sorted(glob.glob(os.path.join(ROOT, 'harness', 'C*.cc'))):
        pid = os.path.basename(h)[:3]
        for x in re.findall(r'#\s*include "util/([^"]+)"', open(h).read()):
            m.setdefault(x, []).append(pid)
    return m


def deps():
    """header -> headers that include it"""
    m = {}
    for h in glob.glob(REPO + '/util/*.hh'):
        for x in re.findall(r'#\s*include "(?:util/)?([^"]+)"', open(h).read()):
            m.setdefault(x, []).append(os.path.basename(h))
    return m


def props(h):
    u, d = uses(), deps()
    out = list(u.get(h, []))
    seen, todo = {h}, [h]
    while todo:
        for x in d.get(todo.pop(0), []):
            if x not in seen:
                seen.add(x)
                todo.append(x)
                for p in u.get(x, []):
                    if p not in out:
                        out.append(p)
    if h.endswith('.cc'):
        out += [p for p in u.get(h[:-3] + '.hh', []) if p not in out]
    return out


OPS = [
    (r'<=(?!>)', ['<', '==']), (r'(?<![<=>-])>=', ['>', '==']), (r'==', ['!=']), (r'!=', ['==']),
    (r'(?<= )<(?= )', ['<=', '>']), (r'(?<= )>(?= )', ['>=', '<']),
    (r'\+\+', ['--']), (r'--', ['++']), (r'\+=', ['-=']), (r'-=', ['+=']),
    (r'(?<= )\+(?= )', ['-']), (r'(?<= )-(?= )', ['+']), (r'(?<= )\*(?= )', ['/']), (r'(?<= )/(?= )', ['*']),
    (r'(?<= )%(?= )', ['/']), (r'<<', ['>>']), (r'>>', ['<<']), (r'(?<= )&(?= )', ['|']), (r'(?<= )\|(?= )', ['&']),
    (r'&&', ['||']), (r'\|\|', ['&&']), (r'!(?=[\w(])', ['']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
    (r'memory_order_acquire', ['memory_order_relaxed']), (r'memory_order_release', ['memory_order_relaxed']),
    (r'(?<![\w.])\d+(?![\w.])', ['+1', '-1']), (r'0x[0-9A-Fa-f]+', ['+1']),
    (r'(?<![\w.])\d*\.\d*f?', ['*2']),
    (r'\bmin\b(?=\()', ['max']), (r'\bmax\b(?=\()', ['min']),
    (r'\b[0-9a-fA-Fx]+[uU]\b', ['+1']),
    (r'(?<=\()(?=[a-z_]+[),])', ['1 + ']), (r'\breturn (?=[^;]+;)', ['return {}; return ']),
]

TYPES = [
    (r'\b(?:std::)?size_t\b', ['uint8_t', 'uint16_t']), (r'\bunsigned(?: int)?\b(?! *(?:char|long|short))', ['uint8_t', 'uint16_t']),
    (r'\b(?:std::)?uint64_t\b', ['uint32_t']), (r'\b(?:std::)?int64_t\b', ['int32_t']),
    (r'\b(?:std::)?uint32_t\b', ['uint8_t', 'uint16_t']), (r'\b(?:std::)?uint16_t\b', ['uint8_t']),
    (r'\b(?:std::)?int32_t\b', ['int16_t', 'uint32_t']), (r'\bint\b', ['int8_t', 'int16_t', 'unsigned']),
    (r'\bunsigned (?:char|short)\b', ['bool']), (r'\buint8_t\b', ['int8_t']), (r'\bint8_t\b', ['uint8_t']),
    (r'\bdouble\b', ['float']), (r'\bfloat\b', ['_Float16']), (r'\bint16_t\b', ['int8_t', 'uint16_t']),
    (r'\bauto\b(?! *(?:operator|&|\*|const))(?=[^;]*=)', ['uint8_t', 'uint16_t', 'float']),
    (r'\bconst &', ['']), (r'(?<=[\w>]) &(?=\w)', [' ']), (r'\bstd::forward<[^>]*>', ['']), (r'\bstd::move\b', ['']),
    (r'\bstatic (?!_assert|inline|constexpr)', ['']), (r'\{\};', [';']),
]

# what a value is, cut to its low bits where it is used
USES = [
    (r'(?<![\w.>:])(?:\w+(?:\.|->))?(?:size|max_size|count|available|length|capacity)\(\)(?! *(?:const|\{|[-+*/&|]?=[^=]))', ['@uint16_t']),
    (r'(?<![\w.>:&*] )(?<![\w.>:&*])(?:size|sz|num|count|n|len|length|offset|pos|idx|index|marker|value|val|now|period|head_?|tail_?|rd|wr|top_idx|'
     r'bottom_idx|back_idx|key|i|newsize|oldest|t|phase|num_elements|bytesRemaining)\b(?! *(?:[-+*/&|%]?=[^=]|\+\+|--|\(|\{|:|;|[\w]))', ['@uint16_t']),
]


def mutants(text, ops=None):
    lines = text.split('\n')
    out = []
    block = False
    for i, l in enumerate(lines):
        s = l.strip()
        if not s or s.startswith('//') or s.startswith('#') or s.startswith('*') or 'static_assert' in s or \
           s.startswith('template') or s.startswith('using') or s.startswith('namespace') or 'requires' in s:
            continue
        code = l.split('//')[0]
        for rx, reps in ops or OPS:
            for m in re.finditer(rx, code):
                tok = m.group(0)
                for r in reps:
                    if r in ('+1', '-1'):
                        base = tok.rstrip('uU') if not tok.startswith('0x') else tok.rstrip('uU')
                        try:
                            v = int(base, 0) + (1 if r == '+1' else -1)
                        except ValueError:
                            continue
                        if v < 0:
                            continue
                        new = (hex(v) if tok.startswith('0x') else str(v)) + ('u' if tok[-1] in 'uU' else '')
                    elif r == '*2':
                        if tok in ('.', 'f') or not re.search(r'\d', tok):
                            continue
                        new = '(%s * 1.01f)' % tok
                    elif r[0] == '@':
                        new = '(%s)(%s)' % (r[1:], tok)
                    else:
                        new = r
                    out.append((i, code[:m.start()] + new + code[m.end():]))
        if ops:
            continue
        if re.match(r'^[\w>*.\[\](){}: ,+&-]+(\s*[-+|&^*/%]?=[^=].*|\(.*\)|\+\+|--);$', s) and \
           not re.match(r'^(return|auto|const|static|constexpr|T|bool|float|int|unsigned|size_t|uint\w+|int\w+|using|u?int|std::\w+(<.*>)? \w+)\b[^=(.]*[ =;({]', s):
            out.append((i, '/* deleted */;'))
        m = re.match(r'^(\s*(?:\} else )?if (?:constexpr )?\()(.*)(\)\s*\{?)$', code.rstrip())
        if m and 'constexpr' not in code:
            out.append((i, m.group(1) + '(%s) && false' % m.group(2) + m.group(3)))
            out.append((i, m.group(1) + '(%s) || true' % m.group(2) + m.group(3)))
        if s in ('break;', 'continue;'):
            out.append((i, ';'))
    res, seen = [], set()
    for i, n in out:
        if n != lines[i] and (i, n) not in seen:
            seen.add((i, n))
            res.append((i, n))
    return lines, res


def swaps(text):
    """two adjacent statements exchanged; a mutant is (line, the two new lines, how many lines it replaces)"""
    lines = text.split('\n')
    stmt = re.compile(r'^\s*(?!return|break|continue|case|using|template|friend|static_assert|public|private)[^#/].*;$')
    out = []
    for i in range(len(lines) - 1):
        a, b = lines[i].split('//')[0].rstrip(), lines[i + 1].split('//')[0].rstrip()
        if stmt.match(a) and b.strip() and a.strip() != b.strip() and len(a) - len(a.lstrip()) == len(b) - len(b.lstrip()):
            if stmt.match(b) or re.match(r'^\s*return\b.*[^;{]?;$', b) and re.match(r'^\s*[\w.\[\]>-]+(\(|\+\+|--| [-+*/|&]?= )', a):
                if b.strip().startswith('return'):
                    e = b.strip()[6:].rstrip(';').strip()
                    if e:
                        out.append((i, '{ auto vm_r = %s; %s return vm_r; }\n' % (e, a.strip())))
                else:
                    out.append((i, b + '\n' + a))
    return lines, out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('headers', nargs='+')
    ap.add_argument('--scale', default='0.5')
    ap.add_argument('--sample', type=int, default=0)
    ap.add_argument('--workers', type=int, default=8)
    ap.add_argument('--props', default='')
    ap.add_argument('--types', action='store_true', help='narrower and copied types instead of changed operators')
    ap.add_argument('--uses', action='store_true', help='values cut to 16 bits where they are used instead of changed operators')
    ap.add_argument('--swaps', action='store_true', help='adjacent statements exchanged instead of changed operators')
    a = ap.parse_args()
    os.makedirs(a.out, exist_ok=True)
    import queue
    pool = queue.Queue()
    top = tempfile.mkdtemp(prefix='mutate-', dir='/tmp')
    for k in range(a.workers):
        d = os.path.join(top, str(k))
        os.makedirs(d)
        shutil.copytree(REPO + '/util', d + '/util')
        pool.put(d)
    work = []
    for h in a.headers:
        text = open(os.path.join(REPO, 'util', h)).read()
        lines, ms = swaps(text) if a.swaps else mutants(text, TYPES if a.types else USES if a.uses else None)
        if a.sample and len(ms) > a.sample:
            ms = random.Random(1).sample(ms, a.sample)
        for m in ms:
            work.append((h, lines, m))

    def go(w):
        h, lines, (i, new) = w
        d = pool.get()
        try:
            f = os.path.join(d, 'util', h)
            ls = list(lines)
            if a.swaps:
                ls[i], ls[i + 1] = new.split('\n')
            else:
                ls[i] = new
            open(f, 'w').write('\n'.join(ls))
            ps = a.props.split(',') if a.props else props(h)
            built = 0
            for p in ps:
                cfgs = ['san']
                if p in ('C01', 'C03', 'C24') and 'memory_order' in lines[i]:
                    cfgs = ['tsan', 'san']
                for c in cfgs:
                    r = subprocess.run(['python3', os.path.join(ROOT, 'check.py'), p, '--config', c, '--first', '--scale', a.scale],
                                       env=dict(os.environ, VERIF_REPO=d, VERIF_JOBS='1'), stdout=subprocess.PIPE,
                                       stderr=subprocess.STDOUT, text=True)
                    if r.returncode == 1:
                        return 'killed'
                    if r.returncode == 0:
                        built += 1
                    elif 'does not build' not in r.stdout:
                        return 'odd: ' + r.stdout[-300:]
            return 'SURVIVED %s' % ','.join(ps) if built else 'nobuild'
        finally:
            open(os.path.join(d, 'util', h), 'w').write('\n'.join(lines))
            pool.put(d)
    tot = {}
    logs = {h: open(os.path.join(a.out, h + '.log'), 'w') for h in a.headers}
    t0 = time.time()
    with cf.ThreadPoolExecutor(a.workers) as ex:
        for (h, lines, (i, new)), res in zip(work, ex.map(go, work)):
            c = tot.setdefault(h, {})
            k = res.split(' ')[0].rstrip(':')
            c[k] = c.get(k, 0) + 1
            if k not in ('killed', 'nobuild'):
                logs[h].write('%s\n  L%d - %s\n       + %s\n' % (res, i + 1, lines[i].strip(), new.strip()))
                logs[h].flush()
    for h, c in tot.items():
        print(h, c)
    print('%.0f s' % (time.time() - t0))
    shutil.rmtree(top)


main()
