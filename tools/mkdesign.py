#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, table.py, properties.jsonl, known_findings.txt, tools/design_tail.md
and the record of planted bugs."""
import json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from table import CHECKS


def rd(*p):
    with open(os.path.join(ROOT, *p)) as f:
        return f.read()


def suites(spec, pid):
    out = []
    for s in spec.get('src', [pid + '.cc']):
        t = rd('harness', s)
        for m in re.finditer(r"((?:^//[^\n]*\n)*)^VF_SUITE\(\s*(\w+)\s*,\s*([\w' ]+?)\s*,\s*([\w' ]+?)\s*\)", t, re.M):
            out.append((m.group(2), m.group(3).replace("'", ''), m.group(4).replace("'", '')))
    return out


def main():
    o = [rd('tools', 'design_head.md').rstrip(), '\n\n## 4. Per property\n']
    o.append('Case counts are per build; the `opt` build runs them four times over (unless noted), suites called `enum_…` are '
             'exhaustive over the domain they name, `mt_…` suites are also run under ThreadSanitizer. Times: this sandbox, quick tier, 8 cores.\n')
    props = [json.loads(l) for l in rd('properties.jsonl').splitlines()]
    for p in props:
        s = CHECKS[p['id']]
        o.append('\n### %s. %s\n' % (p['id'], p['title']))
        o.append('*Technique:* %s.\n' % s['technique'])
        o.append('*Explored:* %s\n' % s['rule'])
        ss = suites(s, p['id'])
        o.append('*Suites (quick / thorough cases):* %s. *Builds:* %s.\n' % (
            ', '.join('`%s` %s / %s' % x for x in ss), ', '.join(s.get('configs', ['san', 'opt']))))
        if s.get('require'):
            o.append('*The run is rejected (exit 2) unless the monitors observed:* %s.\n' % ', '.join(x.replace('_', ' ') for x in s['require']))
        o.append('*Limits:* %s Assumes: %s.\n' % (s['note'], '; '.join(s.get('assumptions', ['nothing beyond the statement']))))
        ev = os.path.join(ROOT, 'evidence', p['id'] + '.json')
        if os.path.exists(ev):
            e = json.load(open(ev))
            if e.get('tier') == 'quick':
                o.append('*Cost:* about %d s.\n' % max(1, round(e['wall_s'])))
        o.append('*Beyond the tests:* %s\n' % p['why_tests_cant'])
    o.append('\n## 5. Defects found in cpputil\n')
    o.append('Repaired (each its own `fix:` commit in /repo; the check reports the violation again when the commit is reverted):\n')
    for l in rd('known_findings.txt').splitlines():
        m = re.match(r'fixed: property=(\w+) (\w+) (.*)', l)
        if m:
            o.append('* %s `%s`: %s' % m.groups())
    o.append('\nRecorded, not repaired:\n')
    for l in rd('known_findings.txt').splitlines():
        m = re.match(r'finding: property=(\w+) key=(\S+) (.*)', l)
        if m:
            o.append('* %s `%s`: %s. (Repairing it would change what the existing users of `val()`/`process()` get; which of the '
                     'two calls should advance is the maintainer\'s decision.)' % m.groups())
    o.append('')
    o.append(rd('tools', 'design_tail.md').rstrip())
    o.append('\n\n## 8. Planted bugs and what catches them\n')
    o.append('Each was written from the property text, confirmed (builds, passes the repository\'s tests, demonstration fails only '
             'with it) and run against its property\'s quick check.\n')
    o.append('| planted bug | what it needs | caught by |\n|---|---|---|')
    r = json.loads(rd('tools', 'seeded_results.json')) if os.path.exists(os.path.join(ROOT, 'tools', 'seeded_results.json')) else {}
    for i in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
        m = json.loads(rd('seeded', i, 'meta.json'))
        x = r.get(i)
        by = 'not run' if not x else (m['property'] + ': ' + ', '.join('`%s`' % k for k in x['by']) if x['caught'] else 'MISSED')
        o.append('| %s | %s | %s |' % (i, m['needs'].replace('|', '\\|').replace('\n', ' '), by))
    with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as f:
        f.write('\n'.join(o) + '\n')


main()
