#!/usr/bin/env python3
"""Nothing to install: makes the ignored folders and sees that both compilers link their sanitizers."""
import os, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ('build', 'evidence', 'replays'):
    os.makedirs(os.path.join(ROOT, d), exist_ok=True)
with tempfile.TemporaryDirectory() as t:
    src = os.path.join(t, 'a.cc')
    open(src, 'w').write('int main(){return 0;}')
    for c in (['clang++', '-fsanitize=address,undefined'], ['clang++', '-fsanitize=thread'], ['g++', '-O2']):
        subprocess.check_call(c + [src, '-o', os.path.join(t, 'a')])
        subprocess.check_call([os.path.join(t, 'a')])
sys.exit(0)
