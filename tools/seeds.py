#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the descriptions in tools/seed_list.py (patch against /repo's HEAD, demo, meta)."""
import os, sys, json, shutil, subprocess, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seed_list import SEEDS
OUT = '/verif/seeded'
DEMO = '''#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken (run with cwd at the root of the repository)
d=$(cd "$(dirname "$0")" && pwd); r=$PWD; t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++14 -g -w %s -DBOOST_ASIO_DISABLE_VISIBILITY -I"$r/include" "$d/demo.cpp" -o "$t/demo" %s || exit 1
cd "$t" && timeout 60 ./demo
'''
def main(sel):
    for s in SEEDS:
        if sel and s['id'] not in sel: continue
        t = tempfile.mkdtemp()
        try:
            subprocess.check_call(f'git -C /repo archive HEAD include | tar x -C {t} && cd {t} && git init -q && git add -A && git -c user.email=a@b -c user.name=a commit -qm a', shell=True)
            for f, a, b in s['edits']:
                p = f'{t}/include/cli/{f}'; x = open(p).read()
                if x.count(a) != 1: print(f"{s['id']}: text found {x.count(a)} times in {f}: {a[:60]!r}"); break
                open(p, 'w').write(x.replace(a, b))
            else:
                d = f"{OUT}/{s['id']}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
                diff = subprocess.check_output(['git', '-C', t, 'diff']).decode()
                open(d + '/patch.diff', 'w').write(diff)
                open(d + '/demo.cpp', 'w').write(s['demo'].lstrip('\n'))
                open(d + '/demo.sh', 'w').write(DEMO % (s.get('flags', ''), s.get('libs', '-lpthread'))); os.chmod(d + '/demo.sh', 0o755)
                json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
        finally: shutil.rmtree(t)
main(sys.argv[1:])
