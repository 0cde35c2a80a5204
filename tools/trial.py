#!/usr/bin/env python3
"""trial.py file [ids...] [--tests]: apply each trial change (bug or harmless edit) of /verif/trials/<file>.py to a scratch copy of /repo/include,
run the repository's tests against it (--tests), and the checks of the listed properties. Prints one line per (trial, property)."""
import os, sys, shutil, subprocess, importlib.util, concurrent.futures as cf
args = [a for a in sys.argv[1:] if not a.startswith('--')]; tests = '--tests' in sys.argv
sp = importlib.util.spec_from_file_location('t', f'/verif/trials/{args[0]}.py'); T = importlib.util.module_from_spec(sp); sp.loader.exec_module(T)
def run_tests(d):
    os.makedirs(d + '/o'); fs = [f for f in os.listdir('/repo/test') if f.startswith('test_') and f.endswith('.cpp') and 'standalone' not in f] + ['driver.cpp']
    def one(f): return subprocess.run(f'g++ -std=c++14 -w -DBOOST_TEST_DYN_LINK -DBOOST_ASIO_DISABLE_VISIBILITY -I{d}/include -I/repo/test -c /repo/test/{f} -o {d}/o/{f}.o', shell=True, capture_output=True, text=True)
    with cf.ThreadPoolExecutor(8) as ex: rs = list(ex.map(one, fs))
    for r in rs:
        if r.returncode: return 'does not compile: ' + r.stderr[:300]
    r = subprocess.run(f'cd {d}/o && g++ *.o -lboost_unit_test_framework -lpthread -o ts && timeout 120 ./ts 2>&1 | tail -4', shell=True, capture_output=True, text=True)
    return 'tests pass' if 'No errors' in r.stdout else 'TESTS FAIL: ' + (r.stdout + r.stderr)[-200:].replace('\n', ' ')
def main():
    for t in T.TRIALS:
        if args[1:] and not any(t['id'] == a or (a.endswith('*') and t['id'].startswith(a[:-1])) for a in args[1:]): continue
        d = f"/tmp/trial/{t['id']}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d); shutil.copytree('/repo/include', d + '/include')
        try:
            ok = True
            for f, a, b in t['edits']:
                p = f'{d}/include/cli/{f}'; x = open(p).read(); n = x.count(a)
                if n != t.get('count', 1): print(f"{t['id']}: text found {n} times in {f}: {a[:60]!r}"); ok = False; break
                open(p, 'w').write(x.replace(a, b))
            if not ok: continue
            tr = run_tests(d) if tests else ''
            for p in t['props']:
                r = subprocess.run(['/verif/checks/run', p], env=dict(os.environ, CXV_REPO=d), capture_output=True, text=True, errors='replace')
                o = r.stdout.split('\n'); v = [l for l in o if l.startswith(('VIOLATION', 'OK', 'NO-ANSWER'))]; kind = t.get('kind', 'bug')
                res = ('concrete' if r.returncode == 1 and 'no-failing' not in v[-1] else 'proof-only' if r.returncode == 1 else 'NO-ANSWER' if r.returncode else 'proved' if 'proved:' in v[-1] and 'not proved' not in v[-1] else 'bounded')
                good = (r.returncode == 1) if kind == 'bug' else (r.returncode == 0)
                det = [l.strip() for l in o if 'FAILED OBL' in l or 'violation:' in l or (l.strip().startswith('!!') and 'obligations, ' in l and l.rstrip()[-1] not in 's')]
                print(f"{'   ' if good else '***'} {kind} {t['id']} {p}: {res} {tr}", flush=True)
                if not good or os.environ.get('V') or res == 'bounded': [print('       ', l[:230]) for l in det[:5]]
        finally: shutil.rmtree(d, ignore_errors=True)
main()
