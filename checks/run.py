#!/usr/bin/env python3-vt
"""check one property: prove every obligation from /repo's current source, replay failures on the real code.

exit 0: held.  exit 1 + VIOLATION line: broken.  exit 2: no answer (nothing could be decided)."""
import sys, os, time, json, importlib, subprocess, tempfile, shutil, concurrent.futures as cf, multiprocessing as mp, re, fnmatch
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF); sys.dont_write_bytecode = True
from checks.props import PROPS, IMPL, COMMON_TRUST, COMMON_ASSUME, KNOWN
REPO = os.environ.get('CXV_REPO', '/repo')
T0 = time.time()

def log(*a): print(*a, flush=True)

# ------------------------------------------------------------------------------------------ drivers
class Driver:
    def __init__(s, name, flags, libs, tmp, sanit='address,undefined'):
        name, _, tag = name.partition('@')
        s.name, s.exe, s.tmp = name + ('@' + tag if tag else ''), os.path.join(tmp, name + tag), tmp
        cmd = ['g++', '-std=c++14', '-O1', '-g', '-w', '-DBOOST_ASIO_DISABLE_VISIBILITY', f'-fsanitize={sanit}', '-fno-sanitize-recover=undefined',
               f'-I{REPO}/include', f'-I{VERIF}/drivers', *flags, f'{VERIF}/drivers/{name}.cpp', '-o', s.exe, *libs]
        s.cmd = ' '.join(cmd); s.log = open(s.exe + '.log', 'w+')
        s.p = subprocess.Popen(cmd, stdout=s.log, stderr=subprocess.STDOUT)
    def ready(s):
        s.p.wait(); s.log.seek(0); s.err = s.log.read(); return s.p.returncode == 0
    def search(s, seeds, secs):
        """run the driver with several seeds in parallel; first failure or None; statistics"""
        ps = []
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=0', TSAN_OPTIONS='halt_on_error=1')
        for i, sd in enumerate(seeds):
            b = f'{s.exe}.{i}'
            ps.append((b, subprocess.Popen([s.exe, '--seed', str(sd), '--seconds', str(secs), '--out', b + '.rep', '--stats', b + '.st', '--err', b + '.err'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, cwd=s.tmp)))
        bad = None; st = dict(driver=s.name, evaluations=0, distinct=0, counters={}, samples=[], seeds=len(seeds), seconds=secs)
        for b, p in ps:
            try: p.communicate(timeout=secs + 180)
            except subprocess.TimeoutExpired: p.kill(); p.communicate()
            if p.returncode == 1 and bad is None:
                try: bad = open(b + '.rep', errors='replace').read()
                except OSError: pass
            try:
                for l in open(b + '.st', errors='replace'):
                    l = l.rstrip('\n')
                    if l.startswith('evaluations='): st['evaluations'] += int(l[12:])
                    elif l.startswith('distinct='): st['distinct'] += int(l[9:])
                    elif l.startswith('counter '):
                        k, v = l[8:].rsplit('=', 1); st['counters'][k] = st['counters'].get(k, 0) + int(v)
                    elif l.startswith('sample ') and len(st['samples']) < 3: st['samples'].append(l[7:])
            except OSError: pass
        return bad, st

# ------------------------------------------------------------------------------------------ proofs
PROG = None; UNITS = []
def work(i):
    from cxv.verify import run_unit
    from cxv import logic as L
    L.STATS['time'] = 0
    r = run_unit(UNITS[i], PROG, UNITS[i].opts.get('deadline', 240) if hasattr(UNITS[i], 'opts') else 240)
    r.solver_time = L.STATS['time']
    return r

def run_units(units):
    global UNITS
    UNITS = units; out = [None] * len(units)
    try:
        with cf.ProcessPoolExecutor(max_workers=min(8, max(1, len(units))), mp_context=mp.get_context('fork')) as ex:
            fs = {ex.submit(work, i): i for i in range(len(units))}
            for f in cf.as_completed(fs):
                try: out[fs[f]] = f.result()
                except Exception as x: out[fs[f]] = x
    except Exception as x: log('verifier process:', x)
    from cxv.verify import Result
    for i, r in enumerate(out):
        if r is None or isinstance(r, Exception):
            q = Result(units[i].name); q.kind = 'unsupported'; q.error = f'verifier process ended: {r}'; q.solver_time = 0; out[i] = q
    return out

def collect(pd):
    """the units of a property, closed under the contracts they use"""
    units = []; reg = {}
    for m in sorted(f[:-3] for f in os.listdir(os.path.join(VERIF, 'contracts')) if f.endswith('.py') and f != '__init__.py'):
        for u in importlib.import_module('contracts.' + m).units: reg.setdefault(u.name, u)
    for m, sel in pd['units']:
        mod = importlib.import_module('contracts.' + m)
        for u in mod.units:
            reg.setdefault(u.name, u)
            if sel is None or any(u.name == x or (x.endswith('*') and u.name.startswith(x[:-1])) for x in sel):
                if u.name not in [x.name for x in units]: units.append(u)
    return units, reg

def prove(pid, pd):
    global PROG
    from cxv import ast
    res = []
    try: units, reg = collect(pd)
    except Exception as x: return [], f'contracts do not bind: {x!r}'
    try: PROG = ast.load('core.cpp')
    except Exception as x: return [], f'front end: {x}'
    done = set(); todo = units; own = {u.name for u in units}
    while todo:
        rs = run_units(todo); res += rs; done |= {u.name for u in todo}
        need = {n for r in rs for n in r.used} - done
        need |= {n for i in need if i in IMPL for n in reg if any(fnmatch.fnmatchcase(n, x) for x in IMPL[i])} - done
        todo = [reg[n] for n in sorted(need) if n in reg]
        done |= need
    for r in res: r.own = r.name in own
    for r in res: r.assumed = [n for n in r.used if n not in {x.name for x in res}]
    return res, None

# ------------------------------------------------------------------------------------------ main
def main():
    pid = sys.argv[1]; pd = PROPS[pid]
    if '--replay' in sys.argv: return replay(pid, pd, sys.argv[sys.argv.index('--replay') + 1])
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    try: seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: seed = 1
    tmp = tempfile.mkdtemp(prefix=f'cxv_{pid}_')
    try: return check(pid, pd, tier, seed, tmp)
    finally: shutil.rmtree(tmp, ignore_errors=True)

def replay(pid, pd, path):
    text = open(path, errors='replace').read(); m = re.search(r'^driver=(\S+)', text, re.M); c = re.search(r'^case=([0-9a-f]*)$', text, re.M)
    if not m or not c: log('no concrete case in this replay file; the failed obligation is described in it'); return 2
    tmp = tempfile.mkdtemp(prefix='cxv_replay_')
    try:
        d = next(x for x in pd['drivers'] if x[0] == m.group(1)); dr = Driver(d[0], d[1], d[2], tmp)
        if not dr.ready(): log(dr.err); return 2
        return subprocess.run([dr.exe, '--case', c.group(1)], env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'), cwd=tmp).returncode
    finally: shutil.rmtree(tmp, ignore_errors=True)

def check(pid, pd, tier, seed, tmp):
    thorough = tier == 'thorough'
    drs = [Driver(n, fl, li, tmp) for n, fl, li in pd.get('drivers', [])]
    if thorough: os.environ['CXV_THOROUGH'] = '1'
    global AXCHECK
    try: AXCHECK = subprocess.Popen(['python3-vt', os.path.join(VERIF, 'tools/axioms.py'), '--check'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    except OSError: AXCHECK = None
    res, ferr = prove(pid, pd)
    obs = [(r, o) for r in res for o in r.obs]
    failed = [(r, o) for r, o in obs if o['res'] != 'proved' and r.own]
    # a contract of another property's function that this proof relies on: without it this property is not proved (the check of the other property alarms)
    weak = [(r, o) for r, o in obs if o['res'] != 'proved' and not r.own]
    unsup = [r for r in res if r.kind != 'ok']
    proved = not failed and not weak and not unsup and not ferr and len(obs) > 0
    for r in res:
        log(f"  {'ok ' if r.kind == 'ok' and all(o['res'] == 'proved' for o in r.obs) else '!! '}{r.name}: {sum(o['res'] == 'proved' for o in r.obs)}/{len(r.obs)} obligations, {r.paths} paths, {r.time:.1f}s{' ' + r.error if r.error else ''}")
    for r, o in failed: log(f"  FAILED OBLIGATION {r.name}: {o['name']} at {o['loc']} ({o['res']})")
    for r, o in weak: log(f"  NOT PROVED, RELIED ON {r.name}: {o['name']} at {o['loc']} ({o['res']})")
    if ferr: log('  ' + ferr)
    # concrete replay
    quick = pd.get('seconds', 6); secs = (120 if thorough else quick) if proved else max(40, quick)
    bad = None; stats = []; nodrv = []
    ready = []
    for d in drs:
        if d.ready(): ready.append(d)
        else: nodrv.append(d); log(f'  driver {d.name} does not build against this tree:\n' + d.err[:1500])
    for d in ready:
        b, st = d.search([seed * 1000 + i for i in range(8 if not proved or thorough else 4)], max(5, secs / len(ready)))
        stats.append(st)
        log(f"  replay {d.name}: {st['evaluations']} cases, {st['distinct']} distinct, {'FAILURE' if b else 'no failure'}")
        if b and not bad: bad = (d, b)
        if bad: break
    # verdict
    viol = None; known = []
    if bad: 
        what = re.search(r'^failure=(.*)$', bad[1], re.M); what = what.group(1) if what else ''
        viol = ('concrete', bad[0].name, bad[1], what)
    elif failed: viol = ('proof', None, None, '; '.join(f"{r.name}: {o['name']}" for r, o in failed[:3]))
    bounded = [dict(unit=r.name, reason=r.error) for r in unsup] + [dict(unit=n, reason='a contract this property relies on is not met: ' + '; '.join(o['name'] for r, o in weak if r.name == n)[:300]) for n in sorted({r.name for r, _ in weak})] + ([dict(unit='*', reason=ferr)] if ferr else [])
    wall = time.time() - T0
    if viol is None and not proved and not any(st['evaluations'] for st in stats):
        write_evidence(pid, pd, tier, seed, res, obs, stats, bounded, nodrv, wall, 0, False)
        log(f'NO-ANSWER property={pid}: neither the verifier nor the drivers could read this tree'); return 2
    rp = ''
    if viol:
        os.makedirs(f'{VERIF}/evidence/replay', exist_ok=True); rp = f'{VERIF}/evidence/replay/{pid}.txt'
        with open(rp, 'w') as f:
            f.write(f'property={pid}\ntitle={pd["title"]}\n')
            if bad: f.write(f'driver={bad[0].name}\nreplay command: {VERIF}/checks/run {pid} --replay {rp}\nbuild: {bad[0].cmd}\n{bad[1]}\n')
            else: f.write('no concrete failing input was found; the violation is the failed proof obligation(s) below\n')
            for r, o in (failed + weak)[:20]: f.write(f"\nfailed obligation: {o['name']}\n  function: {r.func or r.name} ({r.loc})\n  at: {o['loc']}\n  solver: {o['res']} after {o['time']}s\n  path decisions: {o['path']}\n  goal: {o['goal']}\n")
    write_evidence(pid, pd, tier, seed, res, obs, stats, bounded, nodrv, time.time() - T0, 1 if viol else 0, proved)
    for k in KNOWN.get(pid, []): log(f'KNOWN-FINDING: property={pid} {k}')
    if viol:
        log(f'  violation: {viol[3]}')
        log(f'VIOLATION property={pid} replay={rp}' + ('' if bad else ' no-failing-input-found')); return 1
    log(f"OK property={pid} {'proved' if proved else 'BOUNDED (not proved)'}: {len(obs)} obligations, wall {time.time() - T0:.1f}s")
    return 0

AXCHECK = None
def axioms():
    """the axioms of the sequence theory: proved of lists by Lean in this run, or trusted"""
    try: out = AXCHECK.communicate(timeout=120)[0]
    except Exception: return 'axioms of the finite-sequence theory (cxv/logic.py): Lean gave no answer in this run'
    if AXCHECK.returncode == 0: return f'Lean 4 kernel: {out.strip()} (axioms of the finite-sequence theory of cxv/logic.py, from the definition of lists; lean/)'
    log('  axioms of the sequence theory: not proved by Lean'); return 'axioms of the finite-sequence theory (cxv/logic.py): not proved by Lean in this run'
def write_evidence(pid, pd, tier, seed, res, obs, stats, bounded, nodrv, wall, nviol, proved):
    import z3
    backend = f'z3 {z3.get_version_string()} (E-matching, no MBQI)'
    ev = sum(s['evaluations'] for s in stats); di = sum(s['distinct'] for s in stats)
    cov = dict(
        obligations=len(obs), discharged=sum(o['res'] == 'proved' for _, o in obs),
        checker_cmd=f'cd {VERIF} && checks/run {pid}',
        trusted_base=COMMON_TRUST + [axioms()] + sorted({t for r in res for t in r.trusted}) + list(pd.get('trusted', [])),
        back_end=backend, solver_seconds=round(sum(getattr(r, 'solver_time', 0) for r in res), 2), solver_queries=sum(r.queries for r in res),
        functions=[dict(function=r.func or r.name, contract=r.name, at=r.loc, obligations=len(r.obs), discharged=sum(o['res'] == 'proved' for o in r.obs), paths=r.paths, seconds=round(r.time, 2), loops=[str(l) for l in r.loops][:12], inlined_callees=r.inlined, contracts_used=r.used, state='proved' if r.kind == 'ok' and all(o['res'] == 'proved' for o in r.obs) else (r.error or 'obligation failed')) for r in res],
        obligation_kinds={k: sum(o['kind'] == k for _, o in obs) for k in sorted({o['kind'] or '' for _, o in obs})},
        failed=[dict(unit=r.name, obligation=o['name'], at=o['loc'], result=o['res']) for r, o in obs if o['res'] != 'proved'],
        assumed_contracts=sorted({n for r in res for n in r.assumed} - set(IMPL)),
        interface_contracts=[dict(contract=n, proved_of=sorted(r.name for r in res if any(fnmatch.fnmatchcase(r.name, x) for x in IMPL[n]) and r.kind == 'ok'), assumed_of='classes of the user that implement the same interface') for n in sorted({n for r in res for n in r.assumed} & set(IMPL))],
        bounded_standins=bounded, drivers_not_built=[d.name for d in nodrv],
        evaluations=ev, distinct_nontrivial=di, rule=pd.get('rule', 'cases generated from the seed by the drivers (first an enumeration of small cases); non-trivial as counted by nontrivial() in the driver'),
        samples=[x for s in stats for x in s['samples']][:6], drivers=stats)
    d = dict(property=pid, tier=tier, seed=seed, level='proof' if proved or nviol else 'exploration', coverage=cov,
             assumptions=COMMON_ASSUME + list(pd.get('assumptions', [])), wall_s=round(wall, 2), violations=nviol)
    os.makedirs(f'{VERIF}/evidence', exist_ok=True)
    with open(f'{VERIF}/evidence/{pid}.json', 'w') as f: json.dump(d, f, indent=1, default=str)

if __name__ == '__main__': sys.exit(main())
