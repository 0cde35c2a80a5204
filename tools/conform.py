#!/usr/bin/env python3
"""Conformance of the verifier: every function of cxv/conform/conform.cpp is compiled and run, and executed symbolically; the verifier's
result must be the real one.  WRONG = the verifier derives something else (unsound); weak = it cannot derive it (incomplete, harmless)."""
import sys, os, re, subprocess, tempfile, concurrent.futures as cf, multiprocessing as mp
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V); sys.dont_write_bytecode = True
from cxv import ast, logic as L
from cxv.verify import *
SRC = V + '/cxv/conform/conform.cpp'
ARGS = {'int': [-3, 0, 1, 2, 3, 4, 5, 9], 'char': [97, 98, 99]}
def functions():
    return [(m.group(2), m.group(1).strip(), m.group(3)) for m in re.finditer(r'^inline ([\w:<> ]+?) (\w+)\(([^)]*)\)', open(SRC).read(), re.M)]
def real(fs):
    with tempfile.TemporaryDirectory(prefix='cxv_conf_') as d:
        t = ['#include "%s"' % SRC, '#include <cstdio>', 'static void p(const std::string& s) { for (unsigned char c : s) std::printf("%02x", c); }',
             'static void out(const std::string& s) { std::printf("s "); p(s); }', 'static void out(const std::vector<std::string>& v) { std::printf("v %zu", v.size()); for (auto& x : v) { std::printf(" ."); p(x); } }',
             'template <class T> void out(T x) { std::printf("i %s", std::to_string(x).c_str()); }', 'int main() {']
        for n, r, a in fs:
            for v in (ARGS[a.split()[0]] if a else [None]):
                t.append(f'std::printf("{n} {v} "); out(cli::conf::{n}({"" if v is None else v})); std::puts("");')
        open(d + '/m.cpp', 'w').write('\n'.join(t + ['}']))
        subprocess.run(['g++', '-std=c++14', '-w', '-o', d + '/m', d + '/m.cpp'], check=True)
        out = subprocess.run([d + '/m'], stdout=subprocess.PIPE, text=True, check=True).stdout
    res = []
    for l in out.splitlines():
        n, v, k, *w = l.split(' ')
        x = bytes.fromhex(w[0] if w else '') if k == 's' else int(w[0]) if k == 'i' else [bytes.fromhex(y[1:]) for y in w[1:]]
        res.append((n, None if v == 'None' else int(v), x))
    return res
class Conf(Spec):
    frame_any = True
    def setup(s, c):
        if s.v is not None: c.e.assume(c.arg(0) == s.v)
    def post(s, c):
        x = s.x
        if isinstance(x, list):
            w = L.SST.Emp if not x else L.cat(*[L.unit(lit(y)) for y in x])
            g = eq(c.ret, w)
            ps = L.parts(c.ret)
            if len(ps) == len(x) and all(p.num_args() == 1 and p.decl().eq(L.SST.Unit) for p in ps): g = And(*[eq(p.arg(0), lit(y) if y else L.STR.Emp) for p, y in zip(ps, x)])
        elif isinstance(x, bytes): g = eq(c.ret, lit(x) if x else L.STR.Emp)
        else:
            r = c.ret
            g = r == BoolVal(bool(x)) if r.sort() == B else r == x
        if c.e.entails(BoolVal(False)) != 'proved': s.paths[0] += 1; s.wrong += [str(z3.simplify(c.ret))[:120]] if c.e.entails(Not(g)) == 'proved' else []
        return [('the value is the real one', g)]
def one(t):
    n, v, x = t
    s = Conf(qname='cli::conf::' + n, v=v, x=x, wrong=[], paths=[0]); u = FnUnit(s)
    r = run_unit(u, ast.load(SRC), 60)
    bad = [o for o in r.obs if o['res'] != 'proved']
    st = 'WRONG ' + str(s.wrong) if (s.wrong and len(s.wrong) == s.paths[0]) or (r.kind == 'ok' and not r.live) else 'unsupported ' + str(r.error) if r.kind != 'ok' else 'weak ' + bad[0]['name'] if bad else 'ok'
    return n, v, x, st
if __name__ == '__main__':
    fs = functions(); rs = real(fs); sel = sys.argv[1:]
    if sel: rs = [r for r in rs if any(x in r[0] for x in sel)]
    ast.load(SRC); cnt = {}
    with cf.ProcessPoolExecutor(8, mp_context=mp.get_context('fork')) as ex:
        for n, v, x, st in ex.map(one, rs):
            k = st.split(' ')[0]; cnt[k] = cnt.get(k, 0) + 1
            if k != 'ok': print(n, '' if v is None else v, x, st)
    print(cnt)
    sys.exit(1 if 'WRONG' in cnt else 0)
