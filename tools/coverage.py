#!/usr/bin/env python3-vt
"""coverage.py: which functions of the library are under contract or executed in place by a function under contract (from the evidence of the last runs)"""
import sys, json, glob
sys.path.insert(0, '/verif'); sys.dont_write_bytecode = True
from cxv import ast
P = ast.load('core.cpp'); con, inl = set(), set()
for f in glob.glob('/verif/evidence/C*.json'):
    for u in json.load(open(f))['coverage']['functions']: con.add(u['function']); inl |= set(u['inlined_callees'])
short = lambda q: q.replace('cli::detail::', '').replace('cli::', '')
rows = {}
for f in P.funcs.values():
    if f.body is None or not f.qname.startswith('cli::'): continue
    q = f.qname; st = 'contract' if q in con or short(q) in con else 'inlined' if q in inl or short(q) in inl else '-'
    rows[q] = st
import re
fam = {}
for q, st in rows.items(): fam.setdefault(re.sub(r'<.*?>(?=::|$)', '<>', q), set()).add(st)
for q, st in sorted(fam.items()):
    if '-v' in sys.argv or st == {'-'}: print(q, sorted(st))
