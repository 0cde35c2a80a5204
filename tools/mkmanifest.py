#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V); sys.dont_write_bytecode = True
from checks.props import PROPS, TITLES, NA
m = dict(version=1, setup_cmd='true', hooks=dict(guard='none', enable='no hooks are needed: the verifier reads the headers as they are', source_commits=[]), checks=[], not_applicable=[])
for k in sorted(TITLES):
    if k in PROPS:
        p = PROPS[k]
        m['checks'].append(dict(property=k, quick_cmd=f'checks/run {k}', thorough_cmd=f'checks/run {k} --tier thorough',
            technique='contract-based deductive verification of the real C++ (contracts on the functions in /repo, verification conditions generated from clang\'s AST on every run, discharged by z3); failed obligations replayed by a concrete driver',
            level='proof', level_note=p.get('note', 'Proved for all inputs from the current source, function by function, relative to the axiomatised standard library; the drivers only look for a failing input of a failed obligation and cross-check the axioms.')))
    else: m['not_applicable'].append(dict(property=k, reason=NA.get(k, 'not yet claimed: the contracts for this part are under construction')))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
