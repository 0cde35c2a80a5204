#!/usr/bin/env python3
"""Prints the axioms of the finite-sequence theory (cxv/logic.py) as Lean propositions over List, mechanically from the z3 terms,
between lean/Prelude.lean (the model: lists) and lean/Proofs.lean (one theorem per axiom).  With --check Lean is run on it:
exit 0 if every axiom is proved."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); sys.dont_write_bytecode = True
import z3
from cxv import logic as L
T = L.STR
def names(t):
    return {t.Len.name(): 'len', t.At.name(): 'att', t.Cat.name(): 'cat', t.Unit.name(): 'unit', t.Emp.decl().name(): 'emp', t.Sl.name(): 'sl', t.Upd.name(): 'upd', t.Rep.name(): 'rep', t.Rev.name(): 'rev', t.Eq.name(): 'eqs', t.Diff.name(): 'diff', t.Has.name(): 'has', t.Wit.name(): 'wit'}
def sort(s, t): return 'Int' if s == z3.IntSort() and not (t is L.STR and False) else 'List E' if s == t.S else 'E'
def lean(x, env, nm, t):
    if z3.is_var(x): return env[len(env) - 1 - z3.get_var_index(x)]
    if z3.is_quantifier(x):
        vs = [x.var_name(i) for i in range(x.num_vars())]
        return '(∀ ' + ' '.join(f'({v} : {sort(x.var_sort(i), t)})' for i, v in enumerate(vs)) + ', ' + lean(x.body(), env + vs, nm, t) + ')'
    if z3.is_int_value(x): return f'({x.as_long()} : Int)'
    k = x.decl().kind(); a = [lean(c, env, nm, t) for c in x.children()]
    ops = {z3.Z3_OP_AND: ' ∧ ', z3.Z3_OP_OR: ' ∨ ', z3.Z3_OP_IMPLIES: ' → ', z3.Z3_OP_EQ: ' = ', z3.Z3_OP_LE: ' ≤ ', z3.Z3_OP_LT: ' < ', z3.Z3_OP_GE: ' ≥ ', z3.Z3_OP_GT: ' > ', z3.Z3_OP_ADD: ' + ', z3.Z3_OP_SUB: ' - ', z3.Z3_OP_IFF: ' ↔ '}
    if k in ops: return '(' + ops[k].join(a) + ')'
    if k == z3.Z3_OP_NOT: return f'(¬ {a[0]})'
    if k == z3.Z3_OP_DISTINCT: return f'({a[0]} ≠ {a[1]})'
    n = nm.get(x.decl().name())
    if n: return '(' + ' '.join([n] + a) + ')' if a else '(emp : List E)'
    raise SystemExit(f'axioms.py: not translated: {x.decl()}')
def props(t):
    """one proposition per axiom; the elements of Str are Int, those of SS are Str: E stands for both (the axioms do not look inside)"""
    out = []
    for ax in t.axs:
        out.append(lean(ax, [], names(t), t))
    return out
if __name__ == '__main__':
    # the two theories must be the same up to the sort of the elements: print SS's (its element sort is distinct from Int) and compare shapes
    p, q = props(L.STR), props(L.SST)
    norm = lambda s: s.replace(': E)', ': Int)')
    if [norm(x) for x in p] != [norm(x) for x in q]: raise SystemExit('the two sequence theories differ')
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lean')
    text = open(d + '/Prelude.lean').read() + ''.join(f'def Ax{i} (E : Type) [Inhabited E] : Prop := {x}\n' for i, x in enumerate(q)) + open(d + '/Proofs.lean').read()
    text += 'set_option linter.all false\n' + ''.join(f'example (E : Type) [Inhabited E] : Ax{i} E := p{i} E\n#print axioms p{i}\n' for i in range(len(q)))
    if '--check' not in sys.argv: print(text); sys.exit(0)
    import subprocess, tempfile
    with tempfile.TemporaryDirectory(prefix='cxv_lean_') as tmp:
        open(tmp + '/Axioms.lean', 'w').write(text)
        r = subprocess.run(['lean', 'Axioms.lean'], cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=200)
    ok = r.returncode == 0 and 'error' not in r.stdout and 'sorry' not in r.stdout
    print(f'{len(q)} axioms proved by Lean' if ok else r.stdout)
    sys.exit(0 if ok else 1)
