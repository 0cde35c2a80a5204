"""Terms, the theory of finite sequences, and the solver back end of cxv.

Mathematical integers model machine integers (ranges and wrap-around are made explicit by engine.py).
Two sequence sorts: Str (sequences of Int: strings, vectors of pointers) and SS (sequences of Str).
The sequence theory is axiomatised with e-matching triggers (as in Dafny/Verus); every axiom below is a
theorem about finite sequences.
"""
import z3, time, os
from z3 import (Int, IntVal, Bool, BoolVal, And, Or, Not, Implies, If, ForAll, Exists, Function, DeclareSort,
                IntSort, BoolSort, Const, Array, Select, Store, ArraySort, is_int_value, is_true, is_false)

I = IntSort(); B = BoolSort()

class SeqTheory:
    def __init__(s, name, elem):
        s.name, s.elem = name, elem
        S = s.S = DeclareSort(name)
        f = lambda n, *a: Function(f'{n}_{name}', *a)
        s.Len = f('len', S, I); s.At = f('at', S, I, elem); s.Cat = f('cat', S, S, S)
        s.Unit = f('unit', elem, S); s.Emp = Const(f'emp_{name}', S); s.Sl = f('sl', S, I, I, S)
        s.Upd = f('upd', S, I, elem, S); s.Rep = f('rep', elem, I, S); s.Rev = f('rev', S, S)
        s.Eq = f('eqs', S, S, B); s.Diff = f('diff', S, S, I)
        s.Has = f('has', S, elem, B); s.Wit = f('wit', S, elem, I)
        s.axs = s._axioms()

    def _axioms(s):
        S, E = s.S, s.elem
        a, b = Const('a', S), Const('b', S); i, j, n = Int('i'), Int('j'), Int('n'); x = Const('x', E)
        L, At = s.Len, s.At
        def fa(vs, body, *pats): return ForAll(vs, body, patterns=[z3.MultiPattern(*p) if isinstance(p, tuple) else p for p in pats])
        return [
            fa([a], L(a) >= 0, L(a)),
            L(s.Emp) == 0,
            fa([a], Implies(L(a) == 0, a == s.Emp), L(a)),
            fa([x], And(L(s.Unit(x)) == 1, At(s.Unit(x), 0) == x), s.Unit(x)),
            fa([a, b], L(s.Cat(a, b)) == L(a) + L(b), s.Cat(a, b)),
            fa([a, b, i], Implies(And(0 <= i, i < L(a)), At(s.Cat(a, b), i) == At(a, i)), At(s.Cat(a, b), i)),
            fa([a, b, i], Implies(And(L(a) <= i, i < L(a) + L(b)), At(s.Cat(a, b), i) == At(b, i - L(a))), At(s.Cat(a, b), i)),
            fa([a, i, j], Implies(And(0 <= i, i <= j, j <= L(a)), L(s.Sl(a, i, j)) == j - i), s.Sl(a, i, j)),
            fa([a, i, j, n], Implies(And(0 <= i, i <= j, j <= L(a), 0 <= n, n < j - i), At(s.Sl(a, i, j), n) == At(a, n + i)), At(s.Sl(a, i, j), n)),
            fa([a, i, x], Implies(And(0 <= i, i < L(a)), And(L(s.Upd(a, i, x)) == L(a), At(s.Upd(a, i, x), i) == x)), s.Upd(a, i, x)),
            fa([a, i, x, n], Implies(And(0 <= i, i < L(a), 0 <= n, n < L(a), n != i), At(s.Upd(a, i, x), n) == At(a, n)), At(s.Upd(a, i, x), n)),
            fa([x, n], Implies(n >= 0, L(s.Rep(x, n)) == n), s.Rep(x, n)),
            fa([x, n, i], Implies(And(0 <= i, i < n), At(s.Rep(x, n), i) == x), At(s.Rep(x, n), i)),
            fa([a], L(s.Rev(a)) == L(a), s.Rev(a)),
            fa([a, i], Implies(And(0 <= i, i < L(a)), At(s.Rev(a), i) == At(a, L(a) - 1 - i)), At(s.Rev(a), i)),
            # extensionality
            fa([a, b], Implies(s.Eq(a, b), a == b), s.Eq(a, b)),
            fa([a, b], Implies(Not(s.Eq(a, b)), Or(L(a) != L(b), And(0 <= s.Diff(a, b), s.Diff(a, b) < L(a), At(a, s.Diff(a, b)) != At(b, s.Diff(a, b))))), s.Eq(a, b)),
            # membership
            fa([a, x], Implies(s.Has(a, x), And(0 <= s.Wit(a, x), s.Wit(a, x) < L(a), At(a, s.Wit(a, x)) == x)), s.Has(a, x)),
            fa([a, x, i], Implies(And(0 <= i, i < L(a), At(a, i) == x), s.Has(a, x)), (s.Has(a, x), At(a, i))),
        ]

STR = SeqTheory('Str', I)
SST = SeqTheory('SS', STR.S)
Str, SS = STR.S, SST.S
THEORIES = {Str.name(): STR, SS.name(): SST}

def th(t):
    n = t.sort().name()
    if n not in THEORIES: raise TypeError(f'not a sequence: {t} : {n}')
    return THEORIES[n]

def is_seq(t): return isinstance(t, z3.ExprRef) and t.sort().name() in THEORIES
def is_int(t): return isinstance(t, z3.ExprRef) and t.sort() == I
def is_bool(t): return isinstance(t, z3.ExprRef) and t.sort() == B

def num(t):
    """python int of a constant term, or None"""
    if isinstance(t, int): return t
    if is_int_value(t): return t.as_long()
    s = z3.simplify(t)
    return s.as_long() if is_int_value(s) else None

def simp(t): return z3.simplify(t)

_op = lambda t, f: t.num_args() > 0 and t.decl().eq(f)

def same(x, y): return x.eq(y) or simp(x).eq(simp(y))

def forall(vs, body, pats, any_=False):
    """a universal statement, triggered by the first of the patterns that is one (an `if` cannot be inside a pattern), or by any of them"""
    ok = []
    for p in pats:
        try: f = z3.ForAll(vs, body, patterns=[p])
        except z3.Z3Exception: continue
        if not any_: return f
        ok.append(p)
    return z3.ForAll(vs, body, patterns=ok[:4]) if ok else z3.ForAll(vs, body)
def slen(a):
    T = th(a)
    if a.eq(T.Emp): return IntVal(0)
    if _op(a, T.Unit): return IntVal(1)
    if _op(a, T.Cat): return addi(slen(a.arg(0)), slen(a.arg(1)))
    if _op(a, T.Upd): return slen(a.arg(0))     # element stores are proved in range where they are made
    if _op(a, T.Rev): return slen(a.arg(0))
    if a.get_id() in LIT_LEN: return IntVal(LIT_LEN[a.get_id()])
    return T.Len(a)

def addi(a, b):
    x, y = num_shallow(a), num_shallow(b)
    if x is not None and y is not None: return IntVal(x + y)
    if x == 0: return b
    if y == 0: return a
    return a + b
def num_shallow(t): return t if isinstance(t, int) else (t.as_long() if is_int_value(t) else None)

def at(a, i):
    T = th(a)
    i = z3.IntVal(i) if isinstance(i, int) else i
    if _op(a, T.Unit) and num(i) == 0: return a.arg(0)
    if _op(a, T.Upd) and same(a.arg(1), i): return a.arg(2)
    if _op(a, T.Cat):
        o = IntVal(0)
        for p in parts(a):
            if _op(p, T.Unit) and same(o, i): return p.arg(0)
            o = addi(o, slen(p))
    return T.At(a, i)

def parts(a):
    T = th(a)
    if a.eq(T.Emp): return []
    if _op(a, T.Cat): return parts(a.arg(0)) + parts(a.arg(1))
    return [a]

def cat(*xs):
    """right-nested, empties removed"""
    T = th(xs[0]); ps = []
    for x in xs: ps += parts(x)
    if not ps: return T.Emp
    r = ps[-1]
    for p in reversed(ps[:-1]): r = T.Cat(p, r)
    return r

def unit(x):
    T = SST if x.sort() == Str else STR
    return T.Unit(x)
def emp(sort): return THEORIES[sort.name()].Emp

def sl(a, i, j):
    T = th(a)
    i = IntVal(i) if isinstance(i, int) else i
    j = IntVal(j) if isinstance(j, int) else j
    ni, nj = num(i), num(j)
    if ni == 0 and (j.eq(slen(a)) or j.eq(T.Len(a)) or simp(j).eq(simp(slen(a)))): return a
    if ni is not None and ni == nj or i.eq(j): return T.Emp
    if _op(a, T.Cat):
        # cut at part boundaries when the indices are syntactically there
        ps = parts(a); offs = [IntVal(0)]
        for p in ps: offs.append(addi(offs[-1], slen(p)))
        lo = next((k for k, o in enumerate(offs) if same(o, i)), None)
        hi = next((k for k, o in enumerate(offs) if same(o, j)), None)
        if lo is not None and hi is not None and lo <= hi: return cat(T.Emp, *ps[lo:hi])
        if lo is not None and lo > 0: return sl(cat(T.Emp, *ps[lo:]), simp(i - offs[lo]), simp(j - offs[lo]))
        if hi is not None and hi < len(ps): return sl(cat(T.Emp, *ps[:hi]), i, j)
    return T.Sl(a, i, j)

def upd(a, i, x):
    T = th(a); i = IntVal(i) if isinstance(i, int) else i
    if _op(a, T.Upd) and same(a.arg(1), i): return T.Upd(a.arg(0), i, x)
    if _op(a, T.Cat):
        ps = parts(a); o = IntVal(0)
        for k, p in enumerate(ps):
            if _op(p, T.Unit) and same(o, i): return cat(*ps[:k], T.Unit(x), *ps[k + 1:])
            o = addi(o, slen(p))
    return T.Upd(a, i, x)
def rep(x, n):
    x = IntVal(x) if isinstance(x, int) else x
    T = SST if x.sort() == Str else STR
    n = IntVal(n) if isinstance(n, int) else n
    k = num(n)
    if k == 0: return T.Emp
    if k == 1: return T.Unit(x)
    return T.Rep(x, n)
def rev(a): return th(a).Rev(a)
def has(a, x): return th(a).Has(a, x)

def eq(a, b):
    """equality, extensional on sequences"""
    if isinstance(a, bool): a = BoolVal(a)
    if isinstance(b, bool): b = BoolVal(b)
    if isinstance(a, int): a = IntVal(a)
    if isinstance(b, int): b = IntVal(b)
    if a.eq(b): return BoolVal(True)
    if is_seq(a):
        T = th(a)
        # units and empties: direct
        pa, pb = parts(a), parts(b)
        while pa and pb and pa[0].eq(pb[0]): pa, pb = pa[1:], pb[1:]
        while pa and pb and pa[-1].eq(pb[-1]): pa, pb = pa[:-1], pb[:-1]
        if not pa and not pb: return BoolVal(True)
        if not pa or not pb:
            r = cat(*(pa or pb)); return slen(r) == 0
        a, b = cat(*pa), cat(*pb)
        if len(pa) == len(pb) == 1 and _op(a, T.Unit) and _op(b, T.Unit): return eq(a.arg(0), b.arg(0))
        return T.Eq(a, b)
    if is_bool(a) and is_true(a): return b
    if is_bool(b) and is_true(b): return a
    return a == b

def ite(c, a, b):
    if is_true(c): return a
    if is_false(c): return b
    if a.eq(b): return a
    return If(c, a, b)

# ---- string literals -------------------------------------------------------------------------
LITS = {}; LIT_LEN = {}
def lit(bs):
    """constant Str for a python bytes/str"""
    if isinstance(bs, str): bs = bs.encode('latin1')
    if len(bs) == 0: return STR.Emp
    if len(bs) == 1: return STR.Unit(IntVal(sc(bs[0])))
    if bs not in LITS:
        c = Const('lit_' + ''.join(chr(x) if chr(x).isalnum() else f'.{x:02x}' for x in bs), Str)
        ax = [STR.Len(c) == len(bs)] + [STR.At(c, i) == sc(x) for i, x in enumerate(bs)]
        LITS[bs] = (c, ax); LIT_LEN[c.get_id()] = len(bs)
    return LITS[bs][0]
def sc(x): return x - 256 if x >= 128 else x       # char is signed on this platform

_fresh = [0]
def fresh(name, sort):
    _fresh[0] += 1
    return Const(f'{name}!{_fresh[0]}', sort)

# ---- global axioms added by contracts (spec function definitions, proved lemmas) ----------------
def lit_axioms(): return [x for c, ax in LITS.values() for x in ax]

AXIOMS = STR.axs + SST.axs
EXTRA = []          # definitional axioms of spec functions

def strip_consts(fs): return fs

class Query:
    def __init__(s, hyps, goal, extra=()):
        s.hyps, s.goal, s.extra = list(hyps), goal, list(extra)

STATS = dict(queries=0, time=0.0)

def mk_solver(timeout_ms, seed=0, mode='ematch'):
    so = z3.Solver() if mode != 'simple' else z3.SimpleSolver()
    so.set('timeout', int(timeout_ms))
    if mode == 'ematch':
        so.set('auto_config', False); so.set('smt.mbqi', False) if False else None
        so.set('mbqi', False)
    so.set('random_seed', seed)
    return so

def prove(hyps, goal, timeout_ms=10000, extra=(), seed=0, mode='ematch', want_model=False):
    """'proved' | 'failed' (solver gave up: not entailed as far as it can tell) | 'timeout'"""
    if is_true(goal): return 'proved'
    t = time.time()
    so = mk_solver(timeout_ms, seed, mode)
    so.add(*AXIOMS); so.add(*lit_axioms()); so.add(*EXTRA); so.add(*extra)
    so.add(*hyps); so.add(Not(goal))
    r = so.check()
    STATS['queries'] += 1; STATS['time'] += time.time() - t
    if r == z3.unsat: return 'proved'
    if r == z3.sat: return 'failed'
    rs = so.reason_unknown()
    return 'timeout' if ('timeout' in rs or 'canceled' in rs or 'memout' in rs) else 'failed'

def feasible(hyps, timeout_ms=300):
    """False only when the hypotheses are refuted"""
    t = time.time()
    so = mk_solver(timeout_ms)
    so.add(*AXIOMS); so.add(*lit_axioms()); so.add(*EXTRA); so.add(*hyps)
    r = so.check()
    STATS['queries'] += 1; STATS['time'] += time.time() - t
    return r != z3.unsat
