"""C01: split() against the documented grammar, given as an automaton over the characters of the line."""
from cxv.verify import *
from cxv import stl

# --- specification: mode after k characters (0 between words, 1 in a word, 2/3 in a "…" or '…' word,
#     4/5/6 after a backslash in 1/2/3) and the words so far (possibly empty ones)
Mode = Function('tk_mode', Str, I, I)
Out = Function('tk_out', Str, I, SS)
NonEmpty = Function('nonempty', SS, SS)
Toks = lambda s: NonEmpty(Out(s, slen(s)))

def back_app(o, c):
    n = slen(o)
    return upd(o, n - 1, cat(at(o, n - 1), c))
def step(m, o, c):
    blank = Or(c == 32, c == 9, c == 10); dq, sq, bs, ex = c == 34, c == 39, c == 92, c == 33
    special = Or(dq, sq, bs)
    push = cat(o, unit(unit(c))); opn = cat(o, unit(STR.Emp))
    mode = If(m >= 4, m - 3,
           If(m <= 1, If(blank, 0, If(dq, 2, If(sq, 3, If(bs, 4, If(ex, 0, 1))))),
              If(And(m == 2, dq), 0, If(And(m == 3, sq), 0, If(bs, m + 3, m)))))
    out = If(m >= 4, If(special, back_app(o, unit(c)), back_app(o, cat(unit(IntVal(92)), unit(c)))),
          If(m == 0, If(blank, o, If(Or(dq, sq, bs), opn, push)),
          If(m == 1, If(blank, o, If(Or(dq, sq), opn, If(bs, o, If(ex, push, back_app(o, unit(c)))))),
             If(Or(And(m == 2, dq), And(m == 3, sq), bs), o, back_app(o, unit(c))))))
    return mode, out
def Def(s, k):
    """definition of Mode/Out at k -> k+1"""
    m, o, c = Mode(s, k), Out(s, k), at(s, k)
    m2, o2 = step(m, o, c)
    return And(Mode(s, k + 1) == m2, eq(Out(s, k + 1), o2))
def Def0(s): return And(Mode(s, IntVal(0)) == 0, Out(s, IntVal(0)) == SST.Emp)

stl.StlMixin.filters.append(('remove empty words', lambda x: slen(x) == 0, NonEmpty))

class SplitInto(Spec):
    qname = 'cli::detail::Text::SplitInto'
    def frame(s, c):
        return [c.vals[0]] + [c.lv(x) for x in ('state', 'prev_state', 'sentence_type', 'splitResult')]
    def post(s, c): return [Set('words are those of the grammar', c.vals[0], Toks(c.O('input')))]

def rel(c, this, k):
    """representation: lexer fields stand for Mode and Out of the prefix of length k"""
    e = c.e; cls = 'cli::detail::Text'
    st, ps, qt, out, inp = [e.val(e.F(x, this, cls)) for x in ('state', 'prev_state', 'sentence_type', 'splitResult', 'input')]
    ctx = e.unitctx
    S = {x: ctx.enum('Text::State', x) for x in ('space', 'word', 'sentence', 'escape')}
    dq = ctx.enum('Text::SentenceType', 'double_quote')
    m = Mode(inp, k)
    sent = If(qt == dq, IntVal(2), IntVal(3))
    return [('mode', m == If(st == S['space'], 0, If(st == S['word'], 1, If(st == S['sentence'], sent, If(ps == S['word'], 4, sent + 3))))),
            ('a saved mode is word or quoted', Implies(st == S['escape'], Or(ps == S['word'], ps == S['sentence']))),
            ('words', eq(out, Out(inp, k))),
            ('word open', Implies(m != 0, slen(Out(inp, k)) > 0))]

from cxv.engine import Inapplicable
def kept(e, n, entry, mods, rangelv, idx):
    """a loop over words that copies those it keeps: the non-empty ones"""
    rl = e.loop_range(n, entry, mods, rangelv); out = []
    if rl is None: return out
    def was(c):         # the words before the loop (those passed may have been moved from)
        st, c.e.st = c.e.st, c.entry.copy()
        try: return c.e.val(rl)
        finally: c.e.st = st
    def steps(c, r):
        c.hints += [NonEmpty(SST.Emp) == SST.Emp, Implies(c.k == slen(r), sl(r, IntVal(0), c.k) == r)]
        if c.prev is not None: k = c.prev.k; c.hints += [DefNE(sl(r, IntVal(0), k), at(r, k)), eq(sl(r, IntVal(0), k + 1), cat(sl(r, IntVal(0), k), unit(at(r, k))))]
    for x in sorted(m[1] for m in mods if m[0] == 'cell' and isinstance(entry.cells.get(m[1]), IterV)):
        def g(c, x=x):  # words are removed from the list itself
            r, r0, it = c.e.val(rl), was(c), c.cell(x).idx
            if r.sort() != SS: raise Inapplicable()
            steps(c, r0); kept_ = NonEmpty(sl(r0, IntVal(0), c.k))
            return And(c.k <= slen(r0), it == slen(kept_), slen(r) - it == slen(r0) - c.k, eq(r, cat(kept_, sl(r0, c.k, slen(r0)))))
        out.append((f'up to {x.split("@")[0]}, the words that are not empty; then those not yet looked at', g))
    for x in sorted(m[1] for m in mods if m[0] == 'cell' and isinstance(entry.cells.get(m[1]), z3.ExprRef) and entry.cells[m[1]].sort() == SS):
        def f(c, x=x):
            r = was(c)
            if r.sort() != SS: raise Inapplicable()
            steps(c, r)
            return eq(c.cell(x), cat(c.entry.cells[x], NonEmpty(sl(r, IntVal(0), c.k))))
        out.append((f'{x.split("@")[0]} = the words passed that are not empty', f))
    return out
def loop(e, n, entry, mods, rangelv, idx):
    if not any(m[0] == 'heap' and m[1][1] in ('state', 'splitResult') for m in mods): return []
    this = e.frames[-1].this
    out = []
    def mk(i):
        def f(c):
            inp = e.val(e.F('input', this, 'cli::detail::Text'))
            c.hints += [Def0(inp)]
            if c.prev is not None: c.hints += [Def(inp, c.prev.k)]
            k = e.val(idx) if idx is not None else c.k
            return rel(c, this, k)[i][1]
        return f
    return [(nm, mk(i)) for i, nm in enumerate(('mode', 'saved mode', 'words', 'word open'))]

class Split(Spec):
    qname = 'cli::detail::split'
    def frame(s, c): return [c.vals[0]]
    def post(s, c): return [Set('words are those of the grammar', c.vals[0], Toks(c.oarg(1)))]

# ---------------------------------------------------------------- consequences of the grammar (over the specification only)
def DefNE(o, x): return And(NonEmpty(SST.Emp) == SST.Emp, eq(NonEmpty(cat(o, unit(x))), cat(NonEmpty(o), If(slen(x) == 0, SST.Emp, unit(x)))))
def roundtrip(e):
    """s is the text t in quotes q with its quotes and backslashes escaped: P(k) is where the k-th character of t stands in s"""
    s, t, q, k = Const('s', Str), Const('t', Str), Int('q'), Int('k'); P = Function('pos', I, I); n = slen(t)
    special = lambda c: Or(c == 34, c == 39, c == 92)
    m = If(q == 34, IntVal(2), IntVal(3))
    quoted = [Or(q == 34, q == 39), at(s, 0) == q, P(IntVal(0)) == 1, at(s, P(n)) == q, slen(s) == P(n) + 1]
    here = [0 <= k, k < n, P(k + 1) == P(k) + If(special(at(t, k)), IntVal(2), IntVal(1)),
            at(s, P(k)) == If(special(at(t, k)), IntVal(92), at(t, k)), Implies(special(at(t, k)), at(s, P(k) + 1) == at(t, k))]
    inv = lambda j: And(Mode(s, P(j)) == m, eq(Out(s, P(j)), unit(sl(t, IntVal(0), j))))
    yield 'the opening quote starts one word', quoted + [Def0(s), Def(s, IntVal(0))], And(Mode(s, IntVal(1)) == m, eq(Out(s, IntVal(1)), unit(STR.Emp)))
    yield 'each character of the text is appended to it', quoted + here + [Def(s, P(k)), Def(s, P(k) + 1), inv(k), eq(sl(t, IntVal(0), k + 1), cat(sl(t, IntVal(0), k), unit(at(t, k))))], inv(k + 1)
    yield 'the closing quote ends it and the only word is the text', quoted + [Def(s, P(n)), inv(n), DefNE(SST.Emp, t), slen(t) > 0], eq(Toks(s), unit(t))
def noempty(e):
    o, x, i = Const('o', SS), Const('x', Str), Int('i')
    yield 'no word is empty', [DefNE(o, x), Implies(And(0 <= i, i < slen(NonEmpty(o))), slen(at(NonEmpty(o), i)) > 0), 0 <= i, i < slen(NonEmpty(cat(o, unit(x))))], slen(at(NonEmpty(cat(o, unit(x))), i)) > 0

units = [LemmaUnit('quoting round trip', roundtrip), LemmaUnit('words are not empty', noempty), FnUnit(SplitInto(), loops=[loop, kept]), FnUnit(Split(), contracts=[SplitInto()])]
