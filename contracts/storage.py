"""C10: the history storages: a storage holds the newest N of the lines stored since it was last cleared, in order."""
from cxv.verify import *
from cxv import logic as L
from contracts.history import take, rev, LIM
from cxv.stl import NLIdx, fsel

V = 'cli::VolatileHistoryStorage'; FS = 'cli::FileHistoryStorage'
NL = unit(IntVal(10))
Join = Function('join_lines', SS, Str)          # text of a sequence of lines, each ended by a newline
Lines = Function('lines_of', Str, SS)           # the lines of a text
L.EXTRA.append(Lines(STR.Emp) == SST.Emp)
_a, _b = Const('a', SS), Const('b', SS)          # equal sequences of lines have equal texts (makes the solver try extensionality)
L.EXTRA.append(ForAll([_a, _b], Implies(SST.Eq(_a, _b), Join(_a) == Join(_b)), patterns=[z3.MultiPattern(Join(_a), Join(_b))]))
def DefJoin0(): return Join(SST.Emp) == STR.Emp
def DefJoin(v, x): return Join(cat(v, unit(x))) == cat(Join(v), x, NL)
def DefLines(t):
    n = NLIdx(t)
    return And(Implies(slen(t) == 0, Lines(t) == SST.Emp),
               Implies(And(slen(t) > 0, n == slen(t)), Lines(t) == unit(t)),
               Implies(And(slen(t) > 0, n < slen(t)), Lines(t) == cat(unit(sl(t, IntVal(0), n)), Lines(sl(t, n + 1, slen(t))))))
def nonl(x):
    i = Int('i!nl'); return ForAll([i], Implies(And(0 <= i, i < slen(x)), L.STR.At(x, i) != 10), patterns=[L.STR.At(x, i)])
def allnonl(v):
    """no line holds a newline character"""
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE: return And(Implies(v.arg(0), allnonl(v.arg(1))), Implies(Not(v.arg(0)), allnonl(v.arg(2))))
    j = Int('j!v')
    return ForAll([j], Implies(And(0 <= j, j < slen(v)), NLIdx(L.SST.At(v, j)) == slen(L.SST.At(v, j))), patterns=[L.SST.At(v, j)])
def lastn(v, n): return If(slen(v) > n, sl(v, slen(v) - n, slen(v)), v)

# ---------------------------------------------------------------- in memory
def fits(c): return slen(c.F('commands')) <= c.F('maxSize')
def window(e, n, entry, mods, rangelv, idx):
    """the newest lines so far, kept at every step"""
    c0 = getattr(e, 'unitctx', None)
    if c0 is None or not isinstance(c0.spec, VStore): return []
    rl = e.loop_range(n, entry, mods, rangelv)
    if rl is None: return []
    def newest(lc):
        r = e.val(rl)
        if r.sort() != SS: raise Inapplicable()
        return eq(c0.F('commands'), lastn(cat(c0.O('commands'), sl(r, IntVal(0), lc.k)), c0.O('maxSize')))
    return [('the newest lines so far', newest)]
class VStore(Spec):
    qname = V + '::Store'; loops = [window]
    def pre(s, c): return [('it holds at most its size (class invariant)', fits(c))]
    def frame(s, c): return [c.lv('commands')]
    def post(s, c): return [('it holds at most its size', fits(c)), Set('the newest lines of what it held and what is stored, in order', c.lv('commands'), lastn(cat(c.O('commands'), c.oarg(0)), c.O('maxSize')))]
class VCommands(Spec):
    qname = V + '::Commands'
    def post(s, c): return [('the lines it holds, in order', eq(c.ret, c.O('commands')))]
class VClear(Spec):
    qname = V + '::Clear'
    def frame(s, c): return [c.lv('commands')]
    def post(s, c): return [Set('holds nothing', c.lv('commands'), SST.Emp)]
class VCtor(Spec):
    qname = V + '::VolatileHistoryStorage'; frame_any = True
    def post(s, c): return [('it holds at most its size', fits(c)), ('holds nothing', slen(c.F('commands')) == 0), ('its size', c.F('maxSize') == c.oarg(0))]

# ---------------------------------------------------------------- in a file
GF = ArraySort(Str, Str); GE = ArraySort(Str, B)
def files(c): return c.e.gget('files', GF)
def exists(c): return c.e.gget('exists', GE)
def content(c, nm): return fsel(files(c), nm)
def held(c, nm): return Lines(content(c, nm)) if c.e.choose(Select(exists(c), nm)) else SST.Emp
class FSpec(Spec):
    frame_any = False
    def setup(s, c): files(c); exists(c)
    def nm(s, c): return c.O('fileName')
    def others(s, c):
        e = c.e; f = Const('other!', Str); f1, f0 = files(c), c.old(lambda: files(c)); e1, e0 = exists(c), c.old(lambda: exists(c))
        return [('no other file is touched', Implies(f != s.nm(c), And(Select(f1, f) == Select(f0, f), Select(e1, f) == Select(e0, f))))]
class FCommands(FSpec):
    qname = FS + '::Commands'
    def post(s, c):
        return [('the lines of the file, in order; nothing if there is no file', eq(c.ret, c.old(lambda: held(c, s.nm(c))))), ('no line holds a newline', allnonl(c.ret)),
                ('no file is touched', And(files(c) == c.old(lambda: files(c)), exists(c) == c.old(lambda: exists(c))))]
def read_loop(e, n, entry, mods, rangelv, idx):
    c0 = getattr(e, 'unitctx', None)
    if c0 is None or not isinstance(c0.spec, FCommands): return []
    cm = local(e, is_vec, 'the lines read'); r = e.stream_ref(local(e, is_in, 'the file')); txt = lambda: c0.old(lambda: content(c0, c0.spec.nm(c0)))
    def rem(lc):
        rm = e.in_rem(r); lc.hints += [DefLines(rm)]
        if lc.prev is not None: pass
        return Implies(And(Not(e.in_fail(r))), eq(cat(e.val(cm), Lines(rm)), Lines(txt())))
    return [('the lines read and the lines of the rest are the lines of the file', rem), ('once reading fails all lines are read', lambda lc: Implies(e.in_fail(r), eq(e.val(cm), Lines(txt())))),
            ('at its end nothing is left', lambda lc: Implies(e.in_eof(r), slen(e.in_rem(r)) == 0)), ('no line read holds a newline', lambda lc: allnonl(e.val(cm)))]
def local(e, ok, what):
    """the local variable of that type, in the innermost function that has one"""
    for f in reversed(e.frames):
        for v in reversed(list(f.env.values())):
            if isinstance(v, LV) and getattr(v, 't', None) is not None and ok(v): return v
    raise BindError(f'no local variable: {what}')
def is_vec(v): return isinstance(v, LVar) and sort_of(v.t) == SS
def is_in(v): return isinstance(v, LObj) and v.t.k == 'stream' and 'ifstream' in v.t.name
class FStore(FSpec):
    qname = FS + '::Store'; frame_any = True
    def pre(s, c): return [('the lines hold no newline', allnonl(c.arg(0)))]
    def post(s, c):
        nm = s.nm(c); o = c.old(lambda: held(c, nm)); w = lastn(cat(o, c.oarg(0)), c.O('maxSize'))
        return [('the file exists', Select(exists(c), nm)), ('it holds the newest lines of what it held and what is stored, in order, each ended by a newline', eq(content(c, nm), Join(w))), ('no line holds a newline', allnonl(w))] + s.others(c)
def write_loop(e, n, entry, mods, rangelv, idx):
    c0 = getattr(e, 'unitctx', None)
    if c0 is None or not isinstance(c0.spec, FStore): return []
    rangelv = e.loop_range(n, entry, mods, rangelv)
    if rangelv is None or e.val(rangelv).sort() != SS: return []
    nm = c0.spec.nm(c0)
    def written(st):
        def f(lc):
            v = e.val(rangelv); lc.hints += [DefJoin0()]; at_ = lambda k: addi(st, k)
            if lc.prev is not None:
                k = at_(lc.prev.k); lc.hints += [DefJoin(sl(v, st, k), at(v, k)), Implies(And(k >= st, k < slen(v)), eq(sl(v, st, k + 1), cat(sl(v, st, k), unit(at(v, k)))))]
            return eq(content(c0, nm), Join(sl(v, st, at_(lc.k))))
        return f
    return [('the lines written so far' + (f' from {x.split("@")[0]}' if x else ''), written(st)) for x, st in e.starts(entry, mods, idx)] + [('the file is there', lambda lc: Select(exists(c0), nm)), ('no other file is touched', lambda lc: c0.spec.others(c0)[0][1])]
class FClear(FSpec):
    qname = FS + '::Clear'; frame_any = True
    def post(s, c): return [('the file is empty', slen(content(c, s.nm(c))) == 0), ('and there', Select(exists(c), s.nm(c)))] + s.others(c)
class FCtor(FSpec):
    qname = FS + '::FileHistoryStorage'; frame_any = True
    def nm(s, c): return c.oarg(0)
    def post(s, c): return [('on the file given', eq(c.F('fileName'), c.oarg(0))), ('its size', c.F('maxSize') == c.oarg(1)), ('no file is touched', And(files(c) == c.old(lambda: files(c)), exists(c) == c.old(lambda: exists(c))))]

# ---------------------------------------------------------------- lemmas over the specification
def roundtrip(e):
    v, x, r, w, m = Const('v', SS), Const('x', Str), Const('r', Str), Const('w', SS), Int('m')
    text = lambda v, r: cat(Join(v), r)
    P = lambda v, r: eq(cat(v, Lines(r)), Lines(text(v, r)))
    t = cat(x, NL, r); j0 = eq(L.STR.Cat(Join(SST.Emp), r), r)
    yield 'no lines have no text', [DefJoin0()], j0
    yield 'the lines of no lines and a text are the lines of the text', [L.STR.Cat(Join(SST.Emp), r) == r], P(SST.Emp, r)
    # the first newline of a line followed by a newline is that one
    n = NLIdx(t)
    yield 'there is a newline after the line', [], And(L.STR.At(t, slen(x)) == 10, slen(x) < slen(t))
    yield 'not earlier', [NLIdx(x) == slen(x), n < slen(x), L.STR.At(t, n) == L.STR.At(x, n)], BoolVal(False)
    yield 'a character of the line is one of the text', [0 <= m, m < slen(x)], L.STR.At(t, m) == L.STR.At(x, m)
    yield 'not later', [L.STR.At(t, slen(x)) == 10, n > slen(x)], BoolVal(False)
    line, rest = sl(t, IntVal(0), slen(x)), sl(t, slen(x) + 1, slen(t))
    yield 'the text up to it is the line', [], eq(L.STR.Sl(t, IntVal(0), slen(x)), x)
    yield 'the text after it is the rest', [], eq(L.STR.Sl(t, slen(x) + 1, slen(t)), r)
    yield 'a line and a newline in front of a text are one more line', [n == slen(x), DefLines(t), slen(x) < slen(t), L.STR.Sl(t, IntVal(0), n) == x, L.STR.Sl(t, n + 1, slen(t)) == r], eq(Lines(t), cat(unit(x), Lines(r)))
    # induction on the number of lines: hypothesis for v and the longer text
    vx = cat(v, unit(x)); same = eq(L.STR.Cat(Join(vx), r), text(v, t))
    yield 'the text of one more line', [DefJoin(v, x)], same
    yield 'lines written and read back are the same lines', [L.STR.Cat(Join(vx), r) == text(v, t), P(v, t), Lines(t) == cat(unit(x), Lines(r))], eq(L.SST.Cat(vx, Lines(r)), Lines(L.STR.Cat(Join(vx), r)))
    yield 'a file written with lines without newlines has those lines', [P(w, STR.Emp), DefLines(STR.Emp)], eq(Lines(Join(w)), w)
def newest(e):
    a, b, n = Const('a', SS), Const('b', SS), Int('n')
    yield 'the newest of the newest are the newest', [n >= 0], eq(lastn(cat(lastn(a, n), b), n), lastn(cat(a, b), n))
    yield 'at most n lines are held', [n >= 0], slen(lastn(a, n)) <= n

units = [LemmaUnit('storage: lines round trip', roundtrip), LemmaUnit('storage: newest lines', newest)]
units += [FnUnit(x, [FCommands()], loops=[read_loop, write_loop]) for x in (VStore(), VCommands(), VClear(), VCtor(), FCommands(), FStore(), FClear(), FCtor())]

# ---------------------------------------------------------------- the session's side
from contracts import history
CS = 'cli::CliSession'
class SPrev(history.Previous):
    """the session shows the lines its history shows"""
    qname = CS + '::PreviousCmd'
    def href(s, c): return c.R('history')
class SNext(history.Next):
    qname = CS + '::NextCmd'
    def href(s, c): return c.R('history')
class CliCtor(Spec):
    """the cli keeps the storage and the root menu it is given"""
    qname = 'cli::Cli::Cli'; frame_any = True; nparams = 2
    def post(s, c):
        return [('the storage given', c.F('globalHistoryStorage') == c.oarg(1)), ('the root menu given', c.F('rootMenu') == c.oarg(0)), ('no actions and no handlers', And(*[c.F(x) == 0 for x in ('enterAction', 'exitAction', 'exceptionHandler', 'wrongCmdHandler')]))]
class StC(Spec):
    qname = 'cli::HistoryStorage::Commands'
    def effects(s, e, c): e.event('commands', c.this, c.ret)
class StS(Spec):
    qname = 'cli::HistoryStorage::Store'
    def effects(s, e, c): e.event('store', c.this, c.arg(0))
class CliStore(Spec):
    qname = 'cli::Cli::StoreCommands'; frame_any = True
    def pre(s, c): return [('the cli has a storage', c.F('globalHistoryStorage') != 0)]
    def post(s, c):
        ev = c.events()
        if len(ev) != 1 or ev[0][0] != 'store': return [('it stores once', BoolVal(False))]
        return [('in the storage of the cli', ev[0][1][0] == c.O('globalHistoryStorage')), ('exactly these lines', eq(ev[0][1][1], c.oarg(0)))]
class CliGet(Spec):
    qname = 'cli::Cli::GetCommands'; frame_any = True
    def pre(s, c): return [('the cli has a storage', c.F('globalHistoryStorage') != 0)]
    def post(s, c):
        ev = c.events()
        if len(ev) != 1 or ev[0][0] != 'commands': return [('it asks once', BoolVal(False))]
        return [('the storage of the cli', ev[0][1][0] == c.O('globalHistoryStorage')), ('exactly its lines', eq(ev[0][1][1], c.ret))]
units += [FnUnit(SPrev(), [history.specs['prev']]), FnUnit(SNext(), [history.specs['next']]), FnUnit(CliCtor(), []), FnUnit(CliStore(), [StC(), StS()]), FnUnit(CliGet(), [StC(), StS()])]
