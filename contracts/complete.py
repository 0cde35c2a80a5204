"""C13: completions.

Comp(c, l): the completions entry c offers for the typed text l.  For the library's own classes it is defined here, over the
tree as it is; a command of another class defines it by what its GetCompletionRecursive returns.  CompP(m, l): the same for a
parent menu, which can also be named "..".
"""
from cxv.verify import *
from cxv import logic as L
from contracts import dispatch
from contracts.dispatch import CMD, MENU, SES
from contracts.help import entries
from contracts.menu import nonnull
from cxv.stl import SortS, UniqS, prefix_of

STR, SST = L.STR, L.SST
Comp = Function('comp', I, Str, SS)
CompP = Function('comp_parent', I, Str, SS)
MenuC = Function('comp_menu', I, Str, SS)                     # of what a menu holds and its parent
LC = Function('comp_of_entries', Str, I, Str, SS)            # of the first k entries, one after the other
Pre = Function('prefixed', Str, SS, I, SS)                   # name, space, completion: for the first k completions
PLC = Function('prefixed_of_entries', Str, Str, I, Str, SS)  # the completions of the first k entries, each after the name
Lead = Function('leading_blanks', Str, I)
_c, _k, _a, _b, _v, _p = Int('c'), Int('k'), Const('a', Str), Const('b', Str), Const('v', Str), Const('p', Str); _w, _x = Const('w', SS), Const('x', SS)
def cong(vs, eqn, f, g): L.EXTRA.append(ForAll(vs, Implies(eqn, f == g), patterns=[z3.MultiPattern(f, g)]))
for F1 in (Comp, CompP, MenuC): cong([_c, _a, _b], STR.Eq(_a, _b), F1(_c, _a), F1(_c, _b))
cong([_v, _k, _a, _b], STR.Eq(_a, _b), LC(_v, _k, _a), LC(_v, _k, _b))
for F1 in (SortS, UniqS): cong([_w, _x], SST.Eq(_w, _x), F1(_w), F1(_x))
# the sorted arrangement of some texts is one, in whatever order they come (equal texts are the same text)
L.EXTRA.append(ForAll([_w, _x], SortS(cat(_w, _x)) == SortS(cat(_x, _w)), patterns=[SortS(cat(_w, _x))]))
def DefLC(v, k, l): return LC(v, k + 1, l) == cat(LC(v, k, l), Comp(at(v, k), l))
def DefPre(p, w, k): return Pre(p, w, k + 1) == cat(Pre(p, w, k), unit(cat(p, unit(IntVal(32)), at(w, k))))
def DefPLC(p, v, k, l): w = Comp(at(v, k), l); return PLC(p, v, k + 1, l) == cat(PLC(p, v, k, l), Pre(p, w, slen(w)))
def zero(p, v, l, w=None):
    return [LC(v, IntVal(0), l) == SST.Emp, PLC(p, v, IntVal(0), l) == SST.Emp] if w is None else [Pre(p, w, IntVal(0)) == SST.Emp]
def sp(x): return Or(And(x >= 9, x <= 13), x == 32)
def DefLead(s):
    n, j = Lead(s), Int('j!l')
    return And(0 <= n, n <= slen(s), ForAll([j], Implies(And(0 <= j, j < n), sp(STR.At(s, j))), patterns=[STR.At(s, j)]), Implies(n < slen(s), Not(sp(STR.At(s, n)))))
def ltrim(s): return sl(s, Lead(s), slen(s))
def starts(s, p): return prefix_of(p, s)
def name(c, m): return c.F('name', m, CMD)
def on(c, m): return c.F('enabled', m, CMD)
def own(c, m, l):
    """of a command by its name alone"""
    return [(And(on(c, m), starts(name(c, m), l)), unit(name(c, m))), (Not(And(on(c, m), starts(name(c, m), l))), SST.Emp)]
def below(c, m, p, l):
    """inside menu m, after its name p"""
    r = ltrim(sl(l, slen(p), slen(l))); v = entries(c.e, m); q = c.F('parent', m, MENU); w = CompP(q, r); b = PLC(p, v, slen(v), r)
    return [(q == 0, b), (q != 0, cat(b, Pre(p, w, slen(w))))]
def guard(g, cases): return [(And(g, x), t) for x, t in cases]

def texts(t, acc, seen):
    if t.get_id() in seen: return
    seen.add(t.get_id())
    if z3.is_app(t):
        if t.decl().name().startswith('comp'): acc.append(t.arg(t.num_args() - 1))
        for x in t.children(): texts(x, acc, seen)
class Completion(Spec):
    """reads the tree, changes nothing"""
    what = ''
    def frame(s, c): return []
    def line(s, c): return c.oarg(0)
    def setup(s, c):
        for g in dispatch.wf_axiom(c.e): c.e.assume(g)
        for g in s.defs(c): c.e.assume(g)
    def defs(s, c): return []
    def post(s, c): return [(f'{s.what} ({i + 1})', Implies(g, eq(c.ret, t))) for i, (g, t) in enumerate(s.cases(c))]
class Interface(Completion):
    qname = CMD + '::GetCompletionRecursive'; interface = True
    def result(s, c, t): return Comp(c.this, s.line(c))
    def post(s, c): return []
class CommandComp(Completion):
    """implements the interface for a plain command"""
    qname = CMD + '::GetCompletionRecursive'; name = 'Command::GetCompletionRecursive'
    what = 'an enabled command offers its name where it continues the text'
    def cases(s, c): return own(c, c.this, s.line(c))
class MenuComp(Completion):
    """implements the interface: the cases are the definition of Comp for a menu"""
    qname = MENU + '::GetCompletionRecursive'; what = 'an enabled menu offers its name, or what is inside it after its name'
    parent = False
    def cases(s, c):
        m, l = c.this, s.line(c); nm = name(c, m); hit = starts(l, nm); up = starts(l, lit(b'..'))
        out = [(Not(on(c, m)), SST.Emp)] + guard(And(on(c, m), hit), below(c, m, nm, l))
        if s.parent: out += guard(And(on(c, m), Not(hit), up), below(c, m, lit(b'..'), l)); hit = Or(hit, up)
        return out + guard(And(on(c, m), Not(hit)), own(c, m, l))
    def defs(s, c):
        l = s.line(c); nm = name(c, c.this)
        return [DefLead(sl(l, slen(p), slen(l))) for p in ([nm, lit(b'..')] if s.parent else [nm])]
class ParentComp(MenuComp):
    qname = MENU + '::GetCompletionWithParent'; parent = True
    what = 'a parent menu is offered by its name or as ".."'
    def result(s, c, t): return CompP(c.this, s.line(c))
    def post(s, c): return super().post(c) if c.e.unitctx is c else []
class Helper(Completion):
    qname = MENU + '::GetCompletionRecursiveHelper'; what = 'everything offered inside the menu for the rest of the text, after the name'
    def pre(s, c): return [('the text starts with the name', starts(c.arg(0), c.arg(1)))]
    def rest(s, c): l = s.line(c); return ltrim(sl(l, slen(c.oarg(1)), slen(l)))
    def defs(s, c): l = s.line(c); return [DefLead(sl(l, slen(c.oarg(1)), slen(l)))]
    def cases(s, c): return below(c, c.this, c.oarg(1), s.line(c))
class ListComp(Completion):
    qname = 'cli::GetCompletions'; what = 'the completions of every entry, in order'
    def pre(s, c): return [('there is a list', c.arg(0) != 0), ('without null entries', nonnull(s.vec(c)))]
    def vec(s, c): return c.e.val(LField(('*', repr(dispatch.vec_t(c.e))), c.oarg(0), dispatch.vec_t(c.e)))
    def line(s, c): return c.oarg(1)
    def cases(s, c): v = s.vec(c); return [(BoolVal(True), LC(v, slen(v), s.line(c)))]
class MenuAll(Completion):
    qname = MENU + '::GetCompletions'; what = 'the completions of the enabled entries and of the parent; none if the menu is disabled'
    def cases(s, c): return menu_all(c, c.this, s.line(c))
    def result(s, c, t): return MenuC(c.this, s.line(c))
    def post(s, c): return super().post(c) if c.e.unitctx is c else []
def menu_all(c, m, l):
    v = entries(c.e, m); p = c.F('parent', m, MENU); b = LC(v, slen(v), l)
    return [(Not(on(c, m)), SST.Emp), (And(on(c, m), p == 0), b), (And(on(c, m), p != 0), cat(b, CompP(p, l)))]
class SessionComp(Completion):
    qname = SES + '::GetCompletions'; what = 'those of the global commands and of the current menu for the text without leading blanks, sorted, each once'
    def pre(s, c): return [('the session has a current menu', c.F('current') != 0), ('the session has global commands', c.F('globalScopeMenu') != 0)]
    def defs(s, c): return [DefLead(s.line(c))]
    def lemma(s, c):
        acc = []; texts(c.ret, acc, set()); l = ltrim(s.line(c))
        for t in acc:                       # the text looked up is the one asked for, if so: proved, then used
            if not t.eq(l) and c.e.entails(eq(t, l)) == 'proved': c.e.assume(t == l)
    def cases(s, c):
        l = ltrim(s.line(c)); return [(BoolVal(True), UniqS(SortS(cat(MenuC(c.F('globalScopeMenu'), l), MenuC(c.F('current'), l)))))]

def loop(e, n, entry, mods, rangelv, idx):
    c0 = getattr(e, 'unitctx', None)
    if c0 is None or not isinstance(c0.spec, Completion): return []
    rangelv = e.loop_range(n, entry, mods, rangelv)
    if rangelv is None: return []
    sp_ = c0.spec; v = e.val(rangelv); out = []
    if isinstance(sp_, Helper):          # a local that holds the rest of the text, however it was found: proved, then used
        r, l, a = sp_.rest(c0), sp_.line(c0), slen(c0.oarg(1)); i = Int('i!r')
        for k, t in sorted(entry.cells.items()):
            if not isinstance(t, z3.ExprRef) or not t.sort().eq(Str) or t.eq(r) or ('cell', k) in mods: continue
            if t.decl().name() != 'sl_Str' or not t.arg(0).eq(l): continue
            back = ForAll([i], Implies(And(a <= i, i < slen(l)), at(sl(l, a, slen(l)), i - a) == at(l, i)), patterns=[at(l, i)])
            if e.entails(back) == 'proved':
                e.assume(back)
                if e.entails(eq(t, r)) == 'proved':
                    e.assume(t == r); out.append(('the rest of the text', lambda lc, t=t: t == r))
    for x in [m[1] for m in mods if m[0] == 'cell' and entry.cells.get(m[1]) is not None and is_seq(entry.cells.get(m[1])) and entry.cells[m[1]].sort() == SS]:
        b = entry.cells[x]
        if v.sort() == SS:                 # the completions of one entry
            def f(lc, x=x, b=b):
                p = c0.oarg(1); w = e.val(rangelv); lc.hints += zero(p, None, None, w)
                if lc.prev is not None: lc.hints.append(DefPre(p, w, lc.prev.k))
                return eq(lc.cell(x), cat(b, Pre(p, w, lc.k)))
            if isinstance(sp_, Helper): out.append(('completions so far, after the name', f))
        elif isinstance(sp_, Helper):
            def f(lc, x=x, b=b):
                p, r, w = c0.oarg(1), sp_.rest(c0), e.val(rangelv); lc.hints += zero(p, w, r)
                if lc.prev is not None: lc.hints.append(DefPLC(p, w, lc.prev.k, r))
                return eq(lc.cell(x), cat(b, PLC(p, w, lc.k, r)))
            out.append(('completions of the entries so far, after the name', f))
        else:
            def f(lc, x=x, b=b):
                l, w = sp_.line(c0), e.val(rangelv); lc.hints += zero(l, w, l)
                if lc.prev is not None: lc.hints.append(DefLC(w, lc.prev.k, l))
                return eq(lc.cell(x), cat(b, LC(w, lc.k, l)))
            out.append(('completions of the entries so far', f))
    return out

iface = Interface(name='Command::GetCompletionRecursive (interface)')
specs = dict(menu=MenuComp(), parent=ParentComp(), helper=Helper(), free=ListComp(), all=MenuAll(), session=SessionComp())
units = [FnUnit(CommandComp()), FnUnit(specs['menu'], [specs['helper'], iface], dict(dispatch.OPTS)), FnUnit(specs['parent'], [specs['helper'], iface], dict(dispatch.OPTS)),
         FnUnit(specs['helper'], [iface, specs['parent']], dict(dispatch.OPTS), loops=[loop]), FnUnit(specs['free'], [iface], dict(dispatch.OPTS), loops=[loop]),
         FnUnit(specs['all'], [specs['free'], specs['parent']], dict(dispatch.OPTS), loops=[loop]), FnUnit(specs['session'], [specs['all']], dict(dispatch.OPTS))]
