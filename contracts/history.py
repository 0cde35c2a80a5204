"""C07/C08/C10: detail::History, contracts on its abstract view (entries newest first, consecutive ids, edit slot)."""
from cxv.verify import *
from cxv import logic as L

CLS = 'cli::detail::History'
FIELDS = ('buffer', 'current', 'commands', 'mode', 'idOfOldest', 'latestRecorded', 'evicted', 'lastEvicted')
LIM = 1 << 62
class H:
    """value of a history object in one state"""
    def __init__(s, c, ref):
        g = lambda n: c.e.val(c.e.F(n, ref, CLS))
        s.B, s.cur, s.n, s.id, s.M = g('buffer'), g('current'), g('commands'), g('idOfOldest'), g('maxSize')
        s.rec, s.ev, s.le = g('latestRecorded'), g('evicted'), g('lastEvicted')
        s.br = g('mode') == c.enum('History::Mode', 'browsing')
        s.len = slen(s.B)
    def inv(s):
        return [('at most capacity entries', s.len <= s.M),
                ('cursor inside', And(s.cur >= 0, Implies(s.br, s.cur < s.len), Implies(Not(s.br), s.cur == 0))),
                ('browsing needs room', Implies(s.br, s.len >= 1)),
                ('recorded entry exists', Implies(s.rec, And(s.len >= 1, s.n >= 1, Not(s.br)))),
                ('an evicted entry had an id', Implies(s.ev, s.id >= 1))]
    def view(s): return If(s.br, sl(s.B, IntVal(1), s.len), s.B)
def tail(b): return sl(b, IntVal(1), slen(b))
def take(b, m): return If(slen(b) <= m, b, sl(b, IntVal(0), m))
def last(b): return at(b, slen(b) - 1)
def bump(x, c): return x + If(c, IntVal(1), IntVal(0))
def opt(cond, b): return If(cond, b, emp(b.sort()))

# assumption (stated in the evidence): fewer than 2^62 lines are ever entered in a session, so counters do not wrap
def lim_ok(h): return And(h.id + h.len + 4 < LIM, h.n + 4 < LIM, h.M <= LIM)

class HSpec(Spec):
    writes = FIELDS
    def href(s, c): return c.this
    def pre(s, c):
        return H(c, s.href(c)).inv()
    def setup(s, c): c.e.assume(lim_ok(H(c, s.href(c))))
    def frame(s, c): return [c.lv(x, s.href(c), CLS) for x in s.writes]
    def old(s, c): return c.old(lambda: H(c, s.href(c)))
    def now(s, c): return H(c, s.href(c))
    def inv_post(s, c): return [('invariant: ' + n, g) for n, g in s.now(c).inv()]

def upd_items(c, ref, B=None, cur=None, n=None, br=None, id=None, rec=None, ev=None, le=None):
    out = []
    for nm, v in (('buffer', B), ('current', cur), ('commands', n), ('idOfOldest', id), ('latestRecorded', rec), ('evicted', ev), ('lastEvicted', le)):
        if v is not None: out.append(Set(nm, c.e.F(nm, ref, CLS), v))
    if br is not None:
        a, b = c.enum('History::Mode', 'browsing'), c.enum('History::Mode', 'inserting')
        out.append(Set('mode', c.e.F('mode', ref, CLS), a if br is True else b if br is False else If(br, a, b)))
    return out

def inserted(h, item):
    """insertion of a line at the front, the oldest entry leaves when over capacity"""
    x = cat(unit(item), h.B); full = slen(x) > h.M
    return take(x, h.M), bump(h.id, full), full, last(x)

class NewCommand(HSpec):
    qname = CLS + '::NewCommand'
    def post(s, c):
        o, item = s.old(c), c.oarg(0)
        ib, iid, full, le = inserted(o, item)
        dup_i = And(o.len > 0, at(o.B, 0) == item)
        dup_b = And(o.len > 1, at(o.B, 1) == item)
        dup = If(o.br, dup_b, dup_i)
        undo = cat(tail(o.B), opt(o.ev, unit(o.le)))
        ev1 = If(o.br, If(dup_b, BoolVal(False), o.ev), If(dup_i, o.ev, full))
        items = upd_items(c, s.href(c),
            B=If(o.br, If(dup_b, undo, upd(o.B, 0, item)), If(dup_i, o.B, ib)),
            cur=IntVal(0), br=False, n=bump(o.n, Not(dup)),
            id=If(o.br, If(And(dup_b, o.ev), o.id - 1, o.id), If(dup_i, o.id, iid)),
            rec=And(Not(dup), o.M > 0),
            ev=ev1)
        # the evicted line matters only while an undo is possible
        items.append(('evicted line kept for undo', Implies(And(Not(o.br), Not(dup_i), full), H(c, s.href(c)).le == le)))
        items.append(('evicted line kept for undo (browsing)', Implies(And(ev1, Not(And(Not(o.br), Not(dup_i), full))), H(c, s.href(c)).le == o.le)))
        return items + s.derived(c)
    def derived(s, c):
        """C07 as the user sees it"""
        o, h, item = s.old(c), s.now(c), c.oarg(0); i = Int('id!')
        ent = lambda x, j: at(x.B, x.id + x.len - 1 - j)
        top = If(o.br, o.id + o.len - 1, o.id + o.len)          # first id not yet given to an entry
        return s.inv_post(c) + [
            ('the line is the latest entry', Implies(o.M > 0, And(h.len > 0, at(h.B, 0) == item))),
            ('a repeated line is recorded once', Implies(Or(And(Not(o.br), o.len > 0, at(o.B, 0) == item), And(o.br, o.len > 1, at(o.B, 1) == item)), h.id + h.len == top)),
            ('any other line gets the next id', Implies(And(o.M > 0, Not(Or(And(Not(o.br), o.len > 0, at(o.B, 0) == item), And(o.br, o.len > 1, at(o.B, 1) == item)))), h.id + h.len == top + 1)),
            ('entries keep their ids and text', ForAll([i], Implies(And(i >= o.id, i >= h.id, i < top), ent(h, i) == ent(o, i)), patterns=[at(h.B, h.id + h.len - 1 - i)])  ),
            ('only the oldest entry can leave, and only when the history is full', And(h.id <= o.id + 1, Implies(h.id == o.id + 1, o.len == o.M)))]

class Previous(HSpec):
    qname = CLS + '::Previous'
    def post(s, c):
        o, line = s.old(c), c.oarg(0)
        ib, iid, full, le = inserted(o, line)
        zero = And(Not(o.br), o.M == 0)
        nb = upd(o.B, o.cur, line)
        ncur = If(o.br, If(o.cur == o.len - 1, o.cur, o.cur + 1), If(zero, IntVal(0), If(slen(ib) > 1, IntVal(1), IntVal(0))))
        B = If(zero, o.B, If(o.br, nb, ib))
        items = upd_items(c, s.href(c), B=B, cur=ncur, br=Not(zero), id=If(Or(o.br, zero), o.id, iid),
                          ev=If(Or(o.br, zero), o.ev, full), rec=If(o.br, o.rec, And(o.rec, zero)))
        items += [('evicted line kept for undo', Implies(And(Not(o.br), Not(zero), full), H(c, s.href(c)).le == le)),
                  ('shown line', eq(c.ret, If(zero, line, at(B, ncur))))]
        return items + s.inv_post(c)
class Next(HSpec):
    qname = CLS + '::Next'; writes = ('current',)
    def post(s, c):
        o = s.old(c)
        stay = Or(o.len == 0, o.cur == 0)
        return upd_items(c, s.href(c), cur=If(stay, o.cur, o.cur - 1)) + [('shown line', eq(c.ret, If(stay, STR.Emp, at(o.B, o.cur - 1))))] + s.inv_post(c)
class At(HSpec):
    qname = CLS + '::At'; writes = (); throws = ('std::out_of_range',)
    def ok(s, c): o = s.old(c); i = c.oarg(0); return And(i >= o.id, i < o.id + o.len)
    def post(s, c):
        o = s.old(c); i = c.oarg(0)
        return [('only ids of kept entries', s.ok(c)), ('the entry with that id', eq(c.ret, at(o.B, o.id + o.len - 1 - i)))]
    def xpost(s, c): return [('no entry has that id', Not(s.ok(c)))]
class ForgetLatest(HSpec):
    qname = CLS + '::ForgetLatest'; writes = ('buffer', 'commands', 'idOfOldest', 'latestRecorded', 'evicted', 'lastEvicted')
    def post(s, c):
        o = s.old(c)
        return upd_items(c, s.href(c), B=If(o.rec, cat(tail(o.B), opt(o.ev, unit(o.le))), o.B), n=If(o.rec, o.n - 1, o.n),
                         id=If(And(o.rec, o.ev), o.id - 1, o.id), rec=BoolVal(False), ev=And(o.ev, Not(o.rec))) + [('evicted line kept while an undo is possible', Implies(And(o.ev, Not(o.rec)), s.now(c).le == o.le))] + s.inv_post(c)
class GetCommands(HSpec):
    qname = CLS + '::GetCommands'; writes = ()
    def post(s, c):
        o = s.old(c)
        k = If(o.n < slen(o.view()), o.n, slen(o.view()))
        return [('the newest recorded lines, oldest first', eq(c.ret, rev(sl(o.view(), IntVal(0), k))))]
class LoadCommands(HSpec):
    qname = CLS + '::LoadCommands'
    def pre(s, c):
        h = H(c, s.href(c)); 
        return h.inv() + [('fresh history', And(Not(h.br), Not(h.rec)))]
    def setup(s, c):
        h = H(c, s.href(c)); c.e.assume(And(h.id + h.len + slen(c.arg(0)) + 8 < LIM, h.n + 8 < LIM, h.M <= LIM))
    def frame(s, c): return [c.lv(x, s.href(c), CLS) for x in ('buffer', 'idOfOldest', 'evicted', 'lastEvicted')]
    def post(s, c):
        o = s.old(c); cm = c.oarg(0)
        return [Set('the newest lines, newest first', c.e.F('buffer', s.href(c), CLS), take(cat(rev(cm), o.B), o.M))] + s.inv_post(c)
def load_loop(e, n, entry, mods, rangelv, idx):
    c0 = getattr(e, 'unitctx', None)
    if c0 is None or not isinstance(c0.spec, LoadCommands): return []
    o = c0.spec.old(c0); cm = c0.oarg(0)
    def B(c): return eq(H(c0, c0.this).B, take(cat(rev(sl(cm, IntVal(0), c.k)), o.B), o.M))
    def hints(c):
        return And(*[g for _, g in H(c0, c0.this).inv()])
    def lim(c):
        h = H(c0, c0.this); return And(h.id <= o.id + c.k, h.id >= 0, h.n < LIM, h.id + h.len <= o.id + o.len + c.k)
    return [('newest lines first', B), ('history invariant', hints), ('ids', lim)]

ShowT = Function('hist_show', SS, I, I, Str)       # text of the oldest k entries
def DefShow(B, id, k): return eq(ShowT(B, id, k + 1), cat(ShowT(B, id, k), stl_Dec(id + k), unit(IntVal(9)), at(B, slen(B) - 1 - k), unit(IntVal(10))))
from cxv.stl import Dec as stl_Dec
class Show(HSpec):
    qname = CLS + '::Show'; writes = ()
    def frame(s, c): return [('log', c.arg(0))]
    def post(s, c):
        o = s.old(c)
        return [('every entry with its id, oldest first', eq(c.log(c.arg(0)), cat(c.olog(c.arg(0)), unit(IntVal(10)), ShowT(o.B, o.id, o.len), unit(IntVal(10)))))]
    def effects(s, e, c): pass
def show_loop(e, n, entry, mods, rangelv, idx):
    c0 = getattr(e, 'unitctx', None)
    if c0 is None or not isinstance(c0.spec, Show): return []
    o = c0.spec.old(c0); out = c0.arg(0); base = c0.olog(out)
    def f(c):
        c.hints.append(ShowT(o.B, o.id, IntVal(0)) == STR.Emp)
        if c.prev is not None: c.hints.append(DefShow(o.B, o.id, c.prev.k))
        return eq(e.log_of(out), cat(base, unit(IntVal(10)), ShowT(o.B, o.id, c.k)))
    return [('entries printed so far', f)]

class Ctor(HSpec):
    qname = CLS + '::History'
    def setup(s, c): pass
    def pre(s, c): return [('capacity', And(c.arg(0) >= 0, c.arg(0) <= LIM))]
    def frame(s, c): return []
    frame_any = True
    def post(s, c):
        h = s.now(c)
        return [('empty', And(h.len == 0, h.n == 0, h.id == 0, Not(h.br), Not(h.rec), Not(h.ev))), ('capacity', h.M == c.oarg(0))] + s.inv_post(c)

specs = dict(new=NewCommand(), prev=Previous(), next=Next(), at=At(), forget=ForgetLatest(), get=GetCommands(), load=LoadCommands(), show=Show(), ctor=Ctor())
U = {k: FnUnit(v, loops=[load_loop, show_loop]) for k, v in specs.items()}
units = list(U.values())

# ---------------------------------------------------------------- lemmas: what two operations do together, from their contracts alone
def undo(e, k):
    h = k.obj(CLS); c = k.ctx(CLS, h); o = H(c, h)
    k.assume(*[g for _, g in o.inv()], lim_ok(o), o.M > 0)
    x = Const('line', Str)
    k.call(specs['new'], h, [x]); k.call(specs['forget'], h, [])
    n = H(c, h)
    dup = And(o.len > 0, at(o.B, 0) == x); dupb = And(o.len > 1, at(o.B, 1) == x)
    k.claim('a new line is forgotten without a trace', Implies(And(Not(o.br), Not(dup)), And(eq(n.B, o.B), n.id == o.id, n.n == o.n)))
    k.claim('forgetting a line that repeated the newest entry changes nothing', Implies(And(Not(o.br), dup), And(eq(n.B, o.B), n.id == o.id, n.n == o.n)))
    k.claim('after browsing only the edit line is gone', Implies(o.br, And(eq(n.B, cat(tail(o.B), opt(o.ev, unit(o.le)))), n.n == o.n)))
def browse(e, k):
    """looking at older entries and then entering a line is the same as entering it directly"""
    h = k.obj(CLS); c = k.ctx(CLS, h); o = H(c, h)
    k.assume(*[g for _, g in o.inv()], lim_ok(o), Not(o.br))
    x, y = Const('typed', Str), Const('line', Str)
    ib, iid, full, le = inserted(o, y)
    dup = And(o.len > 0, at(o.B, 0) == y)
    k.call(specs['prev'], h, [x]); k.call(specs['next'], h, []); k.call(specs['new'], h, [y])
    n = H(c, h)
    k.claim('same entries', Implies(o.M > 1, eq(n.B, If(dup, o.B, ib))))
    k.claim('same numbers', Implies(o.M > 1, n.id == If(dup, o.id, iid)))
def updown(e, k):
    h = k.obj(CLS); c = k.ctx(CLS, h); o = H(c, h)
    k.assume(*[g for _, g in o.inv()], lim_ok(o), Not(o.br), o.M > 1, o.len > 0)
    x = Const('typed', Str)
    k.call(specs['prev'], h, [x]); r = k.call(specs['next'], h, [])
    k.claim('the line being typed is found again when coming back', eq(r, x))
    r = k.call(specs['prev'], h, [x])
    k.claim('Up shows the newest entry', eq(r, at(o.B, 0)))
units += [ScriptUnit('History: NewCommand then ForgetLatest', undo, list(specs.values())), ScriptUnit('History: browsing leaves no trace', browse, list(specs.values())), ScriptUnit('History: Up then Down', updown, list(specs.values()))]
