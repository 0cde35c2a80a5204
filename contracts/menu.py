"""C05: the menu tree as the application changes it: construction, insertion, and the handles.

A handle names an entry and the list it is in, both weakly: `alive` (ghost) says which of them still exist.  Every operation
changes exactly the flag, or the list, it names, and nothing if the entry (or, for Remove, the list) is gone.
"""
from cxv.verify import *
from cxv import logic as L
from contracts import dispatch
from contracts.dispatch import CMD, MENU, SHAPES, decay, vec_t

CH, DE = 'cli::CmdHandler', 'cli::CmdHandler::Descriptor'
ALIVE = ArraySort(I, B)
def alive(e, r): return And(r != 0, Select(e.gget('alive', ALIVE), r))
def vlv(e, v): return LField(('*', repr(vec_t(e))), v, vec_t(e))
def nonnull(s):
    j = Int('j!n'); return ForAll([j], Implies(And(0 <= j, j < slen(s)), L.th(s).At(s, j) != 0), patterns=[L.th(s).At(s, j)])
def absent(s, x, lo=None, hi=None):
    j = Int('j!a'); return ForAll([j], Implies(And((lo if lo is not None else 0) <= j, j < (hi if hi is not None else slen(s))), L.th(s).At(s, j) != x), patterns=[L.th(s).At(s, j)])
def distinct(s):
    i, j = Int('i!d'), Int('j!d'); A = L.th(s).At
    return ForAll([i, j], Implies(And(0 <= i, i < j, j < slen(s)), A(s, i) != A(s, j)), patterns=[z3.MultiPattern(A(s, i), A(s, j))])

class EnableC(Spec):
    qname = CMD + '::Enable'; on = True
    def frame(s, c): return [c.e.F('enabled', c.this, CMD)]
    def post(s, c): return [Set('the flag of the entry', c.e.F('enabled', c.this, CMD), BoolVal(s.on))]
class DisableC(EnableC):
    qname = CMD + '::Disable'; on = False

# ---------------------------------------------------------------- handles
class Op(Spec):
    """on a descriptor"""
    on = None
    def d(s, c): return c.this
    def cmd(s, c): return c.F('cmd', s.d(c), DE)
    def cmds(s, c): return c.F('cmds', s.d(c), DE)
class Flag(Op):
    """whatever the state of the menu, only the flag of the entry itself changes"""
    def frame(s, c): return [c.e.F('enabled', s.cmd(c), CMD)]
    def live(s, c): return alive(c.e, s.cmd(c))
    def post(s, c):
        lv = c.e.F('enabled', s.cmd(c), CMD)
        return [('the flag of the entry is set as asked', Implies(s.live(c), c.e.val(lv) == BoolVal(s.on))),
                ('nothing happens if the entry is gone', Implies(Not(s.live(c)), c.e.val(lv) == c.old(lambda: c.e.val(lv))))]
class Remove(Op):
    def frame(s, c): return [vlv(c.e, s.cmds(c))]
    def live(s, c): return And(alive(c.e, s.cmd(c)), alive(c.e, s.cmds(c)))
    def inv(s, c):
        v = c.e.val(vlv(c.e, s.cmds(c))); return [('no null entries', nonnull(v)), ('every entry is in the list once', distinct(v))]
    def pre(s, c): return s.inv(c)
    def post(s, c):
        e = c.e; lv = vlv(e, s.cmds(c)); n = e.val(lv); o = c.old(lambda: e.val(lv)); x = s.cmd(c); w = Int('w!r')
        gone = Exists([w], And(0 <= w, w < slen(o), L.th(o).At(o, w) == x, eq(n, cat(sl(o, IntVal(0), w), sl(o, w + 1, slen(o))))), patterns=[L.th(o).At(o, w)])
        return [('exactly this entry leaves the list, the others keep their order; nothing happens if it is not in it', Implies(s.live(c), Or(gone, And(absent(o, x), eq(n, o))))),
                ('nothing happens if the entry or the list is gone', Implies(Not(s.live(c)), eq(n, o))),
                ('it is not in the list any more', Implies(s.live(c), absent(n, x)))] + s.inv(c)
def both(cls):
    """the same operation through the handle: a handle without descriptor (moved from) does nothing"""
    class H(cls):
        def d(s, c): return c.F('descriptor', c.this, CH)
        def frame(s, c): return super().frame(c)
        def live(s, c): return And(s.d(c) != 0, super().live(c))
    return H
D = dict(enable=Flag(qname=DE + '::Enable', on=True), disable=Flag(qname=DE + '::Disable', on=False), remove=Remove(qname=DE + '::Remove'))
Hd = dict(enable=both(Flag)(qname=CH + '::Enable', on=True), disable=both(Flag)(qname=CH + '::Disable', on=False), remove=both(Remove)(qname=CH + '::Remove'))
class NewHandle(Spec):
    """a handle names the entry and the list it is given, an empty one nothing"""
    qname = CH + '::CmdHandler'; n = 0
    def pick(s, f): return len(f.params) == s.n and (s.n != 1)
    def post(s, c):
        d = c.F('descriptor')
        return [('it has a descriptor of its own', d != 0), ('it names the entry', c.F('cmd', d, DE) == (c.oarg(0) if s.n else IntVal(0))), ('in the list', c.F('cmds', d, DE) == (c.oarg(1) if s.n else IntVal(0)))]
    def frame(s, c): return [c.lv('descriptor')]

# ---------------------------------------------------------------- construction
class MenuCtor(Spec):
    qname = MENU + '::Menu'; n = 3; frame_any = True
    def pick(s, f): return len(f.params) == s.n
    def post(s, c):
        e = c.e; v = c.F('cmds'); nm, de, pr = [c.oarg(i) for i in range(3)] if s.n == 3 else [L.STR.Emp] * 3
        return [('it has a list of entries, empty', And(v != 0, slen(e.val(vlv(e, v))) == 0)), ('no parent menu', c.F('parent') == 0), ('enabled', e.fval('enabled', c.this, CMD)), ('its name', eq(e.fval('name', c.this, CMD), nm)),
                ('its description', eq(c.F('description'), de)), ('the prompt given, or its name', eq(c.F('prompt'), If(slen(pr) == 0, nm, pr)))]

def new_object(e, c, v, x):
    """x was created since the caller began and the list is still as it was then"""
    u = getattr(e, 'unitctx', None)
    if u is None or u.spec is c.spec or x is None or not ALLOC.get(x.get_id()): return False
    return v.eq(u.old(lambda: e.val(vlv(e, c.F('cmds')))))
class Insert(Spec):
    """the entry is added after the others, which stay as they are; the handle names it"""
    qname = MENU + '::Insert'; cls = 'Command'; nparams = 1
    def result(s, c, t):
        e = c.e; r = e.alloc('handle'); e.store(e.F('descriptor', r, CH), e.alloc('descriptor')); return LObj(r, t)
    def pick(s, f): return len(f.params) == 1 and f'<{s.cls}>' in f.params[0]['type']['qualType']
    def pre(s, c):
        e = c.e; v = e.val(vlv(e, c.F('cmds'))); x = c.arg(0)
        own = BoolVal(True) if new_object(e, c, v, x) else absent(v, x)
        return [('the menu has a list', c.F('cmds') != 0), ('there is an entry', x != 0), ('the entry belongs to nobody else', own)] + s.inv(c)
    def inv(s, c):
        v = c.e.val(vlv(c.e, c.F('cmds'))); return [('no null entries', nonnull(v)), ('every entry is in the list once', distinct(v))]
    def frame(s, c): return [vlv(c.e, c.F('cmds'))] + ([c.arglv(0)] if isinstance(c.arglv(0), LV) else []) + ([c.e.F('parent', c.arg(0), MENU)] if s.cls == 'Menu' else [])
    def post(s, c):
        e = c.e; lv = vlv(e, c.F('cmds')); x = c.oarg(0); h = c.ret; ref = h.ref if isinstance(h, LObj) else h
        d = e.fval('descriptor', ref, CH)
        items = [Set('the entry is added at the end', lv, cat(c.old(lambda: e.val(lv)), unit(x))), ('the handle has a descriptor', d != 0), ('the handle names the entry', e.fval('cmd', d, DE) == x), ('the handle names the list', e.fval('cmds', d, DE) == c.F('cmds'))]
        if s.cls == 'Menu': items.append(('the menu is its parent', e.fval('parent', x, MENU) == c.this))
        return items + s.inv(c)

I_ = dict(cmd=Insert(name='Menu::Insert(command)'), menu=Insert(cls='Menu', name='Menu::Insert(menu)'))
E_ = [EnableC(), DisableC()]
units = [FnUnit(x) for x in E_] + [FnUnit(D[k], E_) for k in D] + [FnUnit(Hd[k], [D[k]]) for k in D]
units += [FnUnit(NewHandle(n=0, name='CmdHandler::CmdHandler()')), FnUnit(NewHandle(n=2)), FnUnit(MenuCtor(n=0, name='Menu::Menu()')), FnUnit(MenuCtor())]
units += [FnUnit(x) for x in I_.values()]

def last_(v):
    ps = [p for p in L.parts(v) if z3.is_app(p) and p.num_args() == 1 and p.decl().name().startswith('unit')]
    return ps[-1].arg(0) if ps else None
class InsertF(Spec):
    """every form of Insert adds one command of the right kind, enabled, with the name, help text, parameter names and function given"""
    qname = MENU + '::Insert'; frame_any = True; kind = ''; types = (); order = (0, 1, 2, 3)      # positions of name, function, help, parameter names
    def pick(s, f):
        ps = [p['type']['qualType'] for p in f.params]
        return len(ps) == 4 and s.types == tuple(ps[1:])
    def pre(s, c):
        e = c.e; v = e.val(vlv(e, c.F('cmds')))
        return [('the menu has a list', c.F('cmds') != 0)] + Insert.inv(s, c)
    def post(s, c):
        e = c.e; lv = vlv(e, c.F('cmds')); v = e.val(lv); o = c.old(lambda: e.val(lv)); x = last_(v)
        if x is None: return [('one command is added', BoolVal(False))]
        cl = e.opts.get('dynamic', {}).get(x.get_id()) or e.dyncls.get(x.get_id())
        nm, fn, he, pa = [c.oarg(i) for i in s.order]
        h = c.ret; ref = h.ref if isinstance(h, LObj) else h; d = e.fval('descriptor', ref, CH)
        items = [('one command is added, after the others', And(x != 0, eq(v, cat(o, unit(x))))), ('it is a command of the right kind', BoolVal(cl == s.kind))]
        if cl != s.kind: return items
        f = e.fval('func', x, s.kind)
        return items + [('enabled', e.fval('enabled', x, CMD)), ('its name', eq(e.fval('name', x, CMD), nm)), ('its description', eq(e.fval('description', x, s.kind), he)), ('its parameter names', eq(e.fval('parameterDesc', x, s.kind), pa)),
                        ('its function', s.same(e, x, f, fn)), ('the handle names it', And(d != 0, e.fval('cmd', d, DE) == x, e.fval('cmds', d, DE) == c.F('cmds')))]
    def same(s, e, x, f, fn): return Orig((f.ref if isinstance(f, LObj) else f)) == Orig((fn.ref if isinstance(fn, LObj) else fn))
STRR, VECR = 'const std::string &', 'const std::vector<std::string> &'
for sh in SHAPES + [('H_free',), ('H_free_val',)]:
    h = sh[0]; free = h.startswith('H_free'); fp = '*' in h
    kind = f'cli::FreeformCommand<{h}>' if free else f'cli::VariadicFunctionCommand<{", ".join(sh)}>'
    t0 = 'void (*)(std::ostream &, int, const std::basic_string<char> &)' if fp else h
    units.append(FnUnit(InsertF(kind=kind, types=(t0, STRR, VECR), name=f'Menu::Insert({"function pointer" if fp else h})'), [I_['cmd']]))
units.append(FnUnit(InsertF(kind='cli::VariadicFunctionCommand<H_int, int>', types=(VECR, 'H_int', STRR), order=(0, 2, 3, 1), name='Menu::Insert(H_int, parameter names first)'), [I_['cmd']]))

# ---------------------------------------------------------------- histories of handle operations, from the contracts
def view(e): return e.harr((CMD, 'enabled'), B), e.harr(('*', repr(vec_t(e))), Str)
def start(e, k, live=True):
    h = k.obj(CH); d = e.fval('descriptor', h, CH); x, l = e.fval('cmd', d, DE), e.fval('cmds', d, DE); v = e.val(vlv(e, l))
    k.assume(d != 0, nonnull(v), distinct(v)); k.assume(alive(e, x), alive(e, l)) if live else k.assume(Not(alive(e, x)))
    return h, x, l, v
def again(e, k):
    """enabling a disabled entry restores everything (execution, help and completion depend on the tree only)"""
    h, x, l, v = start(e, k); a0, v0 = view(e)
    k.assume(Select(a0, x)); k.call(Hd['disable'], h, []); a1, _ = view(e)
    k.claim('it is disabled', Not(Select(a1, x))); r = Int('r!')
    k.claim('no other entry is affected', ForAll([r], Implies(r != x, Select(a1, r) == Select(a0, r))))
    k.call(Hd['disable'], h, []); k.call(Hd['enable'], h, []); a2, v2 = view(e)
    k.claim('everything is as before', And(ForAll([r], Select(a2, r) == Select(a0, r)), v2 == v0))
def twice(e, k):
    h, x, l, v = start(e, k); r = Int('r!'); _, v0 = view(e)
    k.call(Hd['remove'], h, []); a1, v1 = view(e); n1 = e.val(vlv(e, l))
    k.claim('it is not in its list any more', absent(n1, x)); k.claim('the other lists are untouched', ForAll([r], Implies(r != l, Select(v1, r) == Select(v0, r))))
    k.call(Hd['remove'], h, []); n2 = e.val(vlv(e, l)); k.claim('removing again changes nothing', eq(n2, n1))
    k.call(Hd['disable'], h, []); k.call(Hd['enable'], h, []); n3 = e.val(vlv(e, l)); a3, _ = view(e)
    k.claim('nothing brings it back', And(eq(n3, n1), absent(n3, x))); k.claim('no other entry changes', ForAll([r], Implies(r != x, Select(a3, r) == Select(a1, r))))
def gone(e, k):
    h, x, l, v = start(e, k, False); a0, v0 = view(e); r = Int('r!')
    for o in ('enable', 'disable', 'remove', 'enable'): k.call(Hd[o], h, [])
    a1, v1 = view(e); k.claim('a handle whose entry is gone does nothing', And(ForAll([r], Select(a1, r) == Select(a0, r)), eq(e.val(vlv(e, l)), v)))
def added(e, k):
    """inserting and removing again leaves the menu as it was"""
    m = k.obj(MENU); v = e.val(vlv(e, e.fval('cmds', m, MENU))); x = Int('entry')
    k.assume(e.fval('cmds', m, MENU) != 0, nonnull(v), distinct(v), x != 0, absent(v, x))
    h = k.call(I_['cmd'], m, [x]); h = h.ref if isinstance(h, LObj) else h
    k.assume(alive(e, x), alive(e, e.fval('cmds', m, MENU)))
    n = e.val(vlv(e, e.fval('cmds', m, MENU))); last = L.th(n).At(n, slen(v)) == x; k.claim('it is the last entry', last); k.assume(last)

    k.call(Hd['remove'], h, []); k.claim('the menu is as before', eq(e.val(vlv(e, e.fval('cmds', m, MENU))), v))
HS = list(Hd.values()) + [I_['cmd']]
units += [ScriptUnit('handle: disabling and enabling', again, HS), ScriptUnit('handle: removing', twice, HS), ScriptUnit('handle: entry gone', gone, HS), ScriptUnit('handle: inserting and removing', added, HS)]
