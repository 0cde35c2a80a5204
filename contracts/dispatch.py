"""C03/C04: which command a line is for, and with which arguments its handler runs.

The menu tree is read in the state in which the line is entered.  Acc(c, l): the entry c accepts the words l.  For a
menu this is defined over its entries and its parent (recursion on the number of words); for a command it is whatever
its class proves about itself (see Leaf).  Tgt / Rest: the entry that ends up executed and the words it gets.
"""
from cxv.verify import *
from cxv import logic as L
from cxv import types as TY
from contracts import convert

CMD, MENU, SES = 'cli::Command', 'cli::Menu', 'cli::CliSession'
UEXC = ('user_exception', 'std::bad_cast', 'user_nonstd')
OPTS = dict(immutable={(MENU, 'parent'), (MENU, 'cmds'), (SES, 'globalScopeMenu'), (SES, 'coutPtr'), ('cli::Cli', 'rootMenu'),
                       ('cli::Cli', 'globalHistoryStorage'), (SES, 'fromHistory')})
F_ = lambda n, r=B: Function(n, I, SS, r)
Acc, AccP, In = F_('Acc'), F_('AccP'), F_('In')
Tgt, TgtP, TgtIn = F_('Tgt', I), F_('TgtP', I), F_('TgtIn', I)
Rest, RestP, RestIn = F_('Rest', SS), F_('RestP', SS), F_('RestIn', SS)
Fst = F_('Fst', I)                       # index of the first entry that accepts
IsMenu = Function('IsMenu', I, B)
VEC = None
def vec_t(e): return parse('std::vector<std::shared_ptr<cli::Command>>', e.prog)

# ---------------------------------------------------------------- the tree in the state of the line
def tree_keys(e): return [((CMD, 'enabled'), B), (('*', repr(vec_t(e))), Str), ((MENU, 'cmds'), I), ((MENU, 'parent'), I), ((CMD, 'name'), Str), ((SES, 'current'), I)]
def arr0(e, key, so):
    cur = e.st; e.st = State()
    try: return e.harr(key, so)
    finally: e.st = cur
def sel0(e, key, so, r): return Select(arr0(e, key, so), r)
def enabled0(e, c): return sel0(e, (CMD, 'enabled'), B, c)
def name0(e, c): return sel0(e, (CMD, 'name'), Str, c)
def parent0(e, m): return sel0(e, (MENU, 'parent'), I, m)
def entries0(e, m): return sel0(e, ('*', repr(vec_t(e))), Str, sel0(e, (MENU, 'cmds'), I, m))
def unmodified(e):
    return And(*[e.harr(k, so) == arr0(e, k, so) for k, so in tree_keys(e)])
def wf_axiom(e):
    """structure of every menu (established by Menu's constructors, kept by Insert and Remove: contracts/menu.py)"""
    m, j = Int('m!'), Int('j!'); pc = sel0(e, (MENU, 'cmds'), I, m); v = entries0(e, m)
    return [ForAll([m], Implies(m != 0, pc != 0), patterns=[pc]),
            ForAll([m, j], Implies(And(0 <= j, j < slen(v)), L.th(v).At(v, j) != 0), patterns=[L.th(v).At(v, j)])]

def tl(l): return sl(l, IntVal(1), slen(l))
def DefIn(e, m, l):
    v, f, p, j = entries0(e, m), Fst(m, l), parent0(e, m), Int('j!')
    hit = f < slen(v)
    return And(0 <= f, f <= slen(v), ForAll([j], Implies(And(0 <= j, j < f), Not(Acc(L.th(v).At(v, j), l))), patterns=[L.th(v).At(v, j)]),
               Implies(hit, Acc(at(v, f), l)), In(m, l) == Or(hit, And(p != 0, AccP(p, l))),
               TgtIn(m, l) == If(hit, Tgt(at(v, f), l), TgtP(p, l)), eq(RestIn(m, l), If(hit, Rest(at(v, f), l), RestP(p, l))))
def _def(e, m, l, names, A, T_, R):
    w = at(l, IntVal(0)); one = slen(l) == 1
    return And(A(m, l) == And(enabled0(e, m), Or(*[eq(w, x) for x in names]), Or(one, In(m, tl(l)))),
               T_(m, l) == If(one, m, TgtIn(m, tl(l))), eq(R(m, l), If(one, l, RestIn(m, tl(l)))))
def DefAcc(e, m, l): return _def(e, m, l, [name0(e, m)], Acc, Tgt, Rest)
def DefAccP(e, m, l): return _def(e, m, l, [name0(e, m), lit('..')], AccP, TgtP, RestP)

# ---------------------------------------------------------------- the user's handlers
def current_of(e, ses): return e.val(e.F('current', ses, SES))
class Snap:
    """state right after a handler: what the library does afterwards is measured against it"""
def snap(e, ses):
    x = Snap(); x.st = e.st.copy(); x.log = e.gget('log', ArraySort(I, Str)); x.current = current_of(e, ses) if ses is not None else None; x.exc = None
    return x
def after_handler(e, ses):
    """the user's code ran (it may use the whole public interface, also of this session), then returns or throws"""
    mono = [(m, m()) for m in e.opts.get('monotone', ())]
    e.havoc_all()
    for m, v in mono: e.assume(Implies(v, m()))          # flags that are only ever set
    for g in (e.opts['always']() if 'always' in e.opts else ()): e.assume(g)
    x = snap(e, ses)
    k = e.choose_any(len(UEXC) + 1, 'handler')
    if k: x.exc = ExcV(UEXC[k - 1])
    return x
def handler_callback(e, ref, args, n):
    vals = []
    for a in args:
        v = e.val(a); vals.append(v.ref if isinstance(v, LObj) else v)
    ses = e.opts.get('session_ref'); ses = ses(e) if ses else None
    e.event('call', ref, vals)
    x = after_handler(e, ses); e.st.events[-1] += (x,)
    if x.exc is not None: raise ThrowX(x.exc)
    return None

# ---------------------------------------------------------------- the interface contract
class Dispatch(Spec):
    throws = UEXC
    def A(s, c): pass
    def T(s, c): pass
    def R(s, c): pass
    def line(s, c): return c.oarg(0)
    def pre_call(s, c): return []
    def ses(s, c): return c.vals[1].ref if isinstance(c.vals[1], LObj) else c.arg(1)
    def pre(s, c):
        return [('the line has a word', slen(c.arg(0)) > 0), ('no command has run and nothing has changed yet', unmodified(c.e))]
    def frame(s, c): return [c.e.F('current', s.ses(c), SES)]
    def setup(s, c):
        for g in wf_axiom(c.e): c.e.assume(g)
        for g in s.defs(c): c.e.assume(g)
        ses = s.ses(c)
        c.e.opts['session_ref'] = lambda e: ses
        c.e.callback = handler_callback
    def defs(s, c): return []
    # caller
    def at_call(s, e, f, this, vals, n):
        c = Ctx(e, f, this, [v.lv if isinstance(v, MoveV) else v for v in vals], e.st, s)
        for i, (v, p) in enumerate(zip(c.vals, f.params)):
            if isinstance(v, (InitV, CStrV)): c.vals[i] = e.newcell(e.coerce_store(v, c.ptype(i)), c.ptype(i), 'arg')
            elif not isinstance(v, LV): c.vals[i] = e.newcell(v, c.ptype(i), 'arg')
        c.oldst = e.st.copy()
        for nm, g in s.pre(c) + s.pre_call(c): e.oblige(f'precondition of {s.name}: {nm}', g, n, kind='pre')
        A, t, r = s.A(c), s.T(c), s.R(c)
        k = e.choose_any(3, 'outcome')
        if k == 0: e.assume(Not(A)); return BoolVal(False)
        e.assume(A)
        if k == 1:
            e.assume(IsMenu(t)); e.store(e.F('current', s.ses(c), SES), t); return BoolVal(True)
        e.assume(Not(IsMenu(t)))
        e.event('run', t, r); x = after_handler(e, s.ses(c)); e.st.events[-1] += (x,)
        if x.exc is not None: raise ThrowX(x.exc)
        return BoolVal(True)
    # body
    def ran(s, c, ev):
        return [('the command executed is the first one that accepts the line', ev[1][0] == s.T(c)),
                ('it gets its own words of the line', eq(ev[1][1], s.R(c)))]
    def runs(s, c): return [x for x in c.events() if x[0] == 'run']
    def post(s, c):
        rs = s.runs(c); A, t = s.A(c), s.T(c); cur = c.e.val(c.e.F('current', s.ses(c), SES))
        out = [('accepted exactly when some entry accepts the line', c.ret == A)]
        if len(rs) > 1: return [('at most one command is executed', BoolVal(False))]
        if not rs:
            return out + [('an accepted command is executed', Or(Not(A), IsMenu(t))),
                          ('only a line of menu names changes the current menu, to the menu named', cur == If(A, t, c.old(lambda: c.e.val(c.e.F('current', s.ses(c), SES)))))]
        return out + [('only commands are executed', Not(IsMenu(t)))] + s.ran(c, rs[0]) + [('the handler is the last thing that changes the current menu', eq(cur, rs[0][2].current)), ('the handler returned normally', BoolVal(rs[0][2].exc is None))]
    def xpost(s, c):
        rs = s.runs(c)
        if len(rs) != 1: return [('only a handler can throw, and only one is executed', BoolVal(False))]
        return [('the line is accepted', s.A(c)), ('the exception is the handler\'s own', BoolVal(c.exc is rs[0][2].exc)),
                ('the handler is the last thing that changes the current menu', eq(c.e.val(c.e.F('current', s.ses(c), SES)), rs[0][2].current))] + s.ran(c, rs[0])

def owned(e, r):
    """a local variable of the functions being executed (a shared_ptr, or a container of them) shares the ownership of the command"""
    j = Int('j!'); out = []
    for l in {id(l): l for f in e.frames for l in f.env.values() if isinstance(l, LVar)}.values():
        v = e.st.cells.get(l.cell); own = lambda t: t.k == 'sp' and t.name == 'shared_ptr'
        if own(l.t) and is_int(v): out.append(v == r)
        elif l.t.k == 'vec' and own(l.t.a[0]) and is_seq(v): out.append(Exists([j], And(0 <= j, j < slen(v), at(v, j) == r), patterns=[at(v, j)]))
    return Or(*out) if out else BoolVal(False)
class CommandExec(Dispatch):
    qname = CMD + '::Exec'
    def pre_call(s, c): return [('its handler can remove the command: the caller shares its ownership', owned(c.e, c.this))]
    def A(s, c): return Acc(c.this, s.line(c))
    def T(s, c): return Tgt(c.this, s.line(c))
    def R(s, c): return Rest(c.this, s.line(c))
class MenuExec(CommandExec):
    qname = MENU + '::Exec'
    def defs(s, c): l = s.line(c); return [IsMenu(c.this), DefAcc(c.e, c.this, l), DefIn(c.e, c.this, tl(l))]
class ExecParent(Dispatch):
    qname = MENU + '::ExecParent'
    def A(s, c): return AccP(c.this, s.line(c))
    def T(s, c): return TgtP(c.this, s.line(c))
    def R(s, c): return RestP(c.this, s.line(c))
    def defs(s, c): l = s.line(c); return [IsMenu(c.this), DefAccP(c.e, c.this, l), DefIn(c.e, c.this, tl(l))]
class ScanCmds(Dispatch):
    qname = MENU + '::ScanCmds'
    def A(s, c): return And(enabled0(c.e, c.this), In(c.this, s.line(c)))
    def T(s, c): return TgtIn(c.this, s.line(c))
    def R(s, c): return RestIn(c.this, s.line(c))
    def defs(s, c): return [DefIn(c.e, c.this, s.line(c))]
def scan_loop(e, n, entry, mods, rangelv, idx):
    """no entry passed so far accepts the line"""
    c = getattr(e, 'unitctx', None)
    if c is None or not isinstance(c.spec, Dispatch): return []
    l0 = c.spec.line(c); ents = entries0(e, c.this); j = Int('j!')
    v = e.val(rangelv) if rangelv is not None else ents
    if not (is_seq(v) and v.sort() == Str): return []
    def mk(l):
        def f(k): return ForAll([j], Implies(And(0 <= j, j < k.k), Not(Acc(L.th(v).At(v, j), l))), patterns=[L.th(v).At(v, j)])
        return f
    return [('no entry passed so far accepts the line', mk(l0)), ('no entry passed so far accepts the rest of the line', mk(tl(l0)))]

specs = dict(exec=CommandExec(), menu=MenuExec(), up=ExecParent(), scan=ScanCmds())
calls = [specs['exec'], specs['up']]
units = [FnUnit(specs[k], calls, dict(OPTS), loops=[scan_loop]) for k in ('menu', 'up', 'scan')]

# ---------------------------------------------------------------- C03: the commands themselves
def _tgt(t): return ((t,), None)
def word_conv(t, w):
    """(converts, value) of the word w for a parameter of type t (decayed)"""
    if t == 'std::basic_string<char>': return BoolVal(True), w
    sp = next((x for x in convert.from_specs if x.targs == (t,)), None)
    if sp is None: raise Unsupported(f'parameter type {t}')
    class K: pass
    k = K(); k.oarg = lambda i: w
    if isinstance(sp, (convert.FromSigned, convert.FromUnsigned)):
        r = rng(parse(t, None)); sp2 = type(sp)(targs=(t,)); sp2.rng = lambda c: r
        return sp2.ok(k), sp2.value(k)
    return sp.ok(k), sp.value(k)
class Leaf(Dispatch):
    """implements cli::Command::Exec: the command itself is what is executed (Tgt), with the whole line (Rest)"""
    throws = UEXC
    params = ()
    def T(s, c): return c.this
    def R(s, c): return s.line(c)
    def calls(s, c): return [x for x in c.events() if x[0] == 'call']
    def A(s, c):
        l = s.line(c)
        return And(enabled0(c.e, c.this), eq(at(l, IntVal(0)), name0(c.e, c.this)), s.args_ok(c, l))
    def args_ok(s, c, l):
        n = len(s.params)
        return And(slen(l) == n + 1, *[word_conv(t, at(l, IntVal(i + 1)))[0] for i, t in enumerate(s.params)])
    def values_ok(s, c, got, l):
        if len(got) != len(s.params): return BoolVal(False)
        return And(*[eq(g, word_conv(t, at(l, IntVal(i + 1)))[1]) for i, (g, t) in enumerate(zip(got, s.params))])
    def lemma(s, c):
        l = s.line(c)
        for i in range(len(s.params)):
            for y in (at(l, IntVal(i + 1)), convert.strip(at(l, IntVal(i + 1)))): c.e.assume(convert.Def0(y))
    def call_items(s, c, ev):
        out = c.old(lambda: c.R('out', s.ses(c), SES))
        vals = ev[1][1]
        return [('the handler of this command is called', ev[1][0] == c.R('func')), ('it writes to the session stream', vals[0] == out if vals else BoolVal(False)),
                ('it gets the converted words in order', s.values_ok(c, vals[1:], s.line(c)))]
    def post(s, c):
        cs = s.calls(c)
        if len(cs) > 1: return [('the handler is called at most once', BoolVal(False))]
        items = [('the line is accepted exactly when it fits the command', c.ret == s.A(c))]
        if not cs: return items + [('an accepted line calls the handler', Not(s.A(c))), ('a refused line changes nothing', unmodified(c.e))]
        x = cs[0][2]
        return items + s.call_items(c, cs[0]) + [('a handler that throws is not reported as having returned', BoolVal(x.exc is None)), ('nothing happens after the handler', eq(current_of(c.e, s.ses(c)), x.current))]
    def xpost(s, c):
        cs = s.calls(c)
        if len(cs) != 1: return [('only the handler can throw, and it is called at most once', BoolVal(False))]
        return [('the line fits the command', s.A(c)), ('the exception is the handler\'s own', BoolVal(c.exc is cs[0][2].exc))] + s.call_items(c, cs[0])
class Free(Leaf):
    def args_ok(s, c, l): return slen(l) >= 1
    def values_ok(s, c, got, l): return eq(got[0], tl(l)) if len(got) == 1 else BoolVal(False)
SHAPES = [('H_none',), ('H_int', 'int'), ('H_str', 'const std::basic_string<char> &'), ('H_str_uint', 'std::basic_string<char>', 'unsigned int'), ('H_bool_char_long', 'bool', 'char', 'long'),
          ('H_small', 'short', 'unsigned short', 'signed char', 'unsigned char'), ('H_ll', 'long long', 'unsigned long long', 'unsigned long'),
          ('void (*)(std::basic_ostream<char> &, int, const std::basic_string<char> &)', 'int', 'const std::basic_string<char> &')]
def decay(t): return t.replace('const ', '').replace(' &', '').strip()
leaves = []
for sh in SHAPES:
    cl = f'cli::VariadicFunctionCommand<{", ".join(sh)}>'
    leaves.append(Leaf(qname=cl + '::Exec', params=tuple(decay(t) for t in sh[1:]), name='command(' + ', '.join(sh[:1] if '*' not in sh[0] else ('function pointer',)) + ')::Exec'))
for h in ('H_free', 'H_free_val'): leaves.append(Free(qname=f'cli::FreeformCommand<{h}>::Exec', name=f'list command({h})::Exec'))
units += [FnUnit(x, list(convert.from_specs), dict(OPTS)) for x in leaves]
