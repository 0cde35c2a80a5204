"""C09/C17/C18: CliSession: construction, global commands, actions, prompt, end of a session."""
from cxv.verify import *
from cxv import logic as L
from contracts import outstream, history, feed, dispatch
from contracts.feed import *

S = 'cli::CliSession'
OUT = 'cli::OutStream'
# ---- the history storage is the user's (interface contract; the storages of the library are verified in contracts/storage.py)
class StCommands(Spec):
    qname = 'cli::HistoryStorage::Commands'
    def effects(s, e, c): e.event('commands', c.this, c.ret)
class StStore(Spec):
    qname = 'cli::HistoryStorage::Store'
    def effects(s, e, c): e.event('store', c.this, c.arg(0))

def cout_of(e): return e.st.ghost.get('coutobj')
class Ev(Spec):
    """a function of the library as an event (its own contract is verified elsewhere)"""
    ev = None
    def at_call(s, e, f, this, vals, n):
        vs = [e.val(v) for v in vals]; vs = [v.ref if isinstance(v, LObj) else v for v in vs]
        e.event(s.ev, this, *vs); return None

class Ctor(Spec):
    """a session starts in the root menu, with an empty edit history filled from the storage, its stream registered, and the four global commands"""
    qname = S + '::CliSession'; frame_any = True
    def pick(s, f): return len(f.params) == 3
    def setup(s, c):
        e = c.e
        def nn(e):
            i, x = Int('i!n'), Int('x!'); v = Select(e.harr((OUT, 'ostreams'), Str), x)
            return ForAll([x, i], Implies(And(0 <= i, i < slen(v)), L.th(v).At(v, i) != 0), patterns=[L.th(v).At(v, i)])
        e.assume(nn(e))                      # OutStream: class invariant (contracts/outstream.py)
        e.callback = handler_callback
        c.e.st.ghost.setdefault('log', Const('G_log', LOG))
    def pre(s, c):
        return [('the cli has a storage', c.F('globalHistoryStorage', c.arg(0), CLI) != 0), ('the cli has a root menu', c.F('rootMenu', c.arg(0), CLI) != 0),
                ('capacity of the history', And(c.arg(2) >= 0, c.arg(2) < history.LIM))]
    def regs(s, e, st, ref):
        cur = e.st; e.st = st
        try: return e.val(e.F('ostreams', ref, OUT))
        finally: e.st = cur
    def glob(s, e):
        m = e.find_method(e.prog.classes[CLI], 'cout')
        if m is None: raise BindError('Cli::cout not found')
        return e.ref(e.call_vals(m, None, [], None))
    def post(s, c):
        e = c.e; ev = c.events(); cli, out = c.arg(0), c.arg(1); st = e.st.copy()
        h = history.H(c, c.R('history')); co = c.F('coutPtr')
        if len(ev) != 1 or ev[0][0] != 'commands': return [('the stored commands are loaded, nothing else is called', BoolVal(False))]
        cm = ev[0][1][1]
        items = [('the session starts in the root menu', c.F('current') == c.O('rootMenu', cli, CLI)), ('not ended', Not(c.F('exit'))), ('no entry is being executed', slen(c.F('fromHistory')) == 0),
                 ('it writes to its stream', And(c.R('out') == out, c.R('cli') == cli)),
                 ('the stream is added to the global output stream, once', eq(s.regs(e, st, co), cat(s.regs(e, c.oldst, co), unit(out)))),
                 ('the stored commands fill the history, newest first', eq(h.B, history.take(history.rev(cm), c.oarg(2)))), ('none of them is recorded as a line of this session', And(h.n == 0, Not(h.rec), Not(h.br))),
                 ('the global output stream is the one of Cli::cout()', co == s.glob(e)),
                 ('nothing is printed', eqv(log_in(e, st), log_in(e, c.oldst)))]
        items += [(f'history invariant: {n}', g) for n, g in h.inv()]
        # the actions start as no-ops
        for f in ('enterAction', 'exitAction'):
            items.append((f'{f} starts as a function that does nothing', BoolVal(s.noop(c, f, st))))
            e.st = st.copy()
        g = c.F('globalScopeMenu'); v = e.val(LField(('*', repr(vec_t(e))), e.fval('cmds', g, MENU), vec_t(e)))
        NAMES = (b'help', b'exit', b'history', b'!')
        items += [('the global commands have no parent menu and are enabled', And(g != 0, e.fval('parent', g, MENU) == 0, e.fval('enabled', g, CMD))), ('there are four global commands', slen(v) == 4)]
        ok = [x for x in parts_(v)]
        if len(ok) != 4: return items + [('there are four global commands', BoolVal(False))]
        part = e.choose_any(5, 'part')
        if part == 0: return items
        for i, (x, nm) in enumerate(zip(ok, NAMES)):
            if i + 1 != part: continue
            items = [(f'global command {i}: {nm.decode()}, enabled', And(x != 0, eq(e.fval('name', x, CMD), lit(nm)), e.fval('enabled', x, CMD)))]
            items += s.run(c, x, nm, st); e.st = st.copy()
        return items
    def noop(s, c, f, st):
        e = c.e; v = c.F(f); n0 = len(e.st.events)
        try: e.call_value(v, [LObj(c.arg(1), T('stream'))], None)
        except ThrowX: return False
        return len(e.st.events) == n0 and all(e.st.heap.get(k) is not None and e.st.heap[k].eq(a) for k, a in st.heap.items()) and log_in(e, e.st).eq(log_in(e, st))
    def run(s, c, x, nm, st):
        """what the command does, for every command line"""
        e = c.e; w = e.fresh('words', SS); e.type_inv(w, parse('std::vector<std::string>', e.prog)); e.assume(slen(w) > 0)
        e.opts['session_ref'] = lambda e: c.this
        n0 = len(e.st.events); cls = e.opts.get('dynamic', {}).get(x.get_id()) or e.classof(x)
        f = e.find_method(e.prog.classes[cls], 'Exec')
        name = nm.decode()
        exc = None; r = None
        try: r = e.call_vals(f, x, [e.newcell(w, parse('std::vector<std::string>', e.prog), 'w'), LObj(c.this, T('cls', (), S))], None)
        except ThrowX as y: exc = y.e
        ev = e.st.events[n0:]; out = c.arg(1)
        what = {'help': 'help', 'exit': 'exit', '!': 'bang', 'history': 'show'}[name]
        if name == '!':
            cond, val = dispatch.word_conv('unsigned int', at(w, IntVal(1))); cond = And(slen(w) == 2, cond)
            for y in (at(w, IntVal(1)), dispatch.convert.strip(at(w, IntVal(1)))): e.assume(dispatch.convert.Def0(y))
        else: cond = slen(w) == 1
        cond = And(cond, eq(at(w, IntVal(0)), lit(nm)))
        if exc is not None:
            return [(f'"{name}" throws only what its action throws', BoolVal(len(ev) == 1 and ev[0][0] == what and exc is ev[0][-1]))]
        items = [(f'"{name}" accepts exactly its own form', r == cond)]
        if not ev: return items + [(f'"{name}" does its work when accepted', Not(cond))]
        if len(ev) > 1 or ev[0][0] != what: return items + [(f'"{name}" does exactly its work', BoolVal(False))]
        items += [(f'"{name}" works only when accepted', cond), (f'"{name}" is about this session', ev[0][1][0] == (c.R('history') if name == 'history' else c.this))]
        if name == '!': items.append(('"!" executes the entry with the number given', ev[0][1][1] == val))
        if name == 'history': items.append(('"history" writes to the session stream', ev[0][1][1] == out))
        return items
def parts_(v):
    return [p.arg(0) for p in L.parts(v) if z3.is_app(p) and p.num_args() == 1 and p.decl().name().startswith('unit')]

contracts = [outstream.specs['Register'], history.specs['load'], StCommands(), StStore(), Ev(qname=S + '::Help', ev='help'), Ev(qname=S + '::Exit', ev='exit'), Ev(qname='cli::detail::History::Show', ev='show'), Ev(qname=S + '::ExecFromHistory', ev='bang')] + list(dispatch.convert.from_specs)
units = [FnUnit(Ctor(), contracts)]

# ---------------------------------------------------------------- actions, end, prompt
def calls(evs): return [x for x in evs if x[0] == 'call']
class Actions(Spec):
    frame_any = True; throws = UEXC
    def setup(s, c):
        e = c.e; e.callback = handler_callback
        e.st.ghost.setdefault('log', Const('G_log', LOG))
        e.assume(history.lim_ok(history.H(c, c.R('history'))))
        e.opts['monotone'] = [lambda: Select(e.harr((S, 'exit'), B), c.this)]
    def sequence(s, c, want, exc):
        """want: [(slot getter)]: the set ones are called in this order with the session stream, each once, and nothing else happens"""
        e = c.e; out = c.old(lambda: c.R('out')); evs = list(c.events()); items = []; base = c.oldst
        for nm, get in want:
            cur = e.st; e.st = base
            try: ref = get()
            finally: e.st = cur
            if evs and evs[0][0] == 'call' and s.refmatch(e, evs[0][1][0], ref):
                y = evs.pop(0); (r, vals), sn = y[1], y[2]
                before = y[3] if len(y) > 3 else None
                items += [(f'{nm}: called only if set', ref != 0), (f'{nm}: gets the session stream', vals[0] == out if len(vals) == 1 else BoolVal(False))]
                base = sn.st
                if sn.exc is not None: return items + [(f'{nm}: what it throws is passed on', BoolVal(exc is sn.exc and not evs)), ('nothing happens after it', And(same_state(e, base, e.st), eqv(log_in(e, e.st), log_in(e, base))))], None, None
            else: items.append((f'{nm}: called if set', ref == 0))
        return items, evs, base
    def refmatch(s, e, a, b): return a.eq(b) or e.entails(a == b) == 'proved'
class Enter(Actions):
    qname = S + '::Enter'
    def post(s, c, exc=None):
        e = c.e; cli = c.old(lambda: c.R('cli'))
        items, evs, base = s.sequence(c, [('global enter action', lambda: c.F('enterAction', cli, CLI)), ('session enter action', lambda: c.F('enterAction'))], exc)
        if evs is None: return items
        return items + [('nothing else is called', BoolVal(not evs)), ('nothing else happens', And(same_state(e, base, e.st), eqv(log_in(e, e.st), log_in(e, base)))), ('returns normally', BoolVal(exc is None))]
    def xpost(s, c): return s.post(c, c.exc)
class Exit(Actions):
    qname = S + '::Exit'
    def pre(s, c):
        return [('the cli has a storage', c.F('globalHistoryStorage', c.R('cli'), CLI) != 0)]
    def setup(s, c):
        super().setup(c)
        c.e.opts['always'] = lambda: [g for _, g in history.H(c, c.R('history')).inv()]        # class invariant of the history, whoever ran
        for _, g in history.H(c, c.R('history')).inv(): c.e.assume(g)
    def post(s, c, exc=None):
        e = c.e; cli = c.old(lambda: c.R('cli')); st0 = c.oldst
        was = c.O('exit')
        if not c.events() and e.entails(was) == 'proved':
            return [('ending a session again does nothing', And(same_state(e, st0, e.st), eqv(log_in(e, e.st), log_in(e, st0)))), ('returns normally', BoolVal(exc is None))]
        items = [('a session ends once', Not(was)), ('the session has ended: no prompt any more', c.F('exit'))]
        its, evs, base = s.sequence(c, [('session exit action', lambda: c.F('exitAction')), ('global exit action', lambda: c.F('exitAction', cli, CLI))], exc)
        items += its
        if evs is None: return items
        if len(evs) != 1 or evs[0][0] != 'store': return items + [('the history is stored exactly once', BoolVal(False))]
        this, cmds = evs[0][1]
        cur = e.st; e.st = base
        try: h = history.H(c, c.R('history'))
        finally: e.st = cur
        k = If(h.n < slen(h.view()), h.n, slen(h.view()))
        return items + [('in the storage of the cli', this == c.F('globalHistoryStorage', cli, CLI)), ('exactly the lines of this session, oldest first', eq(cmds, history.rev(sl(h.view(), IntVal(0), k)))),
                        ('nothing else happens', And(same_state(e, base, e.st, but={(S, 'exit')}), eqv(log_in(e, e.st), log_in(e, base)))), ('returns normally', BoolVal(exc is None))]
    def xpost(s, c): return s.post(c, c.exc)
class Prompt(Spec):
    qname = S + '::Prompt'
    def pre(s, c): return [('the session has a current menu', c.F('current') != 0)]
    def frame(s, c): return [('log', c.R('out'))]
    def post(s, c):
        out = c.R('out')
        return [('nothing is shown once the session has ended', Implies(c.O('exit'), eq(c.log(out), c.olog(out)))),
                ('otherwise the prompt of the current menu', Implies(Not(c.O('exit')), eq(c.log(out), cat(c.olog(out), c.F('prompt', c.F('current'), MENU), lit(b'> ')))))]
class Dtor(Spec):
    """closing a session removes its registration from the global output stream"""
    qname = S + '::~CliSession'; frame_any = True
    def setup(s, c): c.e.st.ghost.setdefault('log', Const('G_log', LOG))
    def pre(s, c): return [('the global output stream exists', c.F('coutPtr') != 0)]
    def post(s, c):
        ev = c.events()
        return [('exactly its stream is unregistered, once', And(BoolVal(len(ev) == 1), *([ev[0][1][0] == c.O('coutPtr'), ev[0][1][1] == c.old(lambda: c.R('out'))] if len(ev) == 1 and ev[0][0] == 'unregister' else [BoolVal(False)]))),
                ('nothing else happens', And(same_state(c.e, c.oldst, c.e.st), eqv(log_in(c.e, c.e.st), log_in(c.e, c.oldst))))]
ACT = dict(immutable={(S, 'coutPtr'), (CLI, 'globalHistoryStorage'), (CLI, 'rootMenu')})
specs = dict(ctor=Ctor(), enter=Enter(), exit=Exit(), prompt=Prompt(), dtor=Dtor())
U = {k: FnUnit(v, [history.specs['get'], StStore(), StCommands(), Ev(qname=OUT + '::UnRegister', ev='unregister')], dict(ACT)) for k, v in specs.items() if k != 'ctor'}
units += list(U.values())
class Keep(Spec):
    """an action or handler given by the user is the one kept, and nothing else changes"""
    def pick(s, f): return len(f.params) == 1 and 'function' in str(f.params[0].get('type'))
    frame_any = True
    def post(s, c):
        cls = s.qname.rsplit('::', 1)[0]
        return [('the function given is the one kept', c.F(s.field) == c.oarg(0)), ('nothing else changes', And(same_state(c.e, c.oldst, c.e.st, but={(cls, s.field)}), eqv(log_in(c.e, c.e.st), log_in(c.e, c.oldst)), BoolVal(not c.events())))]
KEEP = [Keep(qname=f'{c}::{m}', field=f, name=f'{c[5:]}::{m}(function)') for c, m, f in ((CLI, 'EnterAction', 'enterAction'), (CLI, 'ExitAction', 'exitAction'), (S, 'EnterAction', 'enterAction'), (S, 'ExitAction', 'exitAction'),
                                                           (CLI, 'StdExceptionHandler', 'exceptionHandler'), (CLI, 'WrongCommandHandler', 'wrongCmdHandler'))]
units += [FnUnit(x) for x in KEEP]

def global_stream(e, k):
    """the global output stream: one object, the same for the sessions and for the user, whenever it is asked for"""
    cls = e.prog.classes[CLI]; ptr, ref = e.find_method(cls, 'CoutPtr'), e.find_method(cls, 'cout')
    if ptr is None or ref is None: raise BindError('Cli::CoutPtr or Cli::cout not found')
    def ptr_(): return e.ref(e.val(e.call_vals(ptr, None, [], None)))
    a = ptr_(); o = e.call_vals(ref, None, [], None); b = ptr_()
    k.claim('there is one', a != 0); k.claim('the sessions register with the stream the user writes to', e.ref(o) == a); k.claim('it stays the same', b == a)
units.append(ScriptUnit('global output stream: one object', global_stream))
