"""C04/C06/C09: CliSession::Feed (one line, from text to effects) and ExecFromHistory."""
from cxv.verify import *
from cxv import logic as L
from contracts import dispatch, tokenize, history
from contracts.dispatch import *

CLI = 'cli::Cli'
LOG = ArraySort(I, Str)
def same_state(e, old, now, but=()):
    """no field of any object, and no output, differs between the two states (except the given fields)"""
    gs = []
    cur = e.st
    keys = {}
    for st in (old, now):
        for k, a in st.heap.items(): keys[k] = a.range()
    for k, so in keys.items():
        if k in but or k[-1] in but: continue
        a = old.heap.get(k); b = now.heap.get(k)
        try:
            if a is None: e.st = old; a = e.harr(k, so)
            if b is None: e.st = now; b = e.harr(k, so)
        finally: e.st = cur
        if not a.eq(b): gs.append(a == b)
    return And(*gs) if gs else BoolVal(True)
def log_in(e, st):
    cur = e.st; e.st = st
    try: return e.gget('log', LOG)
    finally: e.st = cur
def fval_in(e, st, name, ref, cls):
    cur = e.st; e.st = st
    try: return e.val(e.F(name, ref, cls))
    finally: e.st = cur
def put(g, ref, *xs): return Store(g, ref, cat(Select(g, ref), *xs))

class NewCmd(history.NewCommand):
    def effects(s, e, c):
        e.event('record', c.this, c.arg(0)); 
class Feed(Spec):
    qname = SES + '::Feed'; throws = UEXC; frame_any = True
    def pre(s, c):
        return [('the session has a current menu', c.F('current') != 0), ('the session has global commands', c.F('globalScopeMenu') != 0)] + [(f'history: {n}', g) for n, g in s.hist(c).inv()]
    def hist(s, c): return history.H(c, c.R('history'))
    def setup(s, c):
        e = c.e
        for g in wf_axiom(e): e.assume(g)
        e.assume(history.lim_ok(s.hist(c)))
        e.opts['session_ref'] = lambda e: c.this
        e.callback = handler_callback
        c.e.st.ghost.setdefault('log', Const('G_log', LOG))
    # the meaning of the line
    def words(s, c): return tokenize.Toks(c.oarg(0))
    def lemma(s, c):
        w = s.words(c); j = Int('j!')
        for m in (c.O('globalScopeMenu'), c.O('current')): c.e.assume(DefIn(c.e, m, w))
    def sel(s, c):
        g, m, w = c.O('globalScopeMenu'), c.O('current'), s.words(c)
        ag = And(enabled0(c.e, g), In(g, w)); am = And(enabled0(c.e, m), In(m, w))
        return Or(ag, am), If(ag, TgtIn(g, w), TgtIn(m, w)), If(ag, RestIn(g, w), RestIn(m, w))
    def post(s, c, exc=None):
        e = c.e; st = e.st; ev = c.events(); w = s.words(c); A, T_, R_ = s.sel(c)
        out = c.old(lambda: c.R('out')); cli = c.old(lambda: c.R('cli')); cmd = c.oarg(0)
        olog = log_in(e, c.oldst); log = log_in(e, st)
        if not ev:
            return [('nothing happens only for a line without words', slen(w) == 0), ('a line without words changes nothing', And(same_state(e, c.oldst, st), eqv(log, olog))), ('returns normally', BoolVal(exc is None))]
        items = [('the line has words', slen(w) > 0)]
        rec = ev[0]
        if rec[0] != 'record': return items + [('the line is recorded in the history before anything else', BoolVal(False))]
        items += [('exactly the line is recorded, in the history of this session', And(rec[1][0] == c.R('history'), eq(rec[1][1], cmd)))]
        rest = list(ev[1:])
        H_ = history.FIELDS
        def reported(base, x):
            """what follows when x (standard exception or other) was thrown in state base"""
            g0 = log_in(e, base); std = e.exc_is(x, 'std::exception')
            if not std:
                return [('an exception of another type is reported on the session stream', eqv(log, put(g0, out, lit('Cli. Unknown exception caught handling command line "'), cmd, lit('"\n')))),
                        ('reporting changes nothing else', same_state(e, base, st)), ('nothing else is called', BoolVal(not rest)), ('it does not escape', BoolVal(exc is None))]
            h = fval_in(e, base, 'exceptionHandler', cli, CLI)
            if rest:
                y = rest.pop(0)
                if y[0] != 'call' or rest: return [('an exception is reported exactly once', BoolVal(False))]
                (ref, vals), sn = y[1], y[2]
                return [('the registered exception handler is called', And(h != 0, ref == h)),
                        ('with the session stream and the line', And(vals[0] == out, eq(vals[1], cmd)) if len(vals) == 3 else BoolVal(False)),
                        ('and the exception thrown', BoolVal(len(vals) == 3 and vals[2] is x)),
                        ('only what the exception handler itself throws can escape', BoolVal(exc is sn.exc)),
                        ('nothing happens after the exception handler', And(same_state(e, sn.st, st), eqv(log, sn.log)))]
            if x.what is None: return [('the message of the exception is printed', BoolVal(False))]
            return [('without a handler the message is printed on the session stream', And(h == 0, eqv(log, put(g0, out, x.what, lit('\n'))))), ('reporting changes nothing else', same_state(e, base, st)),
                    ('the exception does not escape', BoolVal(exc is None))]
        # in the state right after the line was recorded nothing but the history has changed
        if rest and rest[0][0] == 'run':
            y = rest.pop(0); (t, r), sn = y[1], y[2]
            items += [('a command runs only if some entry accepts the line', A), ('it is the first entry that accepts the line, in the documented order', And(t == T_, Not(IsMenu(t)))),
                      ('it gets its words of the line', eq(r, R_))]
            if sn.exc is None:
                return items + [('nothing happens after the command', And(same_state(e, sn.st, st), eqv(log, sn.log))), ('nothing else is called', BoolVal(not rest)), ('returns normally', BoolVal(exc is None))]
            return items + reported(sn.st, sn.exc)
        if rest and rest[0][0] == 'call' or not rest:
            if rest and len(rest[0][1][1]) == 2:      # the wrong-command handler
                y = rest.pop(0); (ref, vals), sn = y[1], y[2]
                h = c.old(lambda: c.F('wrongCmdHandler', cli, CLI))
                items += [('the wrong-command handler runs only if nothing accepts the line', Not(A)), ('it is the registered one', And(h != 0, ref == h)), ('with the session stream and the line', And(vals[0] == out, eq(vals[1], cmd)))]
                if sn.exc is None:
                    return items + [('nothing happens after it', And(same_state(e, sn.st, st), eqv(log, sn.log))), ('nothing else is called', BoolVal(not rest)), ('returns normally', BoolVal(exc is None))]
                return items + reported(sn.st, sn.exc)
            if rest: return items + [('nothing else is called', BoolVal(False))]
            if exc is not None: return items + [('nothing escapes', BoolVal(False))]
            nohandler = c.old(lambda: c.F('wrongCmdHandler', cli, CLI)) == 0
            return items + [
                ('an accepted line without command is a line of menu names', Or(Not(A), IsMenu(T_))),
                ('a refused line is reported as wrong command', Implies(Not(A), And(nohandler, eqv(log, put(olog, out, lit('wrong command: '), cmd, lit('\n')))))),
                ('selecting a menu prints nothing', Implies(A, eqv(log, olog))),
                ('exactly the menu named becomes the current menu', And(c.F('current') == If(A, T_, c.O('current')), Store(arr0(e, (SES, 'current'), I), c.this, c.F('current')) == e.harr((SES, 'current'), I))),
                ('nothing but the history and the current menu changes', same_state(e, c.oldst, st, but=set(H_) | {(SES, 'current')}))]
        return items + [('nothing else happens', BoolVal(False))]
    def xpost(s, c): return s.post(c, c.exc)

specs = dict(feed=Feed())
contracts = [dispatch.specs['scan'], tokenize.Split(), NewCmd()]
units = [FnUnit(specs['feed'], contracts, dict(OPTS))]

# ---------------------------------------------------------------- C09: "!n"
class FeedEv(Feed):
    """Feed as its callers see it: the line is processed (event), anything but the entries being executed may change"""
    def pre(s, c): return [(n, g) for n, g in super().pre(c) if not n.startswith('history')] + [(f'history: {n}', g) for n, g in s.hist(c).inv()]
    def at_call(s, e, f, this, vals, n):
        c = Ctx(e, f, this, [v if isinstance(v, LV) else e.newcell(e.coerce_store(v, STRT), STRT, 'arg') for v in vals], e.st.copy(), s)
        for nm, g in s.pre(c): e.oblige(f'precondition of {s.name}: {nm}', g, n, kind='pre')
        e.event('feed', this, c.arg(0), e.st.copy())
        x = after_handler(e, None); e.st.events[-1] += (x,)
        h = s.hist(c)
        for _, g in h.inv(): e.assume(g)
        e.assume(And(c.F('current') != 0, c.F('globalScopeMenu') != 0))
        if x.exc is not None: raise ThrowX(x.exc)
        return None
class ExecFromHistory(Spec):
    qname = SES + '::ExecFromHistory'; throws = ('std::out_of_range', 'std::runtime_error') + UEXC; frame_any = True
    def hist(s, c): return history.H(c, c.R('history'))
    def pre(s, c):
        return [('the session has a current menu', c.F('current') != 0), ('the session has global commands', c.F('globalScopeMenu') != 0)] + [(f'history: {n}', g) for n, g in s.hist(c).inv()]
    def setup(s, c):
        c.e.assume(history.lim_ok(s.hist(c))); c.e.st.ghost.setdefault('log', Const('G_log', LOG))
    def forgotten(s, c):
        """the history once the line being executed is out of it (ForgetLatest)"""
        o = c.old(lambda: s.hist(c)); r = o.rec
        B = If(r, cat(history.tail(o.B), history.opt(o.ev, unit(o.le))), o.B); id = If(And(r, o.ev), o.id - 1, o.id)
        return B, id
    def hist_is(s, c, st):
        B, id = s.forgotten(c); cur = c.e.st; c.e.st = st
        try: h = s.hist(c)
        finally: c.e.st = cur
        return And(eq(h.B, B), h.id == id)
    def post(s, c, exc=None):
        e = c.e; st = e.st; n = c.oarg(0); B, id = s.forgotten(c); fh = c.O('fromHistory'); i = Int('i!')
        kept = And(n >= id, n < id + slen(B)); running = Exists([i], And(0 <= i, i < slen(fh), at(fh, i) == n), patterns=[at(fh, i)])
        ev = c.events()
        items = [('the entries being executed are those of before', eq(c.F('fromHistory'), fh))]
        if not ev:
            if exc is None: return items + [('an entry is executed', BoolVal(False))]
            return items + [('only an unknown number, or an entry that is being executed, executes nothing', Or(Not(kept), running)),
                ('an unknown number is an out-of-range error', Not(kept) if e.exc_is(exc, 'std::out_of_range') else kept),
                ('reported like any other exception', BoolVal(e.exc_is(exc, 'std::exception'))),
                ('the "!" line is not in the history, which is otherwise as before', s.hist_is(c, st)), ('nothing else changes', same_state(e, c.oldst, st, but=set(history.FIELDS) | {'fromHistory'})), ('nothing is printed', eqv(log_in(e, st), log_in(e, c.oldst)))]
        if len(ev) > 1 or ev[0][0] != 'feed': return items + [('exactly one line is executed', BoolVal(False))]
        y = ev[0]; this, line, before = y[1]; x = y[2]
        return items + [('only a number of the history executes something', kept), ('an entry never executes itself', Not(running)), ('exactly the text of the entry with that number is executed', And(this == c.this, eq(line, at(B, id + slen(B) - 1 - n)))),
            ('the "!" line is not in the history, which is otherwise as before', s.hist_is(c, before)), ('while it runs its number is known', eq(fval_in(e, before, 'fromHistory', c.this, SES), cat(fh, unit(n)))),
            ('nothing else happens before', And(same_state(e, c.oldst, before, but=set(history.FIELDS) | {'fromHistory'}), eqv(log_in(e, before), log_in(e, c.oldst)))),
            ('nothing else happens after', And(same_state(e, x.st, st, but={'fromHistory'}), eqv(log_in(e, st), x.log))), ('returns or throws as the line did', BoolVal(exc is x.exc))]
    def xpost(s, c): return s.post(c, c.exc)
specs['bang'] = ExecFromHistory()
units.append(FnUnit(specs['bang'], [FeedEv(), history.specs['forget'], history.specs['at']], dict(OPTS)))
