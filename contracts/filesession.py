"""C20/C17: CliFileSession: which lines of the input are executed, when reading stops, how the session ends."""
from cxv.verify import *
from cxv import logic as L
from contracts.dispatch import UEXC, lit
from contracts.session import Ev
from cxv.stl import NLIdx

S = 'cli::CliSession'; FS = 'cli::CliFileSession'
AB = ArraySort(I, B); ASTR = ArraySort(I, Str)
G = dict(unread=Str, prompted=B, entered=I, byuser=B, closed=B)
def g(e, k): return e.gget(k, G[k])
def sg(e, k, v): e.gset(k, v)
def exitlv(e, this): return e.F('exit', this, S)
def inref(e, this): return e.ref(e.F('in', this, FS))
def good(e, r): return And(Not(e.in_eof(r)), Not(e.in_fail(r)))
def user_code(e, this, old):
    """user code ran: it may end the session, but not undo its end"""
    x = e.fresh('exit', B); e.assume(Implies(old, x)); e.store(exitlv(e, this), x); return x
class Base(Spec):
    def thrown(s, e):
        k = e.choose_any(len(UEXC) + 1, 'throws')
        if k: raise ThrowX(ExcV(UEXC[k - 1]))
class EnterC(Base):
    qname = S + '::Enter'
    def at_call(s, e, f, this, vals, n):
        e.oblige('the session is entered once, before anything is read', And(g(e, 'entered') == 0, e.in_rem(inref(e, this)) == g(e, 'unread')), n, kind='pre')
        sg(e, 'entered', g(e, 'entered') + 1)
        old = e.val(exitlv(e, this)); x = user_code(e, this, old); sg(e, 'byuser', Or(g(e, 'byuser'), x)); s.thrown(e)
class PromptC(Base):
    qname = S + '::Prompt'
    def at_call(s, e, f, this, vals, n):
        e.oblige('the session was entered before the prompt', g(e, 'entered') == 1, n, kind='pre')
        e.oblige('one prompt for each line', Implies(Not(e.val(exitlv(e, this))), Not(g(e, 'prompted'))), n, kind='pre')
        sg(e, 'prompted', Not(e.val(exitlv(e, this))))
class ExitC(Base):
    qname = S + '::Exit'
    def at_call(s, e, f, this, vals, n):
        e.oblige('the session is ended only at end of input', Or(g(e, 'closed'), Not(good(e, inref(e, this)))), n, kind='pre')
        e.oblige('no line is left unexecuted when the input ends', Or(g(e, 'closed'), NLIdx(g(e, 'unread')) == slen(g(e, 'unread'))), n, kind='pre')
        e.store(exitlv(e, this), BoolVal(True)); s.thrown(e)
class FeedC(Base):
    qname = S + '::Feed'
    def at_call(s, e, f, this, vals, n):
        r = inref(e, this); u = g(e, 'unread'); line = e.coerce_store(e.val(vals[0]), STRT); ex = e.val(exitlv(e, this))
        # once the input has failed the line is empty: executing it does nothing (contract of Feed), also after the end
        if e.entails(Or(Not(e.in_fail(r)), slen(line) > 0, Not(ex))) == 'proved' or e.choose(Not(And(ex, slen(line) == 0, e.in_fail(r)))):
            e.oblige('a line is executed only in a session that has not ended', Not(ex), n, kind='pre')
            e.oblige('after its prompt', g(e, 'prompted'), n, kind='pre')
            e.oblige('only newline-terminated lines are executed', NLIdx(u) < slen(u), n, kind='pre')
            e.oblige('the line executed is the next line of the input, without its newline', eq(line, sl(u, IntVal(0), NLIdx(u))), n, kind='pre')
            e.oblige('nothing beyond the line has been read', eq(e.in_rem(r), sl(u, NLIdx(u) + 1, slen(u))), n, kind='pre')
            sg(e, 'prompted', BoolVal(False))
            # the handler may itself read from the stream
            e.in_set(r, rem=e.fresh('rem', Str), eof=e.fresh('eof', B), fail=e.fresh('fail', B)); sg(e, 'unread', e.in_rem(r)); sg(e, 'closed', Not(good(e, r)))
            x = user_code(e, this, ex); sg(e, 'byuser', Or(g(e, 'byuser'), x)); s.thrown(e)
CONTRACTS = [EnterC(), PromptC(), ExitC(), FeedC()]
def start_loop(e, n, entry, mods, rangelv, idx):
    this = e.unitctx.this; r = lambda: inref(e, this)
    ex = lambda: e.val(exitlv(e, this))
    return [('entered', lambda lc: g(e, 'entered') == 1),
            ('while the session runs nothing but executed lines has been read', lambda lc: Implies(Not(ex()), And(e.in_rem(r()) == g(e, 'unread'), g(e, 'closed') == Not(good(e, r())), Not(g(e, 'prompted'))))),
            ('a command that ends the session ends it', lambda lc: Implies(g(e, 'byuser'), ex())),
            ('the session ended by a command, or at the end of the input', lambda lc: Implies(ex(), Or(g(e, 'byuser'), g(e, 'closed'), And(NLIdx(g(e, 'unread')) == slen(g(e, 'unread')), e.in_eof(r()))))),
            ('a line that ends the session is the last one read', lambda lc: Implies(And(ex(), g(e, 'byuser'), Not(g(e, 'closed'))), e.in_rem(r()) == g(e, 'unread')))]
class Start(Spec):
    qname = FS + '::Start'; frame_any = True; throws = UEXC; loops = [start_loop]
    def setup(s, c):
        e = c.e; r = inref(e, c.this)
        for k, so in (('inrem', ASTR), ('ineof', AB), ('infail', AB)): e.gget(k, so)
        e.assume(r > 0)
        for k, so in G.items(): e.gset(k, Const('G_' + k, so))
        e.assume(And(g(e, 'entered') == 0, Not(g(e, 'prompted')), Not(g(e, 'byuser')), g(e, 'unread') == e.in_rem(r), g(e, 'closed') == Not(good(e, r)), Not(c.F('exit'))))
    def post(s, c):
        e = c.e; r = inref(e, c.this)
        return [('it returns only when the session has ended', c.F('exit')), ('entered exactly once', g(e, 'entered') == 1),
                ('ended by a command, or after the last line of the input', Or(g(e, 'byuser'), g(e, 'closed'), NLIdx(g(e, 'unread')) == slen(g(e, 'unread')))),
                ('nothing is read after the line that ended the session', Implies(And(g(e, 'byuser'), Not(g(e, 'closed'))), e.in_rem(r) == g(e, 'unread')))]
class Ctor(Spec):
    qname = FS + '::CliFileSession'; frame_any = True; throws = ('std::invalid_argument',)
    def ok(s, c):
        def f():
            e = c.e; i, o = c.vals[1].ref, c.vals[2].ref
            return And(good(e, i), good(e, o))
        return c.old(f)
    def setup(s, c):
        for k, so in (('inrem', ASTR), ('ineof', AB), ('infail', AB)): c.e.gget(k, so)
    def post(s, c):
        ev = c.events()
        if [x[0] for x in ev] != ['session']: return [('it is one session', BoolVal(False))]
        v = ev[0][1]
        return [('created only on valid streams', s.ok(c)), ('on the given cli and output stream', And(v[0] == c.this, v[1] == c.vals[0].ref, v[2] == c.vals[2].ref)), ('it reads from the given stream', inref(c.e, c.this) == c.vals[1].ref),
                ('nothing is read yet', eq(c.e.in_rem(c.vals[1].ref), c.old(lambda: c.e.in_rem(c.vals[1].ref))))]
    def xpost(s, c): return [('refused only if a stream is invalid', Not(s.ok(c)))]
units = [FnUnit(Start(), CONTRACTS), FnUnit(Ctor(), [Ev(qname=S + '::CliSession', nparams=3, ev='session', name='CliSession::CliSession')])]
