"""C19: LoopScheduler under its lock invariant: each critical section does one queue operation, tasks run outside of it."""
from cxv.verify import *
from cxv.monitor import Monitor, HELD
from cxv import logic as L

LS = 'cli::LoopScheduler'; ZERO = IntVal(0)
def monitor(): return Monitor(LS, 'mtx', ('tasks', 'running'), wake=lambda e, o: Or(Not(running(e, e.st, o)), slen(tasks(e, e.st, o)) > 0))
def running(e, st, this): return at_state(e, st, lambda: e.val(e.F('running', this, LS)))
def tasks(e, st, this): return at_state(e, st, lambda: e.val(e.F('tasks', this, LS)))
def at_state(e, st, f):
    cur = e.st; e.st = st
    try: return f()
    finally: e.st = cur
def tail(q): return sl(q, IntVal(1), slen(q))
def task_callback(e, ref, args, n):
    m = e.opts['monitor']; c = e.unitctx
    e.oblige('no task runs while the lock is held', Not(m.held(e, m.mref(e, c.this))), n, kind='lock')
    e.event('call', ref)
    if e.choose_any(2, 'throws') == 1: x = ExcV('a task'); e.st.events[-1] += (x,); raise ThrowX(x)
    return OpaqueV('task')
class Sched(Spec):
    frame_any = True; throws = ('a task',)
    def setup(s, c):
        e = c.e; e.opts['monitor'] = monitor(); e.callback = task_callback
        e.gset('held', Const('G_held', HELD)); e.gset('owns', Const('G_owns', HELD))
        e.assume(Not(e.opts['monitor'].held(e, e.opts['monitor'].mref(e, c.this))))
    def sections(s, c):
        """the critical sections of the call, in order: (state at entry, state at exit, index of the release); and their well-formedness"""
        ev = c.events(); secs = []; cur = None
        for i, x in enumerate(ev):
            if x[0] == 'acquire': cur = x[1][1]
            elif x[0] == 'release':
                if cur is not None: secs.append((cur, x[1][1], i))
                cur = None
        return secs, cur is None
    def common(s, c, exc=None):
        e = c.e; secs, closed = s.sections(c); m = e.opts['monitor']
        items = [('the lock is released', BoolVal(closed)), ('the lock is not held afterwards', Not(m.held(e, m.mref(e, c.this))))]
        ev = c.events(); cv = c.R('cv')
        R = lambda st: running(e, st, c.this); Q = lambda st: tasks(e, st, c.this)
        wake = lambda st: Or(Not(R(st)), slen(Q(st)) > 0)        # what a waiter waits for
        for a, b, i in secs:
            later = []
            for j, x in enumerate(ev):
                if x[0] == 'notify' and x[1][1]:
                    if j > i: later.append(x[1][0] == cv)
                    elif all(y[0] != 'acquire' for y in ev[j:i]): later.append(x[1][0] == cv)       # inside the section: who is woken looks at the state after it
            unblocks = Or(And(R(a), Not(R(b))), And(slen(Q(b)) > slen(Q(a))))
            items.append(('whatever can unblock a waiter comes with a notification of all waiters that none of them misses', Implies(unblocks, Or(*later) if later else BoolVal(False))))
        return items, secs
    def plain(s, c): return [x for x in c.events() if x[0] == 'call']
    def same(s, c, a, b): e = c.e; return And(running(e, a, c.this) == running(e, b, c.this), eq(tasks(e, a, c.this), tasks(e, b, c.this)))
    def waits(s, c): return any(x[0] == 'wait' for x in c.events())
class Post(Sched):
    qname = LS + '::Post'
    def post(s, c):
        e = c.e; items, secs = s.common(c)
        if not secs: return [('the task is queued', BoolVal(False))]
        for a, b, i in secs[:-1]: items.append(('the other sections change nothing', s.same(c, a, b)))
        a, b, _ = secs[-1]
        return items + [('exactly the task is added at the end of the queue', eq(tasks(e, b, c.this), cat(tasks(e, a, c.this), unit(c.oarg(0))))), ('the scheduler is otherwise as before', running(e, b, c.this) == running(e, a, c.this)), ('no task runs', BoolVal(not s.plain(c)))]
class Stop(Sched):
    qname = LS + '::Stop'
    def post(s, c):
        e = c.e; items, secs = s.common(c)
        if not secs: return [('the scheduler is stopped', BoolVal(False))]
        for a, b, i in secs[:-1]: items.append(('the other sections change nothing', s.same(c, a, b)))
        a, b, _ = secs[-1]
        return items + [('it is stopped', Not(running(e, b, c.this))), ('a notification of all waiters follows', BoolVal(any(x[0] == 'notify' and x[1][1] for x in c.events()))), ('the queue is as before', eq(tasks(e, b, c.this), tasks(e, a, c.this))), ('no task runs', BoolVal(not s.plain(c)))]
class Stopped(Sched):
    qname = LS + '::Stopped'
    def post(s, c):
        items, secs = s.common(c)
        if not secs: return [('reads the state', BoolVal(False))]
        return items + [('changes nothing', And(*[s.same(c, a, b) for a, b, _ in secs])), ('tells whether it is stopped', c.ret == Not(running(c.e, secs[-1][1], c.this))), ('no task runs', BoolVal(not s.plain(c)))]
class One(Sched):
    blocking = False
    def post(s, c, exc=None):
        e = c.e; items, secs = s.common(c); calls = s.plain(c)
        if not secs: return [('looks at the queue', BoolVal(False))]
        for a, b, _ in secs[:-1]: items.append(('waiting changes nothing', s.same(c, a, b)))
        a, b, i = secs[-1]; q, r = tasks(e, a, c.this), running(e, a, c.this)
        go = And(r, slen(q) > 0)
        if not s.blocking: items.append(('it never blocks', BoolVal(not s.waits(c))))
        if exc is None: items += [('true is returned exactly if a task was taken', c.ret == go)]
        else: items.append(('only a task throws', go))
        if s.blocking: items += [('it returns without a task only after a stop', Implies(Not(go), Not(r)))]
        items += [('exactly the oldest task is taken', Implies(go, And(eq(tasks(e, b, c.this), tail(q)), running(e, b, c.this) == r))), ('otherwise nothing changes', Implies(Not(go), s.same(c, a, b)))]
        if not calls: return items + [('the task taken is executed', Implies(go, at(q, ZERO) == 0))]
        if len(calls) > 1: return items + [('at most one task is executed', BoolVal(False))]
        items += [('a task is executed only if taken, never after a stop', go), ('it is the one taken', calls[0][1][0] == at(q, ZERO)), ('after it was removed', BoolVal([x for x in c.events() if x[0] in ('call', 'release')][-1][0] == 'call'))]
        if exc is not None: items.append(('what the task throws is passed on', BoolVal(len(calls[0]) > 3 and calls[0][3] is exc or calls[0][-1] is exc)))
        return items
    def xpost(s, c): return s.post(c, c.exc)
class ExecOne(One): qname = LS + '::ExecOne'; blocking = True
class PollOne(One): qname = LS + '::PollOne'
class ExecEv(Spec):
    """ExecOne for Run: false means stopped"""
    qname = LS + '::ExecOne'; throws = ('a task',); name = 'LoopScheduler::ExecOne'
    def at_call(s, e, f, this, vals, n):
        g = e.gget('stopped', ArraySort(I, B))
        e.oblige('nothing is executed after a stop', Not(Select(g, IntVal(0))), n, kind='pre')
        if e.choose_any(2, 'throws') == 1: raise ThrowX(ExcV('a task'))
        r = e.fresh('exec', B); e.gset('stopped', Store(g, IntVal(0), Not(r))); return r
def run_loop(e, n, entry, mods, rangelv, idx):
    def flag(x, v): return (f'{x} tells whether it is stopped', lambda lc: Select(e.gget('stopped', ArraySort(I, B)), IntVal(0)) == (Not(lc.cell(x)) if v else lc.cell(x)))
    return [flag(m[1], v) for m in sorted(mods) if m[0] == 'cell' and isinstance(entry.cells.get(m[1]), z3.BoolRef) for v in (True, False)] + [('not stopped yet', lambda lc: Not(Select(e.gget('stopped', ArraySort(I, B)), IntVal(0))))]
class Run(Sched):
    """runs tasks one after the other until a stop"""
    qname = LS + '::Run'; loops = [run_loop]
    def pre(s, c): return [('not stopped as far as this call knows', Not(Select(c.e.gget('stopped', ArraySort(I, B)), IntVal(0))))]
    def post(s, c): return [('it returns only after a stop', Select(c.e.gget('stopped', ArraySort(I, B)), IntVal(0)))]
class Dtor(Sched):
    qname = LS + '::~LoopScheduler'
    def post(s, c):
        items, secs = s.common(c)
        if not secs: return [('it is stopped', BoolVal(False))]
        return items + [('it is stopped', Not(running(c.e, secs[-1][1], c.this)))]
def new_scheduler(e, k):
    """a scheduler just constructed: nothing is queued and it is not stopped"""
    r = e.alloc('sched'); e.opts['monitor'] = None; e.gset('held', Const('G_held', HELD)); e.gset('owns', Const('G_owns', HELD))
    c = next((m for m in e.prog.classes[LS].methods if m.node['kind'] == 'CXXConstructorDecl' and not m.params), None)
    if c is not None and c.body is not None: e.run_ctor(e.prog.canon.get(c.id, c), e.prog.classes[LS], r, [], None)
    else: e.default_init(e.prog.classes[LS], r)
    k.claim('the queue is empty', slen(tasks(e, e.st, r)) == 0); k.claim('it is running', running(e, e.st, r))
specs = dict(post=Post(), stop=Stop(), stopped=Stopped(), exec=ExecOne(), poll=PollOne(), run=Run(), dtor=Dtor())
def order_lemmas(e):
    """history of the queue: everything posted = everything taken, then what is queued; each section keeps this"""
    P, X, Q, t = Const('posted', Str), Const('taken', Str), Const('queue', Str), Int('task')
    inv = lambda p, x, q: eq(p, cat(x, q))
    return [('initially', [], inv(STR.Emp, STR.Emp, STR.Emp)), ('a post keeps the order', [inv(P, X, Q)], inv(cat(P, unit(t)), X, cat(Q, unit(t)))),
            ('an execution takes the oldest task not yet taken, once', [inv(P, X, Q), slen(Q) > 0], And(inv(P, cat(X, unit(at(Q, ZERO))), tail(Q)), at(P, slen(X)) == at(Q, ZERO)))]
units = [FnUnit(v, [ExecEv()] if k == 'run' else []) for k, v in specs.items()] + [ScriptUnit('LoopScheduler: a new scheduler', new_scheduler), LemmaUnit('queue order', order_lemmas)]
