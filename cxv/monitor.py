"""Lock invariants: data guarded by a mutex may be used only while it is held; other threads may change it whenever it is not.

Every acquisition (lock_guard, unique_lock, lock(), return from a wait) havocs the guarded fields; every critical section is
recorded as two events with snapshots of the state: ('acquire', (mutex, state)) and ('release', (mutex, state)); notifications
are events ('notify', (condition variable, all?)).  What a section did is a relation between its two snapshots."""
from .engine import *
from .types import T, parse, sort_of
HELD = ArraySort(I, B)
class Monitor:
    def __init__(s, cls, mutex, fields, always=None, wake=None): s.wake = wake; s.cls, s.mutex, s.fields, s.always, s.own = cls, mutex, tuple(fields), always, {}
    def mref(s, e, ref): return e.ref(e.F(s.mutex, ref, s.cls))
    def held(s, e, m): return Select(e.gget('held', HELD), m)
    def access(s, e, cls, name, ref, n):
        if cls == s.cls and name in s.fields and not s.is_ctor(e): e.oblige(f'{name} is used only while the lock is held', s.held(e, s.mref(e, ref)), n, kind='lock')
    def is_ctor(s, e): return any(f.func is not None and f.func.node.get('kind') in ('CXXConstructorDecl',) and f.cls is not None and f.cls.qname == s.cls for f in e.frames)
    def acquire(s, e, m, n):
        e.oblige('the lock is not already held by this thread', Not(s.held(e, m)), n, kind='lock')
        e.gset('held', Store(e.gget('held', HELD), m, BoolVal(True)))
        s.interfere(e, m)
        e.event('acquire', m, e.st.copy())
    def interfere(s, e, m):
        """other threads: the guarded fields have any values allowed by the invariant"""
        owner = s.owner(e, m)
        for f in s.fields:
            lv = e.F(f, owner, s.cls); v = e.fresh('sh_' + f, sort_of(lv.t)); e.store(lv, v); e.type_inv(v, lv.t)
        if s.always is not None:
            for g in s.always(e, owner): e.assume(g)
    def owner(s, e, m):
        if z3.is_app(m) and m.num_args() == 1 and m.decl().name().startswith('sub_'): return m.arg(0)
        raise Unsupported('mutex that is not a member')
    def release(s, e, m, n):
        e.oblige('the lock is held when released', s.held(e, m), n, kind='lock')
        e.event('release', m, e.st.copy())
        e.gset('held', Store(e.gget('held', HELD), m, BoolVal(False)))
    # --- lock objects
    def construct(s, e, o, m, n):
        if m is None: raise Unsupported('lock without a mutex')
        s.acquire(e, e.ref(m), n); s.own[o.ref.get_id()] = e.ref(m); _k.append(o.ref)
        e.gset('owns', Store(e.gget('owns', HELD), o.ref, BoolVal(True)))
    def mutex_of(s, o):
        m = s.own.get(o.ref.get_id())
        if m is None: raise Unsupported('unknown lock')
        return m
    def destroy(s, e, o, n):
        if e.choose(Select(e.gget('owns', HELD), o.ref)): s.release(e, s.mutex_of(o), n)
    def method(s, e, name, b, bt, args, n):
        ref = b.ref if isinstance(b, LObj) else e.ref(b)
        if bt.k == 'mutex':
            if name == 'lock': s.acquire(e, ref, n); return None
            if name == 'unlock': s.release(e, ref, n); return None
        if bt.k == 'lock':
            m = s.mutex_of(b)
            if name == 'unlock': s.release(e, m, n); e.gset('owns', Store(e.gget('owns', HELD), ref, BoolVal(False))); return None
            if name == 'lock': s.acquire(e, m, n); e.gset('owns', Store(e.gget('owns', HELD), ref, BoolVal(True))); return None
            if name == 'owns_lock': return Select(e.gget('owns', HELD), ref)
        if bt.k == 'condvar':
            if name in ('notify_all', 'notify_one'): e.event('notify', ref, name == 'notify_all', e.st.copy()); return None
            if name == 'wait':
                a = [e.ev(x) for x in args if x.get('kind') != 'CXXDefaultArgExpr']
                m = s.mutex_of(a[0])
                if len(a) > 1: return s.wait_until(e, ref, a[0], lambda: e.truth(e.call_value(e.val(a[1]), [], n)), n)
                e.event('wait', ref)
                if len(a) == 1 and s.wake: e.oblige('it waits only if there is nothing to do', Not(s.wake(e, s.owner(e, m))), n, kind='lock')
                s.release(e, m, n); s.acquire(e, m, n)
                return None
        raise Unsupported(f'{bt.k}.{name}')
    def wait_until(s, e, ref, lock, pred, n):
        """with a predicate: it is evaluated with the lock held, and holds on return"""
        m = s.mutex_of(lock); e.event('wait', ref)
        s.release(e, m, n); s.acquire(e, m, n); p = pred()
        if s.wake: e.oblige('it does not go on waiting when there is something to do', Implies(s.wake(e, s.owner(e, m)), p), n, kind='lock')
        e.assume(p)
_k = []
