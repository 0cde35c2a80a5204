"""Contracts, verification units and their discharge.

A Spec is the contract of one function of /repo (looked up by qualified name in the AST of the current tree).
`verify` proves the body against it (callees by their own contract when the unit lists one, inlined otherwise);
`at_call` is how callers see it: precondition asserted, frame havocked, postcondition assumed.
"""
import time, traceback, os, sys
import z3
from .logic import *
from . import logic as L
from . import types as TY
from .types import T, parse, sort_of, rng
from .ast import ty, sty
from .engine import *
from .engine import _keep, ROOTS, ALLOC

ZERO_ = IntVal(0)
class Set:
    """postcondition item: lvalue has exactly this value (callers substitute it directly)"""
    def __init__(s, name, lv, value): s.name, s.lv, s.value = name, lv, value

class Ctx:
    def __init__(s, e, f, this, vals, old, spec):
        s.e, s.f, s.this, s.vals, s.oldst, s.spec = e, f, this, vals, old, spec; s.ret = None; s.exc = None; s.memo = {}; s.events0 = len(old.events) if old else 0
    def cls(s): return s.f.cls.qname
    # --- fields of *this (or of another object)
    def lv(s, name, ref=None, cls=None): return s.e.F(name, ref if ref is not None else s.this, cls or s.cls())
    def F(s, name, ref=None, cls=None):
        return s.e.val(s.lv(name, ref, cls))
    def R(s, name, ref=None, cls=None):
        """the object a (reference, pointer or class) field stands for"""
        return s.e.ref(s.lv(name, ref, cls))
    def O(s, name, ref=None, cls=None):
        return s.old(lambda: s.F(name, ref, cls))
    def old(s, th):
        cur = s.e.st; s.e.st = s.oldst
        try: return th()
        finally: s.e.st = cur
    # --- parameters
    def arglv(s, i): return s.vals[i]
    def arg(s, i):
        v = s.vals[i]
        return s.e.coerce_store(s.e.val(v), s.ptype(i)) if not isinstance(v, LObj) else v.ref
    def ptype(s, i):
        t = parse(ty(s.f.params[i]), s.e.prog)
        return t.a[0] if t.k == 'ref' else t
    def oarg(s, i): return s.old(lambda: s.arg(i))
    def log(s, ref): return s.e.log_of(ref)
    def olog(s, ref): return s.old(lambda: s.e.log_of(ref))
    def events(s): return s.e.st.events[s.events0:]
    def enum(s, ename, const):
        """value of an enumerator, by (suffix of the) enum name"""
        for q, d in s.e.prog.enums.items():
            if (q == ename or q.endswith('::' + ename)) and const in d: return IntVal(d[const])
        raise BindError(f'enumerator {ename}::{const} not found')

class Spec:
    name = None; qname = None; targs = None; nparams = None; throws = (); loops = (); prop = None
    trusted_note = None
    def key(s):
        if s.targs is not None: return (s.qname, tuple(s.targs))
        if s.nparams is not None: return (s.qname, s.nparams)
        return s.qname
    def find(s, prog):
        fs = [f for f in prog.fns(s.qname)]
        if s.targs is not None: fs = [f for f in fs if tuple(f.targs) == tuple(s.targs)]
        if s.nparams is not None: fs = [f for f in fs if len(f.params) == s.nparams]
        fs = [f for f in fs if s.pick(f)]
        if not fs: raise BindError(f'function {s.qname} not found in /repo')
        return fs[0]
    def pick(s, f): return True
    def pre(s, c): return []
    def frame(s, c): return []
    def post(s, c): return []
    def xpost(s, c): return []
    def setup(s, c): pass              # extra assumptions/ghost set-up in the verification of the body
    def lemma(s, c): pass              # ground instances of definitions, at exit
    def result(s, c, t): return None   # value of the result, when it is a term of the pre-state
    def __init__(s, **kw):
        for k, v in kw.items(): setattr(s, k, v)
        if s.name is None: s.name = (s.qname or type(s).__name__).replace('cli::detail::', '').replace('cli::', '')

    # ------------------------------------------------------------------ caller side
    def at_call(s, e, f, this, vals, n):
        old = e.st.copy()
        c = Ctx(e, f, this, [v.lv if isinstance(v, MoveV) else v for v in vals], old, s)
        for i, (v, p) in enumerate(zip(c.vals, f.params)):
            t = parse(ty(p), e.prog)
            if not isinstance(v, LV): 
                tt = t.a[0] if t.k == 'ref' else t
                if isinstance(v, (CStrV, InitV)): c.vals[i] = e.newcell(e.coerce_store(v, tt), tt, 'arg')
        old.cells = dict(e.st.cells)
        for nm, g in s.pre(c): e.oblige(f'precondition of {s.name}: {nm}', g, n, kind='pre')
        # exceptional outcome
        outcome = None
        if s.throws:
            k = e.choose_any(len(s.throws) + 1, 'throws')
            if k > 0: outcome = s.throws[k - 1]
            elif False: pass
        for fr in s.frame(c): s.havoc(e, fr)
        if outcome is not None:
            c.exc = ExcV(outcome)
            s.assume_items(e, c, s.xpost(c)); raise ThrowX(c.exc)
        rt = s.rettype(f, e.prog)
        if rt is not None and rt.k != 'void':
            c.ret = s.result(c, rt)
            if c.ret is None: c.ret = s.fresh_ret(e, rt)
        s.assume_items(e, c, s.post(c))
        s.effects(e, c)
        return c.ret
    def effects(s, e, c): pass
    def assume_items(s, e, c, items):
        for it in items:
            if isinstance(it, Set): e.store(it.lv, it.value)
        for it in items:
            if not isinstance(it, Set): e.assume(it[1])
    def havoc(s, e, fr):
        if isinstance(fr, tuple) and fr[0] == 'log':
            g = e.gget('log', ArraySort(I, Str)); e.gset('log', Store(g, fr[1], e.fresh('log', Str)))
        elif isinstance(fr, tuple) and fr[0] == 'ghost':
            g = e.gget(fr[1], fr[2] if len(fr) > 2 else None); e.gset(fr[1], e.fresh('g_' + fr[1], g.sort()))
        elif isinstance(fr, LV):
            so = sort_of(fr.t)
            v = e.fresh('hv', so); e.store(fr, v); e.type_inv(v, fr.t)
        else: raise Unsupported(f'frame item {fr}')
    def rettype(s, f, prog):
        t = f.ftype
        r = t.rsplit('->', 1)[1] if '->' in t else t[:TYPAREN(t)]
        r = r.strip()
        if r in ('', 'void'): return T('void')
        if r.endswith('&'): return parse(r, prog).a[0] if parse(r, prog).k == 'ref' else None
        return parse(r, prog)
    def fresh_ret(s, e, t):
        if t.k == 'pair': return PairV(s.fresh_ret(e, t.a[0]), s.fresh_ret(e, t.a[1]))
        if t.k == 'cls': raise Unsupported('contract returning an object')
        so = sort_of(t)
        if so is None: raise Unsupported(f'contract returning {t}')
        v = e.fresh('ret_' + (s.qname or 'r').split('::')[-1], so); e.type_inv(v, t)
        return v

    # ------------------------------------------------------------------ body side
    def make_param(s, e, p, i, nm=None):
        t = parse(ty(p), e.prog); name = nm or p.get('name') or f'p{i}'
        byref = t.k == 'ref'
        if byref: t = t.a[0]
        if t.k in ('cls', 'stream', 'opaque', 'mutex', 'condvar', 'lambda'):
            a = Const('arg_' + name, I); ROOTS.add(a.get_id()); _keep.append(a); e.assume(a > 0)
            for o in e.rootlist: e.assume(a != o)
            e.rootlist.append(a)
            return LObj(a, t)
        if t.k == 'pair':
            v = PairV(*[Const(f'arg_{name}{j}', sort_of(x)) for j, x in enumerate(t.a)])
            for j, x in enumerate(t.a): e.type_inv((v.a, v.b)[j], x)
            return e.newcell(v, t, name)
        if t.k == 'ptr' and t.a[0] == CHAR and not byref:      # a buffer: iterator into an arbitrary character sequence
            m = Const('mem_' + name, Str); e.type_inv(m, STRT)
            return e.newcell(IterV(e.newcell(m, STRT, 'mem_' + name), ZERO_), t, name)
        so = sort_of(t)
        if so is None: raise Unsupported(f'parameter of type {t}')
        v = Const('arg_' + name, so); e.type_inv(v, t)
        if t.k in ('ptr', 'sp', 'fn'): ROOTS.add(v.get_id()); _keep.append(v)
        return e.newcell(v, t, name)

    def verify(s, e):
        f = s.find(e.prog)
        e.opts.setdefault('unit', s.name)
        e.loop_templates = list(s.loops) + list(e.loop_templates)
        res = dict(normal=0, exc=0, live=0)
        def once():
            e.rootlist = []
            this = None
            if f.cls is not None and not f.static:
                this = Const('this', I); ROOTS.add(this.get_id()); _keep.append(this); e.assume(this > 0)
                e.rootlist.append(this)
                e.opts.setdefault('dynamic', {})[this.get_id()] = f.cls.qname
            c = Ctx(e, f, this, [], None, s)
            c.vals = [s.make_param(e, p, i) for i, p in enumerate(f.params)]
            c.oldst = e.st
            s.setup(c)
            for nm, g in s.pre(c): e.assume(g)
            c.oldst = e.st.copy(); c.events0 = len(e.st.events)
            c.framelvs = s.frame(c)
            e.unitctx = c
            oldw, e.writes = e.writes, set()
            fr = Frame(f, {}, this, f.cls)
            e.frames.append(fr)
            try:
                for p, v in zip(f.params, c.vals): fr.env[p['id']] = v if isinstance(v, LV) else v
                if f.node['kind'] == 'CXXConstructorDecl':
                    e.frames.pop(); e.run_ctor(f, f.cls, this, c.vals, f.node); e.frames.append(fr)
                else:
                    try: e.ex(f.body); r = None
                    except ReturnX as x: r = x.v
                    c.ret = r
                kind = 'normal'
            except ThrowX as x:
                c.exc = x.e; kind = 'exc'
            finally:
                w, e.writes = e.writes, oldw
                e.frames = e.frames[:0]
            e.frames.append(Frame(f, {}, this, f.cls))
            try:
                s.lemma(c)
                if kind == 'exc':
                    if not any(e.exc_is(c.exc, t) for t in s.throws):
                        e.oblige(f'no {c.exc.cls} escapes', BoolVal(False), f.node, kind='exception')
                    items = s.xpost(c)
                else: items = s.post(c)
                for it in items:
                    if isinstance(it, Set): e.oblige(f'post: {it.name}', eq(e.val(it.lv), it.value), f.node, kind='post')
                    else: e.oblige(f'post: {it[0]}', it[1], f.node, kind='post')
                s.check_frame(e, c, w, f)
            finally: e.frames.pop()
            res[kind] += 1
            if e._feas(e.path.pc): res['live'] += 1
        e.run_paths(once)
        return f, res

    def check_frame(s, e, c, w, f):
        if s.frame_any: return
        allowed = c.framelvs
        for x in sorted(w, key=repr):
            if x[0] == 'heap':
                key, ref = x[1], x[2]
                if ALLOC.get(ref.get_id()) and not is_root(ref): continue
                if e.rooted_in_alloc(ref): continue
                ok = [a.ref for a in allowed if isinstance(a, LField) and a.key == key]
                if any(r.eq(ref) for r in ok): continue
                if ('heapany', key) in [a for a in allowed if isinstance(a, tuple)]: continue
                e.oblige(f'frame: {key[-1]} of other objects unchanged', Or(*[r == ref for r in ok]) if ok else BoolVal(False), f.node, kind='frame')
            elif x[0] == 'glog':
                ok = [a[1] for a in allowed if isinstance(a, tuple) and a[0] == 'log']
                if any(r.eq(x[1]) for r in ok) or e.rooted_in_alloc(x[1]): continue
                e.oblige('frame: output only on the declared stream', Or(*[r == x[1] for r in ok]) if ok else BoolVal(False), f.node, kind='frame')
            elif x[0] == 'ghost' and x[1] != 'log':
                if any(isinstance(a, tuple) and a[0] == 'ghost' and a[1] == x[1] for a in allowed): continue
                if x[1] in ('inrem', 'ineof', 'infail'): continue
                e.oblige(f'frame: {x[1]} unchanged', eqv(e.st.ghost[x[1]], c.old(lambda: e.gget(x[1], e.st.ghost[x[1]].sort()))), f.node, kind='frame')
            elif x[0] == 'cell':
                for i, (v, p) in enumerate(zip(c.vals, f.params)):
                    t = parse(ty(p), e.prog)
                    if isinstance(v, LVar) and v.cell == x[1] and t.k == 'ref' and not sty(p).startswith('const'):
                        if not any(isinstance(a, LVar) and a.cell == x[1] for a in allowed):
                            e.oblige(f'frame: argument {p.get("name")} unchanged', eq(e.val(v), c.old(lambda: e.val(v))), f.node, kind='frame')
    frame_any = False

def TYPAREN(t):
    """index of the parameter list in a function type string"""
    d = 0; i = len(t)
    e = t.rfind(')')
    for i in range(e, -1, -1):
        if t[i] == ')': d += 1
        elif t[i] == '(':
            d -= 1
            if d == 0: return i
    return 0

def eqv(a, b): return BoolVal(True) if a.eq(b) else a == b

class Result:
    def __init__(s, name): s.name = name; s.obs = []; s.error = None; s.kind = 'ok'; s.paths = 0; s.inlined = []; s.used = []; s.trusted = []; s.time = 0; s.live = 1; s.func = ''; s.loops = []; s.queries = 0; s.loc = None

def run_unit(unit, prog, deadline=None):
    """unit: object with .name and .run(engine) ; returns a picklable Result"""
    r = Result(unit.name); t = time.time()
    e = unit.engine(prog) if hasattr(unit, 'engine') else Engine(prog)
    e.deadline = time.time() + deadline if deadline else None
    q0 = L.STATS['queries']
    try:
        out = unit.run(e)
        if out: r.live = out.get('live', 1)
        if out and out.get('func'): r.func = out['func']; r.loc = out.get('loc')
    except BindError as x: r.error, r.kind = f'binding: {x}', 'unsupported'
    except Unsupported as x: r.error, r.kind = f'{x}', 'unsupported'
    except PathEnd: r.error, r.kind = 'no feasible path', 'unsupported'
    except ThrowX as x: r.error, r.kind = f'escaped {x.e}', 'unsupported'
    except Exception as x:
        r.error, r.kind = 'internal: ' + ''.join(traceback.format_exception_only(type(x), x)).strip() + ' @ ' + '; '.join(f'{os.path.basename(a.filename)}:{a.lineno}' for a in traceback.extract_tb(x.__traceback__)[-3:]), 'unsupported'
        r.tb = traceback.format_exc()
    for o in e.obs: r.obs.append(dict(name=o.name, loc=o.loc, res=o.res, kind=o.kind, time=round(o.time, 3), goal=(str(o.goal)[:1500] if o.res != 'proved' else None), path=list(o.path)))
    r.paths = e.npaths; r.inlined = sorted(e.inlined); r.used = sorted(e.used_contracts); r.trusted = sorted(e.trusted); r.loops = e.log_loops
    r.time = time.time() - t; r.queries = L.STATS['queries'] - q0
    if r.kind == 'ok' and not r.live and all(o['res'] == 'proved' for o in r.obs): r.error, r.kind = 'vacuous: no path reaches an exit with satisfiable assumptions', 'unsupported'
    return r

class FnUnit:
    """verify the body of one function against its Spec"""
    def __init__(s, spec, contracts=(), opts=None, loops=(), init=None, final=()):
        s.spec, s.contracts, s.opts, s.loops, s.init = spec, contracts, dict(opts or {}), loops, init; s.name = spec.name
    def engine(s, prog):
        o = dict(s.opts); o['unit'] = s.name
        e = Engine(prog, {}, o)
        for c in s.contracts: e.contracts[c.key()] = c
        e.loop_templates = list(s.loops)
        if s.init: s.init(e)
        return e
    def run(s, e):
        f, res = s.spec.verify(e)
        return dict(live=res['live'], func=f.qname + (f"<{', '.join(f.targs)}>" if f.targs else ''), loc=e.loc(f.node))

class LemmaUnit:
    """named obligations over spec functions only"""
    def __init__(s, name, fn): s.name, s.fn = name, fn
    def run(s, e):
        for nm, hyps, goal in s.fn(e):
            t = time.time(); r = L.prove(hyps, goal, 20000)
            e.obs.append(Ob(f'{s.name}: {nm}', None, goal, None, r, time.time() - t, 'lemma'))
        return dict(live=1)

class Script:
    """straight-line program over contracts"""
    def __init__(s, e, name): s.e, s.name = e, name
    def obj(s, cls, nm='obj'):
        e = s.e; a = Const(nm, I); ROOTS.add(a.get_id()); _keep.append(a); e.assume(a > 0)
        for o in e.rootlist: e.assume(a != o)
        e.rootlist.append(a); e.opts.setdefault('dynamic', {})[a.get_id()] = cls
        return a
    def ctx(s, cls, this):
        class F_: pass
        f = F_(); f.cls = s.e.prog.classes[cls]; f.params = []
        return Ctx(s.e, f, this, [], s.e.st.copy(), Spec())
    def assume(s, *g):
        for x in g: s.e.assume(x)
    def call(s, spec, this, vals):
        e = s.e; f = spec.find(e.prog); vs = []
        for v, p in zip(vals, f.params):
            t = parse(ty(p), e.prog); t = t.a[0] if t.k == 'ref' else t
            vs.append(v if isinstance(v, (LV,)) else e.newcell(v, t, 'arg'))
        e.frames.append(Frame(f, {}, this, f.cls))
        try: return spec.at_call(e, f, this, vs, f.node)
        finally: e.frames.pop()
    def claim(s, nm, g): s.e.oblige(nm, g, None, kind='lemma')

class ScriptUnit:
    """lemma about a sequence of operations, each replaced by its contract"""
    def __init__(s, name, fn, contracts=(), opts=None): s.name, s.fn, s.contracts, s.opts = name, fn, contracts, dict(opts or {})
    def engine(s, prog):
        e = Engine(prog, {}, dict(s.opts, unit=s.name))
        for c in s.contracts: e.contracts[c.key()] = c
        return e
    def run(s, e):
        live = [0]
        def once():
            e.rootlist = []
            s.fn(e, Script(e, s.name))
            if e._feas(e.path.pc): live[0] += 1
        e.run_paths(once)
        return dict(live=live[0], func=s.name)
