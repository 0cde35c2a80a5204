"""cxv engine: path-wise symbolic execution of clang ASTs with contracts, loop invariants and proof obligations.

Direct style: C++ code is interpreted once per path by plain Python code; `choose` forks by re-execution from a
decision prefix.  Loops are cut by invariants (Houdini over automatic and contract-supplied candidates), calls are
cut by contracts where the unit has one for the callee and inlined otherwise.
"""
import z3, time, re
from .logic import *
from . import logic as L
from . import types as TY
from .types import T, parse, sort_of, rng, BOOL, STRT, INT, CHAR, SIZE, VOID
from .ast import ty, sty

class Unsupported(Exception): pass
class BindError(Unsupported): pass
class PathEnd(Exception): pass
class BreakX(Exception): pass
class ContinueX(Exception): pass
class ReturnX(Exception):
    def __init__(s, v): s.v = v
class ThrowX(Exception):
    def __init__(s, e): s.e = e

class ExcV:
    """a C++ exception object: class name (with its known bases) and message"""
    def __init__(s, cls, what=None): s.cls, s.what = cls, what
    def __repr__(s): return f'<exception {s.cls}>'
HIER = {'cli::detail::bad_conversion': 'std::bad_cast', 'cli::bad_conversion': 'std::bad_cast', 'std::bad_cast': 'std::exception',
        'std::out_of_range': 'std::logic_error', 'std::invalid_argument': 'std::logic_error', 'std::length_error': 'std::logic_error',
        'std::logic_error': 'std::exception', 'std::runtime_error': 'std::exception', 'std::bad_function_call': 'std::exception',
        'std::bad_alloc': 'std::exception', 'std::system_error': 'std::runtime_error', 'boost::system::system_error': 'std::system_error',
        'user_exception': 'std::exception', 'std::overflow_error': 'std::runtime_error', 'std::domain_error': 'std::logic_error',
        'std::bad_weak_ptr': 'std::exception', 'std::range_error': 'std::runtime_error'}
KNOWN_EXC = set(HIER) | {'std::exception', 'user_nonstd'}

# ---------------------------------------------------------------- values
class LV: pass
class LVar(LV):
    def __init__(s, cell, t): s.cell, s.t = cell, t
class LField(LV):
    def __init__(s, key, ref, t): s.key, s.ref, s.t = key, ref, t
class LElem(LV):
    def __init__(s, lv, idx, t): s.lv, s.idx, s.t = lv, idx, t
class LPair(LV):
    def __init__(s, lv, i, t): s.lv, s.i, s.t = lv, i, t
class LRec(LV):
    """member of a C record"""
    def __init__(s, lv, name, t): s.lv, s.name, s.t = lv, name, t; s.i = IntVal(POD_FIELDS.setdefault(name, len(POD_FIELDS)))
POD_FIELDS = {}
class LObj(LV):
    def __init__(s, ref, t): s.ref, s.t = ref, t
class LVal(LV):
    """a temporary bound to a reference"""
    def __init__(s, v, t): s.v, s.t = v, t

class PairV:
    def __init__(s, a, b): s.a, s.b = a, b
class IterV:
    def __init__(s, lv, idx, move=False, rev=False): s.lv, s.idx, s.move, s.rev = lv, idx, move, rev
class MoveV:
    def __init__(s, lv): s.lv = lv
class CStrV:
    def __init__(s, b): s.b = b
class ClosureV:
    def __init__(s, node, env, this, rec): s.node, s.env, s.this, s.rec = node, env, this, rec
class FuncV:
    def __init__(s, decl): s.decl = decl
class InitV:
    def __init__(s, vals): s.vals = vals
class OpaqueV:
    def __init__(s, what): s.what = what
class ManipV:
    def __init__(s, name): s.name = name
def const_qual(n): return (n.get('type') or {}).get('qualType', '').startswith('const ')
class ArrV:
    def __init__(s, seq): s.seq = seq
NONE = None

class Ob:
    __slots__ = ('name', 'hyps', 'goal', 'loc', 'res', 'time', 'kind', 'path')
    def __init__(s, name, hyps, goal, loc, res, time, kind='', path=()):
        s.name, s.hyps, s.goal, s.loc, s.res, s.time, s.kind, s.path = name, hyps, goal, loc, res, time, kind, path

Orig = Function('copy_of', I, I)
class Path:
    def __init__(s, prefix, pc): 
        s.prefix, s.decisions, s.pc, s.alts = prefix, [], list(pc), []
        s.seen = set(); s.n = 0

class Frame:
    def __init__(s, func, env, this, cls=None, rett=None): s.func, s.env, s.this, s.cls = func, env, this, cls; s.scopes = []; s.rett = rett if rett is not None else (func.ftype if func is not None else '')

class State:
    def __init__(s): s.cells, s.heap, s.ghost, s.events, s.epoch = {}, {}, {}, [], ''
    def copy(s):
        o = State(); o.cells, o.heap, o.ghost, o.events = dict(s.cells), dict(s.heap), dict(s.ghost), list(s.events); o.epoch = s.epoch; return o

from .stl import StlMixin

def hsel(arr, ref):
    a = arr
    while a.num_args() == 3 and a.decl().kind() == z3.Z3_OP_STORE:
        if a.arg(1).eq(ref): return a.arg(2)
        if distinct_refs(a.arg(1), ref): a = a.arg(0); continue
        return Select(a, ref)
    return Select(a, ref)

ALLOC = {}
def distinct_refs(a, b):
    x, y = num_shallow(a), num_shallow(b)
    if x is not None and y is not None: return x != y
    ka, kb = ALLOC.get(a.get_id()), ALLOC.get(b.get_id())
    if ka and kb: return ka != kb
    if ka and is_root(b) or kb and is_root(a): return True
    # sub-objects of different fields
    if a.num_args() == 1 and b.num_args() == 1 and a.decl().name().startswith('sub_') and b.decl().name().startswith('sub_') and not a.decl().eq(b.decl()): return True
    return False
ROOTS = set()
def is_root(t): return t.get_id() in ROOTS
_keep = []
from .logic import num_shallow

class Engine(StlMixin):
    def __init__(s, prog, contracts=None, opts=None):
        s.prog = prog; s.contracts = contracts or {}; s.opts = opts or {}
        s.obs = []; s.st = State(); s.path = None; s.frames = []; s.recording = True
        s.proved = {}; s.loopcache = {}; s.loop_templates = []; s.log_loops = []
        s.timeout = s.opts.get('timeout', 8000); s.writes = None; s.inlined = set(); s.used_contracts = set()
        s.trusted = set(); s.nq = 0; s.deadline = None; s.virtuals = {}; s.callback = None; s.inv_hook = None
        s.fn_table = {}; s.npaths = 0; s.depth = 0; s.loopk = []; s.covered = set()
        s.wrap_ctx = None; s.ctor_obj = None; s.dyncls = {}

    # ------------------------------------------------------------ path machinery
    def fresh(s, name, sort):
        s.path.n += 1
        return Const(f'{name}#{s.path.n}{s.path.tag if hasattr(s.path, "tag") else ""}', sort)

    def ctxpath(s): return tuple(s.path.decisions)

    def assume(s, f):
        if isinstance(f, bool): raise TypeError("a formula is expected")
        if is_true(f): return
        if is_false(f): raise PathEnd()
        s.path.pc.append(f)

    def _feas(s, hyps):
        key = tuple(h.get_id() for h in hyps)
        r = s.proved.get(('f', key))
        if r is None:
            if s.deadline and time.time() > s.deadline: raise Unsupported('time budget of the unit exhausted')
            r = feasible(hyps, s.opts.get('feas_ms', 400)); s.proved[('f', key)] = r; _keep.append(hyps)
        return r

    def entails(s, goal, hyps=None, timeout=None):
        hyps = s.path.pc if hyps is None else hyps
        if is_true(goal): return 'proved'
        key = ('p', tuple(h.get_id() for h in hyps), goal.get_id())
        r = s.proved.get(key)
        if r is None:
            if s.deadline and time.time() > s.deadline: raise Unsupported('time budget of the unit exhausted')
            r = prove(hyps, goal, timeout or s.timeout)
            s.proved[key] = r; _keep.append((list(hyps), goal))
        return r

    def choose(s, c):
        if isinstance(c, bool): return c
        if is_true(c): return True
        if is_false(c): return False
        p = s.path; i = len(p.decisions)
        if i < len(p.prefix):
            d = p.prefix[i]
        else:
            c1 = simp(c)
            if is_true(c1): d = True
            elif is_false(c1): d = False
            else:
                t = s._feas(p.pc + [c]); f = s._feas(p.pc + [Not(c)])
                if not t and not f: raise PathEnd()
                if t and f:
                    p.alts.append(tuple(p.decisions) + (False,)); d = True
                else: d = t
        p.decisions.append(d)
        s.assume(c if d else Not(c))
        return d

    def choose_any(s, n, name='pick'):
        """demonic choice among n alternatives"""
        for i in range(n - 1):
            if s.choose(s.fresh(name, B)): return i
        return n - 1

    def at_front(s): return len(s.path.decisions) >= len(s.path.prefix)

    def oblige(s, name, goal, node=None, kind='safety'):
        if isinstance(goal, bool): goal = BoolVal(goal)
        if s.recording and s.at_front():
            loc = s.loc(node)
            t = time.time(); nm = f'{s.where()}: {name}'
            r = s.entails(goal)
            s.obs.append(Ob(nm, list(s.path.pc) if r != 'proved' else None, goal, loc, r, time.time() - t, kind, tuple(s.path.decisions)))
        s.assume(goal)

    def where(s):
        return s.frames[-1].func.qname.replace('cli::detail::', '').replace('cli::', '') if s.frames and s.frames[-1].func else (s.opts.get('unit') or '?')
    def loc(s, node):
        l = node.get('_loc') if isinstance(node, dict) else None
        if l and l[0]: return f'{l[0].replace("/repo/", "")}:{l[1]}'
        return None

    def run_paths(s, thunk, maxpaths=4000):
        base_state = s.st.copy(); base_frames = list(s.frames); envs = [dict(f.env) for f in s.frames]; scopes = [[list(x) for x in f.scopes] for f in s.frames]
        outer = s.path; pc0 = list(outer.pc) if outer else []; n0 = outer.n if outer else 0
        tag = (getattr(outer, 'tag', '') + "'") if outer else ''
        work = [()]; n = 0
        try:
            while work:
                prefix = work.pop()
                s.path = Path(prefix, pc0); s.path.n = n0; s.path.tag = tag
                s.path.seen = set(outer.seen) if outer else set()
                s.st = base_state.copy(); s.frames = list(base_frames)
                for f, e, sc_ in zip(s.frames, envs, scopes): f.env = dict(e); f.scopes = [list(x) for x in sc_]
                try: thunk()
                except PathEnd: pass
                work.extend(s.path.alts); n += 1
                if n > maxpaths: raise Unsupported('too many paths')
                if s.deadline and time.time() > s.deadline: raise Unsupported('time budget of the unit exhausted')
        finally:
            s.path = outer; s.st = base_state; s.frames = base_frames
            for f, e, sc_ in zip(s.frames, envs, scopes): f.env = e; f.scopes = sc_
        s.npaths += n
        return n

    # ------------------------------------------------------------ memory
    def newcell(s, v, t, name='v'):
        s.path.n += 1
        cid = f'{name}@{s.path.n}{s.path.tag}'
        s.st.cells[cid] = v
        return LVar(cid, t)

    def alloc(s, name, t=None):
        a = s.fresh('obj_' + name, I)
        ALLOC[a.get_id()] = str(a); _keep.append(a)
        s.assume(a > 0)
        return a

    def harr(s, key, sort):
        h = s.st.heap.get(key)
        if h is None:
            h = Array('H_' + '_'.join(str(k).replace('cli::detail::', '').replace('cli::', '') for k in key) + (s.st.epoch if not s.immutable(key) else ''), I, sort)
            s.st.heap[key] = h
        return h

    def immutable(s, key):
        """no code outside of construction can change this field: const and reference members, and those listed by the unit"""
        if key in s.opts.get('immutable', ()) or key in s.prog.__dict__.get('_spstatic', ()): return True
        im = s.prog.__dict__.get('_immut')
        if im is None:
            im = s.prog._immut = {(c.qname, f.get('name')) for c in s.prog.clsbyid.values() for f in c.fields
                                  if sty(f).startswith('const ') and not sty(f).rstrip().endswith('*') or sty(f).rstrip().endswith('&')}
        return key in im
    def havoc_all(s, keep_ghost=()):
        """unknown code ran: every mutable field of every object and every output may have changed (locals it cannot reach are kept)"""
        s.path.n += 1
        s.st.epoch = f'~{s.path.n}{s.path.tag}'
        for key, h in list(s.st.heap.items()):
            if not s.immutable(key): s.st.heap[key] = s.fresh('hu_' + str(key[-1])[:20], h.sort())
        for g, v in list(s.st.ghost.items()):
            if g not in keep_ghost: s.st.ghost[g] = s.fresh('gu_' + g, v.sort())

    def load(s, lv):
        if isinstance(lv, LVar):
            v = s.st.cells.get(lv.cell)
            if v is None and lv.cell not in s.st.cells: raise Unsupported('dangling local')
            return v
        if isinstance(lv, LVal): return lv.v
        if isinstance(lv, LField):
            so = sort_of(lv.t)
            if so is None: raise Unsupported(f'field of type {lv.t}')
            v = hsel(s.harr(lv.key, so), lv.ref)
            s.type_inv(v, lv.t)
            return v
        if isinstance(lv, LElem):
            c = s.load(lv.lv)
            if isinstance(c, ArrV): c = c.seq
            if isinstance(c, InitV): return s.val(c.vals[num(lv.idx)])
            v = at(c, lv.idx)
            s.type_inv(v, lv.t)
            return v
        if isinstance(lv, LPair):
            p = s.load(lv.lv)
            return p.a if lv.i == 0 else p.b
        if isinstance(lv, LObj): return lv
        if isinstance(lv, LOne): return unit(s.load(lv.lv))
        if isinstance(lv, LRec):
            v = Select(s.load(lv.lv), lv.i); s.type_inv(v, lv.t); return v
        raise Unsupported(f'load {lv}')

    def type_inv(s, v, t):
        """facts that hold of every value of a type: machine range, declared enumerators, physical size limit"""
        if not isinstance(v, z3.ExprRef): return
        k = v.get_id()
        if k in s.path.seen: return
        s.path.seen.add(k); _keep.append(v)
        r = rng(t); g = None
        if is_int_value(v): return
        if r: g = And(v >= r[0], v <= r[1])
        elif t.k == 'enum':
            vals = sorted(s.prog.enums.get(t.name, {}).values())
            if vals: g = Or(*[v == x for x in vals]) if len(vals) != vals[-1] - vals[0] + 1 else And(v >= vals[0], v <= vals[-1])
        elif t.k in ('ptr', 'sp', 'fn', 'stream'): g = v >= 0
        elif is_seq(v): g = slen(v) <= (1 << 60)
        if g is not None: s.path.__dict__.setdefault('typefacts', {})[g.get_id()] = g; s.assume(g)
    def fact(s, g):
        """holds by definition of the functions it speaks of: no part of a predicate"""
        s.path.__dict__.setdefault('typefacts', {})[g.get_id()] = g; s.assume(g)

    def store(s, lv, v):
        if isinstance(v, LV) and not isinstance(v, LObj): v = s.load(v)
        v = s.coerce_store(v, lv.t)
        if isinstance(lv, LVar):
            s.st.cells[lv.cell] = v
            if s.writes is not None: s.writes.add(('cell', lv.cell))
        elif isinstance(lv, LField):
            if lv.key[0] == 'static' and lv.t.k == 'sp': raise Unsupported(f'assignment to the static {lv.key[1]}')
            h = s.harr(lv.key, sort_of(lv.t)); s.heap_sorts[lv.key] = h.range()
            s.st.heap[lv.key] = Store(h, lv.ref, v)
            if s.writes is not None: s.writes.add(('heap', lv.key, lv.ref))
        elif isinstance(lv, LElem):
            c = s.load(lv.lv)
            s.store(lv.lv, ArrV(upd(c.seq, lv.idx, v)) if isinstance(c, ArrV) else upd(c, lv.idx, v))
        elif isinstance(lv, LPair):
            p = s.load(lv.lv)
            s.store(lv.lv, PairV(v, p.b) if lv.i == 0 else PairV(p.a, v))
        elif isinstance(lv, LRec): s.store(lv.lv, Store(s.load(lv.lv), lv.i, v))
        elif isinstance(lv, LVal): lv.v = v
        else: raise Unsupported(f'store to {lv}')

    def coerce_store(s, v, t):
        if isinstance(v, CStrV) and t.k == 'str': return lit(v.b.split(b'\0')[0])
        if isinstance(v, InitV) and t.k == 'vec': return s.seq_of([s.val(x) for x in v.vals], t)
        if isinstance(v, InitV) and t.k == 'str': return s.seq_of([s.val(x) for x in v.vals], t)
        if isinstance(v, (ClosureV, FuncV)) and t.k == 'fn': return s.closure_ref(v)
        if isinstance(v, LObj) and t.k in ('ptr', 'sp', 'stream', 'cls', 'opaque'): return v.ref
        return v

    def seq_of(s, vals, t):
        so = sort_of(t)
        return cat(emp(so), *[unit(v) for v in vals]) if vals else emp(so)

    def closure_ref(s, v):
        for r, c in s.fn_table.items():
            if c[1] is v: return c[0]
        s.path.n += 1
        r = s.alloc('fn')
        s.fn_table[r.get_id()] = (r, v)
        return r

    def val(s, x):
        if isinstance(x, MoveV): x = x.lv
        if isinstance(x, LV): return s.load(x)
        return x

    def ref(s, x):
        """address of an object expression"""
        if isinstance(x, MoveV): x = x.lv
        if isinstance(x, LObj): return x.ref
        if isinstance(x, LV):
            v = s.load(x)
            return v.ref if isinstance(v, LObj) else v
        return x

    def lv(s, x, t):
        if isinstance(x, MoveV): x = x.lv
        if isinstance(x, LV): return x
        return s.newcell(s.coerce_store(x, t), t, 'tmp')

    # ------------------------------------------------------------ fields
    def field_lv(s, cls, name, ref, fnode):
        t = parse(ty(fnode), s.prog)
        key = (cls, name)
        if t.k == 'ref':
            inner = t.a[0]
            lv = s.path.__dict__.get('reflv', {}).get((cls, name, ref.get_id()))
            if lv is not None: return lv
            a = hsel(s.harr(key, I), ref)
            if a.get_id() not in s.path.seen and not num(a): s.path.seen.add(a.get_id()); _keep.append(a); s.assume(a > 0)   # a reference designates an object
            if inner.k in ('cls', 'stream', 'opaque'):
                return LObj(a, inner)
            return s.deref(a, inner)
        if t.k in ('cls',): return LObj(s.subref(cls, name, ref), t)
        if t.k == 'stream': return LObj(s.subref(cls, name, ref), t)
        if t.k in ('opaque', 'mutex', 'condvar', 'lambda', 'arr', 'pair', 'lock', 'float'):
            if t.k == 'lambda': return LObj(s.subref(cls, name, ref), t)
            return LObj(s.subref(cls, name, ref), t)
        return LField(key, ref, t)

    def subref(s, cls, name, ref):
        f = Function('sub_' + (cls + '_' + name).replace('cli::detail::', '').replace('cli::', ''), I, I)
        r = f(ref)
        if r.get_id() not in s.path.seen:
            s.path.seen.add(r.get_id()); _keep.append(r)
            s.assume(r > 0)
        return r

    def deref(s, ref, t):
        """object designated by a pointer value"""
        if t.k in ('cls', 'stream', 'opaque', 'mutex', 'condvar'): return LObj(ref, t)
        return LField(('*', repr(t)), ref, t)

    def F(s, name, ref, cls=None):
        """(contract access) lvalue of field `name` of class cls at ref"""
        c = s.prog.classes.get(cls)
        if c is None: raise BindError(f'class {cls} not found')
        f = s.find_field(c, name)
        if f is None: raise BindError(f'field {cls}::{name} not found')
        return s.field_lv(f[0].qname, f[1]['name'], ref, f[1])

    def find_field(s, c, name):
        for f in c.fields:
            if f.get('name') == name: return (c, f)
        for b in c.bases:
            bc = s.prog.classes.get(b)
            if bc:
                r = s.find_field(bc, name)
                if r: return r
        alias = s.opts.get('field_alias', {}).get((c.qname, name))
        if alias: return s.find_field(c, alias)
        return None

    def fval(s, name, ref, cls): return s.val(s.F(name, ref, cls))

    # ------------------------------------------------------------ ghost state
    def gget(s, name, sort=None):
        if name not in s.st.ghost:
            s.st.ghost[name] = Const('G_' + name + s.st.epoch, sort)
        return s.st.ghost[name]
    def gset(s, name, v):
        s.st.ghost[name] = v; s.ghost_sorts[name] = v.sort()
        if s.writes is not None: s.writes.add(('ghost', name))
    def log_of(s, ref):
        return hsel(s.gget('log', ArraySort(I, Str)), ref)
    def log_append(s, ref, x):
        g = s.gget('log', ArraySort(I, Str))
        s.gset('log', Store(g, ref, cat(hsel(g, ref), x)))
        if s.writes is not None: s.writes.add(('glog', ref))
    def event(s, name, *args):
        s.st.events.append((name, args))
        if s.writes is not None: s.writes.add(('event', name))

    # ------------------------------------------------------------ integers
    def wrap(s, v, t, node=None, signed_ok=False, cvt=False):
        """result of an arithmetic operation / conversion into type t"""
        if t.k == 'bool': return v
        r = rng(t)
        if r is None: return v
        lo, hi = r
        c = num(v)
        if c is not None:
            if lo <= c <= hi: return IntVal(c)
            m = (c - lo) % (hi - lo + 1) + lo
            if t.a[1] and not cvt: s.oblige('no signed overflow', BoolVal(False), node)
            return IntVal(m)
        g = And(v >= lo, v <= hi)
        if t.a[1] and not cvt:
            s.oblige('no signed overflow', g, node)
            return v
        if s.entails(g, timeout=600) == 'proved': return v
        M = hi - lo + 1
        if cvt or True:
            # keep the term linear when the value is at most one period away
            if s.entails(And(v >= lo - M, v <= hi + M), timeout=600) == 'proved':
                return If(v > hi, v - M, If(v < lo, v + M, v))
        return (v - lo) % M + lo

    def truth(s, v):
        v = s.val(v)
        if isinstance(v, bool): return BoolVal(v)
        if isinstance(v, ClosureV): return BoolVal(True)
        if is_bool(v): return v
        if is_int(v): return v != 0
        raise Unsupported(f'truth of {v}')

    def as_int(s, v):
        v = s.val(v)
        if is_bool(v): return If(v, IntVal(1), IntVal(0)) if num_bool(v) is None else IntVal(int(num_bool(v)))
        return v

    # ------------------------------------------------------------ expressions
    def ev(s, n):
        m = getattr(s, 'ev_' + n['kind'], None)
        if m is None: raise Unsupported(f'expression {n["kind"]} at {s.loc(n)}')
        return m(n)
    def rv(s, n): return s.val(s.ev(n))
    def inner(s, n): return [c for c in n.get('inner', ()) if isinstance(c, dict) and 'kind' in c]
    def T(s, n): return parse(ty(n), s.prog)

    def _pass(s, n): return s.ev(s.inner(n)[0])
    ev_ParenExpr = ev_ExprWithCleanups = ev_CXXBindTemporaryExpr = ev_SubstNonTypeTemplateParmExpr = _pass
    def ev_MaterializeTemporaryExpr(s, n): return s.ev(s.inner(n)[0])
    def ev_ConstantExpr(s, n):
        if 'value' in n and s.T(n).k in ('int', 'enum', 'bool'):
            v = n['value']
            if v in ('true', 'false'): return BoolVal(v == 'true')
            try: return IntVal(int(v))
            except ValueError: pass
        return s._pass(n)
    def ev_IntegerLiteral(s, n): return IntVal(int(n['value']))
    def ev_CharacterLiteral(s, n):
        v = int(n['value'])
        return IntVal(v - 256 if v > 127 and s.T(n) == CHAR else (v if v < (1 << 31) else v - (1 << 32)))
    def ev_CXXBoolLiteralExpr(s, n): return BoolVal(bool(n['value']))
    def ev_CXXNullPtrLiteralExpr(s, n): return IntVal(0)
    def ev_GNUNullExpr(s, n): return IntVal(0)
    def ev_StringLiteral(s, n):
        m = re.search(r'\[(\d+)\]', sty(n))
        b = c_unescape(n['value'])
        if m: b = (b + b'\0' * int(m.group(1)))[:int(m.group(1)) - 1]
        return CStrV(b)
    def ev_PredefinedExpr(s, n): return CStrV(b'?')
    def ev_CXXThisExpr(s, n):
        f = s.frames[-1]
        if f.this is None: raise Unsupported('this outside of a member')
        t = s.T(n)
        return f.this
    def ev_CXXDefaultArgExpr(s, n):
        i = s.inner(n)
        if i: return s.ev(i[0])
        return OpaqueV('default')
    def ev_CXXScalarValueInitExpr(s, n): return s.zero(s.T(n))
    def ev_ImplicitValueInitExpr(s, n): return s.zero(s.T(n))
    def ev_CXXDefaultInitExpr(s, n):
        i = s.inner(n)
        if i: return s.ev(i[0])
        raise Unsupported('CXXDefaultInitExpr without initialiser')
    def zero(s, t):
        if t.k == 'bool': return BoolVal(False)
        if t.k in ('int', 'enum', 'ptr', 'sp', 'fn'): return IntVal(0)
        if t.k in ('str', 'vec'): return emp(sort_of(t))
        if t.k == 'pair': return PairV(s.zero(t.a[0]), s.zero(t.a[1]))
        if t.k == 'float': return Const('float_0', I)
        raise Unsupported(f'value initialisation of {t}')

    def ev_UnaryExprOrTypeTraitExpr(s, n):
        a = n.get('argType'); t = parse(a.get('desugaredQualType') or a['qualType'], s.prog) if a else s.T(s.inner(n)[0])
        def size(t):
            if t.k == 'bool': return 1
            if t.k == 'int' and t.a: return t.a[0] // 8
            if t.k == 'arr': return size(t.a[0]) * int(t.a[1])
            raise Unsupported(f'sizeof at {s.loc(n)}')
        if n.get('name') != 'sizeof': raise Unsupported(f"{n.get('name')} at {s.loc(n)}")
        return IntVal(size(t))
    def ev_SizeOfPackExpr(s, n):
        f = s.frames[-1].func; c = s.frames[-1].cls or (f.cls if f is not None else None)
        for p in (getattr(f, 'packs', None) or {}, c.packs if c is not None else {}):
            if n.get('name') in p: return IntVal(p[n['name']])
        return IntVal(int(n['value'])) if 'value' in n else _unsup('sizeof...')

    def ev_DeclRefExpr(s, n):
        d = n['referencedDecl']; k = d['kind']; i = d['id']
        if k == 'EnumConstantDecl':
            if i in s.prog.enumconst: return IntVal(s.prog.enumconst[i])
            return s.ext_enum(n, d)
        if k in ('VarDecl', 'ParmVarDecl', 'BindingDecl'):
            for f in (s.frames[-1],):
                if i in f.env: return f.env[i]
            return s.global_var(n, d)
        if k in ('FunctionDecl', 'CXXMethodDecl'): return FuncV(d)
        if k == 'NonTypeTemplateParmDecl': raise Unsupported('template parameter')
        raise Unsupported(f'reference to {k}')

    def ext_enum(s, n, d):
        f = Function('enum_' + d.get('name', '?'), I)
        return Const('enum_' + d.get('name', '?'), I)

    def global_var(s, n, d):
        nm = d.get('name')
        if nm in ('cout', 'cerr', 'clog', 'cin'):
            return LObj(Const('std_' + nm, I), T('stream', (), nm))
        if nm == 'npos': return IntVal((1 << 64) - 1)
        e = s.prog.vars.get(d['id'])
        t = s.T(n)
        node = s.prog.byid.get(d['id'])
        if node is not None and node.get('storageClass') == 'static' or e is not None:
            if sty(node).startswith('const ') or node.get('constexpr'):
                init = s.inner(node)
                if init: return LVal(s.coerce_store(s.val(s.ev(init[-1])), t), t)
            return LField(('static', nm), IntVal(0), t)
        if t.k in ('opaque', 'cls'): return LObj(Const('glob_' + str(nm), I), t)
        raise Unsupported(f'variable {nm} at {s.loc(n)}')

    def ev_MemberExpr(s, n):
        base = s.inner(n)[0]
        mid = n.get('referencedMemberDecl'); name = n['name']
        b = s.ev(base)
        if mid in s.prog.fieldcls:
            c = s.prog.fieldcls[mid]
            fnode = s.prog.byid[mid]
            if isinstance(b, MoveV): b = b.lv
            if s.opts.get('monitor') is not None: s.opts['monitor'].access(s, c.qname, name, s.ref(b), n)
            return s.field_lv(c.qname, name, s.ref(b), fnode)
        node = s.prog.byid.get(mid)
        if node is not None and node['kind'] == 'VarDecl': return s.global_var(n, node)
        if node is not None and node['kind'] == 'EnumConstantDecl': return IntVal(s.prog.enumconst[mid])
        # pair members
        bt = s.T(base)
        if name in ('first', 'second'):
            if isinstance(b, PairV): return b.a if name == 'first' else b.b
            if isinstance(b, MoveV): b = b.lv
            i = 0 if name == 'first' else 1
            if isinstance(b, LVal): return b.v.a if i == 0 else b.v.b
            if isinstance(b, LV):
                pt = bt if bt.k == 'pair' else b.t
                return LPair(b, i, pt.a[i] if pt.k == 'pair' else s.T(n))
        if isinstance(b, MoveV): b = b.lv
        if n.get('isArrow') and isinstance(s.val(b), PtrTo): b = s.val(b).lv
        if isinstance(b, LV) and b.t.k == 'pod' and s.T(n).k == 'int': return LRec(b, name, s.T(n))
        raise Unsupported(f'member {name} at {s.loc(n)}')

    def ev_ArraySubscriptExpr(s, n):
        a, i = [s.ev(x) for x in s.inner(n)]
        a = s.val(a) if not isinstance(a, (IterV, LObj)) else a; i = s.val(i)
        if isinstance(a, IterV):
            idx = addi(a.idx, i)
            s.oblige('array index in bounds', And(idx >= 0, idx < s.clen(a.lv)), n)
            return LElem(a.lv, idx, s.T(n))
        if isinstance(a, CStrV):
            seq = lit(a.b + b'\0'); return at(seq, i)
        raise Unsupported('array subscript')

    # ---- casts
    def ev_ImplicitCastExpr(s, n):
        ck = n.get('castKind'); e = s.inner(n)[0]
        if ck == 'LValueToRValue':
            v = s.val(s.ev(e)); 
            if isinstance(v, z3.ExprRef): s.type_inv(v, s.T(n))
            return v
        if ck in ('NoOp', 'FunctionToPointerDecay', 'UncheckedDerivedToBase', 'DerivedToBase', 'BuiltinFnToFnPtr',
                  'ConstructorConversion', 'UserDefinedConversion', 'BitCast', 'BaseToDerived', 'Dependent'):
            return s.ev(e)
        if ck == 'ArrayToPointerDecay':
            v = s.ev(e)
            if isinstance(v, CStrV): return v
            if isinstance(v, LV):
                w = None
                if isinstance(v, LObj) and v.t.k == 'arr': 
                    w = LField(('arr', v.t.a[1]), v.ref, T('vec', (v.t.a[0],))); s.assume(s.clen(w) == int(v.t.a[1])); return IterV(w, IntVal(0))
                return IterV(v, IntVal(0))
            raise Unsupported('array decay')
        if ck == 'IntegralCast':
            v = s.as_int(s.ev(e)); t = s.T(n)
            if t.k == 'bool': return v != 0
            if t.k == 'enum': return v
            return s.wrap(v, t, n, cvt=True)
        if ck == 'IntegralToBoolean':
            v = s.val(s.ev(e))
            if is_bool(v): return v
            c = num(v)
            return BoolVal(c != 0) if c is not None else v != 0
        if ck == 'PointerToBoolean':
            v = s.val(s.ev(e))
            if isinstance(v, (ClosureV, CStrV, FuncV)): return BoolVal(True)
            return s.ref(v) != 0
        if ck == 'NullToPointer': return IntVal(0)
        if ck == 'FloatingCast':               # floating point values are tokens: no arithmetic, conversions are uninterpreted
            f, t = s.T(e), s.T(n); return float_cast(f.name if f.k != 'ref' else f.a[0].name, t.name, s.val(s.ev(e)))
        if ck in ('FloatingToIntegral', 'IntegralToFloating', 'FloatingToBoolean'): raise Unsupported('floating point')
        if ck == 'ToVoid':
            s.ev(e); return NONE
        raise Unsupported(f'cast {ck} at {s.loc(n)}')
    ev_CXXStaticCastExpr = ev_CStyleCastExpr = ev_CXXFunctionalCastExpr = ev_CXXConstCastExpr = ev_ImplicitCastExpr
    def ev_CXXDynamicCastExpr(s, n): raise Unsupported('dynamic_cast')
    ev_CXXReinterpretCastExpr = ev_CXXDynamicCastExpr

    # ---- operators
    def ev_UnaryOperator(s, n):
        op = n['opcode']; e = s.inner(n)[0]
        if op == '!':
            s.no_float(e)
            b = s.truth(s.ev(e)); return simp(Not(b)) if is_true(b) or is_false(b) else Not(b)
        if op in ('-', '+', '++', '--', '!'): s.no_float(e)
        if op == '-': 
            v = s.as_int(s.ev(e)); return s.wrap(simp_lin(-v), s.T(n), n)
        if op == '+': return s.as_int(s.ev(e))
        if op in ('++', '--'):
            l = s.ev(e); v = s.val(l); t = s.T(n)
            if isinstance(v, IterV):
                nv = IterV(v.lv, addi(v.idx, 1 if op == '++' else -1), v.move, v.rev)
            else:
                pt = t
                nv = addi(v, IntVal(1)) if op == '++' else addi(v, IntVal(-1))
                if rng(pt) and pt.a[0] < 32: nv = s.wrap(nv, pt, n, cvt=True)
                else: nv = s.wrap(nv, pt, n)
            s.store(l, nv)
            return v if n.get('isPostfix') else l
        if op == '*':
            v = s.val(s.ev(e))
            if isinstance(v, IterV): return s.iter_deref(v, n)
            if isinstance(v, FuncV): return v
            if isinstance(v, PtrTo): return v.lv
            t = s.T(n)
            s.oblige('pointer is not null', v != 0, n)
            return s.deref(v, t)
        if op == '&':
            l = s.ev(e)
            if isinstance(l, LObj): return l.ref
            if isinstance(l, FuncV): return l
            if isinstance(l, LElem): return IterV(l.lv, l.idx)
            if s.T(e) == T('int', (8, True)) and const_qual(e): return IterV(s.newcell(unit(s.as_int(s.val(l))), T('str'), 'chars'), IntVal(0))       # one character that does not change
            return PtrTo(l)
        if op == '~':
            v = s.as_int(s.ev(e)); return s.wrap(-v - 1, s.T(n), n, cvt=True)
        raise Unsupported(f'unary {op}')

    def ev_BinaryOperator(s, n):
        op = n['opcode']; a, b = s.inner(n)
        if op == '!=' and s.fd_peel(a)['kind'] == 'BinaryOperator' and s.fd_peel(a)['opcode'] == '&' and s.fd_elem(s.inner(s.fd_peel(a))[0]):       # FD_ISSET
            x, m = s.inner(s.fd_peel(a)); el = s.fd_elem(x)
            if s.fd_peel(b).get('value') != '0': raise Unsupported('bit operation on an fd_set')
            return Select(s.val(s.fd_set_lv(el[0])), s.fd_member(el, m, n))
        if op == '&&':
            x = s.truth(s.ev(a))
            if is_false(x): return x
            if s.pure(b):
                if is_true(x): return s.truth(s.ev(b))
                # evaluating b needs a: fork unless trivially total
                if s.total(b): return And(x, s.truth(s.ev(b)))
            if s.choose(x): return s.truth(s.ev(b))
            return BoolVal(False)
        if op == '||':
            x = s.truth(s.ev(a))
            if is_true(x): return x
            if s.pure(b) and s.total(b):
                return Or(x, s.truth(s.ev(b)))
            if s.choose(x): return BoolVal(True)
            return s.truth(s.ev(b))
        if op == ',':
            s.ev(a); return s.ev(b)
        if op == '=':
            # right operand first is the C++17 rule; C++14 leaves it open, both are side-effect free here
            l = s.ev(a); v = s.val(s.ev(b)); s.store(l, v); return l
        s.no_float(a, b)
        x, y = s.val(s.ev(a)), s.val(s.ev(b))
        return s.binop(op, x, y, s.T(n), n)
    def no_float(s, *ns):
        for n in ns:
            t = s.T(n)
            if (t.a[0] if t.k == 'ref' else t).k == 'float': raise Unsupported('floating point arithmetic')
    def ev_FloatingLiteral(s, n): return Const(f'float_{n.get("value")}', I)

    def pure(s, n):
        """no calls to code that could have effects, no assignments"""
        st = [n]
        while st:
            c = st.pop(); k = c.get('kind')
            if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr', 'CXXConstructExpr', 'LambdaExpr', 'CompoundAssignOperator', 'CXXThrowExpr', 'CXXNewExpr'): return False
            if k == 'UnaryOperator' and c['opcode'] in ('++', '--'): return False
            if k == 'BinaryOperator' and c['opcode'] == '=': return False
            st.extend(s.inner(c))
        return True
    def total(s, n):
        """evaluation raises no obligation"""
        st = [n]
        while st:
            c = st.pop(); k = c.get('kind')
            if k in ('ArraySubscriptExpr',): return False
            if k == 'UnaryOperator' and c['opcode'] in ('*', '-'): return False
            if k == 'BinaryOperator' and c['opcode'] in ('+', '-', '*', '/', '%'): return False
            st.extend(s.inner(c))
        return True

    def ptr_eq(s, x, y):
        x, y = s.ref(x) if isinstance(x, LObj) else x, s.ref(y) if isinstance(y, LObj) else y
        if isinstance(x, PtrTo) and isinstance(y, PtrTo): return BoolVal(x.lv is y.lv)
        if isinstance(x, (PtrTo, FuncV)) or isinstance(y, (PtrTo, FuncV)):
            if num(x) == 0 if isinstance(x, z3.ExprRef) and is_int(x) else num(y) == 0 if isinstance(y, z3.ExprRef) and is_int(y) else False: return BoolVal(False)      # the address of an object is not null
            raise Unsupported('pointer comparison')
        return eq(x, y)

    def binop(s, op, x, y, t, n):
        if op in ('+', '-'): x, y = as_range(x), as_range(y)
        if isinstance(x, IterV) or isinstance(y, IterV): return s.iter_binop(op, x, y, n)
        if op in ('==', '!='):
            if isinstance(x, (LObj, PtrTo, FuncV)) or isinstance(y, (LObj, PtrTo, FuncV)): r = s.ptr_eq(x, y)
            else:
                if is_bool(x) != is_bool(y): x, y = s.as_int(x), s.as_int(y)
                if is_bool(x): r = x == y
                else: r = cmp_const(op, x, y) if num_shallow(x) is not None and num_shallow(y) is not None else eq(x, y)
            if op == '==': return r
            return BoolVal(not is_true(r)) if is_true(r) or is_false(r) else Not(r)
        x, y = s.as_int(x), s.as_int(y)
        if op in ('<', '>', '<=', '>='):
            cx, cy = num_shallow(x), num_shallow(y)
            if cx is not None and cy is not None:
                return BoolVal({'<': cx < cy, '>': cx > cy, '<=': cx <= cy, '>=': cx >= cy}[op])
            return {'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op]
        if op == '+': return s.wrap(addi(x, y), t, n)
        if op == '-':
            if num_shallow(y) is not None: return s.wrap(addi(x, IntVal(-num_shallow(y))), t, n)
            if x.eq(y): return IntVal(0)
            return s.wrap(x - y, t, n)
        if op == '*':
            if num_shallow(x) is None and num_shallow(y) is None: raise Unsupported('nonlinear arithmetic')
            return s.wrap(x * y, t, n)
        if op in ('/', '%'):
            c = num(y)
            if c is None or c <= 0: raise Unsupported('division by non-constant')
            if s.entails(x >= 0, timeout=600) == 'proved': q = x / c
            else: q = If(x >= 0, x / c, -((-x) / c))
            return q if op == '/' else x - q * c
        if op == '&':
            c = num(y) if num(y) is not None else None
            if c is not None and c >= 0 and (c & (c + 1)) == 0:   # mask 2^k-1
                return x % (c + 1)
        if op in ('^', '&', '|') and num(x) is not None and num(y) is not None: return IntVal({'^': lambda a, b: a ^ b, '&': lambda a, b: a & b, '|': lambda a, b: a | b}[op](num(x), num(y)))
        if op in ('&', '|'):
            fn = {'&': lambda a, b: a & b, '|': lambda a, b: a | b}[op]
            x, y = [z3.simplify(v) if z3.is_select(v) and z3.is_store(v.arg(0)) else v for v in (x, y)]
            if num(x) is not None and num(y) is None: x, y = y, x
            if num(x) is not None and num(y) is not None: return IntVal(fn(num(x), num(y)))
            if num(y) is not None and z3.is_app(x) and x.decl().name() == {'&': 'bits_and', '|': 'bits_or'}[op] and num(x.arg(1)) is not None: x, y = x.arg(0), IntVal(fn(num(x.arg(1)), num(y)))
        if op in ('<<', '>>') and num(y) is not None:
            if op == '<<': return s.wrap(x * (1 << num(y)), t, n)
            if s.entails(x >= 0, timeout=600) == 'proved': return x / (1 << num(y))
        f = Function(f'bits_{ {"&":"and","|":"or","^":"xor","<<":"shl",">>":"shr"}.get(op, "op") }', I, I, I)
        r = f(x, y); s.type_inv(r, t); return r

    def ev_CompoundAssignOperator(s, n):
        s.no_float(s.inner(n)[0])
        op = n['opcode'][:-1]; a, b = s.inner(n)
        el = s.fd_elem(a) if s.fd_peel(a)['kind'] == 'ArraySubscriptExpr' else None
        if el is not None:          # FD_SET, FD_CLR
            neg = s.fd_peel(b)
            if op == '&' and neg['kind'] == 'UnaryOperator' and neg['opcode'] == '~': b = s.inner(neg)[0]
            elif op != '|': raise Unsupported('bit operation on an fd_set')
            lv = s.fd_set_lv(el[0]); s.store(lv, Store(s.val(lv), s.fd_member(el, b, n), BoolVal(op == '|'))); return OpaqueV('bits')
        l = s.ev(a); y = s.val(s.ev(b)); x = s.val(l)
        ct = parse((n.get('computeResultType') or n['type']).get('desugaredQualType') or (n.get('computeResultType') or n['type'])['qualType'], s.prog)
        if isinstance(x, IterV): r = s.iter_binop(op, x, y, n)
        else:
            lt = parse(ty(a), s.prog)
            if lt.k == 'bool' and op in ('|', '&', '^'):
                bx, by = s.truth(x), (s.truth(y))
                r = {'|': Or(bx, by), '&': And(bx, by), '^': z3.Xor(bx, by)}[op]
            else: r = s.wrap(s.binop(op, x, y, ct, n), lt, n, cvt=True)
        s.store(l, r); return l

    def ev_ConditionalOperator(s, n):
        c, a, b = s.inner(n)
        if s.T(n).k == 'void' or not (s.pure(a) and s.pure(b) and s.total(a) and s.total(b)):
            cv = s.truth(s.ev(c))
            if is_assert_fail(b):
                s.oblige('assert(' + assert_text(b) + ')', cv, n); return NONE
            if s.choose(cv): return s.ev(a)
            return s.ev(b)
        cv = s.truth(s.ev(c))
        if is_true(cv): return s.ev(a)
        if is_false(cv): return s.ev(b)
        x, y = s.ev(a), s.ev(b)
        xv, yv = s.val(x), s.val(y)
        if isinstance(xv, z3.ExprRef) and isinstance(yv, z3.ExprRef) and not n.get('valueCategory') == 'lvalue':
            if xv.sort() == yv.sort(): return ite(cv, xv, yv)
        return x if s.choose(cv) else y

    def ev_InitListExpr(s, n):
        t = s.T(n)
        vals = [s.ev(c) for c in (n['array_filler'][1:] if 'array_filler' in n else s.inner(n))]
        if t.k in ('int', 'bool', 'enum', 'ptr', 'float'):
            return vals[0] if vals else s.zero(t)
        if t.k in ('cls',): 
            return s.construct_agg(t, vals, n)
        return InitV(vals)
    def construct_agg(s, t, vals, n):
        c = s.prog.classes.get(t.name)
        if c is None: raise Unsupported(f'aggregate {t}')
        r = s.alloc(t.name.split('::')[-1]); o = LObj(r, t)
        for f, v in zip(c.fields, vals): s.init_field(c, f, r, v, n)
        return o
    def bytes_of(s, v, t):
        """an array of characters from its initialisers: the rest is 0"""
        if t.a[0].k != 'int' or t.a[0].a[0] != 8: raise Unsupported(f'initialisers of {t}')
        q = emp(Str)
        for x in list(v.vals) + [IntVal(0)] * (int(t.a[1]) - len(v.vals)): q = cat(q, unit(s.as_int(x)))
        return q
    def ev_CXXStdInitializerListExpr(s, n): return s.ev(s.inner(n)[0])

    def ev_CXXThrowExpr(s, n):
        i = s.inner(n)
        if not i:
            cur = s.frames[-1].env.get('__exc')
            for f in reversed(s.frames):
                if f.env.get('__exc') is not None: cur = f.env['__exc']; break
            if cur is None: raise Unsupported('rethrow')
            raise ThrowX(cur)
        v = s.ev(i[0]); v = v if not isinstance(v, LV) or isinstance(v, LObj) else s.val(v)
        if isinstance(v, ExcV): raise ThrowX(v)
        t = s.T(i[0])
        if isinstance(v, LObj) and t.k == 'cls': raise ThrowX(ExcV(t.name))
        raise ThrowX(ExcV(t.name or 'user_nonstd'))

    def ev_LambdaExpr(s, n):
        rec = n['inner'][0]
        fr = s.frames[-1]
        fields = [c for c in rec.get('inner', ()) if c.get('kind') == 'FieldDecl']
        caps = [c for c in n['inner'][1:] if isinstance(c, dict) and c.get('kind') not in ('CompoundStmt',)]
        env = {}
        this = None
        for f, c in zip(fields, caps):
            x = c
            while x.get('kind') not in ('DeclRefExpr', 'CXXThisExpr'):
                ii = s.inner(x)
                if not ii: break
                x = ii[-1] if x.get('kind') in ('CXXConstructExpr', 'ParenListExpr') else ii[0]
            if x.get('kind') == 'CXXThisExpr': this = fr.this; continue
            if x.get('kind') != 'DeclRefExpr': raise Unsupported('lambda capture')
            did = x['referencedDecl']['id']
            if ty(f).rstrip().endswith('&'):
                env[did] = s.ev(x)
            else:
                v = s.val(s.ev(x)); t = parse(ty(f), s.prog)
                env[did] = LObj(v.ref, t) if isinstance(v, LObj) else s.newcell(v, t, 'cap')
        return ClosureV(n, env, this, rec)

    # ---- calls
    def callee(s, n):
        c = s.inner(n)[0]
        while c['kind'] in ('ImplicitCastExpr', 'ParenExpr'): c = s.inner(c)[0]
        return c

    def ev_CallExpr(s, n):
        c = s.callee(n)
        args = s.inner(n)[1:]
        if c['kind'] == 'DeclRefExpr':
            d = c['referencedDecl']
            if d['kind'] in ('ParmVarDecl', 'VarDecl'):
                f = s.val(s.ev(c)); return s.call_value(f, [s.ev(a) for a in args], n)
            f = s.prog.canon.get(d['id'])
            if f is not None: return s.call(f, None, args, n)
            if d.get('name') == '__assert_fail':
                s.oblige('assertion', BoolVal(False), n); raise PathEnd()
            return s.std_call(d, args, n)
        if c['kind'] == 'MemberExpr':
            # static member function
            mid = c.get('referencedMemberDecl'); f = s.prog.canon.get(mid)
            if f is not None: return s.call(f, None, args, n)
            fv = s.val(s.ev(c)); return s.call_value(fv, [s.ev(a) for a in args], n)
        f = s.val(s.ev(c))
        return s.call_value(f, [s.ev(a) for a in args], n)

    def ev_CXXMemberCallExpr(s, n):
        c = s.callee(n); args = s.inner(n)[1:]
        if c['kind'] != 'MemberExpr': raise Unsupported('member call')
        base = s.inner(c)[0]; mid = c.get('referencedMemberDecl')
        f = s.prog.canon.get(mid)
        if f is not None:
            b = s.ev(base)
            qual = s.is_qualified(c)
            if f.static: return s.call(f, None, args, n)
            r = s.val(b) if not isinstance(b, LV) else b
            ref = s.ref(b)
            return s.call(f, ref, args, n, qualified=qual)
        if c['name'].startswith('operator ') and s.T(base).k == 'lambda': return s.ev(base)
        b = s.ev(base)
        bt = s.T(base)
        if bt.k == 'ptr' or c.get('isArrow'):
            bt = bt.a[0] if bt.a else bt
            if bt.k == 'opaque' and base.get('kind') == 'CXXOperatorCallExpr':      # p-> on a smart pointer whose pointee is only written as element_type
                a0 = s.T(s.inner(base)[1]); a0 = a0.a[0] if a0.k == 'ref' else a0
                if a0.k == 'sp': bt = a0.a[0]
            b = s.val(b) if not isinstance(b, LObj) else b
            if isinstance(b, z3.ExprRef):
                if not is_root(b): s.oblige('pointer is not null', b != 0, n)
                b = s.deref(b, bt)
            elif isinstance(b, PtrTo): b = b.lv
            elif isinstance(b, IterV): b = LElem(b.lv, b.idx, bt)
        return s.std_method(c['name'], b, bt, args, n, c)

    def is_qualified(s, c):
        # clang JSON does not print the nested-name-specifier of a member expression: read it from the source text
        r = c.get('range', {}); b, e = r.get('begin', {}), r.get('end', {})
        q = s.src_between(b, e)
        if q is None: return False
        return '::' in q
    def src_between(s, b, e):
        b = b.get('expansionLoc', b); e = e.get('expansionLoc', e)
        bo, eo = b.get('offset'), e.get('offset')
        l = s.frames[-1].func.loc if s.frames and s.frames[-1].func else None
        f = l and l[0]
        if bo is None or eo is None or not f: return None
        try: t = source(f)
        except OSError: return None
        return t[bo:eo + e.get('tokLen', 0)]

    def ev_CXXOperatorCallExpr(s, n):
        c = s.callee(n); args = s.inner(n)[1:]
        d = c.get('referencedDecl', {})
        f = s.prog.canon.get(d.get('id'))
        name = d.get('name') or c.get('name', '')
        if f is not None and f.qname.split('::')[-1] == name:
            if d.get('kind') == 'CXXMethodDecl' and s.T(args[0]).k != 'lambda':
                b = s.ev(args[0]); return s.call(f, s.ref(b), args[1:], n)
            if d.get('kind') == 'FunctionDecl' and not s.is_rang(args): return s.call(f, None, args, n)
        if name == 'operator()':
            o = s.ev(args[0]); t = s.T(args[0])
            if isinstance(o, LObj) and t.k == 'lambda':
                return s.call_opaque_functor(o, t, args[1:], n, d)
            fv = s.val(o)
            return s.call_value(fv, [s.ev(a) for a in args[1:]], n, d, o)
        return s.std_operator(name, args, n)

    def is_rang(s, args):
        return any('rang::' in ty(a) for a in args)

    def call_opaque_functor(s, o, t, args, n, d):
        """call of a handler stored in a command (its code belongs to the user)"""
        vals = [s.ev(a) for a in args]
        e = s.fn_table.get(o.ref.get_id())
        if e is not None: return s.call_value(e[1], vals, n, d)
        return s.user_callback(o.ref, vals, n)

    def call_value(s, f, args, n, d=None, lv=None):
        """call of a function value: closure, pointer, std::function"""
        if isinstance(f, ClosureV): return s.call_closure(f, args, n, d)
        if isinstance(f, FuncV):
            g = s.prog.canon.get(f.decl['id'])
            if g is not None: return s.call_vals(g, None, args, n)
            return s.std_call_vals(f.decl, args, n)
        if isinstance(f, LObj): return s.user_callback(f.ref, args, n)
        if is_int(f):
            e = s.fn_table.get(f.get_id())
            if e is not None: return s.call_value(e[1], args, n)
            if not s.choose(f != 0): raise ThrowX(ExcV('std::bad_function_call'))
            return s.user_callback(f, args, n)
        raise Unsupported(f'call of {f}')

    def user_callback(s, ref, args, n):
        if s.callback is None: raise Unsupported('call of an unknown function')
        return s.callback(s, ref, args, n)

    def call_closure(s, c, args, n, d=None):
        ops = []
        for x in c.rec.get('inner', ()):
            if x.get('kind') == 'CXXMethodDecl' and x.get('name') == 'operator()': ops.append(x)
            if x.get('kind') == 'FunctionTemplateDecl' and x.get('name') == 'operator()':
                ops.extend(y for y in x['inner'] if y.get('kind') == 'CXXMethodDecl')
        op = None
        if d and d.get('id'): op = next((o for o in ops if o['id'] == d['id']), None)
        if op is None or not any(x.get('kind') == 'CompoundStmt' for x in op.get('inner', ())):
            cand = [o for o in ops if any(x.get('kind') == 'CompoundStmt' for x in o.get('inner', ()))]
            # prefer an instantiation over the dependent pattern
            conc = [o for o in cand if 'auto' not in ' '.join(sty(p) for p in o.get('inner', ()) if p.get('kind') == 'ParmVarDecl')]
            cand = conc or cand
            if not cand: raise Unsupported('lambda without body')
            op = cand[0]
        params = [x for x in op['inner'] if x.get('kind') == 'ParmVarDecl']
        body = next(x for x in op['inner'] if x.get('kind') == 'CompoundStmt')
        env = dict(c.env)
        fr = s.frames[-1]
        nf = Frame(fr.func, env, c.this, None, ty(op))
        s.bind(nf, params, args)
        return s.run_body(nf, body)

    def bind(s, fr, params, args):
        for p, a in zip(params, args):
            t = parse(ty(p), s.prog)
            fr.env[p['id']] = s.bind1(t, a, p.get('name', 'p'))

    def bind1(s, t, a, name):
        if isinstance(a, LVal) and isinstance(a.v, ExcV): return a
        if isinstance(a, ExcV): return LVal(a, t)
        if isinstance(a, LVal): a = a.v
        if t.k == 'ref':
            if isinstance(a, MoveV): a = a.lv
            if isinstance(a, LV): return a
            return s.newcell(s.coerce_store(a, t.a[0]), t.a[0], name)
        if isinstance(a, LObj): return a
        v = s.val(a)
        if isinstance(v, LObj): return v
        return s.newcell(s.coerce_store(v, t), t, name)

    def run_body(s, fr, body):
        if len(s.frames) > 40: raise Unsupported('call depth')
        s.frames.append(fr)
        try:
            s.ex(body); r = NONE
        except ReturnX as x: r = x.v
        finally: s.frames.pop()
        return r

    def call(s, f, this, args, n, qualified=False):
        """args are AST nodes"""
        vals = []
        for i, a in enumerate(args):
            if a['kind'] == 'CXXDefaultArgExpr' and not s.inner(a):
                init = s.inner(f.params[i]) if i < len(f.params) else []
                if not init:
                    # default argument written on another declaration
                    for g in s.prog.byname.get(f.qname, ()):
                        if i < len(g.params) and s.inner(g.params[i]): init = s.inner(g.params[i])
                if not init: raise Unsupported('default argument')
                vals.append(s.ev(init[0]))
            else: vals.append(s.ev(a))
        return s.call_vals(f, this, vals, n, qualified)

    def call_vals(s, f, this, vals, n, qualified=False):
        c = s.find_contract(f, qualified)
        if c is not None:
            s.used_contracts.add(c.name if hasattr(c, 'name') else f.qname)
            return c.at_call(s, f, this, vals, n)
        if f.virtual and not qualified:
            g = s.resolve_virtual(f, this, n)
            if g is not None: f = g
            c = s.find_contract(f, 'resolved')
            if c is not None:
                s.used_contracts.add(c.name); return c.at_call(s, f, this, vals, n)
        if f.body is None:
            if f.node.get('explicitlyDefaulted') or f.node.get('isImplicit'): return NONE
            raise Unsupported(f'call of {f.qname} without definition')
        if any(fr.func is f for fr in s.frames): raise Unsupported(f'recursion without contract: {f.qname}')
        if this is not None: s.oblige('receiver is not null', this != 0, n) if not is_root(this) else None
        s.inlined.add(f.qname)
        fr = Frame(f, {}, this, f.cls)
        s.bind(fr, f.params, vals)
        r = s.run_body(fr, f.body)
        return s.ret_conv(f, r)

    def ret_conv(s, f, r):
        return r

    def made(s, r, cls):
        """r is a complete object of exactly this class"""
        s.path.__dict__.setdefault('dyn', {})[r.get_id()] = cls; _keep.append(r)
    def resolve_virtual(s, f, this, n):
        """dynamic class known from the unit (exact type of this), else the only overrider"""
        dyn = s.opts.get('dynamic', {})
        if this is not None and this.get_id() not in dyn: dyn = s.path.__dict__.get('dyn', {})
        if this is not None and this.get_id() in dyn:
            c = s.prog.classes.get(dyn[this.get_id()])
            g = s.find_method(c, f.name)
            if g is not None: return g
        subs = [g for g in s.prog.funcs.values() if g.name == f.name and g is not f and g.cls is not None and f.cls is not None
                and s.prog.canon.get(g.id) is g and s.derives(g.cls, f.cls.qname) and len(g.params) == len(f.params)]
        if not subs: return f
        if f.body is None and len(subs) == 1: return subs[0]
        if f.cls.qname in s.opts.get('final', ()): return f
        raise Unsupported(f'virtual call of {f.qname} without contract')
    def classof(s, ref): return s.opts.get('dynamic', {}).get(ref.get_id()) or s.dyncls.get(ref.get_id())
    def derives(s, c, q):
        for b in c.bases:
            if b == q: return True
            bc = s.prog.classes.get(b)
            if bc and s.derives(bc, q): return True
        return False
    def find_method(s, c, name):
        if c is None: return None
        for m in c.methods:
            d = s.prog.canon.get(m.id, m)
            if m.name == name and d.body is not None: return d
        for b in c.bases:
            r = s.find_method(s.prog.classes.get(b), name)
            if r: return r
        return None

    def find_contract(s, f, qualified=False):
        for k in ((f.qname, tuple(f.targs)), (f.qname, len(f.params)), f.qname):
            c = s.contracts.get(k)
            if c is not None:
                if getattr(c, 'when', None) and not c.when(s, f): continue
                if not c.pick(f) or (qualified is True and getattr(c, 'interface', False)): continue
                if s.frames and getattr(c, 'subject', None) and s.opts.get('subject') == k and len(s.frames) == 0: continue
                return c
        return None

    # ---- construction
    def ev_CXXConstructExpr(s, n):
        t = s.T(n); args = s.inner(n)
        ct = (n.get('ctorType') or {}).get('qualType', '')
        return s.construct(t, args, ct, n, None)
    ev_CXXTemporaryObjectExpr = ev_CXXConstructExpr
    def ev_CXXNewExpr(s, n):
        if n.get('isArray') or n.get('isPlacement'): raise Unsupported('array or placement new')
        t = s.T(n).a[0]; ch = [x for x in s.inner(n) if x['kind'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr')]
        if t.k not in ('cls', 'opaque') or len(ch) != 1: raise Unsupported('new of ' + str(t))
        v = s.ev(ch[0])
        if not isinstance(v, LObj): raise Unsupported('new of ' + str(t))
        s.assume(v.ref != 0); s.event('new', v.ref); return v.ref
    def ev_CXXDeleteExpr(s, n):
        if n.get('isArray') or n.get('isArrayAsWritten'): raise Unsupported('delete[]')
        v = s.val(s.ev(s.inner(n)[0])); r = v.ref if isinstance(v, LObj) else v
        t = s.T(s.inner(n)[0])
        if t.k != 'ptr' or t.a[0].k != 'opaque': raise Unsupported('delete of ' + str(t))
        s.event('delete', r, s.st.copy()); return None

    def construct(s, t, args, ct, n, target):
        """target: address of an existing (sub)object to construct in place, or None"""
        if t.k == 'cls' and t.name in KNOWN_EXC_CLS(s):
            if len(args) == 1 and '&' in ct:
                v = s.ev(args[0]); v = s.val(v)
                if isinstance(v, ExcV): return v
            return ExcV(t.name)
        if t.k == 'cls':
            c = s.prog.classes.get(t.name)
            if c is None: raise Unsupported(f'construction of {t.name}')
            # copy/move construction from a temporary: elided
            vals = None
            if len(args) == 1 and re.search(r'\(\s*(const )?[\w:<>, ()./]*' + re.escape(t.name.split('::')[-1].split('<')[0]) + r'[^(]*&&?\s*\)', ct):
                v = s.ev(args[0])
                if isinstance(v, MoveV): v = v.lv
                if isinstance(v, LObj) and target is None and args[0].get('valueCategory') == 'xvalue' and args[0]['kind'] == 'MaterializeTemporaryExpr': return v
                vals = [v]
            ctor = s.find_ctor(c, ct)
            r = target if target is not None else s.alloc(t.name.split('::')[-1].split('<')[0])
            if target is None: s.made(r, t.name)
            o = LObj(r, t)
            cc = s.contracts.get((t.name, 'ctor', ct)) or s.contracts.get(t.name + '::ctor')
            if cc is not None:
                s.used_contracts.add(cc.name)
                cc.at_call(s, ctor, r, vals if vals is not None else [s.ev(a) for a in args], n)
                return o
            if ctor is None or ctor.body is None:
                if vals is not None and isinstance(vals[0], LObj): s.copy_object(c, vals[0].ref, r); return o
                if not args:
                    s.default_init(c, r); return o
                if ctor is None: raise Unsupported(f'constructor {t.name} {ct}')
                if ctor.node.get('explicitlyDefaulted') or ctor.node.get('isImplicit'):
                    if not ctor.params: s.default_init(c, r); return o
                raise Unsupported(f'constructor {t.name} {ct}')
            if vals is None:
                vals = []
                for i, a in enumerate(args):
                    if a['kind'] == 'CXXDefaultArgExpr' and not s.inner(a):
                        init = s.inner(ctor.params[i])
                        if not init:
                            for m in c.methods:
                                if m.node['kind'] == 'CXXConstructorDecl' and i < len(m.params) and s.inner(m.params[i]) and m.ftype == ctor.ftype: init = s.inner(m.params[i])
                        if not init: raise Unsupported('default argument')
                        vals.append(s.ev(init[0]))
                    else: vals.append(s.ev(a))
            s.run_ctor(ctor, c, r, vals, n)
            return o
        if t.k == 'lambda':
            v = s.ev(args[0])
            if isinstance(v, MoveV): v = v.lv
            return s.val(v) if not isinstance(v, LObj) else v
        return s.std_construct(t, args, ct, n, target)

    def find_ctor(s, c, ct):
        cs = [m for m in c.methods if m.node['kind'] == 'CXXConstructorDecl']
        for m in cs:
            if m.ftype == ct: return s.prog.canon.get(m.id, m)
        k = norm_sig(ct)
        for m in cs:
            if norm_sig(m.ftype) == k: return s.prog.canon.get(m.id, m)
        np_ = len(TY.split_args(ct[ct.index('(') + 1:ct.rindex(')')])) if '(' in ct else 0
        ms = [m for m in cs if len(m.params) == np_ and not m.node.get('isImplicit')]
        if len(ms) == 1: return s.prog.canon.get(ms[0].id, ms[0])
        return None

    def run_ctor(s, ctor, c, r, vals, n):
        if isinstance(r, z3.ExprRef): s.dyncls.setdefault(r.get_id(), c.qname)
        cc = s.find_contract(ctor) if s.frames else None
        if cc is not None:
            s.used_contracts.add(cc.name); cc.at_call(s, ctor, r, vals, n); return
        s.inlined.add(ctor.qname)
        fr = Frame(ctor, {}, r, c)
        s.bind(fr, ctor.params, vals)
        s.frames.append(fr)
        try:
            done = set()
            for i in ctor.inits:
                e = s.inner(i)
                if 'anyInit' in i:
                    fid = i['anyInit']['id']; fnode = s.prog.byid.get(fid)
                    if fnode is None: raise Unsupported('initialiser of unknown field')
                    done.add(fid)
                    s.init_field_expr(c, fnode, r, e[0] if e else None)
                elif 'baseInit' in i:
                    bt = parse(i['baseInit'].get('desugaredQualType') or i['baseInit']['qualType'], s.prog)
                    if e: s.construct_in_place(bt, e[0], r)
                elif 'delegatingInit' in i:
                    s.construct_in_place(T('cls', (), c.qname), e[0], r)
            try: s.ex(ctor.body)
            except ReturnX: pass
        finally: s.frames.pop()

    def construct_in_place(s, t, e, r):
        while e['kind'] in ('ExprWithCleanups', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr', 'ImplicitCastExpr', 'CXXDefaultInitExpr', 'ConstantExpr', 'InitListExpr') and s.inner(e):
            if e['kind'] == 'InitListExpr' and (len(s.inner(e)) != 1 or s.inner(e)[0]['kind'] != 'CXXConstructExpr'): break
            e = s.inner(e)[0]
        if e['kind'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            et = s.T(e)
            if et.k == 'cls': s.construct(et, s.inner(e), (e.get('ctorType') or {}).get('qualType', ''), e, r); return
            if et.k in ('opaque', 'stream', 'mutex', 'condvar', 'lock'):
                for a in s.inner(e): s.ev(a)
                s.opaque_init(et, r, e); return
        if t.k in ('opaque', 'stream', 'mutex', 'condvar'): s.opaque_init(t, r, e); return
        raise Unsupported(f'in-place construction of {t} from {e["kind"]}')

    def opaque_init(s, t, r, e):
        if t.k == 'stream': pass

    def init_field_expr(s, c, fnode, r, e):
        t = parse(ty(fnode), s.prog); name = fnode['name']
        cq = s.prog.fieldcls[fnode['id']].qname
        if e is not None and e['kind'] == 'CXXDefaultInitExpr' and not s.inner(e):
            ii = s.inner(fnode)
            e = ii[-1] if ii else None
            if e is None: raise Unsupported('default initialiser')
        if t.k == 'ref':
            v = s.ev(e); a = s.ref(v) if not isinstance(v, (LVar, LField)) or t.a[0].k in ('cls', 'stream', 'opaque') else None
            if a is None:                  # to a local: this very variable, for as long as the object is there
                s.path.__dict__.setdefault('reflv', {})[(cq, name, r.get_id())] = v; _keep.append(r); return
            s.st.heap[(cq, name)] = Store(s.harr((cq, name), I), r, a); s.heap_sorts[(cq, name)] = I
            if s.writes is not None: s.writes.add(('heap', (cq, name), r))
            return
        if t.k == 'cls':
            s.construct_in_place(t, e, s.subref(cq, name, r)); return
        if t.k in ('opaque', 'stream', 'mutex', 'condvar', 'lock', 'arr', 'float', 'pair'):
            s.opaque_field_init(t, s.subref(cq, name, r), e); return
        if t.k == 'lambda':
            v = s.val(s.ev(e)); s.bind_functor(s.subref(cq, name, r), v); return
        v = s.ev(e) if e is not None else s.zero(t)
        vv = s.val(v)
        if isinstance(vv, InitV) and t.k not in ('vec', 'str', 'pair'): vv = s.val(vv.vals[0]) if vv.vals else s.zero(t)
        s.store(LField((cq, name), r, t), vv)

    def bind_functor(s, r, v):
        """a closure stored in an object"""
        if isinstance(v, ClosureV): s.fn_table[r.get_id()] = (r, v); _keep.append(r)
    def opaque_field_init(s, t, r, e):
        if e is None: return
        vs = []
        x = e
        while x['kind'] in ('ExprWithCleanups', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr') and s.inner(x): x = s.inner(x)[0]
        h = s.opts.get('construct_hook')
        if h and t.k == 'opaque' and x['kind'] == 'CXXConstructExpr' and h(s, t, s.real_args(s.inner(x)), (x.get('ctorType') or {}).get('qualType', ''), x, r) is not NotImplemented: return
        if e['kind'] in ('CXXConstructExpr',):
            for a in s.inner(e):
                try: vs.append(s.ev(a))
                except Unsupported: pass
        elif t.k == 'opaque' and '(*' in t.name:          # a pointer to function
            try: vs.append(s.ev(e))
            except Unsupported: pass
        if len(vs) == 1: s.copied(t, r, vs[0])
    def copied(s, t, r, v):
        """r (new) is a copy of the user's object v: same object as far as calls of it are concerned"""
        if isinstance(v, MoveV): v = v.lv
        if t.k != 'opaque' or not isinstance(v, LObj) or v.t.k != 'opaque' or (v.t.name != t.name and not ('(*' in t.name and '(*' in v.t.name)): return
        done = s.path.__dict__.setdefault('copies', set())
        if r.get_id() in done: return
        done.add(r.get_id()); _keep.append(r); s.assume(Orig(r) == Orig(v.ref))

    def init_field(s, c, f, r, v, n):
        t = parse(ty(f), s.prog)
        if t.k == 'cls':
            if isinstance(v, LObj): s.copy_object(s.prog.classes[t.name], v.ref, s.subref(c.qname, f['name'], r)); return
        s.store(LField((c.qname, f['name']), r, t), s.val(v))

    def default_init(s, c, r):
        for b in c.bases:
            bc = s.prog.classes.get(b)
            if bc: s.default_init(bc, r)
        for f in c.fields:
            t = parse(ty(f), s.prog)
            ii = s.inner(f)
            if ii: s.init_field_expr(c, f, r, ii[-1])
            elif t.k in ('str', 'vec', 'sp', 'fn'): s.store(LField((c.qname, f['name']), r, t), s.zero(t))
            elif t.k == 'cls' and s.prog.classes.get(t.name): s.default_init(s.prog.classes[t.name], s.subref(c.qname, f['name'], r))
            # scalars stay indeterminate: arbitrary value

    def copy_object(s, c, a, b):
        for bq in c.bases:
            bc = s.prog.classes.get(bq)
            if bc: s.copy_object(bc, a, b)
        for f in c.fields:
            t = parse(ty(f), s.prog)
            if t.k == 'cls':
                cc = s.prog.classes.get(t.name)
                if cc: s.copy_object(cc, s.subref(c.qname, f['name'], a), s.subref(c.qname, f['name'], b))
                continue
            l = s.field_lv(c.qname, f['name'], a, f)
            if isinstance(l, LField): s.store(LField(l.key, b, l.t), s.load(l))
            elif t.k == 'ref': s.st.heap[(c.qname, f['name'])] = Store(s.harr((c.qname, f['name']), I), b, l.ref)

    # ------------------------------------------------------------ statements
    def ex(s, n):
        k = n['kind']
        m = getattr(s, 'ex_' + k, None)
        if m is not None: return m(n)
        s.ev(n)

    def ex_NullStmt(s, n): pass
    def ex_CompoundStmt(s, n):
        fr = s.frames[-1]; fr.scopes.append([])
        try:
            for c in s.inner(n): s.ex(c)
        finally:
            sc_ = fr.scopes.pop()
            s.run_dtors(sc_, n)
    def run_dtors(s, sc_, n):
        import sys
        et = sys.exc_info()[0]
        if et is not None and not issubclass(et, (BreakX, ContinueX, ReturnX, ThrowX)): return
        for d in reversed(sc_): d()
    def ex_DeclStmt(s, n):
        for c in s.inner(n):
            if c['kind'] == 'VarDecl': s.decl_var(c)
            elif c['kind'] in ('TypedefDecl', 'UsingDecl', 'TypeAliasDecl', 'StaticAssertDecl', 'CXXRecordDecl', 'EnumDecl', 'UsingDirectiveDecl', 'EmptyDecl'): pass
            else: raise Unsupported(f'declaration {c["kind"]}')

    def decl_var(s, c):
        t = parse(ty(c), s.prog); fr = s.frames[-1]; name = c.get('name', 'v')
        init = [x for x in s.inner(c) if not x['kind'].endswith('Attr') and x['kind'] not in ('FullComment',)]
        if t.k == 'fdset' and len(init) <= 1 or t.k == 'pod' and (not init or init[0]['kind'] == 'CXXConstructExpr' and not s.inner(init[0])): fr.env[c['id']] = s.newcell(s.fresh('indet_' + name, sort_of(t)), t, name); return
        if c.get('storageClass') == 'static':
            if sty(c).startswith('const ') or c.get('constexpr'):
                v = s.val(s.ev(init[-1])); fr.env[c['id']] = LVal(s.coerce_store(v, t), t)
            else:
                w = s.fresh('thread', I) if c.get('tls') else None         # one for each thread: which one runs this call is not known
                fr.env[c['id']] = LField(('static', name), IntVal(0) if w is None else w, t) if t.k not in ('cls', 'opaque') else LObj(Const('static_' + name, I) if w is None else w, t)
            if t.k == 'sp' and init:
                # initialised once, and never assigned (store() refuses): the value is that of the initialiser in some earlier state
                cur, w = s.st, s.writes; s.st = State(); s.writes = None
                try: v = s.coerce_store(s.val(s.ev(init[-1])), t); nn = s.entails(v != 0) == 'proved'
                except (Unsupported, ThrowX): nn = False
                finally: s.st, s.writes = cur, w
                if nn: s.prog.__dict__.setdefault('_spstatic', set()).add(('static', name)); s.assume(s.load(fr.env[c['id']]) != 0)
            return
        if t.k == 'ref':
            v = s.ev(init[-1]); 
            if isinstance(v, MoveV): v = v.lv
            if isinstance(v, LVal): v = v
            fr.env[c['id']] = v if isinstance(v, LV) else s.newcell(s.coerce_store(v, t.a[0]), t.a[0], name)
            return
        if t.k == 'cls':
            if not init: raise Unsupported('class object without initialiser')
            e = init[-1]
            while e['kind'] in ('ExprWithCleanups', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr') or (e['kind'] in ('ImplicitCastExpr', 'CXXFunctionalCastExpr') and e.get('castKind') in ('ConstructorConversion', 'NoOp')): e = s.inner(e)[0]
            v = s.ev(e)
            if isinstance(v, ExcV): fr.env[c['id']] = LVal(v, t); return
            if not isinstance(v, LObj): raise Unsupported(f'class object {t}')
            fr.env[c['id']] = v
            s.push_dtor(v, t, c)
            return
        if t.k in ('lock', 'stream', 'opaque', 'mutex', 'condvar'):
            v = s.ev(init[-1]) if init else None
            o = v if isinstance(v, LObj) else LObj(s.alloc(name), t)
            fr.env[c['id']] = o
            s.push_dtor(o, t, c)
            return
        if not init:
            if t.k in ('str', 'vec', 'sp', 'fn'): v = s.zero(t)
            elif t.k in ('iter', 'arr', 'pair'): v = OpaqueV('uninitialised')
            else:
                so = sort_of(t)
                if so is None: raise Unsupported(f'uninitialised {t}')
                v = s.fresh('indet_' + name, so); s.type_inv(v, t)
            if t.k == 'arr': v = ArrV(s.fresh('arr_' + name, Str)); s.assume(slen(v.seq) == t.a[1])
            fr.env[c['id']] = s.newcell(v, t, name); return
        v = s.ev(init[-1])
        v = s.val(v)
        if t.k == 'arr' and isinstance(v, CStrV): v = ArrV(lit(v.b + b'\0' * (t.a[1] - len(v.b))))
        if t.k == 'arr' and isinstance(v, InitV) and sort_of(t.a[0]) == I: v = ArrV(s.bytes_of(v, t))
        if isinstance(v, InitV) and t.k == 'pair': v = PairV(s.val(v.vals[0]), s.val(v.vals[1]))
        fr.env[c['id']] = lv = s.newcell(s.coerce_store(v, t), t, name)
        if t.k == 'sp' and t.a[0].k == 'cls' and 'unique_ptr<' in (sty(c) + ty(c)): s.push_owner(lv, t.a[0].name, c)

    def user_dtor(s, name, seen=()):
        """None: destroying an object of this class has no effect we track; a function: its own destructor has a body;
        'deep': a base, a member or a derived class has one"""
        cl = s.prog.classes.get(name)
        if cl is None or name in seen: return None
        d = next((m for m in cl.methods if m.node['kind'] == 'CXXDestructorDecl'), None)
        d = s.prog.canon.get(d.id, d) if d else None
        own = d is not None and d.body is not None and s.inner(d.body) and not d.node.get('isImplicit') and not d.node.get('explicitlyDefaulted')
        for b in cl.bases:
            if s.user_dtor(b, seen + (name,)) is not None: return 'deep'
        for f in cl.fields:
            try: t = parse(ty(f), s.prog)
            except Exception: continue
            if t.k == 'cls' and s.user_dtor(t.name, seen + (name,)) is not None: return 'deep'
        return d if own else None
    def push_owner(s, lv, name, c):
        fr = s.frames[-1]
        if not fr.scopes or s.user_dtor(name) is None: return
        def end():
            v = s.val(lv)
            if s.choose(v == 0): return
            d = s.user_dtor(s.path.__dict__.get('dyn', {}).get(v.get_id(), name))
            if d is None: return
            if d == 'deep' or d.virtual and v.get_id() not in s.path.__dict__.get('dyn', {}): raise Unsupported('destructor of an owned ' + name)
            s.call_vals(d, v, [], c, qualified=True)
        fr.scopes[-1].append(end)

    def push_dtor(s, o, t, c):
        fr = s.frames[-1]
        if not fr.scopes: return
        if t.k == 'lock':
            fr.scopes[-1].append(lambda: s.lock_release(o, c))
        elif t.k == 'stream':
            fr.scopes[-1].append(lambda: s.stream_dtor(o, c))
        elif t.k == 'cls':
            d = s.user_dtor(t.name)
            if d == 'deep':
                def end(): raise Unsupported('destructor of a member or base of ' + t.name)
                fr.scopes[-1].append(end)
            elif d is not None: fr.scopes[-1].append(lambda: s.call_vals(d, o.ref, [], c, qualified=True))
    def lock_release(s, o, n): s.opts['monitor'].destroy(s, o, n)
    def stream_dtor(s, o, n): pass

    def ex_IfStmt(s, n):
        i = s.inner(n)
        if n.get('hasInit'): s.ex(i[0]); i = i[1:]
        if n.get('hasVar'):
            s.ex(i[0]); i = i[1:]
        c, then = i[0], i[1]; els = i[2] if len(i) > 2 else None
        if s.choose(s.truth(s.ev(c))): s.ex(then)
        elif els is not None: s.ex(els)

    def ex_ReturnStmt(s, n):
        i = s.inner(n)
        if not i: raise ReturnX(NONE)
        v = s.ev(i[0])
        # returning an object by value: read it now (locals die)
        fr = s.frames[-1]
        if isinstance(v, MoveV): v = v.lv
        byref = i[0].get('valueCategory') == 'lvalue' and not isinstance(v, (LVar, LVal))
        rt = s.ret_type(fr)
        if isinstance(v, LV) and not isinstance(v, LObj) and not (rt is not None and rt.k == 'ref'): v = s.val(v)
        if rt is not None and rt.k != 'ref': v = s.coerce_store(v, rt)
        raise ReturnX(v)
    def ret_type(s, fr):
        t = fr.rett
        if '->' in t: t = t.rsplit('->', 1)[1]
        else: t = t.split('(')[0]
        return T('ref', (INT,)) if t.rstrip().endswith('&') else None

    def ex_BreakStmt(s, n): raise BreakX()
    def ex_ContinueStmt(s, n): raise ContinueX()

    def ex_SwitchStmt(s, n):
        i = s.inner(n); body = i[-1]; cond = i[-2]
        v = s.as_int(s.ev(cond))
        stmts = []      # flattened (labels, stmt)
        def flat(c, labels):
            if c['kind'] == 'CaseStmt':
                ii = s.inner(c); flat(ii[-1], labels + [s.val(s.ev(ii[0]))])
            elif c['kind'] == 'DefaultStmt':
                flat(s.inner(c)[-1], labels + ['default'])
            else: stmts.append((labels, c))
        for c in s.inner(body): flat(c, [])
        start = None
        cases = [(j, l) for j, (ls, _) in enumerate(stmts) for l in ls if not isinstance(l, str)]
        for j, l in cases:
            if s.choose(eq(v, l)): start = j; break
        if start is None:
            start = next((j for j, (ls, _) in enumerate(stmts) if any(isinstance(l_, str) for l_ in ls)), None)
        if start is None: return
        fr = s.frames[-1]; fr.scopes.append([])
        try:
            for _, c in stmts[start:]: s.ex(c)
        except BreakX: pass
        finally:
            s.run_dtors(fr.scopes.pop(), n)

    def ex_CXXTryStmt(s, n):
        i = s.inner(n); body = i[0]; handlers = i[1:]
        depth = len(s.frames)
        try: s.ex(body)
        except ThrowX as x:
            e = x.e
            del s.frames[depth:]
            for h in handlers:
                hi = s.inner(h)
                var = hi[0] if hi and hi[0]['kind'] == 'VarDecl' else None
                if var is not None:
                    ct = parse(ty(var), s.prog)
                    if ct.k == 'ref': ct = ct.a[0]
                    nm = ct.name or repr(ct)
                    if not s.exc_matches(e, nm): continue
                fr = s.frames[-1]; old = fr.env.get('__exc'); fr.env['__exc'] = e
                if var is not None: fr.env[var['id']] = LVal(e, T('exc'))
                try: s.ex(hi[-1])
                finally: fr.env['__exc'] = old
                return
            raise

    def exc_matches(s, e, nm):
        c = e.cls
        nm = {'exception': 'std::exception', 'bad_cast': 'std::bad_cast'}.get(nm, nm)
        seen = 0
        while c and seen < 10:
            if c == nm or c.split('::')[-1] == nm.split('::')[-1]: return True
            nxt = HIER.get(c)
            if nxt is None and c in s.prog.classes:
                bs = s.prog.classes[c].bases; nxt = bs[0] if bs else None
            c = nxt; seen += 1
        if e.cls.startswith('user') and nm not in ('std::exception', 'std::bad_cast'): 
            raise Unsupported(f'catch of {nm} around a user handler')
        return False

    # ------------------------------------------------------------ loops
    def ex_WhileStmt(s, n):
        i = s.inner(n); cond, body = i[-2], i[-1]
        if s.opts.get('monitor') is not None and len(i) == 2 and s.waits(body): return s.wait_while(n, cond, body)
        s.loop(n, lambda: s.truth(s.ev(cond)), lambda: s.ex(body), None)
    def waits(s, b):
        """the body of the loop is exactly  cv.wait(lock);"""
        while b['kind'] in ('CompoundStmt', 'ExprWithCleanups') and len(s.inner(b)) == 1: b = s.inner(b)[0]
        if b['kind'] != 'CXXMemberCallExpr' or len(s.inner(b)) != 2: return None
        m = s.inner(b)[0]
        if m['kind'] != 'MemberExpr' or m.get('name') != 'wait' or 'condition_variable' not in ty(s.inner(m)[0]): return None
        return s.inner(m)[0], s.inner(b)[1]
    def wait_while(s, n, cond, body):
        """while (c) cv.wait(l);  is by definition  cv.wait(l, [&]{ return !c; });"""
        cv, lk = s.waits(body)
        def pred():
            o = s.st.copy(); r = Not(s.truth(s.ev(cond)))
            if len(o.events) != len(s.st.events) or any(o.heap.get(k) is not v for k, v in s.st.heap.items() if k in o.heap) or any(o.cells.get(k) is not v for k, v in s.st.cells.items() if k in o.cells) or any(o.ghost.get(k) is not v for k, v in s.st.ghost.items() if k in o.ghost): raise Unsupported('condition of a waiting loop with effects')
            return r
        b = s.ev(cv); s.opts['monitor'].wait_until(s, b.ref if isinstance(b, LObj) else s.ref(b), s.ev(lk), pred, n)
    # ------------------------------------------------------------ fd_set (the FD_ macros expand to bit operations on its only field)
    def fd_peel(s, x):
        while x['kind'] in ('ParenExpr', 'ImplicitCastExpr', 'CStyleCastExpr') : x = s.inner(x)[0]
        return x
    def fd_elem(s, x):
        """fds_bits[d / 64] -> (the fd_set expression, d)"""
        x = s.fd_peel(x)
        if x['kind'] != 'ArraySubscriptExpr': return None
        a, i = s.inner(x); a = s.fd_peel(a)
        if a['kind'] != 'MemberExpr' or a.get('name') not in ('fds_bits', '__fds_bits'): return None
        i = s.fd_peel(i)
        return s.inner(a)[0], (s.inner(i)[0] if i['kind'] == 'BinaryOperator' and i['opcode'] == '/' else None), i
    def fd_mask(s, x):
        """1 << (d % 64) -> d"""
        x = s.fd_peel(x)
        if x['kind'] == 'BinaryOperator' and x['opcode'] == '<<':
            r = s.fd_peel(s.inner(x)[1])
            if r['kind'] == 'BinaryOperator' and r['opcode'] == '%' and s.fd_peel(s.inner(x)[0]).get('value') == '1': return s.inner(r)[0]
        return None
    def fd_set_lv(s, x):
        v = s.ev(x)
        if isinstance(v, PtrTo): v = v.lv
        if isinstance(v, LV) and not isinstance(v, LObj) and isinstance(s.val(v), PtrTo): v = s.val(v).lv
        if not isinstance(v, LV) or v.t.k != 'fdset': raise Unsupported('fd_set operation')
        return v
    def fd_member(s, el, mask, n):
        d = s.val(s.ev(el[1])) if el[1] is not None else None; m = s.fd_mask(mask)
        if d is None or m is None or not s.val(s.ev(m)).eq(d): raise Unsupported('bit operation on an fd_set')
        s.oblige('file descriptor within an fd_set', And(d >= 0, d < 1024), n)
        return d
    def ex_DoStmt(s, n):
        body, cond = s.inner(n)
        if body['kind'] == 'CompoundStmt':
            b = s.inner(body)
            if len(b) == 3 and b[2]['kind'] == 'ForStmt' and b[1]['kind'] == 'DeclStmt' and s.inner(b[1])[0].get('name') == '__arr' and s.inner(b[2])[-1]['kind'] == 'BinaryOperator' and s.fd_elem(s.inner(s.inner(b[2])[-1])[0]):
                s.store(s.fd_set_lv(s.inner(s.inner(b[1])[0])[-1]), z3.K(I, BoolVal(False))); return       # FD_ZERO
        # do B while(c)  ==  B, then while(c) B
        try: s.ex(body)
        except ContinueX: pass
        except BreakX: return
        s.loop(n, lambda: s.truth(s.ev(cond)), lambda: s.ex(body), None)
    def ex_ForStmt(s, n):
        raw = n['inner']
        init, var, cond, inc, body = (raw + [None] * 5)[:5]
        ok = lambda x: isinstance(x, dict) and 'kind' in x
        fr = s.frames[-1]; fr.scopes.append([])
        try:
            if ok(init): s.ex(init)
            s.loop(n, (lambda: s.truth(s.ev(cond))) if ok(cond) else (lambda: BoolVal(True)), lambda: s.ex(body), (lambda: s.ev(inc)) if ok(inc) else None)
        finally: s.run_dtors(fr.scopes.pop(), n)

    def ex_CXXForRangeStmt(s, n):
        ii = [c for c in n['inner'] if isinstance(c, dict) and 'kind' in c]
        rng_decl = ii[0]; body = ii[-1]; vardecl = ii[-2]
        rv = s.inner(rng_decl)[0]
        rx = s.inner(rv)[-1]
        r = s.ev(rx)
        rt = s.T(rx)
        if isinstance(r, MoveV): r = r.lv
        if isinstance(r, InitV): r = s.newcell(s.coerce_store(r, rt), rt, 'range')
        if not isinstance(r, LV): r = s.newcell(s.coerce_store(r, rt), rt, 'range')
        if r.t.k == 'cls' or isinstance(r, LObj): raise Unsupported('range-for over a user type')
        fr = s.frames[-1]
        var = s.inner(vardecl)[0]
        vt = parse(ty(var), s.prog)
        et = s.elem_type(r.t)
        idx = s.newcell(IntVal(0), SIZE, 'rangeidx')
        snap = s.val(r)
        def cond(): return s.val(idx) < s.clen(r)
        def bodyf():
            j = s.val(idx)
            cur = s.val(r)
            if not cur.eq(snap): s.oblige('range not resized while iterating over it', slen(cur) == slen(snap), n)
            le = LElem(r, j, et)
            if vt.k == 'ref': fr.env[var['id']] = s.elem_obj(le, et) if False else le
            else:
                v = s.load(le); fr.env[var['id']] = s.newcell(v, vt, var.get('name', 'x'))
            s.ex(body)
        def inc(): s.store(idx, s.val(idx) + 1)
        # small literal ranges are unrolled
        ps = parts(snap) if is_seq(snap) else None
        if ps is not None and len(ps) <= 6 and all(p.num_args() == 1 and p.decl().eq(th(snap).Unit) for p in ps) and not s.opts.get('no_unroll'):
            try:
                for j in range(len(ps)):
                    s.store(idx, IntVal(j))
                    try: bodyf()
                    except ContinueX: pass
            except BreakX: pass
            return
        s.loop(n, cond, bodyf, inc, rangelv=r, idx=idx)

    def loop(s, n, cond, body, inc, rangelv=None, idx=None):
        """generic loop cut by an inductive invariant"""
        key = (n['id'], tuple(s.path.decisions), len(s.frames), s.path.tag, s.path.n, tuple(s.st.cells))
        entry = s.st.copy(); entry_frames = [dict(f.env) for f in s.frames]
        info = s.loopcache.get(key)
        if info is None:
            info = s.loopcache[key] = s.analyse_loop(n, cond, body, inc, entry, rangelv, idx)
        mods, invs = info
        # cut: arbitrary iteration
        k = s.havoc_loop(mods, entry)
        lc = LoopCtx(s, n, entry, k, mods, rangelv, idx)
        for nm, f in invs:
            s.assume_inv(f, lc)
        for h in lc.hints: s.assume(h)
        lc.hints = []
        for nm, f in invs:
            if hasattr(f, 'put'): f.put(lc)      # the value the invariant gives, in place of an unknown one equal to it
        s.loopk.append(lc)
        try:
            if s.choose(cond()):
                try:
                    body()
                except ContinueX: pass
                except BreakX: return
                # back edge: invariant preservation was proved by analyse_loop; this path ends here
                if inc is not None: inc()
                raise PathEnd()
        finally: s.loopk.pop()

    def havoc_loop(s, mods, entry):
        s.path.n += 1
        k = s.fresh('k', I); s.assume(k >= 0)
        for m in sorted(mods, key=repr):
            if m[0] == 'cell':
                v = entry.cells.get(m[1])
                s.st.cells[m[1]] = s.havoc_val(v, m[1])
            elif m[0] == 'heap':
                h = s.st.heap.get(m[1])
                if h is None: h = s.harr(m[1], s.heap_sorts[m[1]])
                if m[2] is not None:
                    fv = s.fresh('hv_' + str(m[1][-1]), h.range())
                    s.st.heap[m[1]] = Store(h, m[2], fv)
                else: s.st.heap[m[1]] = s.fresh('hh_' + str(m[1][-1]), h.sort())
            elif m[0] == 'ghost':
                g = s.gget(m[1], s.ghost_sorts.get(m[1]))
                s.st.ghost[m[1]] = s.fresh('gh_' + m[1], g.sort())
            elif m[0] == 'glog':
                g = s.gget('log', ArraySort(I, Str))
                s.st.ghost['log'] = Store(g, m[1], s.fresh('ghlog', Str))
        return k

    def havoc_val(s, v, name):
        nm = 'lv_' + name.split('@')[0]
        if isinstance(v, z3.ExprRef): return s.fresh(nm, v.sort())
        if isinstance(v, PairV): return PairV(s.havoc_val(v.a, nm + '@'), s.havoc_val(v.b, nm + '@'))
        if isinstance(v, IterV): return IterV(v.lv, s.fresh(nm + '_idx', I), v.move, v.rev)
        if isinstance(v, ArrV): return ArrV(s.fresh(nm, Str))
        if v is None or isinstance(v, OpaqueV): return v
        if isinstance(v, (ClosureV, FuncV, CStrV)): return v
        raise Unsupported(f'loop modifies {name} of kind {type(v).__name__}')

    heap_sorts = {}; ghost_sorts = {}
    def analyse_loop(s, n, cond, body, inc, entry, rangelv, idx):
        rec, s.recording = s.recording, False
        try:
            mods = set()
            for _ in range(6):
                new = set()
                def once():
                    s.st = entry.copy()
                    k = s.havoc_loop(mods, entry)
                    old_w, s.writes = s.writes, set()
                    try:
                        try:
                            if not s.choose(cond()): raise PathEnd()
                            try: body()
                            except ContinueX: pass
                            if inc is not None: inc()
                        except (BreakX, ReturnX, ThrowX): s.writes = set(); raise PathEnd()
                    finally:
                        w = s.writes; s.writes = old_w
                        new.update(w)
                s.run_paths(once)
                norm = set()
                for w in new:
                    if w[0] == 'cell':
                        if w[1] in entry.cells: norm.add(w)
                    elif w[0] == 'heap':
                        norm.add(('heap', w[1], w[2] if s.stable(w[2]) else None))
                    elif w[0] == 'ghost' and w[1] != 'log': norm.add(w)
                    elif w[0] == 'glog':
                        if s.stable(w[1]): norm.add(w)
                        else: norm.add(('ghost', 'log'))
                    elif w[0] == 'event': norm.add(w)
                # a whole-array write subsumes single cells
                whole = {w[1] for w in norm if w[0] == 'heap' and w[2] is None}
                norm = {w for w in norm if not (w[0] == 'heap' and w[1] in whole and w[2] is not None)}
                if norm <= mods: break
                mods |= norm
            else: raise Unsupported('modified set of a loop does not stabilise')
            if any(m[0] == 'event' for m in mods) and not s.opts.get('loop_events'):
                raise Unsupported('callback events inside a loop')
            mods = {m for m in mods if m[0] != 'event'}
            invs = s.houdini(n, cond, body, inc, entry, mods, rangelv, idx)
        finally:
            s.recording = rec; s.st = entry.copy()
        return mods, invs

    def stable(s, t):
        """term built only from constants fixed before the loop (no havocked or iteration-local symbol)"""
        st = [t]
        while st:
            x = st.pop()
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    nm = x.decl().name()
                    if re.match(r'(lv_|hv_|hh_|gh_|ghlog|k)', nm) and '#' in nm: return False
                    if "'" in nm and '#' in nm: return False
            st.extend(x.children())
        return True

    def assume_inv(s, f, lc):
        """an invariant that cannot be stated of this state tells nothing about it"""
        try: g = f(lc)
        except (Inapplicable, Unsupported, z3.Z3Exception): return
        s.assume(g)

    def houdini(s, n, cond, body, inc, entry, mods, rangelv, idx):
        cands = s.candidates(n, entry, mods, rangelv, idx)
        # 1. initiation
        s.st = entry.copy()
        lc0 = LoopCtx(s, n, entry, IntVal(0), mods, rangelv, idx)
        live = []
        for nm, f in cands:
            try: g = f(lc0)
            except (Inapplicable, Unsupported, z3.Z3Exception, AttributeError, KeyError, TypeError) as x:
                if s.opts.get('debug'): print('   cand', nm, 'inapplicable', repr(x)[:100])
                continue
            if g is None: continue
            for h in lc0.hints: s.assume(h)
            lc0.hints = []
            if s.entails(g, timeout=2000) == 'proved': live.append((nm, f))
            elif s.opts.get('debug'): print('   cand', nm, 'fails on entry:', str(g)[:200])
        # 2. consecution, weakening
        nfail = 0
        for rnd in range(12):
            bad = set()
            def once():
                s.st = entry.copy()
                k = s.havoc_loop(mods, entry)
                lc = LoopCtx(s, n, entry, k, mods, rangelv, idx)
                for nm, f in live: s.assume_inv(f, lc)
                for h in lc.hints: s.assume(h)
                lc.hints = []
                s.loopk.append(lc)
                try:
                    try:
                        if not s.choose(cond()): raise PathEnd()
                        try: body()
                        except ContinueX: pass
                        if inc is not None: inc()
                    except (BreakX, ReturnX, ThrowX): raise PathEnd()
                    lc2 = LoopCtx(s, n, entry, k + 1, mods, rangelv, idx); lc2.prev = lc
                    for nm, f in live:
                        if nm in bad: continue
                        try: g = f(lc2)
                        except (Inapplicable, Unsupported, z3.Z3Exception): bad.add(nm); continue
                        for h in lc2.hints: s.assume(h)
                        lc2.hints = []
                        r = s.entails(g, timeout=s.timeout)
                        if r != 'proved':
                            bad.add(nm)
                            if s.opts.get('debug'): print('   cand', nm, 'not preserved', r, str(g)[:3000])
                finally: s.loopk.pop()
            s.run_paths(once)
            if not bad: break
            live = [(a, b) for a, b in live if a not in bad]
        if s.opts.get('debug'): print('   kept', s.loc(n), [a for a, _ in live])
        s.log_loops.append((s.where(), s.loc(n), [a for a, _ in live]))
        for nm, f in live:
            s.obs.append(Ob(f'{s.where()}: loop invariant {nm}', None, None, s.loc(n), 'proved', 0, 'invariant'))
        return live

    def candidates(s, n, entry, mods, rangelv, idx):
        out = []
        ints = [m[1] for m in mods if m[0] == 'cell' and is_int(entry.cells.get(m[1])) ]
        iters = [m[1] for m in mods if m[0] == 'cell' and isinstance(entry.cells.get(m[1]), IterV)]
        if idx is not None:
            out.append(('index counts iterations', lambda c: c.e.val(idx) == c.k))
            out.append(('index within range', lambda c: c.k <= c.e.clen(rangelv)))
        for x in ints:
            if idx is not None and x == idx.cell: continue
            def up(c, x=x): return c.cell(x) == c.entry.cells[x] + c.k
            def dn(c, x=x): return c.cell(x) == c.entry.cells[x] - c.k
            out.append((f'{x.split("@")[0]} = entry + k', up)); out.append((f'{x.split("@")[0]} = entry - k', dn))
            out.append((f'{x.split("@")[0]} >= 0', lambda c, x=x: c.cell(x) >= 0))
        for x in iters:
            out.append((f'iterator {x.split("@")[0]} = entry + k', lambda c, x=x: c.cell(x).idx == c.entry.cells[x].idx + c.k))
            out.append((f'iterator {x.split("@")[0]} = entry - k', lambda c, x=x: c.cell(x).idx == c.entry.cells[x].idx - c.k))
            out.append((f'iterator {x.split("@")[0]} before the end', lambda c, x=x: And(c.cell(x).idx >= 0, c.cell(x).idx < c.e.clen(c.cell(x).lv))))
            out.append((f'iterator {x.split("@")[0]} within container', lambda c, x=x: And(c.cell(x).idx >= 0, c.cell(x).idx <= c.e.clen(c.cell(x).lv))))
        for m in sorted(mods, key=repr):
            if m[0] != 'heap' or m[2] is None or entry.heap.get(m[1]) is None or entry.heap[m[1]].sort().range() != I: continue
            nm, a, cur = str(m[1][-1]), hsel(entry.heap[m[1]], m[2]), (lambda c, k=m[1], r=m[2]: hsel(c.e.st.heap[k], r))
            out.append((f'{nm} = entry + k', lambda c, a=a, cur=cur: cur(c) == a + c.k)); out.append((f'{nm} = entry - k', lambda c, a=a, cur=cur: cur(c) == a - c.k))
            out.append((f'{nm} >= 0', lambda c, cur=cur: cur(c) >= 0))
        # bounds read off the loop condition
        for j, (a, b) in enumerate(s.cond_bounds(n)):
            def bd(c, a=a, b=b):
                x, y = c.e.val(c.e.ev(a)), c.e.val(c.e.ev(b))
                if isinstance(x, IterV) and isinstance(y, IterV): return x.idx <= y.idx
                return x <= y
            out.append((f'bound {j} of the loop condition', bd))
            out.append((f'bound {j} of the loop condition after the first iteration', lambda c, bd=bd: Or(c.k == 0, bd(c))))
        out += s.search_candidates(n, entry, mods, rangelv, idx)
        # copying: what was appended so far is what was passed so far
        seqs = [m[1] for m in mods if m[0] == 'cell' and is_seq(entry.cells.get(m[1]))]
        def h0(key):
            cur, s.st = s.st, entry.copy()
            try: return s.harr(key, s.heap_sorts[key])
            finally: s.st = cur
        fields = [(m[1], m[2]) for m in mods if m[0] == 'heap' and m[2] is not None and h0(m[1]).sort().range().name() in L.THEORIES]
        def grown(c, x): return c.cell(x) if isinstance(x, str) else hsel(c.e.harr(x[0], c.e.heap_sorts[x[0]]), x[1])
        def before(x): return entry.cells[x] if isinstance(x, str) else hsel(h0(x[0]), x[1])
        if seqs or fields:
            rl = s.loop_range(n, entry, mods, rangelv)
            if rl is not None:
                def was(c):
                    r = c.e.val(rl); st, c.e.st = c.e.st, c.entry.copy()
                    try: r0 = c.e.val(rl)
                    finally: c.e.st = st
                    return r, r0
                def ahead(c):
                    r, r0 = was(c); p = Int('p!ahead')
                    return And(slen(r) == slen(r0), L.forall([p], Implies(And(c.k <= p, p < slen(r0)), at(r, p) == at(r0, p)), [at(r, p), at(r0, p)]))
                changes = any(m[0] == 'cell' and m[1] == getattr(rl, 'cell', None) or m[0] == 'heap' and m[1] == getattr(rl, 'key', None) for m in mods)
                if changes: out.append(('the elements ahead are as they were', ahead))
                for x in sorted(seqs) + sorted(fields, key=repr):
                    xn = x.split('@')[0] if isinstance(x, str) else str(x[0][-1])
                    def copied(c, x=x):
                        r = c.e.val(rl)
                        if r.sort() != before(x).sort(): raise Inapplicable()
                        return eq(grown(c, x), cat(before(x), sl(r, IntVal(0), c.k)))
                    def copied0(c, x=x):           # the elements may change once they are passed (moved from)
                        r, r0 = was(c)
                        if r.sort() != before(x).sort(): raise Inapplicable()
                        return eq(grown(c, x), cat(before(x), sl(r0, IntVal(0), c.k)))
                    if changes: out.append((f'{xn} = entry and the elements passed, as they were', copied0))
                    out.append((f'{xn} = entry and the elements passed', copied))
                    # an index or iterator that starts elsewhere, counting up or down, possibly at a fixed distance from the element used
                    offs = [(None, IntVal(0))] + s.fixed_ints(entry, mods)[:4]
                    for nm, st in s.starts(entry, mods, idx):
                        if nm == '': continue
                        for o, ov in offs:
                            def fwd(c, x=x, st=st, ov=ov):
                                r = c.e.val(rl)
                                if r.sort() != before(x).sort(): raise Inapplicable()
                                return eq(grown(c, x), cat(before(x), sl(r, addi(ov, st), addi(addi(ov, st), c.k))))
                            def bwd(c, x=x, st=st, ov=ov):
                                r = c.e.val(rl)
                                if r.sort() != before(x).sort(): raise Inapplicable()
                                b = addi(ov, st)
                                return eq(grown(c, x), cat(before(x), rev(sl(r, b - c.k, b))))
                            d = f'{xn} = entry and the elements %s from {nm.split("@")[0]}{" + " + o.split("@")[0] if o else ""}'
                            out.append((d % 'up', fwd)); out.append((d % 'down', bwd))
        # the same character once per iteration
        chars = set()
        def lits(x):
            if isinstance(x, dict):
                if x.get('kind') == 'CharacterLiteral': chars.add(x['value'])
                for y in x.get('inner', ()): lits(y)
        lits(n)
        def logs0(st):
            cur, s.st = s.st, st.copy()
            try: return s.gget('log', ArraySort(I, Str))
            finally: s.st = cur
        for ch in sorted(chars)[:3]:
            chv = IntVal(ch - 256 if ch > 127 else ch)
            for m in sorted(mods, key=repr):
                if m[0] == 'glog':
                    lg = logs0(entry)
                    def rlog(c, o=m[1], chv=chv, lg=lg): return eq(hsel(c.e.gget('log', ArraySort(I, Str)), o), cat(hsel(lg, o), rep(chv, c.k)))
                    def put(c, o=m[1], chv=chv, lg=lg): c.e.gset('log', Store(c.e.gget('log', ArraySort(I, Str)), o, cat(hsel(lg, o), rep(chv, c.k))))
                    rlog.put = put; out.append((f'output = entry and k times {ch}', rlog))
                elif m[0] == 'cell' and is_seq(entry.cells.get(m[1])) and entry.cells[m[1]].sort() == Str:
                    out.append((f'{m[1].split("@")[0]} = entry and k times {ch}', lambda c, x=m[1], chv=chv: eq(c.cell(x), cat(c.entry.cells[x], rep(chv, c.k)))))
        # the characters passed are written
        logs = [m[1] for m in sorted(mods, key=repr) if m[0] == 'glog']
        wl = s.loop_range(n, entry, mods, rangelv) if logs else None
        if wl is not None:
            heads = [('', IntVal(0))] if rangelv is not None else s.starts(entry, mods, idx) + [(str(m[1][-1]), hsel(h0(m[1]), m[2])) for m in sorted(mods, key=repr) if m[0] == 'heap' and m[2] is not None and h0(m[1]).sort().range() == I]
            for o in logs:
                lg = logs0(entry)
                for nm, st in heads[:5]:
                    def wrote(c, o=o, st=st, lg=lg):
                        r = c.e.val(wl)
                        if r.sort() != Str: raise Inapplicable()
                        return cat(hsel(lg, o), sl(r, st, addi(st, c.k)))
                    def wlog(c, o=o, wrote=wrote): return eq(hsel(c.e.gget('log', ArraySort(I, Str)), o), wrote(c))
                    def wput(c, o=o, wrote=wrote): c.e.gset('log', Store(c.e.gget('log', ArraySort(I, Str)), o, wrote(c)))
                    wlog.put = wput; out.append((f'output = entry and the characters passed{" from " if nm else ""}{nm.split("@")[0]}', wlog))
        # shortening: one element less at the front or at the back with each iteration
        for m in sorted(mods, key=repr):
            if m[0] == 'cell' and is_seq(entry.cells.get(m[1])):
                nm, a, cur = m[1].split('@')[0], entry.cells[m[1]], (lambda c, x=m[1]: c.cell(x))
            elif m[0] == 'heap' and m[2] is not None and entry.heap.get(m[1]) is not None and entry.heap[m[1]].sort().range().name() in L.THEORIES:
                nm, a, cur = str(m[1][-1]), hsel(entry.heap[m[1]], m[2]), (lambda c, k=m[1], r=m[2]: hsel(c.e.st.heap[k], r))
            else: continue
            out.append((f'{nm} = entry without its first k elements', lambda c, a=a, cur=cur: And(c.k <= slen(a), eq(cur(c), sl(a, c.k, slen(a))))))
            out.append((f'{nm} = entry without its last k elements', lambda c, a=a, cur=cur: And(c.k <= slen(a), eq(cur(c), sl(a, IntVal(0), slen(a) - c.k)))))
        for t in s.loop_templates:
            out.extend(t(s, n, entry, mods, rangelv, idx) or [])
        return out

    def starts(s, entry, mods, idx):
        """where the passing of elements may begin: at 0, or at what an index or iterator holds before the loop"""
        out = [('', IntVal(0))]
        for m in sorted(mods, key=repr):
            if m[0] != 'cell' or idx is not None and m[1] == idx.cell: continue
            v = entry.cells.get(m[1])
            if isinstance(v, IterV) and not v.rev: v = v.idx
            if is_int(v) and num(v) != 0: out.append((m[1], v))
        return out
    def fixed_ints(s, entry, mods):
        """integer locals of the function that the loop does not change"""
        its = sorted(l.cell for l in s.frames[-1].env.values() if isinstance(l, LVar) and isinstance(entry.cells.get(l.cell), IterV) and not entry.cells[l.cell].rev and ('cell', l.cell) not in mods)
        return [(x, entry.cells[x].idx) for x in its] + [(x, entry.cells[x]) for x in sorted(l.cell for l in s.frames[-1].env.values() if isinstance(l, LVar) and l.t.k == 'int' and is_int(entry.cells.get(l.cell)) and ('cell', l.cell) not in mods)]

    def search_candidates(s, n, entry, mods, rangelv, idx):
        """a test made at every position passed so far came out the same way (searches)"""
        strip = lambda x: s.inner(x) if x['kind'] == 'CompoundStmt' else [x]
        raw = n['inner']; conds = []; pre = []
        body = (s.inner(n)[0] if n['kind'] == 'DoStmt' else raw[-1])
        if not isinstance(body, dict) or 'kind' not in body: return []
        for st in strip(body):
            if st['kind'] == 'DeclStmt': pre.append(st)
            elif st['kind'] == 'IfStmt': conds.append((list(pre), s.inner(st)[0]))
        if n['kind'] in ('ForStmt', 'WhileStmt'):
            c = raw[2] if n['kind'] == 'ForStmt' else s.inner(n)[-2]
            def conj(x):
                if not isinstance(x, dict) or 'kind' not in x: return
                if x['kind'] in ('ParenExpr', 'ImplicitCastExpr', 'ExprWithCleanups'): return [conj(y) for y in s.inner(x)[:1]]
                if x['kind'] == 'BinaryOperator' and x['opcode'] == '&&': return [conj(y) for y in s.inner(x)]
                conds.append(([], x))
            conj(c)
        if not conds: return []
        before = []
        for m in sorted(mods, key=repr):       # the test was passed with the value before the last step
            v0 = entry.cells.get(m[1]) if m[0] == 'cell' else None
            if is_seq(v0) and n['kind'] in ('ForStmt', 'WhileStmt'):
                for j, (pr, cn) in enumerate(conds):
                    def last(c, x=m[1], cn=cn, v0=v0):
                        st0 = s.st; s.st = s.st.copy(); s.st.cells[x] = sl(v0, IntVal(0), slen(v0) - (c.k - 1))
                        try: f = s.pure_formula(lambda: s.truth(s.ev(cn)))
                        finally: s.st = st0
                        return Implies(c.k > 0, f)
                    before.append((f'test {j} held before the last element of {m[1].split("@")[0]} was taken', last))
        pos = []
        if rangelv is not None:
            ii = [c for c in raw if isinstance(c, dict) and 'kind' in c]; var = s.inner(ii[-2])[0]; vt = parse(ty(var), s.prog); et = s.elem_type(rangelv.t)
            def bind(p):
                le = LElem(rangelv, p, et)
                s.frames[-1].env[var['id']] = le if vt.k == 'ref' else s.newcell(s.load(le), vt, 'x')
            pos.append(('', lambda c: IntVal(0), bind))
        else:
            for m in sorted(mods, key=repr):
                v = entry.cells.get(m[1]) if m[0] == 'cell' else None
                if is_int(v): pos.append((m[1], lambda c, m=m: c.entry.cells[m[1]], lambda p, m=m: s.st.cells.__setitem__(m[1], p)))
                elif isinstance(v, IterV): pos.append((m[1], lambda c, m=m: c.entry.cells[m[1]].idx, lambda p, m=m, v=v: s.st.cells.__setitem__(m[1], IterV(v.lv, p, v.move, v.rev))))
            if len(pos) > 1:        # several that go forward in step
                cs = [m[1] for m in sorted(mods, key=repr) if m[0] == 'cell' and (is_int(entry.cells.get(m[1])) or isinstance(entry.cells.get(m[1]), IterV) and not entry.cells[m[1]].rev)]
                if len(cs) > 1:
                    at0 = lambda x: entry.cells[x].idx if isinstance(entry.cells[x], IterV) else entry.cells[x]
                    def instep(p):
                        for y in cs:
                            v = entry.cells[y]; q = simp(at0(y) + p)
                            s.st.cells[y] = IterV(v.lv, q, v.move, v.rev) if isinstance(v, IterV) else q
                    pos.append(('in step', lambda c: IntVal(0), instep))
        out = []
        for x, lo, bind in pos:
            for j, (pr, cn) in enumerate(conds):
                def form(c, sign, x=x, lo=lo, bind=bind, pr=pr, cn=cn):
                    p = Int('pos!srch')
                    def thunk():
                        bind(p)
                        for d in pr: s.ex(d)
                        return s.truth(s.ev(cn))
                    st0, env0 = s.st, dict(s.frames[-1].env); s.st = s.st.copy()
                    try: f = s.pure_formula(thunk)
                    finally: s.st = st0; s.frames[-1].env = env0
                    pats = []
                    def rec(t, seen=set()):
                        if t.num_args() == 2 and t.decl().name().startswith('at_') and (t.arg(1).eq(p) or z3.is_add(t.arg(1)) and any(y.eq(p) for y in t.arg(1).children())): pats.append(t)
                        for y in t.children(): rec(y)
                    if z3.is_quantifier(f): raise Inapplicable()
                    rec(f)
                    if not pats: raise Inapplicable()
                    l = lo(c)
                    return L.forall([p], Implies(And(l <= p, p < l + c.k), f if sign else Not(f)), pats, True)
                for sign in (False, True):
                    out.append((f'test {j} {"holds" if sign else "fails"} at every position passed{" (" + x.split("@")[0] + ")" if x else ""}', lambda c, form=form, sign=sign: form(c, sign)))
        return before + out

    def loop_range(s, n, entry, mods, rangelv):
        """the container a loop walks over: that of a range-for, of its iterator, or the one its condition or body indexes"""
        if rangelv is not None: return rangelv
        for m in sorted(mods, key=repr):
            v = entry.cells.get(m[1]) if m[0] == 'cell' else None
            if isinstance(v, IterV) and not v.rev: return v.lv
        found = []; st0 = s.st; s.st = entry.copy(); its = []
        def rec(x):
            if not isinstance(x, dict) or 'kind' not in x: return
            b = None
            if x['kind'] == 'DeclRefExpr':
                l = s.frames[-1].env.get((x.get('referencedDecl') or {}).get('id')); v = entry.cells.get(l.cell) if isinstance(l, LVar) else None
                if isinstance(v, IterV) and not v.rev: its.append(v.lv)
            if x['kind'] == 'CXXMemberCallExpr' and s.callee(x).get('name') in ('size', 'length', 'end', 'cend', 'at', 'begin', 'cbegin'): b = s.inner(s.callee(x))
            elif x['kind'] == 'CXXOperatorCallExpr' and (s.callee(x).get('referencedDecl') or {}).get('name') == 'operator[]': b = s.inner(x)[1:2]
            if b and s.simple(b[0]):
                rec_, s.recording = s.recording, False
                try:
                    r = s.ev(b[0])
                    if isinstance(r, LV) and is_seq(s.val(r)): found.append(r)
                except (Unsupported, KeyError, AttributeError, TypeError, IndexError, z3.Z3Exception): pass
                finally: s.recording = rec_
            for y in x.get('inner', ()): rec(y)
        try:
            for part in ([n['inner'][2]] + [n['inner'][4]] if n['kind'] == 'ForStmt' else n.get('inner', ())):
                rec(part)
                if found: return found[0]
            return its[0] if its else None
        finally: s.st = st0
    def cond_bounds(s, n):
        if n['kind'] == 'ForStmt': c = n['inner'][2]
        elif n['kind'] == 'WhileStmt': c = s.inner(n)[-2]
        else: return []
        out = []
        def rec(x):
            if not isinstance(x, dict) or 'kind' not in x: return
            if x['kind'] == 'BinaryOperator' and x['opcode'] in ('<', '!=', '<=', '>'):
                a, b = s.inner(x)
                if s.simple(a) and s.simple(b):
                    if x['opcode'] == '>': a, b = b, a
                    out.append((a, b))
            if x['kind'] == 'CXXOperatorCallExpr':
                ii = s.inner(x)
                if len(ii) == 3 and s.simple(ii[1]) and s.simple(ii[2]): out.append((ii[1], ii[2]))
            if x['kind'] in ('BinaryOperator', 'ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups'):
                for y in s.inner(x): rec(y)
        rec(c)
        return out
    def simple(s, n):
        st = [n]
        while st:
            c = st.pop(); k = c.get('kind')
            if k in ('CallExpr', 'LambdaExpr', 'CompoundAssignOperator', 'CXXThrowExpr'): return False
            if k == 'UnaryOperator' and c['opcode'] in ('++', '--', '*'): return False
            if k == 'CXXOperatorCallExpr' and (s.callee(c).get('referencedDecl') or {}).get('name') not in ('operator*', 'operator->', 'operator[]'): return False
            if k == 'CXXMemberCallExpr' and s.callee(c).get('name') not in ('size', 'length', 'begin', 'end', 'cbegin', 'cend'): return False
            st.extend(s.inner(c))
        return True

    # ------------------------------------------------------------ symbolic predicates (lambdas as formulas)
    def closure_formula(s, f, args, n):
        """Bool formula of a side-effect free predicate applied to argument values"""
        return s.pure_formula(lambda: s.truth(s.call_value(f, args, n)))
    def pure_formula(s, thunk):
        res = []
        rec, s.recording = s.recording, False
        w, s.writes = s.writes, set(); cells = set(s.st.cells)
        try:
            def once():
                pc0 = len(s.path.pc)
                v = thunk()
                bad = [x for x in s.writes if x[0] in ('heap', 'ghost', 'glog', 'event') or x[0] == 'cell' and x[1] in cells]
                if bad: raise SideEffects('predicate with side effects')
                facts = s.path.__dict__.get('typefacts', {})          # hold of every value of the type: no part of the predicate
                conds = [x for x in s.path.pc[pc0:] if x.get_id() not in facts]
                res.append(And(*conds, v) if conds else v)
            s.run_paths(once)
        finally: s.recording = rec; s.writes = w
        if not res: raise Unsupported('predicate has no normal path')
        return res[0] if len(res) == 1 else Or(*res)

class SideEffects(Unsupported): pass
class PtrTo:
    def __init__(s, lv): s.lv = lv
def float_cast(f, t, v):
    return v if f == t else Function(f'{f} to {t}', I, I)(v)
class LOne(LV):
    """a single character seen as an array of one element (read only)"""
    def __init__(s, lv): s.lv, s.t = lv, STRT
def as_range(v):
    """pointer to a single character as an iterator"""
    if isinstance(v, PtrTo) and v.lv.t == CHAR: return IterV(LOne(v.lv), IntVal(0))
    return v

class Inapplicable(Exception): pass

class LoopCtx:
    """what loop-invariant templates see"""
    def __init__(s, e, n, entry, k, mods, rangelv, idx):
        s.e, s.n, s.entry, s.k, s.mods, s.rangelv, s.idx = e, n, entry, k, mods, rangelv, idx; s.hints = []; s.prev = None
    def cell(s, c): return s.e.st.cells[c]
    def ints(s): return [m[1] for m in s.mods if m[0] == 'cell' and is_int(s.entry.cells.get(m[1])) and not (s.idx is not None and m[1] == s.idx.cell)]
    def seqs(s): return [m[1] for m in s.mods if m[0] == 'cell' and is_seq(s.entry.cells.get(m[1]))]
    def bools(s): return [m[1] for m in s.mods if m[0] == 'cell' and is_bool(s.entry.cells.get(m[1]))]

def num_bool(b):
    if is_true(b): return True
    if is_false(b): return False
    return None
def cmp_const(op, x, y): return BoolVal(num_shallow(x) == num_shallow(y))
def simp_lin(v):
    c = num(v)
    return IntVal(c) if c is not None else v
def _unsup(m): raise Unsupported(m)
def KNOWN_EXC_CLS(s): return {'cli::detail::bad_conversion', 'cli::detail::detail::bad_conversion'} | {q for q, c in s.prog.classes.items() if any(b in KNOWN_EXC or b in HIER for b in c.bases)}
def norm_sig(t):
    t = re.sub(r'\bnoexcept.*$', '', t)
    t = re.sub(r'\b(std|cli|detail|__cxx11)::', '', t)
    t = t.replace('basic_string<char>', 'string').replace('basic_ostream<char>', 'ostream')
    return re.sub(r'\s+', '', t)

_src = {}
def source(f):
    if f not in _src: _src[f] = open(f, 'rb').read().decode('latin1')
    return _src[f]

def is_assert_fail(n):
    st = [n]
    while st:
        c = st.pop()
        if c.get('kind') == 'DeclRefExpr' and c.get('referencedDecl', {}).get('name') == '__assert_fail': return True
        if c.get('kind') in ('CallExpr', 'ImplicitCastExpr', 'ParenExpr'): st.extend(x for x in c.get('inner', ()) if isinstance(x, dict))
    return False
def assert_text(n):
    st = [n]
    while st:
        c = st.pop(0)
        if c.get('kind') == 'StringLiteral': return c['value'].strip('"')
        st = [x for x in c.get('inner', ()) if isinstance(x, dict)] + st
    return '?'

def c_unescape(v):
    m = re.match(r'^(?:u8|L|u|U)?"(.*)"$', v, re.S)
    b = m.group(1) if m else v
    out = bytearray(); i = 0
    simple = {'n': 10, 't': 9, 'r': 13, 'a': 7, 'b': 8, 'f': 12, 'v': 11, '\\': 92, '"': 34, "'": 39, '?': 63, 'e': 27}
    while i < len(b):
        ch = b[i]
        if ch != '\\':
            out += ch.encode('latin1', 'replace') if ord(ch) < 256 else ch.encode('utf8'); i += 1; continue
        i += 1; ch = b[i]
        if ch in simple: out.append(simple[ch]); i += 1
        elif ch == 'x':
            j = i + 1
            while j < len(b) and b[j] in '0123456789abcdefABCDEF': j += 1
            out.append(int(b[i + 1:j], 16) & 255); i = j
        elif ch in '01234567':
            j = i
            while j < len(b) and j < i + 3 and b[j] in '01234567': j += 1
            out.append(int(b[i:j], 8) & 255); i = j
        else: out.append(ord(ch)); i += 1
    return bytes(out)

def _exc_is(s, e, t):
    """exception object e is caught by type t"""
    c = e.cls; n = 0
    while c and n < 10:
        if c == t: return True
        nxt = HIER.get(c)
        if nxt is None and c in s.prog.classes:
            bs = s.prog.classes[c].bases; nxt = bs[0] if bs else None
        c = nxt; n += 1
    return False
Engine.exc_is = _exc_is
def _rooted(s, ref):
    st = ref
    while st.num_args() == 1 and st.decl().name().startswith('sub_'): st = st.arg(0)
    return bool(ALLOC.get(st.get_id())) and not is_root(st)
Engine.rooted_in_alloc = _rooted
