"""Assumed contracts of the standard library (and of rang's colour manipulators), as the engine applies them."""
import re
import z3
from .logic import *
from . import types as TY
from . import logic as L
from .types import T, parse, sort_of, rng, BOOL, STRT, INT, CHAR, SIZE, VOID

NPOS = (1 << 64) - 1
j_ = Int('j!')

# decimal representation of an integer (only injective-looking facts are ever needed)
_Dec = Function('dec', I, Str)
Cmp = Function('cmp_Str', Str, Str, I)
FindLater, FindPos = Function('findlater_Str', Str, Str, I, B), Function('findpos_Str', Str, Str, I, I)
def Dec(x):
    """the decimal digits of a number"""
    k = num(x) if isinstance(x, z3.ExprRef) else x
    return lit(str(k)) if k is not None else _Dec(x)
def prefix_of(x, s): return And(slen(x) <= slen(s), eq(sl(s, IntVal(0), slen(x)), x)) if not (slen(x).eq(IntVal(0))) else BoolVal(True)

SortS, SortI = Function('sort_SS', SS, SS), Function('sort_Str', Str, Str)
UniqS, UniqI = Function('uniq_SS', SS, SS), Function('uniq_Str', Str, Str)
NLIdx = Function('nlidx', Str, I)       # index of the first newline, or the length
_s, _i = Const('s', Str), Int('i')
NL_AXIOMS = [
    ForAll([_s], And(0 <= NLIdx(_s), NLIdx(_s) <= STR.Len(_s), Implies(NLIdx(_s) < STR.Len(_s), STR.At(_s, NLIdx(_s)) == 10)), patterns=[NLIdx(_s)]),
    ForAll([_s, _i], Implies(And(0 <= _i, _i < NLIdx(_s)), STR.At(_s, _i) != 10), patterns=[z3.MultiPattern(NLIdx(_s), STR.At(_s, _i))]),
]
EXTRA.extend(NL_AXIOMS)
# floating point readers: convertible prefix, its value, its length
FP = {n: (Function(n + '_ok', Str, B), Function(n + '_value', Str, I), Function(n + '_length', Str, I)) for n in ('stof', 'stod', 'stold')}
FiltNe = Function('filt_ne', Str, I, Str)    # all elements different from x, in order

class StlMixin:
    # ------------------------------------------------------------ containers
    def elem_type(s, t):
        if t.k == 'ref': t = t.a[0]
        if t.k == 'str': return CHAR
        if t.k in ('vec', 'arr'): return t.a[0]
        raise s._U(f'not a sequence: {t}')
    def _U(s, m):
        from .engine import Unsupported
        return Unsupported(m)
    def clen(s, lv):
        c = s.val(lv)
        from .engine import ArrV, InitV
        if isinstance(c, ArrV): c = c.seq
        if isinstance(c, InitV): return IntVal(len(c.vals))
        s.type_inv(c, STRT)
        return slen(c)
    def seqv(s, x, t=None):
        """sequence value of a string-like operand"""
        from .engine import CStrV, InitV, ArrV, IterV
        v = s.val(x)
        if isinstance(v, CStrV): return lit(v.b.split(b'\0')[0])
        if isinstance(v, ArrV): return v.seq
        if isinstance(v, InitV): return s.coerce_store(v, t or STRT)
        if isinstance(v, z3.ExprRef) and is_seq(v): return v
        raise s._U(f'not a sequence value: {v}')

    # ------------------------------------------------------------ iterators
    def iter_deref(s, it, n):
        idx = addi(it.idx, IntVal(-1)) if it.rev else it.idx
        s.oblige('iterator dereferenceable', And(idx >= 0, idx < s.clen(it.lv)), n)
        from .engine import LElem
        return LElem(it.lv, idx, s.elem_type(it.lv.t))

    def same_container(s, x, y):
        from .engine import LVar, LField, LElem, LVal, LOne
        a, b = x.lv, y.lv
        if a is b: return True
        if isinstance(a, LOne) and isinstance(b, LOne): return a.lv is b.lv or isinstance(a.lv, LVar) and isinstance(b.lv, LVar) and a.lv.cell == b.lv.cell
        if isinstance(a, LVar) and isinstance(b, LVar): return a.cell == b.cell
        if isinstance(a, LField) and isinstance(b, LField):
            if a.key != b.key: return False
            if a.ref.eq(b.ref): return True
            return s.entails(a.ref == b.ref) == 'proved'
        if isinstance(a, LElem) and isinstance(b, LElem):
            return s.same_container(type(x)(a.lv, a.idx), type(x)(b.lv, b.idx)) and s.entails(a.idx == b.idx) == 'proved'
        return False

    def iter_binop(s, op, x, y, n):
        from .engine import IterV
        if isinstance(x, IterV) and isinstance(y, IterV):
            if not s.same_container(x, y): raise s._U('iterators of different containers')
            d = (y.idx, x.idx) if x.rev else (x.idx, y.idx)
            a, b = d
            if op == '-': return addi(a, IntVal(-num_shallow(b))) if num_shallow(b) is not None else (IntVal(0) if a.eq(b) else a - b)
            if op == '==': return eq(a, b)
            if op == '!=': r = eq(a, b); return BoolVal(False) if is_true(r) else Not(r)
            return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[op]
        if isinstance(y, IterV): x, y = y, x
        if op in ('==', '!=') and num_shallow(y) == 0: return BoolVal(op == '!=')
        if op not in ('+', '-'): raise s._U(f'iterator {op}')
        d = y if op == '+' else -y
        if x.rev: d = -d
        c = num(d)
        i = addi(x.idx, IntVal(c) if c is not None else d)
        s.oblige('iterator arithmetic stays within the container', And(i >= 0, i <= s.clen(x.lv)), n)
        return IterV(x.lv, i, x.move, x.rev)

    # ------------------------------------------------------------ operators
    def std_operator(s, name, args, n):
        from .engine import IterV, LObj, LV, ManipV, FuncV, MoveV, CStrV, LVal, LElem, InitV, PtrTo, OpaqueV, PairV
        op = name[len('operator'):].strip()
        h = s.opts.get('op_hook')
        if h:
            r = h(s, op, args, n)
            if r is not NotImplemented: return r
        if op == '<<':
            t0 = s.T(args[0])
            a = s.ev(args[0])
            if isinstance(a, LObj) or t0.k in ('stream', 'cls'):
                return s.stream_out(a, args[1], n)
        if op == '>>': raise s._U('operator>>')
        if op == '=':
            l = s.ev(args[0]); r = s.ev(args[1])
            return s.assign(l, r, s.T(args[0]), n)
        if op == '[]':
            l = s.ev(args[0]); i = s.as_int(s.ev(args[1]))
            t = s.T(args[0])
            if t.k == 'ref': t = t.a[0]
            if t.k not in ('str', 'vec'): raise s._U(f'operator[] on {t}')
            l = s.lv(l, t)
            ln = s.clen(l)
            if t.k == 'str':
                s.oblige('string index in bounds', And(i >= 0, i <= ln), n)
                if s.entails(i < ln) != 'proved':
                    if not s.choose(i < ln): return LVal(IntVal(0), CHAR)
            else: s.oblige('index in bounds', And(i >= 0, i < ln), n)
            return LElem(l, i, s.elem_type(t))
        if op in ('++', '--'):
            l = s.ev(args[0]); v = s.val(l)
            if not isinstance(v, IterV): raise s._U(f'{name} on {v}')
            d = 1 if op == '++' else -1
            if v.rev: d = -d
            nv = IterV(v.lv, addi(v.idx, IntVal(d)), v.move, v.rev)
            s.oblige('iterator stays within the container', And(nv.idx >= 0, nv.idx <= s.clen(v.lv)), n)
            if not isinstance(l, LV): return nv
            s.store(l, nv)
            return v if len(args) > 1 else l
        if op == '*':
            v = s.val(s.ev(args[0]))
            if isinstance(v, IterV): return s.iter_deref(v, n)
            t = s.T(args[0])
            if t.k == 'ref': t = t.a[0]
            if t.k == 'sp':
                s.oblige('smart pointer is not null', v != 0, n)
                return s.deref(v, t.a[0])
            raise s._U(f'operator* on {t}')
        if op == '->':
            v = s.val(s.ev(args[0]))
            if isinstance(v, IterV):
                s.iter_deref(v, n); return v
            s.oblige('smart pointer is not null', v != 0, n)
            return v
        if op in ('==', '!=', '<', '>', '<=', '>='):
            x, y = s.val(s.ev(args[0])), s.val(s.ev(args[1]))
            return s.compare(op, x, y, n)
        if op == '+':
            x, y = s.ev(args[0]), s.ev(args[1])
            xv, yv = s.val(x), s.val(y)
            if isinstance(xv, IterV) or isinstance(yv, IterV): return s.iter_binop('+', xv, yv, n)
            return cat(s.strlike(xv), s.strlike(yv))
        if op == '-':
            x, y = s.val(s.ev(args[0])), s.val(s.ev(args[1]))
            return s.iter_binop('-', x, y, n)
        if op in ('+=', '-='):
            l = s.ev(args[0]); v = s.val(l); y = s.val(s.ev(args[1]))
            if isinstance(v, IterV): s.store(l, s.iter_binop(op[0], v, y, n)); return l
            s.store(l, cat(v, s.strlike(y))); return l
        if op == '!':
            v = s.val(s.ev(args[0]))
            if isinstance(v, LObj): return Not(s.stream_ok(v.ref))
        if op == '|':
            return OpaqueV('|')
        if op == ',':
            s.ev(args[0]); return s.ev(args[1])
        raise s._U(f'{name} at {s.loc(n)}')

    def strlike(s, v):
        from .engine import CStrV
        if isinstance(v, CStrV): return lit(v.b.split(b'\0')[0])
        if isinstance(v, z3.ExprRef) and is_int(v): return unit(v)
        if isinstance(v, z3.ExprRef) and is_seq(v): return v
        raise s._U(f'not a string: {v}')

    def compare(s, op, x, y, n):
        from .engine import IterV, CStrV, LObj, PtrTo, FuncV, PairV
        if isinstance(x, IterV) or isinstance(y, IterV): return s.iter_binop(op, x, y, n)
        if isinstance(x, PairV) and isinstance(y, PairV) and op in ('==', '!='):
            r = And(s.compare('==', s.val(x.a), s.val(y.a), n), s.compare('==', s.val(x.b), s.val(y.b), n))
            return r if op == '==' else Not(r)
        if op in ('==', '!='):
            if isinstance(x, (CStrV,)) or isinstance(y, CStrV): x, y = s.strlike(x), s.strlike(y)
            if isinstance(x, (LObj, PtrTo, FuncV)) or isinstance(y, (LObj, PtrTo, FuncV)):
                if isinstance(x, (FuncV,)) or isinstance(y, FuncV): raise s._U('comparison of functions')
                r = s.ptr_eq(x, y)
            elif is_seq(x) and is_seq(y): r = eq(x, y)
            else: r = eq(x, y)
            if op == '==': return r
            return BoolVal(not is_true(r)) if is_true(r) or is_false(r) else Not(r)
        if isinstance(x, z3.ExprRef) and is_seq(x):
            f = Function('lex_less_' + x.sort().name(), x.sort(), x.sort(), B)
            x, y = s.strlike(x), s.strlike(y)
            return {'<': f(x, y), '>': f(y, x), '<=': Not(f(y, x)), '>=': Not(f(x, y))}[op]
        return s.binop(op, x, y, BOOL, n)

    def assign(s, l, r, t, n):
        from .engine import LObj, MoveV, LV, CStrV, ClosureV, FuncV, IterV, InitV
        if t.k == 'ref': t = t.a[0]
        if isinstance(l, LObj):
            if t.k == 'cls':
                ro = r.lv if isinstance(r, MoveV) else r
                s.copy_object(s.prog.classes[t.name], ro.ref, l.ref); return l
            if t.k in ('opaque', 'stream', 'lambda'): s.val(r); return l
            raise s._U(f'assignment to {t}')
        v = s.val(r)
        if t.k == 'str' and isinstance(v, z3.ExprRef) and is_int(v): v = unit(v)
        s.store(l, v)
        if isinstance(r, MoveV): s.moved_from(r.lv)
        return l

    def moved_from(s, lv):
        from .engine import LObj, LVal
        t = lv.t
        if t.k == 'ref': t = t.a[0]
        if isinstance(lv, (LObj, LVal)): return
        if t.k in ('sp', 'fn'): s.store(lv, IntVal(0)); return
        if t.k in ('str', 'vec'):
            so = sort_of(t); s.store(lv, s.fresh('moved', so))

    # ------------------------------------------------------------ output streams
    def stream_ref(s, a):
        from .engine import LObj, LVal
        if isinstance(a, LObj): return a.ref
        v = s.val(a)
        if isinstance(v, LObj): return v.ref
        return v
    def fmt(s, v, t, n):
        from .engine import CStrV
        if t.k == 'ref': t = t.a[0]
        if isinstance(v, CStrV): return lit(v.b.split(b'\0')[0])
        if isinstance(v, z3.ExprRef):
            if is_seq(v) and v.sort() == Str: return v
            if t.k == 'int' and t.a[0] == 8: return unit(v)
            if t.k in ('int', 'enum'): return Dec(v)
            if is_bool(v): return Dec(If(v, IntVal(1), IntVal(0)))
        raise s._U(f'output of {t}')

    def stream_out(s, a, arg, n):
        from .engine import ManipV, FuncV, LObj
        ref = s.stream_ref(a)
        t = s.T(arg)
        if 'rang::' in ty_of(arg):
            s.trusted.add('a terminal shows nothing for a colour sequence (ESC [ n m, all that rang::operator<< writes: contracts/rang.py), and the text leaves them out')
            s.ev_quiet(arg)
            return a
        v = s.ev(arg)
        if isinstance(v, FuncV):
            nm = v.decl.get('name')
            if nm == 'flush': return a
            if nm == 'endl': s.out_write(ref, unit(IntVal(10)), n); return a
            raise s._U(f'manipulator {nm}')
        v = s.val(v)
        s.out_write(ref, s.fmt(v, t, n), n)
        return a
    def ev_quiet(s, arg):
        pass
    def accepted(s, n):
        """how many of n characters handed to a stream buffer its device took"""
        k = s.fresh('took', I); s.assume(And(k >= 0, k <= n)); return k
    def out_write(s, ref, x, n):
        h = s.opts.get('out_hook')
        if h and h(s, ref, x, n): return
        f = s.ofiles.get(ref.get_id()) if hasattr(s, 'ofiles') else None
        if f is not None:
            g = s.gget('files', z3.ArraySort(Str, Str))
            s.gset('files', Store(g, f, cat(z3.simplify(Select(g, f)) if False else fsel(g, f), x)))
            return
        s.log_append(ref, x)

    # ------------------------------------------------------------ input streams
    def in_rem(s, ref): return hselg(s.gget('inrem', z3.ArraySort(I, Str)), ref)
    def in_eof(s, ref): return hselg(s.gget('ineof', z3.ArraySort(I, B)), ref)
    def in_fail(s, ref): return hselg(s.gget('infail', z3.ArraySort(I, B)), ref)
    def in_set(s, ref, rem=None, eof=None, fail=None):
        for nm, v, so in (('inrem', rem, Str), ('ineof', eof, B), ('infail', fail, B)):
            if v is not None: s.gset(nm, Store(s.gget(nm, z3.ArraySort(I, so)), ref, v))
    def stream_ok(s, ref): return Not(s.in_fail(ref))
    def getline(s, ref, line):
        eof, fail = s.in_eof(ref), s.in_fail(ref)
        if s.choose(Or(eof, fail)):
            s.in_set(ref, fail=BoolVal(True)); return
        rem = s.in_rem(ref)
        if s.choose(slen(rem) == 0):
            s.in_set(ref, eof=BoolVal(True), fail=BoolVal(True)); s.store(line, STR.Emp); return
        if s.choose(NLIdx(rem) < slen(rem)):
            s.store(line, sl(rem, IntVal(0), NLIdx(rem))); s.in_set(ref, rem=sl(rem, NLIdx(rem) + 1, slen(rem)))
        else:
            s.store(line, rem); s.in_set(ref, rem=STR.Emp, eof=BoolVal(True))

    # ------------------------------------------------------------ methods
    def std_method(s, name, b, bt, args, n, c):
        from .engine import LObj, LVal, ExcV, MoveV, IterV, LElem, CStrV, LV, ThrowX, InitV
        if bt.k == 'ref': bt = bt.a[0]
        if isinstance(b, MoveV): b = b.lv
        if isinstance(b, LVal) and isinstance(b.v, ExcV) or isinstance(b, ExcV):
            e = b.v if isinstance(b, LVal) else b
            if name == 'what':
                if e.what is None: e.what = s.fresh('what', Str)
                return e.what
        if bt.k in ('lock', 'mutex', 'condvar') and s.opts.get('monitor') is not None: return s.opts['monitor'].method(s, name, b, bt, args, n)
        h = s.opts.get('method_hook')
        if h:
            r = h(s, name, b, bt, args, n)
            if r is not NotImplemented: return r
        if bt.k in ('str', 'vec'):
            return s.seq_method(name, b, bt, args, n)
        if bt.k == 'riter' and name == 'base':
            i = s.val(b); return IterV(i.lv, i.idx)
        if bt.k == 'sp':
            v = s.val(b)
            if name == 'get': return v
            if name == 'operator bool': return v != 0
            if name == 'lock':
                al = s.gget('alive', z3.ArraySort(I, B))
                return v if s.choose(And(v != 0, Select(al, v))) else IntVal(0)
            if name == 'expired':
                return Not(And(v != 0, Select(s.gget('alive', z3.ArraySort(I, B)), v)))
            if name == 'reset':
                a = [x for x in args if x['kind'] != 'CXXDefaultArgExpr']
                s.store(b, s.val(s.ev(a[0])) if a else IntVal(0)); return None
            if name == 'swap':
                o = s.ev(args[0]); x, y = s.val(b), s.val(o); s.store(b, y); s.store(o, x); return None
            if name == 'release': s.store(b, IntVal(0)); return v
        if bt.k == 'fn':
            if name == 'operator bool':
                v = s.val(b)
                return BoolVal(True) if not isinstance(v, z3.ExprRef) else v != 0
            if name == 'swap':
                o = s.ev(args[0]); x, y = s.val(b), s.val(o); s.store(b, y); s.store(o, x); return None
        if bt.k in ('stream', 'cls', 'opaque') and isinstance(b, LObj):
            ref = b.ref
            if name == 'good': return And(Not(s.in_eof(ref)), Not(s.in_fail(ref)))
            if name == 'eof': return s.in_eof(ref)
            if name == 'fail': return s.in_fail(ref)
            if name == 'bad': return And(s.in_fail(ref), s.fresh('bad', B))
            if name == 'operator bool': return s.stream_ok(ref)
            if name == 'operator<<': return s.stream_out(b, args[0], n)
            if name == 'sputc':
                x = s.as_int(s.ev(args[0])); s.out_write(ref, unit(x), n); return If(s.fresh('full', z3.BoolSort()), IntVal(-1), If(x < 0, x + 256, x))     # the device behind the buffer may refuse it
            if name == 'put': s.out_write(ref, unit(s.as_int(s.ev(args[0]))), n); return b
            if name == 'flush': return b
            if name in ('write', 'sputn', 'xsputn'):
                isw = name == 'write'
                p = s.ev(args[0]); cnt = s.as_int(s.ev(args[1])); p = s.val(p) if not isinstance(p, IterV) else p
                if isinstance(p, IterV): 
                    s.oblige('buffer range valid', And(cnt >= 0, addi(p.idx, cnt) <= s.clen(p.lv)), n)
                    s.out_write(ref, sl(s.seqv(p.lv), p.idx, addi(p.idx, cnt)), n); return b if isw else s.accepted(cnt)
                if isinstance(p, CStrV): s.out_write(ref, sl(lit(p.b), IntVal(0), cnt), n); return b if isw else s.accepted(cnt)
            if name == 'rdbuf': return ref
            if name == 'str' and not s.real_args(args) and ref.get_id() in s.strs(): return hselg(s.gget('log', z3.ArraySort(I, Str)), ref)
            if name == 'str' and ref.get_id() in s.strs(): s.gset('log', Store(s.gget('log', z3.ArraySort(I, Str)), ref, s.seqv(s.ev(s.real_args(args)[0])))); return None
            if name in ('clear',): s.in_set(ref, eof=BoolVal(False), fail=BoolVal(False)); return None
            if name == 'is_open': return Not(s.in_fail(ref))
            if name == 'close' and bt.k == 'stream': return None
        raise s._U(f'{bt.k}.{name} at {s.loc(n)}')

    def real_args(s, args): return [a for a in args if a['kind'] != 'CXXDefaultArgExpr']

    def seq_method(s, name, b, bt, args, n):
        from .engine import IterV, LElem, MoveV, CStrV, InitV, ThrowX, ExcV, LV
        args = [s.ev(x) if isinstance(x, dict) else x for x in args if not (isinstance(x, dict) and x['kind'] == 'CXXDefaultArgExpr')]
        et = s.elem_type(bt); so = sort_of(bt)
        lv = s.lv(b, bt)
        v = s.val(lv)
        if isinstance(v, InitV): v = s.coerce_store(v, bt)
        ln = s.clen(lv)
        def setv(x): s.store(lv, x)
        nonempty = lambda what: s.oblige(what, ln > 0, n)
        if name in ('size', 'length'): return ln
        if name == 'operator=':
            w = s.val(args[0]); w = unit(w) if bt.k == 'str' and is_int(w) else s.coerce_store(w, bt); setv(w)
            if isinstance(args[0], MoveV): s.moved_from(args[0].lv)
            return lv
        if name == 'empty':
            c = num(ln); return BoolVal(c == 0) if c is not None else ln == 0
        if name in ('begin', 'cbegin'): return IterV(lv, IntVal(0))
        if name in ('end', 'cend'): return IterV(lv, ln)
        if name in ('rbegin', 'crbegin'): return IterV(lv, ln, rev=True)
        if name in ('rend', 'crend'): return IterV(lv, IntVal(0), rev=True)
        if name == 'front': nonempty('front() of a non-empty container'); return LElem(lv, IntVal(0), et)
        if name == 'back': nonempty('back() of a non-empty container'); return LElem(lv, simp_minus1(v, ln), et)
        if name in ('push_back', 'emplace_back', 'push', 'emplace_front', 'push_front') or (name == 'emplace' and bt.name == 'queue'):
            x = s.make_elem(et, args, n)
            if name in ('emplace_front', 'push_front'): setv(cat(unit(x), v)); return LElem(lv, IntVal(0), et)
            setv(cat(v, unit(x))); return LElem(lv, ln, et)
        if name == 'pop_back':
            nonempty('pop_back() of a non-empty container')
            ps = parts(v)
            if ps and ps[-1].num_args() == 1 and ps[-1].decl().eq(th(v).Unit): setv(cat(th(v).Emp, *ps[:-1]))
            else: setv(sl(v, IntVal(0), ln - 1))
            return None
        if name in ('pop_front',) or name == 'pop':
            nonempty(name + '() of a non-empty container')
            ps = parts(v)
            if ps and ps[0].num_args() == 1 and ps[0].decl().eq(th(v).Unit): setv(cat(th(v).Emp, *ps[1:]))
            else: setv(sl(v, IntVal(1), ln))
            return None
        if name == 'clear': setv(emp(so)); return None
        if name in ('reserve', 'shrink_to_fit'):
            return None
        if name in ('c_str', 'data'): return IterV(lv, IntVal(0))
        if name == 'swap':
            o = args[0]; y = s.val(o); s.store(o, v); setv(y); return None
        if name == 'at':
            i = s.as_int(args[0])
            if not s.choose(And(i >= 0, i < ln)): raise ThrowX(ExcV('std::out_of_range'))
            return LElem(lv, i, et)
        if name == 'erase':
            vs = [s.val(a) for a in args]
            if vs and isinstance(vs[0], IterV):
                i = vs[0].idx
                if len(vs) == 1:
                    s.oblige('erase of a valid position', And(i >= 0, i < ln), n)
                    setv(cat(sl(v, IntVal(0), i), sl(v, addi(i, IntVal(1)), ln))); return IterV(lv, i)
                jx = vs[1].idx
                s.oblige('erase of a valid range', And(i >= 0, i <= jx, jx <= ln), n)
                setv(cat(sl(v, IntVal(0), i), sl(v, jx, ln))); return IterV(lv, i)
            i = vs[0] if vs else IntVal(0)
            if not s.choose(i <= ln): raise ThrowX(ExcV('std::out_of_range'))
            e = s.clip(i, vs[1] if len(vs) > 1 else IntVal(NPOS), ln)
            setv(cat(sl(v, IntVal(0), i), sl(v, e, ln))); return lv
        if name == 'insert':
            vs = [a for a in args]; p = s.val(vs[0])
            i = p.idx if isinstance(p, IterV) else p
            s.oblige('insert at a valid position', And(i >= 0, i <= ln), n)
            if len(vs) == 3 and isinstance(s.val(vs[1]), IterV):
                a, e = s.val(vs[1]), s.val(vs[2])
                x = s.range_seq(a, e, n)
                if a.move: s.moved_from(a.lv)
            elif len(vs) == 3: x = rep(s.val(vs[2]), s.val(vs[1]))
            elif isinstance(p, IterV):
                w = s.val(vs[1])
                if isinstance(w, InitV): x = s.coerce_store(w, bt)
                else:
                    w = s.coerce_store(w, et); x = unit(w)
                    if isinstance(vs[1], MoveV): s.moved_from(vs[1].lv)
            else: x = s.strlike(s.val(vs[1]))
            setv(cat(sl(v, IntVal(0), i), x, sl(v, i, ln))); return IterV(lv, i)
        if name == 'resize':
            m = s.as_int(args[0])
            if s.entails(m <= ln) == 'proved' or s.choose(m <= ln): setv(sl(v, IntVal(0), m))
            else: setv(cat(v, rep(s.val(args[1]) if len(args) > 1 else s.zero(et), m - ln)))
            return None
        if name in ('append', 'assign'):
            vs = [s.val(a) for a in args]
            if len(vs) == 1: x = s.strlike(vs[0]) if bt.k == 'str' else s.coerce_store(vs[0], bt)
            elif isinstance(vs[0], IterV): x = s.range_seq(vs[0], vs[1], n)
            elif isinstance(vs[0], CStrV): x = sl(lit(vs[0].b), IntVal(0), vs[1])
            elif len(vs) == 3: x = sl(s.strlike(vs[0]), vs[1], s.clip(vs[1], vs[2], slen(s.strlike(vs[0]))))
            elif is_seq(vs[0]) : x = sl(vs[0], vs[1], slen(vs[0]))
            else: x = s.mkrep(vs[1], vs[0], n)
            setv(cat(v, x) if name == 'append' else x); return lv
        if name == 'substr':
            vs = [s.as_int(a) for a in args]
            i = vs[0] if vs else IntVal(0)
            if not s.choose(i <= ln): raise ThrowX(ExcV('std::out_of_range'))
            return sl(v, i, s.clip(i, vs[1] if len(vs) > 1 else IntVal(NPOS), ln))
        if name in ('rfind', 'find') and bt.k == 'str':
            return s.str_find(name, v, ln, args, n)
        if name == 'compare':
            vs = [s.val(a) for a in args]
            if len(vs) == 1: a, x = v, s.strlike(vs[0])
            else:
                if not s.choose(vs[0] <= ln): raise ThrowX(ExcV('std::out_of_range'))
                a, x = sl(v, vs[0], s.clip(vs[0], vs[1], ln)), s.strlike(vs[2])
                if len(vs) == 5: x = sl(x, vs[3], s.clip(vs[3], vs[4], slen(x)))
                elif len(vs) == 4: raise s._U('compare with 4 arguments')
            m = Cmp(a, x); return If(eq(a, x), IntVal(0), If(m >= 0, m + 1, m))      # zero if they are equal, else some other number
        if name in ('find_first_not_of', 'find_first_of', 'find_last_of', 'find_last_not_of'):
            vs = [s.val(a) for a in args]
            cs = vs[0]
            from .engine import CStrV as _C
            if not isinstance(cs, _C) and not (isinstance(cs, z3.ExprRef) and is_int(cs)): raise s._U(name)
            isin = (lambda x: Or(*[x == sc(ch) for ch in cs.b])) if isinstance(cs, _C) else (lambda x: x == cs)
            P = isin if name.endswith('_of') and 'not' not in name else (lambda x: Not(isin(x)))
            fwd = 'first' in name
            st = vs[1] if len(vs) > 1 else IntVal(0)
            if not fwd:
                hi = ln
                if len(vs) > 1:                 # up to and including the position given
                    hi = If(st >= ln, ln, addi(st, IntVal(1))) if num(st) != NPOS else ln
                r = s.search_last(v, IntVal(0), hi, P); return r if r is not None else IntVal(NPOS)
            r = s.search_first(v, st, ln, P)
            return r if r is not None else IntVal(NPOS)
        raise s._U(f'container.{name} at {s.loc(n)}')

    def search_first(s, v, lo, hi, P):
        """index of the first element of v[lo..hi) satisfying P, None if there is none (forks)"""
        if s.choose(s.fresh('found', B)):
            r = s.fresh('pos', I)
            s.assume(And(r >= lo, r < hi)); s.assume(P(at(v, r)))
            s.assume(ForAll([j_], Implies(And(lo <= j_, j_ < r), Not(P(at(v, j_)))), patterns=[at(v, j_)]))
            return r
        s.assume(ForAll([j_], Implies(And(lo <= j_, j_ < hi), Not(P(at(v, j_)))), patterns=[at(v, j_)]))
        return None

    def search_last(s, v, lo, hi, P):
        """index of the last element of v[lo..hi) satisfying P, None if there is none (forks)"""
        if s.choose(s.fresh('found', B)):
            r = s.fresh('pos', I)
            s.assume(And(r >= lo, r < hi)); s.assume(P(at(v, r)))
            s.assume(ForAll([j_], Implies(And(r < j_, j_ < hi), Not(P(at(v, j_)))), patterns=[at(v, j_)]))
            return r
        s.assume(ForAll([j_], Implies(And(lo <= j_, j_ < hi), Not(P(at(v, j_)))), patterns=[at(v, j_)]))
        return None

    def no_match(s, v, ps, lo, hi):
        """the (short, explicit) text ps does not start at any position of v in [lo, hi)"""
        s.assume(ForAll([j_], Implies(And(lo <= j_, j_ < hi), Or(*[at(v, j_ + k) != p.arg(0) for k, p in enumerate(ps)])), patterns=[at(v, j_)]))
    def explicit(s, x):
        """the characters of an explicit text of 1 to 8 characters, or None"""
        b = next((k for k, y in L.LITS.items() if y[0].eq(x)), None)
        ps = [unit(IntVal(sc(ch))) for ch in b] if b is not None else parts(x)
        return ps if 1 <= len(ps) <= 8 and all(p.num_args() == 1 and p.decl().eq(th(x).Unit) for p in ps) else None
    def str_find(s, name, v, ln, args, n):
        from .engine import CStrV
        vs = [s.val(a) for a in args]
        x = vs[0]
        pos = vs[1] if len(vs) > 1 else None
        if isinstance(x, z3.ExprRef) and is_int(x):
            if name == 'find':
                r = s.search_first(v, pos if pos is not None else IntVal(0), ln, lambda c: c == x)
                return r if r is not None else IntVal(NPOS)
            r = s.search_last(v, IntVal(0), ln if pos is None or num(pos) == NPOS else If(pos >= ln, ln, addi(pos, IntVal(1))), lambda c: c == x)
            return r if r is not None else IntVal(NPOS)
        x = s.strlike(x)
        if name == 'rfind' and pos is not None and num(pos) == 0:
            return ite(prefix_of(x, v), IntVal(0), IntVal(NPOS))
        ex = s.explicit(x); v = s.patternable(v) if ex else v
        if name == 'rfind' and pos is None:
            lx = slen(x); M = lambda i: eq(sl(v, i, addi(i, lx)), x)
            if s.choose(s.fresh('found', B)):
                r = s.fresh('pos', I); last = addi(ln, -lx)
                s.assume(And(r >= 0, r + lx <= ln)); s.assume(M(r)); s.assume(Implies(r < last, Not(M(last))))
                s.assume(Implies(r > 0, slen(x) < ln))
                if ex: s.no_match(v, ex, r + 1, addi(last, IntVal(1)))
                return r
            if ex: s.no_match(v, ex, IntVal(0), ln - lx + 1)
            s.assume(Not(And(lx <= ln, M(IntVal(0)))))
            return IntVal(NPOS)
        if name == 'find':
            lo = pos if pos is not None else IntVal(0)
            lx = slen(x)
            M = lambda i: eq(sl(v, i, addi(i, lx)), x)
            if ex:
                if s.choose(s.fresh('found', B)):
                    r = s.fresh('pos', I)
                    s.assume(And(r >= lo, r + lx <= ln)); s.assume(M(r))
                    s.assume(Implies(r > lo, Not(And(lo + lx <= ln, M(lo)))))
                    s.no_match(v, ex, lo, r)
                    return r
                s.no_match(v, ex, lo, ln - lx + 1)
                s.assume(Not(And(lo + lx <= ln, M(lo))))
                return IntVal(NPOS)
            # at the first position, later, or nowhere; the functions that tell which of the latter and where are constrained by these facts only
            if s.choose(And(lo + lx <= ln, M(lo))): return lo
            if s.choose(FindLater(v, x, lo)):
                r = If(FindPos(v, x, lo) > lo, FindPos(v, x, lo), addi(lo, IntVal(1)))
                s.fact(And(r + lx <= ln, M(r))); return r
            return IntVal(NPOS)
        raise s._U(name)

    def clip(s, i, cnt, ln):
        """end index of [i, i+cnt) cut to ln"""
        c = num_shallow(cnt)
        if c is not None and c >= (1 << 62): return ln
        e = addi(i, cnt)
        if s.entails(e <= ln, timeout=600) == 'proved': return e
        if s.entails(e >= ln, timeout=600) == 'proved': return ln
        return If(e <= ln, e, ln)

    def mkrep(s, x, cnt, n):
        s.oblige('repeat count is not negative or absurdly large', And(cnt >= 0, cnt <= (1 << 60)), n)
        return rep(x, cnt)

    def make_elem(s, et, args, n):
        from .engine import CStrV, MoveV, LObj, IterV
        vs = list(args)
        if et.k == 'str':
            if len(vs) == 0: return STR.Emp
            v = s.val(vs[0])
            if len(vs) == 1:
                r = s.strlike(v) if not (isinstance(v, z3.ExprRef) and is_int(v)) else s._U('string from integer')
                if isinstance(r, Exception): raise r
                if isinstance(vs[0], MoveV): s.moved_from(vs[0].lv)
                return r
            w = s.val(vs[1])
            if isinstance(v, IterV): return s.range_seq(v, w, n)
            if isinstance(v, CStrV): return sl(lit(v.b), IntVal(0), w)
            if is_int(v): return s.mkrep(w, v, n)
            if is_seq(v): return sl(v, w, s.clip(w, s.val(vs[2]), slen(v)) if len(vs) > 2 else slen(v))
        if len(vs) == 0: return s.zero(et)
        if len(vs) != 1: raise s._U(f'emplace of {et}')
        v = s.val(vs[0])
        if isinstance(vs[0], MoveV): s.moved_from(vs[0].lv)
        if isinstance(v, LObj): return v.ref
        return s.coerce_store(v, et)

    def range_seq(s, a, e, n):
        """elements of the iterator range [a, e)"""
        from .engine import CStrV
        if not s.same_container(a, e): raise s._U('range over two containers')
        c = s.seqv(a.lv) if not is_seqval(s.val(a.lv)) else s.val(a.lv)
        ln = slen(c)
        if a.rev:
            s.oblige('valid iterator range', And(e.idx >= 0, e.idx <= a.idx, a.idx <= ln), n)
            return rev(sl(c, e.idx, a.idx))
        s.oblige('valid iterator range', And(a.idx >= 0, a.idx <= e.idx, e.idx <= ln), n)
        return sl(c, a.idx, e.idx)

    # ------------------------------------------------------------ constructors
    def std_construct(s, t, args, ct, n, target):
        from .engine import IterV, MoveV, CStrV, InitV, LObj, PairV, OpaqueV, ExcV, ClosureV, FuncV, LVal, as_range
        args = s.real_args(args)
        if t.k in ('str', 'vec'):
            so = sort_of(t)
            vs = [s.ev(a) for a in args]
            if not vs: return emp(so)
            v = s.val(vs[0])
            if len(vs) == 1 or (len(vs) == 2 and isinstance(s.val(vs[1]), OpaqueV)):
                if t.k == 'vec' and isinstance(v, z3.ExprRef) and is_int(v): return s.mkrep(s.zero(s.elem_type(t)), v, n)
                if isinstance(v, (CStrV, InitV)): return s.coerce_store(v, t)
                if isinstance(v, IterV) and t.k == 'str':
                    raise s._U('string from a character pointer')
                if isinstance(vs[0], MoveV): s.moved_from(vs[0].lv)
                return v
            v, w = as_range(v), as_range(s.val(vs[1]))
            if isinstance(v, IterV) and isinstance(w, IterV): return s.range_seq(v, w, n)
            if isinstance(w, OpaqueV): w = None; raise s._U(f'{t} constructor {ct}')
            if isinstance(v, IterV):
                c = s.seqv(v.lv); s.oblige('valid range', And(v.idx >= 0, w >= 0, addi(v.idx, w) <= slen(c)), n)
                return sl(c, v.idx, addi(v.idx, w))
            if isinstance(v, CStrV):
                return lit((v.b + b'\0')[:num(w)]) if num(w) is not None and num(w) <= len(v.b) + 1 else _raise(s._U('string literal slice'))
            if is_int(v): return s.mkrep(s.coerce_store(w, s.elem_type(t)), v, n)
            if is_seq(v): return sl(v, w, s.clip(w, s.val(vs[2]), slen(v)) if len(vs) > 2 else slen(v))
            raise s._U(f'{t} constructor {ct}')
        if t.k == 'pair':
            vs = [s.ev(a) for a in args]
            if not vs: return s.zero(t)
            if len(vs) == 1:
                v = s.val(vs[0])
                if isinstance(v, InitV): return PairV(s.val(v.vals[0]), s.val(v.vals[1]))
                return v
            return PairV(s.coerce_store(s.val(vs[0]), t.a[0]), s.coerce_store(s.val(vs[1]), t.a[1]))
        if t.k in ('iter', 'miter', 'riter'):
            if not args: return OpaqueV('iter')
            return s.val(s.ev(args[0]))
        if t.k == 'sp':
            if not args: return IntVal(0)
            x = s.ev(args[0]); v = s.val(x)
            if isinstance(x, MoveV): s.moved_from(x.lv)
            if isinstance(v, LObj): v = v.ref
            return v
        if t.k == 'fn':
            if not args: return IntVal(0)
            x = s.ev(args[0]); v = s.val(x)
            if isinstance(x, MoveV): s.moved_from(x.lv)
            if isinstance(v, LObj): return v.ref
            return s.coerce_store(v, t)
        if t.k in ('stream',): return s.stream_construct(t, args, ct, n, target)
        if t.k == 'lock':
            o = LObj(target if target is not None else s.alloc('lock'), t)
            m = s.ev(args[0]) if args else None
            if len(args) > 1: raise s._U('lock with a locking policy')
            h = s.opts.get('monitor')
            if h is None: raise s._U('locking outside of a unit with a lock invariant')
            h.construct(s, o, m, n)
            return o
        if t.k == 'opaque':
            nm = t.name
            base = nm.split('::')[-1]
            if nm in ('std::out_of_range', 'std::invalid_argument', 'std::runtime_error', 'std::logic_error', 'std::bad_cast', 'std::length_error', 'std::exception', 'std::bad_function_call', 'std::domain_error', 'std::range_error', 'std::overflow_error'):
                vs = [s.val(s.ev(a)) for a in args]
                if len(vs) == 1 and isinstance(vs[0], ExcV): return vs[0]
                w = None
                if vs and (isinstance(vs[0], CStrV) or (isinstance(vs[0], z3.ExprRef) and is_seq(vs[0]))): w = s.strlike(vs[0])
                return ExcV(nm, w)
            h = s.opts.get('construct_hook')
            if h:
                r = h(s, t, args, ct, n, target)
                if r is not NotImplemented: return r
            vs = [s.ev(a) for a in args]
            if len(vs) == 1 and isinstance(s.val(vs[0]), BackInsV): return s.val(vs[0])
            o = LObj(target if target is not None else s.alloc('opaque'), t)
            if len(vs) == 1: s.copied(t, o.ref, vs[0])
            return o
        if t.k in ('mutex', 'condvar'): return LObj(s.alloc(t.k), t)
        if t.k == 'pod' and not args: return s.fresh('indet', sort_of(t))
        if t.k == 'pod' and len(args) == 1: return s.val(s.ev(args[0]))
        if t.k in ('int', 'bool', 'enum', 'ptr'): return s.val(s.ev(args[0]))
        raise s._U(f'construction of {t} at {s.loc(n)}')

    def stream_construct(s, t, args, ct, n, target):
        from .engine import LObj
        ref = target if target is not None else s.alloc('stream')
        o = LObj(ref, t)
        if t.name in ('basic_ofstream', 'ofstream', 'basic_ifstream', 'ifstream'):
            if not args: return o
            nm = s.seqv(s.ev(args[0]))
            modes = set()
            for a in args[1:]:
                st = [a]
                while st:
                    c = st.pop()
                    if c.get('kind') in ('DeclRefExpr',): modes.add(c['referencedDecl'].get('name'))
                    if c.get('kind') == 'MemberExpr': modes.add(c.get('name'))
                    st.extend(x for x in c.get('inner', ()) if isinstance(x, dict))
            g = s.gget('files', z3.ArraySort(Str, Str))
            if 'ofstream' in t.name:
                if 'in' in modes: raise s._U('ofstream mode')
                if 'app' not in modes and 'ate' not in modes:
                    s.gset('files', Store(g, nm, STR.Emp))
                elif 'ate' in modes and 'app' not in modes: s.gset('files', Store(g, nm, STR.Emp))
                if not hasattr(s, 'ofiles'): s.ofiles = {}
                s.ofiles[ref.get_id()] = nm
                s.gset('exists', Store(s.gget('exists', z3.ArraySort(Str, B)), nm, BoolVal(True)))
                s.in_set(ref, fail=BoolVal(False))
                s.trusted.add('opening the history file for writing succeeds')
            else:
                ex = Select(s.gget('exists', z3.ArraySort(Str, B)), nm)
                if s.choose(ex): s.in_set(ref, rem=fsel(g, nm), eof=BoolVal(False), fail=BoolVal(False))
                else: s.in_set(ref, rem=STR.Emp, eof=BoolVal(False), fail=BoolVal(True))
                s.trusted.add('opening an existing history file for reading succeeds')
            return o
        if t.name.endswith('ostringstream') and not args:
            g = s.gget('log', z3.ArraySort(I, Str)); s.gset('log', Store(g, ref, STR.Emp)); s.strs().add(ref.get_id())
            if s.writes is not None: s.writes.add(('glog', ref))
            return o
        if s.opts.get('iostream') and t.name in ('basic_stringstream', 'stringstream'):
            s.in_set(ref, rem=s.seqv(s.ev(args[0])) if args else STR.Emp, eof=BoolVal(False), fail=BoolVal(False)); return o
        if t.name.endswith('istringstream') and args:
            s.in_set(ref, rem=s.seqv(s.ev(args[0])), eof=BoolVal(False), fail=BoolVal(False)); return o
        raise s._U(f'stream {t.name}')
    def strs(s):
        """string streams made here: what they hold is what was written to them"""
        return s.path.__dict__.setdefault('ostr', set())

    # ------------------------------------------------------------ free functions
    def std_call(s, d, args, n):
        from .engine import MoveV, LV, LObj, IterV, PairV, InitV
        name = d.get('name', '')
        h = s.opts.get('func_hook')
        if h:
            r = h(s, name, args, n)
            if r is not NotImplemented: return r
        c = s.contracts.get('extern ' + name)
        if c is not None: return c.at_call(s, None, None, [s.ev(a) for a in s.real_args(args)], n)
        if name in ('make_shared', 'make_unique', 'make_pair', 'make_tuple'):
            return s.std_make(name, args, n)
        return s.std_call_vals(d, [s.ev(a) for a in s.real_args(args)], n, [s.T(a) for a in s.real_args(args)])

    def std_make(s, name, args, n):
        from .engine import PairV, LObj
        args = s.real_args(args)
        if name == 'make_pair':
            t = s.T(n)
            a, b = [s.val(s.ev(x)) for x in args]
            return PairV(s.coerce_store(a, t.a[0]), s.coerce_store(b, t.a[1]))
        t = s.T(n)
        if t.k != 'sp': raise s._U(name)
        e = t.a[0]
        vals = [s.ev(a) for a in args]
        if e.k == 'cls':
            c = s.prog.classes.get(e.name)
            if c is None: raise s._U(f'{name}<{e.name}>')
            cs = [m for m in c.methods if m.node['kind'] == 'CXXConstructorDecl' and not m.node.get('explicitlyDeleted')]
            cand = [m for m in cs if len(m.params) >= len(vals) and all(s.inner(p) for p in m.params[len(vals):]) and not s.is_copy_ctor(m, c)]
            if len(cand) != 1:
                cand2 = [m for m in cand if len(m.params) == len(vals)]
                cand = cand2 if len(cand2) == 1 else cand
            if not cand and not vals:
                r = s.alloc(e.name.split('::')[-1].split('<')[0]); s.default_init(c, r); return r
            if len(cand) != 1: raise s._U(f'{name}<{e.name}>: ambiguous constructor')
            ctor = s.prog.canon.get(cand[0].id, cand[0])
            r = s.alloc(e.name.split('::')[-1].split('<')[0])
            for p in cand[0].params[len(vals):]: vals.append(s.ev(s.inner(p)[0]))
            cc = s.contracts.get(e.name + '::ctor')
            if cc is not None:
                s.used_contracts.add(cc.name); cc.at_call(s, ctor, r, vals, n); return r
            if ctor.body is None: 
                s.default_init(c, r); return r
            s.run_ctor(ctor, c, r, vals, n)
            return r
        r = s.alloc('shared')
        l = s.deref(r, e)
        if e.k in ('str', 'vec'):
            if vals: raise s._U(name + ' of a container with arguments')
            s.store(l, emp(sort_of(e)))
        return r
    def is_copy_ctor(s, m, c):
        if len(m.params) != 1: return False
        t = parse(sty_of(m.params[0]), s.prog)
        return t.k == 'ref' and t.a[0].k == 'cls' and t.a[0].name == c.qname

    def std_call_vals(s, d, a, n, ts=None):
        from .engine import MoveV, LV, LObj, IterV, PairV, InitV, LElem, CStrV, LVal, ThrowX, ExcV, PtrTo, ManipV, OpaqueV
        name = d.get('name', '')
        v = lambda i: s.val(a[i])
        if name in ('move', 'forward', 'move_if_noexcept', 'as_const', 'addressof', 'ref', 'cref'):
            if len(a) == 1:
                if name in ('move',) and isinstance(a[0], LV) and not isinstance(a[0], LObj): return MoveV(a[0])
                if name == 'forward' and isinstance(a[0], LV) and not isinstance(a[0], LObj):
                    return MoveV(a[0]) if n.get('valueCategory') == 'xvalue' else a[0]
                return a[0]
        if name in ('min', 'max') and len(a) == 2:
            x, y = s.as_int(a[0]), s.as_int(a[1])
            c = (x <= y) if name == 'min' else (x >= y)
            if num(x) is not None and num(y) is not None: return x if is_true(z3.simplify(c)) else y
            if name == 'min': return If(y < x, y, x)
            return If(x < y, y, x)
        if name in ('min', 'max') and len(a) == 0:
            r = rng(s.T(n))
            if r is None: raise s._U('numeric_limits')
            return IntVal(r[0] if name == 'min' else r[1])
        if name in ('isspace', 'isdigit', 'isprint', 'isalpha', 'isupper', 'islower', 'isalnum', 'isblank', 'iscntrl', 'ispunct'):
            c = s.as_int(a[0])
            R = {'isspace': Or(And(c >= 9, c <= 13), c == 32), 'isdigit': And(c >= 48, c <= 57), 'isprint': And(c >= 32, c <= 126),
                 'isblank': Or(c == 9, c == 32), 'isupper': And(c >= 65, c <= 90), 'islower': And(c >= 97, c <= 122)}
            R['isalpha'] = Or(R['isupper'], R['islower']); R['isalnum'] = Or(R['isalpha'], R['isdigit'])
            if name not in R: raise s._U(name)
            s.trusted.add('ctype functions classify as in the "C" locale, any char value accepted (glibc)')
            return If(R[name], IntVal(1), IntVal(0))
        if name in ('stof', 'stod', 'stold'):
            x = s.strlike(v(0)); ok, val, ln = FP[name]
            s.trusted.add('std::stof, stod and stold throw, or return the value of a non-empty prefix and its length')
            if not s.choose(ok(x)): raise ThrowX(ExcV('std::invalid_argument') if s.choose(s.fresh('noconv', B)) else ExcV('std::out_of_range'))
            s.assume(And(0 < ln(x), ln(x) <= slen(x)))
            if len(a) > 1:
                p = v(1)
                if isinstance(p, PtrTo): s.store(p.lv, ln(x))
                elif num(p) != 0: raise s._U(f'{name}: where the length goes')
            return val(x)
        if name in ('next', 'prev'):
            it = v(0); k = s.as_int(a[1]) if len(a) > 1 else IntVal(1)
            return s.iter_binop('+' if name == 'next' else '-', it, k, n)
        if name == 'advance':
            it = v(0); s.store(a[0], s.iter_binop('+', it, s.as_int(a[1]), n)); return None
        if name == 'distance': return s.iter_binop('-', v(1), v(0), n)
        if name == 'make_move_iterator': it = v(0); return IterV(it.lv, it.idx, True, it.rev)
        if name in ('begin', 'end', 'cbegin', 'cend', 'size', 'empty') and len(a) == 1:
            l = a[0].lv if isinstance(a[0], MoveV) else a[0]
            t = l.t if isinstance(l, LV) else ts[0]
            return s.seq_method(name, l, t, [], n)
        if name == 'back_inserter': return BackInsV(a[0].lv if isinstance(a[0], MoveV) else a[0])
        if name == 'make_reverse_iterator': it = v(0); return IterV(it.lv, it.idx, it.move, True)
        if name in ('find', 'find_if', 'find_if_not', 'any_of', 'all_of', 'none_of', 'count', 'count_if'):
            return s.std_find(name, v(0), v(1), a[2], n)
        if name == 'for_each': return s.std_for_each(v(0), v(1), s.val(a[2]), n)
        if name == 'transform' and len(a) == 4: return s.std_transform(a, n)
        if name in ('remove_if', 'remove'): return s.std_remove(name, v(0), v(1), a[2], n)
        if name in ('copy', 'reverse_copy', 'move_backward', 'copy_n') or (name == 'move' and len(a) == 3): return s.std_copy(name, a, n)
        if name == 'min_element' or name == 'max_element': return s.std_minelem(name, a, n)
        if name in ('sort', 'stable_sort') and len(a) == 2:
            x, y = v(0), v(1); c = s.val(x.lv)
            if not (num(x.idx) == 0 and s.entails(y.idx == slen(c)) == 'proved'): raise s._U('sort of a part')
            r = (SortS if c.sort() == SS else SortI)(c)
            s.assume(slen(r) == slen(c)); s.store(x.lv, r); return None
        if name == 'unique' and len(a) == 2:
            x, y = v(0), v(1); c = s.val(x.lv)
            if not (num(x.idx) == 0 and s.entails(y.idx == slen(c)) == 'proved'): raise s._U('unique of a part')
            r = (UniqS if c.sort() == SS else UniqI)(c)
            s.assume(slen(r) <= slen(c))
            rest = s.fresh('junk', c.sort()); s.assume(slen(rest) == slen(c) - slen(r))
            s.store(x.lv, cat(r, rest)); return IterV(x.lv, slen(r))
        if name == 'reverse':
            x, y = v(0), v(1); c = s.val(x.lv)
            if not (num(x.idx) == 0 and s.entails(y.idx == slen(c)) == 'proved'): raise s._U('reverse of a part')
            s.store(x.lv, rev(c)); return None
        if name == 'swap':
            x, y = v(0), v(1); s.store(a[0], y); s.store(a[1], x); return None
        if name == 'exchange':
            x = v(0); s.store(a[0], v(1)); return x
        if name == 'to_string': return Dec(s.as_int(a[0]))
        if name == 'getline':
            o = a[0]
            ref = s.stream_ref(o)
            s.getline(ref, a[1]); return o
        if name == 'equal' and len(a) in (3, 4):
            x, y, z = v(0), v(1), v(2)
            c1 = s.range_seq(x, y, n)
            if len(a) == 4: c2 = s.range_seq(z, v(3), n)
            else:
                s.oblige('equal: second range long enough', addi(z.idx, slen(c1)) <= s.clen(z.lv), n)
                c2 = sl(s.val(z.lv), z.idx, addi(z.idx, slen(c1)))
            return eq(c1, c2)
        if name == 'abs': 
            x = s.as_int(a[0]); return s.wrap(If(x >= 0, x, -x), s.T(n), n)
        if name in ('make_pair',): return PairV(v(0), v(1))
        if name == 'operator|': return OpaqueV('|')
        if name == 'uncaught_exception': return BoolVal(False)
        raise s._U(f'std::{name} at {s.loc(n)}')

    def pred(s, f, n):
        from .engine import LVal
        def P(x, et):
            return s.closure_formula(f, [LVal(x, et)], n)
        return P

    def patternable(s, c):
        """a name for a sequence that cannot occur in a quantifier pattern"""
        seen = set(); st = [c]
        while st:
            t = st.pop()
            if t.get_id() in seen: continue
            seen.add(t.get_id())
            if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ):
                r = s.fresh('seq', c.sort()); s.assume(r == c); return r
            st += t.children()
        return c
    def std_find(s, name, x, y, f, n):
        from .engine import SideEffects
        o = s.st; s.st = o.copy()
        try: return s.std_find_pure(name, x, y, f, n)
        except SideEffects:
            s.st = o; return s.std_find_loop(name, x, y, f, n)
    def std_find_loop(s, name, x, y, f, n):
        """the algorithm as the loop it is: the predicate is called on one element after the other until it decides"""
        from .engine import LElem, BreakX, IterV
        if not s.same_container(x, y) or x.rev or name not in ('find_if', 'find_if_not', 'any_of', 'all_of', 'none_of'): raise s._U(f'{name} with side effects')
        et = s.elem_type(x.lv.t); lv = x.lv; f = s.val(f); neg = name in ('find_if_not', 'all_of')
        def hit(i):
            r = s.truth(s.call_value(f, [LElem(lv, i, et)], n)); return Not(r) if neg else r
        def result(found, i):
            return IterV(lv, i) if name.startswith('find') else found if name == 'any_of' else Not(found)
        a, b = num(x.idx), num(z3.simplify(y.idx))
        if a is not None and b is not None and b - a <= 6:
            for i in range(a, b):
                if s.choose(hit(IntVal(i))): return result(BoolVal(True), IntVal(i))
            return result(BoolVal(False), y.idx)
        if num(x.idx) != 0 or s.entails(y.idx == s.clen(lv)) != 'proved': raise s._U(f'{name} over a part')
        idx = s.newcell(IntVal(0), SIZE, 'find'); found = s.newcell(BoolVal(False), BOOL, 'found')
        def body():
            if s.choose(hit(s.val(idx))): s.store(found, BoolVal(True)); raise BreakX()
        s.loop(n, lambda: s.val(idx) < s.clen(lv), body, lambda: s.store(idx, s.val(idx) + 1), rangelv=lv, idx=idx)
        return result(s.val(found), s.val(idx))
    def std_find_pure(s, name, x, y, f, n):
        from .engine import IterV
        if not s.same_container(x, y): raise s._U(name)
        c = s.val(x.lv); 
        from .engine import InitV, ArrV
        if isinstance(c, InitV): c = s.coerce_store(c, x.lv.t)
        et = s.elem_type(x.lv.t)
        s.oblige('valid iterator range', And(x.idx >= 0, x.idx <= y.idx, y.idx <= slen(c)) if not x.rev else And(y.idx >= 0, y.idx <= x.idx, x.idx <= slen(c)), n)
        c = s.patternable(c)
        if name in ('find', 'count'):
            w = s.val(f); w = s.coerce_store(w, et)
            from .engine import LObj, PtrTo
            if isinstance(w, PtrTo): w = s.ref(w.lv)
            if isinstance(w, LObj): w = w.ref
            P0 = lambda e: eq(e, w)
        else:
            pf = s.val(f); P_ = s.pred(pf, n)
            P0 = lambda e: P_(e, et)
        P = P0 if name not in ('find_if_not', 'all_of') else (lambda e: Not(P0(e)))
        if name in ('count', 'count_if') and x.rev: raise s._U(name)
        # small literal containers: element by element
        ps = parts(c)
        whole = (x, y) if not x.rev else (y, x)
        if num(whole[0].idx) == 0 and whole[1].idx.eq(slen(c)) and len(ps) <= 6 and all(p.num_args() == 1 and p.decl().eq(th(c).Unit) for p in ps):
            if name in ('count', 'count_if'): return sum((If(P(p.arg(0)), IntVal(1), IntVal(0)) for p in ps), IntVal(0))
            hit = None
            for i, p in (enumerate(ps) if not x.rev else reversed(list(enumerate(ps)))):
                if s.choose(P(p.arg(0))): hit = i; break
            if name in ('any_of',): return BoolVal(hit is not None)
            if name in ('all_of', 'none_of'): return BoolVal(hit is None)
            if x.rev: return IterV(x.lv, IntVal(hit + 1 if hit is not None else 0), rev=True)
            return IterV(x.lv, IntVal(hit if hit is not None else len(ps)))
        jc = s.fresh('elem', I)
        e0 = at(c, jc)
        s.type_inv_q = None
        body = P(e0)
        def Q(e): return z3.substitute(body, (jc, e))
        if x.rev:                                    # the elements before y, y+1, .. x: from the last to the first
            r = s.search_last(c, y.idx, x.idx, lambda e: P(e))
            if name == 'any_of': return BoolVal(r is not None)
            if name in ('all_of', 'none_of'): return BoolVal(r is None)
            return IterV(x.lv, addi(r, IntVal(1)) if r is not None else y.idx, rev=True)
        def Pat(e_idx): return z3.substitute(body, (jc, e_idx))
        if s.choose(s.fresh('found', B)):
            r = s.fresh('pos', I)
            s.assume(And(r >= x.idx, r < y.idx)); s.assume(Pat(r))
            s.assume(ForAll([j_], Implies(And(x.idx <= j_, j_ < r), Not(Pat(j_))), patterns=[at(c, j_)]))
            res = r
        else:
            s.assume(ForAll([j_], Implies(And(x.idx <= j_, j_ < y.idx), Not(Pat(j_))), patterns=[at(c, j_)]))
            res = None
        if name in ('count', 'count_if'):            # how many is left open, except that there is one exactly if one is found
            if res is None: return IntVal(0)
            r = s.fresh('count', I); s.assume(And(r >= 1, r <= y.idx - x.idx)); return r
        if name == 'any_of': return BoolVal(res is not None)
        if name in ('all_of', 'none_of'): return BoolVal(res is None)
        return IterV(x.lv, res if res is not None else y.idx)

    def std_for_each(s, x, y, f, n):
        from .engine import LElem
        if not s.same_container(x, y) or x.rev: raise s._U('for_each')
        et = s.elem_type(x.lv.t); lv = x.lv
        if num(x.idx) != 0 or s.entails(y.idx == s.clen(lv)) != 'proved': raise s._U('for_each over a part')
        idx = s.newcell(IntVal(0), SIZE, 'foreach')
        def cond(): return s.val(idx) < s.clen(lv)
        def body():
            s.call_value(f, [LElem(lv, s.val(idx), et)], n)
        def inc(): s.store(idx, s.val(idx) + 1)
        s.loop(n, cond, body, inc, rangelv=lv, idx=idx)
        return None

    def std_transform(s, a, n):
        from .engine import LElem, IterV
        x, y, d, f = s.val(a[0]), s.val(a[1]), s.val(a[2]), s.val(a[3])
        if len(a) != 4 or not s.same_container(x, y) or x.rev: raise s._U('transform')
        lv = x.lv; et = s.elem_type(lv.t)
        if num(x.idx) != 0 or s.entails(y.idx == s.clen(lv)) != 'proved': raise s._U('transform of a part')
        idx = s.newcell(IntVal(0), SIZE, 'transform')
        if isinstance(d, IterV): s.oblige('destination range large enough', And(d.idx >= 0, addi(d.idx, s.clen(lv)) <= s.clen(d.lv)), n)
        elif not isinstance(d, BackInsV): raise s._U('transform to this destination')
        def body():
            v = s.val(s.call_value(f, [LElem(lv, s.val(idx), et)], n))
            if isinstance(d, BackInsV):
                c = s.val(d.lv); t = s.elem_type(d.lv.t)
                s.store(d.lv, cat(c, unit(s.coerce_store(v, t))))
            else: s.store(LElem(d.lv, addi(d.idx, s.val(idx)), s.elem_type(d.lv.t)), s.coerce_store(v, s.elem_type(d.lv.t)))
        s.loop(n, lambda: s.val(idx) < s.clen(lv), body, lambda: s.store(idx, s.val(idx) + 1), rangelv=lv, idx=idx)
        return d if isinstance(d, BackInsV) else IterV(d.lv, addi(d.idx, s.clen(lv)))

    filters = []        # (name, formula over an element term, filter function): see register_filter
    def std_remove(s, name, x, y, f, n):
        from .engine import IterV, LVal, PtrTo, LObj
        c = s.val(x.lv); et = s.elem_type(x.lv.t)
        if not (s.same_container(x, y) and num(x.idx) == 0 and s.entails(y.idx == slen(c)) == 'proved'): raise s._U(f'{name} over a part')
        if name == 'remove':
            w = s.val(f)
            if isinstance(w, PtrTo): w = s.ref(w.lv)
            if isinstance(w, LObj): w = w.ref
            if c.sort() != Str: raise s._U('remove of strings')
            r = FiltNe(c, w)
        else:
            pf = s.val(f)
            xe = s.fresh('elem', th(c).elem)
            P = s.closure_formula(pf, [LVal(xe, et)], n)
            r = None
            for nm, spec, fn in s.filters:
                if fn.domain(0) != c.sort(): continue
                if s.entails(P == spec(xe)) == 'proved': r = fn(c); break
            if r is None: raise s._U('remove_if with an unknown predicate')
        s.assume(And(slen(r) >= 0, slen(r) <= slen(c)))
        rest = s.fresh('junk', c.sort()); s.assume(slen(rest) == slen(c) - slen(r))
        s.store(x.lv, cat(r, rest))
        return IterV(x.lv, slen(r))

    def std_copy(s, name, a, n):
        from .engine import IterV
        x, y, d = s.val(a[0]), s.val(a[1]), s.val(a[2])
        if name == 'copy_n': raise s._U(name)
        src = s.range_seq(x, y, n)
        if name == 'reverse_copy': src = rev(src)
        if isinstance(d, BackInsV):
            dc = s.val(d.lv)
            if src.sort() != dc.sort(): raise s._U('copy of other elements')
            s.store(d.lv, cat(dc, src))
            if name == 'move' or x.move:
                ln = slen(src)                       # what was moved from is there, with any value
                if src.sort() == SS: s.store(x.lv, cat(sl(s.val(x.lv), IntVal(0), x.idx), s.moved_seq(ln), sl(s.val(x.lv), addi(x.idx, ln), slen(s.val(x.lv))))) if not x.rev else _raise(s._U('move of a reversed range'))
            return d
        if not isinstance(d, IterV): raise s._U('copy to this destination')
        dc = s.val(d.lv); ln = slen(src)
        s.oblige('destination range large enough', And(d.idx >= 0, addi(d.idx, ln) <= slen(dc)), n)
        e = addi(d.idx, ln)
        if num(d.idx) == 0 and s.entails(e == slen(dc)) == 'proved': s.store(d.lv, src)
        else: s.store(d.lv, cat(sl(dc, IntVal(0), d.idx), src, sl(dc, e, slen(dc))))
        return IterV(d.lv, e)

    def moved_seq(s, ln):
        r = s.fresh('moved', SS); s.assume(slen(r) == ln); return r
    def std_minelem(s, name, a, n):
        from .engine import IterV, LVal
        x, y = s.val(a[0]), s.val(a[1]); c = s.val(x.lv); et = s.elem_type(x.lv.t)
        f = s.val(a[2]) if len(a) > 2 else None
        s.oblige('valid iterator range', And(x.idx >= 0, x.idx <= y.idx, y.idx <= slen(c)), n)
        if s.choose(x.idx == y.idx): return IterV(x.lv, y.idx)
        r = s.fresh('minpos', I); s.assume(And(r >= x.idx, r < y.idx))
        jc = s.fresh('elem', I)
        def less(p, q):
            if f is None: return s.compare('<', p, q, n)
            return s.closure_formula(f, [LVal(p, et), LVal(q, et)], n)
        # no element is smaller than the result (max: the result is smaller than no element)
        body = less(at(c, jc), at(c, r)) if name == 'min_element' else less(at(c, r), at(c, jc))
        s.assume(ForAll([j_], Implies(And(x.idx <= j_, j_ < y.idx), Not(z3.substitute(body, (jc, j_)))), patterns=[at(c, j_)]))
        return IterV(x.lv, r)

class BackInsV:
    def __init__(s, lv): s.lv = lv
def hselg(g, ref):
    from .engine import hsel
    return hsel(g, ref)
def fsel(g, key):
    a = g
    while a.num_args() == 3 and a.decl().kind() == z3.Z3_OP_STORE:
        if a.arg(1).eq(key): return a.arg(2)
        break
    return Select(a, key)
def is_seqval(v): return isinstance(v, z3.ExprRef) and is_seq(v)
def simp_minus1(v, ln):
    ps = parts(v)
    if len(ps) > 1 and ps[-1].num_args() == 1 and ps[-1].decl().eq(th(v).Unit): return slen(cat(*ps[:-1]))
    return addi(ln, IntVal(-1))
def ty_of(n):
    t = n.get('type') or {}
    return (t.get('desugaredQualType') or '') + ' ' + (t.get('qualType') or '')
def sty_of(n): 
    t = n.get('type') or {}
    return t.get('desugaredQualType') or t.get('qualType') or ''
def _raise(e): raise e
