"""C02: from_string<T> for integral types, bool, char and std::string."""
from cxv.verify import *
from cxv import logic as L
from cxv.stl import FP
from cxv.engine import LObj, FuncV, Unsupported

DV = Function('digval', Str, I, I)          # value of the first k characters read as decimal digits
_s, _k, _i = Const('s', Str), Int('k'), Int('i')
isdig = lambda c: And(c >= 48, c <= 57)
Digs = Function('alldigits', Str, B)
DigWit = Function('digwit', Str, I)
DEFS = [ForAll([_s, _i], Implies(And(Digs(_s), 0 <= _i, _i < STR.Len(_s)), isdig(STR.At(_s, _i))), patterns=[z3.MultiPattern(Digs(_s), STR.At(_s, _i))]),
        ForAll([_s], Implies(Not(Digs(_s)), And(0 <= DigWit(_s), DigWit(_s) < STR.Len(_s), Not(isdig(STR.At(_s, DigWit(_s)))))), patterns=[Digs(_s)])]
def Def(s, k): return DV(s, k + 1) == 10 * DV(s, k) + at(s, k) - 48
def Def0(s): return DV(s, IntVal(0)) == 0
MONO = ForAll([_s, _k], Implies(And(Digs(_s), 0 <= _k, _k <= STR.Len(_s)), And(0 <= DV(_s, _k), DV(_s, _k) <= DV(_s, STR.Len(_s)))), patterns=[DV(_s, _k)])
L.EXTRA += DEFS + [MONO]

def mono_lemma(e):
    """0 <= DV(s,k) <= DV(s,len) for digit strings: induction upwards for the lower, downwards for the upper bound"""
    s, k = Const('ls', Str), Int('lk')
    L.EXTRA.remove(MONO)
    try: obs = [
        ('base, lower bound', [Def0(s)], DV(s, IntVal(0)) >= 0),
        ('step, lower bound', [Digs(s), 0 <= k, k < slen(s), Def(s, k), DV(s, k) >= 0], DV(s, k + 1) >= 0),
        ('base, upper bound', [], DV(s, slen(s)) <= DV(s, slen(s))),
        ('step, upper bound', [Digs(s), 0 <= k, k < slen(s), Def(s, k), DV(s, k) >= 0, DV(s, k + 1) <= DV(s, slen(s))], DV(s, k) <= DV(s, slen(s)))]
    finally: pass
    yield from obs
    L.EXTRA.append(MONO)

def ok_digits(t, mx): return And(slen(t) > 0, Digs(t), DV(t, slen(t)) <= mx)
val = lambda t: DV(t, slen(t))
def strip(s): return sl(s, IntVal(1), slen(s))
def ok_signed(s, lo, hi):
    first = at(s, IntVal(0)); t = strip(s)
    return And(slen(s) > 0, If(first == 45, ok_digits(t, -lo), If(first == 43, ok_digits(t, hi), ok_digits(s, hi))))
def val_signed(s):
    first = at(s, IntVal(0)); t = strip(s)
    return If(first == 45, -val(t), If(first == 43, val(t), val(s)))
def ok_unsigned(s, hi):
    first = at(s, IntVal(0)); t = strip(s)
    return And(slen(s) > 0, If(first == 43, ok_digits(t, hi), ok_digits(s, hi)))
def val_unsigned(s):
    return If(at(s, IntVal(0)) == 43, val(strip(s)), val(s))

BAD = 'cli::detail::bad_conversion'
class Conv(Spec):
    throws = (BAD,)
    def lemma(s, c):
        x = c.oarg(0)
        for y in (x, strip(x)): c.e.assume(Def0(y))
    def rng(s, c): return rng(s.rettype(c.f, c.e.prog))
    def ok(s, c): raise NotImplementedError
    def value(s, c): raise NotImplementedError
    def post(s, c): return [('accepted only if well formed and in range', s.ok(c)), ('value is the number written', eq(c.ret, s.value(c)))]
    def xpost(s, c): return [('rejected only if malformed or out of range', Not(s.ok(c)))]
    def at_call(s, e, f, this, vals, n):
        r = super().at_call(e, f, this, vals, n); return r
class Digits(Conv):
    qname = 'cli::detail::detail::unsigned_digits_from_string'
    def ok(s, c): return ok_digits(c.oarg(0), s.rng(c)[1])
    def value(s, c): return val(c.oarg(0))
class Signed(Conv):
    qname = 'cli::detail::detail::signed_from_string'
    def ok(s, c): return ok_signed(c.oarg(0), *s.rng(c))
    def value(s, c): return val_signed(c.oarg(0))
class Unsigned(Conv):
    qname = 'cli::detail::detail::unsigned_from_string'
    def ok(s, c): return ok_unsigned(c.oarg(0), s.rng(c)[1])
    def value(s, c): return val_unsigned(c.oarg(0))
class FromSigned(Signed): qname = 'cli::detail::from_string'
class FromUnsigned(Unsigned): qname = 'cli::detail::from_string'
class FromBool(Conv):
    qname = 'cli::detail::from_string'
    LL = (-(1 << 63), (1 << 63) - 1)
    def ok(s, c):
        x = c.oarg(0)
        return Or(eq(x, lit('true')), eq(x, lit('false')), And(ok_signed(x, *s.LL), Or(val_signed(x) == 0, val_signed(x) == 1)))
    def value(s, c): 
        x = c.oarg(0); return Or(eq(x, lit('true')), And(Not(eq(x, lit('false'))), val_signed(x) == 1))
    def post(s, c): return [('accepted only if well formed', s.ok(c)), ('value', c.ret == s.value(c))]
class FromChar(Conv):
    qname = 'cli::detail::from_string'
    def ok(s, c): return slen(c.oarg(0)) == 1
    def value(s, c): return at(c.oarg(0), IntVal(0))
def noblank(x):
    i = Int('i!'); return ForAll([i], Implies(And(0 <= i, i < slen(x)), Not(Or(at(x, i) == 32, And(at(x, i) >= 9, at(x, i) <= 13)))), patterns=[at(x, i)])
class FromFloat(Conv):
    qname = 'cli::detail::from_string'
    def fp(s): return FP[{'float': 'stof', 'double': 'stod', 'long double': 'stold'}[s.targs[0]]]
    def ok(s, c):
        x = c.oarg(0); ok, val, ln = s.fp(); return And(noblank(x), ok(x), ln(x) == slen(x))
    def value(s, c): return s.fp()[1](c.oarg(0))
# a type with its own stream extraction: what the extraction does with the characters it is given
UOk, UVal, ULen, UEof, AllWs = Function('extracts', Str, B), Function('extracted', Str, I), Function('extracted_length', Str, I), Function('extraction_meets_end', Str, B), Function('only_white_space', Str, B)
def ext_op(e, op, args, n):
    if op not in ('<<', '>>', '!') or e.T(args[0]).k not in ('stream', 'ref'): return NotImplemented
    a = e.ev(args[0])
    if not isinstance(a, LObj): return NotImplemented
    r = a.ref
    if op == '!': return e.in_fail(r)
    if op == '<<':
        x = e.seqv(e.ev(args[1]))
        if not e.choose(e.in_fail(r)): e.in_set(r, rem=cat(e.in_rem(r), x))
        return a
    w = e.ev(args[1]); rem = e.in_rem(r)
    if isinstance(w, FuncV) and w.decl.get('name') == 'ws':
        eof = Or(e.in_eof(r), AllWs(rem)); e.in_set(r, rem=e.fresh('rest', Str), eof=eof, fail=Or(e.in_fail(r), e.in_eof(r))); return a
    return NotImplemented
def extract(e, a, w):
    r = a.ref; rem = e.in_rem(r)
    if e.choose(Or(e.in_fail(r), e.in_eof(r))):
        e.in_set(r, fail=BoolVal(True)); return a
    e.assume(And(0 <= ULen(rem), ULen(rem) <= slen(rem), Implies(UEof(rem), ULen(rem) == slen(rem))))
    if e.choose(UOk(rem)): e.store(w, UVal(rem)); e.in_set(r, rem=sl(rem, ULen(rem), slen(rem)), eof=UEof(rem))
    else: e.in_set(r, rem=e.fresh('rest', Str), eof=UEof(rem), fail=BoolVal(True))
    return a
class UserExtract(Spec):
    qname = 'cli::operator>>'; name = "a type's own extraction"
    def at_call(s, e, f, this, vals, n): return extract(e, vals[0], vals[1])
class FromUser(Conv):
    qname = 'cli::detail::from_string'
    def setup(s, c):
        e = c.e; e.opts['op_hook'] = ext_op; e.opts['iostream'] = True
        e.assume(AllWs(STR.Emp)); e.trusted.add("a parameter type's own extraction depends on the characters of its argument only, and reads forward")
    def ok(s, c):
        x = c.oarg(0); return And(UOk(x), AllWs(sl(x, ULen(x), slen(x))))
    def value(s, c): return UVal(c.oarg(0))
class FromString(Spec):
    qname = 'cli::detail::from_string'
    def result(s, c, t): return c.oarg(0)
    def post(s, c): return [('unchanged', eq(c.ret, c.oarg(0)))]

def loop(e, n, entry, mods, rangelv, idx):
    rangelv = e.loop_range(n, entry, mods, rangelv)
    if rangelv is None or not is_seq(e.val(rangelv)) or e.val(rangelv).sort() != Str: return []
    s = e.val(rangelv); out = []
    for x in [m[1] for m in mods if m[0] == 'cell' and is_int(entry.cells.get(m[1])) and not (idx is not None and m[1] == idx.cell)]:
        def f(c, x=x):
            c.hints.append(Def0(s))
            if c.prev is not None: c.hints.append(Def(s, c.prev.k))
            return c.cell(x) == DV(s, c.k)
        out.append((f'{x.split("@")[0]} is the value of the digits read', f))
    def digs(c):
        i = Int('i!'); return ForAll([i], Implies(And(0 <= i, i < c.k), isdig(at(s, i))), patterns=[at(s, i)])
    out.append(('only digits read', digs))
    # ground facts used when the loop leaves by an exception
    def inst(c):
        c.e.assume(Def(s, c.k)); c.e.assume(Def0(s)); return BoolVal(True)
    out.append(('definition of the value', inst))
    return out

SIGNED = ['signed char', 'short', 'int', 'long', 'long long']
UNSIGNED = ['unsigned char', 'unsigned short', 'unsigned int', 'unsigned long', 'unsigned long long']
def mk(cls, t, **kw):
    x = cls(targs=(t,), **kw); x.name = f'{cls.qname.split("::")[-1]}<{t}>'
    return x
digits = {t: mk(Digits, t) for t in UNSIGNED}
signed = {t: mk(Signed, t) for t in SIGNED}
unsigned = {t: mk(Unsigned, t) for t in UNSIGNED}
from_specs = [mk(FromSigned, t) for t in SIGNED] + [mk(FromUnsigned, t) for t in UNSIGNED] + [mk(FromBool, 'bool'), mk(FromChar, 'char'), mk(FromString, 'std::basic_string<char>')] + [mk(FromFloat, t) for t in ('float', 'double', 'long double')] + [mk(FromUser, 'cli::UserValue')]
units = [LemmaUnit('digit value is monotone', mono_lemma)]
units += [FnUnit(x, loops=[loop]) for x in digits.values()]
units += [FnUnit(x, contracts=list(digits.values()), loops=[loop]) for x in list(signed.values()) + list(unsigned.values())]
units += [FnUnit(x, contracts=list(signed.values()) + list(unsigned.values()) + ([UserExtract()] if isinstance(x, FromUser) else []), loops=[loop]) for x in from_specs]
