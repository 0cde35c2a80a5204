"""C18: the global output stream (OutStream): fan-out to the registered streams, registration."""
from cxv.verify import *
from cxv import logic as L

CLS = 'cli::OutStream'
LOG = ArraySort(I, Str)
# outputs of all streams after `txt` has been written to the first k streams of the list s, one after the other
Fan = Function('Fan', LOG, Str, I, Str, LOG)
_g, _s, _k, _x = Const('g', LOG), Const('s', Str), Int('k'), Const('x', Str)
DEFS = [ForAll([_g, _s, _x], Fan(_g, _s, 0, _x) == _g, patterns=[Fan(_g, _s, 0, _x)])]
def fan_step(g, s, k, x):
    """definition of Fan at k+1"""
    o = L.at(s, k); f = Fan(g, s, k, x)
    return Implies(And(0 <= k, k < slen(s)), Fan(g, s, k + 1, x) == Store(f, o, cat(Select(f, o), x)))
L.EXTRA.extend(DEFS)

def loop_inv(e, n, entry, mods, rangelv, idx):
    rangelv = e.loop_range(n, entry, mods, rangelv)
    if rangelv is None or 'txt' not in e.opts: return []
    def inv(c):
        x = e.opts['txt'](e)
        s = e.val(rangelv); g0 = c.entry.ghost.get('log', Const('G_log', LOG))
        if c.prev is not None: c.hints.append(fan_step(g0, s, c.prev.k, x))
        return e.gget('log', LOG) == Fan(g0, s, c.k, x)
    return [('the first k streams have received the text, once each', inv)]

def nonnull(s):
    i = Int('i!n'); return ForAll([i], Implies(And(0 <= i, i < slen(s)), L.th(s).At(s, i) != 0), patterns=[L.th(s).At(s, i)])
class Out(Spec):
    loops = [loop_inv]
    def inv(s, c): return [('registered streams exist', nonnull(c.F('ostreams')))]
    def frame(s, c): return [('ghost', 'log', LOG)]
class Xsputn(Out):
    qname = CLS + '::xsputn'
    def text(s, c): v = c.e.val(c.vals[0]); return sl(c.e.val(v.lv), v.idx, v.idx + c.oarg(1))
    def pre(s, c):
        v = c.e.val(c.vals[0])
        if not isinstance(v, IterV): raise Unsupported('buffer')
        m = c.e.val(v.lv); return s.inv(c) + [('the buffer holds n characters', And(c.arg(1) >= 0, v.idx >= 0, v.idx + c.arg(1) <= slen(m)))]
    def setup(s, c): c.e.opts['txt'] = lambda e: s.text(c)
    def post(s, c):
        st = c.O('ostreams'); x = s.text(c)
        return [('every registered stream receives the text, in full, once per registration, and no other stream anything',
                 c.e.gget('log', LOG) == Fan(c.old(lambda: c.e.gget('log', LOG)), st, slen(st), x)),
                ('the whole text is reported as written', c.ret == c.oarg(1)),
                ('registrations unchanged', eq(c.F('ostreams'), st))]
class Overflow(Out):
    qname = CLS + '::overflow'
    def pre(s, c): return s.inv(c) + [('a character (not end of file)', And(c.arg(0) >= 0, c.arg(0) <= 255))]
    def text(s, c): v = c.oarg(0); return unit(If(v > 127, v - 256, v))
    def setup(s, c): c.e.opts['txt'] = lambda e: s.text(c)
    def post(s, c):
        st = c.O('ostreams')
        return [('every registered stream receives the character, once per registration, and no other stream anything',
                 c.e.gget('log', LOG) == Fan(c.old(lambda: c.e.gget('log', LOG)), st, slen(st), s.text(c))),
                ('reported as written', c.ret != -1)]
class Register(Spec):
    qname = CLS + '::Register'
    def pre(s, c): return [('registered streams exist', nonnull(c.F('ostreams')))]
    def frame(s, c): return [c.lv('ostreams')]
    def post(s, c): return [Set('exactly this stream is added', c.lv('ostreams'), cat(c.O('ostreams'), unit(c.arg(0)))), ('registered streams exist', nonnull(c.F('ostreams')))]
class UnRegister(Spec):
    qname = CLS + '::UnRegister'
    def pre(s, c): return [('registered streams exist', nonnull(c.F('ostreams')))]
    def frame(s, c): return [c.lv('ostreams')]
    def post(s, c):
        o, n, x = c.O('ostreams'), c.F('ostreams'), c.arg(0)
        w = Int('w!'); i = Int('i!')
        gone = Exists([w], And(0 <= w, w < slen(o), L.at(o, w) == x, eq(n, cat(sl(o, IntVal(0), w), sl(o, w + 1, slen(o))))), patterns=[L.at(o, w)])
        absent = ForAll([i], Implies(And(0 <= i, i < slen(o)), L.at(o, i) != x), patterns=[L.at(o, i)])
        return [('exactly one registration of this stream is removed, the others keep their order (nothing happens if there is none)',
                 Or(gone, And(absent, eq(n, o)))), ('registered streams exist', nonnull(n))]

specs = dict(xsputn=Xsputn(), overflow=Overflow(), Register=Register(), UnRegister=UnRegister())

def fan_lemmas(e):
    """what Fan means stream by stream (induction on k)"""
    g, s, x, r, k, p = Const('g0', LOG), Const('s0', Str), Const('x0', Str), Int('r0'), Int('k0'), Int('p0')
    i = Int('i!')
    step = fan_step(g, s, k, x); rng_ = And(0 <= k, k < slen(s))
    def none(kk): return ForAll([i], Implies(And(0 <= i, i < kk), L.at(s, i) != r), patterns=[L.at(s, i)])
    def once(kk): return And(0 <= p, p < kk, L.at(s, p) == r, ForAll([i], Implies(And(0 <= i, i < kk, i != p), L.at(s, i) != r), patterns=[L.at(s, i)]))
    unch = lambda kk: Select(Fan(g, s, kk, x), r) == Select(g, r)
    got = lambda kk: eq(Select(Fan(g, s, kk, x), r), cat(Select(g, r), x))
    return [('an unregistered stream receives nothing (base)', [], unch(IntVal(0))),
            ('an unregistered stream receives nothing (step)', [rng_, step, Implies(none(k), unch(k)), none(k + 1), L.at(s, k) == L.at(s, k)], unch(k + 1)),
            ('a stream registered once receives the text exactly once (step)', [rng_, step, Implies(none(k), unch(k)), Implies(once(k), got(k)), once(k + 1)], got(k + 1))]
units = [FnUnit(v, [specs['xsputn']] if k == 'overflow' else ()) for k, v in specs.items()] + [LemmaUnit('OutStream: meaning of the fan-out', fan_lemmas)]
