"""C12: what rang's colour manipulators write: nothing, or one sequence ESC [ n m, which a terminal does not show.

The callers' contracts leave these sequences out of the text they talk about: that is what "colour sequences take no column" means."""
from cxv.verify import *
from cxv import logic as L
from cxv.stl import _Dec

R = 'cli::detail::rang::'; IMPL = R + 'rang_implementation::'
class Ask(Spec):
    """asks the environment: any answer, nothing is written"""
    trusted_note = 'rang asks the environment (TERM, isatty) only, to decide about colours'
    def at_call(s, e, f, this, vals, n): e.trusted.add(s.trusted_note); return e.fresh('answer', s.so)
ASK = [Ask(qname=IMPL + 'getIword', so=I), Ask(qname=IMPL + 'supportsColor', so=B), Ask(qname=IMPL + 'isTerminal', so=B)]
def hook(e, name, b, bt, args, n):
    if name == 'iword':
        for a in args: e.ev(a)
        return e.newcell(e.fresh('iword', I), T('int', (64, True)), 'iword')
    return NotImplemented
class Colour(Spec):
    """nothing or one colour sequence"""
    frame_any = True
    def pick(s, f): return any(str(p.get('type', {}).get('qualType', '')).endswith('rang::' + s.of) for p in f.params)
    def setup(s, c): c.e.opts['method_hook'] = hook
    def post(s, c):
        o = c.arg(0) if not isinstance(c.vals[0], LObj) else c.vals[0].ref
        new, old = c.log(o), c.olog(o); p, q = L.parts(new), L.parts(old)
        if len(p) < len(q) or not all(a.eq(b) for a, b in zip(p, q)): return [('output is only appended', BoolVal(False))]
        p = [z3.simplify(x) for x in p[len(q):]]; ok = not p
        if s.of != 'control' and len(p) == 3:
            dec = z3.is_app(p[1]) and p[1].decl().eq(_Dec)
            ok = p[0].eq(z3.simplify(L.lit(b'\x1b['))) and dec and p[2].eq(z3.simplify(L.unit(IntVal(109))))
        return [('nothing, or exactly one colour sequence, is written', BoolVal(ok))]
units = [FnUnit(Colour(qname=R + 'operator<<', of=t, name=f'rang::operator<<({t})'), ASK) for t in ('style', 'fg', 'fgB', 'control')]
