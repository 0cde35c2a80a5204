"""C11/C12: the line editor (Terminal): contents, cursor, symbols; and what its output leaves on the screen row."""
from cxv.verify import *
from cxv import logic as L

CLS = 'cli::detail::Terminal<cli::detail::TelnetScreen>'
KEYS = ('eof', 'backspace', 'up', 'down', 'left', 'right', 'ret', 'ascii', 'canc', 'end', 'home', 'clear', 'ignored')
ZERO = IntVal(0)

# ---------------------------------------------------------------- the screen row, from the column where the input starts
# a row is a finite string followed by blanks; printable characters advance, \b moves left; the input area is never left to the left
def printable(c): return And(c != 127, Or(c >= 32, c < 0))
def pat(s, i):
    t = at(s, i); return dict(patterns=[t]) if z3.is_const(s) or s.decl().kind() == z3.Z3_OP_SELECT else {}
def all_printable(s):
    i = Int('i!p'); return ForAll([i], Implies(And(0 <= i, i < slen(s)), printable(L.th(s).At(s, i))), **pat(s, i))
def all_blank_from(s, n):
    i = Int('i!b'); return ForAll([i], Implies(And(n <= i, i < slen(s)), L.th(s).At(s, i) == 32), **pat(s, i))
class Row:
    """symbolic terminal row; obligations it raises are collected"""
    def __init__(s, cells, cur): s.cells, s.cur, s.obs, s.newrow = cells, cur, [], False
    def write(s, p):
        s.obs.append(('only printable characters are written to the row', all_printable(p)))
        s.obs.append(('written inside the row or right after it', s.cur <= slen(s.cells)))
        e = s.cur + slen(p); n = slen(s.cells)
        s.cells = cat(sl(s.cells, ZERO, s.cur), p, sl(s.cells, If(e < n, e, n), n)); s.cur = e
    def back(s, n):
        s.obs.append(('the cursor stays right of the prompt', n <= s.cur)); s.cur = s.cur - n
    def feed(s, e, delta):
        ps = parts(delta); i = 0; ctl = None
        flat = []
        for p in ps:
            bs = next((b for b, (c, ax) in L.LITS.items() if c.eq(p)), None)
            if bs is not None: flat += [unit(IntVal(L.sc(x))) for x in bs]
            else: flat.append(p)
        for p in flat:
            T = L.th(p)
            if z3.is_app(p) and p.decl().eq(T.Unit):
                c = z3.simplify(p.arg(0))
                if is_int_value(c):
                    v = c.as_long()
                    if v == 8: s.back(IntVal(1)); continue
                    if v == 13: s.cur = ZERO; ctl = 13; continue
                    if v == 10:
                        if ctl != 13: raise Unsupported('line feed without carriage return in the editor')
                        s.cells, s.cur, s.newrow = STR.Emp, ZERO, True; continue
                    if v < 32 and v >= 0 or v == 127: raise Unsupported(f'control character {v} in the editor output')
                s.write(p)
            elif z3.is_app(p) and p.decl().eq(T.Rep):
                c = z3.simplify(p.arg(0))
                if is_int_value(c) and c.as_long() == 8: s.back(p.arg(1))
                else: s.write(p)
            else: s.write(p)

class TSpec(Spec):
    screen = False
    def setup_row(s, c):
        s.row0 = Const('row', Str)
    def lines(s, c): return c.O('currentLine'), c.O('position')
    def pre(s, c):
        l, p = c.F('currentLine'), c.F('position')
        return [('cursor inside the line', p <= slen(l))]
    def frame(s, c): return [c.lv('currentLine'), c.lv('position'), ('log', c.R('out'))]
    def setup(s, c):
        l, p = c.F('currentLine'), c.F('position'); c.e.assume(slen(l) < (1 << 40))
        if s.screen:
            row = Const('row', Str)
            c.e.assume(all_printable(l)); s.assume_row(c, row, l, p)
    def assume_row(s, c, row, l, p):
        c.e.assume(And(slen(row) >= slen(l), eq(sl(row, ZERO, slen(l)), l), all_blank_from(row, slen(l))))
    def row_post(s, c):
        """the output written, interpreted by a terminal, leaves the new line on the row with the cursor in place"""
        if not s.screen: return []
        new, old = c.log(c.R('out')), c.olog(c.R('out'))
        pn, po = parts(new), parts(old)
        if len(pn) < len(po) or not all(a.eq(b) for a, b in zip(pn, po)): return [('output is only appended', BoolVal(False))]
        r = Row(Const('row', Str), c.O('position')); r.feed(c.e, cat(STR.Emp, *pn[len(po):]))
        l, p = c.F('currentLine'), c.F('position')
        n = slen(l)
        for nm, g in r.obs: c.e.oblige(nm, g, c.f.node, kind='post')
        return [('the row shows the edited line', eq(sl(r.cells, ZERO, n), l)), ('the row is long enough', slen(r.cells) >= n),
                ('nothing but blanks follows the line', all_blank_from(r.cells, n)), ('the terminal cursor is at the editor cursor', r.cur == p),
                ('the line stays printable', all_printable(l))]
class SetLine(TSpec):
    qname = CLS + '::SetLine'
    def assume_row(s, c, row, l, p):
        c.e.assume(And(slen(row) >= p, all_blank_from(row, slen(l)), all_printable(c.arg(0)), slen(c.arg(0)) < (1 << 40)))
    def post(s, c):
        return [Set('line', c.lv('currentLine'), c.oarg(0)), Set('cursor at its end', c.lv('position'), slen(c.oarg(0)))] + s.row_post(c)
def remove(l, p): return cat(sl(l, ZERO, p), sl(l, p + 1, slen(l)))
def insert(l, p, ch): return cat(sl(l, ZERO, p), unit(ch), sl(l, p, slen(l)))
class Keypressed(TSpec):
    qname = CLS + '::Keypressed'
    def key(s, c):
        k = c.vals[0]; k = c.old(lambda: c.e.val(k))
        return k.a, k.b
    def setup(s, c):
        super().setup(c)
        if s.screen: k, ch = s.key0(c); c.e.assume(Implies(And(k == c.enum('KeyType', 'ascii'), ch != 9), printable(ch)))
    def key0(s, c): v = c.e.val(c.vals[0]); return v.a, v.b
    def spec(s, c):
        l, p = s.lines(c); k, ch = s.key(c); K = {x: k == c.enum('KeyType', x) for x in KEYS}
        n = slen(l); ins = And(K['ascii'], ch != 9)
        line = If(And(K['backspace'], p > 0), remove(l, p - 1), If(And(K['canc'], p < n), remove(l, p), If(ins, insert(l, p, ch), If(K['ret'], STR.Emp, l))))
        pos = If(Or(And(K['backspace'], p > 0), And(K['left'], p > 0)), p - 1, If(Or(ins, And(K['right'], p < n)), p + 1,
              If(K['end'], n, If(Or(K['home'], K['ret']), ZERO, p))))
        S = lambda x: c.enum('Symbol', x)
        sym = If(K['eof'], S('eof'), If(K['up'], S('up'), If(K['down'], S('down'), If(K['clear'], S('clear'), If(K['ret'], S('command'), If(And(K['ascii'], ch == 9), S('tab'), S('nothing')))))))
        return line, pos, sym, If(K['ret'], l, STR.Emp)
    def post(s, c):
        line, pos, sym, text = s.spec(c)
        r = c.ret
        return [Set('edited line', c.lv('currentLine'), line), Set('cursor', c.lv('position'), pos),
                ('symbol', r.a == sym), ('text', eq(r.b, text)), ('cursor inside the line', pos <= slen(line))] + s.row_post(c)
class GetLine(TSpec):
    qname = CLS + '::GetLine'
    def frame(s, c): return []
    def result(s, c, t): return c.F('currentLine')
    def post(s, c): return [('the edited line', eq(c.ret, c.O('currentLine')))]
class ResetCursor(TSpec):
    qname = CLS + '::ResetCursor'
    def frame(s, c): return [c.lv('position')]
    def post(s, c): return [Set('cursor at the start', c.lv('position'), ZERO)]
class Clear(TSpec):
    qname = CLS + '::Clear'
    def frame(s, c): return [('log', c.R('out'))]
    def post(s, c): return [('home and erase to the end of the screen', eq(c.log(c.R('out')), cat(c.olog(c.R('out')), lit(b'\x1b[H\x1b[J'))))]
class Ctor(TSpec):
    qname = CLS + '::Terminal'
    def pre(s, c): return []
    def setup(s, c): pass
    def frame(s, c): return []
    frame_any = True
    def post(s, c): return [('empty line', eq(c.F('currentLine'), STR.Emp)), ('cursor at the start', c.F('position') == 0)]
specs = dict(set=SetLine(), key=Keypressed(), get=GetLine(), reset=ResetCursor(), clear=Clear(), ctor=Ctor())
screen = [SetLine(screen=True, name='Terminal::SetLine (screen)'), Keypressed(screen=True, name='Terminal::Keypressed (screen)')]
for k, v in specs.items(): v.name = v.qname.replace('cli::detail::', '').replace('<cli::detail::TelnetScreen>', '')
for v in specs.values(): v.name = v.name.replace('<TelnetScreen>', '')
units = [FnUnit(v) for v in specs.values()] + [FnUnit(v) for v in screen]
