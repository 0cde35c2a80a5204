"""C14: CommandProcessor: what each key does to the session, the line and the screen; CommonPrefix."""
from cxv.verify import *
from cxv import logic as L
from contracts.dispatch import UEXC, OPTS
from contracts import terminal

D = 'cli::detail::'; CP = D + 'CommandProcessor<cli::detail::TelnetScreen>'; TM = terminal.CLS; S = 'cli::CliSession'; DEV = D + 'InputDevice'
NLS = lit(b'\n')
# What the processor does is recorded, in order, on the output of the session: bytes written, and one mark per call.
# Marks are values of uninterpreted functions: two records are equal for every meaning of the marks only if the calls and their arguments are.
MFeed = Function('mark_feed', Str, Str); MPrompt = Const('mark_prompt', Str); MExit = Const('mark_exit', Str)
MSet = Function('mark_setline', I, Str, Str); MPrev = Function('mark_previous', Str, Str); MNext = Const('mark_next', Str)
MKey = Function('mark_key', I, I, Str); MNew = Function('mark_new', I, Str, Str); MClear = Const('mark_clear', Str)
Compl = Function('completions_of', Str, SS); PrevOf = Function('previous_of', Str, Str); NextOf = Const('next_line', Str)
LCP = Function('common_prefix', SS, Str); Items = Function('items_of', SS, Str)
def DefItems(v, x): return And(Items(SST.Emp) == STR.Emp, Items(cat(v, unit(x))) == cat(Items(v), unit(IntVal(9)), x))
def sess(e, this): return e.ref(e.F('session', this, CP))
def term(e, this): return e.ref(e.F('terminal', this, CP))
def kb(e, this): return e.ref(e.F('kb', this, CP))
def out(e, this): return e.ref(e.F('out', sess(e, this), S))
class M(Spec):
    """a call on one of the three parts: noted on the output of the session"""
    def rec(s, e, mark): e.log_append(out(e, e.unitctx.this), mark)
    def me(s, e, this, r, n): e.oblige(f'{s.qname.split("::")[-1]} is called on the right object', this == r, n, kind='pre')
class FeedM(M):
    qname = S + '::Feed'
    def at_call(s, e, f, this, vals, n):
        s.me(e, this, sess(e, e.unitctx.this), n)
        e.oblige('keyboard input is suspended while the session executes a line', Not(e.gget('active', B)), n, kind='pre')
        s.rec(e, MFeed(e.coerce_store(e.val(vals[0]), T('str')))); e.store(e.F('exit', this, S), e.fresh('exit', B))
        k = e.choose_any(len(UEXC) + 1, 'throws')
        if k: raise ThrowX(ExcV(UEXC[k - 1]))
class PromptM(M):
    qname = S + '::Prompt'
    def at_call(s, e, f, this, vals, n): s.me(e, this, sess(e, e.unitctx.this), n); s.rec(e, MPrompt)
class ExitM(M):
    qname = S + '::Exit'
    def at_call(s, e, f, this, vals, n):
        s.me(e, this, sess(e, e.unitctx.this), n); s.rec(e, MExit)
        k = e.choose_any(len(UEXC) + 1, 'throws')
        if k: raise ThrowX(ExcV(UEXC[k - 1]))
class PrevM(M):
    qname = S + '::PreviousCmd'
    def at_call(s, e, f, this, vals, n): s.me(e, this, sess(e, e.unitctx.this), n); l = e.coerce_store(e.val(vals[0]), T('str')); s.rec(e, MPrev(l)); return PrevOf(l)
class NextM(M):
    qname = S + '::NextCmd'
    def at_call(s, e, f, this, vals, n): s.me(e, this, sess(e, e.unitctx.this), n); s.rec(e, MNext); return NextOf
class ComplM(M):
    qname = S + '::GetCompletions'
    def at_call(s, e, f, this, vals, n): s.me(e, this, sess(e, e.unitctx.this), n); v = Compl(e.coerce_store(e.val(vals[0]), T('str'))); e.type_inv(v, parse('std::vector<std::string>', e.prog)); return v
class SetM(M):
    qname = TM + '::SetLine'; name = 'Terminal::SetLine'
    def at_call(s, e, f, this, vals, n):
        s.me(e, this, term(e, e.unitctx.this), n)
        l = e.coerce_store(e.val(vals[0]), T('str')); p = e.F('position', this, TM); s.rec(e, MSet(e.val(p), l))
        e.store(e.F('currentLine', this, TM), l); e.store(p, slen(l))
class ClearM(M):
    qname = TM + '::Clear'; name = 'Terminal::Clear'
    def at_call(s, e, f, this, vals, n): s.me(e, this, term(e, e.unitctx.this), n); s.rec(e, MClear)
class KeyM(M):
    qname = TM + '::Keypressed'; name = 'Terminal::Keypressed'
    def at_call(s, e, f, this, vals, n):
        s.me(e, this, term(e, e.unitctx.this), n); k = e.val(vals[0]); s.rec(e, MKey(k.a, k.b)); a, b = e.fresh('symbol', I), e.fresh('text', Str); e.st.ghost['keyres'] = PairV(a, b); return PairV(a, b)
class NewM(M):
    qname = CP + '::NewCommand'
    def at_call(s, e, f, this, vals, n): s.me(e, this, e.unitctx.this, n); k = e.val(vals[0]); s.rec(e, MNew(k.a, k.b))
class Act(M):
    def at_call(s, e, f, this, vals, n): s.me(e, this, kb(e, e.unitctx.this), n); e.gset('active', BoolVal(s.on))
class LcpM(Spec):
    qname = D + 'CommonPrefix'
    def at_call(s, e, f, this, vals, n):
        v = e.seqv(vals[0]); e.oblige('the common prefix of at least one string', slen(v) > 0, n, kind='pre'); return LCP(v)
PARTS = [FeedM(), PromptM(), ExitM(), PrevM(), NextM(), ComplM(), SetM(), ClearM(), LcpM(), Act(qname=DEV + '::ActivateInput', on=True), Act(qname=DEV + '::DeactivateInput', on=False)]
class CPSpec(Spec):
    frame_any = True; throws = UEXC
    def setup(s, c):
        e = c.e; e.gget('active', B); t = term(e, c.this); e.opts['loop_events'] = True
        e.assume(e.ref(e.F('out', t, TM)) == out(e, c.this))          # constructor contract
        e.assume(Or(e.val(e.F('position', t, TM)) <= slen(e.val(e.F('currentLine', t, TM)))))
        e.assume(c.e.gget('active', B))
def items_loop(e, n, entry, mods, rangelv, idx):
    c0 = getattr(e, 'unitctx', None)
    rangelv = e.loop_range(n, entry, mods, rangelv)
    if rangelv is None or c0 is None or e.val(rangelv).sort() != SS: return []
    res = []
    for x in [m[1] for m in mods if m[0] == 'cell' and entry.cells.get(m[1]) is not None and is_seq(entry.cells.get(m[1])) and entry.cells[m[1]].sort() == Str]:
        b = entry.cells[x]
        def f(lc, x=x, b=b):
            v = e.val(rangelv); lc.hints += [Items(SST.Emp) == STR.Emp, Implies(lc.k == slen(v), L.SST.Sl(v, IntVal(0), lc.k) == v)]
            if lc.prev is not None:
                k = lc.prev.k; lc.hints += [DefItems(sl(v, IntVal(0), k), at(v, k)), Implies(k < slen(v), eq(sl(v, IntVal(0), k + 1), cat(sl(v, IntVal(0), k), unit(at(v, k)))))]
            return eq(lc.cell(x), cat(b, Items(sl(v, IntVal(0), lc.k))))
        res.append((f'{x.split("@")[0]} holds the items so far', f))
    if any(m[0] == 'glog' for m in mods):
        o = out(e, c0.this); b = c0.old
        def g(lc):
            v = e.val(rangelv); lc.hints += [Items(SST.Emp) == STR.Emp, Implies(lc.k == slen(v), L.SST.Sl(v, IntVal(0), lc.k) == v)]; cur = e.st; e.st = lc.entry
            try: base = e.log_of(o)
            finally: e.st = cur
            if lc.prev is not None:
                k = lc.prev.k; lc.hints += [DefItems(sl(v, IntVal(0), k), at(v, k)), Implies(k < slen(v), eq(sl(v, IntVal(0), k + 1), cat(sl(v, IntVal(0), k), unit(at(v, k)))))]
            return eq(e.log_of(o), cat(base, Items(sl(v, IntVal(0), lc.k))))
        res.append(('the items so far are written', g))
    return res
class NewCommand(CPSpec):
    qname = CP + '::NewCommand'; loops = [items_loop]
    def want(s, c):
        """-> [(condition, record)], by symbol"""
        e = c.e; k = c.old(lambda: e.val(c.vals[0])); t = term(e, c.this); l = c.old(lambda: e.val(e.F('currentLine', t, TM))); p = c.old(lambda: e.val(e.F('position', t, TM)))
        sy = lambda x: k.a == c.enum('Symbol', x); z = IntVal(0); v = Compl(l); n = slen(v); m = slen(LCP(v)) > slen(l); tab = sy('tab')
        redraw = [MPrompt, MSet(z, l)]
        return [('an ignored key does nothing', sy('nothing'), [STR.Emp]), ('end of input ends the session', sy('eof'), [MExit]),
                ('Enter passes the line to the session, once, and then shows the prompt', sy('command'), [MFeed(k.b), MPrompt]),
                ('Down shows the next line', sy('down'), [MNext, MSet(p, NextOf)]), ('Up shows the previous line', sy('up'), [MPrev(l), MSet(p, PrevOf(l))]),
                ('Ctrl-L clears the screen and redraws prompt and line', sy('clear'), [MClear] + redraw),
                ('Tab without completions does nothing', And(tab, n == 0), [STR.Emp]), ('Tab with one completion completes it and adds a space', And(tab, n == 1), [MSet(p, cat(at(v, 0), unit(IntVal(32))))]),
                ('Tab completes the common prefix', And(tab, n > 1, m), [MSet(p, LCP(v))]), ('Tab lists the completions and redraws', And(tab, n > 1, Not(m)), [NLS, Items(v), NLS] + redraw)], l, p, k
    def post(s, c):
        e = c.e; want, l, p, k = s.want(c); o = c.old(lambda: out(e, c.this)); t = term(e, c.this)
        new, old = c.log(o), c.olog(o)
        items = [(nm, Implies(g, L.STR.Eq(new, cat(old, *w)))) for nm, g, w in want]
        keep = And(eq(e.val(e.F('currentLine', t, TM)), l), e.val(e.F('position', t, TM)) == p)
        return items + [('keyboard input is on afterwards', e.gget('active', B)), ('these are all symbols', Or(*[g for _, g, _ in want])),
                        ('the line is not changed by Enter, the end of input and ignored keys', Implies(Or(*[k.a == c.enum('Symbol', x) for x in ('nothing', 'eof', 'command')]), keep))]
    def setup(s, c):
        super().setup(c); k = c.e.val(c.vals[0]); c.e.assume(Or(*[k.a == c.enum('Symbol', x) for x in ('nothing', 'command', 'up', 'down', 'tab', 'eof', 'clear')]))
    def xpost(s, c):
        want, l, p, k = s.want(c)
        return [('only the execution of a line or the end of the session lets an exception out', Or(k.a == c.enum('Symbol', 'command'), k.a == c.enum('Symbol', 'eof')))]
class Keypressed(CPSpec):
    qname = CP + '::Keypressed'
    def post(s, c):
        e = c.e; k = c.old(lambda: e.val(c.vals[0])); o = out(e, c.this); r = e.st.ghost.get('keyres')
        if r is None: return [('the key goes to the line editor', BoolVal(False))]
        return [('the key goes to the line editor, its result to the processor, once', eq(c.log(o), cat(c.olog(o), MKey(k.a, k.b), MNew(r.a, r.b))))]
class KpEv(Spec):
    qname = CP + '::Keypressed'
    def at_call(s, e, f, this, vals, n): k = e.val(vals[0]); e.event('keypressed', this, k.a, k.b)
class Ctor(Spec):
    """the terminal writes to the session's stream; each key of the device goes to Keypressed"""
    qname = CP + '::CommandProcessor'; frame_any = True
    def post(s, c):
        e = c.e; t = term(e, c.this); ss, dev = c.vals[0].ref, c.vals[1].ref
        items = [('on the given session and input device', And(sess(e, c.this) == ss, kb(e, c.this) == dev)), ('the terminal writes to the stream of the session', e.ref(e.F('out', t, TM)) == e.ref(e.F('out', ss, S))),
                 ('the line is empty', And(slen(e.val(e.F('currentLine', t, TM))) == 0, e.val(e.F('position', t, TM)) == 0))]
        if c.events(): return items + [('nothing else happens', BoolVal(False))]
        h = e.val(e.F('handler', dev, DEV)); a, b = Int('key!'), Int('chr!')
        e.call_value(h, [PairV(a, b)], None); ev = c.events()
        if not ev: return items + [('only an ignored key may be dropped', a == c.enum('KeyType', 'ignored'))]
        if len(ev) != 1: return items + [('a key of the device is handled once', BoolVal(False))]
        return items + [('each key of the device goes to this processor', And(ev[0][1][0] == c.this, ev[0][1][1] == a, ev[0][1][2] == b))]

# ---------------------------------------------------------------- the common prefix
def AT(v, i): return L.SST.At(v, i)
def CH(x, i): return L.STR.At(x, i)
def common(v, r, j0='j!'):
    j, i = Int(j0), Int('i!'); x = AT(v, j)
    return And(ForAll([j], Implies(And(0 <= j, j < slen(v)), slen(x) >= slen(r)), patterns=[x]),
               ForAll([j, i], Implies(And(0 <= j, j < slen(v), 0 <= i, i < slen(r)), CH(x, i) == CH(r, i)), patterns=[CH(x, i)]))
class CommonPrefix(Spec):
    qname = D + 'CommonPrefix'
    def pre(s, c): return [('at least one string', slen(c.arg(0)) > 0)]
    def setup(s, c):        # a consequence of the theory of sequences: the characters of a part, from those of the whole
        a = Const('a!sl', Str); n, i = Int('n!sl'), Int('i!sl'); p = L.STR.Sl(a, IntVal(0), n)
        c.e.assume(ForAll([a, n, i], Implies(And(0 <= i, i < n, n <= slen(a)), CH(p, i) == CH(a, i)), patterns=[z3.MultiPattern(p, CH(a, i))]))
    def post(s, c):
        v, r = c.arg(0), c.ret; a = Int('a!'); n = slen(r)
        longer = Const('longer', Str)
        return [('it is a prefix of every string', common(v, r)),
                ('no longer string is', Not(And(slen(longer) > slen(r), common(v, longer, 'j!!'))))]
def cp_loop(e, n, entry, mods, rangelv, idx):
    c0 = getattr(e, 'unitctx', None)
    if c0 is None or not isinstance(c0.spec, CommonPrefix): return []
    v = c0.arg(0); strs = [m[1] for m in mods if m[0] == 'cell' and is_seq(entry.cells.get(m[1])) and entry.cells[m[1]].sort() == Str] if rangelv is None else []
    out = []
    for x in strs:
        out += [('one character per position', lambda lc, x=x: slen(lc.cell(x)) == lc.k), ('common so far', lambda lc, x=x: common(v, lc.cell(x)))]
    if rangelv is None and not strs:        # the length so far, of one of the strings
        its = [q for q in e.frames[-1].env.values() if isinstance(q, LVar) and isinstance(entry.cells.get(q.cell), IterV)]
        for m in sorted(mods, key=repr):
            x = m[1]
            if m[0] != 'cell' or not is_int(entry.cells.get(x)): continue
            for q in its:
                def sofar(lc, x=x, q=q):
                    o = AT(v, entry.cells[q.cell].idx); return And(0 <= lc.cell(x), lc.cell(x) <= slen(o), common(v, sl(o, IntVal(0), lc.cell(x))))
                out.append((f'common so far, {x.split("@")[0]} characters', sofar))
    v0 = AT(v, IntVal(0)); j, i = Int('j!p'), Int('i!p'); q = AT(v, j)
    def agree(m, n, w=v0): return And(ForAll([j], Implies(And(0 <= j, j < m), slen(q) >= n), patterns=[q]), ForAll([j, i], Implies(And(0 <= j, j < m, 0 <= i, i < n), CH(q, i) == CH(w, i)), patterns=[CH(q, i)]))
    def longest(m, n, w=v0):      # the first n characters of the first string are the longest common prefix of the first m strings (and of the first)
        return And(0 <= n, n <= slen(v0), m <= slen(v), agree(m, n, w), Or(n == slen(v0), z3.Exists([j], And(0 <= j, j < m, Or(slen(q) == n, CH(q, n) != CH(v0, n))), patterns=[q])))
    for x in sorted(m[1] for m in mods if m[0] == 'cell'):
        c = entry.cells.get(x); nm = x.split('@')[0]
        if isinstance(c, IterV) and not c.rev and e.elem_type(c.lv.t) != STRT: 
            for off in (0, 1): out.append((f'{nm} is the end of the longest common prefix so far{" and one more" if off else ""}', lambda lc, x=x, off=off: longest(lc.k + off, lc.cell(x).idx)))
        for off in (0, 1):
            more = ' and one more' if off else ''
            if is_seq(c) and c.sort() == Str:       # the prefix of the strings so far, which shrinks
                out.append((f'{nm} is the longest common prefix so far{more}', lambda lc, x=x, off=off: And(longest(lc.k + off, slen(lc.cell(x)), lc.cell(x)), ForAll([i], Implies(And(0 <= i, i < slen(lc.cell(x))), CH(lc.cell(x), i) == CH(v0, i)), patterns=[CH(lc.cell(x), i)]))))
            if is_int(c):
                out.append((f'{nm} is the length of the longest common prefix so far{more}', lambda lc, x=x, off=off: longest(lc.k + off, lc.cell(x))))
                out.append((f'{nm} is the length of the shortest string so far{more}', lambda lc, x=x, off=off: And(ForAll([j], Implies(And(0 <= j, j < lc.k + off), slen(q) >= lc.cell(x)), patterns=[q]), Or(slen(v0) == lc.cell(x), z3.Exists([j], And(0 <= j, j < lc.k + off, j < slen(v), slen(q) == lc.cell(x)), patterns=[q])))))
        if is_int(c) and rangelv is None:
            out.append((f'the first {nm} characters are common', lambda lc, x=x: And(0 <= lc.cell(x), lc.cell(x) <= slen(v0), agree(slen(v), lc.cell(x)))))
    if rangelv is not None:
        ch = Int('ch')
        def same(lc):
            fr = e.frames[-1]; i = Int('j!s')
            cs = [q for q in fr.env.values() if isinstance(q, LVar) and sort_of(q.t) == I]
            pos = [q for q in cs if q.t == T('int', (64, False))]; c = [q for q in cs if q.t == T('int', (8, True))]
            if not pos or not c: raise Inapplicable()
            return ForAll([i], Implies(And(0 <= i, i < lc.k), CH(AT(v, i), e.val(pos[-1])) == e.val(c[-1])), patterns=[AT(v, i)])
        out.append(('the strings so far agree at this position', same))
    return out
units = [FnUnit(NewCommand(), PARTS), FnUnit(Keypressed(), [KeyM(), NewM()]), FnUnit(Ctor(), [KpEv()]), FnUnit(CommonPrefix(), loops=[cp_loop])]
