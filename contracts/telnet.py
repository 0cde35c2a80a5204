"""C15: what a telnet session makes of the bytes received, and of the text sent."""
from cxv.verify import *
from cxv import logic as L

D = 'cli::detail::'
TS = D + 'TelnetSession'
SESS = D + 'Session'
IAC, SE, SB, WILL, WONT, DO, DONT = [L.sc(x) for x in (255, 240, 250, 251, 252, 253, 254)]
DATA, SUB, WWILL, WWONT, WDO, WDONT = range(6)
ZERO = IntVal(0)
# ---------------------------------------------------------------- the protocol as an automaton over bytes (signed chars)
def data_step(st, c):
    """(next state, delivered to the line input, answered option)"""
    ans = Or(st == WWILL, st == WDO)
    return If(st == SUB, IntVal(SUB), IntVal(DATA)), st == DATA, ans
def step(st, esc, c):
    """-> state, escape, delivered?, answered?"""
    s1, d1, a1 = data_step(st, c)
    cmd = And(esc, c != IAC); begin = And(Not(esc), c == IAC)
    known = And(c >= L.sc(241), c <= L.sc(249))
    s2 = If(c == SE, If(st == SUB, IntVal(DATA), st), If(known, IntVal(DATA), If(c == SB, IntVal(SUB), If(c == WILL, IntVal(WWILL), If(c == WONT, IntVal(WWONT), If(c == DO, IntVal(WDO), If(c == DONT, IntVal(WDONT), st)))))))
    data = Not(Or(cmd, begin))
    return If(cmd, s2, If(begin, st, s1)), begin, And(data, d1), And(data, a1)
RSt = Function('tn_state', I, B, Str, I, I); REsc = Function('tn_escape', I, B, Str, I, B)
RDel = Function('tn_delivered', I, B, Str, I, Str); RAns = Function('tn_answered', I, B, Str, I, Str)
def Run(q, s, k): return RSt(*q, s, k), REsc(*q, s, k), RDel(*q, s, k), RAns(*q, s, k)
def Run0(q, s): a, b, d, r = Run(q, s, ZERO); return And(a == q[0], b == q[1], eq(d, STR.Emp), eq(r, STR.Emp))
def RunStep(q, s, k):
    """definition at k+1"""
    a, b, d, r = Run(q, s, k); c = at(s, k); a2, b2, dl, an = step(a, b, c)
    a1, b1, d1, r1 = Run(q, s, k + 1)
    return And(a1 == a2, b1 == b2, eq(d1, If(dl, cat(d, unit(c)), d)), eq(r1, If(an, cat(r, unit(c)), r)))

# ---------------------------------------------------------------- contracts of what the decoder calls
class Output(Spec):
    """a data byte is passed to the line input (interface contract of the virtual Output: see contracts/keys.py for CliTelnetSession)"""
    qname = TS + '::Output'
    def frame(s, c): return [('ghost', 'delivered', Str)]
    def at_call(s, e, f, this, vals, n):
        e.gset('delivered', cat(e.gget('delivered', Str), unit(e.val(vals[0])))); return None
class SendAnswer(Spec):
    """what is sent while input is decoded is one negotiation: 255, one of WILL/WONT/DO/DONT, the option"""
    qname = SESS + '::Send'
    def at_call(s, e, f, this, vals, n):
        m = e.coerce_store(e.val(vals[0]), STRT)
        e.oblige('what is sent is a three-byte negotiation', And(slen(m) == 3, at(m, ZERO) == IAC, at(m, IntVal(1)) >= WILL, at(m, IntVal(1)) <= DONT), n, kind='pre')
        e.gset('answers', cat(e.gget('answers', Str), unit(at(m, IntVal(2))))); return None
STATES = ('data', 'sub', 'wait_will', 'wait_wont', 'wait_do', 'wait_dont')
def code(c, v):
    """state of the protocol a State enumerator stands for"""
    r = IntVal(WDONT)
    for i, x in list(enumerate(STATES))[:-1][::-1]: r = If(v == c.enum('TelnetSession::State', x), IntVal(i), r)
    return r
def valid(c, v): return Or(*[v == c.enum('TelnetSession::State', x) for x in STATES])
def rx_loop(e, n, entry, mods, rangelv, idx):
    if not any(m[0] == 'ghost' and m[1] in ('delivered', 'answers') for m in mods): return []
    c = e.unitctx
    def facts(lc):
        cur = e.st; e.st = lc.entry
        try:
            q = (code(c, e.val(e.F('state', c.this, TS))), e.val(e.F('escape', c.this, TS))); d0, r0 = e.gget('delivered', Str), e.gget('answers', Str)
            s = e.val(rangelv) if rangelv is not None else c.oarg(0)
        finally: e.st = cur
        if lc.prev is not None: lc.hints.append(RunStep(q, s, lc.prev.k))
        lc.hints.append(Run0(q, s))
        return q, s, d0, r0, Run(q, s, lc.k)
    st = lambda: e.val(e.F('state', c.this, TS))
    return [('protocol state', lambda lc: And(valid(c, st()), code(c, st()) == facts(lc)[4][0])),
            ('escape', lambda lc: e.val(e.F('escape', c.this, TS)) == facts(lc)[4][1]),
            ('delivered bytes', lambda lc: (lambda x: eq(e.gget('delivered', Str), cat(x[2], x[4][2])))(facts(lc))),
            ('answered options', lambda lc: (lambda x: eq(e.gget('answers', Str), cat(x[3], x[4][3])))(facts(lc)))]
class Received(Spec):
    """every packet moves the protocol automaton by its bytes: exactly the data bytes are delivered, in order, exactly the WILL/DO are answered"""
    qname = TS + '::OnDataReceived'; loops = [rx_loop]
    def pre(s, c): return [('protocol state', valid(c, c.F('state')))]
    def frame(s, c): return [c.lv('state'), c.lv('escape'), ('ghost', 'delivered', Str), ('ghost', 'answers', Str)]
    def setup(s, c):
        for g in ('delivered', 'answers'): c.e.gget(g, Str)
    def post(s, c):
        q = (code(c, c.O('state')), c.O('escape')); x = c.oarg(0); n = slen(x); a, b, d, r = Run(q, x, n)
        g = lambda nm: c.e.gget(nm, Str); o = lambda nm: c.old(lambda: c.e.gget(nm, Str))
        return [('exactly the data bytes are delivered, in order', eq(g('delivered'), cat(o('delivered'), d))), ('exactly the WILL and DO are answered, in order, each once, about its option', eq(g('answers'), cat(o('answers'), r))),
                ('the protocol state is that after the bytes', And(valid(c, c.F('state')), code(c, c.F('state')) == a, c.F('escape') == b))]
    def lemma(s, c): c.e.assume(Run0((code(c, c.O('state')), c.O('escape')), c.oarg(0)))
class Fresh(Spec):
    """a new connection starts outside of any telnet sequence"""
    qname = TS + '::TelnetSession'; frame_any = True
    def post(s, c): return [('in the data state', c.F('state') == c.enum('TelnetSession::State', 'data')), ('no pending 255', Not(c.F('escape')))]

# ---------------------------------------------------------------- output
Enc = Function('tn_encoded', Str, I, Str)
def EncDef(s, k):
    c = at(s, k); return eq(Enc(s, k + 1), cat(Enc(s, k), If(c == 10, lit(b'\r\n'), unit(c))))
def Enc0(s): return eq(Enc(s, ZERO), STR.Emp)
def enc_loop(e, n, entry, mods, rangelv, idx):
    rangelv = e.loop_range(n, entry, mods, rangelv)
    if rangelv is None or not is_seq(e.val(rangelv)) or e.val(rangelv).sort() != Str: return []
    out = []
    for x in [m[1] for m in mods if m[0] == 'cell' and is_seq(entry.cells.get(m[1]))]:
        def inv(lc, x=x):
            s = e.val(rangelv)
            if lc.prev is not None: lc.hints.append(EncDef(s, lc.prev.k))
            lc.hints.append(Enc0(s))
            return eq(lc.cell(x), Enc(s, lc.k))
        out.append((f'{x.split("@")[0]} is the encoding so far', inv))
    return out
class Encode(Spec):
    qname = TS + '::Encode'; loops = [enc_loop]
    def lemma(s, c): c.e.assume(Enc0(c.oarg(0)))
    def result(s, c, t): return Enc(c.oarg(0), slen(c.oarg(0)))
    def post(s, c): return [('every newline becomes carriage return plus newline, every other character stays', eq(c.ret, Enc(c.oarg(0), slen(c.oarg(0)))))]
class SendEv(Spec):
    qname = SESS + '::Send'
    def at_call(s, e, f, this, vals, n): e.event('send', this, e.coerce_store(e.val(vals[0]), STRT)); return None
class Stream(Spec):
    frame_any = True
    def setup(s, c): c.e.opts.setdefault('dynamic', {})[c.this.get_id()] = TS
    def sent(s, c, text):
        ev = c.events()
        if len(ev) != 1: return [('exactly one message is sent', BoolVal(False))]
        return [('the encoded text is sent, all of it', And(ev[0][1][0] == c.this, eq(ev[0][1][1], Enc(text, slen(text)))))]
class Xsputn(Stream):
    qname = SESS + '::xsputn'
    def text(s, c): return sl(c.e.val(c.e.val(c.vals[0]).lv), ZERO, c.oarg(1))
    def pre(s, c):
        m = c.e.val(c.e.val(c.vals[0]).lv); return [('the buffer holds n characters', And(c.arg(1) >= 0, c.arg(1) <= slen(m)))]
    def post(s, c): return s.sent(c, s.text(c)) + [('all of it is reported as written', c.ret == c.oarg(1))]
class Overflow(Stream):
    qname = SESS + '::overflow'
    def pre(s, c): return [('a character (not end of file)', And(c.arg(0) >= 0, c.arg(0) <= 255))]
    def post(s, c):
        v = c.oarg(0); return s.sent(c, unit(If(v > 127, v - 256, v))) + [('reported as written', c.ret != -1)]

specs = dict(received=Received(), fresh=Fresh(), encode=Encode(), xsputn=Xsputn(), overflow=Overflow())

# ---------------------------------------------------------------- what the automaton means
def rx_lemmas(e):
    c, o, x = Int('c0'), Int('o0'), Int('x0'); F, T_ = BoolVal(False), BoolVal(True)
    byte = lambda v: And(v >= -128, v <= 127)
    def run(q, *bs):
        """final state, delivered and answered lists of (condition, byte)"""
        st, esc = q; dl = []; an = []
        for b in bs:
            st, esc, d, a = step(st, esc, b); dl.append((d, b)); an.append((a, b))
        return st, esc, dl, an
    def exactly(lst, want):
        """the bytes at the positions in want, and no other"""
        return And(*[(cnd if i in want else Not(cnd)) for i, (cnd, b) in enumerate(lst)])
    D0 = (IntVal(DATA), F); out = []
    def seq(nm, bs, hyps, deliver, answer, st=DATA, q=D0):
        a, b, dl, an = run(q, *bs)
        out.append((nm, [byte(v) for v in (c, o, x)] + hyps, And(a == st, Not(b), exactly(dl, deliver), exactly(an, answer))))
    i = IntVal
    seq('a byte other than 255 is delivered', [c], [c != IAC], {0}, set())
    seq('a doubled 255 delivers one 255', [i(IAC), i(IAC)], [], {1}, set())
    seq('255 followed by a plain command byte (241..249) or an undefined one delivers nothing', [i(IAC), c], [c != IAC, Or(c < L.sc(SB & 255), c > L.sc(DONT & 255))], set(), set())
    for nm, v, an in (('WILL', WILL, 1), ('DO', DO, 1), ('WONT', WONT, 0), ('DONT', DONT, 0)):
        seq(f'255 {nm} option: nothing is delivered, {"one answer about the option" if an else "no answer"}', [i(IAC), i(v), o], [o != IAC], set(), {2} if an else set())
        seq(f'255 {nm} with option 255', [i(IAC), i(v), i(IAC), i(IAC)], [], set(), {3} if an else set())
    S0 = (IntVal(SUB), F)
    seq('a subnegotiation begins', [i(IAC), i(SB)], [], set(), set(), SUB)
    seq('its content delivers and answers nothing', [c], [c != IAC], set(), set(), SUB, S0)
    seq('a doubled 255 inside it delivers nothing', [i(IAC), i(IAC)], [], set(), set(), SUB, S0)
    seq('255 SE ends it', [i(IAC), i(SE)], [], set(), set(), DATA, S0)
    # packets
    q = (Int('q0'), Bool('e0')); a, b = Const('a0', Str), Const('b0', Str); k = Int('k0'); s = cat(a, b); na = slen(a)
    ra = Run(q, a, na); q2 = (ra[0], ra[1])
    def joined(k): x, y = Run(q, s, na + k), Run(q2, b, k); return And(x[0] == y[0], x[1] == y[1], eq(x[2], cat(ra[2], y[2])), eq(x[3], cat(ra[3], y[3])))
    def same(k): x, y = Run(q, s, k), Run(q, a, k); return And(*[u == v for u, v in zip(x, y)])
    out += [('packets: same bytes, same run (base)', [Run0(q, s), Run0(q, a)], same(ZERO)), ('packets: same bytes, same run (step)', [k >= 0, k < na, same(k), RunStep(q, s, k), RunStep(q, a, k)], same(k + 1)),
            ('packets: the second packet continues where the first ended (base)', [same(na), Run0(q2, b)], joined(ZERO)), ('packets: the second packet continues where the first ended (step)', [k >= 0, k < slen(b), joined(k), RunStep(q, s, na + k), RunStep(q2, b, k)], joined(k + 1))]
    return out
units = [FnUnit(specs['received'], [Output(), SendAnswer()], dict(deadline=300)), FnUnit(specs['fresh']), FnUnit(specs['encode']), FnUnit(specs['xsputn'], [specs['encode'], SendEv()]), FnUnit(specs['overflow'], [specs['encode'], SendEv()]),
         LemmaUnit('telnet protocol: meaning of the automaton', rx_lemmas)]
