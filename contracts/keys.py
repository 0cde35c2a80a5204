"""C16: from bytes to keys, for the telnet session (pushed bytes) and the local keyboard (pulled bytes)."""
from cxv.verify import *
from cxv import logic as L
from cxv.monitor import Monitor, HELD

D = 'cli::detail::'
CT = D + 'CliTelnetSession'; KB = D + 'LinuxKeyboard'; DEV = D + 'InputDevice'
ZERO = IntVal(0)
KIND = ('ascii', 'up', 'down', 'left', 'right', 'backspace', 'canc', 'home', 'end', 'ret', 'eof', 'ignored', 'clear')
def K(c, x): return c.enum('KeyType', x)
def final(ch): return Not(And(ch >= 32, ch <= 63))        # not a parameter or intermediate byte of an ESC [ sequence
def single(c, b):
    """key of a byte that is not the start of a sequence"""
    return If(Or(b == 4, b == -1), K(c, 'eof'), If(Or(b == 8, b == 127), K(c, 'backspace'), If(b == 12, K(c, 'clear'), K(c, 'ascii'))))
def arrow(c, b):
    return If(b == 65, K(c, 'up'), If(b == 66, K(c, 'down'), If(b == 67, K(c, 'right'), If(b == 68, K(c, 'left'), If(b == 72, K(c, 'home'), If(b == 70, K(c, 'end'), K(c, 'ignored')))))))

# ---------------------------------------------------------------- one key per notification
class NotifyEv(Spec):
    """a key is passed on (event)"""
    qname = DEV + '::Notify'
    def at_call(s, e, f, this, vals, n):
        k = e.val(vals[0]); e.event('key', this, k.a, k.b); return None
class PostEv(Spec):
    qname = 'cli::Scheduler::Post'
    def at_call(s, e, f, this, vals, n):
        e.event('post', this, e.val(vals[0])); return None
def key_handler(e, ref, args, n):
    k = e.val(args[0]); e.event('call', ref, k.a, k.b); return OpaqueV('r')
class Notify(Spec):
    """one task is posted; run, it calls the registered handler once with the key"""
    qname = DEV + '::Notify'; frame_any = True
    def setup(s, c): c.e.callback = key_handler
    def post(s, c):
        e = c.e; ev = list(c.events()); k = c.old(lambda: e.val(c.vals[0]))
        if len(ev) != 1 or ev[0][0] != 'post': return [('exactly one task is posted, nothing else happens', BoolVal(False))]
        (sch, task) = ev[0][1]; items = [('to the scheduler of the device', sch == c.old(lambda: c.R('scheduler')))]
        n0 = len(e.st.events); h = c.F('handler')
        e.call_value(task, [], None)
        ev = e.st.events[n0:]
        if not ev: return items + [('the task calls the handler if there is one', h == 0)]
        if len(ev) != 1 or ev[0][0] != 'call': return items + [('the task calls the handler once', BoolVal(False))]
        r, a, b = ev[0][1]
        return items + [('the registered handler is called', And(h != 0, r == h)), ('with the key', And(a == k.a, b == k.b))]

# ---------------------------------------------------------------- telnet: the decoder as an automaton
STEPS = ('_1', '_2', '_3', '_4', '_5', 'wait_0')
READY, ESC, CSI, CSI3, SKIP, CR = range(6)
def code(c, v):
    r = IntVal(CR)
    for i, x in list(enumerate(STEPS))[:-1][::-1]: r = If(v == c.enum('CliTelnetSession::Step', x), IntVal(i), r)
    return r
def valid(c, v): return Or(*[v == c.enum('CliTelnetSession::Step', x) for x in STEPS])
def tstep(c, st, b):
    """-> next state, key or -1"""
    none = IntVal(-1); ign = K(c, 'ignored')
    nx = If(st == READY, If(b == 27, IntVal(ESC), If(b == 13, IntVal(CR), IntVal(READY))),
         If(st == ESC, If(b == 91, IntVal(CSI), IntVal(READY)),
         If(st == CR, IntVal(READY),
         If(And(st == CSI, b == 51), IntVal(CSI3), If(final(b), IntVal(READY), IntVal(SKIP))))))
    nx = If(And(st == CSI3, b == 126), IntVal(READY), nx)
    key = If(st == READY, If(Or(b == 27, b == 13), none, single(c, b)),
          If(st == ESC, If(b == 91, none, ign),
          If(st == CR, If(Or(b == 0, b == 10), K(c, 'ret'), ign),
          If(final(b), If(st == CSI, arrow(c, b), If(And(st == CSI3, b == 126), K(c, 'canc'), ign)), none))))
    return nx, key
class Output(Spec):
    qname = CT + '::Output'
    def pre(s, c): return [('decoder state', valid(c, c.F('step')))]
    def frame(s, c): return [c.lv('step')]
    def post(s, c):
        b = c.oarg(0); nx, key = tstep(c, code(c, c.O('step')), b); ev = c.events()
        items = [('the decoder moves as documented', And(valid(c, c.F('step')), code(c, c.F('step')) == nx))]
        if len(ev) > 1: return items + [('at most one key per byte', BoolVal(False))]
        if not ev: return items + [('no key is lost', key == -1)]
        return items + [('the right key', And(ev[0][1][0] == c.this, ev[0][1][1] == key)), ('an ordinary byte comes as that character', Implies(key == K(c, 'ascii'), ev[0][1][2] == b))]
# ---------------------------------------------------------------- local keyboard
def ch(s, i): return If(i < slen(s), at(s, i), IntVal(-1))       # end of the input reads as the end-of-input byte
def read_loop(e, n, entry, mods, rangelv, idx):
    if not any(m[0] == 'ghost' and m[1] == 'kb' for m in mods): return []
    s0 = entry.ghost.get('kb'); kb = lambda: e.gget('kb', Str)
    ints = [m[1] for m in mods if m[0] == 'cell' and is_int(entry.cells.get(m[1]))]; first = [m[1] for m in mods if m[0] == 'cell' and m[1].startswith('dofirst')]
    started = lambda lc: Not(lc.cell(first[0])) if first else BoolVal(True)
    out = [('the input is at most one byte further', lambda lc: Or(eq(kb(), s0), And(slen(s0) > 0, eq(kb(), sl(s0, IntVal(1), slen(s0))))))]
    if first: out.append(('nothing read before the first attempt', lambda lc: Implies(lc.cell(first[0]), eq(kb(), s0))))
    for x in ints:
        v0 = entry.cells.get(x)
        out += [(f'nothing is consumed unless {x} is 1', lambda lc, x=x: Implies(lc.cell(x) != 1, eq(kb(), s0))), (f'{x} is 1 after a byte', lambda lc, x=x: Implies(And(started(lc), lc.cell(x) == 1), And(slen(s0) > 0, eq(kb(), sl(s0, IntVal(1), slen(s0)))))),
                (f'{x} is 0 at the end', lambda lc, x=x: Implies(And(started(lc), lc.cell(x) == 0), slen(s0) == 0)), (f'{x} is -1 on failure', lambda lc, x=x: Implies(And(started(lc), lc.cell(x) == -1), Or(slen(s0) == 0, e.gget('errno', I) == 4))), (f'{x} in range', lambda lc, x=x: And(lc.cell(x) >= -1, lc.cell(x) <= 1))]
        for y in ints:
            if y != x: out.append((f'{y} is the byte read', lambda lc, x=x, y=y: Implies(And(started(lc), lc.cell(x) == 1), lc.cell(y) == at(s0, ZERO))))
    return out
class GetChar(Spec):
    """reads exactly one byte (none at the end of the input)"""
    qname = KB + '::GetChar'; loops = [read_loop]
    def setup(s, c): c.e.gget('kb', Str); c.e.gget('errno', I)
    def frame(s, c): return [('ghost', 'kb', Str), ('ghost', 'errno', I)]
    def post(s, c):
        o = c.old(lambda: c.e.gget('kb', Str)); n = c.e.gget('kb', Str)
        return [('the next byte, or end of input', c.ret == ch(o, ZERO)), ('exactly that byte is consumed', eq(n, sl(o, If(slen(o) > 0, IntVal(1), ZERO), slen(o))))]
class Read(Spec):
    """read(2): trusted"""
    qname = 'extern read'; trusted_note = 'read(2): returns 1 after taking the next byte of the input, 0 at its end, -1 (with errno set) taking nothing'
    def at_call(s, e, f, this, vals, n):
        e.trusted.add(s.trusted_note)
        fd, buf, cnt = [e.val(v) for v in vals]
        e.oblige('the standard input is read', fd == 0, n, kind='pre'); e.oblige('one byte at a time', cnt == 1, n, kind='pre')
        kb = e.gget('kb', Str); k = e.choose_any(3, 'read')
        if k == 0: e.assume(slen(kb) > 0); e.store(buf.lv, at(kb, ZERO)); e.gset('kb', sl(kb, IntVal(1), slen(kb))); return IntVal(1)
        if k == 1: e.assume(slen(kb) == 0); return IntVal(0)
        er = e.fresh('errno', I); e.gset('errno', er)
        e.assume(Implies(slen(kb) > 0, er == 4))      # a terminal that can be read fails only with EINTR
        return IntVal(-1)
class Errno(Spec):
    qname = 'extern __errno_location'
    def at_call(s, e, f, this, vals, n): return PtrTo(e.newcell(e.gget('errno', I), T('int'), 'errno'))
class Wait(Spec):
    """InputSource::WaitKbHit, for its caller: returns when there is input, throws when the keyboard is stopped"""
    qname = D + 'InputSource::WaitKbHit'
    def at_call(s, e, f, this, vals, n):
        m = e.opts.get('monitor')
        if m is not None: e.oblige('the lock is not held while waiting for input', Not(m.held(e, m.mref(e, e.unitctx.this))), n, kind='pre')
        e.event('wait')
        if m is not None and getattr(m, 'reader', False): e.oblige('input that is there for an enabled keyboard is read before waiting for more', Not(e.gget('due', B)), n, kind='pre'); e.gset('waited', BoolVal(True)); e.gset('due', BoolVal(True))
        if e.choose_any(2, 'stopped'): e.gset('told', BoolVal(True)); raise ThrowX(ExcV('std::runtime_error'))
# ---------------------------------------------------------------- waiting for input, and being stopped
IS = D + 'InputSource'; FDSET = ArraySort(I, B); EINTR = 4
class Select_(Spec):
    """select(2): trusted"""
    qname = 'extern select'; trusted_note = 'select(2), without timeout: returns the number of descriptors that are ready and leaves exactly those in the set, or -1 with errno set, leaving the set alone'
    def at_call(s, e, f, this, vals, n):
        e.trusted.add(s.trusted_note)
        nfds, rd, wr, ex, tmo = [e.val(v) for v in vals]
        for x, nm in ((wr, 'written'), (ex, 'exceptional'), (tmo, 'time limit')): e.oblige(f'only readable descriptors are waited for, without limit ({nm})', BoolVal(z3.is_expr(x) and is_int_value(x) and x.as_long() == 0), n, kind='pre')
        e.oblige('it waits again only if nothing was ready: no time limit, or a signal', Implies(e.gget('selcalled', B), Or(e.gget('sel', I) == 0, And(e.gget('sel', I) == -1, e.gget('errno', I) == EINTR))), n, kind='pre')
        e.gset('selcalled', BoolVal(True))
        lv = rd.lv if isinstance(rd, PtrTo) else rd; st = e.val(lv); i = Int('fd!')
        e.oblige('every descriptor is below the limit given', ForAll([i], Implies(Select(st, i), And(0 <= i, i < nfds))), n, kind='pre')
        r, rdy, w, er = e.fresh('sel', I), e.fresh('rdy', FDSET), e.fresh('fd', I), e.fresh('errno', I)
        e.gset('sel', r); e.gset('rdy', rdy)
        k = e.choose_any(3, 'select')
        if k == 0:
            out = e.fresh('set', FDSET); e.assume(And(r > 0, Select(st, w), Select(rdy, w)))
            e.assume(ForAll([i], Select(out, i) == And(Select(st, i), Select(rdy, i)), patterns=[Select(out, i)])); e.store(lv, out)
            e.gset('selw', w)
        elif k == 1: e.assume(r == 0); e.store(lv, z3.K(I, BoolVal(False)))
        else: e.assume(And(r == -1, er > 0)); e.gset('errno', er)
        return r
def ready_fact(e, c0, st, r):
    """what the last select left"""
    rp = c0.F('readPipe'); rdy = e.gget('rdy', FDSET)
    return And(Implies(r > 0, And(Select(st, ZERO) == Select(rdy, ZERO), Select(st, rp) == Select(rdy, rp), Or(Select(rdy, ZERO), Select(rdy, rp)))),
               Implies(r == -1, And(Select(st, ZERO), Select(st, rp))), r >= -1)
def wait_loop(e, n, entry, mods, rangelv, idx):
    c0 = getattr(e, 'unitctx', None)
    if c0 is None or not isinstance(c0.spec, WaitKbHit): return []
    cells = [m[1] for m in mods if m[0] == 'cell']; started = lambda lc: e.gget('selcalled', B)
    sets = [x for x in cells if z3.is_expr(entry.cells.get(x)) and entry.cells[x].sort() == FDSET]; ints = [x for x in cells if is_int(entry.cells.get(x))]
    out = []
    out.append(('select was called', started)); out.append(('select is called in every iteration', lambda lc: Implies(lc.k > 0, started(lc))))
    out.append(('nothing was ready so far', lambda lc: Implies(started(lc), Or(e.gget('sel', I) == 0, And(e.gget('sel', I) == -1, e.gget('errno', I) == EINTR)))))
    for x in sets:
        out.append((f'{x.split("@")[0]} is as select left it', lambda lc, x=x: Implies(started(lc), ready_fact(e, c0, lc.cell(x), e.gget('sel', I)))))
    for x in ints:
        out.append((f'{x.split("@")[0]} is what select returned', lambda lc, x=x: Implies(started(lc), lc.cell(x) == e.gget('sel', I))))
    return out
class WaitKbHit(Spec):
    """returns when there is input to read, throws when it was stopped (or waiting is impossible); a signal changes nothing"""
    qname = IS + '::WaitKbHit'; throws = ('std::runtime_error',); loops = [wait_loop]; name = 'InputSource::WaitKbHit'; frame_any = True
    def setup(s, c):
        e = c.e; e.gget('sel', I); e.gget('rdy', FDSET); e.gget('errno', I); e.gget('selw', I); e.opts['loop_events'] = True; e.gset('selcalled', BoolVal(False))
        rp = c.F('readPipe'); e.assume(And(rp > 0, rp < 1024))
    def post(s, c): return [('there is input', And(c.e.gget('sel', I) > 0, Select(c.e.gget('rdy', FDSET), ZERO))), ('the keyboard can still be stopped', c.F('readPipe') == c.O('readPipe'))]
    def xpost(s, c): return [('it was stopped, or select failed for another reason than a signal', Or(And(c.e.gget('sel', I) > 0, Select(c.e.gget('rdy', FDSET), c.O('readPipe'))), And(c.e.gget('sel', I) == -1, c.e.gget('errno', I) != EINTR)))]
class FdEv(Spec):
    def at_call(s, e, f, this, vals, n):
        e.trusted.add(s.trusted_note); e.event(s.qname.split()[-1], e.val(vals[0])); r = e.fresh('r', I); e.assume(r >= -1); return r
CLOSE = FdEv(qname='extern close', trusted_note='close(2) on the write end of a pipe, like write(2) to it, makes the read end ready')
WRITE = FdEv(qname='extern write', trusted_note=CLOSE.trusted_note)
class StopIs(Spec):
    qname = IS + '::Stop'; frame_any = True; name = 'InputSource::Stop'
    def post(s, c):
        w = [x for x in c.events() if x[0] in ('write', 'close')]
        return [('the waiting thread is woken', Or(*[x[1][0] == c.O('shutdownPipe') for x in w]) if w else BoolVal(False))]
PipeOf = Function('pipe_read_end', I, I)
class Pipe(Spec):
    qname = 'extern pipe'; trusted_note = 'pipe(2): on success the second descriptor is the write end of the pipe that the first one reads'
    def at_call(s, e, f, this, vals, n):
        e.trusted.add(s.trusted_note); a = e.val(vals[0])
        if e.choose_any(2, 'pipe') == 1: r = IntVal(-1); e.gset('pipe', BoolVal(False)); return r
        r, w = e.fresh('rd', I), e.fresh('wr', I); e.assume(And(r >= 0, w >= 0, r != w, PipeOf(w) == r)); e.gset('pipe', BoolVal(True))
        e.store(LElem(a.lv, a.idx, T('int', (32, True))), r); e.store(LElem(a.lv, addi(a.idx, IntVal(1)), T('int', (32, True))), w); return ZERO
class IsCtor(Spec):
    qname = IS + '::InputSource'; frame_any = True; name = 'InputSource::InputSource'
    def setup(s, c): c.e.gget('pipe', B)
    def post(s, c): return [('the two ends are those of one pipe', Implies(c.e.gget('pipe', B), PipeOf(c.F('shutdownPipe')) == c.F('readPipe')))]
def skip_loop(e, n, entry, mods, rangelv, idx):
    """after j further bytes: they were all parameters"""
    cells = [m[1] for m in mods if m[0] == 'cell']
    if not any(m[0] == 'ghost' and m[1] == 'kb' for m in mods): return []
    s0 = entry.ghost.get('kb')
    if s0 is None: return []
    out = [('input is consumed from the front', lambda lc: And(slen(e.gget('kb', Str)) + lc.k >= slen(s0), eq(e.gget('kb', Str), sl(s0, If(lc.k < slen(s0), lc.k, slen(s0)), slen(s0)))))]
    for x in cells:
        v0 = entry.cells.get(x)
        if not is_int(v0): continue
        def last(lc, x=x, v0=v0): return lc.cell(x) == If(lc.k == 0, v0, ch(s0, lc.k - 1))
        def params(lc, x=x, v0=v0):
            c = e.unitctx; o = c.old(lambda: e.gget('kb', Str)); d = slen(o) - slen(s0)      # in positions of the input
            i = Int('i!q'); return And(Implies(lc.k > 0, Not(final(v0))), ForAll([i], Implies(And(d <= i, i < d + lc.k - 1, i < slen(o)), Not(final(at(o, i)))), patterns=[at(o, i)]), Implies(lc.k > 0, lc.k <= slen(s0) + 1))
        out += [(f'{x.split("@")[0]} is the last byte read', last), ('only parameters are skipped', params)]
    return out
class Get(Spec):
    """one key from one byte sequence, consumed entirely"""
    qname = KB + '::Get'; loops = [skip_loop]
    def frame(s, c): return [('ghost', 'kb', Str), ('ghost', 'errno', I)]
    def post(s, c):
        o = c.old(lambda: c.e.gget('kb', Str)); n = c.e.gget('kb', Str)
        used = slen(o) - slen(n); b0, b1, b2, b3 = [ch(o, IntVal(i)) for i in range(4)]
        csi = And(b0 == 27, b1 == 91); r = c.ret; i = Int('i!r')
        canc = And(b2 == 51, b3 == 126); short = And(csi, final(b2))
        key = If(b0 == 27, If(b1 == 91, If(canc, K(c, 'canc'), If(final(b2), arrow(c, b2), K(c, 'ignored'))), K(c, 'ignored')), If(b0 == 10, K(c, 'ret'), single(c, b0)))
        clip = lambda k: If(k < slen(o), k, slen(o))
        return [('the right key', r.a == key), ('an ordinary byte comes as that character', Implies(r.a == K(c, 'ascii'), r.b == b0)),
                ('bytes are consumed in order', eq(n, sl(o, used, slen(o)))),
                ('a single byte is consumed for a key of one byte', Implies(b0 != 27, used == clip(IntVal(1)))),
                ('two bytes for ESC and a character', Implies(And(b0 == 27, b1 != 91), used == clip(IntVal(2)))),
                ('three bytes for ESC [ and a letter', Implies(short, used == clip(IntVal(3)))),
                ('four bytes for ESC [ 3 ~', Implies(And(csi, canc), used == clip(IntVal(4)))),
                ('an unknown sequence is consumed up to its final byte: it is one', Implies(And(csi, Not(canc), Not(short)), Or(final(ch(o, used - 1)), used == slen(o)))),
                ('an unknown sequence is consumed up to its final byte: the first one', Implies(And(csi, Not(canc), Not(short)), And(used >= clip(IntVal(4)), ForAll([i], Implies(And(2 <= i, i < used - 1), Not(final(at(o, i)))), patterns=[at(o, i)]))))]

def guarded(e):
    names = [f['name'] for f in e.prog.classes[KB].fields]
    return ('enabled',) + (('stopping',) if 'stopping' in names else ())
def wakes(e, o):
    """when the keyboard thread has something to do"""
    return Or(*[e.val(e.F(x, o, KB)) for x in guarded(e)])
class KbMonitor(Monitor):
    def release(s, e, m, n):
        # input that is there, for a keyboard that is on: it has to be read before waiting for more
        if s.reader: w = And(e.gget('waited', B), e.val(e.F('enabled', s.owner(e, m), KB))); e.gset('waited', w); e.gset('due', w)
        if s.reader and 'stopping' in s.fields: e.gset('told', Or(e.gget('told', B), e.val(e.F('stopping', s.owner(e, m), KB))))
        super().release(e, m, n)
    reader = False
def kbmonitor(e): return KbMonitor(KB, 'mtx', guarded(e), wake=wakes)
class GetG(Spec):
    """Get, for its caller: one more key decoded"""
    qname = KB + '::Get'; name = 'LinuxKeyboard::Get'
    def at_call(s, e, f, this, vals, n):
        # the keyboard was enabled when last looked at, and that was after the input became available, which was after the last key
        ev = [x for x in e.st.events if x[0] in ('acquire', 'release', 'get', 'wait')]; cur = e.st
        ok = bool(ev) and ev[-1][0] == 'release'
        e.oblige('a key is read only when there is input (the wait can be stopped, reading cannot)', BoolVal(any(x[0] == 'wait' for x in ev) and all(x[0] != 'get' for x in ev[max((i for i, x in enumerate(ev) if x[0] == 'wait'), default=0):])), n, kind='pre')
        if ok: e.st = ev[-1][1][1]; g = e.val(e.F('enabled', e.unitctx.this, KB)); e.st = cur
        e.oblige('a key is read only after finding the keyboard enabled, with the key already there', g if ok else BoolVal(False), n, kind='pre')
        e.event('get'); e.gset('waited', BoolVal(False)); e.gset('due', BoolVal(False))
        a, b = e.fresh('key', I), e.fresh('chr', I); e.type_inv(b, CHAR)
        e.gset('decoded', cat(e.gget('decoded', Str), unit(a), unit(b))); return PairV(a, b)
class NotifyG(Spec):
    qname = DEV + '::Notify'; name = 'InputDevice::Notify'
    def at_call(s, e, f, this, vals, n):
        k = e.val(vals[0]); e.gset('notified', cat(e.gget('notified', Str), unit(k.a), unit(k.b))); return None
def key_loop(e, n, entry, mods, rangelv, idx): return [('every decoded key has been passed on, once and in order', lambda lc: eq(e.gget('decoded', Str), e.gget('notified', Str))),
    ('no input is due', lambda lc: Not(e.gget('due', B))), ('nothing was waited for', lambda lc: Not(e.gget('waited', B))), ('not told to stop', lambda lc: Not(e.gget('told', B))),
    ('the lock is not held', lambda lc: Not(e.opts['monitor'].held(e, e.opts['monitor'].mref(e, e.unitctx.this))))]
class ReadLoop(Spec):
    """the keyboard thread passes on every key it decodes, once and in order, until it is stopped"""
    qname = KB + '::Read'; loops = [key_loop]; frame_any = True
    def setup(s, c):
        e = c.e; m = e.opts['monitor'] = kbmonitor(e); m.reader = True; e.opts['loop_events'] = True
        for g in ('waited', 'due', 'told'): e.gset(g, BoolVal(False))
        e.gset('held', Const('G_held', HELD)); e.gset('owns', Const('G_owns', HELD)); e.assume(Not(m.held(e, m.mref(e, c.this))))
        e.gget('decoded', Str); e.gget('notified', Str)
    def pre(s, c): return [('same keys so far', eq(c.e.gget('decoded', Str), c.e.gget('notified', Str)))]
    def frame(s, c): return [('ghost', 'decoded', Str), ('ghost', 'notified', Str)] + [('ghost', g, B) for g in ('waited', 'due', 'told')]
    def post(s, c): return [('every decoded key has been passed on, once and in order', eq(c.e.gget('decoded', Str), c.e.gget('notified', Str))), ('it ends only when it was told to stop', c.e.gget('told', B))]
class Mode(Spec):
    """terminal mode (tcsetattr): trusted, no effect on the keyboard's own state"""
    def at_call(s, e, f, this, vals, n): e.event(s.ev, this)
class Switch(Spec):
    frame_any = True
    def setup(s, c):
        e = c.e; m = e.opts['monitor'] = kbmonitor(e)
        e.gset('held', Const('G_held', HELD)); e.gset('owns', Const('G_owns', HELD)); e.assume(Not(m.held(e, m.mref(e, c.this))))
    def post(s, c):
        e = c.e; ev = c.events(); rel = [i for i, x in enumerate(ev) if x[0] == 'release']; cv = c.R('cv'); m = e.opts['monitor']
        if not rel: return [('the switch is set under the lock', BoolVal(False))]
        st = ev[rel[-1]][1][1]
        def on(st):
            cur = e.st; e.st = st
            try: return e.val(e.F('enabled', c.this, KB))
            finally: e.st = cur
        items = [('keyboard input is ' + ('on' if s.on else 'off'), on(st) == BoolVal(s.on)), ('the lock is released', Not(m.held(e, m.mref(e, c.this))))]
        mode = [x for x in ev if x[0] in ('manual', 'standard')]
        items.append(('the terminal is put in ' + ('key mode' if s.on else 'its own mode') + ', once', And(BoolVal([x[0] for x in mode] == ['manual' if s.on else 'standard']), *[x[1][0] == c.this for x in mode])))
        if s.on: items.append(('the reader is woken, after that or while the lock is still held', Or(*[x[1][0] == cv for i, x in enumerate(ev) if x[0] == 'notify' and all(y[0] != 'acquire' for y in ev[i:rel[-1]])])))
        return items
SW = [Switch(qname=KB + '::ActivateInput', on=True), Switch(qname=KB + '::DeactivateInput', on=False)]
MODES = [Mode(qname=KB + '::ToManualMode', ev='manual'), Mode(qname=KB + '::ToStandardMode', ev='standard')]
specs = dict(notify=Notify(), output=Output(), get=Get(), getchar=GetChar())
class Ctx0:
    """enumerators outside of a function"""
    def __init__(s, e): s.e = e
    enum = Ctx.enum
def seq_lemmas(e):
    c = Ctx0(e); b, p, x = Int('b0'), Int('p0'), Int('x0'); i = IntVal
    hyp = [And(v >= -128, v <= 127) for v in (b, p, x)]
    def run(st, bs):
        keys = []
        for y in bs: st, k = tstep(c, st, y); keys.append(k)
        return st, keys
    out = []
    def seq(nm, bs, key, hyps=(), st=READY):
        f, keys = run(i(st), bs)
        out.append((f'{nm}: one key, and ready again', hyp + list(hyps), And(f == READY, *[k == -1 for k in keys[:-1]], keys[-1] == (K(c, key) if isinstance(key, str) else key))))
    for nm, ch_ in (('up', 65), ('down', 66), ('right', 67), ('left', 68), ('home', 72), ('end', 70)): seq(f'ESC [ {chr(ch_)} is {nm}', [i(27), i(91), i(ch_)], nm)
    seq('ESC [ 3 ~ is delete', [i(27), i(91), i(51), i(126)], 'canc')
    for v, k in ((8, 'backspace'), (127, 'backspace'), (12, 'clear'), (4, 'eof')): seq(f'byte {v} is {k}', [i(v)], k)
    seq('CR NUL is enter', [i(13), i(0)], 'ret'); seq('CR LF is enter', [i(13), i(10)], 'ret')
    seq('CR and another byte is ignored', [i(13), b], 'ignored', [b != 0, b != 10])
    seq('ESC and another byte is ignored', [i(27), b], 'ignored', [b != 91])
    seq('any other byte is that character', [b], 'ascii', [And(*[b != v for v in (8, 127, 12, 4, 27, 13, -1)])])
    seq('ESC [ with an unknown final byte is ignored', [i(27), i(91), b], 'ignored', [final(b), And(*[b != v for v in (65, 66, 67, 68, 70, 72)])])
    f, k = run(i(CSI), [p]); out.append(('a parameter byte gives no key', hyp + [Not(final(p))], And(Or(f == CSI3, f == SKIP), k[0] == -1)))
    f, k = run(i(CSI3), [p]); out.append(('a further parameter byte gives no key', hyp + [Not(final(p))], And(f == SKIP, k[0] == -1)))
    f, k = run(i(SKIP), [p]); out.append(('any number of parameter bytes gives no key', hyp + [Not(final(p))], And(f == SKIP, k[0] == -1)))
    seq('the final byte ends the unknown sequence, ignored', [b], 'ignored', [final(b)], SKIP); seq('ESC [ 3 and another final byte is ignored', [b], 'ignored', [final(b), b != 126], CSI3)
    return out
units = [FnUnit(specs['notify'], [PostEv()]), FnUnit(specs['output'], [NotifyEv()]), FnUnit(specs['get'], [specs['getchar']]), FnUnit(specs['getchar'], [Read(), Errno()]), FnUnit(ReadLoop(), [GetG(), NotifyG(), Wait()]), LemmaUnit('key sequences: one key each', seq_lemmas)]
units += [FnUnit(x, MODES) for x in SW]
units += [FnUnit(WaitKbHit(), [Select_(), Errno(), CLOSE]), FnUnit(StopIs(), [WRITE, CLOSE]), FnUnit(IsCtor(), [Pipe()])]
# ---------------------------------------------------------------- the terminal itself
PODS = ArraySort(I, I); LFLAG = 'c_lflag'
class TcGet(Spec):
    qname = 'extern tcgetattr'; trusted_note = 'tcgetattr(3) stores the attributes of the terminal, or fails and stores nothing; tcsetattr(3) with TCSANOW sets them at once, or fails and changes nothing if the input is not a terminal'
    def at_call(s, e, f, this, vals, n):
        e.trusted.add(s.trusted_note); fd, p = [e.val(v) for v in vals]
        e.oblige('the terminal of the standard input', fd == 0, n, kind='pre')
        if e.choose(e.gget('isatty', B)): e.store(p.lv, e.gget('tty', PODS)); return IntVal(0)
        return IntVal(-1)
class TcSet(Spec):
    qname = 'extern tcsetattr'; trusted_note = TcGet.trusted_note
    def at_call(s, e, f, this, vals, n):
        e.trusted.add(s.trusted_note); fd, how, p = [e.val(v) for v in vals]
        e.oblige('the terminal of the standard input', fd == 0, n, kind='pre'); e.oblige('at once', how == 0, n, kind='pre')
        if e.choose(e.gget('isatty', B)): e.gset('tty', e.load(p.lv)); return IntVal(0)
        return IntVal(-1)
class TtyMode(Spec):
    def setup(s, c): c.e.gget('tty', PODS); c.e.gget('isatty', B)
    frame_any = True
def lflag(a): return Select(a, IntVal(POD_FIELDS.setdefault(LFLAG, len(POD_FIELDS))))
BitsAnd = Function('bits_and', I, I, I)
ICANON, ECHO = 2, 8
class Manual(TtyMode):
    """keys come one by one and are not echoed; the mode the terminal had is remembered"""
    qname = KB + '::ToManualMode'
    def post(s, c):
        e = c.e; t0 = c.old(lambda: e.gget('tty', PODS)); t1 = e.gget('tty', PODS); tty = e.gget('isatty', B); i = Int('f!')
        fl = IntVal(POD_FIELDS.setdefault(LFLAG, len(POD_FIELDS)))
        return [('the mode the terminal had is remembered', Implies(tty, eq(c.F('oldt'), t0))), ('no line editing, no echo, everything else as it was', Implies(tty, eq(t1, Store(t0, fl, BitsAnd(lflag(t0), IntVal(0xffffffff & ~(ICANON | ECHO)))))))]
class Standard(TtyMode):
    """the terminal has the remembered mode again"""
    qname = KB + '::ToStandardMode'
    def post(s, c): return [('the remembered mode is set', Implies(c.e.gget('isatty', B), eq(c.e.gget('tty', PODS), c.O('oldt')))), ('and still remembered', eq(c.F('oldt'), c.O('oldt')))]
units += [FnUnit(Manual(), [TcGet(), TcSet()]), FnUnit(Standard(), [TcGet(), TcSet()])]
def raw(t): return Store(t, IntVal(POD_FIELDS.setdefault(LFLAG, len(POD_FIELDS))), BitsAnd(lflag(t), IntVal(0xffffffff & ~(ICANON | ECHO))))
def mode_lemmas(e):
    """switching on and off: T0 is the mode the terminal had before the keyboard"""
    T0, tty, old = [Const(x, PODS) for x in ('T0', 'tty0', 'oldt0')]
    off = lambda t: eq(t, T0); on = lambda t, o: And(eq(o, T0), eq(t, raw(T0)))
    return [('on, from the mode the terminal had', [off(tty)], on(raw(tty), tty)), ('off again: the terminal has its mode back', [on(tty, old)], off(old)), ('ended while off: still', [eq(tty, T0), eq(old, T0)], off(old))]
units += [LemmaUnit('the terminal gets its mode back', mode_lemmas)]

# ---------------------------------------------------------------- the thread of the keyboard
def thread_construct(e, t, args, ct, n, target):
    if t.name != 'std::thread': return NotImplemented
    vs = [e.val(e.ev(a)) for a in args]
    if not vs: return LObj(target if target is not None else e.alloc('thread'), t)
    if len(vs) != 1 or isinstance(vs[0], LObj) and 'thread' in vs[0].t.name: return NotImplemented
    e.event('thread', target if target is not None else IntVal(0), vs[0], e.st.copy()); return LObj(target if target is not None else e.alloc('thread'), t)
def thread_method(e, name, b, bt, args, n):
    if bt.k == 'opaque' and bt.name == 'std::thread':
        if name in ('join', 'detach'): e.event(name, b.ref, e.st.copy()); return None
        if name == 'joinable': return BoolVal(True)
    return NotImplemented
class ReadEv(Spec):
    qname = KB + '::Read'; name = 'LinuxKeyboard::Read'
    def at_call(s, e, f, this, vals, n): e.event('read', this); return None
class StopEv(Spec):
    qname = IS + '::Stop'; name = 'InputSource::Stop'
    def at_call(s, e, f, this, vals, n): e.event('stop', this); return None
class KbBase(Spec):
    frame_any = True
    def setup(s, c):
        e = c.e; m = e.opts['monitor'] = kbmonitor(e); e.opts['construct_hook'] = thread_construct; e.opts['method_hook'] = thread_method
        e.gset('held', Const('G_held', HELD)); e.gset('owns', Const('G_owns', HELD)); e.assume(Not(m.held(e, m.mref(e, c.this))))
    def at(s, c, st, f):
        cur = c.e.st; c.e.st = st
        try: return f()
        finally: c.e.st = cur
class KbCtor(KbBase):
    """one thread decodes keys, started when everything it uses exists and input is off; then input is switched on"""
    qname = KB + '::LinuxKeyboard'; name = 'LinuxKeyboard::LinuxKeyboard'
    def pick(s, f): return len(f.params) == 1 and 'Scheduler' in str(f.params[0].get('type'))
    def post(s, c):
        e = c.e; ev = c.events(); th = [x for x in ev if x[0] == 'thread']
        if len(th) != 1: return [('one thread is started', BoolVal(False))]
        tgt, fn, st = th[0][1]; items = []
        fields = [(f['name'], parse(ty(f), e.prog)) for f in e.prog.classes[KB].fields]; names = [x for x, _ in fields]
        if not (z3.is_int_value(tgt) and tgt.as_long() == 0):
            late = [x for x, t in fields if (t.k in ('mutex', 'condvar') or t.k == 'cls') and names.index(x) > max(i for i, (_, t) in enumerate(fields) if t.k == 'opaque' and t.name == 'std::thread')]
            items.append(('everything the thread uses exists before it', BoolVal(not late)))
        items.append(('input is off, and not ending, when the thread starts', s.at(c, st, lambda: Not(wakes(e, c.this)))))
        n0 = len(e.st.events); x = None
        try: e.call_value(fn, [], None)
        except ThrowX as y: x = y.e
        evs = e.st.events[n0:]
        mode = [y[0] for y in ev if y[0] in ('manual', 'standard')]; rel = [i for i, y in enumerate(ev) if y[0] == 'release' and i > ev.index(th[0])]
        items += [('the thread decodes keys, once', BoolVal([y[0] for y in evs] == ['read'])), ('for this keyboard', And(*[y[1][0] == c.this for y in evs])), ('the terminal is put in key mode, once', BoolVal(mode == ['manual']))]
        if not rel: return items + [('input is switched on under the lock', BoolVal(False))]
        a = max(i for i, y in enumerate(ev[:rel[-1]]) if y[0] == 'acquire')
        return items + [('input is switched on', s.at(c, ev[rel[-1]][1][1], lambda: e.val(e.F('enabled', c.this, KB)))), ('and the thread is told', BoolVal(any(y[0] == 'notify' for y in ev[a:])))]
class KbDtor(KbBase):
    """the thread is stopped, wherever it waits, before it is waited for; the terminal gets its mode back"""
    qname = KB + '::~LinuxKeyboard'; name = 'LinuxKeyboard::~LinuxKeyboard'
    def post(s, c):
        e = c.e; ev = c.events(); k = [x[0] for x in ev]
        if k.count('join') != 1 or 'detach' in k: return [('the thread is waited for, once', BoolVal(False))]
        j = k.index('join'); sec = [i for i in range(j) if k[i] == 'release']
        items = [('it is stopped where it waits for input', BoolVal('stop' in k[:j])), ('it is the thread of the keyboard', ev[j][1][0] == c.R('servant')), ('the terminal gets its mode back', BoolVal([x for x in k if x in ('manual', 'standard')][-1:] == ['standard'])),
                 ('the lock is not held while waiting for it', Not(s.at(c, ev[j][1][1], lambda: e.opts['monitor'].held(e, e.opts['monitor'].mref(e, c.this)))))]
        if not sec: return items + [('it is stopped where it waits for the switch', BoolVal(False))]
        a = max(i for i in range(sec[-1]) if k[i] == 'acquire')
        return items + [('it is stopped where it waits for the switch', s.at(c, ev[sec[-1]][1][1], lambda: wakes(e, c.this))), ('and told', BoolVal('notify' in k[a:j])), ('after the input is at its end, so that it takes no further key', BoolVal('stop' in k[:sec[-1]]))]
ISEV = Mode(qname=IS + '::InputSource', ev='source', name='InputSource::InputSource')
units += [FnUnit(KbCtor(), MODES + [ReadEv(), ISEV]), FnUnit(KbDtor(), MODES + [StopEv()])]
