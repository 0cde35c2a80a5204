"""C17: how the session kinds start and end: telnet, local and file sessions on top of CliSession::Enter/Exit."""
from cxv.verify import *
from cxv import logic as L
from cxv.stl import NLIdx
from contracts.session import Ev
from contracts.dispatch import *
from contracts.feed import same_state, log_in, eqv, LOG

D = 'cli::detail::'; S = 'cli::CliSession'
CT = D + 'CliTelnetSession'; TS = D + 'TelnetSession'; SESS = D + 'Session'; DEV = D + 'InputDevice'
CP = D + 'CommandProcessor<cli::detail::TelnetScreen>'
def action_callback(e, ref, args, n):
    vs = [v.ref if isinstance(v, LObj) else e.val(v) for v in args]
    e.event('call', ref, *vs)
    if e.choose_any(2, 'throws') == 1: x = ExcV('user exception'); e.st.events[-1] += (x,); raise ThrowX(x)
    return OpaqueV('r')
def run_fn(c, v, args):
    """events of a call of the function value v, and the exception it ends with"""
    e = c.e; n0 = len(e.st.events); x = None
    try: e.call_value(v, args, None)
    except ThrowX as y: x = y.e
    return e.st.events[n0:], x
class TelnetCtor(Spec):
    """a telnet session: the decoder is ready, keys go to its command processor, and ending it runs the server's exit action and then closes the connection"""
    qname = CT + '::CliTelnetSession'; frame_any = True
    def setup(s, c): c.e.callback = action_callback
    def pre(s, c): return []
    def post(s, c):
        e = c.e; ev = c.events()
        items = [('the key decoder starts ready', c.F('step') == c.enum('CliTelnetSession::Step', '_1')), ('the telnet decoder starts in the data state', And(c.F('state', cls=TS) == c.enum('TelnetSession::State', 'data'), Not(c.F('escape', cls=TS))))]
        kinds = [x[0] for x in ev]
        if kinds != ['session', 'processor']: return items + [('it is one session with one command processor', BoolVal(False))]
        items += [('the session is this one, on the given cli, on its own stream, with the given history size', And(ev[0][1][0] == c.this, ev[0][1][1] == c.arg(2), ev[0][1][2] == c.R('outStream', cls=SESS), ev[0][1][3] == c.oarg(4))),
                  ('the command processor drives this session and listens to this device', And(ev[1][1][1] == c.this, ev[1][1][2] == c.this))]
        act = c.old(lambda: c.arg(3)); out = Const('anystream', I); e.assume(out > 0)
        evs, x = run_fn(c, c.F('exitAction', cls=S), [LObj(out, T('stream'))])
        evs = list(evs)
        if evs and evs[0][0] == 'call':
            y = evs.pop(0); items += [('the exit action of the server is called only if set', And(act != 0, y[1][0] == act)), ('with the session stream', y[1][1] == out if len(y[1]) == 2 else BoolVal(False))]
            if len(y) > 2: return items + [('what it throws is passed on', BoolVal(x is y[-1] and not evs))]
        else: items.append(('the exit action of the server is called if set', act == 0))
        return items + [('then the connection is closed, once', And(BoolVal(len(evs) == 1 and evs[0][0] == 'disconnect'), evs[0][1][0] == c.this if evs else BoolVal(False))), ('ending never throws because of the action', BoolVal(x is None))]
class SessionEv(Ev):
    def at_call(s, e, f, this, vals, n):
        super().at_call(e, f, this, vals, n)
        for a in ('enterAction', 'exitAction'): e.store(e.F(a, this, S), e.coerce_store(e.fresh('noop', I), parse('std::function<void (std::ostream &)>', e.prog)))
class OnConnect(Spec):
    """a new connection negotiates, runs the enter actions and shows the prompt, in this order"""
    qname = CT + '::OnConnect'; frame_any = True; throws = ('user exception',)
    def setup(s, c): c.e.opts.setdefault('dynamic', {})[c.this.get_id()] = CT
    def post(s, c):
        return [('negotiation, enter actions, prompt', BoolVal([x[0] for x in c.events()] == ['negotiate', 'enter', 'prompt'])), ('of this session', And(*[x[1][0] == c.this for x in c.events()]))]
sess_events = [SessionEv(qname=S + '::CliSession', nparams=3, ev='session', name='CliSession::CliSession'), Ev(qname=CP + '::CommandProcessor', ev='processor', name='CommandProcessor::CommandProcessor'), Ev(qname=SESS + '::Disconnect', ev='disconnect', name='Session::Disconnect')]
units = [FnUnit(TelnetCtor(), sess_events), FnUnit(OnConnect(), [Ev(qname=TS + '::OnConnect', ev='negotiate', name='TelnetSession::OnConnect'), Ev(qname=S + '::Enter', ev='enter', name='CliSession::Enter'), Ev(qname=S + '::Prompt', ev='prompt', name='CliSession::Prompt')])]

# ---------------------------------------------------------------- the connection (sockets are asio's: modelled by what is asked of them)
SYSERR = 'boost::system::system_error'
def is_ec(t): return 'error_code' in t.name if t.k == 'opaque' else t.k == 'ref' and is_ec(t.a[0])
def sock_hook(e, name, b, bt, args, n):
    if name in ('shutdown', 'close'):
        e.event(name, b.ref)
        ts = [e.T(a) for a in args if a.get('kind') != 'CXXDefaultArgExpr']
        for a in args: e.ev(a)
        if not any(is_ec(t) for t in ts) and e.choose_any(2, 'peer gone') == 1: raise ThrowX(ExcV(SYSERR))
        return OpaqueV('ec')
    if bt.k == 'opaque' and name in ('available', 'remote_endpoint', 'local_endpoint', 'native_handle', 'is_open'):
        # a question about the connection: any answer; all but the last two fail by throwing, unless given an error code
        vs = [(e.T(a), e.ev(a)) for a in args if a.get('kind') != 'CXXDefaultArgExpr']
        ecs = [v for t, v in vs if is_ec(t)]
        if ecs:
            if isinstance(ecs[0], LObj): e.gset('ec', Store(e.gget('ec', ECS), ecs[0].ref, e.fresh('code', I)))
            else: raise Unsupported('error code')
        elif name not in ('native_handle', 'is_open') and e.choose_any(2, 'peer gone') == 1: raise ThrowX(ExcV(SYSERR))
        t = e.T(n); so = sort_of(t)
        if so is None: return OpaqueV(name)
        v = e.fresh(name, so); e.type_inv(v, t); return v
    return NotImplemented
class Disconnect(Spec):
    """closes the connection; never throws, also when the peer has already closed it"""
    qname = SESS + '::Disconnect'; frame_any = True
    def setup(s, c): c.e.opts['method_hook'] = sock_hook
    def post(s, c):
        ev = [x for x in c.events()]
        return [('the socket is closed', BoolVal(any(x[0] == 'close' for x in ev))), ('it is the socket of the session', And(*[x[1][0] == c.R('socket') for x in ev])), ('closed last, once', BoolVal([x[0] for x in ev].count('close') == 1 and ev[-1][0] == 'close'))]
units.append(FnUnit(Disconnect()))
ECS = ArraySort(I, I)
def ecval(e, x): return Select(e.gget('ec', ECS), x.ref)
def ec_hook(e, name, b, bt, args, n):
    if bt.k == 'opaque' and 'error_code' in bt.name and name == 'operator bool': return ecval(e, b) != 0
    if name == 'is_open': return Select(e.gget(f'open{len(e.st.events)}', ArraySort(I, B)), b.ref)      # any value, which only an event changes
    if name == 'async_read_some':
        vs = [e.val(e.ev(a)) for a in args]; e.event('async_read', b.ref, *vs); return None
    if name == 'shared_from_this': return e.unitctx.this
    return sock_hook(e, name, b, bt, args, n)
ERR = Function('asio_error', I, I)
ERRORS = {}
def err_of(name): return IntVal(ERRORS.setdefault(name, 1000 + len(ERRORS)))
def enumerator(x):
    """the enumerator that an error_code is made from"""
    if isinstance(x, dict):
        r = x.get('referencedDecl') or {}
        if x.get('kind') == 'DeclRefExpr' and r.get('kind') == 'EnumConstantDecl': return r['name']
        for y in x.get('inner', ()):
            k = enumerator(y)
            if k: return k
    return None
def ec_op(e, op, args, n):
    if op in ('==', '!=') and any(is_ec(e.T(a)) for a in args):
        vs = []
        for a in args:
            k = enumerator(a)
            if k: vs.append(err_of(k)); continue
            x = e.ev(a)
            if isinstance(x, LObj) and is_ec(e.T(a)): vs.append(ecval(e, x))
            else: v = e.val(x); vs.append(ERR(v) if isinstance(v, z3.ExprRef) else ERR(e.fresh('err', I)))
        r = vs[0] == vs[1]
        # the named errors are errors (not 0)
        for v in vs:
            if v.decl().eq(ERR): e.assume(v != 0)       # (an enumerator is a number above 0)
        return r if op == '==' else Not(r)
    return NotImplemented
class Buffer(Spec):
    qname = 'extern buffer'
    def at_call(s, e, f, this, vals, n):
        v = e.val(vals[0]) if not isinstance(vals[0], IterV) else vals[0]
        size = e.as_int(vals[1]) if len(vals) > 1 else None
        if isinstance(v, IterV) and size is not None: e.oblige('the buffer given to the socket lies within the array', And(size >= 0, v.idx >= 0, v.idx + size <= e.clen(v.lv)), n)
        return OpaqueV(('buffer', v, size))
class Write(Spec):
    qname = 'extern write'; trusted_note = 'asio::write writes the whole buffer or reports an error'
    def at_call(s, e, f, this, vals, n):
        e.trusted.add(s.trusted_note)
        e.event('write', vals[0].ref, e.val(vals[1]).what[1])
        if len(vals) > 2: e.gset('ec', Store(e.gget('ec', ECS), vals[2].ref, e.fresh('ec', I)))
        elif e.choose_any(2, 'peer gone') == 1: raise ThrowX(ExcV(SYSERR))
        return e.fresh('written', I)
class VEv(Spec):
    """a virtual hook of the session, as an event"""
    def at_call(s, e, f, this, vals, n): e.event(s.ev, this, *[e.coerce_store(e.val(v), STRT) for v in vals]); return None
hooks = [VEv(qname=SESS + '::OnDisconnect', ev='gone'), VEv(qname=SESS + '::OnError', ev='error'), VEv(qname=SESS + '::OnDataReceived', ev='data'), VEv(qname=SESS + '::OnConnect', ev='connected'), VEv(qname=SESS + '::Read', ev='read'), Buffer(), Write()]
def ec_copy(e, t, args, ct, n, target):
    """an error code copied: the same code"""
    if len(args) != 1 or not is_ec(t): return NotImplemented
    v = e.ev(args[0]); v = v.lv if isinstance(v, MoveV) else v
    if not isinstance(v, LObj): raise Unsupported('error code')
    if target is None: return v
    e.gset('ec', Store(e.gget('ec', ECS), target, ecval(e, v))); return LObj(target, t)
class Sock(Spec):
    frame_any = True
    def setup(s, c): c.e.opts['construct_hook'] = ec_copy; c.e.opts['method_hook'] = ec_hook; c.e.opts['op_hook'] = ec_op; c.e.gget('ec', ECS)
class Send(Sock):
    """the whole message is written to the socket, once; a failed connection does not throw"""
    qname = SESS + '::Send'
    def post(s, c):
        ev = c.events()
        if not ev or ev[0][0] != 'write': return [('the message is written', BoolVal(False))]
        return [('the whole message is written to the socket', And(ev[0][1][0] == c.R('socket'), eq(ev[0][1][1], c.oarg(0)))), ('once; then at most an error is noted', BoolVal(all(x[0] in ('gone', 'error') for x in ev[1:])))]
class Read(Sock):
    """data received is processed exactly once, in order of arrival: the next read starts after the data of this one was processed"""
    qname = SESS + '::Read'
    def post(s, c):
        e = c.e; ev = c.events()
        if len(ev) != 1 or ev[0][0] != 'async_read': return [('exactly one read is started', BoolVal(False))]
        sock, buf, h = ev[0][1]
        n0 = len(e.st.events); ec = e.alloc('ecarg'); code, n = e.fresh('code', I), e.fresh('length', I); e.gset('ec', Store(e.gget('ec', ECS), ec, code))
        e.assume(n >= 0); e.assume(n <= buf.what[2])
        x = None
        try: e.call_value(h, [LObj(ec, T('opaque', (), 'boost::system::error_code')), n], None)
        except ThrowX as y: x = y.e
        evs = e.st.events[n0:]; k = [y[0] for y in evs]
        return [('on this socket', sock == c.R('socket')), ('data is processed once and then the next read starts, or the connection has ended', BoolVal(k in (['data', 'read'], ['gone'], ['error']))),
                ('data is processed only without error', code == 0 if k == ['data', 'read'] else BoolVal(True)), ('exactly the bytes received', And(slen(evs[0][1][1]) == n) if k[:1] == ['data'] else BoolVal(True)), ('an error ends the reading', code != 0 if k == ['error'] else BoolVal(True))]
class Start(Sock):
    """a session starts by its connection hook and then reads"""
    qname = SESS + '::Start'
    def post(s, c): return [('connected, then reading', BoolVal([x[0] for x in c.events()] == ['connected', 'read']))]
units += [FnUnit(Send(), [h for h in hooks]), FnUnit(Read(), [h for h in hooks]), FnUnit(Start(), [h for h in hooks])]

# ---------------------------------------------------------------- how sessions are created
LOC = 'cli::CliLocalTerminalSession'; LIBS = 'cli::detail::NewBoostAsioLib'; SRV = f'{D}CliGenericTelnetServer<{LIBS}>'; ASY = f'{D}GenericCliAsyncSession<{LIBS}>'
class LocalCtor(Spec):
    """a local session: one session on the given cli and stream, its keys go to its command processor, it is entered and shows the prompt"""
    qname = LOC + '::CliLocalTerminalSession'; frame_any = True; throws = ('user exception',)
    def post(s, c):
        ev = c.events(); k = [x[0] for x in ev]
        if k != ['session', 'keyboard', 'processor', 'enter', 'prompt']: return [('session, keyboard, command processor; then enter actions and prompt', BoolVal(False))]
        v = ev[0][1]
        return [('on the given cli and stream, with the given history size', And(v[0] == c.this, v[1] == c.vals[0].ref, v[2] == c.vals[2].ref, v[3] == c.oarg(3))), ('keys come from the keyboard of the session', And(ev[1][1][0] == ev[2][1][2], ev[2][1][1] == c.this)),
                ('this session is entered and prompts', And(ev[3][1][0] == c.this, ev[4][1][0] == c.this))]
class MakeTelnet(Ev):
    def at_call(s, e, f, this, vals, n):
        super().at_call(e, f, this, vals, n)
        for a in ('enterAction', 'exitAction'): e.store(e.F(a, this, S), e.coerce_store(e.fresh('noop', I), parse('std::function<void (std::ostream &)>', e.prog)))
class CreateSession(Spec):
    """a telnet server creates sessions on its cli with its history size and its enter and exit actions"""
    qname = SRV + '::CreateSession'; frame_any = True
    def post(s, c):
        ev = c.events()
        if [x[0] for x in ev] != ['telnet session']: return [('exactly one session is created', BoolVal(False))]
        v = ev[0][1]; o = lambda n: c.O(n)
        return [('it is the one returned', v[0] == c.e.ref(c.ret)), ('on the cli of the server', v[3] == c.old(lambda: c.R('cli'))), ('its exit action is the one of the server', v[4] == o('exitAction')), ('with the history size of the server', v[5] == o('historySize')),
                ('its enter action is the one of the server', c.F('enterAction', v[0], S) == o('enterAction')),
                ('the server keeps its configuration for the next connection', And(*[c.F(n) == o(n) for n in ('enterAction', 'exitAction', 'historySize')], c.R('cli') == c.old(lambda: c.R('cli'))))]
units += [FnUnit(LocalCtor(), [Ev(qname=S + '::CliSession', nparams=3, ev='session', name='CliSession::CliSession'), Ev(qname=D + 'LinuxKeyboard::LinuxKeyboard', nparams=1, ev='keyboard'), Ev(qname=CP + '::CommandProcessor', ev='processor', name='CommandProcessor::CommandProcessor'), Ev(qname=S + '::Enter', ev='enter', name='CliSession::Enter'), Ev(qname=S + '::Prompt', ev='prompt', name='CliSession::Prompt')]),
          FnUnit(CreateSession(), [MakeTelnet(qname=CT + '::CliTelnetSession', ev='telnet session')])]
class Gen(Spec):
    """a library function outside of the unit, as an event"""
    def at_call(s, e, f, this, vals, n):
        e.event(s.ev, *vals); return OpaqueV(s.ev)
class AsyncCtor(Sock):
    """an async session is entered and then reads"""
    qname = ASY + '::GenericCliAsyncSession'; throws = ('user exception',)
    def post(s, c):
        ev = c.events(); k = [x[0] for x in ev]
        if k[:1] != ['session'] or k[1:] != ['enter', 'aread']: return [('one session, entered, then reading', BoolVal(False))]
        return [('on the given cli', And(ev[0][1][0] == c.this, ev[0][1][1] == c.vals[1].ref)), ('this session is entered and reads', And(ev[1][1][0] == c.this, ev[2][1][0] == c.this))]
class AsyncRead(Sock):
    """the prompt is shown and the next line is awaited"""
    qname = ASY + '::Read'
    def post(s, c):
        e = c.e; ev = [x for x in c.events() if x[0] != 'bind']
        if [x[0] for x in ev] != ['prompt', 'await line']: return [('prompt, then exactly one line is awaited', BoolVal(False))]
        a = ev[1][1]; d = e.val(a[2]); d = IntVal(d.b[0]) if isinstance(d, CStrV) and len(d.b) == 1 else at(d, IntVal(0)) if is_seq(d) else d
        h = e.val(a[3]); b = [x for x in c.events() if x[0] == 'bind']
        if isinstance(h, ClosureV):         # a lambda: it is called
            ec = LObj(e.alloc('ec'), T('opaque', (), 'boost::system::error_code')); m = e.fresh('length', I); e.type_inv(m, SIZE)
            o = len(e.st.events); e.call_value(h, [ec, LVal(m, SIZE)], None); l = [x for x in e.st.events[o:] if x[0] == 'newline']
            ok = And(l[0][1][0] == c.this, e.ref(l[0][1][1]) == ec.ref, e.val(l[0][1][2]) == m) if len(l) == 1 else BoolVal(False)
        elif len(b) == 1 and isinstance(e.val(b[0][1][0]), FuncV):
            v = [e.val(x) for x in b[0][1]]; ph = [str(getattr(x, 'ref', x)) for x in v[2:]]
            ok = And(v[1] == c.this, BoolVal(v[0].decl.get('name') == 'NewLine' and [x[-3:] for x in ph] == ['__1', '__2']))
        else: raise Unsupported('handler of the line')
        return [('the handler is this session\'s own', ok), ('the line is read from the session\'s input into its buffer', And(e.ref(a[0]) == c.R('input'), e.ref(a[1]) == c.R('inputBuffer'))), ('a line ends with a newline', d == 10 if is_int(d) else BoolVal(False))]
def buf_hook(e, name, b, bt, args, n):
    """the stream buffer of the session: characters received and not yet consumed"""
    if name == 'data': return OpaqueV('buffer contents')
    if name == 'consume': e.event('consume', e.as_int(e.ev(args[0]))); return None
    return ec_hook(e, name, b, bt, args, n)
class Begin(Spec):
    qname = 'extern buffers_begin'
    def at_call(s, e, f, this, vals, n): return IterV(e.opts['inbuf'], IntVal(0))
class AsyncLine(Sock):
    """a line is executed once and the next awaited unless it ended the session; at the end of the input the session ends"""
    qname = ASY + '::NewLine'; throws = ('user exception',)
    def setup(s, c):
        super().setup(c); e = c.e; e.opts['method_hook'] = buf_hook; s.buf = e.fresh('inbuf', Str); e.type_inv(s.buf, STRT); e.opts['inbuf'] = e.newcell(s.buf, STRT, 'inbuf')
        # what asio::async_read_until promises: without error, length is up to and including the first newline; not_found: 0
        code = ecval(e, c.vals[0]); n = c.arg(1); s.ok = code == 0
        e.assume(Implies(s.ok, And(NLIdx(s.buf) < slen(s.buf), n == NLIdx(s.buf) + 1))); e.assume(Implies(Not(s.ok), n == 0))
    def post(s, c):
        evs = [x for x in c.events() if x[0] in ('feed', 'aread', 'end', 'consume')]; k = tuple(x[0] for x in evs); n = c.arg(1)
        if k in (('consume', 'feed', 'aread'), ('consume', 'feed')):
            return [('reading goes on unless the session has ended', Not(c.F('exit', cls=S)) if k[-1] == 'aread' else c.F('exit', cls=S)), ('what was executed is consumed', evs[0][1][0] == n), ('this session executes it', evs[1][1][0] == c.this),
                    ('exactly the line received, without its newline', Implies(s.ok, eq(evs[1][1][1], sl(s.buf, IntVal(0), NLIdx(s.buf))))), ('nothing is executed when nothing was received', Implies(Not(s.ok), slen(evs[1][1][1]) == 0)),
                    ('reading goes on only if there can be more input', Or(s.ok, ecval(c.e, c.vals[0]) == err_of('not_found')))]
        if k == ('end',): return [('the session ends when the input has ended', Not(s.ok))]
        return [('the line is executed, or the session has ended', BoolVal(False))]
A_CONTRACTS = [Ev(qname=S + '::CliSession', nparams=3, ev='session', name='CliSession::CliSession'), Ev(qname=S + '::Enter', ev='enter', name='CliSession::Enter'), Ev(qname=S + '::Exit', ev='end', name='CliSession::Exit'), Ev(qname=S + '::Prompt', ev='prompt', name='CliSession::Prompt'), Ev(qname=ASY + '::Read', ev='aread'), Ev(qname=ASY + '::NewLine', ev='newline'), Ev(qname=S + '::Feed', ev='feed', name='CliSession::Feed'), Gen(qname='extern bind', ev='bind'), Gen(qname='extern async_read_until', ev='await line'), Begin()]
units += [FnUnit(x, [y for y in A_CONTRACTS if y.qname != x.qname]) for x in (AsyncCtor(), AsyncRead(), AsyncLine())]
