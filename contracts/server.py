"""C17/C15: the telnet server (accepting connections), what a new connection sends first, and the asio scheduler (C19)."""
from cxv.verify import *
from cxv import logic as L
from contracts.session import Ev
from contracts.ends import ec_hook, ec_op, ECS, sock_hook, CT, TS, SESS, SRV, LIBS, D, S
from contracts import telnet
from cxv.types import parse
from cxv.ast import ty

SV = f'{D}Server<{LIBS}>'
# ---------------------------------------------------------------- accepting connections
def acc_hook(e, name, b, bt, args, n):
    if name == 'async_accept':
        vs = [e.val(e.ev(a)) for a in args]; e.event('await connection', b.ref, *vs); return None
    return ec_hook(e, name, b, bt, args, n)
def moved_hook(e, t, args, ct, n, target):
    """a socket moved is the same connection"""
    if target is None and len(args) == 1:
        v = e.ev(args[0]); v = v.lv if isinstance(v, MoveV) else v
        return v if isinstance(v, LObj) else OpaqueV(v)
    return NotImplemented
class Create(Spec):
    """the session for a connection: a new object"""
    qname = SV + '::CreateSession'
    def at_call(s, e, f, this, vals, n):
        r = e.alloc('session'); v = vals[0].lv if isinstance(vals[0], MoveV) else vals[0]; e.event('create', this, v.ref if isinstance(v, LObj) else e.ref(e.val(v)), r); return r
class StartEv(Spec):
    qname = SESS + '::Start'
    def at_call(s, e, f, this, vals, n):
        e.event('start', this)
        if e.choose_any(2, 'throws') == 1: raise ThrowX(ExcV('user exception'))          # an enter action of the user
        return None
class AcceptEv(Spec):
    qname = SV + '::Accept'; name = 'Server::Accept'
    def at_call(s, e, f, this, vals, n): e.event('accept', this); return None
def whole(c):
    """what the server shares with its handlers is there"""
    k = c.e.prog.classes[SV]; ps = [f['name'] for f in k.fields if parse(ty(f), c.e.prog).k == 'sp']
    return And(*[c.F(p) != 0 for p in ps])
class Accept(Spec):
    """one connection is awaited; when it comes, one session is created for it and started, and the next is awaited, also after a
    failure; if the server has been destroyed in the meantime (all it owned is gone), nothing of it is touched"""
    qname = SV + '::Accept'; frame_any = True; name = 'Server::Accept'
    def pre(s, c): return [('the server is whole', whole(c))]
    def setup(s, c): c.e.opts['method_hook'] = acc_hook; c.e.opts['construct_hook'] = moved_hook; c.e.opts['op_hook'] = ec_op; c.e.gget('ec', ECS)
    def post(s, c):
        e = c.e; ev = c.events()
        if len(ev) != 1 or ev[0][0] != 'await connection' or len(ev[0][1]) != 2: return [('exactly one connection is awaited', BoolVal(False))]
        acc, h = ev[0][1]
        gone = e.choose(e.fresh('destroyed meanwhile', B)); e.gset('alive', z3.K(I, BoolVal(not gone)))
        n0 = len(e.st.events); ec = e.alloc('ecarg'); sock = e.alloc('sockarg'); code = e.fresh('code', I); e.gset('ec', Store(e.gget('ec', ECS), ec, code))
        try: e.call_value(h, [LObj(ec, T('opaque', (), 'boost::system::error_code')), LObj(sock, T('opaque', (), 'boost::asio::ip::tcp::socket'))], None)
        except ThrowX: pass
        evs = e.st.events[n0:]; k = [x[0] for x in evs]
        items = [('on the acceptor of this server', acc == c.R('acceptor'))]
        if gone: return items + [('a destroyed server does nothing', BoolVal(not evs))]
        again = [x for x in evs if x[0] == 'accept']; rest = [x for x in evs if x[0] != 'accept']; k = [x[0] for x in rest]
        if len(again) != 1: return items + [('the server goes on accepting, once', BoolVal(False))]
        items.append(('this server goes on accepting', again[0][1][0] == c.this))
        if k == ['create', 'start']: return items + [('a session is created only for a connection', code == 0), ('by this server', rest[0][1][0] == c.this), ('for this connection', rest[0][1][1] == sock), ('that session is started', rest[1][1][0] == rest[0][1][2])]
        if not k: return items + [('every connection gets a session', code != 0)]
        return items + [('a session is created and started once per connection, and the server goes on accepting', BoolVal(False))]
units = [FnUnit(Accept(), [Create(), StartEv(), AcceptEv()])]
class Store_(Spec):
    """the action is kept for the sessions to come"""
    frame_any = True
    def post(s, c): return [('the action given is the one kept', c.F(s.field) == c.oarg(0)), ('the other action stays', c.F(s.other) == c.O(s.other))]
units += [FnUnit(Store_(qname=SRV + '::EnterAction', field='enterAction', other='exitAction')), FnUnit(Store_(qname=SRV + '::ExitAction', field='exitAction', other='enterAction'))]

# ---------------------------------------------------------------- what a connection starts with
LOG = ArraySort(I, Str)
def literal(v):
    """the bytes of a text put together from literals (None: not such a text)"""
    out = b''
    for p in L.parts(v):
        if z3.is_app(p) and p.decl().eq(STR.Unit.decl() if hasattr(STR.Unit, 'decl') else STR.Unit) and is_int_value(p.arg(0)): out += bytes([p.arg(0).as_long() & 255]); continue
        b = next((k for k, x in L.LITS.items() if x[0].eq(p)), None)
        if b is None: return None
        out += b
    return out
def client(bs):
    """what a telnet client that gets these bytes shows, and whether it is left outside of any telnet sequence (RFC 854)"""
    shown, st = b'', 'data'
    for b in bs:
        if st == 'data':
            if b == 255: st = 'iac'
            else: shown += bytes([b])
        elif st == 'iac':
            if b == 255: shown += b'\xff'; st = 'data'
            else: st = 'opt' if 251 <= b <= 254 else 'sub' if b == 250 else 'data'
        elif st == 'opt': st = 'data'
        elif st == 'sub': st = 'subiac' if b == 255 else 'sub'
        elif st == 'subiac': st = 'data' if b == 240 else 'sub'
    return shown, st == 'data'
class Hello(Spec):
    """a new connection gets telnet commands only: nothing of it is shown to the user, and the text that follows is shown as it is"""
    qname = TS + '::OnConnect'; frame_any = True; name = 'TelnetSession::OnConnect'
    def setup(s, c): c.e.opts.setdefault('dynamic', {})[c.this.get_id()] = TS
    def post(s, c):
        e = c.e; o = c.old(lambda: e.gget('log', LOG)); g = e.gget('log', LOG); out = c.R('outStream', cls=SESS)
        new = z3.simplify(Select(g, out)); ps = L.parts(new); old = z3.simplify(Select(o, out))
        if not ps or not ps[0].eq(old): return [('only text is sent', eq(g, o))]
        bs = literal(L.cat(*ps[1:])) if ps[1:] else b''
        if bs is None: return [('only literal text is sent', BoolVal(False))]
        shown, ready = client(bs)
        return [('telnet commands only, nothing that the client shows', BoolVal(shown == b'')), ('the last command is complete', BoolVal(ready)), ('nothing is sent elsewhere', z3.simplify(g) == z3.simplify(Store(o, out, new)))]
units += [FnUnit(Hello(), [])]
class ServerCtor(Spec):
    """a server starts accepting"""
    qname = SV + '::Server'; frame_any = True
    def pick(s, f): return len(f.params) == s.n
    def post(s, c): return [('the server is whole', whole(c)), ('the first connection is awaited', BoolVal([x[0] for x in c.events()] == ['accept']))]
units += [FnUnit(ServerCtor(n=2, name='Server::Server(port)'), [AcceptEv()]), FnUnit(ServerCtor(n=3, name='Server::Server(address, port)'), [AcceptEv()])]
# ---------------------------------------------------------------- the asio scheduler
GAS = f'{D}GenericAsioScheduler<{LIBS}>'; LIB = LIBS
def gas_hook(e, name, b, bt, args, n):
    if bt.k == 'opaque' and name in ('run', 'stop', 'stopped', 'run_one', 'poll_one', 'reset', 'get_executor', 'poll', 'restart'):
        for a in args: e.ev(a)
        e.event(name, b.ref if isinstance(b, LObj) else e.ref(e.val(b)))
        if name == 'stopped': return e.fresh('stopped', B)
        if name in ('run', 'run_one', 'poll_one'): return e.fresh('n', I)
        return OpaqueV(name) if name == 'get_executor' else None
    return NotImplemented
class PostTo(Spec):
    qname = 'extern post'; trusted_note = 'asio::post passes the task to the context of the executor, which runs it once'
    def at_call(s, e, f, this, vals, n): e.trusted.add(s.trusted_note); e.event('asio post', *[e.ref(e.val(v)) if not isinstance(v, LObj) else v.ref for v in vals]); return None
class Gas(Spec):
    frame_any = True
    def setup(s, c): c.e.opts['method_hook'] = gas_hook
    def pre(s, c): return [('there is a context', c.F('context') != 0)]
class GasPost(Gas):
    """the task is given to the executor of the scheduler, once"""
    qname = GAS + '::Post'
    def post(s, c):
        ev = c.events()
        return [('exactly one task is posted', BoolVal([x[0] for x in ev] == ['asio post'])), ('the one given', ev[0][1][1] == c.oarg(0) if ev and len(ev[0][1]) == 2 else BoolVal(False))]
class GasDo(Gas):
    """one operation of the context"""
    def post(s, c):
        ev = [x for x in c.events()]
        return [('exactly that is asked of the context', BoolVal([x[0] for x in ev] == [s.op])), ('of the context of the scheduler', And(*[x[1][0] == c.O('context') for x in ev]))]
class GasStop(Gas):
    qname = GAS + '::Stop'
    def post(s, c):
        ev = c.events(); st = [x for x in ev if x[0] == 'stop']
        return [('the context is stopped', BoolVal(len(st) >= 1)), ('the context of the scheduler', And(*[x[1][0] == c.O('context') for x in st]))]
units += [FnUnit(GasPost(), [PostTo()]), FnUnit(GasStop())] + [FnUnit(GasDo(qname=f'{GAS}::{m}', op=o)) for m, o in (('Run', 'run'), ('ExecOne', 'run_one'), ('PollOne', 'poll_one'), ('Stopped', 'stopped'))]
class GasCtor(Gas):
    """a scheduler on a context: the given one, or a new one of its own"""
    qname = GAS + '::GenericAsioScheduler'
    def pick(s, f): return len(f.params) == s.n
    def pre(s, c): return []
    def post(s, c): return [('there is a context', c.F('context') != 0), ('it is owned exactly if it was not given', c.F('owned') == BoolVal(s.n == 0))] + ([('the given one', c.F('context') == c.vals[0].ref)] if s.n else [('it is kept running', c.F('work') != 0)])
class GasDtor(Gas):
    qname = GAS + '::~GenericAsioScheduler'
    def post(s, c):
        e = c.e; d = [x for x in c.events() if x[0] == 'delete']
        if not d: return [('a context of its own is deleted', Not(c.O('owned')))]
        if len(d) > 1: return [('the context is deleted once', BoolVal(False))]
        cur = e.st; e.st = d[0][1][1]
        try: w = c.F('work')
        finally: e.st = cur
        return [('only a context of its own is deleted', And(c.O('owned'), d[0][1][0] == c.O('context'))), ('what keeps the context running is gone before the context', w == 0)]
class Guard(Spec):
    qname = 'extern make_work_guard'; trusted_note = 'make_work_guard keeps the context running until it is reset'
    def at_call(s, e, f, this, vals, n): e.trusted.add(s.trusted_note); v = vals[0]; e.event('work', v.ref if isinstance(v, LObj) else e.ref(e.val(v))); return OpaqueV('work')
units += [FnUnit(GasCtor(n=n, name=f'GenericAsioScheduler({"its own" if n == 0 else "given"} context)'), [Guard()]) for n in (0, 1)] + [FnUnit(GasDtor())]
# ---------------------------------------------------------------- the telnet server on top
class CliServerCtor(Spec):
    """the server listens, and remembers the cli, the scheduler and the history size for its sessions; no action is set"""
    qname = SRV + '::CliGenericTelnetServer'; frame_any = True
    def pick(s, f): return len(f.params) == s.n
    def setup(s, c): c.e.opts['method_hook'] = gas_hook
    def pre(s, c): return [('the scheduler has a context', c.F('context', c.vals[1].ref, GAS) != 0)]
    def post(s, c):
        ev = c.events()
        if [x[0] for x in ev] != ['server']: return [('one server is set up', BoolVal(False))]
        v = ev[0][1]; out = [('on the context of the scheduler', v[1] == c.F('context', c.vals[1].ref, GAS)), ('on the given port', v[-1] == c.oarg(s.n - 2))] + ([('on the given address', eq(v[2], c.oarg(2)))] if s.n == 5 else [])
        return out + [('the cli is the given one', c.R('cli') == c.vals[0].ref), ('with the scheduler given', c.R('scheduler') == c.vals[1].ref), ('with the history size given', c.F('historySize') == c.oarg(s.n - 1)), ('no action is set', And(c.F('enterAction') == 0, c.F('exitAction') == 0))]
for n in (4, 5): units.append(FnUnit(CliServerCtor(n=n, name='CliGenericTelnetServer(' + ('port)' if n == 4 else 'address, port)')), [Ev(qname=SV + '::Server', nparams=n - 2, ev='server', name='Server::Server')]))
class Quiet(Spec):
    """the end of a connection changes nothing of the protocol state and sends nothing"""
    frame_any = True
    def setup(s, c): c.e.opts.setdefault('dynamic', {})[c.this.get_id()] = TS
    def post(s, c): return [('nothing is called', BoolVal(not c.events())), ('nothing is sent', c.e.gget('log', LOG) == c.old(lambda: c.e.gget('log', LOG)))]
units += [FnUnit(Quiet(qname=TS + '::' + m)) for m in ('OnDisconnect', 'OnError')]
