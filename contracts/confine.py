"""Confinement: the only functions that can change a private field (what callers rely on when they treat it as unchanged).

A syntactic obligation over every function of the library in clang's AST: outside the listed functions the field is only
read (converted to a value or to a const object, compared, or used through a const member function)."""
from cxv.verify import *
from cxv.engine import *

READ_PARENTS = ('LValueToRValue',)
def uses(prog, cls, name):
    """[(function, is_write, location)] for every mention of the field"""
    fids = {f['id'] for c in prog.clsbyid.values() if c.qname == cls for f in c.fields if f.get('name') == name}
    if not fids: raise BindError(f'field {cls}::{name} not found')
    out = []
    for fn in set(prog.funcs.values()):
        if fn.body is None and not fn.inits: continue
        const_this = fn.const
        stack = [(fn.node, ())]
        while stack:
            n, up = stack.pop()
            if n.get('kind') == 'MemberExpr' and n.get('referencedMemberDecl') in fids:
                out.append((fn, not is_read(n, up, const_this), n))
            if n.get('kind') == 'CXXCtorInitializer' and (n.get('anyInit') or {}).get('id') in fids: pass     # construction
            for c in n.get('inner', ()):
                if isinstance(c, dict): stack.append((c, (n,) + up))
    return out
def const_type(n):
    t = (n.get('type') or {}).get('qualType', '')
    return t.startswith('const ') and not t.rstrip().endswith('*') or t.rstrip().endswith('const')
def is_read(n, up, const_this):
    if const_type(n): return True
    for p in up:
        k = p.get('kind')
        if k == 'ImplicitCastExpr':
            if p.get('castKind') == 'LValueToRValue': return True
            if p.get('castKind') in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase'):
                if const_type(p): return True
                continue
            return False
        if k in ('ParenExpr', 'MaterializeTemporaryExpr'): continue
        if k == 'MemberExpr':           # .method: const methods come with an implicit cast of the object when it is not const
            return const_type(n)
        if k == 'CXXOperatorCallExpr':
            # operator->, *, bool of smart pointers are const members: clang adds the cast above them
            return False
        return False
    return False

def references(prog, fn):
    """functions that mention fn"""
    ids = {i for i, f in prog.canon.items() if f is prog.canon.get(fn.id, fn)} | {fn.id}; out = set()
    for g in set(prog.funcs.values()):
        stack = [g.node]
        while stack:
            n = stack.pop()
            if n.get('referencedMemberDecl') in ids or (n.get('referencedDecl') or {}).get('id') in ids: out.add(g); break
            stack.extend(c for c in n.get('inner', ()) if isinstance(c, dict))
    return out
class Confined:
    """unit: the field is written only in these functions"""
    opts = {}
    def __init__(s, cls, name, writers): s.cls, s.field, s.writers = cls, name, writers; s.name = f'{cls.replace("cli::detail::", "").replace("cli::", "")}::{name} is private to its writers'
    def covered(s, prog, fn, seen):
        """one of the listed functions, or a private helper that only they call: it is executed in place in their proofs"""
        if any(fn.qname == x or fn.qname.startswith(x + '::') for x in s.writers): return True
        c = prog.canon.get(fn.id, fn)
        if c in seen: return True
        decls = [i for i, f in prog.canon.items() if f is c]
        if fn.virtual or not any(prog.access.get(i) == 'private' for i in list(decls) + [fn.id]): return False
        refs = [g for g in references(prog, fn) if prog.canon.get(g.id, g) is not c]
        return bool(refs) and all(s.covered(prog, g, seen | {c}) for g in refs)
    def run(s, e):
        n = 0
        for fn, w, node in uses(e.prog, s.cls, s.field):
            n += 1
            if w and not s.covered(e.prog, fn, set()):
                # another function writes the field: not a violation by itself, but callers can no longer treat it as unchanged
                raise Unsupported(f'{s.cls}::{s.field} is also changed in {fn.qname} ({e.loc(node)}): no contract covers this writer')
        e.obs.append(Ob(f'{s.cls}::{s.field}: {n} mentions, every write inside {", ".join(s.writers) or "its constructor"}', None, BoolVal(True), None, 'proved', 0, 'frame'))
        return dict(live=1, func=s.name)
F = [('cli::VolatileHistoryStorage', 'commands', ['cli::VolatileHistoryStorage::Store', 'cli::VolatileHistoryStorage::Clear']), ('cli::Menu', 'parent', ['cli::Menu::Insert']), ('cli::Menu', 'cmds', ['cli::Menu::Insert']), ('cli::CliSession', 'current', ['cli::CliSession::Current']), ('cli::CliSession', 'fromHistory', ['cli::CliSession::ExecFromHistory']),
     ('cli::CliSession', 'exit', ['cli::CliSession::Exit']), ('cli::CliSession', 'globalScopeMenu', []), ('cli::CliSession', 'coutPtr', []), ('cli::Cli', 'rootMenu', []), ('cli::Cli', 'globalHistoryStorage', []),
     ('cli::CmdHandler::Descriptor', 'cmd', []), ('cli::CmdHandler::Descriptor', 'cmds', []), ('cli::CmdHandler', 'descriptor', ['cli::CmdHandler::CmdHandler']),
     ('cli::Command', 'enabled', ['cli::Command::Enable', 'cli::Command::Disable']), ('cli::CliSession', 'history', ['cli::CliSession::Feed', 'cli::CliSession::ExecFromHistory', 'cli::CliSession::PreviousCmd', 'cli::CliSession::NextCmd', 'cli::CliSession::CliSession'])]
units = [Confined(*x) for x in F]
