"""Front end: the clang AST of /repo's headers (dumped by clang on every run), indexed for the engine."""
import json, os, subprocess, hashlib, re

REPO = os.environ.get('CXV_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def _const_value(x):
    """value of a constant expression node"""
    if x.get('kind') == 'ConstantExpr' and 'value' in x: return int(x['value'])
    if x.get('kind') == 'IntegerLiteral': return int(x['value'])
    if x.get('kind') == 'CharacterLiteral': v = int(x['value']); return v - 256 if 128 <= v < 256 else v
    if x.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr', 'CXXStaticCastExpr'): return next((v for v in map(_const_value, x.get('inner', ())) if v is not None), None)
    return None

class FrontendError(Exception): pass

CLANG_FLAGS = ['-std=c++14', '-DBOOST_ASIO_DISABLE_VISIBILITY']

def dump(tu, extra=()):
    cmd = ['clang++', *CLANG_FLAGS, *extra, f'-I{REPO}/include', '-fsyntax-only', '-Wno-everything',
           '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=cli::', tu]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode != 0:
        raise FrontendError('clang rejected ' + tu + '\n' + r.stderr.decode(errors='replace')[-4000:])
    return r.stdout.decode(errors='replace')

FUNCS = ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl')
CLASSES = ('CXXRecordDecl', 'ClassTemplateSpecializationDecl', 'ClassTemplatePartialSpecializationDecl')

def ty(n):
    """canonical type string of a node"""
    t = n.get('type') or {}
    return t.get('desugaredQualType') or t.get('qualType') or ''
def sty(n):
    return (n.get('type') or {}).get('qualType') or ''

def targs(n):
    out = []
    for c in n.get('inner', ()):
        if c.get('kind') == 'TemplateArgument':
            if 'type' in c: out.append(c['type'].get('desugaredQualType') or c['type']['qualType'])
            elif 'value' in c: out.append(str(c['value']))
            else:
                ii = [x for x in c.get('inner', ()) if isinstance(x, dict)]
                if any(x.get('kind') == 'TemplateArgument' for x in ii): out += targs(c)
                elif ii: out.append('...')
    return [o for o in out]

class Func:
    def __init__(s, node, qname, cls):
        s.node, s.qname, s.cls = node, qname, cls
        s.id = node['id']; s.name = node.get('name', '')
        s.params = [c for c in node.get('inner', ()) if c.get('kind') == 'ParmVarDecl']
        s.body = next((c for c in node.get('inner', ()) if c.get('kind') in ('CompoundStmt', 'CXXTryStmt')), None)
        s.inits = [c for c in node.get('inner', ()) if c.get('kind') == 'CXXCtorInitializer']
        s.targs = targs(node)
        t = node.get('type', {}).get('qualType', '')
        s.ftype = t
        s.virtual = node.get('virtual', False)
        s.static = node.get('storageClass') == 'static' or s.cls is None
        s.loc = node.get('_loc')
        s.const = t.rstrip().endswith('const') or ') const' in t
    def __repr__(s): return f'<{s.qname}{s.targs or ""}>'

class Cls:
    def __init__(s, node, qname):
        s.node, s.qname = node, qname
        s.fields = []      # FieldDecl nodes
        s.bases = [b['type'].get('desugaredQualType') or b['type']['qualType'] for b in node.get('bases', ())]
        s.methods = []
        s.packs = {}       # template parameter pack -> size
    def __repr__(s): return f'<class {s.qname}>'

class Program:
    def __init__(s, text):
        s.byid = {}; s.access = {}; s.funcs = {}; s.byname = {}; s.classes = {}; s.clsbyid = {}; s.enums = {}; s.enumconst = {}
        s.canon = {}       # decl id -> defining Func
        s.qn = {}          # decl id -> qualified name of context
        s.fieldcls = {}    # field id -> (Cls, node)
        s.vars = {}
        s.lambdas = {}
        dec = json.JSONDecoder(); i = 0; n = len(text); docs = []
        while True:
            while i < n and text[i] != '{':
                j = text.find('{', i)
                if j < 0: i = n; break
                i = j
            if i >= n: break
            d, i = dec.raw_decode(text, i); docs.append(d)
        s.docs = docs; s.tmpl = {}; s.partial = {}
        for d in docs:
            s._locs(d)
        for d in docs:
            s._index_ids(d)
        for d in docs:
            pid = d.get('parentDeclContextId')
            s._walk(d, s._ctx(pid), s._ctxcls(pid))
        s._link()

    def _ctx(s, pid):
        return s.qn.get(pid, 'cli')
    def _ctxcls(s, pid):
        return s.clsbyid.get(pid)

    def _locs(s, d):
        st = {'file': None, 'line': None}
        def upd(l):
            if not isinstance(l, dict): return None
            for k in ('spellingLoc', 'expansionLoc'):
                if k in l:
                    upd(l[k]);
            if 'file' in l: st['file'] = l['file']
            if 'line' in l: st['line'] = l['line']
            return (st['file'], st['line'])
        stack = [d]
        def rec(n):
            if 'loc' in n: upd(n['loc'])
            r = n.get('range')
            if r:
                p = upd(r.get('begin', {})); n['_loc'] = p
                upd(r.get('end', {}))
            for c in n.get('inner', ()):
                if isinstance(c, dict): rec(c)
        rec(d)

    def _index_ids(s, d):
        stack = [d]
        while stack:
            n = stack.pop()
            if 'id' in n and 'kind' in n and n['kind'].endswith('Decl'):
                o = s.byid.get(n['id'])
                if o is None or len(n) > len(o): s.byid[n['id']] = n
                if n['kind'] == 'ClassTemplatePartialSpecializationDecl':
                    pat = [c for c in n.get('inner', ()) if c.get('kind') == 'TemplateArgument']
                    if '_loc' in n: s.partial[n['_loc']] = s._tparams(n)
            stack.extend(c for c in n.get('inner', ()) if isinstance(c, dict))

    def _tparams(s, n):
        return [(c.get('name'), bool(c.get('isParameterPack'))) for c in n.get('inner', ()) if c.get('kind') in ('TemplateTypeParmDecl', 'NonTypeTemplateParmDecl', 'TemplateTemplateParmDecl')]
    def _packs(s, n, ta):
        """sizes of the parameter packs of a class template specialisation"""
        ps = s.partial.get(n.get('_loc'))                      # instantiated from a partial specialisation (same source position)
        if ps is None:
            t = s.tmpl.get(n['id'])
            if t is None: return {}
            ps = s._tparams(t)
        packs = [x for x, p in ps if p]
        return {packs[0]: len(ta) - (len(ps) - 1)} if len(packs) == 1 and len(ta) >= len(ps) - 1 else {}
    def _walk(s, n, ctx, cls):
        k = n.get('kind')
        if k == 'NamespaceDecl':
            q = 'cli' if n.get('name') == 'cli' else f"{ctx}::{n.get('name','')}" if n.get('name') else ctx
            if n.get('name') == 'cli': q = 'cli'
            s.qn[n['id']] = q
            for c in n.get('inner', ()): s._walk(c, q, None)
        elif k in CLASSES:
            ta = targs(n) if k != 'CXXRecordDecl' else []
            nm = n.get('name') or ('lambda@' + n['id'])
            q = f'{ctx}::{nm}' + (f"<{', '.join(ta)}>" if ta else '')
            s.qn[n['id']] = q
            if k == 'ClassTemplatePartialSpecializationDecl': pass
            if n.get('completeDefinition') or any(c.get('kind') == 'FieldDecl' for c in n.get('inner', ())):
                c = s.clsbyid.get(n['id'])
                if c is None:
                    c = Cls(n, q); s.clsbyid[n['id']] = c
                    if ta: c.packs = s._packs(n, ta)
                    s.classes.setdefault(q, c)
                me = c; acc = 'private' if n.get('tagUsed') == 'class' else 'public'
                for x in n.get('inner', ()):
                    if x.get('kind') == 'AccessSpecDecl': acc = x.get('access')
                    elif 'id' in x: s.access[x['id']] = acc
                    if x.get('kind') == 'FieldDecl':
                        me.fields.append(x); s.fieldcls[x['id']] = me
                    s._walk(x, q, me)
            else:
                for x in n.get('inner', ()): s._walk(x, q, None)
        elif k in FUNCS:
            s._func(n, ctx, cls)
        elif k in ('ClassTemplateDecl', 'FunctionTemplateDecl', 'LinkageSpecDecl', 'ExportDecl'):
            for c in n.get('inner', ()):
                if c.get('kind') in CLASSES + FUNCS: s.tmpl.setdefault(c.get('id'), n)
            for c in n.get('inner', ()): 
                if c.get('kind', '').startswith('TemplateTypeParm') or c.get('kind', '').startswith('NonTypeTemplate'): continue
                s._walk(c, ctx, cls)
        elif k == 'EnumDecl':
            s._enum(n, ctx)
        elif k == 'VarDecl':
            s.vars[n['id']] = (n, ctx)
        elif k in ('FieldDecl',):
            # lambdas in default member initialisers
            s._scan_nested(n, ctx)
        elif k == 'FriendDecl':
            pass

    def _enum(s, n, ctx):
        vals = {}; cur = -1
        for c in n.get('inner', ()):
            if c.get('kind') == 'EnumConstantDecl':
                v = None
                for x in c.get('inner', ()): v = _const_value(x) if v is None else v
                if v is None and any(str(x.get('kind', '')).endswith('Expr') or 'Literal' in str(x.get('kind', '')) or 'Operator' in str(x.get('kind', '')) for x in c.get('inner', ())): raise SyntaxError(f'enumerator {c["name"]}: value not understood')
                cur = cur + 1 if v is None else v
                vals[c['name']] = cur; s.enumconst[c['id']] = cur
        nm = n.get('name') or '(anonymous)'
        s.enums[f'{ctx}::{nm}'] = vals

    def _func(s, n, ctx, cls):
        pid = n.get('parentDeclContextId')
        if pid and pid in s.qn: ctx = s.qn[pid]; cls = s.clsbyid.get(pid) or cls
        elif n.get('previousDecl') and n['previousDecl'] in s.qn:
            ctx = s.qn[n['previousDecl']].rsplit('::', 1)[0]
            pf = s.funcs.get(n['previousDecl'])
            if pf: cls = pf.cls
        q = f"{ctx}::{n.get('name', '')}"
        s.qn[n['id']] = q
        f = Func(n, q, cls)
        old = s.funcs.get(n['id'])
        if old is not None and (old.body is not None or f.body is None): return
        s.funcs[n['id']] = f
        s.byname.setdefault(q, []).append(f)
        if cls is not None and f.node.get('previousDecl') is None: cls.methods.append(f)
        s._scan_nested(n, q)

    def _scan_nested(s, n, q):
        # lambdas and local classes
        stack = [c for c in n.get('inner', ()) if isinstance(c, dict)]
        while stack:
            c = stack.pop()
            k = c.get('kind')
            if k == 'LambdaExpr':
                rec = c['inner'][0]
                s._walk(rec, q, None)
                # captures initialisers may contain lambdas
                stack.extend(x for x in c['inner'][1:] if isinstance(x, dict) and x.get('kind') != 'CompoundStmt')
                continue
            if k in CLASSES: s._walk(c, q, None); continue
            if k == 'EnumDecl': s._enum(c, q)
            stack.extend(x for x in c.get('inner', ()) if isinstance(x, dict))

    def _link(s):
        # definition of every declaration
        groups = {}
        for f in s.funcs.values():
            root = f.id; p = f.node.get('previousDecl')
            seen = set()
            while p and p in s.funcs and p not in seen:
                seen.add(p); root = p; p = s.funcs[p].node.get('previousDecl')
            if p and p not in s.funcs: root = p
            groups.setdefault(root, []).append(f)
        for root, fs in groups.items():
            d = next((f for f in fs if f.body is not None), None) or fs[0]
            s.canon[root] = d
            for f in fs: s.canon[f.id] = d
            for f in fs:
                if f.cls and not d.cls: d.cls = f.cls
                if f.virtual: d.virtual = True
                if f.node.get('storageClass') == 'static': d.static = True
                if f.node.get('inline'): pass
        for f in s.funcs.values():
            if f.cls is not None and f.node.get('storageClass') != 'static': f.static = False

    def fn(s, qname, pick=None, required=True):
        fs = []
        for f in s.byname.get(qname, []):
            d = s.canon.get(f.id, f)
            if d.body is None: continue
            if d not in fs: fs.append(d)
        # drop template patterns (dependent): a pattern's own node sits first in a FunctionTemplateDecl
        if pick: fs = [f for f in fs if pick(f)]
        if not fs:
            if required: raise FrontendError(f'no definition of {qname} in /repo')
            return None
        return fs[0]

    def fns(s, qname):
        out = []
        for f in s.byname.get(qname, []):
            d = s.canon.get(f.id, f)
            if d.body is not None and d not in out: out.append(d)
        return out

def is_dependent(f):
    """body of an uninstantiated template"""
    stack = [f.node]
    while stack:
        n = stack.pop()
        t = (n.get('type') or {}).get('qualType', '')
        if '<dependent type>' in t or n.get('kind') in ('CXXDependentScopeMemberExpr', 'UnresolvedLookupExpr', 'CXXUnresolvedConstructExpr', 'DependentScopeDeclRefExpr'): return True
        stack.extend(c for c in n.get('inner', ()) if isinstance(c, dict))
    return False

_cache = {}
def load(tu='core.cpp', text=None):
    path = tu if os.path.isabs(tu) else os.path.join(VERIF, 'cxv', 'tu', tu)
    if path in _cache: return _cache[path]
    p = Program(dump(path) if text is None else text)
    _cache[path] = p
    return p
