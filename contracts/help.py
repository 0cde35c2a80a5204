"""C21: what the help command lists.

HelpT(c): the text one entry prints about itself while it is enabled.  The interface contract of cli::Command::Help is that
exactly this text is printed if the entry is enabled and nothing otherwise; every class of the library proves it for its
own definition of the text.  List(v, k): the texts of the enabled ones among the first k entries of v, in order.
"""
from cxv.verify import *
from cxv import logic as L
from contracts import dispatch
from contracts.dispatch import CMD, MENU, SES, SHAPES, decay, vec_t
from contracts.feed import same_state, log_in

STR = L.STR
HelpT = Function('help_text', I, Str)                    # of the entry
List = Function('help_list', Str, I, ArraySort(I, B), Str)   # of the first k entries, given which are enabled
ParT = Function('par_text', SS, I, Str)                  # of the first k parameter names
def en(e): return e.harr((CMD, 'enabled'), B)
def shown(e, c): return [(Not(Select(en(e), c)), STR.Emp), (Select(en(e), c), HelpT(c))]
def seq2(a, b): return [(And(x, y), cat(t, u)) for x, t in a for y, u in b]
def menu_text(e, m):
    """what a menu lists about what is in it, by cases"""
    p = e.fval('parent', m, MENU); on = e.fval('enabled', m, CMD); v = entries(e, m)
    return [(Not(on), STR.Emp), (And(on, p == 0), listing(e, v))] + [(And(on, p != 0, g), cat(listing(e, v), t)) for g, t in shown(e, p)]
def DefList(v, k, a):
    x = L.th(v).At(v, k); on = Select(a, x)
    return And(Implies(on, List(v, k + 1, a) == cat(List(v, k, a), HelpT(x))), Implies(Not(on), List(v, k + 1, a) == List(v, k, a)))
def DefPar(v, k): return ParT(v, k + 1) == cat(ParT(v, k), lit(b' <'), at(v, k), lit(b'>'))
def entries(e, m): return e.val(LField(('*', repr(vec_t(e))), e.fval('cmds', m, MENU), vec_t(e)))
def listing(e, v): return List(v, slen(v), en(e))

class HSpec(Spec):
    """prints text(c), changes nothing but the output"""
    def out(s, c): return c.arg(0)
    def frame(s, c): return [('log', s.out(c))]
    def setup(s, c):
        m, j = Int('m!'), Int('j!')
        for g in dispatch.wf_axiom(c.e): c.e.assume(g)
    def post(s, c): return [(f'{s.what} ({i + 1})', Implies(g, eq(c.log(s.out(c)), cat(c.olog(s.out(c)), t)))) for i, (g, t) in enumerate(s.text(c))]
class CommandHelp(HSpec):
    qname = CMD + '::Help'
    what = 'an enabled entry prints its text, a disabled one nothing'
    def text(s, c): return shown(c.e, c.this)
class MenuHelp(CommandHelp):
    """implements Command::Help"""
    qname = MENU + '::Help'
    def lemma(s, c):
        c.e.assume(HelpT(c.this) == cat(lit(b' - '), c.F('name', c.this, CMD), lit(b'\n\t'), c.F('description'), lit(b'\n')))
class LeafHelp(CommandHelp):
    """implements Command::Help"""
    params = ()
    def lemma(s, c):
        v = c.F('parameterDesc'); ty = cat(STR.Emp, *[lit(b' ' + x) for x in s.params]) if s.params else STR.Emp
        for g, p in ((slen(v) == 0, ty), (slen(v) != 0, ParT(v, slen(v)))):
            c.e.assume(Implies(g, HelpT(c.this) == cat(lit(b' - '), c.F('name', c.this, CMD), p, lit(b'\n\t'), c.F('description'), lit(b'\n'))))
        c.e.assume(ParT(v, IntVal(0)) == STR.Emp)
NAMES = {'char': '<char>', 'unsigned char': '<unsigned char>', 'signed char': '<signed char>', 'short': '<short>', 'unsigned short': '<unsigned short>', 'int': '<int>', 'unsigned int': '<unsigned int>',
         'long': '<long>', 'unsigned long': '<unsigned long>', 'long long': '<long long>', 'unsigned long long': '<unsigned long long>', 'float': '<float>', 'double': '<double>', 'long double': '<long double>',
         'bool': '<bool>', 'std::basic_string<char>': '<string>'}
class MainHelp(HSpec):
    qname = MENU + '::MainHelp'
    what = 'the enabled entries in order, then the enabled parent; nothing if the menu is disabled'
    def text(s, c): return menu_text(c.e, c.this)
    def lemma(s, c): c.e.assume(List(entries(c.e, c.this), IntVal(0), en(c.e)) == STR.Emp)
class SessionHelp(HSpec):
    qname = SES + '::Help'
    what = 'a heading, the enabled global commands, the enabled entries of the current menu in order, its enabled parent'
    def out(s, c): return c.R('out')
    def pre(s, c): return [('the session has a current menu', c.F('current') != 0), ('the session has global commands', c.F('globalScopeMenu') != 0)]
    def text(s, c): return [(And(x, y), cat(lit(b'Commands available:\n'), t, u)) for x, t in menu_text(c.e, c.F('globalScopeMenu')) for y, u in menu_text(c.e, c.F('current'))]

def loop(e, n, entry, mods, rangelv, idx):
    c0 = getattr(e, 'unitctx', None)
    if c0 is None or not isinstance(c0.spec, HSpec): return []
    rangelv = e.loop_range(n, entry, mods, rangelv)
    if rangelv is None: return []
    sp = c0.spec; out = sp.out(c0); cur = e.st; e.st = entry; base = e.log_of(out); e.st = cur
    def f(lc):
        v = e.val(rangelv)
        if isinstance(sp, MainHelp):
            a = en(e)
            lc.hints.append(List(v, IntVal(0), a) == STR.Emp)
            if lc.prev is not None: lc.hints.append(DefList(v, lc.prev.k, a))
            return eq(e.log_of(out), cat(base, List(v, lc.k, a)))
        lc.hints.append(ParT(v, IntVal(0)) == STR.Emp)
        if lc.prev is not None: lc.hints.append(DefPar(v, lc.prev.k))
        return eq(e.log_of(out), cat(base, ParT(v, lc.k)))
    return [('printed so far', f)]

specs = dict(cmd=CommandHelp(), menu=MenuHelp(), main=MainHelp(), session=SessionHelp())
OPTS = dict(dispatch.OPTS)
units = [FnUnit(specs['menu'], [], dict(OPTS)), FnUnit(specs['main'], [specs['cmd'], specs['menu']], dict(OPTS), loops=[loop]), FnUnit(specs['session'], [specs['main']], dict(OPTS))]
for sh in SHAPES:
    cl = f'cli::VariadicFunctionCommand<{", ".join(sh)}>'
    units.append(FnUnit(LeafHelp(qname=cl + '::Help', params=tuple(NAMES[decay(t)].encode() for t in sh[1:]), name='command(' + ', '.join(sh[:1] if '*' not in sh[0] else ('function pointer',)) + ')::Help'), [], dict(OPTS), loops=[loop]))
for h in ('H_free', 'H_free_val'):
    units.append(FnUnit(LeafHelp(qname=f'cli::FreeformCommand<{h}>::Help', params=(b'<list of strings>',), name=f'list command({h})::Help'), [], dict(OPTS), loops=[loop]))
class TypeName(Spec):
    """the name help shows for a parameter type"""
    qname = 'cli::TypeDesc::Name'; text = b''
    def post(s, c):
        return [('the documented name of the type', BoolVal(isinstance(c.ret, CStrV) and c.ret.b == s.text))]
for t, x in list(NAMES.items()) + [('std::vector<std::basic_string<char>>', '<list of strings>')]:
    units.append(FnUnit(TypeName(qname=f'cli::TypeDesc<{t}>::Name', text=x.encode(), name=f'type name {x}')))
