"""C++ types as the engine sees them (parsed from clang's canonical type strings)."""
import re
import z3
from .logic import I, B, Str, SS

class T:
    __slots__ = ('k', 'a', 'name')
    def __init__(s, k, a=(), name=''): s.k, s.a, s.name = k, a, name
    def __repr__(s): return f'{s.k}{list(s.a) if s.a else ""}{":" + s.name if s.name else ""}'
    def __eq__(s, o): return isinstance(o, T) and (s.k, s.a, s.name) == (o.k, o.a, o.name)
    def __hash__(s): return hash((s.k, s.a, s.name))

INTS = {'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False), 'short': (16, True),
        'unsigned short': (16, False), 'int': (32, True), 'unsigned int': (32, False), 'long': (64, True),
        'unsigned long': (64, False), 'long long': (64, True), 'unsigned long long': (64, False),
        'wchar_t': (32, True), 'short int': (16, True), 'long int': (64, True), 'unsigned': (32, False),
        'size_t': (64, False), 'std::size_t': (64, False), 'size_type': (64, False), 'difference_type': (64, True),
        'std::streamsize': (64, True), 'streamsize': (64, True), 'ptrdiff_t': (64, True), '__int128': (128, True), 'unsigned __int128': (128, False)}

VOID = T('void'); BOOL = T('bool'); STRT = T('str'); INT = T('int', (32, True)); CHAR = T('int', (8, True)); SIZE = T('int', (64, False))

_cache = {}
def parse(s, prog=None):
    key = s
    if key in _cache: return _cache[key]
    r = _cache[key] = _parse(s, prog)
    return r

def split_args(s):
    out = []; d = 0; cur = ''
    for ch in s:
        if ch in '<([': d += 1
        elif ch in '>)]': d -= 1
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

def _strip_cv(s):
    s = s.strip()
    while True:
        o = s
        for p in ('const ', 'volatile ', 'struct ', 'class ', 'enum ', 'typename '):
            if s.startswith(p): s = s[len(p):].strip()
        for p in (' const', ' volatile', ' noexcept'):
            if s.endswith(p): s = s[:-len(p)].strip()
        if s.endswith(('*const', '&const')): s = s[:-5]
        if s.endswith(('*__restrict', '*restrict')): s = s[:s.rindex('*') + 1]
        if o == s: return s

SMART = ('shared_ptr', 'unique_ptr', 'weak_ptr', '__shared_ptr', '__shared_ptr_access', '__weak_ptr')
SEQS = ('vector', 'deque', 'initializer_list', 'queue')
STREAMS = ('basic_ostream', 'ostream', 'basic_istream', 'istream', 'basic_ofstream', 'ofstream', 'basic_ifstream', 'ifstream',
           'basic_stringstream', 'stringstream', 'basic_iostream', 'basic_ostringstream', 'ostringstream', 'basic_istringstream', 'istringstream')

def _parse(s, prog):
    s = _strip_cv(s)
    if s.endswith('&&'): return T('ref', (parse(s[:-2], prog),))
    if s.endswith('&'): return T('ref', (parse(s[:-1], prog),))
    if s.endswith('*'):
        inner = s[:-1]
        return T('ptr', (parse(inner, prog),))
    s = re.sub(r'^::', '', s)
    if s.endswith('::element_type'):
        r = parse(s[:-len('::element_type')], prog)
        if r.k == 'sp': return r.a[0]
    if s in INTS: return T('int', INTS[s])
    if s == 'fd_set': return T('fdset')
    if s == 'termios': return T('pod', (), s)         # a C record of integers: a value
    if s == 'bool' or s == '_Bool': return BOOL
    if s == 'void': return VOID
    if s in ('float', 'double', 'long double'): return T('float', (), s)
    if s in ('std::nullptr_t', 'nullptr_t'): return T('ptr', (VOID,))
    m = re.match(r'^(.*)\[(\d+)\]$', s)
    if m: return T('arr', (parse(m.group(1), prog), int(m.group(2))))
    if s.startswith('(lambda at') or '(lambda at' in s and s.endswith(')') and '<' not in s: return T('lambda', (), s)
    m = re.match(r'^([\w:~ ]+?)\s*<(.*)>$', s, re.S)
    if m and s.count('<') :
        head, args = m.group(1), split_args(m.group(2))
        base = head.split('::')[-1]
        if head.startswith('cli::') or (prog and _known_cls(prog, s)): return T('cls', (), s)
        if base in ('basic_string', '__cxx11::basic_string'): return STRT
        if base in SEQS: return T('vec', (parse(args[0], prog),), base)
        if base == 'pair': return T('pair', (parse(args[0], prog), parse(args[1], prog)))
        if base in SMART: return T('sp', (parse(args[0], prog),), base)
        if base == 'function': return T('fn', (), args[0])
        if base in STREAMS: return T('stream', (), base)
        if base == '__normal_iterator':
            p = args[0]
            e = parse(re.sub(r'\*(const)?$', '', _strip_cv(p)).strip(), prog)
            return T('iter', (e,))
        if base in ('buffers_iterator', 'boost::asio::buffers_iterator', 'asio::buffers_iterator'): return T('iter', (parse('char', prog),))
        if base == '_Deque_iterator': return T('iter', (parse(args[0], prog),))
        if base == 'move_iterator': return T('miter', (parse(args[0], prog),))
        if base == 'reverse_iterator': return T('riter', (parse(args[0], prog),))
        if base in ('lock_guard', 'unique_lock', 'scoped_lock'): return T('lock', (), base)
        if base in ('allocator',): return T('opaque', (), base)
        return T('opaque', (), s)
    base = s.split('::')[-1]
    if s in ('std::string', 'string', 'std::basic_string'): return STRT
    if base in ('ostream', 'istream', 'ofstream', 'ifstream', 'stringstream') and s.startswith('std'): return T('stream', (), base)
    if s in ('std::mutex',): return T('mutex')
    if s in ('std::condition_variable',): return T('condvar')
    if base == '__streambuf_type' or base == 'streambuf': return T('opaque', (), 'streambuf')
    if prog is not None:
        if _known_enum(prog, s): return T('enum', (), _known_enum(prog, s))
        c = _known_cls(prog, s)
        if c: return T('cls', (), c)
    return T('opaque', (), s)

def _known_enum(prog, s):
    if s in prog.enums: return s
    c = [q for q in prog.enums if q.endswith('::' + s)]
    return c[0] if len(c) == 1 else None
def _known_cls(prog, s):
    if s in prog.classes: return s
    c = [q for q in prog.classes if q.endswith('::' + s)]
    if len(c) == 1: return c[0]
    return s if s.startswith('cli::') else None

FDS = z3.ArraySort(z3.IntSort(), z3.BoolSort())
PODS = z3.ArraySort(I, I)
def sort_of(t):
    if t.k == 'bool': return B
    if t.k == 'str': return Str
    if t.k == 'vec': return SS if t.a[0].k == 'str' else Str
    if t.k in ('int', 'enum', 'ptr', 'sp', 'cls', 'fn', 'stream', 'opaque', 'mutex', 'condvar', 'lambda', 'ref', 'lock', 'float'): return I
    if t.k == 'fdset': return FDS
    if t.k == 'pod': return PODS
    return None

def rng(t):
    """value range of an integer type"""
    if t.k == 'int':
        bits, sg = t.a
        return (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
    return None
