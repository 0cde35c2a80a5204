#!/usr/bin/env python3
"""Single-token mutants of the library; which of them no contract rejects?  automut.py FILE [--sample N] [--jobs J]
Each mutant that compiles goes through the contract modules of its file; a mutant is killed by a failed obligation.
Not killed: 'bounded' (some unit left the verifier's reach: the drivers would decide) or 'survived' (look at it)."""
import sys, os, re, random, subprocess, shutil, json
from concurrent.futures import ThreadPoolExecutor
MODS = {'detail/split.h': 'tokenize', 'detail/fromstring.h': 'convert', 'detail/history.h': 'history', 'filehistorystorage.h': 'storage', 'volatilehistorystorage.h': 'storage',
 'detail/terminal.h': 'terminal', 'detail/commandprocessor.h': 'processor', 'detail/commonprefix.h': 'processor', 'detail/genericasioremotecli.h': 'telnet keys ends server', 'detail/server.h': 'telnet ends server',
 'detail/linuxkeyboard.h': 'keys', 'detail/inputdevice.h': 'keys processor', 'loopscheduler.h': 'scheduler', 'detail/genericasioscheduler.h': 'server', 'clifilesession.h': 'filesession',
 'clilocalsession.h': 'ends', 'detail/genericcliasyncsession.h': 'ends', 'detail/telnetscreen.h': 'terminal processor', 'cli.h': 'menu dispatch help complete feed session outstream storage confine'}
def mutants(src):
    lines = src.split('\n'); incom = False
    for i, l in enumerate(lines):
        t = l.strip()
        if incom:
            if '*/' in t: incom = False
            continue
        if t.startswith('/*'): incom = '*/' not in t; continue
        if not t or t.startswith(('//', '#', '*', 'using ', 'namespace', 'template', 'class ', 'struct ', 'public', 'private', 'protected', 'enum', 'friend', 'assert', 'static_assert', '{', '}')) and not t.startswith('} '): continue
        code = l.split('//')[0]
        for pat, rep in [(r'(?<![<>=\-])<=', '<'), (r'(?<![<>=\-])>=', '>'), (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'), (r'\+\+', '--'), (r'(?<!-)--(?!-)', '++'), (r' < ', ' <= '), (r' > ', ' >= '),
                         (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r' \+ 1\b', ''), (r' ?- ?1\b', ''), (r'\+1\b', ''), (r'(?<=[( ])!(?=[\w(])', ''), (r"'[^'\\]'", "'~'"), (r"'\\.'", "'~'"), (r'\\n', ''), (r'(?<![\w.\'"x])(\d+)(?![\w.\'"])', lambda m: str(int(m.group(1)) + 1)),
                         (r'\.begin\(\)', '.end()'), (r'\.front\(\)', '.back()'), (r'\.size\(\)', '.size()+1'), (r'\bcontinue;', ';'), (r'\bbreak;', ';'), (r'push_back|push_front|emplace_front', lambda m: {'push_back': 'push_front', 'push_front': 'push_back', 'emplace_front': 'emplace_back'}[m.group(0)]), (r'(?<!const )\bauto&', 'auto')]:
            for m in re.finditer(pat, code):
                r = rep(m) if callable(rep) else rep
                n = l[:m.start()] + r + l[m.end():]
                if n != l: yield i, n
        m = re.match(r'^(\s*)(?:else )?if\s*\((.*)\)(.*)$', code)
        if m and code.count('(') == code.count(')') and 'constexpr' not in code:
            k = code.index('(') ; d = 0
            for j in range(k, len(code)):
                d += {'(': 1, ')': -1}.get(code[j], 0)
                if d == 0: break
            yield i, l[:k] + '(true)' + l[j + 1:]
            yield i, l[:k] + '(false)' + l[j + 1:]
        if re.match(r'^\s+[\w:\->.\[\]*()]+.*;\s*$', code) and not re.match(r'^\s*(return|break|continue|const |auto |std::\w+(<.*>)? \w+|int |bool |char |std::size_t |virtual|explicit|static|throw|case|Menu\*|termios|T |typename|using)', code) and '{' not in code and ('=' in code or '(' in code or '++' in code or '--' in code) and 'default;' not in code and 'delete;' not in code and not re.search(r'\) (const )?(override|noexcept)', code):
            yield i, '/* deleted */;' if t.startswith(('else',)) else re.sub(r'\S.*', ';', l)
        m = re.match(r'^(\s*return )(.+);\s*$', code)
        if m and m.group(2) in ('true', 'false', '{}'): pass
        elif m: yield i, m.group(1) + '{};'
def one(a):
    k, f, i, new, old, jobs = a
    d = f'/tmp/am/w{os.getpid()}_{k}'; shutil.copytree('/repo/include', d + '/include')
    try:
        p = f'{d}/include/cli/{f}'; ls = open(p).read().split('\n'); ls[i] = new; open(p, 'w').write('\n'.join(ls))
        if subprocess.run(['clang++', '-std=c++14', '-fsyntax-only', '-w', '-DBOOST_ASIO_DISABLE_VISIBILITY', f'-I{d}/include', '/verif/cxv/tu/core.cpp'], capture_output=True).returncode: return None
        kind, det = 'survived', ''
        for m in MODS[f].split():
            try: o = subprocess.run(['nice', 'python3-vt', 'tools/t.py', m, '-f'], cwd='/verif', env=dict(os.environ, CXV_REPO=d), capture_output=True, timeout=240, text=True).stdout
            except subprocess.TimeoutExpired: kind, det = 'bounded', m + ' timeout'; continue
            u = re.findall(r'^## (.*?): (\w+) (\d+)/(\d+) .*?(?:q=\d+)? (.*)$', o, re.M)
            if not u: kind, det = 'bounded', m + ' no units'; continue
            bad = [x for x in u if x[1] == 'ok' and x[2] != x[3]]; un = [x for x in u if x[1] != 'ok']
            if re.search(r'^ +FAIL .* failed ', o, re.M): return 'killed', i + 1, old.strip(), new.strip(), bad[0][0] if bad else ''
            if bad: kind, det = 'bounded', 'weak ' + bad[0][0]
            elif un: kind, det = 'bounded', un[0][0] + ' ' + un[0][4][-80:]
        return kind, i + 1, old.strip(), new.strip(), det
    finally: shutil.rmtree(d, ignore_errors=True)
def main():
    av = sys.argv[1:]; N = int(av[av.index('--sample') + 1]) if '--sample' in av else 10**9; J = int(av[av.index('--jobs') + 1]) if '--jobs' in av else 4
    rng = (0, 10**9)
    if '--lines' in av: rng = tuple(int(x) for x in av[av.index('--lines') + 1].split('-'))
    f = av[0]; src = open('/repo/include/cli/' + f).read(); ls = src.split('\n')
    ms = [(i, n) for i, n in dict.fromkeys(mutants(src)) if rng[0] <= i + 1 <= rng[1]]; random.Random(7).shuffle(ms); ms = ms[:N]
    tot = {}
    with ThreadPoolExecutor(J) as ex:
        for r in ex.map(one, [(k, f, i, n, ls[i], J) for k, (i, n) in enumerate(ms)]):
            c = r[0] if r else 'nocompile'; tot[c] = tot.get(c, 0) + 1
            if r and c != 'killed': print(f'{c} {f}:{r[1]}  {r[2]}  =>  {r[3]}   [{r[4]}]', flush=True)
    print(f, tot, flush=True)
main()
