"""P19 / P26: effects reachable from the public interface, over the call graph of the whole library."""
import sys
from common import *
from callgraph import Graph

NONREENTRANT = set('''strtok rand srand drand48 lrand48 srand48 random srandom localtime gmtime asctime ctime strerror setlocale setenv putenv unsetenv clearenv
 tmpnam tempnam getpwnam getpwuid getgrnam getgrgid gethostbyname readdir chdir fchdir umask signal setjmp longjmp mblen mbtowc wctomb mbrlen strsignal basename dirname
 getopt hcreate hsearch l64a ecvt fcvt gcvt crypt ttyname getlogin inet_ntoa nl_langinfo localeconv alarm uselocale rewinddir lgamma'''.split())

# numeric conversions that follow the process locale
LOCALE = set('''strtod strtof strtold atof wcstod wcstof wcstold __isoc23_strtod __isoc99_sscanf sscanf __isoc23_sscanf vsscanf __isoc99_vsscanf fscanf
 localeconv strtod_internal __strtod_internal'''.split())
PRINTF = dict(printf=0, fprintf=1, sprintf=1, snprintf=2, vsnprintf=2, vsprintf=1, dprintf=1, asprintf=1, vasprintf=1, __sprintf_chk=3, __snprintf_chk=4)
ISCLASS = set('isdigit isspace isalpha isalnum isxdigit iscntrl isprint isupper islower ispunct isgraph toupper tolower __ctype_b_loc __ctype_tolower_loc __ctype_toupper_loc'.split())
STDLOC = ('std::locale', 'std::basic_ostream<char, std::char_traits<char> >& std::basic_ostream', 'std::ostream::operator<<(double)', 'std::istream::operator>>(double&)',
          'std::ostream& std::ostream::_M_insert<double>', 'std::istream& std::istream::_M_extract<double>')


def roots(g):
    r = [n for n in g.F if n.startswith('api_') and not g.F[n]['decl']]
    if len(r) < 40:
        raise AnalysisBroken('public interface roots missing: %d' % len(r))
    return r


def in_repo(g, name):
    x = g.G[name]
    f = rel(x.get('file', ''))
    return f.startswith('Code/') or 'C4::' in x['dem'] or 'Terathon::' in x['dem']


def succs(i):
    return i.get('t', []) + [x[1] for x in i.get('cases', [])] + ([i['def']] if 'def' in i else []) + ([i['n'], i['u']] if i['op'] == 'invoke' else [])


def guarded_blocks(f):
    """blocks that run only while a function-local static is being initialised (all paths go through a successful guard acquire)"""
    acq = {i['d'] for b in f['blocks'] for i in b if i['op'] in ('call', 'invoke') and i['fn'][0] == 'g' and i['fn'][1] == '__cxa_guard_acquire'}
    if not acq:
        return set()
    cmps = {i['d']: i['p'] for b in f['blocks'] for i in b if i['op'] == 'icmp' and any(o[0] == 'v' and o[1] in acq for o in i['a'])}
    cut = set()
    for k, b in enumerate(f['blocks']):
        t = b[-1]
        if t['op'] == 'br' and len(t['t']) == 2 and t['a'][0][0] == 'v' and t['a'][0][1] in cmps:
            cut.add((k, t['t'][0] if cmps[t['a'][0][1]] == 'ne' else t['t'][1]))
    seen, st = {0}, [0]
    while st:
        k = st.pop()
        for n in succs(f['blocks'][k][-1]):
            if (k, n) not in cut and n not in seen:
                seen.add(n)
                st.append(n)
    return set(range(len(f['blocks']))) - seen


def check19():
    c = Check('P19')
    m = module(['api.cpp'])
    g = Graph(m)
    rs = roots(g)
    pred = g.reach(rs)
    lib = [n for n in pred if not g.F[n]['decl']]
    nacc = 0
    writable = {n for n, x in g.G.items() if not x['const'] and not x['decl'] and in_repo(g, n) and not n.startswith('_ZGV')}
    sites = 0
    writes = {}
    reads = {}
    for n in lib:
        f = g.F[n]
        gb = guarded_blocks(f)
        derived = {}

        def base(o):
            if o[0] == 'g' and o[1] in writable:
                return o[1]
            if o[0] == 'v':
                return derived.get(o[1])
            return None
        changed = True
        while changed:
            changed = False
            for b in f['blocks']:
                for i in b:
                    if 'd' in i and i['op'] in ('getelementptr', 'bitcast', 'phi', 'select', 'inttoptr', 'ptrtoint', 'addrspacecast'):
                        ops = [x[1] for x in i['in']] if i['op'] == 'phi' else i.get('a', [])
                        for o in ops:
                            x = base(o)
                            if x and derived.get(i['d']) != x and i['d'] not in derived:
                                derived[i['d']] = x
                                changed = True
        for bn, b in enumerate(f['blocks']):
            guard = bn in gb
            for i in b:
                op = i['op']
                if op == 'load':
                    x = base(i['a'][0])
                    if x:
                        reads.setdefault(x, []).append((n, i))
                elif op == 'store':
                    sites += 1
                    for k, o in enumerate(i['a']):
                        x = base(o)
                        if x:
                            writes.setdefault(x, []).append((n, i, guard))
                elif op in ('call', 'invoke', 'atomicrmw', 'cmpxchg', 'insertvalue', 'ret'):
                    for o in i.get('a', []):
                        x = base(o)
                        if x:
                            writes.setdefault(x, []).append((n, i, guard))
    for x, l in sorted(writes.items()):
        un = [w for w in l if not w[2]]
        if not un:
            continue
        n, i, _ = un[0]
        # an address handed to a call counts only if the object is also written or has no constant type
        c.violation('global|' + g.G[x]['dem'], 'P19: shared mutable object %s (%s:%s) is written or handed out at %s:%s in %s, reached: %s' % (
            g.G[x]['dem'], rel(g.G[x].get('file', '')), g.G[x].get('line'), rel(i.get('f', '')), i.get('l'), g.F[n]['dem'], g.path(pred, n)))
    calls = 0
    for n in lib:
        for i, cs in g.calls[n]:
            calls += 1
            for k in cs:
                if k in NONREENTRANT and g.F[k]['decl']:
                    c.violation('call|' + k, 'P19: non-reentrant %s called at %s:%s in %s, reached: %s' % (k, rel(i.get('f', '')), i.get('l'), g.F[n]['dem'], g.path(pred, n)))
    if len(lib) < 200 or calls < 500:
        raise AnalysisBroken('call graph too small: %d functions, %d calls' % (len(lib), calls))
    c.coverage.update(roots=len(rs), functions=len(lib), call_sites=calls, stores=sites, writable_globals=sorted(writable))
    c.assumptions = ['the C and C++ standard libraries are thread-safe where POSIX and ISO C++ say so', 'indirect calls reach only address-taken functions of the same arity']
    c.finish('Rule: no function reachable from the public interface writes (or hands out for writing) a non-constant object of static or thread storage, or calls a non-reentrant C function. Every store and call site of every reachable function was classified.')


def check26():
    c = Check('P26')
    m = module(['api.cpp'])
    g = Graph(m)
    rs = roots(g)
    calls = 0
    fam = {}
    for r in rs:
        kind = 'parse' if r.startswith('api_parse') else 'write' if r == 'api_write' else 'text' if r in ('api_status_text', 'api_result_text') else 'other'
        fam.setdefault(kind, []).append(r)
    for kind, rr in fam.items():
        pred = g.reach(rr)
        for n in pred:
            if g.F[n]['decl']:
                continue
            for i, cs in g.calls[n]:
                calls += 1
                if i['fn'][0] != 'g':
                    continue
                k = i['fn'][1]
                d = g.F[k]['dem'] if k in g.F else k
                bad = None
                if k in LOCALE or k in ISCLASS:
                    bad = k
                elif k in PRINTF:
                    a = i['a'][PRINTF[k]] if PRINTF[k] < len(i['a']) else None
                    s = g.cstr(a[1], a[2]) if a and a[0] == 'g' else None
                    if s is None or any(ch in s for ch in 'fFgGeEaA' if '%' in s):
                        import re
                        if s is None or re.search(r"%[-+ #0'I]*[\d*]*(\.[\d*]*)?[hlLqjzt]*[fFgGeEaA]", s):
                            bad = 'printf of a number'
                elif any(d.startswith(x) for x in STDLOC) and ('double' in d or 'locale' in d):
                    bad = d
                if bad:
                    c.violation('%s|%s' % (bad, kind), 'P26: locale-dependent %s used while %s: %s:%s in %s, reached: %s' % (
                        bad, {'parse': 'parsing', 'write': 'writing', 'text': 'making a message'}.get(kind, 'converting'), rel(i.get('f', '')), i.get('l'), g.F[n]['dem'], g.path(pred, n)))
    if calls < 500:
        raise AnalysisBroken('call graph too small')
    c.coverage.update(roots=len(rs), call_sites=calls)
    c.finish('Rule: no call of a function whose numeric conversion or character classification follows the process locale is reachable from the public interface; format strings are resolved to their constants.')


if __name__ == '__main__':
    (check19 if sys.argv[1] == 'P19' else check26)()
