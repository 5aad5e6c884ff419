"""P20: modification analysis.  A pointer into an object that has to stay as it is (the document, the caller's text, the source object) is followed
through the program; no store, release or mutating library call may be made through it."""
from common import *
from callgraph import Graph
from p19 import roots
from p25 import PASSES

READERS = {'strlen', 'memcmp', 'strcmp', 'strncmp', 'memchr', 'strchr', 'strstr', 'write', 'strtod', 'snprintf', 'printf', 'fwrite', 'bcmp', 'open', '__cxa_begin_catch', '__cxa_free_exception',
           '__cxa_throw', 'strtol', 'fputs', '__clang_call_terminate', '_ZSt9terminatev', 'open64', '__errno_location'}
DEST = {'memcpy': 0, 'memmove': 0, 'memset': 0, 'strcpy': 0, 'strcat': 0, 'read': 1, 'fread': 0, 'snprintf': 0, 'sprintf': 0, 'free': 0, 'realloc': 0, 'strncpy': 0, 'fstat': 1, 'stat': 1}
DELETE = ('_ZdlPv', '_ZdaPv')
ACCESS = ('begin(', 'end(', 'data(', 'c_str(', 'operator[](', 'at(', 'front(', 'back(', 'find(', 'lower_bound(', 'upper_bound(', 'rbegin(', 'rend(', 'size(', 'length(', 'empty(')


class Mod:
    def __init__(self, m, g):
        self.F, self.g = m['functions'], g
        self.memo = {}
        self.sites = {}
        self.ext = set()
        self.stores = 0

    def targets(self, i):
        fn = i['fn']
        if fn[0] == 'g':
            return {fn[1]}
        if fn[0] == 'v':
            return set(self.g.taken.get((len(i['a']), i.get('ty', 'v')), ()))
        return set()

    def analyse(self, root, ctx):
        """context: per argument 0 (free), 1 (points into the protected object), 2 (points to memory holding such a pointer)"""
        self.memo = {}
        self.late = False
        self.deadline = time.time() + (15 if os.environ.get('VERIF_TIER', 'quick') == 'quick' else 120)
        self.changed = True
        n = 0
        self.sites = {}
        while self.changed and n < 30:
            self.changed = False
            self.done = set()
            try:
                self.fn(root, ctx)
            except TimeoutError:
                self.late = True
                break
            n += 1
        return self.sites

    def fn(self, n, ctx):
        """ctx per argument: 0 (free), 1 (points into the protected object), or the offsets at which the memory it points to holds such a pointer"""
        key = (n, ctx)
        old = self.memo.setdefault(key, (0, frozenset()))
        if key in self.done:
            return self.memo[key]
        self.done.add(key)
        f = self.F[n]
        tv, hv = set(), set()           # derived registers; (root, offset) places that hold a derived pointer
        base = {}                       # register -> {(root, offset or '*')}
        pts = {}                        # place -> {place}: pointers to local memory kept in local memory

        def enter(root, shape):
            for o, x in shape:
                if x == 1:
                    hv.add((root, o))
                else:
                    sub = (root if isinstance(root, tuple) else (root,)) + (o,)
                    pts.setdefault((root, o), set()).add((sub, 0))
                    enter(sub, x)
        for k, x in enumerate(ctx):
            if x == 1:
                tv.add(k)
            elif x:
                enter(k, x)
        ret = 0

        def places(o):
            return base.get(o[1]) or {(o[1], 0)} if o[0] == 'v' else set()

        def rel_(k, h):
            return '*' if '*' in (k, h) else h - k if h >= k else None

        def shape(ps, depth=0, path=()):
            """what is held behind these places: offsets of derived pointers and of pointers to memory that holds some"""
            out = set()
            for r, k in ps:
                if r in path:
                    continue
                for h in hroot.get(r, ()):
                    if rel_(k, h) is not None:
                        out.add((rel_(k, h), 1))
                if depth < 2:
                    for h, t in proot.get(r, {}).items():
                        if rel_(k, h) is not None:
                            x = shape(t, depth + 1, path + (r,))
                            if x:
                                out.add((rel_(k, h), x))
            return frozenset(out)

        def cls(o):
            if o[0] != 'v':
                return 0
            if o[1] in tv:
                return 1
            if o[1] not in cache:
                cache[o[1]] = shape(places(o))
            return cache[o[1]] or 0
        ch = True
        while ch:
            ch = False
            hroot, proot = {}, {}
            for q, h in hv:
                hroot.setdefault(q, set()).add(h)
            for q, hs in hroot.items():
                if len(hs) > 5 and hs != {'*'}:
                    hv -= {(q, h) for h in hs if h != '*'}
                    hv.add((q, '*'))
                    hroot[q] = {'*'}
            for (q, h), t in list(pts.items()):
                proot.setdefault(q, {})[h] = t
            for q, hs in proot.items():
                if len(hs) > 8:
                    t = set().union(*hs.values())
                    for h in hs:
                        pts.pop((q, h), None)
                    pts[q, '*'] = t
                    proot[q] = {'*': t}
            if time.time() > self.deadline:
                raise TimeoutError
            cache = {}

            def add(s, v):
                nonlocal ch
                if s is hv and '*' in hroot.get(v[0], ()):
                    return
                if v not in s:
                    s.add(v)
                    ch = True

            def setbase(d, bs):
                nonlocal ch
                x = base.setdefault(d, set())
                bs = {y for y in bs if (y[0], '*') not in x}
                if not bs <= x:
                    x |= bs
                    if len(x) > 6:
                        x |= {(r, '*') for r, _ in x}
                    for y in list(x):
                        if y[1] != '*' and (y[0], '*') in x:
                            x.discard(y)
                    ch = True
            for b in f['blocks']:
                for i in b:
                    op = i['op']
                    if op in ('getelementptr', 'bitcast', 'addrspacecast', 'freeze', 'ptrtoint', 'inttoptr'):
                        o = i['a'][0]
                        if cls(o) == 1:
                            add(tv, i['d'])
                        if o[0] == 'v':
                            step = 0 if op != 'getelementptr' else i['off'] if i.get('ok') and not i.get('idx') else '*'
                            setbase(i['d'], {(r, '*' if '*' in (k, step) else k + step) for r, k in places(o)})
                    elif op in ('phi', 'select'):
                        for o in ([x[1] for x in i['in']] if op == 'phi' else i['a'][1:]):
                            if o[0] != 'v' or i['ty'] != 'p':
                                continue
                            if cls(o) == 1:
                                add(tv, i['d'])
                            if o[1] != i['d']:
                                setbase(i['d'], set(places(o)))
                    elif op == 'load':
                        if i['ty'] == 'p':
                            c = cls(i['a'][0])
                            if c == 1 or c and ((0, 1) in c or ('*', 1) in c):
                                add(tv, i['d'])
                            for r, k in places(i['a'][0]):
                                for h, t in proot.get(r, {}).items():
                                    if h == k or '*' in (h, k):
                                        setbase(i['d'], set(t))
                    elif op == 'store':
                        v, p = i['a'][:2]
                        if cls(p) == 1:
                            self.site(n, i, 'a store')
                        elif i.get('sty', 'p') == 'p':
                            c = cls(v)
                            if c == 1:
                                for q in places(p):
                                    add(hv, q)
                            if v[0] == 'v' and v[1] not in tv:
                                for q in places(p):
                                    if '*' in proot.get(q[0], ()):
                                        q = (q[0], '*')
                                    pts.setdefault(q, set())
                                    x = len(pts[q])
                                    pts[q] |= places(v)
                                    ch = ch or len(pts[q]) != x
                    elif op in ('call', 'invoke'):
                        a = i.get('a', [])
                        cl = [cls(o) for o in a]
                        if not any(cl):
                            continue
                        for t in sorted(self.targets(i)):
                            r, ha = self.call(n, i, t, cl)
                            if r == 1 and 'd' in i:
                                add(tv, i['d'])
                            for path, h in ha:
                                if path[0] >= len(a):
                                    continue
                                ps = set(places(a[path[0]]))
                                for o in path[1:]:
                                    nx = set()
                                    for r, k in ps:
                                        for (q, x), t2 in pts.items():
                                            if q == r and ('*' in (k, o, x) or x == k + o):
                                                nx |= t2
                                    ps = nx
                                for q, z in ps:
                                    add(hv, (q, '*' if '*' in (z, h) else z + h))
                    elif op == 'ret':
                        if i.get('a'):
                            c = cls(i['a'][0])
                            if c == 1:
                                ret = 1
                    elif op in ('insertvalue', 'extractvalue'):
                        if any(cls(o) == 1 for o in i['a']):
                            add(tv, i['d'])
        new = (ret, frozenset((k if isinstance(k, tuple) else (k,), h) for k, h in hv if isinstance(k, tuple) or k < len(ctx)))
        if new != old:
            self.memo[key] = new
            self.changed = True
        return new

    def call(self, n, i, t, cl):
        f = self.F.get(t)
        if f is not None and not f['decl']:
            k = len(f['args'])
            return self.fn(t, tuple((cl + [0] * k)[:k]))
        one = [x == 1 for x in cl]
        if t.startswith('llvm.'):
            if t.startswith(('llvm.memcpy', 'llvm.memmove')):
                if one[0]:
                    self.site(n, i, 'a copy')
                elif cl[1] not in (0, 1):
                    return 0, {((0,), h) for h, x in cl[1] if x == 1}
                elif one[1]:
                    # a structure copied out of the object carries its pointers with it
                    size = i['a'][2]
                    if size[0] == 'c' and int(size[2]) >= 8 and int(size[2]) % 8 == 0:
                        return 0, {((0,), '*')}
            elif t.startswith('llvm.memset') and one[0]:
                self.site(n, i, 'a fill')
            return 0, ()
        dem = f['dem'] if f else t
        if t.startswith(DELETE):
            if one[0]:
                self.site(n, i, 'a release')
            return 0, ()
        if t in DEST and DEST[t] < len(cl) and one[DEST[t]]:
            self.site(n, i, 'the call of ' + t)
            return 0, ()
        if t in READERS or t in DEST:
            return (1 if t in ('memchr', 'strchr', 'strstr') else 0), ()
        tail = dem.split('::')[-1]
        if t.startswith('_ZNK') or 'Rb_tree_increment' in t or 'Rb_tree_decrement' in t:
            return (1 if any(one) else 0), ()
        if t.startswith('_ZNS') and f is not None:
            acc = any(tail.startswith(x) for x in ACCESS)
            if one[0] and not acc:
                self.site(n, i, 'the call of ' + dem[:80])
            return (1 if one[0] and acc else 0), ()
        if t.startswith('_ZSt') and 'Rb_tree' in t:
            if any(one):
                self.site(n, i, 'the call of ' + dem[:80])
            return 0, ()
        if any(one):
            self.ext.add(dem[:100])
        return 0, ()

    def site(self, n, i, what):
        self.sites.setdefault((n, i.get('f'), i.get('l')), what)


def check():
    c = Check('P20')
    m = module(['api.cpp'], passes=PASSES, inline=True)
    g = Graph(m)
    F = g.F
    rs = roots(g)
    M = Mod(m, g)
    q = []
    for r in rs:
        k = len(F[r]['args'])
        if r.startswith('api_deserialize_'):
            q.append((r, 0, 'the document'))
        elif r.startswith('api_validate_'):
            q += [(r, 0, 'the document'), (r, 1, 'the object it is compared with')]
        elif r.startswith('api_serialize_'):
            q.append((r, 1, 'the source object'))
        elif r == 'api_write':
            q += [(r, 0, 'the document'), (r, 1, 'the file name')]
        elif r == 'api_parse_buffer':
            q.append((r, 1, 'the text'))
        elif r == 'api_parse_file':
            q.append((r, 1, 'the file name'))
        elif r.startswith(('api_find_', 'api_string', 'api_number', 'api_bool', 'api_null', 'api_array', 'api_object', 'api_root', 'api_iterate')):
            q.append((r, 0, 'the document'))
    nsites = 0
    ctxs = 0
    for r, k, what in q:
        ctx = tuple(1 if j == k else 0 for j in range(len(F[r]['args'])))
        s = M.analyse(r, ctx)
        ctxs += len(M.memo)
        if M.late:
            c.undecided.append('%s: the analysis did not finish in its time' % r)
        for (n, f, l), how in sorted(s.items(), key=str):
            c.violation('mod|%s|%s|%s' % (what, F[n]['dem'], l), 'P20: %s changes %s: %s at %s:%s in %s goes through a pointer into it' % (
                r[4:].replace('_', ' '), what, how, rel(f or ''), l, F[n]['dem']))
    pred = g.reach(['api_parse_buffer', 'api_parse_file'])
    for n in pred:
        for i, cs in g.calls.get(n, ()):
            for t in cs & {'write', 'pwrite', 'writev', 'fwrite', 'unlink', 'remove', 'rename', 'truncate', 'ftruncate', 'fputs', 'fputc', 'mkdir', 'creat'}:
                c.violation('write|%s' % t, 'P20: parsing reaches %s at %s:%s in %s: %s' % (t, rel(i.get('f', '')), i.get('l'), F[n]['dem'], g.path(pred, n)))
    for x in sorted(M.ext):
        c.assumptions.append('does not change what it is given: ' + x)
    c.coverage = dict(operations=len(q), contexts=ctxs, rule='no store, copy, release or mutating library call through a pointer derived from the protected object; no file-writing call reachable from parsing')
    c.finish('Interprocedural, context-sensitive pointer-derivation analysis from each public operation (virtual calls: every candidate of the same shape).')
