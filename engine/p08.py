"""P08: exception-flow analysis.  An allocation failure (bad_alloc) is followed from every allocating call through the call graph:
it may not leave a public operation, may not reach a landing pad or function that terminates, and where it is caught the failure has to
arrive in the returned status (def-use tracking of the status through every caller)."""
from common import *
from callgraph import Graph
from p19 import roots, succs

BAD = '_ZTISt9bad_alloc'
ALLOC = ('_Znwm', '_Znam', '_ZnwmSt11align_val_t', '_ZnamSt11align_val_t', '__cxa_allocate_dependent_exception')
THROWERS = dict(_ZSt17__throw_bad_allocv=BAD, _ZSt28__throw_bad_array_new_lengthv='_ZTISt20bad_array_new_length', __cxa_throw_bad_array_new_length='_ZTISt20bad_array_new_length')
BASES = {BAD: {BAD, '_ZTISt9exception'}, '_ZTISt20bad_array_new_length': {BAD, '_ZTISt9exception', '_ZTISt20bad_array_new_length'}}
STRING_ALLOC = ('basic_string(', 'operator=(', 'assign(', 'append(', 'push_back(', 'resize(', 'reserve(', 'insert(', 'replace(', '_M_create(', '_M_construct', '_M_mutate(',
                '_M_append(', '_M_assign(', 'operator+=(', '_M_replace', 'substr(', 'operator+')
TERM = ('__clang_call_terminate', '_ZSt9terminatev', 'abort', '__cxa_call_terminate', '__cxa_call_unexpected', 'exit', '_exit')


class Flow:
    def __init__(self, m):
        self.m = m
        self.g = Graph(m)
        self.F = m['functions']
        self.esc = {}      # function -> {type: (instr, callee)}
        self.term = []     # (function, instr, type)
        self.caught = {}   # function -> {handler block: set of types}
        self.sites = 0
        self.pm = {}
        self.fix()

    def ext(self, n):
        """what an external function can throw for want of memory"""
        if n in ALLOC:
            return {BAD}
        if n in THROWERS:
            return {THROWERS[n]}
        f = self.F.get(n)
        if f is None or not f['decl'] or f['nounwind']:
            return set()
        d = f['dem']
        if d.startswith('std::') and 'basic_string' in d:
            tail = d.split('::')[-1]
            if any(tail.startswith(x) for x in STRING_ALLOC):
                return {BAD}
        return set()

    def prune(self, c, args):
        """does a call with these constant arguments reach an allocation?  (branches on the constants are decided)"""
        f = self.F[c]
        kc = {}
        for k, a in enumerate(args):
            if a is not None and k < len(f['args']):
                kc[k] = a
        if not kc:
            return None
        key = (c, tuple(sorted(kc.items())))
        if key in self.pm:
            return self.pm[key]
        reg = {}
        seen, st = set(), [0]
        while st:
            b = st.pop()
            if b in seen:
                continue
            seen.add(b)
            for i in f['blocks'][b]:
                if i['op'] == 'icmp':
                    x, y = i['a']
                    if x[0] == 'v' and x[1] in kc and y[0] == 'c':
                        w = int(i['oty'][1:]) if i.get('oty', '')[:1] == 'i' else 64
                        l, r = kc[x[1]], int(y[2])
                        if i['p'][0] == 's':
                            l, r = [v - (1 << w) if v >> (w - 1) & 1 else v for v in (l & (1 << w) - 1, r & (1 << w) - 1)]
                        p = i['p'].lstrip('su') if i['p'] not in ('eq', 'ne') else i['p']
                        reg[i['d']] = dict(eq=l == r, ne=l != r, gt=l > r, lt=l < r, ge=l >= r, le=l <= r)[p]
            t = f['blocks'][b][-1]
            if t['op'] == 'br' and len(t['t']) == 2 and t['a'][0][0] == 'v' and t['a'][0][1] in reg:
                st.append(t['t'][0] if reg[t['a'][0][1]] else t['t'][1])
            else:
                st += succs(t)
        self.pm[key] = seen
        return seen

    def escapes(self, c, i, depth=0):
        e = set(self.esc.get(c, ()))
        if not e or depth > 3:
            return e
        args = [int(a[2]) if a[0] == 'c' and len(a) > 2 else None for a in i.get('a', [])]
        live = self.prune(c, args)
        if live is None or len(live) == len(self.F[c]['blocks']):
            return e
        f = self.F[c]
        out = set()
        for b in live:
            for j in f['blocks'][b]:
                if j['op'] in ('call', 'invoke'):
                    fn = j['fn']
                    cs = {fn[1]} if fn[0] == 'g' else self.g.taken.get((len(j['a']), j.get('ty', 'v')), set()) if fn[0] == 'v' else set()
                    for t in self.throws(j, cs):
                        if j['op'] == 'call' or 'resume' in self.pad(c, j['u'], t):
                            out.add(t)
        return out & e

    def throws(self, i, cs):
        out = set()
        fn = i['fn']
        if fn[0] == 'g' and fn[1] == '__cxa_throw':
            t = i['a'][1]
            return {t[1] if t[0] == 'g' else '?'}
        for c in cs:
            f = self.F.get(c)
            if f is None or f['decl']:
                out |= self.ext(c)
            else:
                out |= self.escapes(c, i)
        return out

    def pad(self, n, b, typ):
        """follow a landing pad for one exception type: set of ('resume'|'term'|('catch', block))"""
        f = self.F[n]
        out = set()
        lp = next(i for i in f['blocks'][b] if i['op'] == 'landingpad')
        matches = set()
        for c in lp.get('cl', []):
            if c[0] in ('n', 'c', 'z') or (c[0] == 'g' and (c[1] == typ or c[1] in BASES.get(typ, ()))):
                matches.add(c[1] if c[0] == 'g' else 'all')
            elif c[0] == 'filter':
                out.add('term')
        first = None
        for c in lp.get('cl', []):
            k = c[1] if c[0] == 'g' else 'all'
            if k in matches:
                first = k
                break
        if first is None and not lp.get('cleanup'):
            return {'resume'}
        seen, st = set(), [b]
        tid = {}
        for bb in f['blocks']:
            for i in bb:
                if i['op'] == 'call' and i['fn'][0] == 'g' and i['fn'][1].startswith('llvm.eh.typeid.for'):
                    a = i['a'][0]
                    tid[i['d']] = a[1] if a[0] == 'g' else 'all'
        cmp = {}
        for bb in f['blocks']:
            for i in bb:
                if i['op'] == 'icmp':
                    for o in i['a']:
                        if o[0] == 'v' and o[1] in tid:
                            cmp[i['d']] = (tid[o[1]] == first) == (i['p'] == 'eq')
        while st:
            k = st.pop()
            if k in seen:
                continue
            seen.add(k)
            stop = False
            for i in f['blocks'][k]:
                if i['op'] in ('call', 'invoke') and i['fn'][0] == 'g':
                    c = i['fn'][1]
                    if c in TERM:
                        out.add('term')
                        stop = True
                        break
                    if c == '__cxa_begin_catch':
                        nx = f['blocks'][k].index(i) + 1
                        if nx < len(f['blocks'][k]) and f['blocks'][k][nx]['op'] == 'call' and f['blocks'][k][nx]['fn'][-1] in TERM:
                            out.add('term')
                        else:
                            out.add(('catch', k))
                        stop = True
                        break
                if i['op'] == 'resume':
                    out.add('resume')
            if stop:
                continue
            t = f['blocks'][k][-1]
            if t['op'] == 'br' and len(t['t']) == 2 and t['a'][0][0] == 'v' and t['a'][0][1] in cmp:
                st.append(t['t'][0] if cmp[t['a'][0][1]] else t['t'][1])
            elif t['op'] == 'invoke':
                st.append(t['n'])
            else:
                st += succs(t)
        return out

    def fix(self):
        changed = True
        memo = {}
        while changed:
            changed = False
            for n, f in self.F.items():
                if f['decl']:
                    continue
                e = self.esc.setdefault(n, {})
                blk = None
                for bn, b in enumerate(f['blocks']):
                    for i in b:
                        if i['op'] not in ('call', 'invoke'):
                            continue
                        fn = i['fn']
                        cs = {fn[1]} if fn[0] == 'g' else self.g.taken.get((len(i['a']), i.get('ty', 'v')), set()) if fn[0] == 'v' else set()
                        rethrow = fn[0] == 'g' and fn[1] == '__cxa_rethrow'
                        ts = self.throws(i, cs)
                        if rethrow:
                            ts = {t for h in self.caught.get(n, {}).values() for t in h}
                        for t in ts:
                            if i['op'] == 'invoke':
                                key = (n, i['u'], t)
                                if key not in memo:
                                    memo[key] = self.pad(n, i['u'], t)
                                for r in memo[key]:
                                    if r == 'term':
                                        if (n, i, t) not in self.term:
                                            self.term.append((n, i, t))
                                    elif r == 'resume':
                                        if f['nounwind']:
                                            if (n, i, t) not in self.term:
                                                self.term.append((n, i, t))
                                        elif t not in e:
                                            e[t] = (i, cs)
                                            changed = True
                                    else:
                                        h = self.caught.setdefault(n, {}).setdefault(r[1], set())
                                        if t not in h:
                                            h.add(t)
                                            changed = True
                            else:
                                if f['nounwind'] or i.get('nounwind') and fn[0] != 'v':
                                    if (n, i, t) not in self.term:
                                        self.term.append((n, i, t))
                                elif t not in e:
                                    e[t] = (i, cs)
                                    changed = True

    def why(self, n, t, seen=()):
        """one chain of calls down to the allocation"""
        if n not in self.esc or t not in self.esc[n] or n in seen:
            return ''
        i, cs = self.esc[n][t]
        s = '\n    %s, called or allocating at %s:%s' % (self.F[n]['dem'], rel(i.get('f', '')), i.get('l'))
        for c in cs:
            if t in self.esc.get(c, ()):
                return s + self.why(c, t, seen + (n,))
        return s


def explore(flow, n, start, X, env0, E):
    """Follow the failure status (value X) from a program point of n to every return.
    env: registers and local slots holding it.  Yields (instr, kind) for each return reached: kind in 'kept','lost','thrown'."""
    f = flow.F[n]
    B = f['blocks']
    res = []
    allocas = {i['d'] for b in B for i in b if i['op'] == 'alloca'}
    seen = set()
    st = [(start[0], start[1], None, frozenset(env0), frozenset(), False, frozenset())]
    while st:
        bn, k, prev, regs, slots, escd, cons = st.pop()
        key = (bn, k, prev, regs, slots, escd, cons)
        if key in seen:
            continue
        seen.add(key)
        if len(seen) > 20000:
            res.append((None, 'unknown'))
            break
        dec = {}
        kc = dict(cons)
        first = True

        def isx(o):
            return (o[0] == 'v' and o[1] in regs) or (o[0] == 'c' and len(o) > 2 and str(o[1]) == '32' and int(o[2]) == X) or (o[0] == 'i' and o[-1] == X)
        while True:
            i = B[bn][k]
            op = i['op']
            if op == 'phi' and first:
                # all phis of the block read the values of the edge taken
                upd = {}
                for j in B[bn][k:]:
                    if j['op'] != 'phi':
                        break
                    v = next((x[1] for x in j['in'] if x[0] == prev), None)
                    upd[j['d']] = kc.get(v[1]) if v is not None and v[0] == 'v' else int(v[2]) if v is not None and v[0] == 'c' else None
                for d, v in upd.items():
                    kc.pop(d, None)
                    if v is not None:
                        kc[d] = v
                first = False
            if op == 'ret':
                a = i.get('a', [])
                res.append((i, 'kept' if escd or (a and isx(a[0])) else 'lost'))
                break
            if op == 'phi':
                v = next((x[1] for x in i['in'] if x[0] == prev), None)
                regs = regs | {i['d']} if v is not None and isx(v) else regs - {i['d']}
            elif op == 'store':
                v, p = i['a'][0], i['a'][1]
                if p[0] == 'v' and p[1] in allocas and i.get('size') == 4:
                    slots = slots | {p[1]} if isx(v) else slots - {p[1]}
                elif isx(v):
                    escd = True
            elif op == 'load':
                p = i['a'][0]
                if p[0] == 'v' and p[1] in slots and i.get('size') == 4:
                    regs = regs | {i['d']}
                else:
                    regs = regs - {i['d']}
                    if p[0] == 'v' and p[1] in slots:
                        escd = True
            elif op in ('zext', 'trunc', 'sext', 'freeze', 'insertvalue', 'or', 'shl', 'bitcast'):
                regs = regs | {i['d']} if any(isx(o) and o[0] == 'v' for o in i['a']) else regs - {i['d']}
            elif op == 'select':
                c = i['a'][0]
                d = dec.get(c[1]) if c[0] == 'v' else None
                xs = [isx(i['a'][1]), isx(i['a'][2])]
                r = xs[0] if d is True else xs[1] if d is False else all(xs)
                if d is None and any(xs) and not all(xs):
                    escd = True
                regs = regs | {i['d']} if r else regs - {i['d']}
            elif op == 'icmp':
                a, b = i['a']
                if a[0] == 'c':
                    a, b = b, a
                lhs = X if a[0] == 'v' and a[1] in regs else kc.get(a[1]) if a[0] == 'v' else None
                if lhs is not None and b[0] == 'c' and i['p'] in ('eq', 'ne', 'ugt', 'ult', 'uge', 'ule'):
                    y = int(b[2])
                    dec[i['d']] = {'eq': lhs == y, 'ne': lhs != y, 'ugt': lhs > y, 'ult': lhs < y, 'uge': lhs >= y, 'ule': lhs <= y}[i['p']]
            elif op in ('call', 'invoke'):
                fn = i['fn']
                c = fn[1] if fn[0] == 'g' else ''
                if not c.startswith('llvm.'):
                    for o in i.get('a', []):
                        if o[0] == 'v' and (o[1] in regs or o[1] in slots):
                            escd = True     # handed on: what the callee does with it is not followed
                    if any(o[0] == 'v' and o[1] in slots for o in i.get('a', [])):
                        slots = slots - {o[1] for o in i['a'] if o[0] == 'v'}
                elif c.startswith('llvm.memcpy') and any(o[0] == 'v' and o[1] in slots for o in i['a']):
                    escd = True
                if 'd' in i:
                    regs = regs - {i['d']}
                if c in TERM or op == 'call' and flow.F.get(c, {}).get('noreturn'):
                    res.append((i, 'thrown'))
                    break
                if op == 'invoke':
                    if c == '__cxa_rethrow':
                        res.append((i, 'thrown'))
                        break
                    st.append((i['n'], 0, bn, regs, slots, escd, frozenset(kc.items())))
                    break
            elif op == 'getelementptr':
                if any(o[0] == 'v' and o[1] in slots for o in i['a']):
                    escd = True
            elif op == 'br':
                if len(i['t']) == 1:
                    st.append((i['t'][0], 0, bn, regs, slots, escd, frozenset(kc.items())))
                else:
                    c = i['a'][0]
                    d = dec.get(c[1]) if c[0] == 'v' else None
                    for side, t in ((True, i['t'][0]), (False, i['t'][1])):
                        if d is None or d == side:
                            st.append((t, 0, bn, regs, slots, escd, frozenset(kc.items())))
                break
            elif op == 'switch':
                sv = X if isx(i['a'][0]) else kc.get(i['a'][0][1]) if i['a'][0][0] == 'v' else None
                if sv is not None:
                    t = next((x[1] for x in i['cases'] if int(x[0]) == sv), i['def'])
                    st.append((t, 0, bn, regs, slots, escd, frozenset(kc.items())))
                else:
                    for t in {x[1] for x in i['cases']} | {i['def']}:
                        st.append((t, 0, bn, regs, slots, escd, frozenset(kc.items())))
                break
            elif op in ('resume', 'unreachable'):
                res.append((i, 'thrown'))
                break
            elif 'd' in i:
                regs = regs - {i['d']}
            k += 1
    return res


def const_global(m, name):
    g = m['globals'].get(name)
    if not g:
        raise AnalysisBroken('constant %s missing from the module' % name)
    v = 0
    for o, s, x in g['init']:
        v |= int(x[2]) << (8 * o)
    return v


def check():
    c = Check('P08')
    m = module(['api.cpp', 'status.cpp'])
    X = const_global(m, 'sa_status_exception')
    fl = Flow(m)
    F = m['functions']
    rs = roots(fl.g)
    rs = [r for r in rs if r != 'api_construct' and not r.startswith('api_iterate')]
    pred = fl.g.reach(rs)
    nthrow = sum(1 for n in pred if fl.esc.get(n))
    # 1. nothing terminates
    for n, i, t in fl.term:
        if n not in pred:
            continue
        cal = i['fn'][1] if i['fn'][0] == 'g' else '?'
        c.violation('terminate|%s|%s' % (F[n]['dem'], F.get(cal, {}).get('dem', cal)),
                    'P08: a failed allocation terminates the process: at %s:%s in %s (may not throw) the call of %s can throw %s%s\n    reached: %s' % (
                        rel(i.get('f', '')), i.get('l'), F[n]['dem'], F.get(cal, {}).get('dem', cal), t, fl.why(cal, t), fl.g.path(pred, n)))
    # 2. nothing leaves a public operation
    for r in rs:
        for t in fl.esc.get(r, {}):
            i, cs = fl.esc[r][t]
            api = sorted(cs)
            if all(fl.F.get(x, {}).get('decl', True) for x in api):
                continue        # the probe itself allocates (object creation by the caller)
            c.violation('escape|%s|%s' % (r, t), 'P08: %s leaves the public operation %s%s' % (t, ', '.join(F[x]['dem'] for x in api), fl.why(r, t)))
    # 3. caught failures arrive in the status
    E = {}
    work = []
    handlers = 0
    status_like = set()
    pts = {}
    for n, hs in fl.caught.items():
        if n not in pred:
            continue
        for b in hs:
            k = next(j for j, i in enumerate(F[n]['blocks'][b]) if i.get('fn', ['', ''])[1] == '__cxa_begin_catch')
            handlers += 1
            pts.setdefault(n, []).append(((b, k + 1), (), 'caught', F[n]['blocks'][b][k]))
    done = set()
    calls = 0
    work = list(pts)
    while work:
        n = work.pop()
        for start, env, how, at in pts[n]:
            if (n, start) in done:
                continue
            done.add((n, start))
            calls += 1
            ret = F[n]['ret']
            sret = any(a == 'sret' for a in (x if isinstance(x, str) else x[-1] if isinstance(x, list) else x.get('attr', '') if isinstance(x, dict) else '' for x in F[n]['args']))
            for i, kind in explore(fl, n, start, X, env, E):
                if kind == 'unknown':
                    c.undecided.append('%s: too many paths' % F[n]['dem'])
                if kind == 'lost' and (ret in ('v', 'i32', 's', 'i64')):
                    c.violation('lost|%s|%s' % (F[n]['dem'], rel(at.get('f', ''))),
                                'P08: the failure %s at %s:%s in %s does not arrive in what the function returns at line %s: the call would not report the exception status' % (
                                    'caught' if how == 'caught' else 'reported by the call', rel(at.get('f', '')), at.get('l'), F[n]['dem'], i.get('l')))
                if kind == 'kept' and ret == 'i32' and n not in E:
                    E[n] = True
                    for cn in pred:
                        f = F[cn]
                        if f['decl']:
                            continue
                        for i2, cs in fl.g.calls.get(cn, ()):
                            pass
        # callers of functions that return the failure status
        for cn in pred:
            f = F[cn]
            if f['decl']:
                continue
            for bn, b in enumerate(f['blocks']):
                for k, i in enumerate(b):
                    if i['op'] in ('call', 'invoke'):
                        fn = i['fn']
                        cs = {fn[1]} if fn[0] == 'g' else fl.g.taken.get((len(i['a']), i.get('ty', 'v')), set()) if fn[0] == 'v' else set()
                        if any(x in E for x in cs) and i.get('ty') == 'i32':
                            start = (i['n'], 0) if i['op'] == 'invoke' else (bn, k + 1)
                            p = (start, (i['d'],), 'call', i)
                            l = pts.setdefault(cn, [])
                            if all(q[3] is not i for q in l):
                                l.append(p)
                                if cn not in work:
                                    work.append(cn)
    c.coverage = dict(functions_reached=sum(1 for n in pred if not F[n]['decl']), functions_that_may_throw=nthrow, handlers=handlers, status_flows_followed=calls,
                      functions_returning_the_status=len(E), public_operations=len(rs),
                      rule='(1) no call that can throw bad_alloc unwinds into a terminating landing pad or a function that may not throw; (2) no public operation lets one escape; '
                           '(3) from every handler and every call that returns the failure status, each path to a return carries that status (lookups returning a pointer or a truth value may report absence)')
    c.assumptions = ['virtual and indirect calls reach every address-taken function of the same arity and result type',
                     'of the C++ runtime only operator new and the growing members of std::string run out of memory',
                     'a status handed to another function or stored outside locals is taken to be used']
    c.finish('Exception-flow fixpoint over the whole-program call graph followed by def-use tracking of the caught failure through the callers.')
