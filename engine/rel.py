"""Relational abstract interpreter over the dumped IR.

A state maps registers and memory cells to linear expressions over integer symbols, constrained by a convex set (poly.py).  Calls are followed
(context-sensitive), conditions split the state, loops are unrolled a fixed number of turns as separate states and then joined to a fixpoint with
widening.  `exact` states carry no joined or otherwise approximated information: what they do not entail is possible in a real run; a failed
obligation in such a state is a violation, in any other state it is reported as undecided."""
from poly import L, P, sym, join
import os

IGN = ('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.stacksave', 'llvm.stackrestore', 'llvm.donothing', 'llvm.invariant', 'llvm.prefetch', 'llvm.va_start', 'llvm.va_end')


class Budget(Exception):
    pass


class State:
    __slots__ = ('P', 'frames', 'mem', 'reg', 'null', 'g', 'exact', 'trace', 'dec')

    def __init__(s):
        s.P = P()
        s.frames = []
        s.mem = {}
        s.reg = {}
        s.null = {}
        s.g = {}
        s.exact = True
        s.trace = ()
        s.dec = None      # conditions decided so far (linked list)

    def copy(s):
        t = State()
        t.P = s.P.copy()
        t.frames = list(s.frames)
        if t.frames:
            t.frames[-1] = dict(t.frames[-1])
        t.mem = dict(s.mem)
        t.reg = dict(s.reg)
        t.null = dict(s.null)
        t.g = dict(s.g)
        t.exact = s.exact
        t.trace = s.trace
        t.dec = s.dec
        return t


def N(x):
    return ('n', x if isinstance(x, L) else L(x))


def width(ty):
    return int(ty[1:]) if ty and ty[0] == 'i' and ty[1:].isdigit() else None


def liveness(f):
    B = f['blocks']
    use, dfn = [], []
    succ = []
    from p19 import succs
    phiuse = [set() for _ in B]
    for bn, b in enumerate(B):
        u, d = set(), set()
        for i in b:
            if i['op'] == 'phi':
                for pb, o in i['in']:
                    if o[0] == 'v':
                        phiuse[pb].add(o[1])
            else:
                ops = list(i.get('a', [])) + [x[1] for x in i.get('idx', [])]
                if i['op'] in ('call', 'invoke'):
                    ops.append(i['fn'])
                for o in ops:
                    if o[0] == 'v' and o[1] not in d:
                        u.add(o[1])
            if 'd' in i:
                d.add(i['d'])
        use.append(u)
        dfn.append(d)
        succ.append(list(succs(b[-1])))
    live = [set() for _ in B]
    ch = True
    while ch:
        ch = False
        for bn in range(len(B) - 1, -1, -1):
            out = set(phiuse[bn])
            for s in succ[bn]:
                out |= live[s]
            n = use[bn] | (out - dfn[bn])
            if n != live[bn]:
                live[bn] = n
                ch = True
    # loop heads: targets of back edges
    heads = set()
    color = {}
    st = [(0, iter(succ[0]))]
    color[0] = 1
    while st:
        b, it = st[-1]
        for s in it:
            if color.get(s) == 1:
                heads.add(s)
            elif s not in color:
                color[s] = 1
                st.append((s, iter(succ[s])))
                break
        else:
            color[b] = 2
            st.pop()
    return live, heads, succ


class Rel:
    def __init__(self, m, unroll=4, budget=200000):
        self.m = m
        self.F = m['functions']
        self.G = m['globals']
        self.models = {}
        self.bydem = {}
        self.virtual = None
        self.unroll = unroll
        self.n = 0
        self.steps = 0
        self.budget = budget
        self.info = {}
        self.stack = []
        self.viol = []
        self.undec = []
        self.obl = 0
        self.unknown = set()
        self.visited = set()
        self.calls = 0
        self.loops = 0
        self.accels = 0
        self.mergelimit = 60
        self.textload = None
        self.textstore = None
        self.onloop = None
        self.throws = True
        self.checkmem = False
        self.maxdepth = 40

    # ---- symbols and obligations
    def fresh(self, st, name, lo=None, hi=None, taint=False):
        self.n += 1
        s = sym('%s%s#%d' % ('~' if taint else '', name, self.n))
        if lo is not None:
            st.P.add_ge(s - (lo if isinstance(lo, L) else L(lo)))
        if hi is not None:
            st.P.add_ge((hi if isinstance(hi, L) else L(hi)) - s)
        return s

    def freshty(self, st, ty, name='x', taint=False):
        w = width(ty)
        if w == 1:
            return N(self.fresh(st, name, 0, 1, taint))
        if w:
            return N(self.fresh(st, name, -(1 << (w - 1)), (1 << (w - 1)) - 1, taint))
        if ty == 'p':
            self.n += 1
            r = ('lazy', '%s#%d' % (name, self.n))
            st.reg[r] = dict(size=None, default='u' if taint else 'sym', alive=True)
            return ('p', r, L(0))
        self.n += 1
        return ('u', self.n)

    def where(self, i=None):
        for f, j in reversed(self.stack + ([(None, i)] if i else [])):
            if j and j.get('l') and 'Code/' in (j.get('f') or ''):
                return '%s:%s' % (j['f'].split('Code/')[-1], j['l'])
        return '?'

    def path(self):
        return ' -> '.join('%s%s' % (self.F[f]['dem'].split('(')[0][:60], ' (line %s)' % j['l'] if j and j.get('l') else '') for f, j in self.stack)

    def report(self, st, key, text, i=None):
        t = '%s\n  at %s\n  calls: %s\n  decisions: %s' % (text, self.where(i), self.path(), '; '.join(st.trace[-14:]))
        if os.environ.get('REL_DEBUG'):
            t += '\n  state: %s\n  ghosts: %s' % (st.P.constraints(), st.g)
        if all(k != key for k, _ in self.viol):
            self.viol.append((key, t))

    def fail(self, st, key, text, i=None):
        """an obligation is not entailed: violation in an exact feasible state"""
        if st.P.is_empty():
            return
        if st.exact:
            self.report(st, key, text, i)
        else:
            u = '%s (at %s)' % (text, self.where(i))
            if u not in self.undec:
                self.undec.append(u)

    def need_ge(self, st, e, key, text, i=None):
        self.obl += 1
        if not st.P.entails_ge(e):
            self.fail(st, key, text, i)
            return False
        return True

    def need_eq(self, st, e, key, text, i=None):
        self.obl += 1
        if not st.P.entails_eq(e):
            self.fail(st, key, text, i)
            return False
        return True

    # ---- memory
    def region(self, st, kind, size=None, default='undef', name=''):
        self.n += 1
        r = (kind, '%s#%d' % (name, self.n))
        st.reg[r] = dict(size=size, default=default, alive=True)
        st.mem[r] = {}
        return r

    def cells(self, st, r):
        return st.mem.get(r, {})

    def load(self, st, r, off, size, ty, i=None):
        """-> value"""
        off = st.P.red(off)
        if r[0] == 'glob':
            g = self.G.get(r[1])
            c = off.const()
            if g and g['const'] and c is not None:
                for o, s, v in g['init']:
                    if o == c and s == size:
                        return self.val(st, v)
                if 0 <= c < g['size'] and not any(o < c + size and c < o + s for o, s, v in g['init']):
                    return ('p', None, L(0)) if ty == 'p' else N(0) if width(ty) else ('u', 0)
            if g and g['const']:
                return self.freshty(st, ty, 'g', True)
        info = st.reg.get(r)
        cs = self.cells(st, r)
        hit = cs.get(off)
        if hit and hit[0] == size:
            v = hit[1]
            if ty == 'p' and v[0] == 'n' and v[1].const() == 0:
                return ('p', None, L(0))
            if width(ty) and v[0] == 'p' and v[1] is None:
                return N(0)
            if width(ty) and size == 1 and width(ty) < 8 and v[0] == 'n':
                return v
            return v
        if info and info.get('load'):
            v = info['load'](self, st, r, off, size, ty, i)
            if v is not None:
                return v
        over = hit is not None
        for k, (s, v) in cs.items():
            if over:
                break
            d = k - off
            if not (st.P.entails_ge(d - L(size)) or st.P.entails_ge(-d - L(s))):
                over = True
        if over and size == 8 and ty == 'i64':
            lo, hi = cs.get(off), cs.get(st.P.red(off + 4))
            if lo and hi and lo[0] == 4 and hi[0] == 4:
                return ('cat', lo[1], hi[1])
        if over:
            # part of a zero constant
            for k, (s, v) in cs.items():
                d = (off - k).const()
                if d is not None and 0 <= d and d + size <= s and v[0] == 'n' and v[1].const() is not None and v[1].const() >= 0:
                    return self.const((v[1].const() >> (8 * d)) & ((1 << (8 * size)) - 1), ty)
            return self.freshty(st, ty, 'part', True)
        for a, b, es, v in (info or {}).get('iv', ()):
            if es == size and st.P.entails_ge(off - a) and st.P.entails_ge(b - off - L(size)):
                return v
        dflt = info['default'] if info else 'u'
        if dflt == 'zero':
            return ('p', None, L(0)) if ty == 'p' else N(0) if width(ty) else ('u', 0)
        if dflt == 'sym' and not (info.get('weak')):
            v = self.freshty(st, ty, 'm')
            self.put(st, r, off, size, v)
            return v
        return self.freshty(st, ty, 'uninit' if dflt == 'undef' else 'm', True)

    def const(self, c, ty):
        w = width(ty)
        if ty == 'p':
            return ('p', None, L(c))
        if w and w > 1 and c >> (w - 1) & 1:
            c -= 1 << w
        return N(c) if w else ('u', 0)

    def put(self, st, r, off, size, v):
        c = dict(st.mem.get(r, {}))
        c[off] = (size, v)
        st.mem[r] = c

    def trim(self, st, r, lo, hi):
        """cut [lo, hi) out of the filled intervals of a region"""
        info = st.reg.get(r)
        if not info or not info.get('iv'):
            return
        P = st.P
        out = []
        for a, b, es, v in info['iv']:
            if P.entails_ge(a - hi) or P.entails_ge(lo - b):
                out.append((a, b, es, v))
                continue
            if P.entails_ge(lo - a):
                out.append((a, lo, es, v))
            if P.entails_ge(hi - a) and P.entails_ge(b - hi):
                out.append((hi, b, es, v))
        st.reg[r] = dict(info, iv=tuple(x for x in out if x[0] != x[1]))

    def kill(self, st, r, off, size, keepdef=False):
        """remove every cell that may overlap [off, off+size)"""
        self.trim(st, r, off, off + size)
        c = dict(st.mem.get(r, {}))
        for k, (s, v) in list(c.items()):
            d = k - off
            if not (st.P.entails_ge(d - size) or st.P.entails_ge(-d - L(s))):
                del c[k]
        st.mem[r] = c

    def store(self, st, r, off, size, v, i=None):
        if v[0] == 'cat' and size == 8:
            self.kill(st, r, st.P.red(off), 8)
            self.put(st, r, st.P.red(off), 4, v[1])
            self.put(st, r, st.P.red(off + 4), 4, v[2])
            return
        off = st.P.red(off)
        info = st.reg.get(r)
        if info and info.get('store'):
            if info['store'](self, st, r, off, size, v, i):
                return
        if info and info.get('iv'):
            self.trim(st, r, off, off + size)
            info = st.reg.get(r)
        c = dict(st.mem.get(r, {}))
        hit = c.get(off)
        if not (hit and hit[0] == size and len(c) == 1):
            for k, (s, o) in list(c.items()):
                if k == off and s == size:
                    continue
                d = k - off
                dc = d.const()
                if dc is not None:
                    if not (dc >= size or -dc >= s):
                        del c[k]
                        if (dc < 0 or dc + s > size) and info:
                            st.reg[r] = dict(info, weak=True, default='u')
                elif not (st.P.entails_ge(d - L(size)) or st.P.entails_ge(-d - L(s))):
                    del c[k]
        if off.const() is None and info and info['default'] in ('zero', 'sym') and not info.get('weak'):
            st.reg[r] = dict(info, weak=True, default='u')
        c[off] = (size, v)
        st.mem[r] = c

    def access(self, st, v, size, i, what):
        """pointer operand to (region, offset) or None; memory-safety obligations when enabled"""
        if v[0] != 'p':
            st.exact = False
            return None
        if v[1] is None or st.null.get(v[1]) is True:
            if self.checkmem:
                self.fail(st, 'null@' + self.where(i), '%s through a null pointer' % what, i)
            return None
        r = v[1]
        if r not in st.null and r[0] == 'lazy':
            st.null[r] = False
        info = st.reg.get(r)
        if self.checkmem and info:
            self.obl += 1
            if not info['alive']:
                self.fail(st, 'dead@' + self.where(i), '%s of memory that was already released' % what, i)
            elif info['size'] is not None:
                if not st.P.entails_ge(v[2]):
                    self.fail(st, 'before@' + self.where(i), '%s may be before the start of its block' % what, i)
                elif not st.P.entails_ge(info['size'] - v[2] - L(size)):
                    self.fail(st, 'beyond@' + self.where(i), '%s may be beyond the end of its block' % what, i)
        return r, v[2]

    # ---- values
    def val(self, st, o):
        k = o[0]
        if k == 'v':
            return st.frames[-1].get(o[1], ('u', 0))
        if k == 'c':
            return self.const(int(o[2]), 'i%s' % o[1])
        if k == 'n':
            return ('p', None, L(0))
        if k == 'g':
            return ('p', ('glob', o[1]), L(int(o[2])))
        if k == 'z':
            return ('z', o[1])
        if k == 'u':
            ty = o[1]
            return ('u', 0)
        return ('u', 0)

    def num(self, st, v):
        if v[0] == 'n':
            return v[1]
        if v[0] == 'p' and v[1] is None:
            return v[2]
        if v[0] == 'z':
            return L(0)
        return None

    def truth(self, st, v, tag=None):
        """split the state on an i1 value -> [(bool, state)]"""
        if v[0] == 'n':
            c = v[1].const()
            if c is not None:
                return [(bool(c & 1), st)]
            out = []
            for b in (True, False):
                t = st.copy()
                t.P.add_eq(v[1] - L(1 if b else 0))
                self.note(t, v[1])
                if not t.P.is_empty():
                    out.append((b, t))
            return out
        if v[0] == 'c':
            op, e = v[1], v[2]
            if op == 'ge':
                if st.P.entails_ge(e):
                    st.dec = (st.dec, ('ge', e))
                    return [(True, st)]
                if st.P.entails_ge(-e + -1):
                    st.dec = (st.dec, ('ge', -e + -1))
                    return [(False, st)]
                a, b = st.copy(), st
                a.P.add_ge(e)
                b = st.copy()
                b.P.add_ge(-e + -1)
                self.note(a, e)
                self.note(b, e)
                a.dec = (st.dec, ('ge', e))
                b.dec = (st.dec, ('ge', -e + -1))
                return [(x, s) for x, s in ((True, a), (False, b)) if not s.P.is_empty()]
            neg = op == 'ne'
            if st.P.entails_eq(e):
                st.dec = (st.dec, ('eq', e))
                return [(not neg, st)]
            up, dn = st.P.entails_ge(e), st.P.entails_ge(-e)
            if (up and st.P.entails_ge(e + -1)) or (dn and st.P.entails_ge(-e + -1)):
                st.dec = (st.dec, ('ne', e if up else -e))
                return [(neg, st)]
            out = []
            a = st.copy()
            a.dec = (st.dec, ('eq', e))
            a.P.add_eq(e)
            self.note(a, e)
            if not a.P.is_empty():
                out.append((not neg, a))
            for s in ((1,) if up else (-1,) if dn else (1, -1)):
                t = st.copy()
                t.P.add_ge(e * s + -1)
                t.dec = (st.dec, ('ne', e * s))
                self.note(t, e)
                if not t.P.is_empty():
                    out.append((neg, t))
            return out
        if v[0] == 'not':
            return [(not b, s) for b, s in self.truth(st, v[1])]
        if v[0] == 'null':      # region null?
            r = v[1]
            k = st.null.get(r)
            if k is not None:
                return [(k, st)]
            out = []
            for b in (True, False):
                t = st.copy()
                t.null[r] = b
                if st.reg.get(r, {}).get('default') == 'u':
                    t.exact = False
                out.append((b, t))
            return out
        out = []
        for b in (True, False):
            t = st.copy()
            t.exact = False
            out.append((b, t))
        return out

    def note(self, st, e):
        if st.exact and any(k[0] == '~' for k, v in e.t):
            st.exact = False

    def isnull(self, st, v):
        """i1 value: pointer is null"""
        if v[0] == 'p':
            if v[1] is None:
                c = v[2].const()
                return N(1 if c == 0 else 0) if c is not None else ('u', 0)
            if v[1][0] == 'lazy':
                return ('null', v[1])
            return N(0)
        if v[0] == 'z':
            return N(1)
        if v[0] == 'n':
            return ('c', 'eq', v[1])
        return ('u', 0)

    def icmp(self, st, p, a, b, ty):
        """-> [(value, state)]"""
        if ty == 'p' or a[0] == 'p' or b[0] == 'p':
            za, zb = [x[0] in ('p', 'z', 'n') and (x[0] == 'z' or (x[0] == 'p' and x[1] is None and x[2].const() == 0) or (x[0] == 'n' and x[1].const() == 0)) for x in (a, b)]
            if za or zb:
                o = b if za else a
                z = self.isnull(st, o)
                if p == 'eq':
                    return [(z, st)]
                if p == 'ne':
                    return [(('not', z), st)]
                if p in ('ugt', 'ult'):      # p > null
                    return [(('not', z) if (p == 'ugt') == zb else N(0), st)]
                return [(N(1) if (p == 'uge') == zb else z, st)]
            if a[0] == 'p' and b[0] == 'p':
                if a[1] == b[1]:
                    return [(self.cmpl(st, p, a[2], b[2]), st)]
                ka, kb = [x[1] and x[1][0] != 'lazy' for x in (a, b)]
                if ka and kb and p in ('eq', 'ne'):
                    return [(N(1 if p == 'ne' else 0), st)]
                if p in ('eq', 'ne') and (ka or kb):
                    ra, rb = [st.reg.get(x[1], {}) for x in (a, b)]
                    if ra.get('default') != 'u' and rb.get('default') != 'u' and not (a[1][0] == b[1][0] == 'lazy'):
                        return [(N(1 if p == 'ne' else 0), st)]
            return [(('u', 0), st)]
        # boolean comparisons
        if ty == 'i1':
            out = []
            for x, s in self.truth(st, a):
                for y, t in self.truth(s, b):
                    out.append((N(1 if {'eq': x == y, 'ne': x != y}.get(p, False) else 0), t))
            return out
        x, y = self.num(st, a), self.num(st, b)
        if x is None or y is None:
            return [(('u', 0), st)]
        if p[0] == 'u' and p != 'une':
            w = width(ty) or 64
            res = []
            for x2, s in self.unsigned(st, x, w):
                for y2, t in self.unsigned(s, y, w):
                    res.append((self.cmpl(t, p, x2, y2), t))
            return res
        return [(self.cmpl(st, p, x, y), st)]

    def unsigned(self, st, x, w):
        """value as unsigned: [(L, state)]"""
        c = x.const()
        if c is not None:
            return [(L(c % (1 << w)), st)]
        if st.P.entails_ge(x):
            return [(x, st)]
        if st.P.entails_ge(-x + -1):
            return [(x + (1 << w), st)]
        a, b = st.copy(), st.copy()
        a.P.add_ge(x)
        b.P.add_ge(-x + -1)
        self.note(a, x)
        self.note(b, x)
        return [(y, s) for y, s in ((x, a), (x + (1 << w), b)) if not s.P.is_empty()]

    def cmpl(self, st, p, x, y):
        d = x - y
        if p == 'eq':
            return ('c', 'eq', d)
        if p == 'ne':
            return ('c', 'ne', d)
        q = p[1:]
        if q == 'ge':
            return ('c', 'ge', d)
        if q == 'gt':
            return ('c', 'ge', d + -1)
        if q == 'le':
            return ('c', 'ge', -d)
        return ('c', 'ge', -d + -1)

    # ---- joins
    def slots(self, st, live=None):
        out = {}
        for n, f in enumerate(st.frames):
            for k, v in f.items():
                if k != '#v':
                    out[('f', n, k)] = v
        for r, c in st.mem.items():
            for k, (s, v) in c.items():
                out[('m', r, k, s)] = v
        for k, v in st.g.items():
            if isinstance(v, L):
                out[('g', k)] = ('n', v)
            elif isinstance(v, tuple) and v and v[0] == 'p':
                out[('g', k)] = v
        return out

    def gc(self, st):
        """drop regions nothing refers to"""
        keep = set()
        work = []

        def ref(v):
            if v[0] == 'p' and v[1] and v[1] not in keep:
                keep.add(v[1])
                work.append(v[1])
            elif v[0] in ('agg', 'not', 'cat'):
                for x in v[1] if v[0] == 'agg' else v[1:]:
                    if isinstance(x, tuple):
                        ref(x)
            elif v[0] == 'null' and v[1] not in keep:
                keep.add(v[1])
                work.append(v[1])
        for f in st.frames:
            for k, v in f.items():
                if k != '#v':
                    ref(v)
        for v in st.g.values():
            if isinstance(v, tuple) and v and v[0] == 'p':
                ref(v)
        for r, i in st.reg.items():
            if i.get('pin'):
                ref(('p', r, L(0)))
        while work:
            r = work.pop()
            for k, (s, v) in st.mem.get(r, {}).items():
                ref(v)
        for r in list(st.reg):
            if r not in keep and (r[0] != 'heap' or not st.reg[r]['alive']):
                st.reg.pop(r, None)
                st.mem.pop(r, None)
                st.null.pop(r, None)
        for r in list(st.null):
            if r not in keep:
                del st.null[r]
        for r in list(st.mem):
            if r not in keep and r not in st.reg:
                del st.mem[r]

    def usedsyms(self, st):
        S = set()

        def add(v):
            if v[0] == 'n':
                S.update(v[1].syms())
            elif v[0] in ('p', 'c') and isinstance(v[2], L):
                S.update(v[2].syms())
            elif v[0] == 'agg':
                for x in v[1]:
                    add(x)
            elif v[0] == 'cat':
                add(v[1])
                add(v[2])
            elif v[0] == 'not':
                add(v[1])
        for v in self.slots(st).values():
            add(v)
        for c in st.mem.values():
            for k in c:
                S.update(k.syms())
        for i in st.reg.values():
            if i['size'] is not None:
                S.update(i['size'].syms())
            for a, b, es, v in i.get('iv', ()):
                S.update(a.syms())
                S.update(b.syms())
                add(v)
        return S

    def dkey(self, st):
        return (tuple(sorted(st.null.items(), key=str)), tuple(sorted(((k, v[:2] if isinstance(v, tuple) else v) for k, v in st.g.items() if not isinstance(v, L)), key=str)),
                tuple(sorted((str(r), i['alive'], i['default'], str(i['size'])) for r, i in st.reg.items())))

    def mapsyms(self, st, m):
        """rename symbols everywhere (m: sym -> L)"""
        def mv(v):
            if v[0] == 'n':
                return ('n', v[1].subst(m))
            if v[0] == 'p':
                return ('p', v[1], v[2].subst(m))
            if v[0] == 'c':
                return ('c', v[1], v[2].subst(m))
            if v[0] == 'agg':
                return ('agg', [mv(x) for x in v[1]])
            if v[0] == 'not':
                return ('not', mv(v[1]))
            if v[0] == 'cat':
                return ('cat', mv(v[1]), mv(v[2]))
            return v
        st.P = st.P.rename(m)
        st.frames = [{k: (v if k == '#v' else mv(v)) for k, v in f.items()} for f in st.frames]
        st.mem = {r: {k.subst(m): (s, mv(v)) for k, (s, v) in c.items()} for r, c in st.mem.items()}
        st.reg = {r: dict(i, size=i['size'].subst(m) if i['size'] is not None else None, **({'iv': tuple((a.subst(m), b.subst(m), es, mv(v)) for a, b, es, v in i['iv'])} if 'iv' in i else {})) for r, i in st.reg.items()}
        st.g = {k: (v.subst(m) if isinstance(v, L) else mv(v) if isinstance(v, tuple) and v and v[0] == 'p' else v) for k, v in st.g.items()}
        return st

    def join(self, A, S, owner, widen):
        """A joined with S; returns (new A, changed).  Slots that differ get canonical symbols named after owner."""
        S = S.copy()
        own = owner + '!'
        # previous canonical symbols become ordinary ones in S
        olds = {k for k in S.P.syms() | self.usedsyms(S) if k.startswith(own)}
        if olds:
            self.n += 1
            self.mapsyms(S, {k: sym('%s^%d' % (k[len(own):], self.n)) for k in olds})
        A = A.copy()
        sa, ss = self.slots(A), self.slots(S)
        newA = {}
        drop = []
        for k, va in sa.items():
            vs = ss.get(k)
            if vs is None:
                drop.append(k)
                continue
            if va == vs:
                continue
            cn = own + '.'.join(str(x) for x in k)

            def lin(ea, es, cn):
                c = sym(cn)
                if ea == c:
                    S.P.add_eq(c - es)
                elif A.P.entails_eq(ea - es) and S.P.entails_eq(ea - es) and not any(x.startswith(own) for x in es.syms() + ea.syms()):
                    return ea
                else:
                    A.P.add_eq(c - ea)
                    S.P.add_eq(c - es)
                return c
            if va[0] == 'n' and vs[0] == 'n':
                newA[k] = ('n', lin(va[1], vs[1], cn))
            elif va[0] == 'p' and vs[0] == 'p' and va[1] == vs[1]:
                newA[k] = ('p', va[1], lin(va[2], vs[2], cn))
            else:
                newA[k] = ('u', 0)
        changed = False
        for k, v in newA.items():
            if sa[k] != v:
                changed = True
            if k[0] == 'f':
                A.frames[k[1]] = dict(A.frames[k[1]])
                A.frames[k[1]][k[2]] = v
            elif k[0] == 'm':
                c = dict(A.mem[k[1]])
                c[k[2]] = (k[3], v)
                A.mem[k[1]] = c
            else:
                A.g[k[1]] = v[1] if v[0] == 'n' else v
        for k in drop:
            changed = True
            if k[0] == 'f':
                A.frames[k[1]] = dict(A.frames[k[1]])
                A.frames[k[1]].pop(k[2], None)
            elif k[0] == 'm':
                c = dict(A.mem[k[1]])
                c.pop(k[2], None)
                A.mem[k[1]] = c
                i = A.reg.get(k[1])
                if i and i['default'] in ('sym', 'zero', 'undef'):
                    A.reg[k[1]] = dict(i, default='u', weak=True)
        for k in ss:
            if k not in sa and k[0] == 'm':
                i = A.reg.get(k[1])
                if i and i['default'] in ('zero', 'undef'):
                    A.reg[k[1]] = dict(i, default='u', weak=True)
                    changed = True
        for r, inf in list(A.reg.items()):
            if inf.get('iv') and inf['iv'] != S.reg.get(r, {}).get('iv'):
                A.reg[r] = dict(inf, iv=())
                changed = True
        keep = self.usedsyms(A)
        old = A.P.copy()
        old.project(keep)
        R = join(A.P, S.P, keep, widen)
        if not changed:
            for e, q in old.constraints():
                if not (R.entails_eq(e) if q else R.entails_ge(e)):
                    changed = True
                    break
        A.P = R
        A.exact = False
        A.trace = S.trace if len(S.trace) < len(A.trace) else A.trace
        return A, changed

    # ---- execution
    def call(self, name, args, st, i=None):
        """-> outcomes [('ret', value, state) | ('exc', value, state)]"""
        f = self.F.get(name)
        self.calls += 1
        mdl = self.models.get(name) or self.model_for(name, f)
        if mdl:
            r = mdl(self, st, i, args)
            if r is not None:
                return r
        if f is None or f['decl']:
            return self.external(name, st, i, args)
        if len(self.stack) > self.maxdepth or sum(1 for a, b in self.stack if a == name) > 2:
            self.unknown.add('recursion:' + f['dem'][:80])
            return self.external(name, st, i, args)
        return self.run(name, args, st, i)

    def model_for(self, name, f):
        for p in IGN:
            if name.startswith(p):
                return lambda E, st, i, a: [('ret', ('u', 0), st)]
        if name.startswith('llvm.mem') or name in ('memcpy', 'memmove', 'memset'):
            return Rel.m_mem
        for n in ('umin', 'umax', 'smin', 'smax'):
            if name.startswith('llvm.%s.' % n):
                return lambda E, st, i, a, n=n: E.m_minmax(st, i, a, n)
        if name in ('_Znwm', '_Znam'):
            return Rel.m_new
        if name in ('_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t'):
            return Rel.m_newnt
        if name in ('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm'):
            return Rel.m_delete
        if name in ('__cxa_begin_catch', '__cxa_get_exception_ptr'):
            return lambda E, st, i, a: [('ret', a[0], st)]
        if name == '__cxa_end_catch':
            return lambda E, st, i, a: [('ret', ('u', 0), st)]
        if name in ('__cxa_throw', '__cxa_rethrow', '_ZSt20__throw_length_errorPKc', '_ZSt17__throw_bad_allocv', '_ZSt28__throw_bad_array_new_lengthv'):
            return lambda E, st, i, a: [('exc', ('u', 0), st)]
        if name.startswith('llvm.eh.typeid'):
            return lambda E, st, i, a: [('ret', N(E.fresh(st, 'typeid', 1, 9)), st)]
        if name in ('abort', '_ZSt9terminatev', '__clang_call_terminate', 'exit'):
            return lambda E, st, i, a: []
        return None

    def m_minmax(self, st, i, a, n):
        x, y = a
        out = []
        for c, s in self.icmp(st, ('u' if n[0] == 'u' else 's') + ('lt' if n[1:] == 'min' else 'gt'), x, y, i.get('ty', 'i64')):
            for b, t in self.truth(s, c):
                out.append(('ret', x if b else y, t))
        return out

    def m_new(self, st, i, a):
        out = []
        n = self.num(st, a[0])
        t = st.copy()
        r = self.region(t, 'heap', n if n is not None else None, 'undef', 'new@%s' % self.where(i))
        out.append(('ret', ('p', r, L(0)), t))
        if self.throws:
            e = st.copy()
            e.trace += ('allocation at %s fails' % self.where(i),)
            e.g['oom'] = True
            out.append(('exc', ('u', 0), e))
        return out

    def m_newnt(self, st, i, a):
        out = [o for o in self.m_new(st, i, a) if o[0] == 'ret']
        e = st.copy()
        out.append(('ret', ('p', None, L(0)), e))
        return out

    def m_delete(self, st, i, a):
        v = a[0]
        if v[0] == 'p' and v[1] and v[1] in st.reg:
            r = v[1]
            inf = st.reg[r]
            if self.checkmem:
                self.obl += 1
                if not inf['alive']:
                    self.fail(st, 'double@' + self.where(i), 'memory released twice', i)
                elif not st.P.entails_eq(v[2]):
                    self.fail(st, 'inner@' + self.where(i), 'release of a pointer that is not the start of its block', i)
                elif r[0] not in ('heap', 'lazy'):
                    self.fail(st, 'notheap@' + self.where(i), 'release of memory that was not allocated', i)
            st = st.copy()
            st.reg[r] = dict(inf, alive=False)
            st.mem[r] = {}
        return [('ret', ('u', 0), st)]

    def m_mem(self, st, i, a):
        st = st.copy()
        n = self.num(st, a[2])
        d = a[0]
        if n is not None and n.const() == 0 or n is None and False:
            return [('ret', d, st)]
        name = i['fn'][1] if i else ''
        if n is None:
            n = self.fresh(st, 'len', 0, None, True)
        A = self.access(st, d, n.const() or 0, i, 'write') if n.const() is not None else self.access_range(st, d, n, i, 'write')
        src = None
        if 'memset' not in name:
            src = self.access(st, a[1], n.const() or 0, i, 'read') if n.const() is not None else self.access_range(st, a[1], n, i, 'read')
        if A is None:
            return [('ret', d, st)]
        r, off = A
        off = st.P.red(off)
        c = n.const()
        if st.reg.get(r, {}).get('range'):
            if st.reg[r]['range'](self, st, r, off, n, src, a, i):
                return [('ret', d, st)]
        items = []
        whole = False
        if src:
            for k, (s, v) in self.cells(st, src[0]).items():
                dd = k - st.P.red(src[1])
                if st.P.entails_ge(dd) and st.P.entails_ge(n - dd - L(s)):
                    items.append((off + dd, s, v))
            sd = st.reg.get(src[0], {})
            if src[0][0] == 'glob' and c is not None and self.G.get(src[0][1], {}).get('const'):
                b = st.P.red(src[1]).const()
                g = self.G[src[0][1]]
                if b is not None:
                    for o, s, v in g['init']:
                        if b <= o and o + s <= b + c:
                            items.append((off + (o - b), s, self.val(st, v)))
        self.kill(st, r, off, n)
        info = st.reg.get(r)
        if 'memset' in name and self.num(st, a[1]) is not None and self.num(st, a[1]).const() == 0:
            if info and info['size'] is not None and st.P.entails_eq(off) and st.P.entails_eq(info['size'] - n):
                st.reg[r] = dict(info, default='zero', weak=False)
            elif c is not None and off.const() is not None and c <= 256 and c % 8 == 0:
                for k in range(0, c, 8):
                    items.append((off + k, 8, N(0)))
            elif info:
                st.reg[r] = dict(info, default='u', weak=True)
        elif info and info['default'] != 'u':
            # contents beyond the copied cells are unknown
            st.reg[r] = dict(info, default='u', weak=True)
        for o, s, v in items:
            self.put(st, r, st.P.red(o), s, v)
        return [('ret', d, st)]

    def access_range(self, st, v, n, i, what):
        A = self.access(st, v, 0, i, what)
        if A and self.checkmem:
            info = st.reg.get(A[0])
            if info and info['size'] is not None:
                self.obl += 1
                if not st.P.entails_ge(info['size'] - A[1] - n):
                    self.fail(st, 'range@' + self.where(i), '%s of %s bytes may reach beyond the end of its block' % (what, n), i)
        return A

    def external(self, name, st, i, args):
        self.unknown.add(self.F[name]['dem'][:90] if name in self.F else name)
        st = st.copy()
        ty = i.get('ty') if i else None
        for a in args:
            if a[0] == 'p' and a[1] and a[1][0] != 'glob':
                st.mem[a[1]] = {}
                if a[1] in st.reg:
                    st.reg[a[1]] = dict(st.reg[a[1]], default='u', weak=True)
        return [('ret', self.freshty(st, ty, 'ext', True) if ty else ('u', 0), st)]

    def run(self, name, args, st, i=None):
        f = self.F[name]
        if name not in self.info:
            self.info[name] = liveness(f)
        live, heads, succ = self.info[name]
        self.visited.add(name)
        st = st.copy()
        self.n += 1
        act = '%d' % len(self.stack) + '@' + name[-40:] + '@' + str(i.get('l') if i else '')
        fr = {k: a for k, a in enumerate(args)}
        fr['#v'] = {}
        st.frames.append(fr)
        self.stack.append((name, None))
        acc = {}
        outs = []
        stkregs = []
        work = [(0, None, st)]
        while work:
            bn, prev, s = work.pop()
            self.steps += 1
            if self.steps > self.budget:
                raise Budget('%s steps' % self.steps)
            # phis
            b = f['blocks'][bn]
            k = 0
            new = {}
            while k < len(b) and b[k]['op'] == 'phi':
                for pb, o in b[k]['in']:
                    if pb == prev:
                        v = self.val(s, o)
                        new[b[k]['d']] = v if v[0] != 'u' or b[k].get('ty') is None else v
                        break
                k += 1
            fr = {a: v for a, v in s.frames[-1].items() if a == '#v' or a in live[bn]}
            fr.update(new)
            s.frames[-1] = fr
            if bn in heads:
                self.gc(s)
                cnt = dict(fr['#v'])
                cnt[bn] = cnt.get(bn, 0) + 1
                fr['#v'] = cnt
                if self.onloop:
                    self.onloop(self, name, bn, s, cnt[bn])
                if cnt.get(('x', bn)):
                    continue
                snap = (self.slots(s), dict(s.P.ges), dict(s.P.eqs), self.dkey(s), s.dec)
                h = cnt.get(('h', bn), ())[-2:] + (snap,)
                cnt[('h', bn)] = h
                if len(h) == 3 and cnt[bn] <= self.unroll and s.exact:
                    q = self.accel(s, h)
                    if q:
                        self.accels += 1
                        s = q
                        s.frames[-1]['#v'] = dict(cnt)
                        s.frames[-1]['#v'][('x', bn)] = True
                        work.extend(self.block(f, name, bn, k, s, outs, stkregs))
                        continue
                if cnt[bn] > self.unroll:
                    self.loops += 1
                    key = (bn, self.dkey(s))
                    if key in acc:
                        A, n = acc[key]
                        A2, ch = self.join(A, s, 'J%s.%d.%d' % (act, bn, len(self.stack)), n > 2)
                        if not ch:
                            continue
                        acc[key] = (A2, n + 1)
                        if n > 40:
                            raise Budget('loop does not stabilise in ' + f['dem'][:80])
                        s = A2.copy()
                        s.frames[-1]['#v'] = {bn: cnt[bn]}
                    else:
                        acc[key] = (s.copy(), 0)
            work.extend(self.block(f, name, bn, k, s, outs, stkregs))
        self.stack.pop()
        res = []
        for kind, v, s in outs:
            s.frames = s.frames[:-1]
            for r in [r for r in s.reg if r[0] == 'stk' and s.reg[r].get('act') == len(self.stack)]:
                s.reg.pop(r, None)
                s.mem.pop(r, None)
            res.append((kind, v, s))
        if len(res) > self.mergelimit:
            res = self.merge(res, act)
        return res

    def accel(self, s, h):
        """all further turns of a loop whose turns differ by constant steps, as one exact state"""
        (s0, g0, e0, d0, c0), (s1, g1, e1, d1, c1), (s2, g2, e2, d2, c2) = h
        if not (d0 == d1 == d2 and e0 == e1 == e2 and set(g0) == set(g1) == set(g2)):
            return None
        def seg(a, b):
            out = []
            while b is not a:
                if b is None:
                    return None
                b, x = b
                out.append(x)
            return out[::-1]
        q1, q2 = seg(c0, c1), seg(c1, c2)
        if q1 is None or q2 is None or len(q1) != len(q2):
            return None
        conds = []
        for x, y in zip(q1, q2):
            if x[0] != y[0]:
                return None
            if x[0] == 'ld':
                if x != y:
                    return None
                continue
            d = (y[1] - x[1]).const()
            if d is None or (x[0] == 'eq' and d) or (x[0] == 'ne' and abs(d) > 1):
                return None
            if d:
                conds.append((y[1] + (-1 if y[0] == 'ne' else 0), d))
        step = {}
        cells = {}
        for k in s0:
            if k not in s1 or k not in s2:
                return None
        for k in s2:
            if k not in s1:
                if k[0] != 'm':
                    return None
                cells.setdefault(k[1], [None, None])[1] = k if cells.get(k[1], [None, None])[1] is None else 0
                continue
            if k not in s0:
                if k[0] != 'm':
                    return None
                cells.setdefault(k[1], [None, None])[0] = k if cells.get(k[1], [None, None])[0] is None else 0
                if s2[k] != s1[k]:
                    return None
                continue
            a, b, c = s0[k], s1[k], s2[k]
            if a == b == c:
                continue
            if a[0] == b[0] == c[0] == 'n':
                d, e = b[1] - a[1], c[1] - b[1]
            elif a[0] == b[0] == c[0] == 'p' and a[1] == b[1] == c[1]:
                d, e = b[2] - a[2], c[2] - b[2]
            else:
                return None
            if d != e or d.const() is None:
                return None
            step[k] = d.const()
        bounds = []
        for t in g2:
            d, e = g1[t] - g0[t], g2[t] - g1[t]
            if d != e:
                return None
            if d:
                bounds.append((L(g2[t], t), d))
        ivs = []
        for r, (p, q) in cells.items():
            if not p or not q or p[3] != q[3]:
                return None
            d = (q[2] - p[2]).const()
            if d is None or abs(d) != p[3]:
                return None
            if s2[p] == s2[q]:
                ivs.append((r, q[2], d, p[3], s2[q]))
            else:
                ivs.append((r, q[2], d, p[3], None))
        s = s.copy()
        self.n += 1
        t = sym('turns#%d' % self.n)
        s.P.add_ge(t)
        for e, d in bounds + conds:
            s.P.add_ge(e + t * d)
        for k, d in step.items():
            v = s2[k]
            v = ('n', v[1] + t * d) if v[0] == 'n' else ('p', v[1], v[2] + t * d)
            if k[0] == 'f':
                s.frames[k[1]] = dict(s.frames[k[1]])
                s.frames[k[1]][k[2]] = v
            elif k[0] == 'm':
                c = dict(s.mem[k[1]])
                c[k[2]] = (k[3], v)
                s.mem[k[1]] = c
            else:
                s.g[k[1]] = v[1] if v[0] == 'n' else v
        for r, q, d, sz, v in ivs:
            lo, hi = (q + d, q + d + t * d) if d > 0 else (q + d + sz + t * d, q + d + sz)
            self.kill(s, r, lo, hi - lo)
            inf = s.reg.get(r)
            if inf is None:
                return None
            if v is None:
                s.reg[r] = dict(inf, default='u', weak=True)
            else:
                s.reg[r] = dict(inf, iv=inf.get('iv', ()) + ((lo, hi, sz, v),))
        s.trace += ('(further turns)',)
        return s

    def merge(self, res, act):
        groups = {}
        for kind, v, s in res:
            s.frames[-1:] = [dict(s.frames[-1], **{'#r': v})] if s.frames else []
            self.gc(s)
            rk = (kind, v[0], v[1] if v[0] == 'p' else v[1].const() if v[0] == 'n' else None)
            k = (rk, self.dkey(s))
            if k in groups:
                groups[k], ch = self.join(groups[k], s, 'R%s' % act, False)
            else:
                groups[k] = s
        out = []
        for (rk, d), s in groups.items():
            fr = dict(s.frames[-1])
            v = fr.pop('#r', ('u', 0))
            s.frames[-1] = fr
            out.append((rk[0], v, s))
        return out

    def block(self, f, name, bn, k, st, outs, stkregs):
        """run the rest of a block; returns successors"""
        b = f['blocks'][bn]
        states = [(k, st)]
        nxt = []
        while states:
            k, s = states.pop()
            while True:
                i = b[k]
                self.stack[-1] = (name, i)
                self.steps += 1
                if self.steps > self.budget:
                    raise Budget('%s steps' % self.steps)
                r = self.step(f, i, s, bn, outs, nxt)
                if r is None:
                    break
                if isinstance(r, State):
                    s = r
                    k += 1
                    continue
                for t in r:
                    states.append((k + 1, t))
                break
        return nxt

    def setv(self, s, i, v):
        if 'd' in i:
            s.frames[-1][i['d']] = v

    def branchnote(self, s, i, t):
        if i.get('l') and 'Code/' in (i.get('f') or ''):
            s.trace = s.trace[-30:] + ('%s:%s %s' % (i['f'].split('/')[-1], i['l'], t),)

    def step(self, f, i, s, bn, outs, nxt):
        op = i['op']
        if op == 'br':
            if not i['a']:
                nxt.append((i['t'][0], bn, s))
                return None
            for b, t in self.truth(s, self.val(s, i['a'][0])):
                if t is s:
                    t = s.copy() if False else s
                self.branchnote(t, i, 'yes' if b else 'no')
                nxt.append((i['t'][0 if b else 1], bn, t))
            return None
        if op == 'switch':
            v = self.num(s, self.val(s, i['a'][0]))
            if v is None:
                for k in sorted({k for c, k in i['cases']} | {i['def']}):
                    t = s.copy()
                    t.exact = False
                    nxt.append((k, bn, t))
                return None
            rest = [s]
            for c, k in i['cases']:
                r2 = []
                for t in rest:
                    for b, u in self.truth(t, ('c', 'eq', v - L(int(c)))):
                        if b:
                            self.branchnote(u, i, 'case %s' % c)
                            nxt.append((k, bn, u))
                        else:
                            r2.append(u)
                rest = r2
            for t in rest:
                nxt.append((i['def'], bn, t))
            return None
        if op == 'ret':
            outs.append(('ret', self.val(s, i['a'][0]) if i.get('a') else ('u', 0), s))
            return None
        if op == 'resume':
            outs.append(('exc', ('u', 0), s))
            return None
        if op == 'unreachable':
            return None
        if op in ('call', 'invoke'):
            return self.docall(f, i, s, bn, outs, nxt)
        if op == 'alloca':
            n = self.num(s, self.val(s, i['a'][0]))
            size = n * i['size'] if n is not None else None
            r = ('stk', '%s.%s#%d' % (len(self.stack), i['d'], 0))
            s.reg[r] = dict(size=size, default='undef', alive=True, act=len(self.stack) - 1)
            s.mem[r] = {}
            self.setv(s, i, ('p', r, L(0)))
            return s
        if op == 'load':
            A = self.access(s, self.val(s, i['a'][0]), i['size'], i, 'read')
            if A is None:
                self.setv(s, i, self.freshty(s, i['ty'], 'bad', True))
                return s
            s.dec = (s.dec, ('ld', id(i), A[1]))
            if i['ty'] == 's' and i['size'] in (12, 16):
                # two-register aggregate {i64, i32} or {i64, i64}
                x = self.load(s, A[0], A[1], 8, 'i64', i)
                c = self.cells(s, A[0]).get(s.P.red(A[1] + 8))
                n = c[0] if c else 4
                self.setv(s, i, ('agg', [x, self.load(s, A[0], A[1] + 8, n, 'i%d' % (8 * n), i)]))
                return s
            self.setv(s, i, self.load(s, A[0], A[1], i['size'], i['ty'], i))
            return s
        if op == 'store':
            v = self.val(s, i['a'][0])
            if v[0] in ('c', 'not', 'null') and i['sty'] == 'i1':
                out = []
                for b, t in self.truth(s, v):
                    A = self.access(t, self.val(t, i['a'][1]), i['size'], i, 'write')
                    if A:
                        self.store(t, A[0], A[1], i['size'], N(int(b)), i)
                    out.append(t)
                return out
            A = self.access(s, self.val(s, i['a'][1]), i['size'], i, 'write')
            if A:
                self.store(s, A[0], A[1], i['size'], v, i)
            return s
        if op == 'getelementptr':
            p = self.val(s, i['a'][0])
            if p[0] == 'z':
                p = ('p', None, L(0))
            if p[0] != 'p' or not i.get('ok'):
                self.setv(s, i, ('u', 0))
                return s
            o = p[2] + i.get('off', 0)
            for sc, x, ty in i.get('idx', []):
                n = self.num(s, self.val(s, x))
                if n is None:
                    n = self.fresh(s, 'idx', None, None, True)
                o = o + n * sc
            self.setv(s, i, ('p', p[1], o))
            return s
        if op == 'icmp':
            r = self.icmp(s, i['p'], self.val(s, i['a'][0]), self.val(s, i['a'][1]), i.get('oty'))
            for v, t in r:
                self.setv(t, i, v)
            return s if len(r) == 1 and r[0][1] is s else [t for v, t in r]
        if op == 'select':
            r = self.truth(s, self.val(s, i['a'][0]))
            for b, t in r:
                self.setv(t, i, self.val(t, i['a'][1 if b else 2]))
            return s if len(r) == 1 and r[0][1] is s else [t for b, t in r]
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'addrspacecast'):
            return self.cast(i, s, op)
        if op in ('add', 'sub', 'mul', 'shl', 'and', 'or', 'xor', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            return self.arith(i, s, op)
        if op == 'landingpad':
            self.setv(s, i, ('agg', [('u', 0), ('n', self.fresh(s, 'sel', 0, 9))]))
            return s
        if op == 'extractvalue':
            v = self.val(s, i['a'][0])
            for k in i['i']:
                if v[0] == 'z':
                    v = ('z', None)
                elif v[0] == 'agg' and k < len(v[1]):
                    v = v[1][k]
                else:
                    v = ('u', 0)
            if v[0] == 'z':
                v = ('p', None, L(0)) if i['ty'] == 'p' else N(0)
            if v[0] == 'u' and width(i.get('ty', '')):
                v = self.freshty(s, i['ty'], 'ev', True)
            self.setv(s, i, v)
            return s
        if op == 'insertvalue':
            v = self.val(s, i['a'][0])
            x = list(v[1]) if v[0] == 'agg' else []
            if len(i['i']) == 1:
                k = i['i'][0]
                while len(x) <= k:
                    x.append(('u', 0))
                x[k] = self.val(s, i['a'][1])
                self.setv(s, i, ('agg', x))
            else:
                self.setv(s, i, ('u', 0))
            return s
        if op == 'fence':
            return s
        # floating point and the rest: opaque; results of conversions to integers are unknown
        if 'd' in i:
            self.setv(s, i, self.freshty(s, i['ty'], op, True) if width(i['ty']) else ('u', 0))
        return s

    def docall(self, f, i, s, bn, outs, nxt):
        fn = i['fn']
        args = [self.val(s, a) for a in i['a']]
        for k, n in i.get('bv', []):
            v = args[k]
            if v[0] == 'p' and v[1]:
                r = self.region(s, 'stk', L(n), 'u', 'byval')
                s.reg[r]['act'] = len(self.stack)
                c = {}
                for o, (sz, x) in self.cells(s, v[1]).items():
                    c[o - v[2]] = (sz, x)
                s.mem[r] = c
                args[k] = ('p', r, L(0))
        name = None
        if fn[0] == 'g':
            name = fn[1]
            res = self.call(name, args, s, i)
        else:
            v = self.val(s, fn) if fn[0] == 'v' else ('u', 0)
            if v[0] == 'p' and v[1] and v[1][0] == 'glob' and v[1][1] in self.F:
                res = self.call(v[1][1], args, s, i)
            elif self.virtual:
                res = self.virtual(self, s, i, args, v)
            else:
                res = self.external('indirect call', s, i, args)
        ok = []
        for kind, v, t in res:
            if kind == 'ret':
                if t is s and len(res) > 1:
                    t = s.copy()
                t.frames[-1] = dict(t.frames[-1])
                if 'd' in i:
                    if v[0] == 'u' and i.get('ty') and width(i['ty']):
                        v = self.freshty(t, i['ty'], 'r', True)
                    t.frames[-1][i['d']] = v
                if i['op'] == 'invoke':
                    nxt.append((i['n'], bn, t))
                else:
                    ok.append(t)
            else:
                if i['op'] == 'invoke':
                    t.frames[-1] = dict(t.frames[-1])
                    nxt.append((i['u'], bn, t))
                else:
                    outs.append(('exc', v, t))
        if i['op'] == 'invoke':
            return None
        return ok

    def cast(self, i, s, op):
        v = self.val(s, i['a'][0])
        w = width(i['ty'])
        if v[0] in ('c', 'not', 'null') or (v[0] == 'n' and i.get('from') == 'i1'):
            if op in ('freeze', 'bitcast'):
                self.setv(s, i, v)
                return s
            out = []
            for b, t in self.truth(s, v):
                self.setv(t, i, N((-1 if op == 'sext' else 1) if b else 0))
                out.append(t)
            return out
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'addrspacecast'):
            if op == 'inttoptr' and v[0] == 'n':
                v = ('p', None, v[1])
            if op == 'freeze' and v[0] == 'u':
                v = self.freshty(s, i['ty'], 'fz', True)
            if op == 'bitcast' and i.get('from') in ('d', 'f'):
                v = ('u', 0)
            self.setv(s, i, v)
            return s
        if v[0] == 'cat' and op == 'trunc' and w == 32:
            self.setv(s, i, v[1])
            return s
        x = self.num(s, v)
        if x is None:
            self.setv(s, i, self.freshty(s, i['ty'], op, True))
            return s
        if op == 'sext':
            self.setv(s, i, N(x))
            return s
        if op == 'zext':
            fw = width(i.get('from')) or 64
            r = self.unsigned(s, x, fw)
            for y, t in r:
                self.setv(t, i, N(y))
            return s if len(r) == 1 and r[0][1] is s else [t for y, t in r]
        # trunc
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        if w == 1:
            if s.P.entails_ge(x) and s.P.entails_ge(L(1) - x):
                self.setv(s, i, N(x))
            else:
                c = x.const()
                self.setv(s, i, N(c & 1) if c is not None else self.freshty(s, 'i1', 'tr', True))
            return s
        if x.const() is not None:
            self.setv(s, i, self.const(x.const() % (1 << w), i['ty']))
            return s
        if s.P.entails_ge(x - L(lo)) and s.P.entails_ge(L(hi) - x):
            self.setv(s, i, N(x))
            return s
        if s.P.entails_ge(x) and s.P.entails_ge(L((1 << w) - 1) - x):
            a, b = s.copy(), s.copy()
            a.P.add_ge(L(hi) - x)
            b.P.add_ge(x - L(hi + 1))
            self.note(a, x)
            self.note(b, x)
            self.setv(a, i, N(x))
            self.setv(b, i, N(x - L(1 << w)))
            return [t for t in (a, b) if not t.P.is_empty()]
        # in range: unchanged; out of range: some other value
        a, b = s.copy(), s.copy()
        a.P.add_ge(x - L(lo))
        a.P.add_ge(L(hi) - x)
        self.note(a, x)
        self.setv(a, i, N(x))
        outs = [a]
        for up in (True, False):
            c = s.copy()
            c.P.add_ge(x - L(hi + 1) if up else L(lo - 1) - x)
            self.note(c, x)
            if not c.P.is_empty():
                # x = y + k * 2^w
                y = self.fresh(c, 'tr', lo, hi)
                q = self.fresh(c, 'trk', 1 if up else None, None if up else -1)
                c.P.add_eq(x - y - q * (1 << w))
                self.setv(c, i, N(y))
                outs.append(c)
        return [t for t in outs if not t.P.is_empty()]

    def tocat(self, s, v):
        """64-bit value as (low, high) 32-bit values"""
        if v[0] == 'cat':
            return v[1], v[2]
        if v[0] == 'u':
            return v, v
        if v[0] == 'n':
            e = v[1]
            c = e.const()
            if c is not None:
                c %= 1 << 64
                return self.const(c & 0xffffffff, 'i32'), self.const(c >> 32, 'i32')
            if e.c % (1 << 32) == 0 and all(k % (1 << 32) == 0 for x, k in e.t):
                return N(0), N(L(e.c >> 32, tuple((x, k >> 32) for x, k in e.t)))
            if s.P.entails_ge(e) and s.P.entails_ge(L((1 << 31) - 1) - e):
                return v, N(0)
        return None

    def arith(self, i, s, op):
        a, b = [self.val(s, o) for o in i['a']]
        w = width(i['ty'])
        if w == 1:
            out = []
            for x, t in self.truth(s, a):
                if op == 'and' and not x or op == 'or' and x:
                    self.setv(t, i, N(int(x)))
                    out.append(t)
                    continue
                for y, u in self.truth(t, b):
                    u = u.copy() if u is t else u
                    self.setv(u, i, N(int({'and': x and y, 'or': x or y, 'xor': x != y, 'add': x != y, 'sub': x != y, 'mul': x and y}.get(op, False))))
                    out.append(u)
            return out
        # pointer differences as integers
        if a[0] == 'p' and a[1] and b[0] == 'p' and b[1] and op == 'sub' and a[1] == b[1]:
            self.setv(s, i, N(a[2] - b[2]))
            return s
        if a[0] == 'p' and a[1] and op in ('add', 'sub'):
            n = self.num(s, b)
            if n is not None:
                self.setv(s, i, ('p', a[1], a[2] + (n if op == 'add' else -n)))
                return s
        if w == 64 and op in ('or', 'and') and (a[0] in ('cat', 'u') or b[0] in ('cat', 'u') or op == 'or'):
            x, y = self.tocat(s, a), self.tocat(s, b)
            if x and y:
                out = []
                for p, q in zip(x, y):
                    p0, q0 = [z[0] == 'n' and z[1].const() for z in (p, q)]
                    if op == 'or':
                        out.append(q if p0 == 0 and p0 is not False else p if q0 == 0 and q0 is not False else None)
                    else:
                        out.append(N(0) if (p0 == 0 and p0 is not False) or (q0 == 0 and q0 is not False) else p if q0 == -1 else q if p0 == -1 else None)
                if None not in out:
                    hi = out[1]
                    if hi[0] == 'n' and hi[1].const() == 0 and out[0][0] == 'n' and s.P.entails_ge(out[0][1]):
                        self.setv(s, i, out[0])
                    else:
                        self.setv(s, i, ('cat', out[0], out[1]))
                    return s
        if a[0] == 'cat' and op in ('lshr', 'ashr') and self.num(s, b) == L(32):
            self.setv(s, i, a[2])
            return s
        x, y = self.num(s, a), self.num(s, b)
        r = None
        if x is not None and y is not None:
            cx, cy = x.const(), y.const()
            if cx is not None and cy is not None and w:
                ux, uy = cx % (1 << w), cy % (1 << w)
                try:
                    r = {'add': lambda: ux + uy, 'sub': lambda: ux - uy, 'mul': lambda: ux * uy, 'shl': lambda: ux << uy, 'and': lambda: ux & uy, 'or': lambda: ux | uy,
                         'xor': lambda: ux ^ uy, 'lshr': lambda: ux >> uy, 'ashr': lambda: cx >> uy, 'udiv': lambda: ux // uy, 'urem': lambda: ux % uy,
                         'sdiv': lambda: int(abs(cx) // abs(cy)) * (1 if (cx < 0) == (cy < 0) else -1), 'srem': lambda: (abs(cx) % abs(cy)) * (-1 if cx < 0 else 1)}[op]()
                    self.setv(s, i, self.const(r % (1 << w), i['ty']))
                    return s
                except ZeroDivisionError:
                    pass
            if op == 'add':
                r = x + y
            elif op == 'sub':
                r = x - y
            elif op == 'mul' and (cx is not None or cy is not None):
                r = x * cy if cy is not None else y * cx
            elif op == 'shl' and cy is not None and 0 <= cy < 62:
                r = x * (1 << cy)
            elif op in ('udiv', 'lshr', 'sdiv', 'ashr', 'urem', 'srem') and cy is not None and cy > 0:
                k = 1 << cy if op in ('lshr', 'ashr') else cy
                if s.P.entails_ge(x):
                    if all(v % k == 0 for q, v in x.t) and x.c % k == 0:
                        r = L(x.c // k, tuple((q, v // k) for q, v in x.t))
                    else:
                        r = self.fresh(s, 'q', 0, None, any(q[0] == '~' for q in x.syms()))
                        s.P.add_ge(x - r * k)
                        s.P.add_ge(r * k + (k - 1) - x)
                    if op in ('urem', 'srem'):
                        r = x - r * k
                elif op in ('sdiv', 'ashr') and all(v % k == 0 for q, v in x.t) and x.c % k == 0:
                    r = L(x.c // k, tuple((q, v // k) for q, v in x.t))
            elif op == 'and' and (cy is not None and cy >= 0 or cx is not None and cx >= 0):
                m = cy if cy is not None and cy >= 0 else cx
                z = x if m is cy else y
                if (m & (m + 1)) == 0 and s.P.entails_ge(z) and s.P.entails_ge(L(m) - z):
                    r = z
                elif (m & (m + 1)) == 0 and s.P.entails_ge(z):
                    q = self.fresh(s, 'hi', 0, None)
                    r = self.fresh(s, 'lo', 0, m, any(q2[0] == '~' for q2 in z.syms()))
                    s.P.add_eq(z - r - q * (m + 1))
                else:
                    r = self.fresh(s, 'and', 0, m, True)
            elif op == 'and' and cy is not None and cy < 0 and ((-cy) & (-cy - 1)) == 0:
                # clear low bits: z & -k
                k = -cy
                if s.P.entails_ge(x):
                    q = self.fresh(s, 'q', 0, None, any(q2[0] == '~' for q2 in x.syms()))
                    s.P.add_ge(x - q * k)
                    s.P.add_ge(q * k + (k - 1) - x)
                    r = q * k
            elif op == 'xor' and cy == -1:
                r = -x + -1
        if r is None:
            self.setv(s, i, self.freshty(s, i['ty'], op, True))
            return s
        if w and w < 32 and not (s.P.entails_ge(r - L(-(1 << (w - 1)))) and s.P.entails_ge(L((1 << w) - 1) - r)):
            self.setv(s, i, self.freshty(s, i['ty'], op, True))
            return s
        self.setv(s, i, N(r))
        return s
