"""Linear expressions over integer symbols and convex sets of them (equalities and inequalities): the numeric domain of rel.py."""
from fractions import Fraction
from math import gcd


class L:
    """const + sum coeff*symbol, integer coefficients, immutable"""
    __slots__ = ('c', 't', '_k')

    def __init__(self, c=0, t=()):
        self.c = c
        self.t = t if isinstance(t, tuple) else tuple(sorted((k, v) for k, v in t.items() if v))
        self._k = (self.c, self.t)

    def __add__(a, b):
        if isinstance(b, int):
            return L(a.c + b, a.t)
        if not b.t:
            return L(a.c + b.c, a.t)
        if not a.t:
            return L(a.c + b.c, b.t)
        d = dict(a.t)
        for k, v in b.t:
            d[k] = d.get(k, 0) + v
        return L(a.c + b.c, d)

    def __mul__(a, n):
        return L(a.c * n, tuple((k, v * n) for k, v in a.t)) if n else L(0)

    def __neg__(a):
        return a * -1

    def __sub__(a, b):
        return a + (-b)

    def __eq__(a, b):
        return isinstance(b, L) and a._k == b._k

    def __hash__(a):
        return hash(a._k)

    def const(a):
        return a.c if not a.t else None

    def syms(a):
        return [k for k, v in a.t]

    def subst(a, m):
        if not any(k in m for k, v in a.t):
            return a
        r = L(a.c, tuple((k, v) for k, v in a.t if k not in m))
        for k, v in a.t:
            if k in m:
                r = r + m[k] * v
        return r

    def __repr__(a):
        s = ' + '.join(('%s*' % v if v != 1 else '') + k for k, v in a.t)
        return (s + (' + %d' % a.c if a.c else '')) if s else str(a.c)


def sym(n):
    return L(0, ((n, 1),))


def norm(e):
    """tighten e >= 0 over the integers"""
    g = 0
    for k, v in e.t:
        g = gcd(g, v)
    if g > 1:
        return L(e.c // g, tuple((k, v // g) for k, v in e.t))
    return e


def lp(cols, target, costs):
    """min sum costs*x with sum cols*x = target, x >= 0 (exact integer-pivoting simplex, Bland); None if infeasible, '-' if unbounded"""
    rows = sorted({k for c in cols for k in c} | set(target))
    m, n = len(rows), len(cols)
    T = []
    W = n + m + 1
    for i, k in enumerate(rows):
        r = [c.get(k, 0) for c in cols] + [0] * m + [target.get(k, 0)]
        if r[-1] < 0:
            r = [-x for x in r]
        r[n + i] = 1
        T.append(r)
    basis = [n + i for i in range(m)]
    den = [1]

    def pivot(i, e, z):
        R = T[i]
        pv = R[e]
        D = den[0]
        for k in range(m):
            if k != i:
                X = T[k]
                f = X[e]
                if f:
                    T[k] = [(x * pv - f * y) // D if y else x * pv // D for x, y in zip(X, R)]
                elif pv != D:
                    T[k] = [x * pv // D for x in X]
        f = z[e]
        if f:
            z = [(x * pv - f * y) // D if y else x * pv // D for x, y in zip(z, R)]
        elif pv != D:
            z = [x * pv // D for x in z]
        den[0] = pv
        basis[i] = e
        if pv < 0:
            den[0] = -pv
            for k in range(m):
                T[k] = [-x for x in T[k]]
            z = [-x for x in z]
        return z

    def run(cost, limit):
        D = den[0]
        z = [x * D for x in cost]
        for i, b in enumerate(basis):
            if cost[b]:
                f = cost[b]
                z = [a - f * x for a, x in zip(z, T[i])]
        it = 0
        while True:
            it += 1
            if it > 300:
                return 'x', z
            e = next((j for j in range(limit) if z[j] < 0), None)
            if e is None:
                return 'o', z
            best = None
            for i in range(m):
                if T[i][e] > 0:
                    if best is None:
                        best = i
                    else:
                        d = T[i][-1] * T[best][e] - T[best][-1] * T[i][e]
                        if d < 0 or (d == 0 and basis[i] < basis[best]):
                            best = i
            if best is None:
                return 'u', z
            z = pivot(best, e, z)
    s, z = run([0] * n + [1] * m + [0], n + m)
    if s != 'o' or z[-1] != 0:
        return None
    for i, b in enumerate(basis):       # drive artificials out
        if b >= n:
            e = next((j for j in range(n) if T[i][j]), None)
            if e is not None:
                pivot(i, e, [0] * W)
    s, z = run(list(costs) + [0] * (m + 1), n)
    if s == 'u':
        return '-'
    if s != 'o':
        return None
    return Fraction(-z[-1], den[0])


class P:
    """conjunction of equalities (solved form) and inequalities e >= 0"""

    def __init__(self, eqs=None, ges=None, empty=False):
        self.eqs = eqs or {}
        self.ges = ges or {}      # terms -> least constant
        self.empty = empty
        self.cache = {}
        self.dirty = []

    def copy(self):
        p = P(dict(self.eqs), dict(self.ges), self.empty)
        p.cache = self.cache
        p.dirty = list(self.dirty)
        return p

    def red(self, e):
        return e.subst(self.eqs)

    def _ge(self, e):
        e = norm(e)
        if not e.t:
            if e.c < 0:
                self.empty = True
            return
        o = self.ges.get(e.t)
        if o is None or e.c < o:
            self.ges[e.t] = e.c
            self.dirty.append(e.t)

    def add_ge(self, e):
        e = self.red(e)
        if not e.t and e.c >= 0:
            return
        self.cache = {}
        self._ge(e)
        # equality from two opposite bounds
        n = norm(e)
        neg = tuple((k, -v) for k, v in n.t)
        if neg in self.ges and n.t in self.ges and self.ges[neg] == -self.ges[n.t]:
            self.add_eq(L(self.ges[n.t], n.t))

    def add_eq(self, e):
        e = self.red(e)
        if not e.t:
            if e.c:
                self.empty = True
            return
        self.cache = {}
        g = 0
        for k, v in e.t:
            g = gcd(g, v)
        if e.c % g:
            self.empty = True
            return
        if g > 1:
            e = L(e.c // g, tuple((k, v // g) for k, v in e.t))
        k = next((k for k, v in reversed(e.t) if abs(v) == 1), None)
        if k is None:
            self._ge(e)
            self._ge(-e)
            return
        v = dict(e.t)[k]
        r = L(e.c, tuple(x for x in e.t if x[0] != k)) * (-v)
        m = {k: r}
        self.eqs = {a: b.subst(m) for a, b in self.eqs.items()}
        self.eqs[k] = r
        old = self.ges
        self.ges = {}
        for t, c in old.items():
            self._ge(L(c, t).subst(m))

    def _rel(self, syms):
        """inequalities connected with the symbols"""
        S = set(syms)
        out = []
        rest = list(self.ges.items())
        ch = True
        while ch:
            ch = False
            nr = []
            for t, c in rest:
                if any(k in S for k, v in t):
                    S.update(k for k, v in t)
                    out.append((t, c))
                    ch = True
                else:
                    nr.append((t, c))
            rest = nr
        return out

    def entails_ge(self, e):
        if self.empty:
            return True
        e = self.red(e)
        if not e.t:
            return e.c >= 0 or self.is_empty()
        o = self.ges.get(e.t)
        if o is not None and o <= e.c:
            return True
        k = (e.c, e.t)
        r = self.cache.get(k)
        if r is None:
            cs = self._rel(e.syms())
            v = lp([dict(t) for t, c in cs], dict(e.t), [c for t, c in cs]) if cs else None
            r = v == '-' or (v is not None and v <= e.c)
            self.cache[k] = r
        return r

    def entails_eq(self, e):
        if self.empty:
            return True
        e = self.red(e)
        if not e.t:
            return e.c == 0
        return self.entails_ge(e) and self.entails_ge(-e)

    def is_empty(self):
        if self.empty:
            return True
        # the set was non-empty before the new constraints: test each against the part it is connected with
        d, self.dirty = self.dirty, []
        while d:
            t = d.pop()
            c = self.ges.get(t)
            if c is None:
                continue
            if len(t) == 1 and sum(1 for u in self.ges if any(k == t[0][0] for k, v in u)) == 1:
                continue
            cs = [(u, x) for u, x in self._rel([k for k, v in t]) if u != t]
            if not cs:
                continue
            # others entail  -e - 1 >= 0 ?
            v = lp([dict(u) for u, x in cs], {k: -w for k, w in t}, [x for u, x in cs])
            if v == '-' or (v is not None and v <= -c - 1):
                self.empty = True
                return True
            if d:
                comp = {u for u, x in cs} | {t}
                # t was compatible with everything it is connected to, including the other new ones only if those are compatible themselves
                d = [u for u in d if u != t]
        return False

    def sat_with_ge(self, e):
        p = self.copy()
        p.add_ge(e)
        return not p.is_empty()

    def constraints(self):
        return [(L(0, ((k, 1),)) - r, True) for k, r in self.eqs.items()] + [(L(c, t), False) for t, c in self.ges.items()]

    def syms(self):
        S = set(self.eqs)
        for r in self.eqs.values():
            S.update(r.syms())
        for t in self.ges:
            S.update(k for k, v in t)
        return S

    def rename(self, m):
        """m: symbol -> L(symbol)"""
        p = P(empty=self.empty)
        for e, q in self.constraints():
            (p.add_eq if q else p.add_ge)(e.subst(m))
        return p

    def project(self, keep):
        """forget every symbol not in keep"""
        if self.is_empty():
            return
        self.cache = {}
        # equalities: prefer solving for symbols to be dropped
        for k in [k for k in self.eqs if k in keep]:
            r = self.eqs[k]
            d = next((s for s, v in r.t if s not in keep and abs(v) == 1), None)
            if d:
                del self.eqs[k]
                v = dict(r.t)[d]
                rest = L(r.c, tuple(x for x in r.t if x[0] != d))
                nd = (L(0, ((k, 1),)) - rest) * v
                m = {d: nd}
                self.eqs = {a: b.subst(m) for a, b in self.eqs.items()}
                self.eqs[d] = nd
                old = self.ges
                self.ges = {}
                for t, c in old.items():
                    self._ge(L(c, t).subst(m))
        for k in [k for k in self.eqs if k not in keep]:
            del self.eqs[k]
        for k in [k for k, r in self.eqs.items() if any(s not in keep for s in r.syms())]:
            del self.eqs[k]
        drop = {s for t in self.ges for s, v in t if s not in keep}
        while drop:
            def cost(s):
                a = sum(1 for t in self.ges if dict(t).get(s, 0) > 0)
                b = sum(1 for t in self.ges if dict(t).get(s, 0) < 0)
                return a * b - a - b
            s = min(sorted(drop), key=cost)
            drop.discard(s)
            pos, neg, rest = [], [], {}
            for t, c in self.ges.items():
                v = dict(t).get(s, 0)
                if v > 0:
                    pos.append((v, L(c, t)))
                elif v < 0:
                    neg.append((-v, L(c, t)))
                else:
                    rest[t] = c
            self.ges = rest
            if len(pos) * len(neg) > 60:
                continue
            for a, x in pos:
                for b, y in neg:
                    self._ge(x * b + y * a)
        if len(self.ges) > 50:
            self.prune()

    def prune(self):
        for t in sorted(self.ges, key=lambda t: (-len(t), t)):
            c = self.ges.pop(t)
            self.cache = {}
            if not self.entails_ge(L(c, t)):
                self.ges[t] = c
        self.cache = {}


def affine_hull(A, B):
    """equalities that hold in both (the affine hull of the union)"""
    S = sorted(A.syms() | B.syms())
    # a x = 0 spaces: represent A by solved equalities; candidates e = sum mu_i * eqA_i must hold in B
    ea = [L(0, ((k, 1),)) - r for k, r in A.eqs.items()]
    # reduce each eq of A modulo B: residual linear forms; find integer combinations with zero residual
    res = [(B.red(e), e) for e in ea]
    out = []
    piv = []
    for r, e in res:
        for pr, pe, k in piv:
            v = dict(r.t).get(k, 0) if k is not None else r.c
            if v:
                w = dict(pr.t)[k] if k is not None else pr.c
                r, e = r * w - pr * v, e * w - pe * v
        if not r.t and not r.c:
            g = 0
            for k, v in e.t:
                g = gcd(g, v)
            if g > 1 and e.c % g == 0:
                e = L(e.c // g, tuple((k, v // g) for k, v in e.t))
            out.append(e)
        else:
            piv.append((r, e, r.t[0][0] if r.t else None))
    return out


def join(A, B, keep, widen=False):
    if A.is_empty():
        return B.copy()
    if B.is_empty():
        return A.copy()
    A, B = A.copy(), B.copy()
    A.project(keep)
    B.project(keep)
    R = P()
    for e in affine_hull(A, B):
        R.add_eq(e)
    ca = []
    for e, q in A.constraints():
        ca += [e, -e] if q else [e]
    for e in ca:
        if B.entails_ge(e):
            R.add_ge(e)
    if not widen:
        cb = []
        for e, q in B.constraints():
            cb += [e, -e] if q else [e]
        for e in cb:
            if A.entails_ge(e):
                R.add_ge(e)
    return R
