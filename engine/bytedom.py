"""Abstract interpreter over the dumped IR for code that reads a text of undetermined bytes.

Every byte of the text is a class (a set of byte values).  An integer of the program is a number or a sum of per-byte tables, `c + t1(byte1) + ...`;
a condition that holds for only some bytes of a class splits the class into exactly the two parts, so every state describes exactly the product of its
classes and no state carries approximated information.  What cannot be expressed this way raises Unknown, and the path is reported as undecided."""
import operator
import functools, math, struct


class Unknown(Exception):
    pass


def known(v):
    """the number of a token whose characters are all decided"""
    if type(v) is not tuple:
        return None
    if v[0] == 'neg':
        x = known(v[1])
        return -x if x is not None else None
    if v[0] == 'abs':
        x = known(v[1])
        return abs(x) if x is not None else None
    if v[0] == 'sub0':
        x = known(v[1])
        return 0.0 - x if x is not None else None
    if v[0] == 'd':
        return struct.unpack('<d', struct.pack('<Q', v[1]))[0]
    if v[0] == 'num' and all(type(c) is int for c in v[1]):
        return float(bytes(v[1]).decode())
    return None


def double(x):
    return ('d', struct.unpack('<Q', struct.pack('<d', x))[0])


def arith(op, ty, x, y):
    """the result of an operation on numbers that are known"""
    if x is None or y is None or ty != 'f64':
        return None
    try:
        if op == 'fdiv' and y == 0:
            return None
        return double({'fmul': lambda: x * y, 'fsub': lambda: x - y, 'fdiv': lambda: x / y, 'fadd': lambda: x + y, 'frem': lambda: math.fmod(x, y)}[op]())
    except (OverflowError, ValueError):
        return None


def rounding(name):
    f = {'trunc': math.trunc, 'floor': math.floor, 'ceil': math.ceil, 'rint': round, 'nearbyint': round, 'round': lambda x: math.trunc(x + math.copysign(0.5, x))}.get(name)

    def g(E, st, fr, i, a):
        x = known(a[0])
        if x is None or i.get('ty') != 'f64':
            raise Unknown('rounding of a number')
        return double(math.copysign(float(f(x)), x) if abs(x) < 1 << 52 else x)
    return g if f else None


class Split(Exception):
    def __init__(s, k, masks):
        s.k, s.masks = k, masks


class Bad(Exception):
    """a violation of a memory rule on a path that is possible"""
    def __init__(s, key, text):
        s.key, s.text = key, text


FULL = (1 << 256) - 1
U = ('u',)


@functools.lru_cache(100000)
def members(m):
    out = []
    b = 0
    while m:
        if m & 1:
            out.append(b)
        m >>= 1
        b += 1
    return tuple(out)


def maskof(bs):
    m = 0
    for b in bs:
        m |= 1 << b
    return m


def issum(v):
    return type(v) is tuple and v[0] == 's'


def signed(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


class Dom:
    """arithmetic under the classes `mask`"""
    def __init__(s, mask):
        s.mask = mask

    def byte(s, k):
        m = s.mask[k]
        if m & (m - 1) == 0:
            return m.bit_length() - 1
        return ('s', 0, ((k, {b: b for b in members(m)}),))

    def norm(s, v):
        """drop what the classes have decided; every part's least entry moves to the constant"""
        if not issum(v):
            return v
        c, parts = v[1], []
        for k, t in v[2]:
            ms = members(s.mask[k])
            vals = t.values() if len(t) == len(ms) else [t[b] for b in ms]
            lo = min(vals)
            c += lo
            if max(vals) != lo:
                parts.append((k, {b: t[b] - lo for b in ms} if lo or len(t) != len(ms) else t))
        if not parts:
            return c
        return ('s', c, tuple(parts))

    def rng(s, v):
        """least and greatest value"""
        if not issum(v):
            return v, v
        lo = hi = v[1]
        for k, t in v[2]:
            ms = members(s.mask[k])
            vals = t.values() if len(t) == len(ms) else [t[b] for b in ms]
            lo += min(vals)
            hi += max(vals)
        return lo, hi

    def keys(s, *vs):
        out = []
        for v in vs:
            if issum(v):
                for k, t in v[2]:
                    if k not in out:
                        out.append(k)
        return out

    def at(s, v, k, b):
        """value of a number that depends on byte k only"""
        if not issum(v):
            return v
        ps = v[2]
        if len(ps) == 1:
            return v[1] + ps[0][1][b]
        return v[1] + sum(t[b] for q, t in ps)

    def split(s, *vs):
        """refine the part with the widest range into single values"""
        best = None
        for v in vs:
            if issum(v):
                for k, t in v[2]:
                    vals = {t[b] for b in members(s.mask[k])}
                    if len(vals) > 1 and (best is None or max(vals) - min(vals) > best[0]):
                        best = (max(vals) - min(vals), k, t)
        if best is None:
            raise Unknown('nothing to split')
        k, t = best[1], best[2]
        by = {}
        for b in members(s.mask[k]):
            by[t[b]] = by.get(t[b], 0) | 1 << b
        raise Split(k, list(by.values()))

    def table(s, k, f):
        """a number given pointwise over byte k"""
        return s.norm(('s', 0, ((k, {b: f(b) for b in members(s.mask[k])}),)))

    def arith(s, op, a, b, w):
        if type(a) is int and type(b) is int:
            return conc(op, a, b, w)
        for v in (a, b):
            if type(v) is not int and not issum(v):
                raise Unknown('%s of %s' % (op, v[0] if type(v) is tuple else v))
        a, b = s.norm(a), s.norm(b)
        ks = s.keys(a, b)
        if not ks:
            return conc(op, a, b, w)
        if len(ks) == 1:
            k = ks[0]
            return s.table(k, lambda x: conc(op, s.at(a, k, x), s.at(b, k, x), w))
        if op in ('add', 'sub', 'or', 'xor'):
            if op in ('or', 'xor'):
                for x, y in ((a, b), (b, a)):
                    z = s.zeros(x)
                    if s.rng(y)[1] < 1 << z:
                        return s.plus(a, b, 1)
                s.split(a, b)
            r = s.plus(a, b, 1 if op == 'add' else -1)
            lo, hi = s.rng(r)
            if 0 <= lo and hi < 1 << w:
                return r
            if lo >= 1 << w or hi < 0:
                r2 = s.plus(r, -(lo >> w << w), 1)
                if s.rng(r2)[1] < 1 << w:
                    return r2
            s.split(a, b)
        if op == 'mul' and type(b) is not int:
            a, b = b, a
        if op == 'shl' and type(b) is int:
            op, b = 'mul', 1 << b
        if op == 'mul' and type(b) is int:
            r = ('s', a[1] * b, tuple((k, {x: y * b for x, y in t.items()}) for k, t in a[2]))
            if s.rng(r)[1] < 1 << w:
                return s.norm(r)
            s.split(a)
        if op == 'lshr' and type(b) is int:
            return s.high(a, b)
        if op == 'ashr' and type(b) is int and s.rng(a)[1] < 1 << (w - 1):
            return s.high(a, b)
        if op == 'and':
            if type(b) is not int:
                a, b = b, a
            if type(b) is int and b:
                lo = (b & -b).bit_length() - 1
                n = b >> lo
                if n & (n + 1) == 0:
                    x = s.low(s.high(a, lo) if lo else a, n.bit_length())
                    if not lo:
                        return x
                    return s.arith('shl', x, lo, w)
                r = 0
                j = 0
                while n:
                    # one run of ones after the other
                    z = (n & -n).bit_length() - 1
                    n >>= z
                    j += z
                    l = ((n + 1) & -(n + 1)).bit_length() - 1
                    run = ((1 << l) - 1) << (j + lo)
                    r = s.arith('add', r, s.arith('and', a, run, w), w)
                    n >>= l
                    j += l
                return r
            if b == 0:
                return 0
        s.split(a, b)

    def zeros(s, v):
        """trailing zero bits of every value of v"""
        if not issum(v):
            return 64 if v == 0 else (v & -v).bit_length() - 1
        z = 64
        for x in [v[1]] + [t[b] for k, t in v[2] for b in members(s.mask[k])]:
            if x:
                z = min(z, (x & -x).bit_length() - 1)
        return z

    def plus(s, a, b, sign):
        c = (a[1] if issum(a) else a) + sign * (b[1] if issum(b) else b)
        p = dict(a[2]) if issum(a) else {}
        for k, t in (b[2] if issum(b) else ()):
            q = p.get(k)
            p[k] = {x: (q[x] if q else 0) + sign * t[x] for x in members(s.mask[k])}
        return s.norm(('s', c, tuple(p.items())))

    def low(s, v, n):
        v = s.norm(v)
        if not issum(v):
            return v & ((1 << n) - 1)
        m = 1 << n
        r = ('s', v[1] % m, tuple((k, {b: t[b] % m for b in members(s.mask[k])}) for k, t in v[2]))
        if s.rng(r)[1] < m:
            return s.norm(r)
        s.split(v)

    def high(s, v, n):
        v = s.norm(v)
        if not issum(v):
            return v >> n
        m = 1 << n
        r = ('s', v[1] % m, tuple((k, {b: t[b] % m for b in members(s.mask[k])}) for k, t in v[2]))
        if s.rng(r)[1] < m:
            return s.norm(('s', v[1] >> n, tuple((k, {b: t[b] >> n for b in members(s.mask[k])}) for k, t in v[2])))
        s.split(v)

    def cmp(s, p, a, b, w):
        if type(a) is int and type(b) is int:
            return ccmp(p, a, b, w)
        a, b = s.norm(a), s.norm(b)
        ks = s.keys(a, b)
        if len(ks) <= 1:
            if not ks:
                return ccmp(p, a, b, w)
            if p[0] != 's':
                # values that cannot meet
                (al, ah), (bl, bh) = s.rng(a), s.rng(b)
                if 0 <= al and ah < bl:
                    return int(p in ('ne', 'ult', 'ule'))
                if 0 <= bl and bh < al:
                    return int(p in ('ne', 'ugt', 'uge'))
            k = ks[0]
            return s.table(k, lambda x: ccmp(p, s.at(a, k, x), s.at(b, k, x), w))
        if p[0] == 's':
            # both non-negative
            if s.rng(a)[1] < 1 << (w - 1) and s.rng(b)[1] < 1 << (w - 1):
                p = 'u' + p[1:]
            else:
                s.split(a, b)
        d = s.plus(a, b, -1)
        lo, hi = s.rng(d)
        if p in ('eq', 'ne'):
            if lo > 0 or hi < 0:
                return int(p == 'ne')
            if lo == hi == 0:
                return int(p == 'eq')
        else:
            r = {'ult': (hi < 0, lo >= 0), 'ule': (hi <= 0, lo > 0), 'ugt': (lo > 0, hi <= 0), 'uge': (lo >= 0, hi < 0)}[p]
            if r[0]:
                return 1
            if r[1]:
                return 0
        # the widest part of the difference: below, above, and each value that leaves it open
        k, t = max(d[2], key=lambda q: max(q[1].values()) - min(q[1].values()))
        rest = ('s', d[1], tuple(q for q in d[2] if q[0] != k))
        rl, rh = s.rng(rest)
        by = {}
        for x in members(s.mask[k]):
            g = '<' if t[x] + rh < 0 else '>' if t[x] + rl > 0 else t[x]
            by[g] = by.get(g, 0) | 1 << x
        if len(by) < 2:
            s.split(a, b)
        raise Split(k, list(by.values()))

    def const(s, v):
        """the one value of v under the classes, or a split"""
        v = s.norm(v)
        if issum(v):
            s.split(v)
        return v

    def inset(s, v, vals):
        """whether the number is one of vals"""
        v = s.norm(v)
        if not issum(v):
            return v in vals
        if len(v[2]) > 1:
            lo, hi = s.rng(v)
            if hi < min(vals) or lo > max(vals):
                return False
            s.split(v)
        k, t = v[2][0]
        y = n = 0
        for b in members(s.mask[k]):
            if v[1] + t[b] in vals:
                y |= 1 << b
            else:
                n |= 1 << b
        if not n:
            return True
        if not y:
            return False
        raise Split(k, [y, n])

    def same(s, a, b):
        """whether two numbers are equal for every byte of the classes; also returns a difference to show"""
        a, b = s.norm(a), s.norm(b)
        if not issum(a) and not issum(b):
            return a == b
        if type(a) is tuple and a[0] != 's' or type(b) is tuple and b[0] != 's':
            return a == b
        d = s.plus(a, b, -1)
        return d == 0


def conc(op, a, b, w):
    M = (1 << w) - 1
    if op == 'add':
        return (a + b) & M
    if op == 'sub':
        return (a - b) & M
    if op == 'mul':
        return (a * b) & M
    if op == 'and':
        return a & b
    if op == 'or':
        return a | b
    if op == 'xor':
        return a ^ b
    if op == 'shl':
        if b >= w:
            raise Unknown('shift by %d' % b)
        return (a << b) & M
    if op == 'lshr':
        if b >= w:
            raise Unknown('shift by %d' % b)
        return a >> b
    if op == 'ashr':
        return (signed(a, w) >> b) & M
    if op in ('udiv', 'urem', 'sdiv', 'srem') and b == 0:
        raise Unknown('division by zero')
    if op == 'udiv':
        return a // b
    if op == 'urem':
        return a % b
    x, y = signed(a, w), signed(b, w)
    q = abs(x) // abs(y)
    if (x < 0) != (y < 0):
        q = -q
    if op == 'sdiv':
        return q & M
    if op == 'srem':
        return (x - q * y) & M
    raise Unknown(op)


def ccmp(p, a, b, w):
    if p[0] == 's':
        a, b = signed(a, w), signed(b, w)
        p = 'u' + p[1:]
    return int(COMPARE[p](a, b))


COMPARE = {'eq': operator.eq, 'ne': operator.ne, 'ult': operator.lt, 'ule': operator.le, 'ugt': operator.gt, 'uge': operator.ge}


class State:
    __slots__ = ('mask', 'mem', 'own', 'reg', 'regown', 'frames', 'out', 'n', 'steps', 'notes')

    def __init__(s):
        s.mask = []
        s.mem = {}       # region -> {offset: (size, value)}
        s.own = set()
        s.reg = {}       # region -> (size, kind, alive, where)
        s.frames = []
        s.out = ()       # events, linked (previous, event)
        s.n = 0
        s.steps = 0

    def copy(s):
        t = State()
        t.mask = list(s.mask)
        t.mem = dict(s.mem)
        s.own = set()
        t.own = set()
        t.reg = dict(s.reg)
        t.frames = [f.copy() for f in s.frames]
        t.out = s.out
        t.n = s.n
        t.steps = s.steps
        return t

    def events(s):
        o, r = s.out, []
        while o:
            r.append(o[1])
            o = o[0]
        return r[::-1]

    def wcells(s, r):
        if r in s.own:
            return s.mem[r]
        c = s.mem[r] = dict(s.mem[r])
        s.own.add(r)
        return c

    def new(s, kind, size, where=''):
        s.n += 1
        r = '%s%d' % (kind, s.n)
        s.reg[r] = (size, kind, True, where)
        s.mem[r] = {}
        s.own.add(r)
        return r


class Frame:
    __slots__ = ('f', 'bn', 'ix', 'prev', 'regs', 'stk', 'call')

    def __init__(s, f, regs):
        s.f, s.bn, s.ix, s.prev, s.regs, s.stk, s.call = f, 0, 0, None, regs, (), None

    def copy(s):
        t = Frame(s.f, dict(s.regs))
        t.bn, t.ix, t.prev, t.stk, t.call = s.bn, s.ix, s.prev, s.stk, s.call
        return t


def width(ty):
    return int(ty[1:]) if ty and ty[0] == 'i' and ty[1:].isdigit() else None


IGN = ('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.stacksave', 'llvm.stackrestore', 'llvm.donothing', 'llvm.invariant', 'llvm.prefetch')
ARITH = {'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'}
THROWS = ('__cxa_throw', '__cxa_rethrow', '_ZSt20__throw_length_errorPKc', '_ZSt17__throw_bad_allocv', '_ZSt28__throw_bad_array_new_lengthv', '_ZSt19__throw_logic_errorPKc')


class Interp:
    def __init__(s, m, models=None):
        s.m = m
        s.F, s.G = m['functions'], m['globals']
        s.models = dict(models or {})
        s.globs = {}
        s.visited = set()
        s.steps = 0
        s.limit = 400000        # per path
        s.hook = None
        s.text = None            # name of the text region
        s.fails = False          # allocations may fail
        s.blocks = {}

    # ---- memory
    def globcells(s, st, g):
        r = '@' + g
        if r not in st.mem:
            if g not in s.G:
                raise Unknown('global ' + g)
            G = s.G[g]
            if G['decl']:
                raise Unknown('external object ' + G['dem'][:60])
            if r not in s.globs:
                s.globs[r] = {o: (z, s.constant(v, z)) for o, z, v in G['init']}
            st.mem[r] = s.globs[r]
            st.reg[r] = (G['size'], 'const' if G['const'] else 'static', True, G['dem'])
        return r

    def constant(s, v, size):
        if v[0] == 'c':
            return int(v[2]) & ((1 << int(v[1])) - 1)
        if v[0] == 'g':
            return ('p', '@' + v[1], int(v[2]))
        if v[0] == 'd':
            return ('d', int(v[1]))
        if v[0] in ('n', 'z'):
            return 0
        return U

    def check(s, st, r, off, size, what, i):
        if r[0] == '@':
            s.globcells(st, r[1:]) if r[1:] in s.G else None
        if r not in st.reg:
            raise Unknown('access to ' + r)
        n, kind, alive, where = st.reg[r]
        if not alive:
            raise Bad('freed', '%s at %s of memory from %s that has been released' % (what, s.where(i), where))
        if off < 0 or off + size > n:
            raise Bad('bounds', '%s at %s at offset %d of a block of %d bytes (%s)' % (what, s.where(i), off, n, where or kind))
        if kind == 'text' and what == 'read' and (off != n - 1 or size != 1):
            for j in range(off):
                if st.mask[j] & 1:
                    raise Bad('text', 'read at %s of byte %d of the text, where byte %d can be the NUL that ends it' % (s.where(i), off, j))
        elif kind in ('text', 'const') and what == 'write':
            raise Bad('const', 'write at %s to %s' % (s.where(i), where or kind))

    def load(s, st, r, off, size, ty, i):
        d = Dom(st.mask)
        s.check(st, r, off, size, 'read', i)
        if st.reg[r][1] == 'text':
            return s.compose(d, [d.byte(off + k) for k in range(size)])
        h = st.mem[r].get(off)
        if h and h[0] == size:
            return h[1]
        if st.reg[r][1] == 'array':
            return ('p', s.text, 0) if ty == 'p' else st.reg[s.text][0]
        cs = st.mem[r]
        if size > 1 and ty != 's':
            parts, o = [], off
            while o < off + size:
                c = cs.get(o)
                if not c or c[0] > off + size - o:
                    break
                parts += s.bytesof(d, c)
                o += c[0]
            else:
                return s.compose(d, parts)
        for o in range(off - 1, max(off - 17, -1), -1):
            c = cs.get(o)
            if c and o + c[0] > off and o + c[0] >= off + size:
                return s.compose(d, s.bytesof(d, c)[off - o:off - o + size])
            if c:
                break
        k = st.reg[r][1]
        if k in ('const', 'static') and not any(c in cs for c in range(off - 15, off + size)):
            return 0
        return U

    def bytesof(s, d, c):
        n, v = c
        if n == 1:
            return [v]
        if type(v) is int or issum(v):
            return [d.arith('and', d.arith('lshr', v, 8 * k, 8 * n), 255, 8 * n) for k in range(n)]
        return [('part', v, k, n) for k in range(n)] if v != U else [U] * n

    def compose(s, d, bs):
        if len(bs) == 1:
            return bs[0]
        if all(type(b) is tuple and b[0] == 'part' and b[1] == bs[0][1] and b[3] == len(bs) and b[2] == k for k, b in enumerate(bs)):
            return bs[0][1]
        if any(type(b) is tuple and b[0] != 's' for b in bs):
            return U
        r = 0
        for k, b in enumerate(bs):
            r = d.arith('or', r, d.arith('shl', b, 8 * k, 8 * len(bs)), 8 * len(bs)) if k else b
        return r

    def store(s, st, r, off, size, v, i):
        s.check(st, r, off, size, 'write', i)
        cs = st.wcells(r)
        s.clear(st, cs, off, size)
        cs[off] = (size, v)

    def clear(s, st, cs, off, size):
        d = Dom(st.mask)
        if off in cs and cs[off][0] <= size:
            n = cs[off][0]
            if n == size:
                return
        for o in range(off - 15, off + size):
            c = cs.get(o)
            if c and o + c[0] > off:
                if o >= off and o + c[0] <= off + size:
                    del cs[o]
                else:
                    b = s.bytesof(d, c)
                    del cs[o]
                    for k in range(c[0]):
                        if not off <= o + k < off + size:
                            cs[o + k] = (1, b[k])

    def copymem(s, st, dst, src, n, i):
        if n == 0:
            return
        (_, r, o), (_, q, p) = dst, src
        s.check(st, q, p, n, 'read', i)
        s.check(st, q, p + n - 1, 1, 'read', i)
        s.check(st, r, o, n, 'write', i)
        d = Dom(st.mask)
        if st.reg[q][1] == 'text':
            items = [(k, 1, d.byte(p + k)) for k in range(n)]
        else:
            cs = st.mem[q]
            if st.reg[q][1] == 'array':
                raise Unknown('copy of the array')
            items = []
            zero = st.reg[q][1] in ('const', 'static')
            k = 0
            while k < n:
                c = cs.get(p + k)
                if c and c[0] <= n - k:
                    items.append((k, c[0], c[1]))
                    k += c[0]
                    continue
                v = s.load(st, q, p + k, 1, 'i8', i)
                items.append((k, 1, v))
                k += 1
        cs = st.wcells(r)
        s.clear(st, cs, o, n)
        for k in [k for k in range(o, o + n) if k in cs]:
            del cs[k]
        for k, z, v in items:
            if v != U:
                cs[o + k] = (z, v)

    def where(s, i):
        return '%s:%s' % ((i.get('f') or '?').split('/')[-1], i.get('l')) if i else '?'

    # ---- values
    def val(s, st, fr, o):
        k = o[0]
        if k == 'v':
            return fr.regs.get(o[1], U)
        if k == 'c':
            return int(o[2]) & ((1 << int(o[1])) - 1)
        if k in ('n', 'z'):
            return 0
        if k == 'g':
            return ('p', '@' + o[1], int(o[2]))
        if k == 'd':
            return ('d', int(o[1]))
        return U

    def ptr(s, st, v, i, what):
        if type(v) is tuple and v[0] == 'p':
            if type(v[2]) is int:
                return v
            d = Dom(st.mask)
            return ('p', v[1], d.const(v[2]))
        if v == 0:
            raise Bad('null', '%s through a null pointer at %s' % (what, s.where(i)))
        if type(v) is int:
            raise Bad('null', '%s through an invalid pointer at %s' % (what, s.where(i)))
        raise Unknown('%s through an unknown pointer at %s' % (what, s.where(i)))

    # ---- running
    def push(s, st, name, args, call):
        f = s.F[name]
        s.visited.add(name)
        fr = Frame(f, dict(enumerate(args)))
        fr.call = call
        st.frames.append(fr)
        if len(st.frames) > 20000:
            raise Unknown('calls nested too deeply')

    def explore(s, st, stop=None):
        """run to completion; yields ('done'|'bad'|'unknown', state, info)"""
        work = [st]
        while work:
            st = work.pop()
            while True:
                try:
                    r = s.turn(st)
                except Split as e:
                    for m in e.masks[1:]:
                        t = st.copy()
                        t.mask[e.k] = m
                        work.append(t)
                    st.mask = list(st.mask)
                    st.mask[e.k] = e.masks[0]
                    continue
                except Bad as e:
                    yield 'bad', st, (e.key, e.text, s.stack(st))
                    break
                except Unknown as e:
                    yield 'unknown', st, '%s (%s)' % (e, s.stack(st))
                    break
                if r:
                    if type(r) is list:
                        work += r[1:]
                        st = r[0]
                        continue
                    yield 'done', st, r
                    break

    def stack(s, st):
        out = []
        for fr in st.frames[-3:]:
            b = fr.f['blocks'][fr.bn]
            i = b[min(fr.ix, len(b) - 1)]
            out.append('%s at %s' % (fr.f['dem'].split('(')[0][-50:], s.where(i)))
        return ' < '.join(reversed(out))

    def turn(s, st):
        """instructions of the top frame until control leaves a block; returns None to go on"""
        fr = st.frames[-1]
        b = fr.f['blocks'][fr.bn]
        if fr.ix == 0:
            new = {}
            k = 0
            while b[k]['op'] == 'phi':
                for pb, o in b[k]['in']:
                    if pb == fr.prev:
                        new[b[k]['d']] = s.val(st, fr, o)
                        break
                k += 1
            fr.regs.update(new)
            fr.ix = k
        while True:
            i = b[fr.ix]
            st.steps += 1
            s.steps += 1
            if st.steps > s.limit:
                raise Bad('loop', 'no end after %d instructions' % st.steps)
            op = i['op']
            if op == 'br':
                a = i['a']
                if not a:
                    fr.prev, fr.bn, fr.ix = fr.bn, i['t'][0], 0
                    return None
                t = s.truth(st, s.val(st, fr, a[0]), i)
                fr.prev, fr.bn, fr.ix = fr.bn, i['t'][0 if t else 1], 0
                return None
            if op == 'load':
                p = s.val(st, fr, i['a'][0])
                if type(p) is tuple and p[0] == 'p' and type(p[2]) is not int:
                    fr.regs[i['d']] = s.tload(st, p, i)
                else:
                    p = s.ptr(st, p, i, 'read')
                    fr.regs[i['d']] = s.aggload(st, p, i) if i['ty'] == 's' else s.loadv(st, p, i)
            elif op == 'store':
                v = s.val(st, fr, i['a'][0])
                p = s.ptr(st, s.val(st, fr, i['a'][1]), i, 'write')
                if type(v) is tuple and v[0] == 'agg':
                    raise Unknown('aggregate store')
                s.store(st, p[1], p[2], i['size'], v, i)
            elif op == 'getelementptr':
                fr.regs[i['d']] = s.gep(st, fr, i)
            elif op == 'icmp':
                fr.regs[i['d']] = s.icmp(st, i, s.val(st, fr, i['a'][0]), s.val(st, fr, i['a'][1]))
            elif op in ARITH:
                fr.regs[i['d']] = s.arith(st, i, op, s.val(st, fr, i['a'][0]), s.val(st, fr, i['a'][1]))
            elif op in ('call', 'invoke'):
                r = s.call(st, fr, i)
                if r is not False:
                    return r
                if op == 'invoke':
                    fr.prev, fr.bn, fr.ix = fr.bn, i['n'], 0
                    return None
            elif op in ('zext', 'sext', 'trunc'):
                fr.regs[i['d']] = s.cast(st, i, op, s.val(st, fr, i['a'][0]))
            elif op == 'ret':
                return s.leave(st, s.val(st, fr, i['a'][0]) if i.get('a') else U)
            elif op == 'select':
                c = s.val(st, fr, i['a'][0])
                fr.regs[i['d']] = s.select(st, i, c, s.val(st, fr, i['a'][1]), s.val(st, fr, i['a'][2]))
            elif op == 'switch':
                v = s.val(st, fr, i['a'][0])
                d = Dom(st.mask)
                if issum(v):
                    v = d.norm(v)
                if issum(v):
                    if len(v[2]) > 1:
                        d.split(v)
                    k, t = v[2][0]
                    to = {int(c): q for c, q in i['cases']}
                    by = {}
                    for x in members(st.mask[k]):
                        q = to.get(v[1] + t[x], i['def'])
                        by[q] = by.get(q, 0) | 1 << x
                    if len(by) > 1:
                        raise Split(k, list(by.values()))
                    q = next(iter(by))
                elif type(v) is int:
                    q = next((q for c, q in i['cases'] if int(c) == v), i['def'])
                else:
                    raise Unknown('switch over an unknown value')
                fr.prev, fr.bn, fr.ix = fr.bn, q, 0
                return None
            elif op == 'alloca':
                n = s.val(st, fr, i['a'][0])
                if type(n) is not int:
                    raise Unknown('alloca of unknown size')
                r = st.new('stk', n * i['size'], s.where(i))
                fr.stk += (r,)
                fr.regs[i['d']] = ('p', r, 0)
            elif op in ('bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'addrspacecast'):
                fr.regs[i['d']] = s.val(st, fr, i['a'][0])
            elif op == 'extractvalue':
                v = s.val(st, fr, i['a'][0])
                for k in i['i']:
                    v = v[1][k] if type(v) is tuple and v[0] == 'agg' else 0 if v == 0 else U
                fr.regs[i['d']] = v
            elif op == 'insertvalue':
                v = s.val(st, fr, i['a'][0])
                x = list(v[1]) if type(v) is tuple and v[0] == 'agg' else []
                k = i['i'][0]
                while len(x) <= k:
                    x.append(U)
                x[k] = s.val(st, fr, i['a'][1]) if len(i['i']) == 1 else U
                fr.regs[i['d']] = ('agg', x)
            elif op == 'landingpad':
                fr.regs[i['d']] = ('agg', [('p', 'exc', 0), 1])
            elif op == 'resume':
                return s.unwind(st)
            elif op == 'unreachable':
                raise Unknown('unreachable reached')
            elif op == 'fneg':
                v = s.val(st, fr, i['a'][0])
                fr.regs[i['d']] = v[1] if type(v) is tuple and v[0] == 'neg' else ('d', v[1] ^ (1 << 63)) if type(v) is tuple and v[0] == 'd' else ('neg', v) if type(v) is tuple and v[0] == 'num' else U
            elif op == 'fence':
                pass
            elif op in ('fmul', 'fsub', 'fdiv', 'fadd', 'frem'):
                a, c = s.val(st, fr, i['a'][0]), s.val(st, fr, i['a'][1])
                m1 = ('d', 0xbff0000000000000)
                if op == 'fmul' and a == m1:
                    a, c = c, a
                v = ('fop', op, a, c)
                if op != 'fsub' and c == m1:
                    v = a[1] if a[0] == 'neg' else ('neg', a)
                elif op == 'fsub' and a == ('d', 0) and type(c) is tuple and c[0] == 'num':
                    v = ('sub0', c)
                elif op == 'fsub' and a == ('d', 1 << 63):
                    v = c[1] if c[0] == 'neg' else ('neg', c)
                if v[0] == 'fop':
                    v = arith(op, i.get('ty'), known(a), known(c)) or v
                fr.regs[i['d']] = v
            elif 'd' in i:
                fr.regs[i['d']] = s.other(st, fr, i, op)
            else:
                raise Unknown(op)
            fr.ix += 1

    def other(s, st, fr, i, op):
        vs = [s.val(st, fr, a) for a in i.get('a', [])]
        if op in ('fptosi', 'fptoui', 'sitofp', 'uitofp') and len(vs) == 1:
            if op[0] == 'f':
                x, w = known(vs[0]), width(i['ty'])
                if x is not None and abs(x) < math.inf and (-(1 << w - 1) if op == 'fptosi' else 0) <= math.trunc(x) < 1 << (w - 1 if op == 'fptosi' else w):
                    return math.trunc(x) & (1 << w) - 1
            else:
                x = Dom(st.mask).const(vs[0]) if issum(vs[0]) else vs[0]
                if type(x) is int and i.get('ty') == 'f64' and i.get('from'):
                    return double(float(signed(x, width(i['from'])) if op[0] == 's' else x))
        if op == 'fcmp':
            x = s.finite(vs)
            if x is not None:
                return x
        if op == 'atomicrmw' or op == 'cmpxchg':
            raise Unknown(op)
        return ('fop', op) + tuple(vs)

    def finite(s, vs):
        return None

    def aggload(s, st, p, i):
        n = i['size']
        if n not in (12, 16):
            raise Unknown('aggregate load')
        x = s.load(st, p[1], p[2], 8, 'i64', i)
        c = st.mem[p[1]].get(p[2] + 8) if st.reg[p[1]][1] != 'array' else None
        k = c[0] if c else n - 8
        return ('agg', [x, s.load(st, p[1], p[2] + 8, k, 'i%d' % (8 * k), i)])

    def loadv(s, st, p, i):
        v = s.load(st, p[1], p[2], i['size'], i['ty'], i)
        return v

    def tload(s, st, p, i):
        """load from a table at an index that depends on the text"""
        d = Dom(st.mask)
        o = d.norm(p[2])
        if not issum(o):
            return s.loadv(st, ('p', p[1], o), i)
        if len(o[2]) > 1 or i['ty'] in ('s',):
            d.split(o)
        if p[1][0] == '@' and p[1][1:] in s.G:
            s.globcells(st, p[1][1:])
        k, t = o[2][0]
        n = st.reg[p[1]][0] if p[1] in st.reg else 0
        ok = out = 0
        for x in members(st.mask[k]):
            if 0 <= signed((o[1] + t[x]) & (1 << 64) - 1, 64) <= n - i['size']:
                ok |= 1 << x
            else:
                out |= 1 << x
        if ok and out:
            raise Split(k, [ok, out])
        if out:
            return s.loadv(st, ('p', p[1], signed((o[1] + t[members(out)[0]]) & (1 << 64) - 1, 64)), i)
        if st.reg[p[1]][1] == 'text':
            d.split(o)
        res = {x: s.loadv(st, ('p', p[1], o[1] + t[x]), i) for x in members(st.mask[k])}
        if any(type(v) is not int for v in res.values()):
            d.split(o)
        return d.table(k, lambda x: res[x])

    def truth(s, st, v, i):
        if type(v) is int:
            return v & 1
        if issum(v):
            return Dom(st.mask).inset(v, (1,))
        raise Unknown('branch on an unknown value at ' + s.where(i))

    def select(s, st, i, c, a, b):
        if type(c) is int:
            return a if c & 1 else b
        if issum(c):
            d = Dom(st.mask)
            ks = d.keys(c, a, b)
            if len(ks) == 1 and (type(a) is int or issum(a)) and (type(b) is int or issum(b)) and width(i['ty']):
                k = ks[0]
                return d.table(k, lambda x: d.at(a, k, x) if d.at(c, k, x) & 1 else d.at(b, k, x))
            return a if d.inset(c, (1,)) else b
        raise Unknown('select on an unknown value at ' + s.where(i))

    def gep(s, st, fr, i):
        p = s.val(st, fr, i['a'][0])
        if not i.get('ok'):
            raise Unknown('address computation')
        o = i.get('off', 0)
        d = Dom(st.mask)
        base = p[2] if type(p) is tuple and p[0] == 'p' else p
        if type(p) is tuple and p[0] not in ('p',):
            raise Unknown('address from an unknown value at ' + s.where(i))
        if type(base) is int and all(x[0] != 'v' or type(fr.regs.get(x[1])) is int for sc, x, ty in i.get('idx', [])):
            for sc, x, ty in i.get('idx', []):
                o += signed(s.val(st, fr, x), width(ty) or 64) * sc
            o += base
        else:
            for sc, x, ty in i.get('idx', []):
                v = s.val(st, fr, x)
                if not (type(v) is int or issum(v)):
                    raise Unknown('address from an unknown index at ' + s.where(i))
                w = width(ty) or 64
                if w < 64:
                    v = s.sext(d, v, w, 64)
                if type(v) is int and type(o) is int:
                    o += signed(v, 64) * sc
                else:
                    o = d.arith('add', d.arith('mul', v, sc & (1 << 64) - 1, 64), o & (1 << 64) - 1 if type(o) is int else o, 64)
            o = d.arith('add', base & (1 << 64) - 1 if type(base) is int else base, o & (1 << 64) - 1 if type(o) is int else o, 64)
            if type(o) is int:
                o = signed(o, 64)
        if type(p) is int:
            return (o & (1 << 64) - 1) if type(o) is int else o
        return ('p', p[1], o)

    def sext(s, d, v, f, t):
        if type(v) is int:
            return signed(v, f) & ((1 << t) - 1)
        v = d.norm(v)
        if not issum(v):
            return signed(v, f) & ((1 << t) - 1)
        if 0 <= d.rng(v)[0] and d.rng(v)[1] < 1 << (f - 1):
            return v
        ks = d.keys(v)
        if len(ks) == 1:
            return d.table(ks[0], lambda x: signed(d.at(v, ks[0], x), f) & ((1 << t) - 1))
        if d.rng(v)[1] < 1 << (f - 1):
            return v
        d.split(v)

    def cast(s, st, i, op, v):
        w = width(i['ty'])
        if type(v) is int:
            if op == 'sext':
                return signed(v, width(i.get('from'))) & ((1 << w) - 1)
            return v & ((1 << w) - 1)
        d = Dom(st.mask)
        if issum(v):
            if op == 'zext':
                return v
            if op == 'sext':
                return s.sext(d, v, width(i.get('from')), w)
            v = d.norm(v)
            if d.rng(v)[1] < 1 << w:
                return v
            ks = d.keys(v)
            if len(ks) == 1:
                return d.table(ks[0], lambda x: d.at(v, ks[0], x) & ((1 << w) - 1))
            return d.low(v, w)
        if v == U:
            return U
        if v[0] == 'nt' and op in ('zext', 'sext'):
            return v
        if v[0] == 'p' and op == 'trunc':
            return U
        if v[0] == 'dif':
            return v
        return U

    def icmp(s, st, i, a, b):
        p = i['p']
        d = Dom(st.mask)
        w = width(i.get('oty')) or 64
        if type(a) is int and type(b) is int:
            return ccmp(p, a, b, w)
        for x, y, q in ((a, b, p), (b, a, p)):
            if type(x) is tuple and x[0] == 'p' and y == 0:
                if p in ('eq', 'ne'):
                    return int(p == 'ne')
                return int((p in ('ugt', 'uge')) == (x is a))
            if type(x) is tuple and x[0] == 'nt' and y == 0 and p in ('eq', 'ne'):
                return int(p == 'ne')
        if type(a) is tuple and type(b) is tuple and a[0] == 'p' and b[0] == 'p':
            if a[1] != b[1]:
                if p in ('eq', 'ne'):
                    return int(p == 'ne')
                raise Unknown('order of pointers into different blocks')
            x, y = a[2], b[2]
            B = 1 << 40
            x = x + B if type(x) is int else d.arith('add', x, B, 64)
            y = y + B if type(y) is int else d.arith('add', y, B, 64)
            return d.cmp(p, x, y, 64)
        if (type(a) is int or issum(a)) and (type(b) is int or issum(b)):
            return d.cmp(p, a, b, w)
        raise Unknown('comparison of an unknown value at ' + s.where(i))

    def arith(s, st, i, op, a, b):
        w = width(i['ty'])
        if type(a) is int and type(b) is int:
            return conc(op, a, b, w)
        d = Dom(st.mask)
        pa, pb = type(a) is tuple and a[0] == 'p', type(b) is tuple and b[0] == 'p'
        if pa or pb:
            if op == 'sub' and pa and pb and a[1] == b[1]:
                if type(a[2]) is int and type(b[2]) is int:
                    return (a[2] - b[2]) & ((1 << w) - 1)
                x, y = [q & (1 << 64) - 1 if type(q) is int else q for q in (a[2], b[2])]
                return d.arith('sub', x, y, 64)
            if op in ('add', 'sub') and pa and not pb:
                o = d.arith(op, a[2] & (1 << 64) - 1 if type(a[2]) is int else a[2], b, 64)
                return ('p', a[1], signed(o, 64) if type(o) is int else o)
            if op == 'add' and pb:
                return s.arith(st, i, op, b, a)
            raise Unknown('%s of an address at %s' % (op, s.where(i)))
        if w == 1 and (issum(a) or issum(b)):
            pass
        if (type(a) is int or issum(a)) and (type(b) is int or issum(b)):
            return d.arith(op, a, b, w)
        if op == 'mul' and (a == 0 or b == 0) or op == 'and' and (a == 0 or b == 0):
            return 0
        return U

    def leave(s, st, v):
        fr = st.frames.pop()
        for r in fr.stk:
            st.reg[r] = st.reg[r][:2] + (False,) + st.reg[r][3:]
            st.mem[r] = {}
            st.own.discard(r)
        if not st.frames:
            return ('ret', v)
        top = st.frames[-1]
        i = top.f['blocks'][top.bn][top.ix]
        if 'd' in i:
            top.regs[i['d']] = v
        if i['op'] == 'invoke':
            top.prev, top.bn, top.ix = top.bn, i['n'], 0
        else:
            top.ix += 1
        return None

    def unwind(s, st, pop=True):
        while True:
            if pop:
                fr = st.frames.pop()
                for r in fr.stk:
                    st.reg[r] = st.reg[r][:2] + (False,) + st.reg[r][3:]
                    st.mem[r] = {}
                    st.own.discard(r)
            pop = True
            if not st.frames:
                return ('exc', None)
            top = st.frames[-1]
            i = top.f['blocks'][top.bn][top.ix]
            if i['op'] == 'invoke':
                top.prev, top.bn, top.ix = top.bn, i['u'], 0
                return None

    def ret(s, st, fr, i, v):
        if 'd' in i:
            fr.regs[i['d']] = v
        return False

    def call(s, st, fr, i):
        fn = i['fn']
        args = [s.val(st, fr, a) for a in i['a']]
        if fn[0] == 'g':
            name = fn[1]
        else:
            v = s.val(st, fr, fn) if fn[0] == 'v' else U
            if type(v) is tuple and v[0] == 'p' and v[1][0] == '@' and v[1][1:] in s.F:
                name = v[1][1:]
            elif v == 0:
                raise Bad('null', 'call through a null pointer at ' + s.where(i))
            else:
                raise Unknown('indirect call at ' + s.where(i))
        for p in IGN:
            if name.startswith(p):
                return s.ret(st, fr, i, U)
        m = s.models.get(name)
        if m is None:
            m = s.builtin(name)
        if m is not None:
            r = m(s, st, fr, i, args)
            if type(r) is tuple and r and r[0] == '#throw':
                return s.unwind(st, False)
            if type(r) is tuple and r and r[0] == '#end':
                return r
            if type(r) is list:
                # several outcomes: (value or '#throw', state)
                out = []
                for v, t in r:
                    f2 = t.frames[-1]
                    if v == '#throw':
                        q = s.unwind(t, False)
                        if q:
                            raise Unknown('exception leaves the entry')
                    else:
                        if 'd' in i:
                            f2.regs[i['d']] = v
                        if i['op'] == 'invoke':
                            f2.prev, f2.bn, f2.ix = f2.bn, i['n'], 0
                        else:
                            f2.ix += 1
                    out.append(t)
                return out
            return s.ret(st, fr, i, r)
        f = s.F.get(name)
        if f is None or f['decl']:
            raise Unknown('call of ' + (f['dem'] if f else name)[:80])
        for k, n in i.get('bv', []):
            v = args[k]
            if type(v) is tuple and v[0] == 'p':
                r = st.new('stk', n, 'by value')
                if st.reg[v[1]][1] == 'array':
                    raise Unknown('array by value')
                s.copymem(st, ('p', r, 0), v, n, i)
                args[k] = ('p', r, 0)
        s.push(st, name, args, i)
        return None

    # ---- library functions
    def builtin(s, name):
        if name.startswith('llvm.mem'):
            return Interp.m_mem
        for n in ('umin', 'umax', 'smin', 'smax'):
            if name.startswith('llvm.%s.' % n):
                return lambda E, st, fr, i, a, n=n: E.m_minmax(st, i, a, n)
        if name.startswith('llvm.fabs') or name == 'fabs':
            return lambda E, st, fr, i, a: ('abs', a[0])
        if rounding(name.split('.')[1] if name.startswith('llvm.') and name.endswith('.f64') else name):
            return rounding(name.split('.')[1] if name.startswith('llvm.') else name)
        if name.startswith('llvm.is.fpclass'):
            return lambda E, st, fr, i, a: E.fpclass(st, a)
        if name.startswith('llvm.eh.typeid'):
            return lambda E, st, fr, i, a: 1
        if name.startswith('llvm.objectsize'):
            return lambda E, st, fr, i, a: (1 << 64) - 1
        if name.startswith('llvm.expect'):
            return lambda E, st, fr, i, a: a[0]
        return BUILTIN.get(name)

    def fpclass(s, st, a):
        raise Unknown('classification of a number')

    def m_minmax(s, st, i, a, n):
        d = Dom(st.mask)
        w = width(i['ty'])
        c = s.icmp(st, dict(i, p=n[0] + ('lt' if n[1:] == 'min' else 'gt'), oty=i['ty']), a[0], a[1])
        return s.select(st, i, c, a[0], a[1])

    def m_mem(s, st, fr, i, a):
        n = a[2]
        d = Dom(st.mask)
        if issum(n):
            n = d.const(n)
        if type(n) is not int:
            raise Unknown('block operation of unknown length at ' + s.where(i))
        if n == 0:
            return a[0]
        dst = s.ptr(st, a[0], i, 'write')
        name = i['fn'][1]
        if 'set' in name:
            s.check(st, dst[1], dst[2], n, 'write', i)
            cs = st.wcells(dst[1])
            s.clear(st, cs, dst[2], n)
            for k in [k for k in range(dst[2], dst[2] + n) if k in cs]:
                del cs[k]
            v = a[1]
            k = 0
            while k < n:
                z = 8 if v == 0 and n - k >= 8 else 1
                cs[dst[2] + k] = (z, v)
                k += z
        else:
            s.copymem(st, dst, s.ptr(st, a[1], i, 'read'), n, i)
        return a[0]


def b_new(E, st, fr, i, a):
    n = a[0]
    if issum(n):
        n = Dom(st.mask).const(n)
    if type(n) is not int:
        raise Unknown('allocation of unknown size at ' + E.where(i))
    if n > 1 << 40:
        return ('#throw',)
    r = st.new('heap', n, 'new at ' + E.where(i))
    return ('p', r, 0)


def b_delete(E, st, fr, i, a):
    v = a[0]
    if v == 0:
        return U
    v = E.ptr(st, v, i, 'release')
    r = v[1]
    if r not in st.reg or st.reg[r][1] != 'heap' or v[2] != 0:
        raise Bad('release', 'release at %s of memory that was not allocated' % E.where(i))
    if not st.reg[r][2]:
        raise Bad('double', 'memory from %s released twice, the second time at %s' % (st.reg[r][3], E.where(i)))
    st.reg[r] = st.reg[r][:2] + (False,) + st.reg[r][3:]
    st.mem[r] = {}
    st.own.discard(r)
    return U


def cstring(E, st, p, i, limit=100000):
    """bytes up to the NUL"""
    d = Dom(st.mask)
    p = E.ptr(st, p, i, 'read')
    out = []
    while len(out) < limit:
        v = E.load(st, p[1], p[2] + len(out), 1, 'i8', i)
        if v == U:
            raise Unknown('text of unknown bytes at ' + E.where(i))
        if v == 0 or issum(v) and d.inset(v, (0,)):
            return out
        out.append(v)
    raise Unknown('text too long')


def b_strlen(E, st, fr, i, a):
    return len(cstring(E, st, a[0], i))


def b_memcmp(E, st, fr, i, a):
    d = Dom(st.mask)
    n = d.const(a[2]) if issum(a[2]) else a[2]
    if type(n) is not int:
        raise Unknown('comparison of unknown length')
    if n == 0:
        return 0
    p, q = E.ptr(st, a[0], i, 'read'), E.ptr(st, a[1], i, 'read')
    for k in range(n):
        x, y = E.load(st, p[1], p[2] + k, 1, 'i8', i), E.load(st, q[1], q[2] + k, 1, 'i8', i)
        c = E.icmp(st, dict(i, p='eq', oty='i8'), x, y)
        if not E.truth(st, c, i):
            return 1 if E.truth(st, E.icmp(st, dict(i, p='ugt', oty='i8'), x, y), i) else (1 << 32) - 1
    return 0


def b_strcmp(E, st, fr, i, a):
    x, y = cstring(E, st, a[0], i), cstring(E, st, a[1], i)
    for u, v in zip(x + [0], y + [0]):
        if not E.truth(st, E.icmp(st, dict(i, p='eq', oty='i8'), u, v), i):
            return 1 if E.truth(st, E.icmp(st, dict(i, p='ugt', oty='i8'), u, v), i) else (1 << 32) - 1
    return 0


def b_memchr(E, st, fr, i, a):
    p = E.ptr(st, a[0], i, 'read')
    n = a[2]
    if type(n) is not int or type(a[1]) is not int:
        raise Unknown('memchr')
    for k in range(n):
        v = E.load(st, p[1], p[2] + k, 1, 'i8', i)
        if E.truth(st, E.icmp(st, dict(i, p='eq', oty='i8'), v, a[1] & 255), i):
            return ('p', p[1], p[2] + k)
    return 0


def b_strchr(E, st, fr, i, a):
    p = E.ptr(st, a[0], i, 'read')
    c = a[1]
    if type(c) is int:
        c &= 255
    k = 0
    while True:
        v = E.load(st, p[1], p[2] + k, 1, 'i8', i)
        if v == U:
            raise Unknown('text of unknown bytes at ' + E.where(i))
        if E.truth(st, E.icmp(st, dict(i, p='eq', oty='i8'), v, c if not issum(c) else Dom(st.mask).low(c, 8)), i):
            return ('p', p[1], p[2] + k)
        if E.truth(st, E.icmp(st, dict(i, p='eq', oty='i8'), v, 0), i):
            return 0
        k += 1


def digit(v, d):
    return not (type(v) is tuple and v[0] != 's') and d.inset(v, range(48, 58))


def b_strtod(E, st, fr, i, a):
    """the value is a token over the characters that are converted"""
    d = Dom(st.mask)
    t = cstring(E, st, a[0], i)
    k = 0
    n = len(t)
    if n and d.inset(t[0], (9, 10, 11, 12, 13, 32)):
        raise Unknown('conversion of a text that starts with white space')
    neg = False
    if n and d.inset(t[0], (43, 45)):
        neg = d.inset(t[0], (45,))
        k = 1
    start = k
    while k < n and digit(t[k], d):
        k += 1
    whole = k > start
    if k < n and whole and k == start + 1 and d.inset(t[start], (48,)) and d.inset(t[k], (88, 120)):
        raise Unknown('conversion of a hexadecimal number')
    if k < n and not whole and d.inset(t[k], (73, 105, 78, 110)):
        raise Unknown('conversion of a word')
    if k < n and d.inset(t[k], (46,)):
        j = k + 1
        while j < n and digit(t[j], d):
            j += 1
        if whole or j > k + 1:
            k = j
            whole = True
    if whole and k < n and d.inset(t[k], (69, 101)):
        j = k + 1
        if j < n and d.inset(t[j], (43, 45)):
            j += 1
        if j < n and digit(t[j], d):
            while j < n and digit(t[j], d):
                j += 1
            k = j
    if not whole:
        k = 0
    v = ('num', tuple(t[start:k])) if whole else ('d', 0)
    if len(a) > 1 and a[1] != 0:
        p, q = E.ptr(st, a[0], i, 'read'), E.ptr(st, a[1], i, 'write')
        E.store(st, q[1], q[2], 8, ('p', p[1], p[2] + k), i)
    return ('neg', v) if neg and whole else v


BUILTIN = {
    '_Znwm': b_new, '_Znam': b_new, '_ZnwmRKSt9nothrow_t': b_new, '_ZnamRKSt9nothrow_t': b_new, 'malloc': b_new,
    '_ZdlPv': b_delete, '_ZdaPv': b_delete, '_ZdlPvm': b_delete, '_ZdaPvm': b_delete, 'free': b_delete,
    'memcpy': Interp.m_mem, 'memmove': Interp.m_mem, 'memset': Interp.m_mem,
    'strlen': b_strlen, 'memcmp': b_memcmp, 'bcmp': b_memcmp, 'strcmp': b_strcmp, 'memchr': b_memchr, 'strchr': b_strchr,
    'strtod': b_strtod,
    '__cxa_begin_catch': lambda E, st, fr, i, a: a[0], '__cxa_end_catch': lambda E, st, fr, i, a: U,
    '__cxa_allocate_exception': lambda E, st, fr, i, a: ('p', st.new('exc', a[0]), 0),
    '__cxa_free_exception': lambda E, st, fr, i, a: U,
}
for _n in THROWS:
    BUILTIN[_n] = lambda E, st, fr, i, a: ('#throw',)


def b_abort(E, st, fr, i, a):
    raise Bad('abort', 'the process ends at ' + E.where(i))


for _n in ('abort', '_ZSt9terminatev', '__clang_call_terminate', 'exit'):
    BUILTIN[_n] = b_abort
