"""P21 to P23: the ordered map, the array and the string of the library.

One operation from every state of a container of limited size (for the map: every height-balanced shape), in an abstract interpretation where
element values and characters are undetermined and every allocation (and every construction of an element but by moving) may fail; longer histories
follow by induction over one step, as far as the sizes reach.  The state of every element slot (alive or not) and of every block is carried along."""
import functools, os, sys, time
from common import *
from bytedom import *
import own, text
from own import OwnState, OwnInterp, a_new, outer

T0 = time.time()
NOSLOT = {}


def slots(st):
    if 'slots' not in st.mem:
        st.mem['slots'] = {}
        st.own.add('slots')
    return st.wcells('slots')


def key(E, st, a, i):
    p = E.ptr(st, a[0], i, 'use')
    return p[1], p[2]


def b_live(E, st, fr, i, a):
    k, s = key(E, st, a, i), slots(st)
    if s.get(k):
        raise Bad('slot', 'an element is built at %s where one already is' % user(E, st))
    s[k] = True
    return U


def b_dead(E, st, fr, i, a):
    k, s = key(E, st, a, i), slots(st)
    if not s.get(k):
        raise Bad('slot', 'an element is destroyed at %s where none is' % user(E, st))
    s[k] = False
    return U


def b_use(E, st, fr, i, a):
    k, s = key(E, st, a, i), slots(st)
    if not s.get(k):
        raise Bad('slot', 'an element is read at %s where none is' % user(E, st))
    if not st.reg[k[0]][2]:
        raise Bad('freed', 'an element is read at %s in memory that has been released' % user(E, st))
    return U


def user(E, st):
    """the place in the library, not in the probe"""
    for fr in reversed(st.frames):
        b = fr.f['blocks'][fr.bn]
        j = b[min(fr.ix, len(b) - 1)]
        if '/probes/' not in (j.get('f') or '/probes/'):
            return E.where(j)
    return 'the end of the container'


def b_fail(E, st, fr, i, a):
    if st.left <= 0:
        return U
    t = st.copy()
    t.left -= 1
    t.out = (t.out, ('fail', 'building an element', user(E, st)))
    return [(U, st), ('#throw', t)]


def a_fail(nothrow):
    g = a_new(nothrow)

    def f(E, st, fr, i, a):
        r = g(E, st, fr, i, a)
        if type(r) is list:
            t = r[1][1]
            t.out = (t.out[0], ('fail', 'an allocation', t.out[1][1]))
        return r
    return f


def ev(name):
    def f(E, st, fr, i, a):
        st.out = (st.out, (name,) + tuple(Dom(st.mask).norm(x) if issum(x) else signed(x, 32) if type(x) is int else x for x in a))
        return U
    return f


def b_old(E, st, fr, i, a):
    st.left = E.failures
    st.out = (st.out, ('old',))
    return U


def b_param(E, st, fr, i, a):
    return E.params[a[0]] & ((1 << 32) - 1)


def b_source(E, st, fr, i, a):
    return ('p', 'src%d' % a[0], 0)


def b_text(E, st, fr, i, a):
    p, n = E.ptr(st, a[0], i, 'read'), a[1]
    if issum(n):
        n = Dom(st.mask).const(n)
    n = signed(n, 64)
    if not -1 < n < 1 << 20:
        raise Bad('length', 'a string has the length %d' % n)
    vals = tuple(E.load(st, p[1], p[2] + k, 1, 'i8', i) for k in range(n + 1))
    st.out = (st.out, ('text', vals))
    return U


MODELS = {
    '_Znwm': a_fail(False), '_Znam': a_fail(False), '_ZnwmRKSt9nothrow_t': a_fail(True), '_ZnamRKSt9nothrow_t': a_fail(True), 'malloc': a_fail(True),
    'box_live': b_live, 'box_dead': b_dead, 'box_use': b_use, 'box_fail': b_fail, 'box_did': ev('did'), 'box_item': ev('item'), 'box_end': ev('end'),
    'box_found': ev('found'), 'box_shape': ev('shape'), 'box_text': b_text, 'box_old': b_old, 'box_parameter': b_param, 'box_source': b_source,
}


class Wrong(Exception):
    pass


class BoxInterp(OwnInterp):
    def icmp(s, st, i, a, b):
        if a == U or b == U:
            raise Bad('uninit', 'a comparison at %s depends on memory that was never written' % s.where(i))
        return OwnInterp.icmp(s, st, i, a, b)

    def truth(s, st, v, i):
        if v == U:
            raise Bad('uninit', 'the branch at %s depends on memory that was never written' % s.where(i))
        return OwnInterp.truth(s, st, v, i)


def runbox(m, entry, params, sources, failures, judge, what):
    E = BoxInterp(m, MODELS)
    E.text = 'none'
    E.params, E.failures = params, failures
    E.limit = 100000
    st = OwnState()
    for k, s in enumerate(sources):
        o = len(st.mask)
        st.mask += list(s)
        d = Dom(st.mask)
        r = 'src%d' % k
        st.reg[r] = (len(s) + 1, 'const', True, 'a text')
        st.mem[r] = {j: (1, d.byte(o + j)) for j in range(len(s))}
        st.mem[r][len(s)] = (1, 0)
    st.reg['exc'] = (64, 'exc', True, 'exception')
    st.mem['exc'] = {}
    E.push(st, entry, [], None)
    res = dict(viol=[], undec=[], paths=0, failed=0)
    for kind, t, info in E.explore(st):
        res['paths'] += 1
        evs = t.events()
        fails = [e for e in evs if e[0] == 'fail']
        res['failed'] += bool(fails)
        told = what + (', where %s at %s fails' % (fails[0][1], fails[0][2]) if fails else '')
        if len(res['viol']) > 10 or time.time() - T0 > 600:
            res['undec'].append('further paths not analysed')
            break
        if kind == 'bad':
            if info[0] in ('abort', 'text'):
                res['undec'].append('%s: %s' % (told, info[1]))
            else:
                res['viol'].append((info[0], '%s: %s (%s)' % (told, info[1], info[2])))
        elif kind == 'unknown':
            res['undec'].append('%s: %s' % (told, info))
        elif info[0] != 'ret':
            res['viol'].append(('exception', '%s: an exception leaves the operation' % told))
        else:
            left = [x for x in t.reg.values() if x[1] == 'heap' and x[2]]
            if left:
                res['viol'].append(('leak', '%s: memory from %s is never released' % (told, left[0][3])))
                continue
            if any(t.mem.get('slots', {}).values()):
                res['viol'].append(('slot', '%s: an element is never destroyed' % told))
                continue
            work = [list(t.mask)]
            while work:
                mask = work.pop()
                try:
                    judge(Dom(mask), evs, fails)
                except Split as e:
                    for q in e.masks:
                        n = list(mask)
                        n[e.k] = q
                        work.append(n)
                except Unknown as e:
                    res['undec'].append('%s: %s' % (told, e))
                except Wrong as e:
                    res['viol'].append(('content', '%s: %s' % (told, e)))
    res['functions'] = sorted(E.visited)
    res['steps'] = E.steps
    return res


# ---- arrays
AOPS = ['AppendArrayElement()', 'AppendArrayElement(copy)', 'AppendArrayElement(move)', 'InsertArrayElement(%d, copy)', 'InsertArrayElement(%d, move)', 'RemoveArrayElement(%d)',
        'RemoveLastArrayElement()', 'SetArrayElementCount(%d)', 'SetArrayElementCount(%d, copy)', 'ReserveArrayElementCount(%d)', 'ClearArray()', 'PurgeArray()', 'copy construction',
        'move construction', 'FindArrayElementIndex(%d)', 'AppendArrayElement(its own element %d)', 'InsertArrayElement(own element; place * 32 + element = %d)', 'SetArrayElementCount(own element; count * 32 + element = %d)']


def array_ref(n, op, x):
    """(results before, content after)"""
    a = list(range(n))
    if op in (0, 1, 2):
        return a + [[-1, 100, 100][op]]
    if op in (3, 4):
        v = 101 if op == 3 else 100
        return a + [-1] * (x - n) + [v] if x >= n else a[:x] + [v] + a[x:]
    if op == 5:
        return a[:x] + a[x + 1:]
    if op == 6:
        return a[:-1]
    if op in (7, 8):
        return a[:x] + [-1 if op == 7 else 100] * (x - n)
    if op in (10, 11, 13):
        return []
    if op == 15:
        return a + [a[x]]
    if op == 16:
        x, v = x // 32, a[x % 32]
        return a + [-1] * (x - n) + [v] if x >= n else a[:x] + [v] + a[x:]
    if op == 17:
        x, v = x // 32, a[x % 32]
        return a[:x] + [v] * (x - n)
    return a


def blocks(evs):
    """lists of items, with the outcomes between them"""
    out, cur = [], None
    for e in evs:
        if e[0] == 'shape':
            cur = []
            out.append(('items', cur, e[1:]))
        elif e[0] == 'item' and cur is not None:
            cur.append(e[1])
        elif e[0] == 'end':
            cur = None
        elif e[0] in ('did', 'item'):
            out.append(e)
    return out


def subsequence(a, b):
    it = iter(b)
    return all(x in it for x in a)


def array_judge(n, op, x):
    def f(d, evs, fails):
        bs = blocks(evs[evs.index(('old',)):])
        old, want = list(range(n)), array_ref(n, op, x)
        if bs and bs[0][0] == 'item':
            w = x if x < n else -1
            if bs[0][1] != w:
                raise Wrong('element %d is found at %d, it is at %d' % (x, bs[0][1], w))
            bs = bs[1:]
        did = [b[1] for b in bs if b[0] == 'did']
        its = [b for b in bs if b[0] == 'items']
        for b in its:
            if b[2][0] != len(b[1]) or b[2][1] != len(b[1]):
                raise Wrong('an array counts %d elements and has %d' % (b[2][0], len(b[1])))
        if op in (12, 13):
            if did[0] == 0 and did[1:] and (len(its) == 3):
                if its[0][1] != old:
                    raise Wrong('the new array holds %s, the first held %s' % (its[0][1], old))
                its, did = its[1:], did[1:]
                if did[0] == 1:
                    want = [] if op == 13 else old
                    did[0] = 0
        if len(its) != 2 or len(did) != 2:
            raise Unknown('outcome of an operation')
        got, later = its[0][1], its[1][1]
        if did[0] == 0:
            if not fails or did[1]:
                pass
            if got != want:
                raise Wrong('the array holds %s where it should hold %s' % (got, want))
        elif not fails:
            raise Wrong('the operation throws though nothing failed')
        elif fails[0][1] == 'an allocation':
            if got != old:
                raise Wrong('the array held %s and holds %s after the failure' % (old, got))
        elif op == 13 or not subsequence(old, got):
            raise Wrong('the array held %s and holds %s after the failure' % (old, got))
        if did[1] == 0:
            if later != [56] + (got + [55])[1:] + list(range(60, 77)):
                raise Wrong('after %s, appending 55 and replacing the first by 56 gives %s' % (got, later))
    return f


def array_jobs(thorough):
    out = []
    for entry in ('box_array', 'box_array4'):
        for n in range(0, 14 if thorough else 10):
            for extra in (0, 1, 3, 5) if thorough else (0, 1, 4):
                for op in range(18):
                    if op == 15:
                        xs = range(n)
                    elif op in (16, 17):
                        xs = [32 * i + j for i in sorted({0, 1, n // 2, n - 1, n, n + 1, n + 3, n + extra, n + extra + 1} - {-1}) for j in sorted({0, n // 2, n - 1})] if n else []
                    elif op in (3, 4, 5, 14):
                        xs = range(0, n + 4)
                    elif op in (7, 8, 9):
                        xs = sorted({0, 1, n - 2, n - 1, n, n + 1, n + 2, n + extra, n + extra + 1, n + 5, n + 11, 4, 5} - {-1, -2})
                    else:
                        xs = [0]
                    if n == 0 and op == 14:
                        xs = [0]
                    for x in xs:
                        w = '%s of %d elements after %d were removed, %s' % ('an array' if entry == 'box_array' else 'an array with room for 4', n, extra, AOPS[op] % x if '%' in AOPS[op] else AOPS[op])
                        out.append((entry, [n, extra, op, x], [], 1, ('array', n, op, x), w))
    return out


# ---- maps
MOPS = ['InsertMapElement(%d)', 'RemoveMapElement(%d)', 'delete %d', 'InsertReplaceMapElement(%d)', 'ReserveMapElement(%d) and InsertMapElement', 'PurgeMap()%.0d', 'RemoveAllMapElements()%.0d', '[%d]'] + [a % b for a in ('InsertMapElement(%%d, %s)', 'InsertReplaceMapElement(%%d, %s)') for b in ('a leaf of another map', 'the root of another map', 'the only element of another map')] + ['InsertMapElement(the member %d)', 'InsertReplaceMapElement(the member %d)']


@functools.lru_cache(None)
def trees(n):
    """the height-balanced shapes with n nodes: (height, left, right)"""
    if n == 0:
        return ((0, None, None),)
    out = []
    for k in range(n):
        for l in trees(k):
            for r in trees(n - 1 - k):
                if abs(l[0] - r[0]) <= 1:
                    out.append((1 + max(l[0], r[0]), l if k else None, r if n - 1 - k else None))
    return tuple(out)


def levels(t):
    """keys of the nodes in an order of insertion that gives the shape without any rotation"""
    ks = {}

    def number(t, k):
        if not t:
            return k
        k = number(t[1], k)
        ks[id(t), k] = 2 * k + 1
        me = k
        order.append((t, me))
        return number(t[2], k + 1)
    order = []

    def walk(t, lo, depth):
        if not t:
            return 0
        l = walk(t[1], lo, depth + 1)
        rows.append((depth, lo + l))
        return l + 1 + walk(t[2], lo + l + 1, depth + 1)
    rows = []
    walk(t, 0, 0)
    return [2 * k + 1 for dep, k in sorted(rows)]


def balance(rows):
    """height of the tree whose nodes are listed in order with their depth"""
    def h(lo, hi, depth):
        if lo == hi:
            return 0
        m = [k for k in range(lo, hi) if rows[k][0] == depth]
        if len(m) != 1:
            raise Wrong('the links of the map do not form a tree')
        l, r = h(lo, m[0], depth + 1), h(m[0] + 1, hi, depth + 1)
        if abs(l - r) > 1:
            raise Wrong('at key %d the subtrees have the heights %d and %d' % (rows[m[0]][1], l, r))
        return 1 + max(l, r)
    return h(0, len(rows), 0)


def map_ref(m, op, k, v):
    """(result, map afterwards)"""
    op = 0 if op in (8, 9, 10) else 3 if op in (11, 12, 13) else op
    m = dict(m)
    ks = sorted(m)
    if op == 0:
        if k in m:
            return 11, m
        m[k] = v
        return 10, m
    if op in (1, 2):
        r = 12 if k not in m and op == 1 else 10
        m.pop(k, None)
        return r, m
    if op in (14, 15):
        return (12 if k not in m else 11 if op == 14 else 10), m
    if op == 3:
        r = 11 if k in m else 10
        m[k] = v
        return r, m
    if op == 4:
        if k in m:
            return 11, m
        m[k] = v
        return 10, m
    if op in (5, 6):
        return 10, {}
    return (1000 + ks[k] if 0 <= k < len(ks) else 12), m


def map_judge(keys, ops):
    def f(d, evs, fails):
        it = iter(evs)
        cur = {k: j for j, k in enumerate(keys)}

        def until_end():
            out = []
            for e in it:
                if e[0] == 'end':
                    return out
                out.append(e)
            raise Unknown('end of a map')

        def see(m, after):
            rows = [(e[1], e[2]) for e in until_end()]
            ks = sorted(m)
            vals = [e[1] for e in until_end()]
            back = [e[1] for e in until_end()]
            tail = [e[1] for e in until_end()]
            if vals[::2] != ks:
                raise Wrong('%sthe map iterates the keys %s where it has %s' % (after, vals[::2], ks))
            if vals[1::2] != [m[k] for k in ks]:
                raise Wrong('%sthe map holds other elements than were inserted' % after)
            if back != ks[::-1]:
                raise Wrong('%sbackwards the map iterates the keys %s where it has %s' % (after, back, ks))
            if [r[1] for r in rows] != ks:
                raise Wrong('%sthe tree has the keys %s in order where the map has %s' % (after, [r[1] for r in rows], ks))
            if tail != [len(ks), int(not ks), ks[0] if ks else -1]:
                raise Wrong('%sthe map of %d elements reports %s' % (after, len(ks), tail))
            try:
                balance(rows)
            except Wrong as e:
                raise Wrong(after + str(e))
        see(cur, '')
        if next(it) != ('old',):
            raise Unknown('order of events')
        for j, (op, k) in enumerate(ops):
            r, cur = map_ref(cur, op, k, 500 + j)
            e = next(it)
            if e[0] != 'did':
                raise Unknown('order of events')
            if e[1] != r:
                raise Wrong('%s gives %s where it should give %s' % (MOPS[op] % k, e[1], r))
            see(cur, '')
        for e in it:
            if e[0] != 'found':
                raise Unknown('order of events')
            w = cur.get(e[1], -1)
            if e[2] != w:
                raise Wrong('key %d is %s' % (e[1], 'found though it is not in the map' if w == -1 else 'not found' if e[2] == -1 else 'found with another element'))
    return f


def map_jobs(thorough):
    out = []
    for n in range(0, 13 if thorough else 10):
        for t in trees(n):
            keys = levels(t) if n else []
            seqs = []
            for k in range(2 * n + 1):
                seqs += [[(0, k)], [(3, k)]]
                if k & 1:
                    seqs += [[(1, k)], [(2, k)]]
                    if n <= 7:
                        seqs += [[(14, k)], [(15, k)]]
                if n <= 7 or thorough:
                    seqs.append([(4, k)])
                if n <= 4:
                    seqs += [[(op, k)] for op in range(8, 14)]
            seqs += [[(5, 0)], [(6, 0)], [(5, 0), (0, 5)], [(6, 0), (0, 5)]]
            if n <= 5:
                seqs += [[(7, k)] for k in range(n + 1)] + [[(1, 2)]]
            # pairs: whatever the first leaves behind in the nodes shows in what the second does
            then = [(0, k) for k in range(2 * n + 1)] + [(1, k) for k in range(1, 2 * n, 2)]
            if n <= (11 if thorough else 9):
                seqs += [[(1, a), o] for a in range(1, 2 * n, 2) for o in then if o != (1, a) and (o[0] == 1 or o[1] == a or not o[1] & 1)]
            if n <= (9 if thorough else 7):
                seqs += [[(0, a), o] for a in range(0, 2 * n + 1, 2) for o in then + [(1, a)] if o != (0, a) and (o[0] == 1 or not o[1] & 1)]
                seqs += [[(3, a), o] for a in range(1, 2 * n, 2) for o in then if o[0] == 1 or not o[1] & 1]
            for s in seqs:
                p = [n] + keys + [len(s)] + [x for oc in s for x in oc]
                out.append(('box_map', p, [], 0, ('map', tuple(keys), tuple(s)), 'a map filled with %s, %s' % (keys, ', '.join(MOPS[o] % k for o, k in s))))
    return out


# ---- strings
SOPS = ['construction', '= string', '= text', '+= string', '+= text', '+= character', 'Set(text, %d)', 'AppendString(text, %d)', 'SetStringLength(%d)', 'copy construction', 'move construction',
        'construction from (text, %d)', '= moved string', '= itself', '+ text', 'comparison', '= moved temporary', 'assignment to an empty string', '= itself, moved', '+= (int32) %d', '+= (uint32) %d', '+= (int64) %d', '+= (uint64) %d', '= (int32) %d', '= (int64) %d', '+ (int32) %d', '+ (int64) %d',
        'construction from (int32) %d', 'construction from (int64) %d', '+= itself', 'PurgeString()', "ReplaceChar('a', 'b')", 'ConvertToLowerCase()', 'ConvertToUpperCase()']
NUMBERS = {}
for _op in range(19, 29):
    _w, _sg = (32 if _op in (19, 20, 23, 25, 27) else 64), _op not in (20, 22)
    NUMBERS[_op] = sorted({v for e in range(0, 20) for v in (10 ** e - 1, 10 ** e, -10 ** e, 1 - 10 ** e, 7 * 10 ** e + 3) if (-(1 << _w - 1) if _sg else 0) <= v < 1 << _w - _sg}
                          | ({-(1 << _w - 1), (1 << _w - 1) - 1} if _sg else {(1 << _w) - 1, 1 << _w - 1, (1 << _w - 1) - 1}))


WAYS = ['assigned', 'copied', 'assigned over a longer one', 'cut back', 'moved there', 'cut back from a longer one']


def cmpref(d, a, b):
    """-1, 0, 1: order of two texts of undetermined bytes, each with its NUL"""
    for x, y in zip(list(a) + [0], list(b) + [0]):
        if not d.same(x, y):
            if d.inset(d.cmp('eq', x, y, 32), (0,)):
                return -1 if d.inset(d.cmp('ult', x, y, 32), (1,)) else 1
    return 0


def string_judge(la, lb, op, x, cap):
    def f(d, evs, fails):
        src = [d.byte(k) for k in range(la + lb)]
        A, B = src[:la], src[la:]
        A, B = A[:cap], B
        O = B[:cap]
        ev = evs[evs.index(('old',)) + 1:]
        texts = [e for e in ev if e[0] in ('text', 'did', 'item')]
        extra = None
        if texts and texts[0][0] == 'item':
            c = cmpref(d, A, O)
            w = (c == 0) + 2 * (c != 0) + 4 * (cmpref(d, A, B) == 0) + 8 * (cmpref(d, A, B) < 0)
            g = texts[0][1]
            g = d.const(g) if issum(g) else g
            if g != w:
                raise Wrong('the comparison of "%s" and "%s" gives %d where it should give %d' % (text.render(d, A), text.render(d, B), g, w))
            texts = texts[1:]
        temps = []
        while texts and texts[0] == ('did', 2):
            temps.append(texts[1])
            texts = texts[2:]
        if [e[0] for e in texts] != ['did', 'text', 'text', 'did', 'text']:
            raise Unknown('order of events')
        threw = texts[0][1] == 1
        want, other = list(A), list(O)
        tw = []
        if op in (1, 2, 16):
            want = O if op == 1 else B
        elif op in (3, 4):
            want = A + (O if op == 3 else B)
        elif op == 5:
            want = A + B[:1] if B else A
            if not B:
                want = None
        elif op == 6:
            want = B[:x]
        elif op == 7:
            want = A + B[:x]
        elif op == 8:
            want = A[:x] if x <= len(A) else A + [None] * (x - len(A))
        elif op == 9:
            tw, want = [A], []
        elif op == 10:
            tw, want = [A], None
        elif op == 11:
            tw = [B[:x]]
        elif op == 12:
            want, other = O, None
        elif op == 14:
            tw = [A + B]
        elif op == 17:
            tw = [[], A]
        elif op == 18:
            want = None
        digits = [ord(c) for c in str(x)]
        if op in (19, 20, 21, 22):
            want = A + digits
        elif op in (23, 24):
            want = digits
        elif op in (25, 26):
            tw = [A + digits]
        elif op in (27, 28):
            tw = [digits]
        elif op == 29:
            want = A + A
        elif op == 30:
            want = []
        elif op in (31, 32, 33):
            m = {97: 98} if op == 31 else {k: k + 32 for k in range(65, 91)} if op == 32 else {k: k - 32 for k in range(97, 123)}
            want = [m.get(d.const(c), d.const(c)) for c in A]
        if want is not None:
            want = want[:cap]
        tw = [w[:cap] for w in tw]

        def same(got, want, who):
            if got[-1] != 0 and not (issum(got[-1]) and d.norm(got[-1]) == 0):
                if got[-1] == U:
                    raise Wrong('%s is not followed by a NUL' % who)
                raise Wrong('%s is not followed by a NUL' % who)
            if want is None:
                return
            g = got[:-1]
            if len(g) != len(want):
                raise Wrong('%s has %d characters ("%s") where it should have %d ("%s")' % (who, len(g), text.render(d, [c for c in g if c != U]), len(want), text.render(d, [c for c in want if c is not None])))
            for k, (p, q) in enumerate(zip(g, want)):
                if q is None:
                    continue
                if p == U or not d.same(p, q):
                    raise Wrong('character %d of %s is not the right one' % (k, who))
        if threw and not fails:
            raise Wrong('the operation throws though nothing failed')
        for g, w in zip(temps, tw):
            same(g[1], w, 'the new string')
        if not threw or op in (9, 10, 17) and temps:
            if not threw:
                same(texts[1][1], want, 'the string')
                same(texts[2][1], other, 'the other string')
        else:
            # after a failure the string is the old one
            same(texts[1][1], A if op not in (10, 18) else None, 'the string after the failure')
            same(texts[2][1], O, 'the other string after the failure')
        got = list(texts[1][1][:-1])
        if texts[3][1] == 0:
            if U in got or op == 8:
                return
            same(texts[4][1], (got + [ord(c) for c in 'tail of some length'])[:cap], 'the string with a tail')
        elif not fails:
            raise Wrong('appending throws though nothing failed')
        else:
            same(texts[4][1], got if U not in got else None, 'the string after a failure to append')
    return f


def string_jobs(thorough):
    out = []
    nz = FULL & ~1
    L = (0, 1, 2, 14, 15, 16, 17, 30, 31, 32, 33, 47, 63, 64, 65) if thorough else (0, 1, 2, 14, 15, 16, 17, 31, 32, 33, 63, 64, 65)
    for entry, cap in (('box_string', 1 << 20), ('box_string20', 20)):
        for la in L:
            for lb in (0, 1, 3, 15, 16, 17, 31, 32, 48, 64, 100) if thorough else (0, 1, 15, 16, 17, 32, 48, 64):
                for op in list(range(19)) + [29]:
                    if op == 15 and la > 3 or op == 15 and lb > 3 or entry != 'box_string' and op in (16, 12, 17, 18):
                        continue
                    if op == 8:
                        xs = sorted({0, 1, la - 1, la, la + 1, la + 16, 15, 16, 33} - {-1}) if lb == 0 else []
                        if cap == 20:
                            xs = [x for x in xs if x <= min(la, cap)]
                    else:
                        xs = sorted({0, 1, max(lb - 1, 0), lb, lb + 3}) if op in (6, 7, 11) else [0]
                    for x in xs:
                        for way in range(5 if cap > 20 else 1):
                            if way and x != xs[-1]:
                                continue
                            w = '%s of %d characters %s, with %d others: %s' % ('a string' if cap > 20 else 'a String<20>', la, WAYS[way], lb, SOPS[op] % x if '%' in SOPS[op] else SOPS[op])
                            out.append((entry, [op, x, way], [[nz] * la, [nz] * lb], 1, ('string', la, lb, op, x, cap), w))
    for entry, cap in (('box_string', 1 << 20), ('box_string20', 20)):
        for op in range(19, 29):
            for la in (0, 3, 14, 20, 60) if op < 27 else (0,):
                if entry == 'box_string20' and la > 20:
                    continue
                for x in NUMBERS[op]:
                    if not thorough and la and x % 7 and abs(x) > 1000 and x not in (NUMBERS[op][0], NUMBERS[op][-1]):
                        continue
                    out.append((entry, [op, 0, 0, x >> 32 & 0xffffffff, x & 0xffffffff], [[nz] * la, [nz]], 1, ('string', la, 1, op, x, cap),
                                '%s of %d characters, %s' % ('a string' if cap > 20 else 'a String<20>', la, SOPS[op] % x)))
    # strings with all the room a cut can leave
    for la in (0, 1, 14, 15, 16, 30, 31, 32, 59, 60, 61, 62, 63, 64, 65) + ((123, 124, 125, 126, 127, 128, 129) if thorough else ()):
        for pre in (1, 40, 64, 90) + ((127, 200) if thorough else ()):
            ops = [(op, lb, 0) for op in (1, 2, 3, 4, 9, 10, 14, 29) for lb in (1, 16, 63, 64, 65)] + [(5, 1, 0), (6, 64, 64), (7, 64, 64), (7, 65, 65)] + [(8, 0, la + k) for k in (1, 3, 4, 63, 64, 65)]
            ops += [(op, 1, NUMBERS[op][0 if op in (19, 21) else -1]) for op in (19, 20, 21, 22, 23, 24, 25, 26)]
            for op, lb, x in ops:
                out.append(('box_string', [op, x if op < 19 else 0, 5, x >> 32 & 0xffffffff, x & 0xffffffff], [[nz] * la, [nz] * lb, [1 << 122] * pre], 1, ('string', la, lb, op, x, 1 << 20),
                            'a string of %d characters cut back from %d, with %d others: %s' % (la, la + pre, lb, SOPS[op] % x if '%' in SOPS[op] else SOPS[op])))
    some = maskof(b'abAZz@[`{\xc3')
    for op in (30, 31, 32, 33):
        for la in range(4):
            for way in range(5):
                out.append(('box_string', [op, 0, way], [[some] * la, []], 0, ('string', la, 0, op, 0, 1 << 20), 'a string of %d characters %s: %s' % (la, WAYS[way], SOPS[op])))
        out.append(('box_string', [op, 0, 0], [[maskof(b'a')] * 40, []], 0, ('string', 40, 0, op, 0, 1 << 20), 'a string of 40 characters: %s' % SOPS[op]))
    if True:
        for la in range(4):
            for lb in range(4):
                if la + lb <= 4:
                    small = maskof(b'aA\xc3z')
                    out.append(('box_string', [15, 0, 0], [[small] * la, [small] * lb], 0, ('string', la, lb, 15, 0, 1 << 20), 'strings of %d and %d characters, comparison' % (la, lb)))
                    out.append(('box_string20', [15, 0, 0], [[small] * la, [small] * lb], 0, ('string', la, lb, 15, 0, 20), 'String<20> of %d and %d characters, comparison' % (la, lb)))
    return out


JUDGES = {'array': array_judge, 'map': map_judge, 'string': string_judge}
JOBS = {'P21': map_jobs, 'P22': array_jobs, 'P23': string_jobs}
CACHE = {}


def job(j):
    entry, params, sources, failures, jd, what = j
    t0 = time.time()
    try:
        r = runbox(CACHE['m'], entry, params, sources, failures, JUDGES[jd[0]](*jd[1:]), what)
    except (RecursionError, KeyError, IndexError, TypeError, ValueError, StopIteration) as x:
        r = dict(viol=[], undec=['%s: not analysed (%s: %s)' % (what, type(x).__name__, str(x)[:80])], paths=0, failed=0, steps=0, functions=[])
    r['name'], r['s'] = what, time.time() - t0
    return r


def gather(pid, thorough):
    sys.setrecursionlimit(20000)
    if 'm' not in CACHE:
        CACHE['m'] = module(probes=['boxes.cpp'], passes='sroa')
    js = JOBS[pid](thorough)
    return pooled(job, js, 8, 800 if thorough else 500)


RULES = {
    'P21': 'after each operation the map iterates, forwards and backwards, exactly the keys it has, each with its element, finds exactly them, and every subtree is balanced',
    'P22': 'after each operation the array has exactly the elements the operation leaves, every slot is built once and destroyed once, and no memory outside the capacity is touched',
    'P23': 'after each operation both strings have exactly their text and a NUL behind it, inside storage that each owns alone',
}
EXPL = {
    'P21': 'Abstract interpretation of one operation (and of pairs of removals) on a map of every height-balanced shape with up to 9 elements (12 in the thorough tier): insertion at every place, removal of every '
           'element, replacement, reservation, deletion, clearing. The keys and links are followed exactly, so every rotation case of insertion and removal is reached; the result is compared with a reference map.',
    'P22': 'Abstract interpretation of one operation on an array (with and without storage inside) of every length up to 9 (13 in the thorough tier) and several amounts of spare room; every allocation and every '
           'construction of an element, but by moving, has its failing outcome too. Every slot carries whether an element is alive in it.',
    'P23': 'Abstract interpretation of one operation on a string (String<> and String<20>) that came to its text in one of five ways, with lengths around every change of storage, all characters undetermined '
           '(any byte but NUL); every allocation has its failing outcome too. The text and terminator of both strings are compared with a reference, then again after appending once more.',
}
ASSUME = {
    'P21': ['Longer histories follow by induction over one operation, as far as the shapes reach (9 elements; the rebalancing code looks at most two levels below the node it works on).', 'Keys are compared by < and == of an integer.'],
    'P22': ['Elements move without throwing.', 'An argument that is an element of the array itself is copied, not moved from.', 'At most one failure in a path.'],
    'P23': ['At most one failure in a path.', 'EncodeEscapeSequences, conversion of 16-bit text and of floating-point numbers are not covered.'],
}


def check(pid):
    thorough = os.environ.get('VERIF_TIER') == 'thorough'
    c = Check(pid)
    c.t0 = T0
    rs = gather(pid, thorough)
    for r in rs:
        for k, w in r['viol']:
            c.violation('%s:%s:%s' % (pid, k, r['name']), w)
        c.undecided += r['undec'][:2]
    n = len(c.violations)
    c.violations = sorted(c.violations, key=lambda v: len(v[1]))[:10]
    if not any(r['paths'] for r in rs):
        raise AnalysisBroken('no operation was analysed: ' + '; '.join(c.undecided[:2]))
    c.coverage.update(operations_from_a_state=len(rs), paths=sum(r['paths'] for r in rs), paths_with_a_failure=sum(r['failed'] for r in rs), instructions=sum(r['steps'] for r in rs),
                      functions_followed=len({f for r in rs for f in r['functions']}), findings_before_grouping=n, rule=RULES[pid])
    c.assumptions += ASSUME[pid]
    c.finish(EXPL[pid])


if __name__ == '__main__':
    import pickle
    CACHE['m'] = pickle.load(open('/tmp/w/boxm.pkl', 'rb'))
    for pid in sys.argv[1:2] if len(sys.argv) > 1 and sys.argv[1] != 'all' else sorted(JOBS):
        t0 = time.time()
        rs = gather(pid, 'thorough' in sys.argv)
        print(pid, len(rs), 'steps', sum(r['paths'] for r in rs), 'paths', sum(r['failed'] for r in rs), 'failing', sum(r['steps'] for r in rs), 'instructions', '%.1f s' % (time.time() - t0))
        seen = {}
        for r in rs:
            for v in r['viol']:
                seen.setdefault((v[0], v[1].split(', ', 2)[-1][:60]), []).append(v)
        for k, v in list(seen.items())[:25]:
            print('V', len(v), str(v[0])[:420])
        us = [u for r in rs for u in r['undec']]
        print(len(us), 'undecided')
        for u in us[:8]:
            print('U', u[:400])
