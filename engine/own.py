"""P09: every block of memory is released exactly once and not used afterwards, in every order of calls and when any allocation or file operation fails.

Heap typestate (allocated, released) over an abstract interpretation of whole lives of a document and an object: parse, deserialize, serialize, write,
validate, look up, destroy.  Every allocation and every file operation has its failing outcome too, up to a number of failures on a path."""
import itertools, os, sys, time
from common import *
from bytedom import *
import text
from text import T, C, H, ANY, NZ, WSP, DIGIT

T0 = time.time()
NULLPTR = 0
# operations of the probe: 0..9 parse a text, then
FILE, DES, SER, WRITE, VAL, DES2, NAMED, FIND, ROUND = range(10, 19)
OPNAMES = {FILE: 'Parse(file)', DES: 'DeserializeTo', SER: 'SerializeFrom', WRITE: 'Write', VAL: 'Validate', DES2: 'DeserializeTo another object', NAMED: 'Serialize by name',
           FIND: 'Find', ROUND: 'SerializeFrom and DeserializeTo'}


def fork(E, st, i, good, bad):
    """outcomes of an operation that may fail: good is a value, bad a value or '#throw'"""
    if st.left <= 0:
        return good
    t = st.copy()
    t.left -= 1
    t.out = (t.out, ('fail', E.where(i)))
    return [(good, st), (bad, t)]


def a_new(nothrow):
    def f(E, st, fr, i, a):
        n = a[0]
        if issum(n):
            n = Dom(st.mask).const(n)
        if type(n) is not int:
            raise Unknown('allocation of unknown size at ' + E.where(i))
        if n > 1 << 40:
            return 0 if nothrow else ('#throw',)
        if st.left <= 0:
            return ('p', st.new('heap', n, 'new at ' + outer(E, st, i)), 0)
        t = st.copy()
        t.left -= 1
        t.out = (t.out, ('fail', outer(E, st, i)))
        p = ('p', st.new('heap', n, 'new at ' + outer(E, st, i)), 0)
        return [(p, st), (0 if nothrow else '#throw', t)]
    return f


def outer(E, st, i):
    """the place of a call in the sources of the library"""
    if '/usr/' not in (i.get('f') or ''):
        return E.where(i)
    for fr in reversed(st.frames):
        b = fr.f['blocks'][fr.bn]
        j = b[min(fr.ix, len(b) - 1)]
        if '/usr/' not in (j.get('f') or '/usr/'):
            return E.where(j)
    return E.where(i)


def next_op(E, st, fr, i, a):
    if not st.todo:
        return (1 << 32) - 1
    op = st.todo[0]
    st.todo = st.todo[1:]
    if op == ARM:
        st.left = E.failures
        return next_op(E, st, fr, i, a)
    st.out = (st.out, ('op', op))
    return op


def text_of(E, st, fr, i, a):
    return ('p', 'array%d' % a[0], 0)


def m_open(E, st, fr, i, a):
    return fork(E, st, i, 3, (1 << 32) - 1)


def m_fstat(E, st, fr, i, a):
    p = E.ptr(st, a[1], i, 'write')
    n = len(E.file)
    st.pos = 0
    for o, z, v in ((24, 4, 0o100644), (48, 8, n)):
        E.store(st, p[1], p[2] + o, z, v, i)
    return fork(E, st, i, 0, (1 << 32) - 1)


def m_read(E, st, fr, i, a):
    n = a[2]
    p = E.ptr(st, a[1], i, 'write')
    if type(n) is not int:
        raise Unknown('read of unknown length')
    k = min(n, len(E.file[:E.world.get('holds')]) - st.pos, E.world.get('piece', n))
    for j in range(k):
        E.store(st, p[1], p[2] + j, 1, E.file[st.pos + j], i)
    st.pos += k
    return fork(E, st, i, k, (1 << 64) - 1)


def m_write(E, st, fr, i, a):
    n = a[2]
    if issum(n):
        n = Dom(st.mask).const(n)
    if type(n) is not int:
        raise Unknown('write of unknown length')
    if n:
        p = E.ptr(st, a[1], i, 'read')
        E.check(st, p[1], p[2], n, 'read', i)
    k = min(n, E.world.get('piece', n), max(0, E.world.get('room', 1 << 40) - st.written))
    st.written += k
    return fork(E, st, i, k, (1 << 64) - 1)


def m_snprintf(E, st, fr, i, a):
    # which digits a number has makes no difference to who owns memory
    if a[0] != 0:
        p = E.ptr(st, a[0], i, 'write')
        E.store(st, p[1], p[2], 1, 49, i)
        E.store(st, p[1], p[2] + 1, 1, 0, i)
    return 1


# ---- red-black trees of the standard library, without their balance
PAR, LEFT, RIGHT = 8, 16, 24


def g(E, st, n, o, i):
    return E.load(st, n[1], n[2] + o, 8, 'p', i)


def put(E, st, n, o, v, i):
    E.store(st, n[1], n[2] + o, 8, v, i)


def rb_insert(E, st, fr, i, a):
    left, x, p, h = a
    if type(left) is not int:
        raise Unknown('insertion into a tree')
    put(E, st, x, PAR, p, i)
    E.store(st, x[1], x[2], 4, int(p == h), i)
    put(E, st, x, LEFT, 0, i)
    put(E, st, x, RIGHT, 0, i)
    if left & 1:
        put(E, st, p, LEFT, x, i)
        if p == h:
            put(E, st, h, PAR, x, i)
            put(E, st, h, RIGHT, x, i)
        elif p == g(E, st, h, LEFT, i):
            put(E, st, h, LEFT, x, i)
    else:
        put(E, st, p, RIGHT, x, i)
        if p == g(E, st, h, RIGHT, i):
            put(E, st, h, RIGHT, x, i)
    return U


def rb_inc(E, st, fr, i, a):
    x = a[0]
    y = g(E, st, x, RIGHT, i)
    if y != 0:
        while y != 0:
            x, y = y, g(E, st, y, LEFT, i)
        return x
    p = g(E, st, x, PAR, i)
    while x == g(E, st, p, RIGHT, i):
        x, p = p, g(E, st, p, PAR, i)
    return p if g(E, st, x, RIGHT, i) != p else x


def rb_dec(E, st, fr, i, a):
    x = a[0]
    if E.load(st, x[1], x[2], 4, 'i32', i) == 0 and g(E, st, g(E, st, x, PAR, i), PAR, i) == x:
        return g(E, st, x, RIGHT, i)
    y = g(E, st, x, LEFT, i)
    if y != 0:
        while y != 0:
            x, y = y, g(E, st, y, RIGHT, i)
        return x
    p = g(E, st, x, PAR, i)
    while x == g(E, st, p, LEFT, i):
        x, p = p, g(E, st, p, PAR, i)
    return p


def m_assert(E, st, fr, i, a):
    raise Bad('bounds', 'a container of the standard library is used outside its elements at ' + outer(E, st, i))


MODELS = {
    '_Znwm': a_new(False), '_Znam': a_new(False), '_ZnwmRKSt9nothrow_t': a_new(True), '_ZnamRKSt9nothrow_t': a_new(True), 'malloc': a_new(True),
    'next_op': next_op, 'text_of': text_of, 'open': m_open, 'open64': m_open, 'close': lambda E, st, fr, i, a: 0,
    'fstat': m_fstat, 'fstat64': m_fstat, 'read': m_read, 'write': m_write, 'snprintf': m_snprintf,
    '_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_': rb_insert,
    '_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base': rb_inc, '_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base': rb_inc,
    '_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base': rb_dec, '_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base': rb_dec,
    '_ZSt20__glibcxx_assert_failPKciS0_S0_': m_assert,
}


class OwnState(State):
    __slots__ = ('left', 'todo', 'pos', 'written')

    def __init__(s):
        State.__init__(s)
        s.left, s.todo, s.pos, s.written = 0, (), 0, 0

    def copy(s):
        t = OwnState()
        t.mask = list(s.mask)
        t.mem = dict(s.mem)
        s.own = set()
        t.reg = dict(s.reg)
        t.frames = [f.copy() for f in s.frames]
        t.out, t.n, t.steps = s.out, s.n, s.steps
        t.left, t.todo, t.pos, t.written = s.left, s.todo, s.pos, s.written
        return t


class OwnInterp(text.TextInterp):
    world = {}

    def load(s, st, r, off, size, ty, i):
        if r[:5] == 'array' and r in st.reg:
            s.check(st, r, off, size, 'read', i)
            k = r[5:]
            return ('p', 'text' + k if k == '0' else 'const' + k, 0) if ty == 'p' else s.lengths[int(k)]
        return text.TextInterp.load(s, st, r, off, size, ty, i)

    def loadv(s, st, p, i):
        v = text.TextInterp.loadv(s, st, p, i)
        # bits of a vector<bool> are set one by one in a word that starts undetermined
        return 0 if v == U and (i.get('f') or '').endswith('stl_bvector.h') else v

    def icmp(s, st, i, a, b):
        if type(a) is tuple and type(b) is tuple and a[0] == 'p' and b[0] == 'p' and a[1] != b[1] and i['p'] not in ('eq', 'ne'):
            # blocks lie in some order; any one is possible
            return int((a[1] < b[1]) == (i['p'][1] == 'l'))
        return text.TextInterp.icmp(s, st, i, a, b)

    def turn(s, st):
        if not st.frames:
            return ('exc', None)
        return text.TextInterp.turn(s, st)


def interp(m):
    E = OwnInterp(m, MODELS)
    E.text = 'text0'
    return E


def run_life(m, entry, texts, file, ops, failures, world={}):
    """texts: the first may have undetermined bytes, the others are constant"""
    E = interp(m)
    E.lengths = []
    E.file = file.encode()
    # a file may hold less than its size says ('holds'), a device may be full ('room'), and either may move only so many bytes at once ('piece')
    E.world = world
    st = OwnState()
    st.left = 0
    E.failures = failures if ARM in ops else 0
    if ARM not in ops:
        st.left = failures
    st.todo = tuple(ops)
    for k, t in enumerate(texts):
        if k == 0:
            st.mask = list(t) + [1]
            n = len(st.mask)
            st.reg['text0'] = (n, 'text', True, 'the text')
            st.mem['text0'] = {}
        else:
            b = t.encode() + (b'\0' if t[-1:] != '!' else b'')
            n = len(b)
            st.reg['const%d' % k] = (n, 'const', True, 'a text')
            st.mem['const%d' % k] = {j: (1, c) for j, c in enumerate(b)}
        E.lengths.append(n)
        st.reg['array%d' % k] = (64, 'array', True, 'the array')
        st.mem['array%d' % k] = {}
    st.reg['exc'] = (64, 'exc', True, 'exception')
    st.mem['exc'] = {}
    E.limit = 3000000
    E.push(st, entry, [], None)
    res = dict(viol=[], undec=[], paths=0, failed=0, steps=0, blocks=0)

    def told(t):
        e = t.events()
        done = [OPNAMES.get(x[1]) or 'Parse("%s")' % (text.show(t.mask) if x[1] == 0 else texts[x[1]]) for x in e if x[0] == 'op']
        fails = [x[1] for x in e if x[0] == 'fail']
        return entry[5:] + ': ' + ', '.join(done) + (', failing at ' + ' and '.join(fails) if fails else '')
    for kind, t, info in E.explore(st):
        res['paths'] += 1
        res['failed'] += any(x[0] == 'fail' for x in t.events())
        res['blocks'] += sum(1 for x in t.reg.values() if x[1] == 'heap')
        if len(res['viol']) >= 10 or time.time() - T0 > 600:
            res['undec'].append('further paths not analysed')
            break
        if kind == 'bad':
            key, what, stack = info
            if key in ('freed', 'double', 'release', 'bounds', 'null'):
                res['viol'].append((key, what.split(' at ')[-1], '%s: %s (%s)' % (told(t), what, stack)))
            elif key == 'loop':
                res['viol'].append((key, 'end', '%s%s: %s (%s)' % (told(t), worldname(world), what, stack)))
            elif key != 'abort':
                res['undec'].append('%s: %s' % (told(t), what))
        elif kind == 'unknown':
            res['undec'].append('%s: %s' % (told(t), info))
        elif info[0] == 'ret':
            left = [x for x in t.reg.values() if x[1] == 'heap' and x[2]]
            if left:
                res['viol'].append(('leak', left[0][3], '%s: memory from %s is never released' % (told(t), left[0][3])))
    res['steps'] = E.steps
    res['functions'] = sorted(E.visited)
    return res


LONG = 'a text that does not fit into a small string'
# per life: a text of the type, another one, one that is refused late, an unusable buffer, one with other kinds in it, one with repeated names; what the file holds
SPECS = {}


def spec(name, good, other, mismatch, dup, file=None):
    SPECS['life_' + name] = ([good, other, good[:-1] + ',?', other + '!', mismatch, dup], file or other)


def specs():
    L = '"%s"' % LONG
    leaf = '{"x":1,"s":%s,"v":[1,2]}' % L
    leaf2 = '{"s":"b","x":-1,"v":[]}'
    node = '{"b":true,"s":%s,"leaf":%s,"names":["a",%s],"none":null}' % (L, leaf, L)
    node2 = '{"names":["c"],"s":"d","leaf":%s}' % leaf2
    spec('string', L, '"b"', '1', '["a","a"]')
    spec('number', '12.5', '0', L, '{"a":1,"a":2}')
    spec('null', 'null', 'null ', '[%s]' % L, '{"a":null,"a":[null]}')
    spec('leaf', leaf, leaf2, '{"x":1,"s":%s,"v":[1,[%s]]}' % (L, L), '{"x":1,"x":%s,"s":"a","v":[1],"v":[2]}' % L)
    spec('node', node, node2, '{"s":%s,"leaf":%s,"names":["a",%s,1]}' % (L, leaf, L), '{"s":"a","leaf":%s,"leaf":%s,"s":%s}' % (leaf, leaf2, L))
    spec('strings', '["a",%s,"c"]' % L, '[%s]' % L, '["a",%s,3]' % L, '[[],{"a":"b","a":"c"}]')
    spec('leaves', '[%s,%s]' % (leaf, leaf2), '[%s]' % leaf, '[%s,{"x":1,"s":3}]' % leaf, '[{"x":1,"s":"a","s":%s}]' % L)
    spec('nodes', '[%s,%s]' % (node, node2), '[%s]' % node2, '[%s,{"s":%s,"leaf":[]}]' % (node, L), '[{"s":"a","s":"b"},{"s":%s,"s":%s}]' % (L, L))
    spec('arrays', '[["a",%s],[]]' % L, '[[%s]]' % L, '[["a",%s],[%s,1]]' % (L, L), '[{"a":1,"a":2}]')
    for p in ('map', 'stdmap'):
        spec(p + '_string', '{"k":"a","%s":%s,"b":""}' % (LONG, L), '{"%s":"b","z":%s}' % (LONG, L), '{"a":%s,"b":1}' % L, '{"a":%s,"a":"b","c":"d","c":%s}' % (L, L))
        spec(p + '_leaf', '{"k":%s,"%s":%s}' % (leaf, LONG, leaf2), '{"%s":%s,"z":%s}' % (LONG, leaf, leaf2), '{"a":%s,"b":{"x":1,"s":[]}}' % leaf, '{"a":%s,"a":%s}' % (leaf, leaf2))
        spec(p + '_node', '{"%s":%s,"b":%s}' % (LONG, node, node2), '{"b":%s}' % node, '{"a":%s,"b":{"s":%s,"leaf":1}}' % (node, L), '{"a":%s,"a":%s}' % (node2, node))
    spec('map_array', '{"a":["b",%s],"%s":[]}' % (L, LONG), '{"%s":[%s]}' % (LONG, L), '{"a":[%s],"b":[%s,1]}' % (L, L), '{"a":[%s],"a":[]}' % L)
    spec('tree', '{"leaves":{"k":%s,"l":%s},"s":{"a":%s,"b":"c"}}' % (leaf, leaf2, L), '{"s":{"%s":%s},"leaves":{"k":%s}}' % (LONG, L, leaf),
         '{"s":{"a":%s,"b":[%s]},"leaves":{}}' % (L, L), '{"s":{"a":%s,"a":"b"},"s":{},"leaves":{"k":%s,"k":%s}}' % (L, leaf, leaf2))
    spec('stdstring', L, '"b"', '1', '["a","a"]')
    spec('vector_string', '["a",%s,"c"]' % L, '[%s]' % L, '["a",%s,3]' % L, '[[],{"a":"b","a":"c"}]')
    spec('vector_leaf', '[%s,%s]' % (leaf, leaf2), '[%s]' % leaf, '[%s,{"x":1,"s":3}]' % leaf, '[{"x":1,"s":"a","s":%s}]' % L)
    spec('vector_node', '[%s,%s]' % (node, node2), '[%s]' % node2, '[%s,{"s":%s,"leaf":[]}]' % (node, L), '[{"s":"a","s":"b"},{"s":%s,"s":%s}]' % (L, L))
    spec('vector_bool', '[true,false,true]', '[false]', '[true,%s]' % L, '[{"a":1,"a":2}]')


specs()
ALL = [0, 1, 2, 3, 4, 5, FILE, DES, SER, WRITE, VAL, DES2, NAMED, FIND, ROUND]
ARM = -2


def jobs(thorough):
    """(entry, texts, file, ops, failures)"""
    out = []
    for e, (ts, f) in SPECS.items():
        for a in ALL:
            out.append((e, ts, f, (ARM, 0, DES, a, DES) if thorough else (0, DES, ARM, a, DES), 1))
            out.append((e, ts, f, (a,), 1))
        out.append((e, ts, f, (ARM, 0, DES, SER, WRITE), 2 if thorough else 1))
        for a in ALL:
            if not thorough and a in (WRITE, VAL, FIND):
                continue
            for b in ALL if thorough or e == 'life_tree' else (DES, 1, SER) if a in (SER, NAMED, 4, 5, 1) else ():
                out.append((e, ts, f, (0, DES, ARM, a, b), 1))
    for name, t, write in text.templates(thorough):
        if len(t) < 260 and sum(bin(m).count('1') > 1 for m in t) <= 3 and not name.startswith('depth'):
            out.append(('life_tree', [t], '1', (ARM, 0), 1))
    return out


def worldname(w):
    names = {'holds': 'a file that ends after %d bytes', 'room': 'a device with room for %d bytes', 'piece': '%d bytes moved at a time'}
    return ''.join(', ' + names[k] % v for k, v in sorted(w.items()))


def endings(thorough):
    """lives in which nothing fails, and lives whose files end early or move little at a time"""
    out = []
    for e, (ts, f) in SPECS.items():
        for a in ALL:
            out.append((e, ts, f, (a,), 0))
            out.append((e, ts, f, (0, DES, a) if a != DES else (0, DES, 1, DES), 0))
        n = len(f)
        if n > 120 and not thorough:
            continue
        for w in [{'holds': k} for k in sorted({0, 1, n // 2, n - 1})] + [{'piece': 1}, {'piece': 3}, {'piece': 1, 'holds': n - 1}]:
            out.append((e, ts, f, (FILE,), 1 if thorough else 0, w))
        for w in [{'room': k} for k in (0, 1, 7)] + [{'piece': 1}, {'piece': 5}, {'piece': 2, 'room': 3}]:
            out.append((e, ts, f, (0, WRITE), 1 if thorough else 0, w))
            out.append((e, ts, f, (FILE, WRITE), 1 if thorough else 0, w))
    return out


def job(a):
    e, ts, f, ops, fl = a[:5]
    t0 = time.time()
    try:
        ts = [H(t, 1 << ord('?')) if type(t) is str else t for t in ts[:1]] + list(ts[1:])
        r = run_life(text.CACHE['own'], e, ts, f, ops, fl, *a[5:])
    except (RecursionError, KeyError, IndexError, TypeError, ValueError) as x:
        r = dict(viol=[], undec=['%s %s: not analysed (%s: %s)' % (e, ops, type(x).__name__, str(x)[:80])], paths=0, failed=0, blocks=0, steps=0, functions=[])
    r['name'], r['s'] = e + str(ops), time.time() - t0
    return r


def gather(thorough, jobs=None):
    sys.setrecursionlimit(20000)
    if 'own' not in text.CACHE:
        text.CACHE['own'] = module(probes=['own.cpp'], defines=['_GLIBCXX_ASSERTIONS'], passes='sroa')
    m = text.CACHE['own']
    js = [j for j in (jobs or globals()['jobs'])(thorough) if j[0] in m['functions']]
    return pooled(job, js, 4, 800 if thorough else 450)


EXPL = ('Abstract interpretation of whole lives of a document and an object of every documented shape (text, number, null, user types by macro and by member functions, arrays, maps, vectors, '
        'standard maps, nested) through parsing, deserializing, serializing, writing, validating, lookup and destruction, in the orders listed in the engine; every allocation, open, fstat, read and '
        'write has its failing outcome too. A heap block carries its state: a second release, a release of something else, an access after release or outside the block, and a block still '
        'allocated when everything has died are violations with the operations and the failing place named.')


def check(pid='P09'):
    thorough = os.environ.get('VERIF_TIER') == 'thorough'
    c = Check(pid)
    c.t0 = T0
    rs = gather(thorough)
    for r in rs:
        for k, w, t in r['viol']:
            if k == 'loop':
                c.undecided.append(t)
                continue
            c.violation('P09:%s:%s' % (k, w), t)
        c.undecided += r['undec'][:2]
    ts = text.gather(False)
    for r in ts:
        for p, k, t in r['viol']:
            if p == 'P09':
                c.violation('P09:%s:%s' % (k, r['name']), t)
    c.violations = sorted(c.violations, key=lambda v: len(v[1]))[:10]
    if not any(r['paths'] for r in rs):
        raise AnalysisBroken('no life was analysed: ' + '; '.join(c.undecided[:2]))
    c.coverage.update(lives=len(rs), paths=sum(r['paths'] for r in rs), paths_with_a_failure=sum(r['failed'] for r in rs), heap_blocks_followed=sum(r['blocks'] for r in rs),
                      texts_without_failures=len(ts), functions_followed=len({f for r in rs for f in r['functions']}), instructions=sum(r['steps'] for r in rs),
                      rule='a heap block is released exactly once on every path and not used afterwards')
    c.assumptions += ['One failure on a path (two for some lives in the thorough tier), at every place where an allocation or file operation can fail.',
                      'Histories of up to two operations after the object has been filled, any operation from every fresh document; the types are those of the probe.',
                      'Balance of the standard library\'s trees is not modelled; its containers are followed through their headers.']
    c.finish(EXPL)


if __name__ == '__main__':
    import pickle
    if len(sys.argv) > 1 and os.path.exists('/tmp/w/ownm.pkl') and sys.argv[1] == 'pkl':
        text.CACHE['own'] = pickle.load(open('/tmp/w/ownm.pkl', 'rb'))
    t0 = time.time()
    rs = gather('thorough' in sys.argv)
    print(len(rs), 'lives', sum(r['paths'] for r in rs), 'paths', sum(r['failed'] for r in rs), 'failing', sum(r['steps'] for r in rs), 'steps', '%.1f s' % (time.time() - t0))
    for r in sorted(rs, key=lambda r: -r['s'])[:5]:
        print('  %.1f s' % r['s'], r['name'], r['paths'])
    seen = set()
    for r in rs:
        for v in r['viol']:
            if v[:2] not in seen:
                seen.add(v[:2])
                print('V', str(v)[:500])
    us = [u for r in rs for u in r['undec']]
    print(len(us), 'undecided')
    for u in us[:8]:
        print('U', u[:400])
