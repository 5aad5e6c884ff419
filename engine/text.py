"""P01 to P04, P10 and P18 on texts: what the parser accepts, what it reads, what it builds, and what is written."""
import functools, itertools, os, sys, time
from common import *
from bytedom import *
import bytedom
from jsonref import Ref, Invalid

T0 = time.time()
ANY = FULL
NZ = FULL & ~1


def T(*parts):
    """classes of a text: str parts are literal, numbers are classes"""
    out = []
    for p in parts:
        if isinstance(p, int):
            out.append(p)
        else:
            out += [1 << b for b in (p if isinstance(p, bytes) else p.encode('latin-1'))]
    return out


def C(s):
    return maskof(s.encode('latin-1') if isinstance(s, str) else s)


DIGIT = maskof(range(48, 58))
HEXD = C('0123456789abcdefABCDEF')
WSP = C(' \t\n\r')


def ev(name):
    def f(E, st, fr, i, a):
        st.out = (st.out, (name,) + tuple(a))
        return U
    return f


def emit_text(name):
    def f(E, st, fr, i, a):
        p, n = E.ptr(st, a[0], i, 'read'), a[1]
        d = Dom(st.mask)
        if issum(n):
            n = d.const(n)
        n = signed(n, 64) if type(n) is int else None
        if n is None or n < 0 or n > 1 << 20:
            raise Unknown('length of a text')
        vals = [E.load(st, p[1], p[2] + k, 1, 'i8', i) for k in range(n + 1)]
        st.out = (st.out, (name, tuple(vals)))
        return U
    return f


def m_write(E, st, fr, i, a):
    n = a[2]
    d = Dom(st.mask)
    if issum(n):
        n = d.const(n)
    if type(n) is not int:
        raise Unknown('write of unknown length')
    if n:
        p = E.ptr(st, a[1], i, 'read')
        E.check(st, p[1], p[2], n, 'read', i)
        vals = tuple(E.load(st, p[1], p[2] + k, 1, 'i8', i) for k in range(n))
        st.out = (st.out, ('out', vals))
    return n


def place(E, st, p, size, t, i):
    if size:
        for k, c in enumerate(t[:size - 1] + b'\0'):
            E.store(st, p[1], p[2] + k, 1, c, i)
    return len(t)


def printed(E, st, f, args):
    """the text of a format whose arguments are known"""
    import re
    args, out, at = list(args), '', 0
    for g in re.finditer(r'%([-+ 0#]*)(\*|\d*)(?:\.(\*|\d*))?(hh|h|ll|l|j|z|t|)([diuxXcfFeEgG%])', f):
        if '%' in f[at:g.start()]:
            return None
        out += f[at:g.start()]
        at = g.end()
        if g.group(5) == '%':
            out += '%'
            continue
        ns = []
        for q in (g.group(2), g.group(3)):
            if q == '*':
                if not args:
                    return None
                x = args.pop(0)
                x = Dom(st.mask).const(x) if issum(x) else x
                if type(x) is not int or signed(x, 32) < 0:
                    return None
                q = str(signed(x, 32))
            ns.append(q)
        if not args:
            return None
        x, c = args.pop(0), g.group(5)
        if c in 'fFeEgG':
            x = known(x)
            if x is None or x - x != 0:
                return None
        else:
            x = Dom(st.mask).const(x) if issum(x) else x
            if type(x) is not int:
                return None
            w = {'hh': 8, 'h': 16, '': 32}.get(g.group(4), 64)
            x &= (1 << w) - 1
            if c in 'di':
                x = signed(x, w)
            c = 'd' if c in 'diu' else c
        out += '%' + g.group(1) + ns[0] + ('.' + ns[1] if ns[1] is not None else '') + c
        out = out[:out.rindex('%')] + out[out.rindex('%'):] % x
    return None if '%' in f[at:] else (out + f[at:]).encode('latin-1')


def m_snprintf(E, st, fr, i, a):
    p = E.ptr(st, a[0], i, 'write')
    f = bytes(cstring(E, st, a[2], i)).decode('latin-1')
    import re
    t = printed(E, st, f, a[3:])
    if t is not None and type(a[1]) is int:
        return place(E, st, p, a[1], t, i)
    g = re.fullmatch(r'%\.(\d+)([geGE])', f)
    v = a[3]
    if not g or type(v) is not tuple or v[0] not in ('num', 'neg', 'sub0'):
        raise Unknown('formatting with %r' % f)
    ok = int(g.group(1)) >= (17 if g.group(2) in 'gG' else 16)
    E.store(st, p[1], p[2], 1, ('nt', v if ok else ('rounded', f, v)), i)
    E.store(st, p[1], p[2] + 1, 1, 0, i)
    return 1


MODELS = {
    'emit_result': ev('result'), 'emit_number': ev('number'), 'emit_bool': ev('bool'), 'emit_null': ev('null'), 'emit_array': ev('array'),
    'emit_object': ev('object'), 'emit_end': ev('end'), 'emit_nothing': ev('nothing'), 'emit_write': ev('write'),
    'emit_string': emit_text('string'), 'emit_key': emit_text('key'),
    'open': lambda E, st, fr, i, a: 3, 'open64': lambda E, st, fr, i, a: 3, 'close': lambda E, st, fr, i, a: 0, 'write': m_write, 'snprintf': m_snprintf,
}


def fpclass(E, st, a):
    v = a[0]
    x = known(v)
    if x is not None and type(a[1]) is int:
        s = str(x)[0] == '-'
        c = 3 if x != x else (4 if s else 512) if x in (float('inf'), float('-inf')) else (32 if s else 64) if x == 0 else (16 if s else 128) if abs(x) < 2.2250738585072014e-308 else 8 if s else 256
        return int(bool(c & a[1]))
    while type(v) is tuple and v[0] in ('abs', 'neg', 'sub0'):
        v = v[1]
    if type(v) is tuple and v[0] == 'num' and type(a[1]) is int:
        # numbers of a text are finite here: the exponent of an undetermined number is not looked at
        m = a[1]
        if not m & 0x1f8:
            return 0
        if m & 0x1f8 == 0x1f8:
            return 1
    raise Unknown('classification of a number')


class TextInterp(Interp):
    def fpclass(s, st, a):
        return fpclass(s, st, a)

    def other(s, st, fr, i, op):
        if op == 'fcmp':
            vs = [s.val(st, fr, a) for a in i['a']]
            x, y = vs
            while type(x) is tuple and x[0] in ('abs', 'neg', 'sub0'):
                x = x[1]
            if known(vs[0]) is not None and known(y) is not None:
                u, v, p = known(vs[0]), known(y), i['p']
                if p in ('true', 'false'):
                    return int(p == 'true')
                if u != u or v != v:
                    return int(p[0] == 'u')
                return 1 if p == 'ord' else 0 if p == 'uno' else int({'eq': u == v, 'ne': u != v, 'lt': u < v, 'le': u <= v, 'gt': u > v, 'ge': u >= v}[p[1:]])
            if type(x) is tuple and x[0] == 'num' and type(y) is tuple and y[0] == 'd' and y[1] & (1 << 63) - 1 >= 0x7fe0000000000000 and i.get('p'):
                # against infinity or the greatest finite number
                big = y[1] & (1 << 63) - 1 >= 0x7ff0000000000000
                p = i['p']
                if big and vs[0][0] == 'abs':
                    return int(p in ('one', 'une', 'olt', 'ult', 'ole', 'ule', 'ord'))
                if big:
                    return int(p in ('one', 'une', 'olt', 'ult', 'ole', 'ule', 'ord'))
                return int(p in ('olt', 'ult', 'ole', 'ule', 'ord'))
            if type(x) is tuple and x[0] == 'num' and vs[0][0] != 'abs' and y in (('d', 0), ('d', 1 << 63)):
                # against zero: all digits are zero, or (with small exponents) some is not
                d = Dom(st.mask)
                e = [k for k, v in enumerate(x[1]) if d.inset(v, (69, 101))]
                if e and len(x[1]) - e[0] > 4:
                    raise Unknown('comparison of numbers at ' + s.where(i))
                c = 0 if all(d.inset(v, (46, 48)) for v in x[1][:e[0] if e else None]) else -1 if vs[0][0] == 'neg' else 1
                p = i['p'][1:]
                if i['p'] not in ('ord', 'uno', 'true', 'false'):
                    return int({'eq': c == 0, 'ne': c != 0, 'lt': c < 0, 'le': c <= 0, 'gt': c > 0, 'ge': c >= 0}[p])
            if i.get('p') in ('ord', 'uno') and type(x) is tuple and x[0] == 'num' and x == y:
                return int(i['p'] == 'ord')
            raise Unknown('comparison of numbers at ' + s.where(i))
        return Interp.other(s, st, fr, i, op)


def interp(m):
    E = TextInterp(m, MODELS)
    E.text = 'text'
    return E


def start(E, tpl, entry='drive_parse', args=()):
    st = State()
    st.mask = list(tpl) + [1]
    st.reg['text'] = (len(st.mask), 'text', True, 'the text')
    st.mem['text'] = {}
    st.reg['array'] = (64, 'array', True, 'the array')
    st.mem['array'] = {}
    st.reg['exc'] = (64, 'exc', True, 'exception')
    st.mem['exc'] = {}
    E.push(st, entry, [('p', 'array', 0)] + list(args), None)
    return st


def build(evs):
    """document from the events of the walk"""
    it = iter(evs)

    def value():
        e = next(it)
        k = e[0]
        if k == 'string':
            return ('str', list(e[1]))
        if k == 'number':
            return e[1]
        if k == 'bool':
            return ('bool', e[1])
        if k == 'null':
            return ('null',)
        if k == 'array':
            return ('arr', [value() for _ in range(e[1])])
        if k == 'object':
            out = []
            while True:
                e = next(it)
                if e[0] == 'end':
                    return ('obj', out)
                out.append((list(e[1]), value()))
        return ('nothing',)
    return value()


def show(mask):
    """one text of the classes"""
    def pick(m):
        for s in ('a', '1', ' ', 'A'):
            if m >> ord(s) & 1:
                return ord(s)
        return members(m & ~1 or m)[0] if m & ~1 else 0
    b = bytes(pick(m) for m in mask[:-1])
    return ascii(b.decode('latin-1'))[1:-1] if True else b


class Differ(Exception):
    def __init__(s, pid, text):
        s.pid, s.text = pid, text


def eqv(d, a, b):
    """decided equality of byte values"""
    if type(a) is tuple and a[0] != 's' or type(b) is tuple and b[0] != 's':
        return a == b
    r = d.cmp('eq', a, b, 32)
    return d.inset(r, (1,))


def eqname(d, a, b):
    return len(a) == len(b) and all(eqv(d, x, y) for x, y in zip(a, b))


def kinds(v):
    return {'str': 'a string', 'num': 'a number', 'neg': 'a number', 'bool': 'a truth value', 'null': 'null', 'arr': 'an array', 'obj': 'an object', 'nothing': 'nothing', 'sub0': 'a number', 'rounded': 'a rounded number'}.get(v[0], 'a computed number')


def render(d, vals):
    out = ''
    for v in vals:
        v = d.norm(v) if issum(v) else v
        out += '\\x%02x' % v if type(v) is int and not 32 <= v < 127 else chr(v) if type(v) is int else '?'
    return out


def first(pairs, d):
    out = []
    dup = False
    for n, v in pairs:
        if any(eqname(d, n, q) for q, _ in out):
            dup = True
        else:
            out.append((n, v))
    return out, dup


def compare(d, want, got, where='the document', strings='P03', other='P04', order=False):
    """want: reference; got: what was built"""
    wk, gk = want[0], got[0]
    if gk in ('fop', 'abs', 'd', 'sub0') and wk in ('num', 'neg') and known(want) is not None and known(got) is not None:
        x, y = known(want), known(got)
        if x != y or str(x) != str(y):
            raise Differ(other, '%s is %r where the text has %r' % (where, y, x))
        return
    if gk == 'fop' or gk == 'abs' or gk == 'd' or gk == 'sub0' and wk != 'neg':
        raise Unknown('a number computed otherwise')
    if kinds(want) != kinds(got):
        raise Differ(other, '%s is %s where the text has %s' % (where, kinds(got), kinds(want)))
    if wk == 'str':
        cmptext(d, want[1], got[1], where, strings)
    elif wk in ('num', 'neg'):
        if gk == 'rounded':
            raise Differ(other, '%s is printed with "%s", which does not have the digits to read it back' % (where, got[1]))
        if not strings and known(want) is not None and known(got) is not None:
            x, y = known(want), known(got)
            if x != y or str(x) != str(y):
                raise Differ(other, '%s reads back as %r, it was %r' % (where, y, x))
            return
        if wk == 'neg' and gk == 'sub0':
            e = [k for k, v in enumerate(want[1][1]) if d.inset(v, (69, 101))]
            if all(d.inset(v, (46, 48)) for v in want[1][1][:e[0] if e else None]):
                raise Differ(other, '%s has the wrong sign' % where)
            gk, got = 'neg', ('neg', got[1])
        if wk != gk:
            raise Differ(other, '%s has the wrong sign' % where)
        if wk == 'neg':
            return compare(d, want[1], got[1], where, strings, other)
        if len(want[1]) != len(got[1]) or not all(d.same(x, y) for x, y in zip(want[1], got[1])):
            raise Differ(other, '%s is converted from "%s" where its characters are "%s"' % (where, render(d, got[1]), render(d, want[1])))
    elif wk == 'bool':
        if d.norm(got[1]) != want[1]:
            raise Differ(other, '%s has the wrong truth value' % where)
    elif wk == 'arr':
        if len(want[1]) != len(got[1]):
            raise Differ(other, '%s has %d elements where the text has %d' % (where, len(got[1]), len(want[1])))
        for k, (x, y) in enumerate(zip(want[1], got[1])):
            compare(d, x, y, 'element %d of %s' % (k, where), strings, other, order)
    elif wk == 'obj':
        w, dup = first(want[1], d)
        o = 'P18' if dup else other
        if len(w) != len(got[1]):
            raise Differ(o, '%s has %d members where the text has %d names' % (where, len(got[1]), len(w)))
        for k, (n, v) in enumerate(got[1]):
            n = n[:-1] if strings else n
            hit = [q for q in w if eqname(d, q[0], n)]
            if not hit:
                raise Differ(strings or other, 'a member of %s is stored under the name "%s", which the text does not have' % (where, render(d, n)))
            if order and hit[0] is not w[k]:
                raise Differ('P18', 'member "%s" of %s is out of order' % (render(d, n), where))
            try:
                compare(d, hit[0][1], v, 'member "%s" of %s' % (render(d, n), where), strings, other, order)
            except Differ as e:
                raise Differ('P18' if dup and any(eqname(d, q[0], n) for q in want[1][1:]) and sum(eqname(d, q[0], n) for q in want[1]) > 1 else e.pid, e.text)


def cmptext(d, want, got, where, pid):
    if pid:
        if not got or got[-1] != 0:
            raise Differ(pid, '%s is not followed by a NUL' % where)
        got = got[:-1]
    if U in got:
        raise Unknown('bytes of a string')
    if len(want) != len(got):
        raise Differ(pid or 'P10', '%s has %d bytes ("%s") where the text encodes %d ("%s")' % (where, len(got), render(d, got), len(want), render(d, want)))
    for k, (x, y) in enumerate(zip(want, got)):
        if not d.same(x, y):
            raise Differ(pid or 'P10', 'byte %d of %s is not what the text encodes' % (k, where))


def judge(E, st, res):
    """compare one completed path with the reference; returns [(property, key, text)]"""
    evs = st.events()
    out = []
    work = [list(st.mask)]
    status = evs[0][1]
    n = 0
    while work:
        mask = work.pop()
        d = Dom(mask)
        n += 1
        try:
            judge1(E, st, d, mask, evs, status, out, res)
        except Split as e:
            for m in e.masks:
                q = list(mask)
                q[e.k] = m
                work.append(q)
        except Unknown as e:
            res['undec'].append('%s: %s' % (show(mask), e))
    res['classes'] += n
    return out


def judge1(E, st, d, mask, evs, status, out, res):
    data = [d.byte(k) for k in range(len(mask))]
    r = Ref(d, data)
    try:
        want = r.text()
    except Invalid as e:
        want = None
        if status == 0:
            out.append(('P01', 'accepts', 'the text "%s" is accepted although %s at byte %d' % (show(mask), e.what, e.pos)))
        return
    if r.lone:
        return
    if status != 0:
        out.append(('P01', 'refuses', 'the text "%s" is refused with %s' % (show(mask), statusname(status))))
        return
    k = 1
    w = [j for j, e in enumerate(evs) if e[0] == 'write']
    walk = evs[1:w[0]] if w else evs[1:]
    walk = [e for e in walk if e[0] != 'out']
    got = build(walk)
    try:
        compare(d, want, got)
    except Differ as e:
        out.append((e.pid, 'document', 'the text "%s": %s' % (show(mask), e.text)))
        return
    if w:
        if infinite(want):
            if evs[w[0]][1] == 0:
                out.append(('P10', 'infinite', 'the document of "%s" has an infinite number and is written' % show(mask)))
            return
        if evs[w[0]][1] != 0:
            out.append(('P10', 'writes', 'the document of "%s" is refused with %s when it is written' % (show(mask), statusname(evs[w[0]][1]))))
            return
        data = [v for e in evs if e[0] == 'out' for v in e[1]]
        if U in data:
            raise Unknown('written bytes')
        q = Ref(d, data + [0])
        try:
            back = q.text()
        except Invalid as e:
            out.append(('P10', 'valid', 'writing the document of "%s" gives "%s", which is not valid: %s at byte %d' % (show(mask), render(d, data), e.what, e.pos)))
            return
        try:
            nodup(d, back)
            compare(d, dedup(d, want), back, 'the document written', None, 'P10', True)
        except Differ as e:
            out.append((e.pid, 'written', 'writing the document of "%s" gives "%s": %s' % (show(mask), render(d, data), e.text)))


def infinite(v):
    if v[0] == 'arr':
        return any(infinite(x) for x in v[1])
    if v[0] == 'obj':
        return any(infinite(x) for n, x in v[1])
    return v[0] in ('num', 'neg') and known(v) in (float('inf'), float('-inf'))


def dedup(d, v):
    if v[0] == 'arr':
        return ('arr', [dedup(d, x) for x in v[1]])
    if v[0] == 'obj':
        return ('obj', [(n, dedup(d, x)) for n, x in first(v[1], d)[0]])
    return v


def nodup(d, v):
    for x in v[1] if v[0] == 'arr' else ():
        nodup(d, x)
    if v[0] == 'obj':
        if first(v[1], d)[1]:
            raise Differ('P18', 'a member is written twice')
        for n, x in v[1]:
            nodup(d, x)


NAMES = {}


def statusname(n):
    if not NAMES:
        try:
            import p06
            NAMES.update({v: k.split('::')[-1] for k, v, l in p06.enumerators()})
        except Exception:
            NAMES[0] = 'kOk'
    return NAMES.get(n, str(n))


def run_template(m, tpl, write=False, indent=(4, 32)):
    E = interp(m)
    E.limit = 60000 + 3000 * len(tpl)
    st = start(E, tpl, 'drive_write' if write else 'drive_parse', indent if write else ())
    return explore(E, st)


def explore(E, st):
    res = dict(viol=[], undec=[], paths=0, classes=0, steps=0, functions=[])
    for kind, t, info in E.explore(st):
        res['paths'] += 1
        if len(res['viol']) >= 20 or time.time() - T0 > 420:
            res['undec'].append('further paths not analysed')
            break
        if kind == 'bad':
            key, text, stack = info
            pid = {'text': ['P02'], 'bounds': ['P02'], 'null': ['P02'], 'const': ['P02'], 'freed': ['P02', 'P09'], 'double': ['P09'], 'release': ['P09'], 'loop': ['P27'], 'abort': ['P08']}.get(key, [])
            if any(e[0] == 'result' for e in t.events()) and pid == ['P02']:
                pid = ['P10']
            for p in pid:
                res['viol'].append((p, key, 'the text "%s": %s (%s)' % (show(t.mask), text, stack)))
        elif kind == 'unknown':
            res['undec'].append('%s: %s' % (show(t.mask), info))
        else:
            if info[0] != 'ret':
                res['viol'].append(('P08', 'exception', 'the text "%s": an exception leaves the library' % show(t.mask)))
                continue
            left = [r for r, x in t.reg.items() if x[1] == 'heap' and x[2]]
            if left:
                res['viol'].append(('P09', 'leak', 'the text "%s": memory from %s is never released' % (show(t.mask), t.reg[left[0]][3])))
            if not t.events() or t.events()[0][0] != 'result' or type(t.events()[0][1]) is not int:
                res['undec'].append('%s: no result' % show(t.mask))
                continue
            for p, k, x in judge(E, t, res):
                res['viol'].append((p, k, x))
    res['steps'] = E.steps
    res['functions'] = sorted(E.visited)
    return res



def H(s, hole=ANY):
    """a template from a text: ? stands for any byte, the rest for itself"""
    return [hole if c == '?' else 1 << ord(c) for c in s]


BASES = [
    ' { "a" : [ 1 , -2.5e+3 , true ] ,\n "b" : { "c" : "x\\ny" , "d" : [ ] , "e" : { } } , "f" : null } ',
    '[{"k":"\\u00e4\\ud83d\\ude00","l":false},-0,12.5E-2,["a\u00c3\u00a4",[null],""]]',
    '{"b":1,"a":[2,3],"c":{"a":4,"b":5},"a":6,"d":"\\"\\\\\\/"}',
]


def templates(thorough):
    """(name, classes, whether the document is written too)"""
    out = []

    def add(t, write=True, name=None):
        out.append((name or ''.join(chr(members(m)[0]) if m & (m - 1) == 0 else '?' for m in t)[:60], t, write))
    n = 5 if thorough else 4
    for k in range(1, n):
        add([ANY] * k, True)
    # the longest free texts, by the first byte
    firsts = [1 << b for b in b'"-[{tfn0 '] + [DIGIT & ~C('0'), WSP & ~C(' ')]
    rest = FULL & ~functools.reduce(lambda a, b: a | b, firsts)
    for f in firsts + [rest]:
        seconds = [ANY] if f not in (C('"'), C('['), C('{')) else [C('"'), C('['), C('\\'), ANY & ~C('"[\\')]
        for g in seconds:
            add([f, g] + [ANY] * (n - 2), True)
    S = ['"?', '"??"', '"???"', '"????"', '"a?b?c"', '"\\?"', '"\\?a"', '"?\\n?"', '"\\u????"', '"\\u00??\\u00??"', '"\\ud83d\\ude0?"', '"\\ud83d\\u????"', '"\\uD8??\\uDC??"', '"\\u?8??\\udc00"', '"\\ud83d\\??????"'[:-5] + '"', '"\\ud83d?u??00"', '"\\ud83d\\u', '"\\ud83d\\u1', '"\\u12', '"\\', '"a\\u', '"\\ud83d\\', '"x\\u0041?"', '"\\u004?x"',
         'tru?', 't?ue', '?rue', 'true?', 'fals?', 'f?lse', 'false?', 'nul?', 'n?ll', 'null?', 'tr', 'fal', 'nu', 't', ' ?true?? ', 'True', 'nulll',
         '0?', '-0?', '-?1', '1?2?3', '1e?5', '1.?5', '1e5?', '-?', '1.?', '1E?', '1e+?', '-0.?e?', '12345678901234567890?', '[0?1]', '[-?]', '[1?]', '[01?]', '0.0?', '[1.5?,2]', '1e5.?', '1.5.?', '+?', '.?', '[1e400?]', '0x?', '-i?f', 'n?n', '-2.2250738585072014e-308', '[5e-324,1.7976931348623157e308]', '[0.1,-0.30000000000000004,123456789012345678]', '[-0.0]', '[-0,0,1,-1,100,-100,123456,1e15,1e16,1e17,-1e17]', '[9007199254740993,9007199254740991,9223372036854775807,-9223372036854775808,18446744073709551616,1e300,-1e300]', '[2147483647,-2147483648,2147483648,4294967295,4294967296,99999999,1e21,1e22,1e23]', '[1.5,-0.5,0.001,1e-7,123456.789,4294967296.5,-1e-300,0.5e-5]', '[16777217,3.14159265358979,0.1e1,10e-1,1e0,-1e-0]',
         '[?]', '[??]', '[???]', '[1?2]', '[1,?]', '[1,?2]', '?[1,2]?', '[[?],?]', '[?1?,?2?]', '[1?,?2?,3]', '[[1]?[2]]', '[{}?]', '[]?', '[', '[1', '[1,', '[[[?]]]', '[[]?,1]', '["a"?,"b"]', '["a","?"]', '[1,2,3,4,5,6,7,8,9,10,?]', '[true?,false?,null?]',
         '{?}', '{"a"?1}', '{"a":?}', '{"a":1?}', '{"a":1,?}', '{"a":1?"b":2}', '{?"a"?:?1?}', '{"?":1,"?":2}', '{"a":1,"b":2,"?":3}', '{"??":1,"a":2}', '{"b":1,"a":2,"c":3,"?":4}', '{"a":{"a":1,"?":2},"?":3}', '{}?', '{', '{"', '{"a', '{"a"', '{"a":', '{"a":1', '{"a":1,', '{"a":1,"b"', '{a:1}', '{"a":[?],"b":{?}}', '{"":1,"?":2}', '{"a\\u00?4":1,"a\\n":2}', '{"a":1}?', '{"\\u0061":1,"?":2}', '{"a":1,"a":2,"?":3,"b":4}', '{1?:2}', '{"a":1 ?, "b" ?:2}', '{"a?":1,"ab?":2}', '{"?a":1,"a?":2}']
    for s in S:
        add(H(s))
    # numbers of the characters of numbers
    D = C('0123456789-+.eE')
    k = 6 if thorough else 5
    for f in (C('-'), C('0'), DIGIT & ~C('0')):
        add(T(f, *([D] * (k - 1))))
        add(T('[', f, *([D] * (k - 2)), ',', '1]'))
    add(T('-', DIGIT, DIGIT, '.', DIGIT, DIGIT, 'e', C('+-'), DIGIT, DIGIT))
    add(T('"', C('\xc2\xc3\xdf'), ANY, '"'))
    add(T('"', C('\xe0\xe1\xec\xed\xee\xef'), ANY, ANY, '"'))
    add(T('"', C('\xf0\xf1\xf3\xf4\xf5'), ANY, ANY, ANY, '"'))
    for L in (range(11, 18) if thorough else (12, 13, 14, 15, 61, 62)):
        add(T('"' + 'a' * L + '\\u', C('0189dDfF'), ANY, C('0'), C('0'), '"'))
        add(T('"' + 'a' * L + '\\ud83d\\ude0', ANY, '"'))
        add(T('{"' + 'a' * L, ANY, '":1,"' + 'a' * L, ANY, '":2}'))
    # members in every order of insertion
    for p in itertools.permutations('abcd'):
        add(H('{' + ','.join('"%s":%d' % (c, j) for j, c in enumerate(p)) + ',"?":9}', C('abcdef')))
    add(H('{' + ','.join('"%s":%d' % (chr(97 + (j * 7) % 23), j) for j in range(23)) + ',"?":9}', C('abcdefghijklmnopqrstuvwxyz')))
    add(H('[' + ','.join('%d' % j for j in range(70)) + '?]'))
    # long runs
    for L in ((15, 16, 17, 63, 64, 255, 256, 1000) if not thorough else (15, 16, 17, 31, 32, 63, 64, 127, 128, 255, 256, 257, 1000, 4095, 4096, 4097)):
        add(T('"' + 'a' * L, ANY, '"'))
        add(T('{"' + 'k' * L, NZ, '":1,"' + 'k' * L + 'k', '":2}'))
        add(T('1' * L, ANY))
        add(T('[' + ' ' * L, ANY, ' ' * L + ']'), False)
        add(T('"' + '\\n' * L, ANY, '"'))
        add(T('1.' + '0' * L, C('0123456789eE.'), '1'))
    for k in (1, 2, 511, 512, 513, 514):
        add(T('[' * k, ANY, ']' * k), False, 'depth %d' % k)
        add(T('{"a":' * k, '1', '}' * k), False, 'depth of objects %d' % k)
        add(T('[{"a":' * (k // 2), C('[1'), '}]' * (k // 2)), False, 'depth of both %d' % k)
    # other indentations
    for ind in ((0, 32), (1, 9), (2, 32), (3, 32), (5, 9), (8, 32)) + (((7, 9), (63, 32), (64, 32), (255, 9), (1000, 32)) if thorough else ()):
        for b in ('[{"a":[1,{"b":?}],"c":[[],{}]},"d"]', '{"a":{"b":{"c":{"d":[[[?]]]}}}}'):
            add(H(b, NZ), ind, 'indentation %d of %d: %s' % (ind + (b,)))
    # every text that differs from a base text in one place
    for b in BASES:
        for k in range(len(b)):
            add(H(b[:k]) + [ANY] + H(b[k + 1:]), True, None)
            if thorough or k % 2 == 0:
                add(H(b[:k]) + [ANY] + H(b[k:]), False, None)
            if k % 4 == 0 or thorough:
                add(H(b[:k]), False, None)
                add(H(b[:k]) + [ANY, ANY] + H(b[k + 2:]), False, None)
    return out


CACHE = {}


def job(a):
    name, t, write = a
    t0 = time.time()
    try:
        r = run_template(CACHE['m'], t, bool(write), write if type(write) is tuple else (4, 32))
    except (RecursionError, KeyError, IndexError, TypeError, ValueError) as e:
        r = dict(viol=[], undec=['%s: not analysed (%s: %s)' % (name, type(e).__name__, str(e)[:80])], paths=0, classes=0, steps=0, functions=[])
    r['name'], r['s'] = name, time.time() - t0
    r['viol'] = r['viol'][:200]
    return r


def gather(thorough):
    import multiprocessing
    sys.setrecursionlimit(20000)
    if 'm' not in CACHE:
        CACHE['m'] = module(probes=['text.cpp'], passes='sroa')
    ts = templates(thorough)
    with multiprocessing.get_context('fork').Pool(min(8, os.cpu_count() or 1)) as p:
        # the long ones first
        rs = p.map(job, sorted(ts, key=lambda t: (-sum(bin(m).count('1') > 1 for m in t[1]), -len(t[1]))), chunksize=1)
        return sorted(rs, key=lambda r: r['name'])



ASSUME = ['Every text of the listed templates, in which a hole stands for any byte: all texts of up to 3 bytes (4 in the thorough tier; longer ones from every first byte), every text one byte away from the base texts, and templates for strings, escapes, numbers, words, arrays, objects, long runs and nesting.',
          'The document is read back with the public interface; strtod is a token over exactly the characters it is given, snprintf one over the number; numbers are taken to be finite.',
          'Allocations succeed here, and files accept what is written to them (P08, P09, P11).',
          'Paths on which a byte-class value cannot be expressed are reported as undecided.']


def finish(pid, rs, rule, expl, only=None):
    c = Check(pid)
    c.t0 = T0
    for r in rs:
        for p, k, t in r['viol']:
            if p == pid:
                c.violation(pid + ':' + k + ':' + r['name'], t)
        c.undecided += r['undec'][:3]
    c.violations = sorted(c.violations, key=lambda v: len(v[1]))[:10]
    fs = sorted({f for r in rs for f in r['functions']})
    c.coverage.update(templates=len(rs), paths=sum(r['paths'] for r in rs), byte_class_products=sum(r['classes'] for r in rs), instructions=sum(r['steps'] for r in rs), functions_followed=len(fs), undecided_paths=sum(len(r['undec']) for r in rs), rule=rule)
    if not sum(r['classes'] for r in rs):
        raise AnalysisBroken('no path was judged: ' + '; '.join(c.undecided[:2]))
    c.assumptions += ASSUME
    c.finish(expl)


EXPL = 'Abstract interpretation of parsing, reading and writing over texts of byte classes; every branch that depends on a byte splits its class exactly, so each path stands for the whole product of its classes, which is compared with a reference reading of RFC 8259.'
RULES = {
    'P01': 'Parse returns Ok on a product of classes if and only if the reference reads all of its texts',
    'P02': 'no load from the text behind a byte that can be its first NUL (but the last byte of the buffer), and no access outside a live block',
    'P03': 'string values and names have the bytes, the length and the NUL of the reference decoding, for every byte of the classes',
    'P04': 'the walk through the document gives the kinds, truth values, number characters with sign, elements and names of the reference',
    'P10': 'the written bytes are read by the reference as the same document, numbers printed with 17 significant digits',
    'P18': 'of members with equal names the first is held; members are written once and in the order of the text',
    'P27': 'every path of parsing, reading and writing ends (a path is given many times the instructions it needs)',
}


def check(pid):
    rs = gather(os.environ.get('VERIF_TIER') == 'thorough')
    finish(pid, rs, RULES[pid], EXPL)


if __name__ == '__main__':
    import pickle
    sys.setrecursionlimit(20000)
    t0 = time.time()
    if len(sys.argv) == 1 or sys.argv[1] == 'all':
        rs = gather('thorough' in sys.argv)
        print(len(rs), 'templates', sum(r['paths'] for r in rs), 'paths', sum(r['classes'] for r in rs), 'classes', sum(r['steps'] for r in rs), 'steps', '%.1f s' % (time.time() - t0))
        for r in sorted(rs, key=lambda r: -r['s'])[:8]:
            print('  %.1f s' % r['s'], r['name'], r['paths'], r['classes'])
    else:
        m = pickle.load(open('/tmp/w/textm.pkl', 'rb'))
        CACHE['m'] = m
        rs = [run_template(m, eval(sys.argv[1]), len(sys.argv) > 2)]
        print({k: v for k, v in rs[0].items() if k not in ('viol', 'undec', 'functions')}, '%.1f s' % (time.time() - t0))
    seen = set()
    for v in [v for r in rs for v in r['viol']]:
        if v[:2] not in seen:
            seen.add(v[:2])
            print('V', str(v)[:400])
    us = [u for r in rs for u in r['undec']]
    print(len(us), 'undecided')
    for u in us[:8]:
        print('U', u[:300])
