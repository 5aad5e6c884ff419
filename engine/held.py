"""P05 and P07: what is held after a call, and where an error is reported.

StructuredData::Parse on a text whose bytes are newlines, blanks or anything else, with the value parser proper (ParseAnyValue) standing for
"consumes any number of bytes, and reports Ok with a value or an error with or without one".
"""
import itertools, os
from common import *
rel_ = rel
from rel import *
import docs
from docs import Docs, load, names, decisions
import p06

T0 = time.time()
# single bytes besides newlines and the undetermined printable byte x: white space, control, quote, UTF-8 lead and continuation
CONST = {'b': 32, 't': 9, 'r': 13, 'c': 7, 'f': 12, 'q': 34, 'h': 0xa9, 'u': 0xe2}
ROOT, NEW = ('doc', 'root'), ('doc', 'new')


def parser(D):
    """the value parser: the recursive function over the text that is entered from the parser of the root, with the places of its two arguments"""
    F = D.F
    if id(F) not in PARSERS:
        calls = {n: {i['fn'][1] for b in f['blocks'] for i in b if i['op'] in ('call', 'invoke') and i['fn'][0] == 'g'} for n, f in F.items()}

        def reach(n):
            seen, todo = set(), [n]
            while todo:
                for c in calls.get(todo.pop(), ()):
                    if c not in seen:
                        seen.add(c)
                        todo.append(c)
            return seen
        found = {}
        for n, f in F.items():
            ps = params(f['dem'])
            v, t = [k for k, p in enumerate(ps) if p == 'C4::Json::Value*&'], [k for k, p in enumerate(ps) if p == 'char const*&']
            if f['decl'] or len(v) != 1 or len(t) != 1 or len(f['args']) != len(ps):
                continue
            inside = reach(n)
            if n in inside and any(n in cs and c not in inside for c, cs in calls.items()):
                found[n] = v[0], t[0]
        PARSERS[id(F)] = found
    return PARSERS[id(F)]


PARSERS = {}


def params(dem):
    """types of the parameters in a demangled name"""
    i = dem.rfind('(')
    if i < 0 or not dem.endswith(')'):
        return []
    out, depth = [''], 0
    for c in dem[i + 1:-1]:
        depth += (c == '<') - (c == '>')
        if c == ',' and not depth:
            out.append('')
        else:
            out[-1] += c
    return [x.strip() for x in out]


def parse_text(m, text, errors, stops=None):
    """Parse on one text (a string over n: newline, b: blank, x: other) that ends in NUL"""
    D = Docs(m, False, 200000 + 1000 * len(text), 1 << 30)
    D.prepare()
    E = D.E
    st, d = D.start(True)
    a = ('ext', 'array')
    t = ('ext', 'text')
    n = len(text) + 1

    def load_array(E, st, r, off, size, ty, i):
        if ty == 'p':
            return ('p', t, L(0))
        w = width(ty)
        return N(n) if w and w > 8 else None
    st.reg[a] = dict(size=None, default='sym', alive=True, pin=True, load=load_array)
    st.mem[a] = {}
    st.reg[t] = dict(size=L(n), default='sym', alive=True, pin=True)
    st.mem[t] = {}
    if len(text) > 50:
        # long texts are constant, and not kept cell by cell
        by = {'n': 10, 'X': 120}
        st.reg[t] = dict(st.reg[t], load=lambda E, st, r, off, size, ty, i: N(by[text[off.const()]] if off.const() is not None and off.const() < len(text) else 0) if size == 1 and off.const() is not None else None)
    for k, c in enumerate(text + '0') if len(text) <= 50 else ():
        if c == '0':
            v = L(0)
        elif c == 'n':
            v = L(10)
        elif c in CONST:
            v = L(CONST[c])
        else:
            v = E.fresh(st, 'byte', 33, 126)
        E.put(st, t, L(k), 1, N(v))
    res = dict(viol=[], undec=[], paths=0, judged=0, calls=0, steps=0, functions=0)

    def parse_any(E, st, i, args):
        res['calls'] += 1
        st = st.copy()
        st.g['calls'] = st.g.get('calls', 0) + 1
        cur = E.load(st, args[1][1], args[1][2], 8, 'p') if args[1][0] == 'p' and args[1][1] else ('u', 0)
        if cur[0] != 'p' or cur[1] != t or st.P.red(cur[2]).const() is None or args[0][0] != 'p' or not args[0][1]:
            st.exact = False
            return [('ret', N(E.fresh(st, 'status', 0, 60, True)), st)]
        p = st.P.red(cur[2]).const()
        out = []
        for q in stops or range(p, n):
            for s, value in [(0, True)] * (q > p) + [(e, b) for e in errors for b in (True, False)]:
                u = st.copy()
                E.store(u, args[1][1], args[1][2], 8, ('p', t, L(q)))
                if value:
                    D.docvalue(u, NEW)
                    E.store(u, args[0][1], args[0][2], 8, ('p', NEW, L(0)))
                u.g['parse'] = ((s, q, value),)
                u.trace += ('the value parser stops at byte %d with status %d%s' % (q, s, ' and a value' if value else ''),)
                out.append(('ret', N(s), u))
        return out
    if not parser(D):
        res['undec'].append('the value parser was not recognised')
        return res
    for f in parser(D):
        E.models[f] = lambda E, st, i, args, f=f: parse_any(E, st, i, [args[k] for k in parser(D)[f]])
    r = ('ext', 'result')
    st.reg[r] = dict(size=None, default='sym', alive=True, pin=True)
    st.mem[r] = {}
    outs = D.call('text_parse', [d, ('p', a, L(0)), ('p', r, L(0))], st)
    line, col = D.const2('lay_line', r), D.const2('lay_column', r)
    nm = names()
    shown = '%s...' % text[:8] if len(text) > 50 else text.replace('n', '\\n').replace('b', '_')
    for kind, v, st in outs:
        res['paths'] += 1
        if not st.exact or st.P.is_empty():
            continue
        if kind != 'ret':
            res['viol'].append(('P07:throw', 'Parse lets an exception out', decisions(st)))
            continue
        x = E.num(st, v)
        got = st.P.red(x).const() if x is not None else None
        ln, cl = (E.num(st, E.load(st, r, L(o), 4, 'i32')) for o in (line, col))
        ln, cl = (st.P.red(z).const() if z is not None else None for z in (ln, cl))
        root = E.load(st, ('ext', 'document'), L(0), 8, 'p')
        if got is None or root[0] != 'p':
            res['undec'].append('result of Parse not followed')
            continue
        res['judged'] += 1
        old, new = st.g.get(('deleted', ROOT), 0), st.g.get(('deleted', NEW), 0)

        def bad(k, w):
            res['viol'].append((k, 'Parse of a text of %d bytes (%s): %s' % (n - 1, shown, w), decisions(st)))
        if 'parse' not in st.g:
            if n < 2:
                if got == 0:
                    bad('P07:refuse', 'an empty buffer is accepted')
                if old or root[1] != ROOT:
                    bad('P07:keep', 'an unusable buffer costs the earlier document')
            elif text.strip('nbtr'):
                res['undec'].append('the value parser was not called')
            continue
        s, q, value = st.g['parse'][0]
        rest = text[q:]
        pos = q
        want = s
        if s == 0:
            pos = q + len(rest) - len(rest.lstrip('nbtr'))
            want = 0 if pos == n - 1 else -1
        if (want >= 0 and got != want) or (want < 0 and (got == 0)):
            bad('P07:status', 'status %s where the value parser said %s and %s' % (nm.get(got, got), nm.get(s, s), 'the text goes on' if want < 0 else 'nothing follows'))
        if old != 1:
            bad('P07:old', 'the earlier document is destroyed %d times' % old)
        if got == 0:
            if root[1] != NEW or new:
                bad('P07:new', 'Ok is returned, but the new document is %s' % ('destroyed' if new else 'not held'))
            if ln is not None and cl is not None and (ln or cl):
                bad('P05:ok', 'Ok is returned with line %d and column %d' % (ln, cl))
        else:
            if root[1] is not None:
                bad('P07:none', 'a failed parse leaves a document behind')
            if value and new != 1:
                bad('P07:partial', 'the part of the document that was made is destroyed %d times' % new)
            l, c = 1 + text[:pos].count('n'), 1 + pos - (text.rfind('n', 0, pos) + 1)
            if ln is None or cl is None:
                res['undec'].append('line or column not followed')
            else:
                if ln != l:
                    bad('P05:line', 'an error at byte %d is reported in line %d instead of %d' % (pos, ln, l))
                if cl != c:
                    bad('P05:column', 'an error at byte %d is reported in column %d instead of %d' % (pos, cl, c))
    res['undec'] += E.undec
    res['steps'], res['functions'] = E.steps, len(E.visited)
    return res


def unusable(m):
    """Parse on buffers that are empty or not terminated"""
    res = dict(viol=[], undec=[], paths=0, judged=0)
    for n in (0, 1, 2, 3, 9):
        D = Docs(m, False, 200000, 8)
        D.prepare()
        E = D.E
        st, d = D.start(True)
        a, t, r = ('ext', 'array'), ('ext', 'text'), ('ext', 'result')
        st.reg[a] = dict(size=None, default='sym', alive=True, pin=True, load=lambda E, st, r, off, size, ty, i: ('p', t, L(0)) if ty == 'p' else N(n) if (width(ty) or 0) > 8 else None)
        st.reg[t] = dict(size=L(n), default='sym', alive=True, pin=True)
        st.reg[r] = dict(size=None, default='sym', alive=True, pin=True)
        for x in (a, t, r):
            st.mem[x] = {}
        for k in range(n):
            E.put(st, t, L(k), 1, N(E.fresh(st, 'byte', 1, 127)))

        def stub(E, st, i, args):
            st = st.copy()
            st.g['parse'] = True
            return [('ret', N(E.fresh(st, 'status', 0, 40)), st)]
        for f in parser(D):
            E.models[f] = stub
        outs = D.call('text_parse', [d, ('p', a, L(0)), ('p', r, L(0))], st)
        res['undec'] += E.undec
        for kind, v, st in outs:
            res['paths'] += 1
            if not st.exact or st.P.is_empty() or kind != 'ret':
                continue
            x = E.num(st, v)
            if x is None:
                continue
            res['judged'] += 1
            what = 'a buffer of %d bytes without a terminator' % n
            if st.P.sat_with_ge(-x) and st.P.entails_ge(x):
                res['viol'].append(('P07:refuse', 'Ok is possible for ' + what, decisions(st)))
            root = E.load(st, ('ext', 'document'), L(0), 8, 'p')
            if root[0] == 'p' and root[1] != ROOT or st.g.get(('deleted', ROOT)):
                res['viol'].append(('P07:keep', '%s costs the earlier document' % what, decisions(st)))
    return res


def without(m):
    """operations on an object that holds no document"""
    res = dict(viol=[], undec=[], paths=0, judged=0)
    ops = ['des_' + t for t in docs.TYPES] + ['val_' + t for t in docs.TYPES] + ['text_write']
    want = {v: k for k, v in names().items()}.get('kInvalidStructuredData')
    for op in ops:
        D = Docs(m, False, 200000, 4)
        D.prepare()
        E = D.E
        st, d = D.start(False)
        x = ('ext', 'x')
        st.reg[x] = dict(size=None, default='zero', alive=True, pin=True)
        st.mem[x] = {}
        for f in ('open', 'open64', 'fopen', 'creat', 'openat'):
            E.models[f] = lambda E, st, i, a: (st.g.__setitem__('opened', True), [('ret', N(3), st)])[1]
        outs = D.call(op, [d, ('p', x, L(0))], st)
        res['undec'] += E.undec
        for kind, v, st in outs:
            res['paths'] += 1
            if not st.exact or st.P.is_empty():
                continue
            n = E.num(st, v) if kind == 'ret' else None
            n = st.P.red(n).const() if n is not None else None
            if kind == 'ret' and n is None:
                continue
            res['judged'] += 1
            if kind != 'ret' or n != want:
                res['viol'].append(('P07:without:' + op, '%s without a document: %s' % (op, names().get(n, n)), decisions(st)))
            if st.g.get('opened'):
                res['viol'].append(('P07:touch:' + op, '%s without a document opens the file' % op, decisions(st)))
            if any(c for c in E.cells(st, x).values()) and op != 'text_write':
                res['viol'].append(('P07:write:' + op, '%s without a document changes the object' % op, decisions(st)))
    return res


def texts(n):
    more = {''.join(t) for k in range(n) for t in itertools.product('nx' + ''.join(CONST), repeat=k) if set(t) & (set(CONST) - {'b'})}
    return [''.join(t) for k in range(n + 1) for t in itertools.product('nbx', repeat=k)] + sorted(more)


def one(a):
    text, errors, stops = a
    try:
        return parse_text(docs.CACHE['m'], text, errors, stops)
    except (AnalysisBroken, Budget, RecursionError) as e:
        return dict(viol=[], undec=['text %s not analysed: %s' % (text, e)], paths=0, judged=0, calls=0, steps=0, functions=0)


def harness(thorough):
    import multiprocessing
    m = load()
    by = {n.split('::')[-1]: v for n, v, l in p06.enumerators()}
    errors = [v for k, v in by.items() if k in ('kExpectedValue', 'kExpectedClosingCurlyBracesOrComma')] or [v for k, v in by.items() if k.startswith('kExpected')][:1]
    wide = 3000 if thorough else 300
    long = [('X' * (wide - 1) + 'n' + 'X' * wide, errors[:1], [2 * wide]), ('X' * (wide - 1) + 'n' + 'X' * wide, errors[:1], [wide - 1]), ('Xn' * wide, errors[:1], [2 * wide - 1])]
    jobs = [(t, errors, None) for t in texts(4 if thorough else 3)]
    with multiprocessing.get_context('fork').Pool(min(8, os.cpu_count() or 1)) as p:
        rs = p.map(one, long + jobs, chunksize=1)
    return rs[len(long):] + rs[:len(long)]


def gather(thorough):
    import files
    rs = harness(thorough)
    u, w = unusable(load()), without(load())
    m, fs = files.harness('rw')
    return rs, u, w, fs


ASSUME = ['ParseAnyValue stands for the value parser: it consumes any number of bytes up to the terminator and returns Ok with a value, or an error with or without one (what it accepts is P01 to P03).',
          'Texts of up to 3 bytes (4 in the thorough tier) of newlines, blanks and printable bytes, one byte shorter with tabs, carriage returns, control and high bytes too, and long ones; every position and result of the value parser.',
          'A deviation is reported only on paths analysed without approximation.']


def finish(pid, rs, more, rule, expl):
    c = Check(pid)
    c.t0 = T0
    for r in rs:
        for k, t, dec in r['viol']:
            if k.startswith(pid):
                c.violation(k, '%s\n  decisions: %s' % (t, dec))
        c.undecided += [u for u in r['undec'] if u not in c.undecided]
    for E, o in more:
        for k, t in E.viol:
            if k.startswith(pid):
                c.violation(k, t)
    c.coverage.update(texts=len(rs), paths=sum(r['paths'] for r in rs) + sum(len(o) for E, o in more), paths_judged=sum(r['judged'] for r in rs), instructions=sum(r.get('steps', 0) for r in rs), functions_followed=max([r.get('functions', 0) for r in rs]), rule=rule)
    if not c.coverage['paths_judged'] and not c.undecided:
        raise AnalysisBroken('no path was judged')
    c.assumptions += ASSUME
    c.finish(expl)


def check05():
    rs = harness(os.environ.get('VERIF_TIER') == 'thorough')
    finish('P05', rs, [], 'on every path of Parse that fails at a byte: line = 1 + newlines before it, column = 1 + bytes behind the last of these; both 0 on Ok',
           'Abstract interpretation of StructuredData::Parse and the root parser over texts of undetermined bytes, with the value parser stopping anywhere.')


def check07():
    rs, u, w, fs = gather(os.environ.get('VERIF_TIER') == 'thorough')
    finish('P07', rs + [u, w], fs, 'after Ok exactly the new document is held and the earlier one destroyed once; after a failure none is held and every part destroyed once; unusable buffers and unreadable files change nothing; reading, validating (every type) and writing without a document return kInvalidStructuredData and open nothing',
           'Abstract interpretation of Parse (text and file), DeserializeTo, Validate and Write with the earlier and the new document as tracked objects.')


if __name__ == '__main__':
    import sys, time
    sys.setrecursionlimit(20000)
    m = load()
    t0 = time.time()
    rs = harness(False)
    print(len(rs), sum(r['paths'] for r in rs), sum(r['judged'] for r in rs), '%.1f' % (time.time() - t0))
    for v in [v for r in rs for v in r['viol']][:8]:
        print('V', v)
    print('U', sorted({u for r in rs for u in r['undec']})[:5])
    for f in (unusable, without):
        r = f(m)
        print(f.__name__, {k: v for k, v in r.items() if k not in ('viol',)}, '%.1f' % (time.time() - t0))
        for v in r['viol'][:5]:
            print('V', v)
