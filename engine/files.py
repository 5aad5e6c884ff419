"""P11, P12, P13: the file layer, by abstract interpretation with a relational domain (rel.py) against models of the system calls."""
from common import *
rel_ = rel
from rel import *

PASSES = 'sroa'
MUST = 32768      # a file up to this size has to be accepted


def limit():
    """value of the size limit the sources define, or the largest an int32 count allows"""
    for src in sources():
        if src.endswith('C4Json.cpp'):
            r = run([CXX, '-std=c++17', '-w', *INC, '-E', '-dM', src])
            for l in r.stdout.splitlines():
                w = l.split(None, 2)
                if len(w) == 3 and w[1] == 'MAX_FILE_SIZE':
                    import re
                    x = re.sub(r'(?<=[0-9a-fA-F])(ull|ul|u|ll|l)\b', '', w[2], flags=re.I)
                    if re.fullmatch(r'[0-9a-fA-FxX+\-*() <]+', x):
                        try:
                            return int(eval(x, {}, {}))
                        except Exception:
                            pass
    return (1 << 31) - 2


O_ACC, O_CREAT, O_EXCL, O_TRUNC, O_APPEND = 3, 0o100, 0o200, 0o1000, 0o2000


def base(m):
    E = Rel(m)
    X = E.models

    def open_(E, st, i, a):
        fl = E.num(st, a[1])
        fl = fl.const() if fl is not None else None
        E.sys.setdefault('open', set()).add(E.where(i))
        e = st.copy()
        e.trace += ('open fails',)
        st = st.copy()
        if fl is None:
            st.exact = False
            E.undec.append('flags of open at %s are not a constant' % E.where(i))
        else:
            E.flags(st, i, fl, a)
        n = st.g.get('nopen', 0)
        E.n += 1
        fd = E.fresh(st, 'fd', 0, 1 << 20)
        st.g['fd%d' % n] = fd
        st.g['fd%d!' % n] = 'open'
        st.g['fd%d?' % n] = fl
        st.g['nopen'] = n + 1
        e.g['lastopen'] = 'failed'
        st.g['lastopen'] = 'ok'
        return [('ret', N(st.g['fd%d' % n]), st), ('ret', N(-1), e)]

    def which(E, st, v, i, what):
        """index of the descriptor in use"""
        x = E.num(st, v)
        if x is not None:
            for n in range(st.g.get('nopen', 0)):
                if st.P.entails_eq(x - st.g['fd%d' % n]):
                    E.obl += 1
                    if st.g['fd%d!' % n] != 'open':
                        E.fail(st, 'P13:closed:%s' % E.where(i), '%s on a descriptor that was closed already' % what, i)
                    return n
        E.obl += 1
        if x is not None and st.P.entails_ge(-x + -1):
            if what != 'close':
                E.fail(st, 'P13:nofd:%s' % E.where(i), '%s without an open descriptor' % what, i)
            return None
        if x is None or any(s[0] == '~' for s in x.syms()):
            st.exact = False
        E.fail(st, 'P13:nofd:%s' % E.where(i), '%s on a descriptor the library did not open' % what, i)
        return None

    def close_(E, st, i, a):
        E.sys.setdefault('close', set()).add(E.where(i))
        st = st.copy()
        n = which(E, st, a[0], i, 'close')
        if n is not None:
            st.g['fd%d!' % n] = 'closed'
        r = N(E.fresh(st, 'closed', -1, 0))
        return [('ret', r, st)]

    def fstat_(E, st, i, a):
        E.sys.setdefault('fstat', set()).add(E.where(i))
        which(E, st, a[0], i, 'fstat')
        e, t = st.copy(), st.copy()
        e.trace += ('fstat fails',)
        e.g['sized'] = 'failed'
        if a[1][0] == 'p' and a[1][1]:
            if a[1][1] in t.reg:
                t.reg[a[1][1]] = dict(t.reg[a[1][1]], default='sym')
            E.put(t, a[1][1], a[1][2] + 48, 8, N(t.g['S']))
            t.g['sized'] = 'ok'
        return [('ret', N(0), t), ('ret', N(-1), e)]

    def lseek_(E, st, i, a):
        E.sys.setdefault('lseek', set()).add(E.where(i))
        which(E, st, a[0], i, 'lseek')
        w = E.num(st, a[2])
        o = E.num(st, a[1])
        e, t = st.copy(), st.copy()
        e.trace += ('lseek fails',)
        if w is not None and w.const() == 2 and o is not None and o.const() == 0:
            t.g['pos'] = t.g['S']
            t.g['sized'] = 'ok'
            return [('ret', N(t.g['S']), t), ('ret', N(-1), e)]
        if w is not None and w.const() == 0 and o is not None:
            t.g['pos'] = o
            return [('ret', N(o), t), ('ret', N(-1), e)]
        t.exact = False
        return [('ret', N(E.fresh(t, 'pos', -1, None, True)), t)]

    def errno_(E, st, i, a):
        r = ('lazy', 'errno')
        st = st.copy()
        st.reg.setdefault(r, dict(size=None, default='sym', alive=True, pin=True))
        st.null[r] = False
        st.mem[r] = {}
        return [('ret', ('p', r, L(0)), st)]

    X['open'] = X['open64'] = open_
    X['openat'] = lambda E, st, i, a: open_(E, st, i, a[1:])
    X['close'] = close_
    X['fstat'] = X['fstat64'] = fstat_
    X['lseek'] = X['lseek64'] = lseek_
    X['__errno_location'] = errno_
    E.which = which
    E.sys = {}
    E.flags = lambda st, i, fl, a: None
    E.mergelimit = 400
    return E


def entry(E, name, root, extra):
    """initial state and arguments of a StructuredData member call"""
    st = State()
    st.frames = [{}]
    d = ('ext', 'document')
    st.reg[d] = dict(size=None, default='sym', alive=True, pin=True)
    st.mem[d] = {}
    fn = ('ext', 'name')
    st.reg[fn] = dict(size=None, default='sym', alive=True, pin=True)
    st.mem[fn] = {}
    if root is not None:
        E.put(st, d, L(0), 8, root(st))
    return st, [('p', d, L(0)), ('p', fn, L(0))] + extra(st)


def atend(E, outs, what):
    """typestate of the descriptors when the call has ended"""
    for kind, v, st in outs:
        for n in range(st.g.get('nopen', 0)):
            E.obl += 1
            if st.g['fd%d!' % n] == 'open':
                E.fail(st, 'P13:leak:%s:%s' % (what, '|'.join(st.trace[-1:])), '%s ends and leaves the descriptor it opened open' % what)
    return outs


def statuses():
    """name -> value of the public status enumeration"""
    import p06
    return {n.split('::')[-1]: v for n, v in p06.enumerators()}


def parse_run(m, S):
    E = base(m)
    E.sum = dict(reads=0, parses=0)
    E.checkmem = False
    E.limit = limit()
    E.sum['limit'] = E.limit

    def flags(st, i, fl, a):
        E.obl += 1
        if fl & O_ACC != 0:
            E.fail(st, 'P13:flags:%s' % E.where(i), 'a file to be parsed is not opened read-only (flags %#o)' % fl, i)
        if fl & (O_CREAT | O_TRUNC):
            E.fail(st, 'P13:flags:%s' % E.where(i), 'a file to be parsed may be created or emptied (flags %#o)' % fl, i)
        if a[0][0] != 'p' or a[0][1] != ('ext', 'name'):
            E.undec.append('name of the opened file at %s not identified' % E.where(i))
    E.flags = flags

    def read_(E, st, i, a):
        E.sum['reads'] += 1
        E.which(E, st, a[0], i, 'read')
        p, n = a[1], E.num(st, a[2])
        pos, size = st.g['pos'], st.g['S']
        E.need_ge(st, L(E.limit) - size, 'P12:large:' + E.where(i), 'a file above the size limit (%d bytes) is read' % E.limit, i)
        if p[0] != 'p' or p[1] is None or n is None:
            st.exact = False
            return [('ret', N(E.fresh(st, 'read', -1, None, True)), st)]
        # the buffer holds the file from its start: byte k of the file goes to byte k of the block
        if st.g.get('buf') is None:
            st = st.copy()
            st.g['buf'] = ('p', p[1], st.P.red(p[2] - pos))
        b = st.g['buf']
        k = 'P12:place:' + E.where(i)
        E.obl += 1
        inf = st.reg.get(p[1], {})
        if b[1] == p[1]:
            E.need_eq(st, p[2] - b[2] - pos, k, 'bytes read are not put behind the bytes read before', i)
        if inf.get('size') is not None:
            E.need_ge(st, inf['size'] - p[2] - n, 'P12:bound:' + E.where(i), 'more bytes may be read than the buffer has room for', i)
        outs = []
        e = st.copy()
        e.trace += ('read fails',)
        e.g['rfail'] = True
        outs.append(('ret', N(-1), e))
        z = st.copy()
        z.P.add_ge(n + -1)
        z.trace += ('read returns 0: the file ends early',)
        z.g['eof'] = True
        if not z.P.is_empty():
            outs.append(('ret', N(0), z))
        z = st.copy()
        z.P.add_eq(n)
        if not z.P.is_empty():
            outs.append(('ret', N(0), z))
        t = st.copy()
        r = E.fresh(t, 'r', 1, n)
        t.P.add_ge(L(0x7ffff000) - r)
        if b[1] == p[1]:
            E.kill(t, p[1], t.P.red(p[2]), r)
            if inf.get('default') not in ('u',):
                t.reg[p[1]] = dict(t.reg[p[1]], default='u', weak=True)
        t.g['pos'] = pos + r
        t.trace += ('read returns some bytes',)
        if not t.P.is_empty():
            outs.append(('ret', N(r), t))
        return outs

    def parse_(E, st, i, a):
        """the text is handed to the parser"""
        E.sum['parses'] += 1
        st = st.copy()
        pos, size = st.g['pos'], st.g['S']
        arr = None
        for x in a:
            if x[0] == 'p' and x[1] and x[1][0] in ('stk', 'heap') and any(s == 4 for s, v in E.cells(st, x[1]).values()) and any(v[0] == 'p' for s, v in E.cells(st, x[1]).values()):
                arr = x[1]
        if arr:
            cnt = E.num(st, E.cells(st, arr).get(L(0), (0, ('u', 0)))[1])
            if cnt is not None and st.P.entails_ge(L(1) - cnt):
                # an array without a text is refused (decided with P07)
                st.g['handed'] = True
                return [('ret', ('agg', [N(E.fresh(st, 'status', 1, 40)), N(0), N(0)]), st)]
        E.obl += 1
        E.need_eq(st, pos - size, 'P12:all:' + E.where(i), 'the text is parsed although not all bytes of the file were read', i)
        if st.g.get('nopen', 0) == 0 or st.g['lastopen'] != 'ok':
            E.fail(st, 'P12:unopened:' + E.where(i), 'the text is parsed although no file could be opened', i)
        if st.g.get('sized') == 'failed':
            E.fail(st, 'P12:unsized:' + E.where(i), 'the text is parsed although the size of the file could not be found out', i)
        for x in a:
            if x[0] == 'p' and x[1] and x[1][0] in ('stk', 'heap') and len(E.cells(st, x[1])) >= 2:
                cs = E.cells(st, x[1])
                ints = [v for k, (s, v) in sorted(cs.items(), key=lambda z: str(z[0])) if s == 4]
                ptr = [v for k, (s, v) in cs.items() if v[0] == 'p' and v[1]]
                if len(ints) >= 2 and len(ptr) == 1 and st.g.get('buf') is not None and ptr[0][1] == st.g['buf'][1]:
                    cnt = E.num(st, cs.get(L(0), (0, ('u', 0)))[1])
                    if cnt is not None:
                        E.need_eq(st, cnt - size + -1, 'P12:count:' + E.where(i), 'the parsed text is not the bytes of the file and one terminator', i)
                    b = st.g['buf']
                    E.need_eq(st, ptr[0][2] - b[2], 'P12:start:' + E.where(i), 'the parsed text does not start with the first byte of the file', i)
                    t = E.load(st, b[1], b[2] + size, 1, 'i8')
                    x = E.num(st, t)
                    if x is not None and not any(s[0] == '~' for s in x.syms()):
                        E.need_eq(st, x, 'P12:end:' + E.where(i), 'the text handed to the parser is not terminated behind the last byte of the file', i)
                    E.sum['full'] = E.sum.get('full', 0) + 1
        st.g['parsed'] = True
        r = E.fresh(st, 'status', 0, 40)
        st.g['result'] = r
        return [('ret', ('agg', [N(r), N(E.fresh(st, 'line', 0, 1 << 30)), N(E.fresh(st, 'col', 0, 1 << 30))]), st)]
    E.models['read'] = read_
    E.models['write'] = lambda E, st, i, a: (E.fail(st, 'P13:write:' + E.where(i), 'parsing a file writes to a descriptor', i), [('ret', N(E.fresh(st, 'w', -1, None)), st)])[1]
    E.parse_ = parse_
    return E


def check_parse(m, chk, maxsize):
    E = parse_run(m, None)
    F = m['functions']
    # the text parser proper: StructuredData::Parse(Array const&) stands for it
    hit = [n for n, f in F.items() if f['dem'].startswith('C4::Json::StructuredData::Parse(Terathon::Array')]
    for n in hit:
        mdl = E.parse_

        def wrap(E, st, i, a, n=n):
            f = F[n]
            r = mdl(E, st, i, a)
            if f['args'] and f['args'][0][1] == 'sret':
                for o in r:
                    for k, v in enumerate(o[1][1]):
                        E.store(o[2], a[0][1], a[0][2] + 4 * k, 4, v)
                return [('ret', ('u', 0), o[2]) for o in r]
            if f['ret'] == 's':
                return [('ret', ('agg', [('cat', o[1][1][0], o[1][1][1]), o[1][1][2]]), o[2]) for o in r]
            if f['ret'].startswith('i'):
                return [('ret', o[1][1][0], o[2]) for o in r]
            return r
        E.models[n] = wrap
    def held(st):
        r = ('ext', 'root')
        st.reg[r] = dict(size=None, default='sym', alive=True, pin=True)
        st.mem[r] = {}
        E.put(st, r, L(0), 8, ('p', ('ext', 'vtable'), L(0)))
        st.reg[('ext', 'vtable')] = dict(size=None, default='sym', alive=True, pin=True, load=lambda E, st, r, off, size, ty, i: ('p', ('ext', 'slot'), off))
        st.reg[('ext', 'slot')] = dict(size=None, default='sym', alive=True, pin=True)
        return ('p', r, L(0))

    def virtual(E, st, i, args, v):
        if not (v[0] == 'p' and v[1] == ('ext', 'slot')):
            return E.external('virtual call', st, i, args)
        st = st.copy()
        st.g['rootused'] = True
        return [('ret', ('u', 0), st)]
    E.virtual = virtual
    st, args = entry(E, 'files_parse', held, lambda st: [])
    S = E.fresh(st, 'filesize', 0, 1 << 50)
    st.g['S'] = S
    st.g['pos'] = L(0)
    try:
        outs = E.call('files_parse', args, st)
    except Budget as e:
        E.undec.append('parse run not finished: %s' % e)
        outs = []
    for kind, v, st in outs:
        E.obl += 3
        if kind != 'ret':
            continue
        x = E.num(st, v)
        if x is None:
            continue
        if not st.g.get('parsed') and not st.g.get('handed'):
            E.obl += 1
            c = E.cells(st, ('ext', 'document')).get(L(0))
            if st.g.get('rootused') or c and c[1][0] == 'p' and c[1][1] != ('ext', 'root'):
                E.fail(st, 'P07:file', 'a file whose text cannot be obtained costs the earlier document')
        if st.g.get('parsed'):
            E.need_eq(st, x - st.g['result'], 'P12:result', 'the status of parsing the text of the file is not the status returned')
        else:
            if st.P.sat_with_ge(-x) and st.P.entails_ge(x):
                E.fail(st, 'P12:ok', 'Ok is returned although the file was not parsed')
            if st.g.get('lastopen') == 'ok' and st.g.get('sized') == 'ok' and not any(st.g.get(k) for k in ('rfail', 'eof', 'oom')):
                q = st.copy()
                q.P.add_ge(S + -2)
                q.P.add_ge(L(MUST) - S)
                if not q.P.is_empty():
                    E.fail(q, 'P12:refused', 'a readable file is not parsed although nothing failed (a short read is not continued?)')
    return E, outs, hit


def run_parse(m, chk):
    E, outs, hit = check_parse(m, chk, None)
    atend(E, outs, 'Parse(file)')
    return E, outs



WR = 'C4::Json::%s::Write('


def method(m, cls, sig):
    c = [n for n, f in m['functions'].items() if f['dem'].startswith('C4::Json::%s::%s(' % (cls, sig)) and not f['decl']]
    return c[0] if len(c) == 1 else None


def write_run(m, expected=None, root='null', times=1, block=None, unroll=4):
    """StructuredData::Write with a root that writes a known text -> (E, outs)"""
    E = base(m)
    E.unroll = unroll
    E.mergelimit = 400 if unroll < 5 else 4000
    E.sum = dict(writes=0)
    F = m['functions']

    def flags(st, i, fl, a):
        E.obl += 1
        if fl & O_ACC == 0:
            E.fail(st, 'P13:flags:%s' % E.where(i), 'a file to be written is opened read-only (flags %#o)' % fl, i)
        if fl & (O_CREAT | O_TRUNC) != O_CREAT | O_TRUNC or fl & O_APPEND:
            E.fail(st, 'P13:flags:%s' % E.where(i), 'a file to be written is not created or emptied when it is opened (flags %#o)' % fl, i)
        if fl & O_EXCL:
            E.fail(st, 'P13:flags:%s' % E.where(i), 'an existing file is not replaced (flags %#o)' % fl, i)
    E.flags = flags
    total = len(expected) if expected else None

    def write_(E, st, i, a):
        E.sum['writes'] += 1
        E.which(E, st, a[0], i, 'write')
        p, n = a[1], E.num(st, a[2])
        if p[0] != 'p' or p[1] is None or n is None:
            st.exact = False
            return [('ret', N(E.fresh(st, 'wrote', -1, None, True)), st)]
        w = st.g['W']
        starts = [st]

        def bad(t, key, text):
            """remember what goes wrong here: it matters if the call reports success in the end"""
            E.obl += 1
            t = t.copy()
            if t.P.is_empty() or 'bad' in t.g:
                return
            t.g['bad'] = ('P11:%s:%s' % (key, E.where(i)), text + ' (write at %s)' % E.where(i))
            starts.append(t)
        if expected:
            t = st.copy()
            t.P.add_ge(w + n - L(total + 1))
            bad(t, 'more', 'more bytes are written than the text has')
            d = st.P.red(p[2] - w).const()
            for j in range(total):
                t = st.copy()
                t.P.add_ge(L(j) - w)
                t.P.add_ge(w + n - L(j + 1))
                if t.P.is_empty():
                    continue
                if d is None:
                    # the distance between buffer and text position varies: find a distance that is wrong
                    for k in range(-total, total + 1):
                        u = t.copy()
                        u.P.add_eq(p[2] - w - L(k))
                        if u.P.is_empty():
                            continue
                        x = E.num(u, E.load(u, p[1], L(k + j), 1, 'i8', i))
                        x = x.const() if x is not None else None
                        if x is not None and x != expected[j]:
                            bad(u, 'bytes', 'byte %d of the text is not the byte written at its place' % j)
                            break
                    continue
                x = E.num(t, E.load(t, p[1], L(d + j), 1, 'i8', i))
                x = x.const() if x is not None else None
                if x is not None and x != expected[j]:
                    bad(t, 'bytes', 'byte %d of the text is not the byte written at its place' % j)
        elif st.g.get('pend') is not None:
            q = st.g['pend']
            t = st.copy()
            t.P.add_ge(st.g['left'] + -1)
            if not t.P.is_empty():
                if q[1] != p[1]:
                    bad(t, 'lost', 'other bytes are written although a write before this one was incomplete')
                else:
                    for sgn in (1, -1):
                        u = t.copy()
                        u.P.add_ge((q[2] - p[2]) * sgn + -1)
                        bad(u, 'cont', 'an incomplete write is not continued at the first byte not yet written')
        outs = []
        for kind, st in [(k, s) for s in starts for k in ('fails', 'none', 'some')]:
            t = st.copy()
            t.trace += ('write %s' % {'fails': 'fails', 'none': 'writes nothing', 'some': 'writes some bytes'}[kind],)
            if kind == 'some':
                r = E.fresh(t, 'w', 1, n)
                t.P.add_ge(L(0x7ffff000) - r)
            else:
                r = L(-1 if kind == 'fails' else 0)
            if kind == 'none':
                pass
            k = r if kind == 'some' else L(0)
            t.g['W'] = w + k
            t.g['left'] = n - k
            t.g['pend'] = ('p', p[1], p[2] + k)
            if not t.P.is_empty():
                outs.append(('ret', N(r), t))
        return outs
    E.models['write'] = write_
    E.models['read'] = lambda E, st, i, a: (E.fail(st, 'P13:read:' + E.where(i), 'writing a document reads from a descriptor', i), [('ret', N(E.fresh(st, 'r', -1, None)), st)])[1]

    def mkroot(st):
        if root is None:
            return ('p', None, L(0))
        r = ('ext', 'root')
        st.reg[r] = dict(size=None, default='sym', alive=True, pin=True)
        st.mem[r] = {}
        E.put(st, r, L(0), 8, ('p', ('ext', 'vtable'), L(0)))
        st.reg[('ext', 'vtable')] = dict(size=None, default='sym', alive=True, pin=True, load=lambda E, st, r, off, size, ty, i: ('p', ('ext', 'slot'), off))
        st.reg[('ext', 'slot')] = dict(size=None, default='sym', alive=True, pin=True)
        return ('p', r, L(0))

    wf = method(m, 'NullValue', 'Write')

    def virtual(E, st, i, args, v):
        if not (v[0] == 'p' and v[1] == ('ext', 'slot')) or wf is None:
            return E.external('virtual call', st, i, args)
        E.slot = v[2].const()
        if block:
            return [(k, N(0) if k == 'ret' else x, s) for k, x, s in block(E, st, args, i)]
        cur = [('ret', N(0), st)]
        for k in range(times):
            nx = []
            for kind, x, s in cur:
                if kind != 'ret':
                    nx.append((kind, x, s))
                    continue
                for b, s2 in E.truth(s, ('c', 'eq', E.num(s, x))):
                    if not b:
                        nx.append(('done', x, s2))
                    else:
                        nx += E.call(wf, args, s2, i)
            cur = nx
        return [('ret' if k == 'done' else k, x, s) for k, x, s in cur]
    E.virtual = virtual
    st, args = entry(E, 'files_write', mkroot, lambda st: [N(E.fresh(st, 'indent', 0, 100)), N(E.fresh(st, 'char', 0, 127))])
    st.g['W'] = L(0)
    st.g['left'] = L(0)
    try:
        outs = E.call('files_write', args, st)
    except Budget as e:
        E.undec.append('write run not finished: %s' % e)
        outs = []
    for kind, v, st in outs:
        if kind != 'ret':
            continue
        x = E.num(st, v)
        if x is None:
            continue
        for b, t in E.truth(st, ('c', 'eq', x)):
            E.obl += 1
            if b and root is None:
                E.fail(t, 'P07:write', 'writing without a document returns Ok')
            if root is None and t.g.get('nopen', 0) + ('lastopen' in t.g):
                E.fail(t, 'P07:touch', 'writing without a document opens the file')
            if b and t.g.get('lastopen') != 'ok' and root:
                E.fail(t, 'P11:unopened', 'Ok is returned although the file could not be opened')
            elif b and 'bad' in t.g:
                E.fail(t, *t.g['bad'])
            elif b and expected:
                E.need_eq(t, t.g['W'] - L(total), 'P11:all', 'Ok is returned although not all bytes of the text were written')
            elif b and 'N' in t.g:
                E.need_eq(t, t.g['W'] - t.g['N'], 'P11:all', 'Ok is returned although not all bytes of the block were written')
            elif b:
                E.need_eq(t, t.g['left'], 'P11:all', 'Ok is returned although the last write was incomplete')
            if not b and root and expected and t.g.get('lastopen') == 'ok' and not t.g.get('oom') and not any('write fails' in z or 'writes nothing' in z for z in t.trace):
                if t.P.entails_eq(t.g['W'] - L(total)):
                    E.sum['spurious'] = E.sum.get('spurious', 0) + 1
    return E, outs, wf



TOUCH = {'unlink', 'remove', 'rename', 'renameat', 'unlinkat', 'truncate', 'ftruncate', 'chmod', 'fchmod', 'chown', 'mkdir', 'rmdir', 'link', 'symlink', 'mkstemp', 'tmpfile', 'creat', 'system', 'popen', 'execve', 'dup', 'dup2', 'fork', 'mkfifo', 'utime', 'utimes'}


def buffer_run(m):
    """the routine that writes one block, with a block of any size"""
    c = [n for n, f in m['functions'].items() if f['dem'].startswith('C4::File::WriteFile(') and not f['decl']]
    if len(c) != 1:
        return None

    def block(E, st, args, i):
        t = ('ext', 'block')
        st = st.copy()
        st.reg[t] = dict(size=None, default='sym', alive=True, pin=True)
        st.mem[t] = {}
        n = E.fresh(st, 'N', 1, (1 << 31) - 2)
        st.g['N'] = n
        return E.call(c[0], [args[1], ('p', t, L(0)), N(n)], st, i)
    E, outs, wf = write_run(m, None, 'null', 1, block, 7)
    return E, outs, wf


def touching(m):
    import callgraph, p19
    g = callgraph.Graph(m)
    pred = g.reach([r for r in ('files_parse', 'files_write')])
    out = []
    for n in pred:
        for i, cs in g.calls.get(n, ()):
            for c in cs:
                if c in TOUCH:
                    out.append((c, m['functions'][n]['dem'], i))
    return out, len(pred)


def describe(rs):
    return dict(interpreted_steps=sum(E.steps for E, o in rs), calls_followed=sum(E.calls for E, o in rs), loops_joined=sum(E.loops for E, o in rs), loops_accelerated=sum(E.accels for E, o in rs),
                obligations=sum(E.obl for E, o in rs), call_outcomes=sum(len(o) for E, o in rs), exact_outcomes=sum(1 for E, o in rs for k, v, s in o if s.exact),
                size_limit=[E.sum['limit'] for E, o in rs if 'limit' in E.sum], functions=sorted({E.F[n]['dem'][:90] for E, o in rs for n in E.visited if 'Code/' in (E.F[n].get('file') or '')})[:80],
                system_calls={k: sorted({w for E, o in rs for w in E.sys.get(k, ())}) for k in sorted({k for E, o in rs for k in E.sys})},
                not_modelled=sorted({u for E, o in rs for u in E.unknown}))


def harness(which):
    m = module(probes=['files.cpp'], passes=PASSES)
    rs = []
    if 'r' in which:
        rs.append(run_parse(m, None))
    if 'w' in which:
        for e, t in ((b'null', 1), (b'nullnull', 2), (None, 2)):
            E, outs, wf = write_run(m, e, 'null', t)
            atend(E, outs, 'Write')
            rs.append((E, outs))
        b = buffer_run(m)
        if b:
            atend(b[0], b[1], 'Write')
            rs.append(b[:2])
        E, outs, wf = write_run(m, None, None, 1)
        atend(E, outs, 'Write')
        rs.append((E, outs))
    return m, rs


def finish(pid, which, rule, expl, assume):
    c = Check(pid)
    m, rs = harness(which)
    for E, o in rs:
        for k, t in E.viol:
            if k.startswith(pid):
                c.violation(k, t)
        c.undecided += [u for u in E.undec if u not in c.undecided]
    if pid == 'P13':
        t, n = touching(m)
        for name, fn, i in t:
            c.violation('touch:%s:%s' % (name, fn[:60]), '%s calls %s (%s:%s): a file other than the one named is touched, or it is not touched as intended' % (fn, name, rel_(i.get('f')), i.get('l')))
        c.coverage['functions_searched_for_other_file_operations'] = n
    if pid in ('P11', 'P12'):
        # a loop that goes round without progress neither completes nor reports
        import own
        op = own.FILE if pid == 'P12' else own.WRITE
        ls = own.gather(False, lambda _: [j for j in own.endings(False) if len(j) > 5 and j[3][-1] == op and j[0] in ('life_string', 'life_number', 'life_leaf')])
        for r in ls:
            for v in r['viol']:
                if v[0] == 'loop':
                    c.violation('%s:end:%s' % (pid, r['name']), v[-1])
        c.coverage['lives_with_short_transfers'] = len(ls)
    c.coverage.update(describe(rs))
    c.coverage['rule'] = rule
    c.assumptions += assume
    if not any(E.obl for E, o in rs):
        raise AnalysisBroken('no obligations')
    c.finish(expl)


SYS = ['open, read, write, close, fstat, lseek and operator new behave as POSIX and C++ say: read and write transfer any number of bytes up to the count (at most 0x7ffff000), or fail; every one of them may fail at any call.',
       'Counters of 32 bits or more do not overflow on files below the size limit; conversions to narrower types are followed exactly.',
       'What is not entailed is reported as a violation only in states free of joins and of unmodelled calls, otherwise as undecided.']


def check11():
    finish('P11', 'w', 'StructuredData::Write with a document whose root writes a known text ("null" once, twice, three times, and one block of any size below 2^31): on every path that returns Ok, byte k written is byte k of the text and their number is the length of the text, for every way write() can fall short or fail',
           'Abstract interpretation of StructuredData::Write and everything it calls in the domain of linear inequalities over register, memory and counter values, with write() modelled as transferring any part of its block.', SYS)


def check12():
    finish('P12', 'r', 'StructuredData::Parse(file): whenever the text is handed to the text parser, the bytes read equal the size of the file, they were put one behind the other from the start of the buffer, the buffer has one byte more and ends in NUL; Ok is returned only after that; with every call succeeding a file of any size between 2 and 32768 bytes is parsed',
           'Abstract interpretation of StructuredData::Parse(file) and everything it calls in the domain of linear inequalities, with read() modelled as delivering any part of what was asked for.', SYS)


def check13():
    finish('P13', 'rw', 'typestate of every descriptor along every path (including every failing call and every failing allocation): opened with the flags the operation needs, used only while open, closed exactly once before the call ends',
           'Abstract interpretation of the file operations with a typestate per descriptor, and a call-graph search for other file operations.', SYS)


if __name__ == '__main__':
    import sys
    sys.setrecursionlimit(20000)
    m = module(probes=['files.cpp'], passes=PASSES)
    rs = [run_parse(m, None)]
    for e, t in ((b'null', 1), (b'nullnull', 2), (None, 2)):
        E, outs, wf = write_run(m, e, 'null', t)
        atend(E, outs, 'Write')
        rs.append((E, outs))
    rs.append(write_run(m, None, None, 1)[:2])
    for E, outs in rs:
        print(len(outs), E.steps, E.calls, E.loops, E.accels, E.sum, E.sys, 'obl', E.obl)
        for k, t in E.viol:
            print('V', k, t)
        print('U', E.undec, sorted(E.unknown))
        for kind, v, st in outs[:8]:
            print('   ', kind, v, st.exact, st.trace[-3:])
