"""P14 to P17: typed access, deserializing, validating and serializing, by abstract interpretation (rel.py) over abstract documents.

A document value is a region whose class is decided only when a virtual function is called on it (a set of classes narrows with
every call); lookups by name and iteration over members decide lazily whether a member is there. What a call did is compared with a
reference computed from exactly these decisions. Strings are opaque tokens, maps are lists of the elements inserted into them.
"""
import itertools
import re
from common import *
rel_ = rel
from rel import *

KINDS = {'string': 'StringValue', 'number': 'NumberValue', 'bool': 'BoolValue', 'null': 'NullValue', 'array': 'ArrayValue', 'object': 'ObjectValue'}
ALL = frozenset(KINDS)
IN = [('x', 'number', False, 'lay_In_x'), ('s', 'string', True, 'lay_In_s'), ('v', ('array', 'number'), False, 'lay_In_v')]
USER = {
    'In': IN,
    'Mem': [('a', 'number', False, 'lay_Mem_a'), ('b', 'bool', False, 'lay_Mem_b'), ('s', 'string', True, 'lay_Mem_s'), ('in', 'In', False, 'lay_Mem_in')],
    'Few': [('x', 'number', True, 'lay_Few_x'), ('s', 'string', True, 'lay_Few_s')],
    'Opt': [('in', 'In', True, 'lay_Opt_in'), ('m', 'Mem', True, 'lay_Opt_m'), ('b', 'bool', True, 'lay_Opt_b')],
}
LEAF = ('string', 'number', 'bool', 'null')
TYPES = {t: t for t in LEAF + ('In', 'Mem', 'Opt', 'Few')}
for t in LEAF + ('In', 'Mem', 'Few'):
    TYPES['array_' + t] = ('array', t)
    TYPES['map_' + t] = ('map', t)
TYPES['array_array_number'] = ('array', ('array', 'number'))
TYPES['map_array_number'] = ('map', ('array', 'number'))
TYPES['stdstring'] = 'stdstring'
for t in ('string', 'number', 'null', 'In', 'Mem', 'Few', 'stdstring'):
    TYPES['vector_' + t] = ('vector', t)
TYPES['vector_bool'] = ('bitvector', 'bool')
for t in LEAF + ('In', 'Mem', 'Few'):
    TYPES['stdmap_' + t] = ('stdmap', 'stdstring' if t == 'string' else t)


def tid(t):
    if isinstance(t, str):
        return t
    return {'bitvector': 'vector'}.get(t[0], t[0]) + '_' + tid(t[1])


PAIR = 32     # where the second part of a std::pair<const std::string, T> lies (asked below)


class Docs:
    """harness around one Rel"""

    def __init__(self, m, throws=False, budget=400000, unroll=4):
        self.m = m
        E = self.E = Rel(m, unroll=unroll, budget=budget)
        E.throws = throws
        E.mergelimit = 100000
        E.maxdepth = 80
        E.virtual = self.virtual
        self.F, self.G = m['functions'], m['globals']
        self.vt = {}
        for k, c in KINDS.items():
            n = '_ZTVN2C44Json%d%sE' % (len(c), c)
            if n in self.G:
                self.vt[k] = {o: v for o, s, v in self.G[n]['init']}
        if len(self.vt) < 2:
            raise AnalysisBroken('the classes of document values were not found')
        self.ntok = 0
        self.keyfn = {}
        self.install()
        plain = E.external

        def external(name, st, i, args):
            # what a call that is not modelled did to the objects followed here is not known
            st = st.copy()
            st.exact = False
            return plain(name, st, i, args)
        E.external = external

    # ---- strings as tokens
    def token(self, st, r, off):
        off = st.P.red(off)
        c = self.E.cells(st, r).get(off)
        if c and c[0] == 1 and c[1][0] == 'tok':
            return c[1][1]
        if r[0] in ('doc', 'src', 'lazy', 'ext', 'member', 'elems'):
            t = 'initial:%s+%s' % (r, off)
            self.E.put(st, r, off, 1, ('tok', t))
            return t
        self.ntok += 1
        return '~unknown%d' % self.ntok

    def settoken(self, st, p, t):
        if p[0] == 'p' and p[1]:
            off = st.P.red(p[2])
            self.E.kill(st, p[1], off, L(1), True)
            self.E.put(st, p[1], off, 1, ('tok', t))
            if isinstance(t, str) and t[:1] == '~':
                st.exact = False
        else:
            st.exact = False

    def text(self, st, p):
        """token of the text a char pointer points to"""
        if p[0] == 'p' and p[1]:
            r, c = p[1], p[2].const()
            if r[0] == 'txt' and c == 0:
                return r[1]
            if r[0] == 'glob' and c is not None:
                s = self.literal(r[1], c)
                if s is not None:
                    return 'text:' + s
            if r[0] in ('ext', 'name') and c == 0:
                return 'of:%s' % (r,)
        self.ntok += 1
        st.exact = False
        return '~unknown%d' % self.ntok

    def literal(self, g, off):
        g = self.G.get(g)
        if not g or not g['const']:
            return None
        b = {}
        for o, s, v in g['init']:
            if s == 1 and v[0] == 'c':
                b[o] = int(v[2]) & 255
        out = ''
        k = off
        while k < g['size']:
            c = b.get(k, 0)
            if c == 0:
                return out
            out += chr(c)
            k += 1
        return None

    def fork_oom(self, st, outs):
        if self.E.throws:
            e = st.copy()
            e.g['oom'] = True
            e.trace += ('an allocation fails',)
            outs.append(('exc', ('u', 0), e))

    def install(self):
        E = self.E
        X = E.models
        ok = lambda st, v=('u', 0): [('ret', v, st)]

        def s_empty(E, st, i, a):
            st = st.copy()
            self.settoken(st, a[0], '')
            return ok(st, a[0])

        def s_fromtext(E, st, i, a):
            st = st.copy()
            o = []
            self.fork_oom(st, o)
            self.settoken(st, a[0], self.text(st, a[1]))
            return o + ok(st, a[0])

        def s_copy(E, st, i, a):
            st = st.copy()
            o = []
            if a[1][0] == 'p' and a[1][1]:
                self.fork_oom(st, o)
                self.settoken(st, a[0], self.token(st, a[1][1], a[1][2]))
            else:
                st.exact = False
            return o + ok(st, a[0])

        def s_move(E, st, i, a):
            st = st.copy()
            if a[1][0] == 'p' and a[1][1]:
                t = self.token(st, a[1][1], a[1][2])
                if not (a[0][1] == a[1][1] and st.P.entails_eq(a[0][2] - a[1][2])):
                    self.settoken(st, a[1], 'moved')
                self.settoken(st, a[0], t)
            else:
                st.exact = False
            return ok(st, a[0])

        def cut(st, t, n, std):
            """[(token of the first n bytes of t, state)]"""
            if t[:1] == '~' or n is None:
                st.exact = False
                self.ntok += 1
                return [('~unknown%d' % self.ntok, st)]
            m = L(len(t) - 5) if t[:5] == 'text:' else L(0) if t == '' else st.g.get(('len', t))
            if m is None:
                m = st.g[('len', t)] = E.fresh(st, 'length', 0, 1 << 30)
            o = []
            for c, v in ((n - m, t), (m - n - 1, 'part:%s:%s' % (st.P.red(n), t))):
                u = st.copy()
                u.P.add_ge(c)
                if u.P.is_empty():
                    continue
                u.trace += ('%s bytes of a text' % ('all' if v == t else 'not all'),)
                if v == t and std and not u.P.entails_eq(n - m):
                    u.exact = False
                o.append((v, u))
            return o

        def s_range(std):
            def f(E, st, i, a):
                st = st.copy()
                o = []
                self.fork_oom(st, o)
                for t, u in cut(st, self.text(st, a[1]), E.num(st, a[2]), std):
                    self.settoken(u, a[0], t)
                    o += ok(u, a[0])
                return o
            return f

        def s_substr(E, st, i, a):
            st = st.copy()
            o = []
            self.fork_oom(st, o)
            p = E.num(st, a[2])
            t = self.token(st, a[1][1], a[1][2]) if a[1][0] == 'p' and a[1][1] else '~'
            if p is None or not st.P.entails_eq(p):
                t = '~'
            for t, u in cut(st, t, E.num(st, a[3]), False):
                self.settoken(u, a[0], t)
                o += ok(u)
            return o

        def s_dtor(E, st, i, a):
            return ok(st)

        def s_text(E, st, i, a):
            st = st.copy()
            if not (a[0][0] == 'p' and a[0][1]):
                st.exact = False
                return ok(st, ('u', 0))
            t = self.token(st, a[0][1], a[0][2])
            r = ('txt', t)
            st.reg.setdefault(r, dict(size=None, default='u', alive=True))
            return ok(st, ('p', r, L(0)))

        def s_length(E, st, i, a):
            st = st.copy()
            if a[0][0] == 'p' and a[0][1]:
                t = self.token(st, a[0][1], a[0][2])
                k = ('len', t)
                if k not in st.g:
                    st.g[k] = E.fresh(st, 'length', 0, 1 << 30)
                return ok(st, N(st.g[k]))
            return ok(st, N(E.fresh(st, 'length', 0, 1 << 30, True)))

        def s_equal(neg, lit):
            def f(E, st, i, a):
                st = st.copy()
                x = self.token(st, a[0][1], a[0][2]) if a[0][0] == 'p' and a[0][1] else '~'
                y = (self.text(st, a[1]) if lit else self.token(st, a[1][1], a[1][2])) if a[1][0] == 'p' and a[1][1] else '~'
                d = self.same(st, x, y)
                return [('ret', N(int(b != neg)), t) for b, t in d]
            return f

        S = 'Terathon::String<0>::'
        table = {
            S + 'String()': s_empty, S + 'String(char const*)': s_fromtext, S + 'String(Terathon::String<0> const&)': s_copy, S + 'String(Terathon::String<0>&&)': s_move, S + '~String()': s_dtor,
            S + 'operator=(Terathon::String<0>&&)': s_move, S + 'operator=(Terathon::String<0> const&)': s_copy, S + 'operator=(char const*)': s_fromtext, S + 'PurgeString()': s_empty,
            S + 'operator char const*() const': s_text, S + 'operator char*()': s_text, S + 'GetStringLength() const': s_length, S + 'begin() const': s_text,
            S + 'operator==(Terathon::String<0> const&) const': s_equal(False, False), S + 'operator!=(Terathon::String<0> const&) const': s_equal(True, False),
            S + 'operator==(char const*) const': s_equal(False, True), S + 'operator!=(char const*) const': s_equal(True, True),
        }
        B = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::'
        BS = B[:-2]
        table.update({
            B + 'basic_string()': s_empty, B + '~basic_string()': s_dtor, B + 'basic_string(%s const&)' % BS: s_copy, B + 'basic_string(%s&&)' % BS: s_move,
            B + 'basic_string<std::allocator<char>>(char const*, std::allocator<char> const&)': s_fromtext, B + 'operator=(char const*)': s_fromtext, B + 'operator=(%s&&)' % BS: s_move, B + 'operator=(%s const&)' % BS: s_copy,
            B + 'c_str() const': s_text, B + 'data() const': s_text, B + 'length() const': s_length, B + 'size() const': s_length, B + 'assign(char const*)': s_fromtext, B + 'clear()': s_empty,
            B + 'assign(%s const&)' % BS: s_copy, 'std::allocator<char>::allocator()': s_dtor, 'std::allocator<char>::~allocator()': s_dtor,
            'std::__new_allocator<char>::~__new_allocator()': s_dtor, 'std::__new_allocator<char>::__new_allocator()': s_dtor,
        })
        for n, f in self.F.items():
            d = re.sub(r'\[abi:\w+\]', '', f['dem'])
            if d in table:
                X[n] = table[d]
            elif d == B + 'assign(char const*, unsigned long)' or d.startswith(B + 'basic_string(char const*, unsigned long'):
                X[n] = s_range(True)
            elif d in (S + 'String(char const*, int)', S + 'Set(char const*, int)'):
                X[n] = s_range(False)
            elif d == B + 'substr(unsigned long, unsigned long) const':
                X[n] = s_substr
            elif d.startswith((S, B)):
                X[n] = self.m_unknown
            elif re.match(r'Terathon::Map<.*>::FindMapElement\(Terathon::String<0> const&\) const$', d):
                X[n] = self.m_find(d)
            elif re.match(r'Terathon::Map<.*>::FindMapElement\(', d):
                X[n] = self.m_unknown
            elif re.match(r'Terathon::Map<.*>::InsertMapElement\(', d):
                X[n] = self.m_insert(d)
            elif re.match(r'Terathon::Map<.*>::(InsertReplaceMapElement|RemoveMapElement)\(', d):
                X[n] = self.m_unknown
            elif d == 'Terathon::MapBase::GetFirstMapElement() const':
                X[n] = self.m_first
            elif d == 'Terathon::MapElementBase::GetNextMapElement() const':
                X[n] = self.m_next
            elif d in ('Terathon::MapBase::PurgeMap()', 'Terathon::MapBase::RemoveAllMapElements()'):
                X[n] = self.m_purge
            elif d in ('Terathon::MapBase::~MapBase()', 'Terathon::MapElementBase::~MapElementBase()'):
                X[n] = s_dtor
            elif re.match(r'std::map<.*>::operator\[\]\(', d) and not f['decl']:
                X[n] = self.m_stdindex
            elif re.match(r'std::map<.*>::~map\(\)$', d):
                X[n] = s_dtor
            elif d.startswith('std::vector<bool, std::allocator<bool>>::') and not f['decl']:
                n2 = d[len('std::vector<bool, std::allocator<bool>>::'):]
                X[n] = self.m_bits(n2) if n2 in ('size() const', 'empty() const', 'clear()', 'reserve(unsigned long)', 'push_back(bool)', 'capacity() const') else self.m_bitsother
            elif re.match(r'std::map<.*>::c?begin\(\)( const)?$', d) and f['ret'] == 'p':
                X[n] = self.m_stdbegin
            elif re.match(r'std::map<.*>::c?end\(\)( const)?$', d) and f['ret'] == 'p':
                X[n] = self.m_stdend
            elif re.match(r'std::_Rb_tree_increment\(', d):
                X[n] = self.m_stdnext
            elif re.match(r'std::_Rb_tree_node<.*>::_M_valptr\(\)( const)?$', d):
                X[n] = lambda E, st, i, a: ok(st.copy(), a[0])
            if re.search(r'(::GetKey\(\) const)$', d):
                self.keyfn[d[:-len('::GetKey() const')]] = n

    # ---- keys
    def same(self, st, x, y):
        if x == y and x[:1] != '~':
            return [(True, st)]
        if x[:1] == '~' or y[:1] == '~' or 'part:' in (x[:5], y[:5]):
            st.exact = False
        elif x.startswith('text:') and y.startswith('text:') or x.startswith('key:') and y.startswith('key:') or {x, y} & {''} and (x + y).startswith('text:'):
            # literals, and the distinct keys of one map
            return [(False, st)]
        k = ('same',) + tuple(sorted((x, y)))
        if k in st.g:
            return [(st.g[k], st)]
        out = []
        for b in (True, False):
            t = st.copy()
            t.g[k] = b
            out.append((b, t))
        return out

    def mapinfo(self, st, r, off):
        k = ('map', r, st.P.red(off))
        v = st.g.get(k)
        if v is None:
            v = (((), frozenset(), r[0] not in ('doc', 'src')),)
            st.g[k] = v
        return k, v[0]

    def keyof(self, st, cls, p):
        n = self.keyfn.get(cls)
        if not n:
            return '~nokey'
        o = [x for x in self.E.call(n, [p], st) if x[0] == 'ret']
        if len(o) != 1 or o[0][1][0] != 'p' or not o[0][1][1]:
            return '~nokey'
        return self.token(st, o[0][1][1], o[0][1][2])

    def setkey(self, st, cls, p, t):
        n = self.keyfn.get(cls)
        o = [x for x in self.E.call(n, [p], st) if x[0] == 'ret'] if n else []
        if len(o) == 1 and o[0][1][0] == 'p' and o[0][1][1]:
            self.settoken(st, o[0][1], t)
        else:
            st.exact = False

    def newmember(self, st, k, key):
        """a member of the document or of the source object that has not been looked at before"""
        ms, ab, comp = st.g[k][0]
        src = k[1][0] == 'src'
        r = ('src' if src else 'doc', '%s/%s' % (k[1][1], key))
        if not src:
            self.docvalue(st, r)
        else:
            st.reg[r] = dict(size=None, default='sym', alive=True, pin=True, load=self.srcload)
            st.mem[r] = {}
        std = src and self.srcstd
        st.g[k] = ((ms + ((key, r, PAIR if std else 0),), ab, comp),)
        st.g[('in', r)] = ((k, len(ms)),)
        if std:
            self.settoken(st, ('p', r, L(0)), key)
        else:
            self.setkey(st, self.srccls if src else 'C4::Json::Value', ('p', r, L(0)), key)
        return r

    def m_unknown(self, E, st, i, a):
        st.exact = False
        return None

    # ---- std::vector<bool> that is filled: the list of its elements
    def m_bits(self, name):
        def f(E, st, i, a):
            if not (a[0][0] == 'p' and a[0][1]):
                return None
            r = a[0][1]
            if r[0] == 'src':
                return None
            st = st.copy()
            k = ('bits', r, st.P.red(a[0][2]))
            v = st.g.get(k, ((),))[0]
            if name == 'size() const':
                return [('ret', N(len(v)), st)]
            if name == 'empty() const':
                return [('ret', N(int(not v)), st)]
            if name == 'clear()':
                st.g[k] = ((),)
                return [('ret', ('u', 0), st)]
            if name == 'capacity() const':
                c = st.g.get(('bitcap',) + k[1:], (L(len(v)),))[0]
                return [('ret', N(c), st)]
            o = []
            self.fork_oom(st, o)
            if name == 'reserve(unsigned long)':
                x = E.num(st, a[1])
                if x is None:
                    st.exact = False
                else:
                    st.g[('bitcap',) + k[1:]] = (x,)
            if name == 'push_back(bool)':
                x = E.num(st, a[1])
                if x is None:
                    st.exact = False
                st.g[k] = (v + (x,),)
            return o + [('ret', ('u', 0), st)]
        return f

    def m_bitsother(self, E, st, i, a):
        if not (a and any(x[0] == 'p' and x[1] and x[1][0] == 'src' for x in a)):
            st.exact = False
        return None

    def m_find(self, d):
        cls = d[len('Terathon::Map<'):d.index('>::FindMapElement(')]

        def f(E, st, i, a):
            if not (a[0][0] == 'p' and a[0][1] and a[1][0] == 'p' and a[1][1]):
                st = st.copy()
                st.exact = False
                return [('ret', E.freshty(st, 'p', 'found', True), st)]
            st = st.copy()
            key = self.token(st, a[1][1], a[1][2])
            k, info = self.mapinfo(st, a[0][1], a[0][2])
            self.E.obl += 1
            out = []
            todo = [st]
            for key2, r, o in info[0]:
                nx = []
                for t in todo:
                    for b, u in self.same(t, key, key2):
                        if b:
                            out.append(('ret', ('p', r, L(o)), u))
                        else:
                            nx.append(u)
                todo = nx
            for t in todo:
                if info[2] or key in info[1]:
                    out.append(('ret', ('p', None, L(0)), t))
                    continue
                u = t.copy()
                ms, ab, comp = u.g[k][0]
                u.g[k] = ((ms, ab | {key}, comp),)
                u.trace += ('name %s absent' % key,)
                out.append(('ret', ('p', None, L(0)), u))
                u = t.copy()
                u.trace += ('name %s present' % key,)
                r = self.newmember(u, k, key)
                out.append(('ret', ('p', r, L(0)), u))
            return out
        return f

    def m_insert(self, d):
        cls = d[len('Terathon::Map<'):d.index('>::InsertMapElement(')]

        def f(E, st, i, a):
            st = st.copy()
            if not (a[0][0] == 'p' and a[0][1] and a[1][0] == 'p' and a[1][1]):
                st.exact = False
                return [('ret', N(E.fresh(st, 'inserted', 0, 1, True)), st)]
            key = self.keyof(st, cls, a[1])
            k, info = self.mapinfo(st, a[0][1], a[0][2])
            if not info[2]:
                st.exact = False
            out = []
            todo = [st]
            for key2, r, o in info[0]:
                nx = []
                for t in todo:
                    for b, u in self.same(t, key, key2):
                        if b:
                            u.g['dropped'] = u.g.get('dropped', 0) + 1
                            out.append(('ret', N(0), u))
                        else:
                            nx.append(u)
                todo = nx
            for t in todo:
                t = t.copy()
                ms, ab, comp = t.g[k][0]
                t.g[k] = ((ms + ((key, a[1][1], a[1][2].const() or 0),), ab, comp),)
                if a[1][1] in t.reg:
                    t.reg[a[1][1]] = dict(t.reg[a[1][1]], pin=True)
                out.append(('ret', N(1), t))
            return out
        return f

    def m_first(self, E, st, i, a):
        if not (a[0][0] == 'p' and a[0][1]):
            return None
        st = st.copy()
        k, info = self.mapinfo(st, a[0][1], a[0][2])
        return self.at(st, k, 0)

    def m_next(self, E, st, i, a):
        if not (a[0][0] == 'p' and a[0][1]):
            return None
        st = st.copy()
        w = st.g.get(('in', a[0][1]))
        if w is None:
            st.exact = False
            return [('ret', E.freshty(st, 'p', 'next', True), st)]
        k, n = w[0]
        return self.at(st, k, n + 1)

    def at(self, st, k, n):
        ms, ab, comp = st.g[k][0]
        if n < len(ms):
            return [('ret', ('p', ms[n][1], L(ms[n][2])), st)]
        out = []
        u = st.copy()
        u.g[k] = ((ms, ab, True),)
        u.trace += ('no more members',)
        out.append(('ret', ('p', None, L(0)), u))
        if not comp and n < self.bound(k[1]):
            u = st.copy()
            u.trace += ('member %d' % n,)
            r = self.newmember(u, k, 'key:%s:%d' % (k[1][1], n))
            out.append(('ret', ('p', r, L(0)), u))
        return out

    def m_purge(self, E, st, i, a):
        st = st.copy()
        if not (a[0][0] == 'p' and a[0][1]):
            return None
        k, info = self.mapinfo(st, a[0][1], a[0][2])
        if k[1][0] in ('doc', 'src'):
            st.g[('purged', k[1])] = True
        st.g[k] = (((), frozenset(), True),)
        return [('ret', ('u', 0), st)]

    def stdend(self, st, k):
        r = ('mapend', k[1])
        if r not in st.reg:
            st.reg[r] = dict(size=None, default='sym', alive=True, pin=True)
            st.mem[r] = {}
            st.g[('endof', r)] = (k,)
        return ('p', r, L(0))

    def stdend_for_null(self, outs, k):
        o = []
        for kind, v, st in outs:
            if v[1] is None:
                v = self.stdend(st, k)
            else:
                v = ('p', v[1], L(0))
            o.append((kind, v, st))
        return o

    def m_stdbegin(self, E, st, i, a):
        if not (a[0][0] == 'p' and a[0][1]):
            return None
        st = st.copy()
        k, info = self.mapinfo(st, a[0][1], a[0][2])
        return self.stdend_for_null(self.at(st, k, 0), k)

    def m_stdend(self, E, st, i, a):
        if not (a[0][0] == 'p' and a[0][1]):
            return None
        st = st.copy()
        k, info = self.mapinfo(st, a[0][1], a[0][2])
        return [('ret', self.stdend(st, k), st)]

    def m_stdnext(self, E, st, i, a):
        st = st.copy()
        w = st.g.get(('in', a[0][1])) if a[0][0] == 'p' and a[0][1] else None
        if w is None:
            st.exact = False
            return [('ret', E.freshty(st, 'p', 'next', True), st)]
        k, n = w[0]
        return self.stdend_for_null(self.at(st, k, n + 1), k)

    def m_stdindex(self, E, st, i, a):
        """std::map::operator[]: the element of the key, created if it is missing"""
        st = st.copy()
        if not (a[0][0] == 'p' and a[0][1] and a[1][0] == 'p' and a[1][1]):
            return None
        key = self.token(st, a[1][1], a[1][2])
        k, info = self.mapinfo(st, a[0][1], a[0][2])
        out = []
        todo = [st]
        for key2, r, o in info[0]:
            nx = []
            for t in todo:
                for b, u in self.same(t, key, key2):
                    if b:
                        out.append(('ret', ('p', r, L(o)), u))
                    else:
                        nx.append(u)
            todo = nx
        for t in todo:
            self.fork_oom(t, out)
            t = t.copy()
            ms, ab, comp = t.g[k][0]
            r = E.region(t, 'heap', None, 'zero', 'stdmap')
            t.reg[r] = dict(t.reg[r], pin=True)
            self.settoken(t, ('p', r, L(0)), key)
            t.g[k] = ((ms + ((key, r, PAIR),), ab, comp),)
            t.g[('in', r)] = ((k, len(ms)),)
            out.append(('ret', ('p', r, L(PAIR)), t))
        return out

    # ---- sizes: how many elements an array and members a map can have, by how deep it lies
    def bound(self, r):
        n = str(r[1])
        d = n.count('[') + n.count('/') + n.count('+elements')
        return self.bounds[min(d, len(self.bounds) - 1)]

    bounds = (3, 2, 1)

    # ---- document values
    def docvalue(self, st, r):
        st.reg[r] = dict(size=None, default='sym', alive=True, pin=True, load=self.docload)
        st.mem[r] = {}
        st.g[('cls', r)] = frozenset(self.vt)

    def docload(self, E, st, r, off, size, ty, i):
        if ty == 'p' and off.const() == 0:
            v = ('vt', r)
            st.reg.setdefault(v, dict(size=None, default='sym', alive=True, load=lambda E, st, w, o, s, t, i: ('p', ('slot', r), o) if t == 'p' else None))
            return ('p', v, L(0))
        if ty == 'p':
            v = ('elems', (r, off))
            if v not in st.reg:
                st.reg[v] = dict(size=None, default='sym', alive=True, pin=True, load=self.elemload)
                st.mem.setdefault(v, {})
            E.put(st, r, off, 8, ('p', v, L(0)))
            return ('p', v, L(0))
        w = width(ty)
        if w and w > 8:
            x = N(E.fresh(st, 'count', 0, self.bound(r)))
            E.put(st, r, off, size, x)
            return x
        if w:
            x = N(E.fresh(st, 'flag', 0, 1))
            E.put(st, r, off, size, x)
            return x
        return None

    def elemload(self, E, st, r, off, size, ty, i):
        if ty != 'p':
            return None
        c = off.const()
        if c is None:
            return ('p', ('lazy', 'elem?'), L(0))
        d = ('doc', '%s[%d]' % (r[1][0][1], c // 8))
        if d not in st.reg:
            self.docvalue(st, d)
        E.put(st, r, off, 8, ('p', d, L(0)))
        return ('p', d, L(0))

    def virtual(self, E, st, i, args, v):
        if v[0] == 'p' and v[1] and v[1][0] == 'slot':
            r, o = v[1][1], v[2].const()
            cls = st.g.get(('cls', r), frozenset())
            by = {}
            for k in cls:
                t = self.vt[k].get(16 + o) if o is not None else None
                by.setdefault(t[1] if t and t[0] == 'g' else None, set()).add(k)
            out = []
            for t in sorted(by, key=str):
                s = st.copy()
                s.g[('cls', r)] = frozenset(by[t])
                if len(by) > 1:
                    s.trace += ('%s is %s' % (r[1], '/'.join(sorted(by[t]))),)
                if t is None or t not in self.F:
                    s.exact = False
                    out += E.external('virtual call', s, i, args)
                elif '::~' in self.F[t]['dem']:
                    s.g[('deleted', r)] = s.g.get(('deleted', r), 0) + 1
                    out.append(('ret', ('u', 0), s))
                else:
                    out += E.call(t, args, s, i)
            return out
        st = st.copy()
        st.exact = False
        return E.external('indirect call', st, i, args)

    # ---- helpers of the reference
    def ask(self, name, args, st):
        """value of a helper function in a final state (no branching expected); None if it cannot be told"""
        s = st.copy()
        s.frames = [{}]
        b, self.E.throws = self.E.throws, False
        try:
            o = [x for x in self.E.call(name, args, s) if x[0] == 'ret']
        finally:
            self.E.throws = b
        if len(o) != 1:
            return None
        # keep what was created lazily
        st.P, st.mem, st.reg, st.g = o[0][2].P, o[0][2].mem, o[0][2].reg, o[0][2].g
        return o[0][1]

    def const(self, name):
        st = State()
        st.frames = [{}]
        o = self.E.call(name, [], st)
        x = self.E.num(o[0][2], o[0][1])
        return x.const()

    def const2(self, name, r):
        """offset of a part of the object r"""
        st = State()
        st.frames = [{}]
        st.reg[r] = dict(size=None, default='sym', alive=True, pin=True)
        st.mem[r] = {}
        return self.ask(name, [('p', r, L(0))], st)[2].const()

    def cls(self, st, r):
        return st.g.get(('cls', r), frozenset())

    def pick(self, st, r, kind):
        """states with the value of that kind / not of that kind"""
        c = self.cls(st, r)
        out = []
        if kind in c:
            t = st.copy()
            t.g[('cls', r)] = frozenset([kind])
            out.append((True, t))
        if c - {kind}:
            t = st.copy()
            t.g[('cls', r)] = c - {kind}
            out.append((False, t))
        return out

    def elements(self, st, r, seen=True):
        """[(count or None, element regions, state)] of an array value: how many elements it can have in this state"""
        a = self.ask('doc_array', [('p', r, L(0))], st)
        if not a or a[0] != 'p' or not a[1]:
            return None
        c = self.ask('lay_values_count', [a], st)
        b = self.ask('lay_values_begin', [a], st)
        n = self.E.num(st, c)
        return n, b

    def spec(self, T, r, st, budget):
        """[(status name, state)]: what deserializing or validating has to return, for every completion of the decisions"""
        if budget[0] <= 0:
            return None
        budget[0] -= 1
        out = []
        kind = 'string' if T == 'stdstring' else T if T in LEAF else 'array' if isinstance(T, tuple) and T[0] in ('array', 'vector', 'bitvector') else 'object'
        for b, t in self.pick(st, r, kind):
            if not b:
                out.append(('kInvalidValueType', t))
            elif T in LEAF or T == 'stdstring':
                out.append(('kOk', t))
            elif kind == 'array':
                e = self.elements(t, r)
                if e is None or e[0] is None or e[1] is None or e[1][0] != 'p':
                    return None
                n, bp = e
                cur = [t]
                for k in range(12):
                    nx = []
                    for s in cur:
                        u = s.copy()
                        u.P.add_ge(n + -(k + 1))
                        z = s.copy()
                        z.P.add_eq(n - L(k))
                        if not z.P.is_empty():
                            out.append(('kOk', z))
                        if u.P.is_empty():
                            continue
                        x = self.E.load(u, bp[1], bp[2] + 8 * k, 8, 'p')
                        if x[0] != 'p' or not x[1] or x[1][0] != 'doc':
                            return None
                        fresh = self.cls(u, x[1]) == frozenset(self.vt)
                        if fresh and k >= 2 and len(cur) > 200:
                            return None
                        o = self.spec(T[1], x[1], u, budget)
                        if o is None:
                            return None
                        for s2, v in o:
                            if s2 == 'kOk':
                                nx.append(v)
                            else:
                                out.append((s2, v))
                    cur = nx
                    # elements the call never looked at: one of each outcome is enough
                    if len(out) > 40 or not cur:
                        break
            elif isinstance(T, tuple):
                k, info = self.mapinfo(t, r, self.objmap)
                cur = [t]
                for n in range(len(info[0])):
                    nx = []
                    for s in cur:
                        o = self.spec(T[1], info[0][n][1], s, budget)
                        if o is None:
                            return None
                        for s2, v in o:
                            if s2 == 'kOk':
                                nx.append(v)
                            else:
                                out.append((s2, v))
                    cur = nx
                for s in cur:
                    out.append(('kOk', s))
                    if not info[2] and len(info[0]) < self.bound(r):
                        u = s.copy()
                        out.append(('kInvalidValueType', u))
            else:
                cur = [t]
                for name, ty, opt, lay in USER[T]:
                    nx = []
                    for s in cur:
                        k, info = self.mapinfo(s, r, self.objmap)
                        key = 'text:' + name
                        hit = [x for x in info[0] if x[0] == key]
                        if not hit:
                            u = s.copy()
                            ms, ab, comp = u.g[k][0]
                            u.g[k] = ((ms, ab | {key}, comp),)
                            if opt:
                                nx.append(u)
                            else:
                                out.append(('kNameNotPresent', u))
                            if key in info[1] or info[2]:
                                continue
                            u = s.copy()
                            rr = self.newmember(u, k, key)
                            s = u
                        else:
                            rr = hit[0][1]
                        o = self.spec(ty, rr, s, budget)
                        if o is None:
                            return None
                        for s2, v in o:
                            if s2 == 'kOk':
                                nx.append(v)
                            else:
                                out.append((s2, v))
                    cur = nx
                for s in cur:
                    out.append(('kOk', s))
        return out

    def differ(self, T, r, p, st):
        """None if the object at p holds what the document value r holds, else what differs"""
        E = self.E
        if T in ('string', 'stdstring'):
            d = self.ask('doc_string', [('p', r, L(0))], st)
            x, y = self.token(st, d[1], d[2]), self.token(st, p[1], p[2])
            return None if x == y else 'a string is not the string of the document (%s instead of %s)' % (y, x)
        if T == 'number':
            d = self.ask('doc_number', [('p', r, L(0))], st)
            x, y = E.load(st, d[1], d[2], 8, 'f64'), E.load(st, p[1], p[2], 8, 'f64')
            return None if x == y else 'a number is not the number of the document'
        if T == 'bool':
            d = self.ask('doc_bool', [('p', r, L(0))], st)
            x, y = E.num(st, E.load(st, d[1], d[2], 1, 'i8')), E.num(st, E.load(st, p[1], p[2], 1, 'i8'))
            return None if x is not None and y is not None and st.P.entails_eq(x - y) else 'a truth value is not that of the document'
        if T == 'null':
            return None
        if isinstance(T, tuple) and T[0] in ('array', 'vector'):
            e = self.elements(st, r)
            n = e[0]
            t = tid(T)
            c = E.num(st, self.ask('lay_%s_count' % t, [p], st))
            b = self.ask('lay_%s_begin' % t, [p], st)
            size = self.const('lay_%s_size' % t)
            if c is None or not st.P.entails_eq(c - n):
                return 'the number of elements is not that of the document'
            k = st.P.red(n).const()
            for j in range(k if k is not None else 0):
                x = E.load(st, e[1][1], e[1][2] + 8 * j, 8, 'p')
                if b[0] != 'p' or not b[1] or x[0] != 'p':
                    return '?'
                d = self.differ(T[1], x[1], ('p', b[1], b[2] + size * j), st)
                if d:
                    return 'element %d: %s' % (j, d)
            return None if k is not None else '?'
        if isinstance(T, tuple) and T[0] == 'bitvector':
            e = self.elements(st, r)
            v = st.g.get(('bits', p[1], st.P.red(p[2])), ((),))[0]
            if not st.P.entails_eq(e[0] - len(v)):
                return 'the number of elements is not that of the document'
            for j, w in enumerate(v):
                x = E.load(st, e[1][1], e[1][2] + 8 * j, 8, 'p')
                d = self.ask('doc_bool', [x], st)
                y = E.num(st, E.load(st, d[1], d[2], 1, 'i8'))
                if y is None or w is None:
                    return '?'
                if not st.P.entails_eq(y - w):
                    return 'element %d: a truth value is not that of the document' % j
            return None
        if isinstance(T, tuple):
            k, info = self.mapinfo(st, r, self.objmap)
            k2, dest = self.mapinfo(st, p[1], p[2])
            if not info[2] and len(info[0]) < self.bound(r):
                return 'not all members were looked at'
            if sorted(x[0] for x in info[0]) != sorted(x[0] for x in dest[0]):
                return 'the names in the map are not those of the document'
            for key, rr, o in info[0]:
                q = [x for x in dest[0] if x[0] == key][0]
                dp = ('p', q[1], L(q[2]))
                if T[0] == 'map':
                    dp = self.ask('lay_%s_data' % tid(T), [dp], st)
                d = self.differ(T[1], rr, dp, st)
                if d:
                    return 'member %s: %s' % (key, d)
            return None
        for name, ty, opt, lay in USER[T]:
            k, info = self.mapinfo(st, r, self.objmap)
            hit = [x for x in info[0] if x[0] == 'text:' + name]
            if not hit:
                q = ('p', p[1], p[2] + self.const(lay))
                if ty == 'string' and self.token(st, q[1], q[2]).startswith("initial:('doc'") or ty == 'number' and self.docnumber(st, E.load(st, q[1], q[2], 8, 'f64')):
                    return 'member %s, absent from the document, got a value of another place of it' % name
                continue
            d = self.differ(ty, hit[0][1], ('p', p[1], p[2] + self.const(lay)), st)
            if d:
                return 'member %s: %s' % (name, d)
        return None

    def docnumber(self, st, v):
        return v[0] == 'u' and any(r[0] == 'doc' and any(c[1] == v for c in self.E.cells(st, r).values()) for r in list(st.mem))

    def classof(self, st, v):
        """kind of a value built by the library: by the table its first word points to"""
        if v[0] != 'p' or not v[1]:
            return None
        c = self.E.cells(st, v[1]).get(st.P.red(v[2]))
        if not c or c[1][0] != 'p' or not c[1][1] or c[1][1][0] != 'glob':
            return None
        for k, c2 in KINDS.items():
            if c[1][1][1] == '_ZTVN2C44Json%d%sE' % (len(c2), c2) and c[1][2].const() == 16:
                return k
        return None

    def built(self, T, v, p, st):
        """None if the value v, built by serializing, mirrors the object at p"""
        E = self.E
        kind = 'string' if T == 'stdstring' else T if T in LEAF else 'array' if isinstance(T, tuple) and T[0] in ('array', 'vector', 'bitvector') else 'object'
        if v[0] != 'p' or v[1] is None:
            return 'there is no value'
        if not st.reg.get(v[1], {}).get('alive', True):
            return 'a value that was released is kept'
        c = self.classof(st, v)
        if c != kind:
            return 'the value is of the kind %s instead of %s' % (c, kind) if c else '?'
        if T in ('string', 'stdstring'):
            d = self.ask('doc_string', [v], st)
            x, y = self.token(st, d[1], d[2]), self.token(st, p[1], p[2])
            return None if x == y else 'a string is not the string of the object (%s instead of %s)' % (x, y)
        if T == 'number':
            d = self.ask('doc_number', [v], st)
            return None if E.load(st, d[1], d[2], 8, 'f64') == E.load(st, p[1], p[2], 8, 'f64') else 'a number is not the number of the object'
        if T == 'bool':
            d = self.ask('doc_bool', [v], st)
            x, y = E.num(st, E.load(st, d[1], d[2], 1, 'i8')), E.num(st, E.load(st, p[1], p[2], 1, 'i8'))
            return None if x is not None and y is not None and st.P.entails_eq(x - y) else 'a truth value is not that of the object'
        if T == 'null':
            return None
        if kind == 'array':
            a = self.ask('doc_array', [v], st)
            n = E.num(st, self.ask('lay_values_count', [a], st))
            b = self.ask('lay_values_begin', [a], st)
            if T[0] == 'bitvector':
                if n is None or not st.P.entails_eq(n - len(self.sourcebits)):
                    return 'the number of elements is not that of the object'
                for j, w in enumerate(self.sourcebits):
                    x = E.load(st, b[1], b[2] + 8 * j, 8, 'p')
                    c = self.classof(st, x)
                    if c != 'bool':
                        return 'element %d: the value is of the kind %s instead of bool' % (j, c) if c else '?'
                    d = self.ask('doc_bool', [x], st)
                    y = E.num(st, E.load(st, d[1], d[2], 1, 'i8'))
                    if y is None or not st.P.entails_eq(y - w):
                        return 'element %d: a truth value is not that of the object' % j
                return None
            t = tid(T)
            c = E.num(st, self.ask('lay_%s_count' % t, [p], st))
            sb = self.ask('lay_%s_begin' % t, [p], st)
            size = self.const('lay_%s_size' % t)
            if c is None or n is None:
                return '?'
            if not st.P.entails_eq(c - n):
                return 'the number of elements is not that of the object'
            k = st.P.red(n).const()
            if k is None:
                return '?'
            for j in range(k):
                x = E.load(st, b[1], b[2] + 8 * j, 8, 'p')
                d = self.built(T[1], x, ('p', sb[1], sb[2] + size * j), st)
                if d:
                    return d if d == '?' else 'element %d: %s' % (j, d)
            return None
        o = self.ask('doc_object', [v], st)
        if not o or o[0] != 'p' or not o[1]:
            return '?'
        k, dest = self.mapinfo(st, o[1], o[2] + self.objmap)
        if isinstance(T, tuple):
            k2, info = self.mapinfo(st, p[1], p[2])
            if not info[2] and len(info[0]) < self.bound(p[1]):
                return 'not all members of the object were looked at'
            want = [(key, T[1], (self.ask('lay_%s_data' % tid(T), [('p', r, L(off))], st) if T[0] == 'map' else ('p', r, L(off)))) for key, r, off in info[0]]
        else:
            want = [('text:' + name, ty, ('p', p[1], p[2] + self.const(lay))) for name, ty, opt, lay in USER[T]]
        if sorted(x[0] for x in dest[0]) != sorted(x[0] for x in want):
            return 'the names in the document (%s) are not those of the object (%s)' % (', '.join(x[0] for x in dest[0]), ', '.join(x[0] for x in want))
        for key, ty, q in want:
            m = [x for x in dest[0] if x[0] == key][0]
            d = self.built(ty, ('p', m[1], L(m[2])), q, st)
            if d:
                return d if d == '?' else 'member %s: %s' % (key, d)
        return None

    # ---- runs
    objmap = L(0)

    def prepare(self):
        st = State()
        st.frames = [{}]
        r = ('ext', 'o')
        st.reg[r] = dict(size=None, default='sym', alive=True, pin=True)
        v = self.ask('lay_object_map', [('p', r, L(0))], st)
        if not v or v[0] != 'p' or v[1] != r:
            raise AnalysisBroken('layout of ObjectValue not found')
        self.objmap = v[2]
        self.E.steps = 0

    def start(self, root):
        st = State()
        st.frames = [{}]
        d = ('ext', 'document')
        st.reg[d] = dict(size=None, default='sym', alive=True, pin=True)
        st.mem[d] = {}
        if root:
            r = ('doc', 'root')
            self.docvalue(st, r)
            self.E.put(st, d, L(0), 8, ('p', r, L(0)))
        else:
            self.E.put(st, d, L(0), 8, ('p', None, L(0)))
        return st, ('p', d, L(0))

    sourcebits = ()

    def source(self, st, T, r):
        """the object a document is made from"""
        E = self.E
        def load(E, st, r, off, size, ty, i):
            if ty == 'p':
                v = ('src', '%s+%s' % (r[1], off))
                if isinstance(T, tuple) and T[0] == 'vector' and r[1] == 'x':
                    v = ('src', 'x+elements')
                    k = ('count', r)
                    if k not in st.g:
                        st.g[k] = E.fresh(st, 'count', 0, self.bound(r))
                    o = L(0) if off.const() == 0 else st.g[k] * self.const('lay_%s_size' % tid(T))
                else:
                    o = L(0)
                if v not in st.reg:
                    st.reg[v] = dict(size=None, default='sym', alive=True, pin=True, load=load)
                    st.mem.setdefault(v, {})
                E.put(st, r, off, 8, ('p', v, o))
                return ('p', v, o)
            w = width(ty)
            if w:
                x = N(E.fresh(st, 'count', 0, self.bound(r) if w > 8 else 1))
                E.put(st, r, off, size, x)
                return x
            return None
        if T == ('bitvector', 'bool'):
            # the layout of libstdc++: where the bits start and end, each a word and the number of a bit in it
            q = ('src', 'bits')
            st.reg[q] = dict(size=None, default='zero', alive=True, pin=True)
            st.mem[q] = {}
            st.reg[r] = dict(size=None, default='zero', alive=True, pin=True)
            st.mem[r] = {}
            if self.sourcebits:
                E.put(st, q, L(0), 8, N(sum(b << j for j, b in enumerate(self.sourcebits))))
                E.put(st, r, L(0), 8, ('p', q, L(0)))
                E.put(st, r, L(8), 4, N(0))
                E.put(st, r, L(16), 8, ('p', q, L(0)))
                E.put(st, r, L(24), 4, N(len(self.sourcebits)))
                E.put(st, r, L(32), 8, ('p', q, L(8)))
            return
        self.srcload, self.srcstd = load, isinstance(T, tuple) and T[0] == 'stdmap'
        self.srccls = 'C4::Json::ObjectMapElement<%s>' % {'string': 'Terathon::String<0>', 'number': 'double', 'null': 'C4::Json::Null', ('array', 'number'): 'Terathon::Array<double, 0>'}.get(T[1], T[1]) if isinstance(T, tuple) else ''
        st.reg[r] = dict(size=None, default='sym', alive=True, pin=True, load=load)
        st.mem[r] = {}

    def call(self, name, args, st):
        try:
            return self.E.call(name, args, st)
        except Budget as e:
            self.E.undec.append('%s: not finished (%s)' % (name, e))
            return []


CACHE = {}


def bounds(T):
    """elements and members considered, by depth: fewer where the elements themselves have many shapes"""
    return (1, 1, 1) if isinstance(T, tuple) and T[1] in USER and len(USER[T[1]]) > 3 else (3, 2, 1)


def load():
    if 'm' not in CACHE:
        CACHE['m'] = module(probes=['docs.cpp'], passes='sroa')
    return CACHE['m']


def names():
    import p06
    return {v: n.split('::')[-1] for n, v, *_ in p06.enumerators()}


def decisions(st):
    return '; '.join(st.trace[-12:])


def access_check(m):
    """P14 -> (violations, undecided, coverage)"""
    viol, undec, cov = [], [], dict(calls=0, outcomes=0, obligations=0)
    where = {}
    for kind in KINDS:
        for pre in ('doc_', 'mut_'):
            for cls in KINDS:
                D = Docs(m)
                if cls not in D.vt:
                    undec.append('class %s not found' % KINDS[cls])
                    continue
                st, d = D.start(True)
                r = ('doc', 'root')
                st.g[('cls', r)] = frozenset([cls])
                try:
                    outs = D.E.call(pre + kind, [('p', r, L(0))], st)
                except Budget as e:
                    undec.append(str(e))
                    continue
                cov['calls'] += 1
                for k, v, t in outs:
                    cov['outcomes'] += 1
                    cov['obligations'] += 1
                    what = 'asking a value of the class %s for its data as %s (%s access)' % (KINDS[cls], kind, 'constant' if pre == 'doc_' else 'mutable')
                    bad = None
                    if k != 'ret':
                        bad = 'throws'
                    elif v[0] != 'p':
                        undec.append(what + ': result not followed')
                    elif (v[1] is not None) != (kind == cls):
                        bad = 'yields nothing' if v[1] is None else 'yields data'
                    elif kind == cls:
                        if v[1] != r or v[2].const() is None:
                            bad = 'yields something outside the value'
                        else:
                            w = where.setdefault(kind, (v[2], what))
                            if w[0] != v[2]:
                                bad = 'yields another place than %s' % w[1]
                            elif kind != 'object' and kind != 'null' and not 0 < v[2].const() < 256:
                                bad = 'yields something outside the value'
                    if bad:
                        if t.exact:
                            viol.append(('P14:%s%s:%s' % (pre, kind, cls), '%s %s\n  %s' % (what, bad, D.E.path())))
                        else:
                            undec.append(what + ' ' + bad)
    # the data must be what is named data: the places where serializing a leaf puts it
    for kind in KINDS:
        for member in ['absent'] + list(KINDS):
            D = Docs(m)
            D.prepare()
            st, d = D.start(True)
            r = ('doc', 'root')
            st.g[('cls', r)] = frozenset(['object'])
            n = ('name', 'asked')
            st.reg[n] = dict(size=None, default='sym', alive=True, pin=True)
            st.mem[n] = {}
            key = 'of:%s' % (n,)
            k, info = D.mapinfo(st, r, D.objmap)
            if member == 'absent':
                st.g[k] = (((), frozenset([key]), True),)
            else:
                rr = D.newmember(st, k, key)
                st.g[('cls', rr)] = frozenset([member])
                ms, ab, comp = st.g[k][0]
                st.g[k] = ((ms, ab, True),)
            try:
                outs = D.E.call('find_' + kind, [('p', r, L(0)), ('p', n, L(0))], st)
            except Budget as e:
                undec.append(str(e))
                continue
            cov['calls'] += 1
            for q, v, t in outs:
                cov['outcomes'] += 1
                cov['obligations'] += 1
                what = 'looking up a name as %s when its member is %s' % (kind, 'absent' if member == 'absent' else 'a ' + KINDS[member])
                bad = None
                if q != 'ret':
                    bad = 'throws'
                elif v[0] != 'p':
                    undec.append(what + ': result not followed')
                elif (v[1] is not None) != (kind == member):
                    bad = 'yields nothing' if v[1] is None else 'yields data'
                elif kind == member and (v[1] != rr or v[2] != where.get(kind, (v[2],))[0]):
                    bad = 'yields another place than the data of the member'
                if bad:
                    if t.exact:
                        viol.append(('P14:find_%s:%s' % (kind, member), '%s %s\n  decisions: %s' % (what, bad, decisions(t))))
                    else:
                        undec.append(what + ' ' + bad)
    return viol, undec, cov



def run_read(op, t, m=None, throws=False, unroll=4, budget=400000, used=False, small=None):
    """op 'des' or 'val' on type t -> dict of results (plain data: it crosses process boundaries)"""
    m = m or load()
    T = TYPES[t]
    D = Docs(m, throws, budget, unroll)
    D.bounds = bounds(T)
    D.prepare()
    E = D.E
    if small:
        D.bounds = small
    st, d = D.start(True)
    x = ('ext', 'x')
    st.reg[x] = dict(size=None, default='zero' if op == 'des' else 'sym', alive=True, pin=True)
    st.mem[x] = {}
    st.g[('map', x, L(0))] = (((), frozenset(), True),)
    if used:
        if isinstance(T, tuple) and T[0] == 'bitvector':
            st.g[('bits', x, L(0))] = ((L(1),),)
        else:
            x = ('src', 'x')
            D.source(st, T, x)
    outs = D.call('%s_%s' % (op, t), [d, ('p', x, L(0))], st)
    res = dict(op=op, type=t, viol=[], undec=[], steps=E.steps, outcomes=len(outs), exact=0, judged=0, transfers=0, unknown=sorted(E.unknown), functions=len(E.visited))
    nm = names()
    E.steps, E.budget = 0, 4 * budget
    for kind, v, st in outs:
        if kind != 'ret':
            if st.exact and not st.P.is_empty():
                res['viol'].append(('throw', '%s of the type %s lets an exception out' % (op, t), 'throw', decisions(st)))
            continue
        if not st.exact:
            continue
        n = E.num(st, v)
        n = st.P.red(n).const() if n is not None else None
        if n is None:
            res['undec'].append('status of %s %s is not a constant' % (op, t))
            continue
        if st.P.is_empty():
            continue
        got = nm.get(n, str(n))
        res['exact'] += 1
        if st.g.get(('deleted', ('doc', 'root'))) or any(k[0] in ('deleted', 'purged') and k[1][0] == 'doc' for k in st.g if isinstance(k, tuple)):
            res['viol'].append(('changed', 'the document is changed', 'changed', decisions(st)))
        if st.g.get('oom') and got != 'kOk':
            continue
        q = st.copy()
        q.frames = [{}]
        o = D.spec(T, ('doc', 'root'), q, [4000])
        if o is None:
            res['undec'].append('reference for %s %s not computed' % (op, t))
            continue
        o = [(s, u) for s, u in o if not u.P.is_empty()]
        res['judged'] += 1
        bad = [(s, u) for s, u in o if s != got]
        if bad:
            s, u = bad[0]
            res['viol'].append(('status', '%s is returned where the document (%s) calls for %s' % (got, describe(D, u), s), '%s/%s' % (got, s), decisions(st)))
        elif got == 'kOk' and op == 'des':
            w = D.differ(T, ('doc', 'root'), ('p', x, L(0)), q)
            res['transfers'] += 1
            if w == '?':
                res['undec'].append('transfer of %s not compared' % t)
            elif w and not q.exact:
                res['undec'].append(w)
            elif w:
                res['viol'].append(('data', 'Ok is returned, but %s (%s)' % (w, describe(D, q)), re.sub(r'[0-9]+', '#', w)[:60], decisions(st)))
    res['undec'] = sorted(set(res['undec'])) + E.undec[:5]
    res['steps'] += E.steps
    return res


def describe(D, st):
    """what is known of the document in a state"""
    o = []
    for k, v in st.g.items():
        if isinstance(k, tuple) and k[0] == 'cls' and v != frozenset(D.vt):
            o.append('%s is %s' % (k[1][1], '/'.join(sorted(v))))
        elif isinstance(k, tuple) and k[0] == 'map' and k[1][0] == 'doc':
            for a in v[0][1]:
                o.append('%s has no %s' % (k[1][1], a.split(':', 1)[-1]))
    return ', '.join(o[:8])


def run_write(t, m=None, throws=True, unroll=4, budget=400000, old=False, small=None):
    """serializing an object of type t into an empty document"""
    if TYPES[t][0] == 'bitvector':
        o = None
        for bits in [()] + [b for n in (1, 2, 3) for b in itertools.product((0, 1), repeat=n)]:
            r = run_write1(t, m, throws, unroll, budget, bits)
            o = r if o is None else {k: o[k] + v if isinstance(v, (int, list)) and k != 'functions' else v for k, v in r.items()}
        return o
    return run_write1(t, m, throws, unroll, budget, (), old, small)


def run_write1(t, m, throws, unroll, budget, bits, old=False, small=None):
    m = m or load()
    T = TYPES[t]
    D = Docs(m, throws, budget, unroll)
    D.bounds = bounds(T)
    D.prepare()
    E = D.E
    st, d = D.start(old)
    x = ('src', 'x')
    D.sourcebits = bits
    if small:
        D.bounds = small
    D.source(st, T, x)
    outs = D.call('ser_%s' % t, [d, ('p', x, L(0))], st)
    res = dict(op='ser', type=t, viol=[], undec=[], steps=E.steps, outcomes=len(outs), exact=0, judged=0, transfers=0, unknown=sorted(E.unknown), functions=len(E.visited))
    nm = names()
    E.steps, E.budget = 0, 4 * budget
    for kind, v, st in outs:
        if kind != 'ret':
            if st.exact and not st.P.is_empty():
                res['viol'].append(('throw', 'serializing %s lets an exception out' % t, 'throw', decisions(st)))
            continue
        if not st.exact or st.P.is_empty():
            continue
        n = E.num(st, v)
        n = st.P.red(n).const() if n is not None else None
        if n is None:
            res['undec'].append('status of ser %s is not a constant' % t)
            continue
        got = nm.get(n, str(n))
        res['exact'] += 1
        if old:
            gone = st.g.get(('deleted', ('doc', 'root')), 0)
            if gone > 1:
                res['viol'].append(('replaced', 'the earlier document is destroyed more than once', 'twice', decisions(st)))
            held = E.load(st, ('ext', 'document'), L(0), 8, 'p')
            if gone and held[1] == ('doc', 'root') or not gone and held[1] != ('doc', 'root'):
                res['viol'].append(('replaced', 'the earlier document is destroyed but still held' if gone else 'the earlier document is neither held nor destroyed', 'held', decisions(st)))
            if got == 'kOk' and not gone:
                res['viol'].append(('replaced', 'Ok is returned, but the earlier document is still held', 'kept', decisions(st)))
        if got != 'kOk':
            res['judged'] += 1
            if not st.g.get('oom'):
                res['viol'].append(('status', '%s is returned although nothing failed' % got, got, decisions(st)))
            continue
        q = st.copy()
        q.frames = [{}]
        root = D.ask('doc_root', [d], q)
        w = D.built(T, root, ('p', x, L(0)), q)
        res['transfers'] += 1
        if w == '?' or (w and not q.exact):
            res['undec'].append('document of %s not compared' % t)
        elif w:
            res['judged'] += 1
            res['viol'].append(('data', 'Ok is returned, but %s' % w, re.sub(r'[0-9]+', '#', w)[:60], decisions(st)))
        else:
            res['judged'] += 1
    res['undec'] = sorted(set(res['undec'])) + E.undec[:5]
    res['steps'] += E.steps
    return res


def job(a):
    op, t, kw = a
    try:
        for small in (None, (2, 1, 1), (1, 1, 1), (1, 1, 0)):
            try:
                r = run_write(t, CACHE['m'], small=small, **kw) if op == 'ser' else run_read(op, t, CACHE['m'], small=small, **kw)
                if not any('not finished' in u for u in r['undec']):
                    break
            except Budget as e:
                r = dict(op=op, type=t, viol=[], undec=['%s of %s not finished: %s' % (op, t, e)], steps=0, outcomes=0, exact=0, judged=0, transfers=0, unknown=[], functions=0)
        if small:
            r['undec'].append('%s of %s: only up to %s elements' % (op, t, small))
    except AnalysisBroken as e:
        return dict(op=op, type=t, viol=[], undec=['%s of %s not analysed: %s' % (op, t, e)], steps=0, outcomes=0, exact=0, judged=0, transfers=0, unknown=[], functions=0)
    except RecursionError:
        return dict(op=op, type=t, viol=[], undec=['%s of %s not analysed: recursion too deep' % (op, t)], steps=0, outcomes=0, exact=0, judged=0, transfers=0, unknown=[], functions=0)
    r['mode'] = ','.join(sorted(kw))
    return r


def runs(jobs):
    import multiprocessing
    load()
    jobs.sort(key=lambda j: j[1] in USER or j[1].endswith(('_In', '_Mem', '_Few')), reverse=True)
    with multiprocessing.get_context('fork').Pool(min(8, os.cpu_count() or 1)) as p:
        return p.map(job, jobs, chunksize=1)


SMALL = ('number', 'string', 'bool', 'null', 'In', 'array_number', 'array_string', 'array_bool', 'vector_number', 'vector_string', 'vector_bool', 'map_number', 'stdmap_number')


def cover(c, rs, rule):
    c.undecided += sorted({u for r in rs for u in r['undec']})
    c.coverage.update(analyses=len(rs), types=sorted({r['type'] for r in rs}), functions_followed=max(r['functions'] for r in rs), paths=sum(r['outcomes'] for r in rs), paths_judged=sum(r['judged'] for r in rs),
                      transfers_compared=sum(r['transfers'] for r in rs), instructions=sum(r['steps'] for r in rs), unmodelled=sorted({u for r in rs for u in r['unknown']}), rule=rule)
    if not sum(r['judged'] for r in rs):
        raise AnalysisBroken('no path was judged')


ASSUME = ['Strings compare by identity of their text and copy or move faithfully; Map::FindMapElement finds the element of the key if there is one, InsertMapElement refuses a key already present, iteration delivers every element once (the containers themselves are P18, P21 to P23).',
          'operator new and throwing library functions may fail at any call or never.',
          'Arrays, vectors and maps up to 3 elements (2 inside others, 1 inside these; 1 for elements of many members); every kind of every document value and every presence or absence of names.',
          'A deviation is reported only on paths analysed without approximation, otherwise it is listed as undecided.']


def check14():
    c = Check('P14')
    v, u, cov = access_check(load())
    for k, t in v:
        c.violation(k, t)
    c.undecided += u
    c.coverage.update(cov)
    c.coverage['rule'] = 'for each of 6 kinds asked x 6 kinds held (constant and mutable) and each lookup x (absent, 6 kinds): data exactly when the kinds agree, from the place the other accessors name'
    if not cov.get('obligations'):
        raise AnalysisBroken('no obligations')
    c.assumptions += ASSUME[:1] + ASSUME[3:]
    c.finish('Abstract interpretation of the access functions on document values whose class is decided case by case at the virtual calls.')


def check15():
    c = Check('P15')
    rs = runs([('des', t, {}) for t in TYPES] + [('des', t, dict(throws=True)) for t in TYPES] + [('des', t, dict(used=True)) for t in SMALL])
    for r in rs:
        for kind, text, short, dec in r['viol']:
            if kind in ('status', 'data', 'changed'):
                c.violation('P15:%s:%s:%s' % (r['type'], kind, short), 'DeserializeTo( %s ): %s\n  decisions: %s' % (r['type'], text, dec))
    cover(c, rs, 'on every path of deserializing each type: the status is the one computed from the kinds and names the path decided on, in the order of the members; on Ok the object holds what the document holds')
    c.assumptions += ASSUME
    c.finish('Abstract interpretation of StructuredData::DeserializeTo for every documented type over documents whose shape is decided lazily; result and object compared with a reference computed from the decisions of the path.')


def check16():
    c = Check('P16')
    rs = runs([('des', t, {}) for t in TYPES] + [('val', t, {}) for t in TYPES])
    by = {}
    for r in rs:
        for kind, text, short, dec in r['viol']:
            if kind in ('status', 'throw'):
                by.setdefault(r['type'], {'des': {}, 'val': {}})[r['op']].setdefault(short, (text, dec))
            elif kind == 'changed' and r['op'] == 'val':
                c.violation('P16:%s:changed' % r['type'], 'Validate( %s ) changes the document\n  decisions: %s' % (r['type'], dec))
    for t, o in sorted(by.items()):
        for a, b, nm in (('des', 'val', 'DeserializeTo'), ('val', 'des', 'Validate')):
            for short, (text, dec) in o[a].items():
                if short in o[b]:
                    c.undecided.append('%s and its counterpart both deviate from the reference for %s: %s' % (nm, t, short))
                else:
                    c.violation('P16:%s:%s:%s' % (t, a, short), '%s( %s ): %s, and its counterpart does not agree\n  decisions: %s' % (nm, t, text, dec))
    cover(c, rs, 'on every path of validating and of deserializing each type the status is that of one common reference computed from the kinds and names the path decided on; a deviation of only one of the two is a disagreement')
    c.assumptions += ASSUME
    c.finish('Abstract interpretation of Json::Validate and StructuredData::DeserializeTo for every documented type against one reference.')


def check17():
    c = Check('P17')
    rs = runs([('ser', t, {}) for t in TYPES] + [('ser', t, dict(old=True)) for t in SMALL if t != 'vector_bool'])
    for r in rs:
        for kind, text, short, dec in r['viol']:
            c.violation('P17:%s:%s:%s' % (r['type'], kind, short), 'SerializeFrom( %s ): %s\n  decisions: %s' % (r['type'], text, dec))
    cover(c, rs, 'on every path of serializing each type, with every allocation failing or not: Ok exactly if nothing failed, and then the document mirrors the object: kinds, names, elements in order; the earlier document is released once')
    c.assumptions += ASSUME
    c.finish('Abstract interpretation of StructuredData::SerializeFrom for every documented type; the values built are compared with the object.')


if __name__ == '__main__':
    import time
    sys.setrecursionlimit(20000)
    op = sys.argv[1]
    for t in sys.argv[2:] or TYPES:
        t0 = time.time()
        r = run_write(t) if op == 'ser' else run_read(op[:3], t, throws='t' in op[3:], used='u' in op[3:])
        print(op, t, {k: v for k, v in r.items() if k not in ('viol', 'undec', 'op', 'type')}, '%.1fs' % (time.time() - t0))
        for v in r['viol'][:3]:
            print('   V', v)
        for v in r['undec'][:3]:
            print('   U', v)
