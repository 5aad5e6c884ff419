"""Reference reading of a text of byte values (numbers, tables over text bytes, or printed numbers) by RFC 8259; splits the classes where it has to."""
from bytedom import Dom, issum, Split


class Invalid(Exception):
    def __init__(s, pos, what):
        s.pos, s.what = pos, what


WS = (0x20, 0x09, 0x0a, 0x0d)
DIGITS = range(48, 58)
HEX = [c for c in range(48, 58)] + list(range(65, 71)) + list(range(97, 103))


class Ref:
    def __init__(s, d, data):
        s.d, s.t, s.p = d, data, 0
        s.lone = False       # unpaired surrogates: tolerated
        s.tol = False        # other tolerated matter
        s.depth = 0

    def is_(s, vals, k=0):
        v = s.t[s.p + k] if s.p + k < len(s.t) else 0
        if type(v) is tuple and v[0] != 's':
            return False
        return s.d.inset(v, vals)

    def bad(s, what):
        raise Invalid(s.p, what)

    def ws(s):
        while s.is_(WS):
            s.p += 1

    def text(s):
        s.ws()
        v = s.value()
        s.ws()
        if not s.is_((0,)):
            s.bad('something follows the value')
        return v

    def word(s, w, v):
        for c in w:
            if not s.is_((ord(c),)):
                s.bad('not a value')
            s.p += 1
        return v

    def value(s):
        if s.p < len(s.t) and type(s.t[s.p]) is tuple and s.t[s.p][0] == 'nt':
            v = s.t[s.p]
            s.p += 1
            return v[1]
        if s.is_((34,)):
            return ('str', s.string())
        if s.is_((45,)) or s.is_(DIGITS):
            return s.number()
        if s.is_((116,)):
            return s.word('true', ('bool', 1))
        if s.is_((102,)):
            return s.word('false', ('bool', 0))
        if s.is_((110,)):
            return s.word('null', ('null',))
        if s.is_((91,)):
            s.p += 1
            s.depth += 1
            if s.depth > 512:
                s.bad('containers are nested deeper than 512 levels')
            out = []
            s.ws()
            if s.is_((93,)):
                s.p += 1
                s.depth -= 1
                return ('arr', out)
            while True:
                s.ws()
                out.append(s.value())
                s.ws()
                if s.is_((44,)):
                    s.p += 1
                    continue
                if s.is_((93,)):
                    s.p += 1
                    s.depth -= 1
                    return ('arr', out)
                s.bad('neither , nor ]')
        if s.is_((123,)):
            s.p += 1
            s.depth += 1
            if s.depth > 512:
                s.bad('containers are nested deeper than 512 levels')
            out = []
            s.ws()
            if s.is_((125,)):
                s.p += 1
                s.depth -= 1
                return ('obj', out)
            while True:
                s.ws()
                if not s.is_((34,)):
                    s.bad('no name')
                name = s.string()
                s.ws()
                if not s.is_((58,)):
                    s.bad('no :')
                s.p += 1
                s.ws()
                out.append((name, s.value()))
                s.ws()
                if s.is_((44,)):
                    s.p += 1
                    continue
                if s.is_((125,)):
                    s.p += 1
                    s.depth -= 1
                    return ('obj', out)
                s.bad('neither , nor }')
        s.bad('not a value')

    def digits(s):
        if not s.is_(DIGITS):
            s.bad('no digit')
        while s.is_(DIGITS):
            s.p += 1

    def number(s):
        neg = s.is_((45,))
        if neg:
            s.p += 1
        a = s.p
        if s.is_((48,)):
            s.p += 1
            if s.is_(DIGITS):
                s.bad('leading zero')
        else:
            s.digits()
        if s.is_((46,)):
            s.p += 1
            s.digits()
        if s.is_((69, 101)):
            s.p += 1
            if s.is_((43, 45)):
                s.p += 1
            s.digits()
        v = ('num', tuple(s.t[a:s.p]))
        return ('neg', v) if neg else v

    def hex4(s):
        d = s.d
        v = 0
        for k in range(4):
            if not s.is_(HEX):
                s.bad('not a hexadecimal digit')
            c = s.t[s.p]
            if s.is_(DIGITS):
                x = d.arith('sub', c, 48, 32)
            elif s.is_(range(65, 71)):
                x = d.arith('sub', c, 55, 32)
            else:
                x = d.arith('sub', c, 87, 32)
            v = d.arith('add', d.arith('shl', v, 4, 32), x, 32)
            s.p += 1
        return v

    def below(s, v, n):
        return s.d.inset(s.d.cmp('ult', v, n, 32), (1,)) if issum(s.d.norm(v)) else s.d.norm(v) < n

    def string(s):
        d = s.d
        s.p += 1
        out = []
        while True:
            if s.is_((34,)):
                s.p += 1
                return out
            if s.is_((0,)):
                s.bad('no end of the string')
            if s.is_(range(1, 32)):
                s.bad('control character in a string')
            if s.is_((92,)):
                s.p += 1
                if s.is_((34, 47, 92)):
                    out.append(s.t[s.p])
                    s.p += 1
                    continue
                for a, b in (('b', 8), ('f', 12), ('n', 10), ('r', 13), ('t', 9)):
                    if s.is_((ord(a),)):
                        out.append(b)
                        s.p += 1
                        break
                else:
                    if not s.is_((117,)):
                        s.bad('unknown escape')
                    s.p += 1
                    v = s.hex4()
                    if s.below(v, 1):
                        s.bad('escaped U+0000')
                    if s.below(v, 0xdc00) and not s.below(v, 0xd800):
                        if s.is_((92,)) and s.is_((117,), 1):
                            q = s.p
                            s.p += 2
                            w = s.hex4()
                            if s.below(w, 0xe000) and not s.below(w, 0xdc00):
                                v = d.arith('add', d.arith('add', d.arith('shl', d.arith('sub', v, 0xd800, 32), 10, 32), d.arith('sub', w, 0xdc00, 32), 32), 0x10000, 32)
                            else:
                                s.p = q
                                s.lone = True
                        else:
                            s.lone = True
                    elif s.below(v, 0xe000) and not s.below(v, 0xdc00):
                        s.lone = True
                    out += s.utf8(v)
                continue
            n = s.utf8len()
            out += s.t[s.p:s.p + n]
            s.p += n

    def utf8(s, v):
        d = s.d
        v = d.norm(v)
        if s.below(v, 0x80):
            return [v]
        cont = lambda k: d.arith('add', d.arith('and', d.arith('lshr', v, k, 32), 63, 32), 0x80, 32)
        if s.below(v, 0x800):
            return [d.arith('add', d.arith('lshr', v, 6, 32), 0xc0, 32), cont(0)]
        if s.below(v, 0x10000):
            return [d.arith('add', d.arith('lshr', v, 12, 32), 0xe0, 32), cont(6), cont(0)]
        return [d.arith('add', d.arith('lshr', v, 18, 32), 0xf0, 32), cont(12), cont(6), cont(0)]

    def utf8len(s):
        """RFC 3629; surrogates in three bytes are tolerated"""
        if s.is_(range(0, 0x80)):
            return 1
        C = range(0x80, 0xc0)
        for lead, second, n in ((range(0xc2, 0xe0), C, 2), ((0xe0,), range(0xa0, 0xc0), 3), (range(0xe1, 0xf0), C, 3), ((0xf0,), range(0x90, 0xc0), 4), (range(0xf1, 0xf4), C, 4), ((0xf4,), range(0x80, 0x90), 4)):
            if s.is_(lead):
                for k in range(1, n):
                    if not s.is_(second if k == 1 else C, k):
                        s.p += k
                        s.bad('not UTF-8')
                if s.is_((0xed,)) and s.is_(range(0xa0, 0xc0), 1):
                    s.lone = True
                return n
        s.bad('not UTF-8')
