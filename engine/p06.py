"""P06: the message of every status, by conditional constant propagation through StatusToString for each enumerator of the public enumeration."""
import json, subprocess
from common import *
from p19 import succs


def enumerators():
    src = os.path.join(VERIF, 'probes', 'status.cpp')
    r = run([CXX, '-std=c++17', '-w', *INC, '-fsyntax-only', '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=C4::Json::Status', src])
    if r.returncode:
        raise AnalysisBroken('status.cpp does not compile: ' + r.stderr[:1500])
    dec = json.JSONDecoder()
    s, k, out = r.stdout, 0, []
    while k < len(s):
        while k < len(s) and s[k] != '{':
            k += 1
        if k >= len(s):
            break
        o, k = dec.raw_decode(s, k)
        if o.get('kind') == 'EnumDecl' and o.get('name') == 'Status' and o.get('inner'):
            v = -1
            for e in o['inner']:
                if e.get('kind') != 'EnumConstantDecl':
                    continue
                v += 1

                def val(x):
                    if 'value' in x and x.get('kind') in ('ConstantExpr', 'IntegerLiteral'):
                        return int(x['value'])
                    for y in x.get('inner', []):
                        z = val(y)
                        if z is not None:
                            return z
                z = val(e)
                if z is not None:
                    v = z
                out.append((e['name'], v, e.get('loc', {}).get('line')))
            return out
    raise AnalysisBroken('enumeration C4::Json::Status not found')


class Prop:
    """Conditional constant propagation of one constant argument; memory is a map of slots, unknown values are None."""

    def __init__(self, m):
        self.m, self.F, self.G = m, m['functions'], m['globals']
        self.strings, self.issues, self.unknown = set(), [], []
        self.steps = 0

    def gload(self, g, off, size):
        x = self.G.get(g)
        if x is None or not x['const']:
            return None
        if off < 0 or off + size > x['size']:
            self.issues.append('reads at byte %d of %s, which has %d bytes' % (off, x['dem'], x['size']))
            return None
        v = 0
        for o, s, val in x['init']:
            if o == off and val[0] == 'g':
                return ('g', val[1], val[2] if len(val) > 2 else 0)
            if o == off and s == size and val[0] == 'c':
                return int(val[2])
            if off <= o < off + size and val[0] == 'c':
                v |= (int(val[2]) & (1 << 8 * s) - 1) << 8 * (o - off)
        return v

    def run(self, fn, args, mem, depth=0):
        f = self.F[fn]
        reg = dict(enumerate(args))
        st = [(0, None, reg, mem)]
        seen = set()
        rets = set()

        def val(o, reg):
            if o[0] == 'v':
                return reg.get(o[1])
            if o[0] == 'c':
                return int(o[2])
            if o[0] == 'g':
                return ('g', o[1], int(o[2]) if len(o) > 2 else 0)
            if o[0] in ('n', 'z'):
                return 0
            return None
        while st:
            bn, prev, reg, mem = st.pop()
            key = (bn, prev)
            if key in seen:
                self.unknown.append('loop in %s' % f['dem'])
                continue
            seen.add(key)
            for i in f['blocks'][bn]:
                self.steps += 1
                op = i['op']
                r = None
                a = [val(o, reg) for o in i.get('a', [])] if op != 'phi' else []
                if op == 'phi':
                    x = next((x[1] for x in i['in'] if x[0] == prev), None)
                    r = val(x, reg) if x else None
                elif op == 'alloca':
                    r = ('s', (fn, depth, i['d']), 0)
                elif op == 'load':
                    p = a[0]
                    if isinstance(p, tuple) and p[0] == 'g':
                        r = self.gload(p[1], p[2], i['size'])
                    elif isinstance(p, tuple):
                        r = mem.get(p)
                elif op == 'store':
                    if isinstance(a[1], tuple):
                        mem[a[1]] = a[0]
                    else:
                        pass
                elif op == 'getelementptr':
                    p = a[0]
                    if isinstance(p, tuple) and i.get('ok'):
                        off = p[2] + i.get('off', 0)
                        for x in i.get('idx', []):
                            y = val(x[1], reg)
                            sc = int(x[0])
                            if y is None:
                                off = None
                                break
                            w = int(x[2][1:])
                            if y >> (w - 1) & 1:
                                y -= 1 << w
                            off += y * sc
                        r = None if off is None else (p[0], p[1], off)
                elif op in ('zext', 'bitcast', 'freeze', 'trunc', 'sext', 'ptrtoint', 'inttoptr'):
                    r = a[0]
                    if op == 'trunc' and isinstance(r, int):
                        r &= (1 << int(i['ty'][1:])) - 1
                elif op in ('add', 'sub', 'mul', 'and', 'or', 'shl', 'lshr') and all(isinstance(x, int) for x in a):
                    w = int(i['ty'][1:])
                    x, y = a
                    r = dict(add=x + y, sub=x - y, mul=x * y, shl=x << (y & 63), lshr=x >> (y & 63)).get(op) if op not in ('and', 'or') else (x & y if op == 'and' else x | y)
                    r &= (1 << w) - 1
                elif op == 'icmp' and all(isinstance(x, int) for x in a):
                    w = int(i['oty'][1:]) if i['oty'][0] == 'i' else 64
                    x, y = [v & (1 << w) - 1 for v in a]
                    if i['p'][0] == 's':
                        x, y = [v - (1 << w) if v >> (w - 1) else v for v in (x, y)]
                    p = i['p'] if i['p'] in ('eq', 'ne') else i['p'][1:]
                    r = int(dict(eq=x == y, ne=x != y, gt=x > y, lt=x < y, ge=x >= y, le=x <= y)[p])
                elif op == 'select':
                    if isinstance(a[0], int):
                        r = a[1] if a[0] & 1 else a[2]
                elif op in ('call', 'invoke'):
                    c = i['fn'][1] if i['fn'][0] == 'g' else ''
                    ops = i.get('a', [])
                    strs = [v for v in a if isinstance(v, tuple) and v[0] == 'g' and self.text(v) is not None]
                    if c.startswith('llvm.'):
                        pass
                    elif strs and 'String<' in self.F.get(c, {}).get('dem', ''):
                        for v in strs:
                            self.strings.add((self.text(v), i.get('l')))
                    elif 'String<' in self.F.get(c, {}).get('dem', '') and any(v == 0 and i2[1] == 'p' for v, i2 in zip(a, [(0, x[0]) for x in self.F[c]['args']])):
                        self.issues.append('uses a null text')
                    elif c in self.F and not self.F[c]['decl'] and depth < 6:
                        rs = self.run(c, a, mem, depth + 1)
                        r = next(iter(rs)) if len(rs) == 1 else None
                    if op == 'invoke':
                        if 'd' in i:
                            reg[i['d']] = r
                        st.append((i['n'], bn, dict(reg), dict(mem)))
                        break
                elif op == 'br':
                    if len(i['t']) == 1:
                        st.append((i['t'][0], bn, reg, mem))
                    elif isinstance(a[0], int):
                        st.append((i['t'][0] if a[0] & 1 else i['t'][1], bn, reg, mem))
                    else:
                        st += [(t, bn, dict(reg), dict(mem)) for t in i['t']]
                    break
                elif op == 'switch':
                    if isinstance(a[0], int):
                        st.append((next((x[1] for x in i['cases'] if int(x[0]) == a[0]), i['def']), bn, reg, mem))
                    else:
                        st += [(t, bn, dict(reg), dict(mem)) for t in {x[1] for x in i['cases']} | {i['def']}]
                    break
                elif op == 'ret':
                    rets.add(a[0] if a else None)
                if 'd' in i:
                    reg[i['d']] = r
        return rets

    def text(self, p):
        x = self.G.get(p[1])
        if not x or not x['const'] or x['decl'] or any(v[0] != 'c' or s != 1 for o, s, v in x['init']):
            return None
        b = bytearray(x['size'])
        for o, s, v in x['init']:
            b[o] = int(v[2]) & 255
        b = bytes(b[p[2]:]) if 0 <= p[2] < len(b) else b''
        k = b.find(0)
        return b[:k].decode('latin1') if k >= 0 else None


def check():
    c = Check('P06')
    es = enumerators()
    m = module(['api.cpp', 'status.cpp'])
    F = m['functions']
    fn = next((n for n, f in F.items() if f['dem'].startswith('C4::Json::StatusToString(') and not f['decl']), None)
    if fn is None:
        raise AnalysisBroken('StatusToString not found')
    f = F[fn]
    got = {}
    steps = 0
    for name, v, line in es:
        p = Prop(m)
        args = [('s', ('caller', 0, k), 0) for k in range(len(f['args']))]
        mem = {args[-1]: v}
        if f['args'][-1][0] == 'i32':
            args[-1] = v
        p.run(fn, args, mem)
        steps += p.steps
        for t in p.issues:
            c.violation('bounds|' + name, 'P06: converting %s %s (%s:%s)' % (name, t, rel(f['file']), f['line']))
        texts = {t for t, _ in p.strings}
        if p.issues:
            continue
        if len(texts) != 1:
            c.undecided.append('%s: the message is not a single constant (%s)' % (name, sorted(texts)[:3]))
            continue
        t = texts.pop()
        if not t:
            c.violation('empty|' + name, 'P06: %s converts to an empty message (%s:%s)' % (name, rel(f['file']), f['line']))
        elif len(t) > 255:
            c.violation('long|' + name, 'P06: the message of %s is cut off (%d bytes)' % (name, len(t)))
        if t and t in got:
            c.violation('same|%s' % name, 'P06: %s and %s convert to the same message "%s" (%s:%s)' % (name, got[t], t, rel(f['file']), f['line']))
        got.setdefault(t, name)
    # messages exchanged between two statuses: each fits the other's name strictly better
    import re
    fit = {}
    texts = {n: t for t, n in got.items() if t}
    for n in texts:
        nw = {w.lower()[:5] for w in re.findall('[A-Z][a-z]+', n)}
        for k, t in texts.items():
            tw = {w.lower()[:5] for w in re.findall("[A-Za-z]+", t)}
            fit[n, k] = len(nw & tw) / (len(nw | tw) or 1)
    for n in texts:
        for k in texts:
            if n < k and fit[n, k] > fit[n, n] and fit[k, n] > fit[k, k]:
                c.violation('swap|%s|%s' % (n, k), 'P06: the messages of %s ("%s") and %s ("%s") are exchanged (%s:%s)' % (n, texts[n], k, texts[k], rel(f['file']), f['line']))
    vals = {}
    for name, v, line in es:
        if v in vals:
            c.violation('value|' + name, 'P06: %s and %s are the same status value %d (enumeration Status)' % (name, vals[v], v))
        vals[v] = name
    # every constant status the library returns is one of the enumerators
    c.coverage = dict(enumerators=len(es), messages=len(got), instructions_evaluated=steps,
                      rule='for each enumerator the constant text reaching the result of StatusToString is unique, non-empty and read inside its table')
    c.finish('Conditional constant propagation of each enumerator through StatusToString and its callees over the constant tables.')
