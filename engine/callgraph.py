"""Call graph over the dumped module; indirect calls resolve to address-taken functions of the same arity."""
from collections import defaultdict, deque


class Graph:
    def __init__(self, m):
        self.m = m
        self.F = m['functions']
        self.G = m['globals']
        # functions stored in (virtual) tables, with arity
        self.taken = defaultdict(set)
        for g in self.G.values():
            for off, size, v in g['init']:
                if v[0] == 'g' and v[1] in self.F:
                    f = self.F[v[1]]
                    self.taken[(len(f['args']), f['ret'])].add(v[1])
        for n, f in self.F.items():
            for b in f['blocks']:
                for i in b:
                    ops = list(i.get('a', []))
                    if i['op'] == 'phi':
                        ops += [x[1] for x in i['in']]
                    for o in ops:
                        if o[0] == 'g' and o[1] in self.F:
                            g = self.F[o[1]]
                            self.taken[(len(g['args']), g['ret'])].add(o[1])
        self.calls = {}   # fn -> list of (instr, set of callees)
        for n, f in self.F.items():
            out = []
            for b in f['blocks']:
                for i in b:
                    if i['op'] in ('call', 'invoke'):
                        fn = i['fn']
                        if fn[0] == 'g':
                            out.append((i, {fn[1]}))
                        elif fn[0] == 'v':
                            out.append((i, set(self.taken.get((len(i['a']), i.get('ty', 'v')), ()))))
            self.calls[n] = out

    def reach(self, roots):
        """set of reachable functions with a predecessor map"""
        pred = {r: None for r in roots if r in self.F}
        q = deque(pred)
        while q:
            n = q.popleft()
            for i, cs in self.calls.get(n, ()):
                for c in cs:
                    if c in self.F and c not in pred:
                        pred[c] = (n, i)
                        q.append(c)
        return pred

    def path(self, pred, n):
        p = []
        while n is not None:
            x = pred[n]
            p.append(self.F[n]['dem'] + (' (%s:%s)' % (x[1].get('f', '?'), x[1].get('l', '?')) if x else ''))
            n = x[0] if x else None
        return ' <- '.join(p)

    def cstr(self, name, off=0):
        g = self.G.get(name)
        if not g or not g['const']:
            return None
        b = bytearray(g['size'])
        for o, s, v in g['init']:
            if v[0] == 'c' and s == 1:
                b[o] = int(v[2]) & 255
        b = bytes(b[off:])
        k = b.find(0)
        return b[:k].decode('latin1') if k >= 0 else None
