"""nodes of an index image are read in the layout they were written in, and walked completely"""
from absint import Client, Engine
from c01 import loops

ENTRY = {'struct.inode_s': 1, 'struct.inode_long_s': 2}          # node layout -> node type
DICT = {'struct.encoded_token_dict_entry_s': 1, 'struct.encoded_token_dict_entry_long_s': 2}
ALL = frozenset((0, 1, 2, 3))
FLIP = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'eq': 'eq', 'ne': 'ne'}
NOT = {'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'eq': 'ne', 'ne': 'eq'}
CASTS = ('zext', 'sext', 'trunc', 'bitcast', 'freeze')


def sty(x):
    return (x.d['gep']['sty'] or '').lstrip('%').strip('"')


class Fun:
    """values of one function by structure"""
    memo = {}

    def __init__(self, P, f):
        self.P = P; self.f = f; self._k = {}; self._types = {}
        self.loops = loops(f)

    @classmethod
    def of(cls, P, f):
        if (id(P), f.name) not in cls.memo:
            cls.memo[(id(P), f.name)] = cls(P, f)
        return cls.memo[(id(P), f.name)]

    def I(self, v):
        return self.f.insts[v[1]] if isinstance(v, tuple) and v[0] == 'i' else None

    def strip(self, v):
        x = self.I(v)
        while x is not None and x.op in CASTS:
            v = x.a[0]; x = self.I(v)
        return v

    def key(self, v, d=0):
        """structural name of a value; loads of the same address have the same name"""
        v = self.strip(v)
        x = self.I(v)
        if x is None:
            return ('c', v[1]) if v[0] == 'c' else tuple(v)
        if x.i in self._k:
            return self._k[x.i]
        if d > 12:
            return ('i', x.i)
        if x.op == 'load':
            k = ('ld', self.key(x.a[0], d + 1))
        elif x.op == 'getelementptr':
            b = self.key(x.a[0], d + 1); off = x.d['gep']['off']
            var = tuple((self.key(i, d + 1), s) for i, s in x.d['gep'].get('var', ()))
            if off is None:
                k = ('i', x.i)
            elif b[0] == 'g+':
                k = ('g+', b[1], b[2] + off, b[3] + var)
            elif not off and not var:
                k = b
            else:
                k = ('g+', b, off, var)
        elif x.op == 'phi':
            ks = {self.strip(a) for a, b in x.d['phi'] if a[0] != 'u' and a != ('i', x.i)}
            k = self.key(list(ks)[0], d + 1) if len(ks) == 1 and not self.header(x.blk) else ('i', x.i)
        elif x.op in ('add', 'sub', 'mul', 'lshr', 'and', 'or', 'shl', 'udiv'):
            k = (x.op, self.key(x.a[0], d + 1), self.key(x.a[1], d + 1))
        elif x.is_call and x.d['fn'][0] == 'f' and len(x.a) == 1 and self.getter(x) is not None:
            k = subst(self.getter(x), [self.key(a, d + 1) for a in x.a])
        else:
            k = ('i', x.i)
        self._k[x.i] = k
        return k

    def getter(self, x):
        """a small function that only returns a part of its argument"""
        g = self.P.F.get(x.d['fn'][1])
        if g is None or not g.repo or len(g.insts) > 12 or any(i.is_call or i.op == 'store' for i in g.insts.values()):
            return None
        rs = [i for i in g.insts.values() if i.op == 'ret' and i.a]
        if len(rs) != 1:
            return None
        k = Fun.of(self.P, g).key(rs[0].a[0])
        return k if base(k)[0] == 'a' else None

    def header(self, b):
        return any(h == b for l, h in self.loops)

    # ---- node type tests
    def typed(self, v, d=0):
        """(node key) when v is the type of a node"""
        v = self.strip(v); x = self.I(v)
        if x is None or d > 6:
            return None
        if x.op == 'and' and x.a[1][0] == 'c' and x.a[1][1] == 3:
            y = self.I(self.strip(x.a[0]))
            if y is not None and y.op == 'load':
                return self.key(y.a[0])
        if x.op == 'phi':
            ks = {self.typed(a, d + 1) for a, b in x.d['phi']}
            return ks.pop() if len(ks) == 1 else None
        if x.is_call and x.d['fn'][0] == 'f':
            g = self.P.F.get(x.d['fn'][1])
            if g is not None and g.repo and len(g.insts) <= 12:
                rs = [i for i in g.insts.values() if i.op == 'ret' and i.a]
                if len(rs) == 1:
                    k = Fun.of(self.P, g).typed(rs[0].a[0], d + 1)
                    if k is not None and base(k)[0] == 'a':
                        return subst(k, [self.key(a) for a in x.a])
        return None

    def test(self, v, d=0):
        """(node key, type, sense) when the truth of v says whether a node has that type"""
        x = self.I(v)
        if x is None or d > 6:
            return None
        if x.op == 'icmp' and x.d['p'] in ('eq', 'ne'):
            for a, b in ((0, 1), (1, 0)):
                if x.a[b][0] == 'c':
                    k = self.typed(x.a[a])
                    if k is not None:
                        return k, x.a[b][1], x.d['p'] == 'eq'
                    t = self.test(self.strip(x.a[a]), d + 1)
                    if t is not None and x.a[b][1] in (0, 1):
                        return t[0], t[1], t[2] == ((x.a[b][1] == 1) == (x.d['p'] == 'eq'))
        if x.op in CASTS:
            return self.test(x.a[0], d + 1)
        if x.op == 'xor' and x.a[1][0] == 'c':
            t = self.test(x.a[0], d + 1)
            return t and (t[0], t[1], not t[2])
        if x.is_call and x.d['fn'][0] == 'f':
            g = self.P.F.get(x.d['fn'][1])
            if g is not None and g.repo and len(g.insts) <= 14:
                rs = [i for i in g.insts.values() if i.op == 'ret' and i.a]
                if len(rs) == 1:
                    t = Fun.of(self.P, g).test(rs[0].a[0], d + 1)
                    if t is not None and base(t[0])[0] == 'a':
                        return subst(t[0], [self.key(a) for a in x.a]), t[1], t[2]
        return None

    def types(self, key, start=ALL):
        """possible types of a node at the start of every block"""
        if (key, start) in self._types:
            return self._types[(key, start)]
        f = self.f
        at = {0: start}; work = [0]
        born = insts(key)
        while work:
            b = work.pop()
            s = at[b]
            for x in f.blocks[b]:
                if x.i in born or (x.op == 'store' and key[0] == 'ld' and self.key(x.a[1]) == key[1]):
                    s = ALL
            t = f.blocks[b][-1]
            for n, s2 in self.edges(t, key, s):
                if not s2:
                    continue
                u = at.get(n, frozenset()) | s2
                if u != at.get(n):
                    at[n] = u; work.append(n)
        self._types[(key, start)] = at
        return at

    def edges(self, t, key, s):
        f = self.f; b = t.blk
        if t.op == 'br' and t.a:
            c = self.test(t.a[0])
            if c is not None and c[0] == key:
                y, n = (s & {c[1]}, s - {c[1]}) if c[2] else (s - {c[1]}, s & {c[1]})
                return [(t.d['s'][0], y), (t.d['s'][1], n)]
        if t.op == 'switch' and self.typed(t.a[0]) == key:
            out = []; cs = t.d.get('cases') or ()
            vals = set()
            for v, n in cs:
                v = v[1] if isinstance(v, tuple) else v
                vals.add(v); out.append((n, s & {v}))
            out.append((t.d['def'] if 'def' in t.d else t.d['s'][0], s - vals))
            return out
        return [(n, s) for n in f.succ[b]]

    def at(self, x, key, start=ALL):
        s = self.types(key, start).get(x.blk)
        if s is None:
            return frozenset()
        for y in self.f.blocks[x.blk]:
            if y.i == x.i:
                break
            if y.i in insts(key) or (y.op == 'store' and key[0] == 'ld' and self.key(y.a[1]) == key[1]):
                s = ALL
        return s


def insts(k):
    if not isinstance(k, tuple):
        return set()
    if len(k) == 2 and k[0] == 'i':
        return {k[1]}
    out = set()
    for e in k:
        out |= insts(e)
    return out


def base(k):
    while k[0] in ('ld', 'g+'):
        k = k[1]
    return k


def subst(k, actual):
    """the key of a callee as a key of the caller; None when it depends on its locals"""
    if k[0] == 'a':
        return actual[k[1]] if k[1] < len(actual) else None
    if k[0] == 'ld':
        b = subst(k[1], actual)
        return None if b is None else ('ld', b)
    if k[0] == 'g+':
        b = subst(k[1], actual)
        if b is None or any(insts(v) for v, s in k[3]):
            return None
        if b[0] == 'g+':
            return ('g+', b[1], b[2] + k[2], b[3] + k[3])
        return ('g+', b, k[2], k[3])
    return k if k[0] in ('g', 'c', 'f') else None


def source(F, v, seen=()):
    """node entries a pointer points into: [(layout type, node key, [index values], access inst)]"""
    v = F.strip(v); x = F.I(v)
    if x is None or v in seen:
        return []
    if x.op == 'getelementptr':
        s = sty(x)
        if s in ENTRY and any(p[0] == 's' and p[2] == 1 for p in x.d['gep']['path'][1:2]):
            idx = [i for i, _ in x.d['gep'].get('var', ())]
            return [(ENTRY[s], F.key(x.a[0]), idx, x)]
        idx = [i for i, st in x.d['gep'].get('var', ())]
        return [(t, k, i + idx, g) for t, k, i, g in source(F, x.a[0], seen + (v,))]
    if x.op in ('phi', 'select'):
        vs = [a for a, b in x.d['phi']] if x.op == 'phi' else x.a[1:]
        return [r for a in vs for r in source(F, a, seen + (v,))]
    return []


def lin(F, v, phis=None):
    """linear form {term: coefficient}"""
    v = F.strip(v); x = F.I(v)
    if v[0] == 'c':
        return {None: v[1]} if v[1] else {}
    if x is not None and x.op in ('add', 'sub'):
        a, b = lin(F, x.a[0]), lin(F, x.a[1])
        s = 1 if x.op == 'add' else -1
        r = dict(a)
        for t, c in b.items():
            r[t] = r.get(t, 0) + s * c
        return {t: c for t, c in r.items() if c}
    if x is not None and x.op in ('mul', 'shl'):
        for p, q in ((0, 1), (1, 0)):
            if x.a[q][0] == 'c' and (x.op == 'mul' or q == 1):
                m = x.a[q][1] if x.op == 'mul' else 1 << x.a[q][1]
                return {t: c * m for t, c in lin(F, x.a[p]).items()}
    if x is not None and x.op == 'or' and x.d.get('disjoint'):
        pass
    return {F.key(v): 1}


def is_size(k):
    """the number of entries of a node"""
    return isinstance(k, tuple) and k[0] in ('lshr', 'udiv') and k[1][0] == 'ld' and k[2] in (('c', 2), ('c', 4))


def innermost(F, b):
    ls = [(len(body), h, body) for (l, h), body in F.loops.items() if b in body]
    if not ls:
        return None
    n, h, body = min(ls, key=lambda t: t[0])
    body = set().union(*[bd for (l, hh), bd in F.loops.items() if hh == h])
    return h, body


def variant(F, v, body, seen=()):
    x = F.I(v)
    if x is None or v in seen or x.blk not in body:
        return False
    if x.op in ('load', 'phi') or x.is_call:
        return True
    return any(variant(F, a, body, seen + (v,)) for a in ops(x))


def ops(x):
    return list(x.a) + ([i for i, s in x.d['gep'].get('var', ())] if x.op == 'getelementptr' else [])


def derefs(F):
    """(inst, pointer) of every use of the content of node entries"""
    for x in F.f.insts.values():
        if x.op == 'load':
            yield x, x.a[0]
        elif x.is_call:
            for a in x.a:
                if a[0] == 'i':
                    yield x, a


def back(F, h, body, phi):
    """(initial values, values at the end of an iteration) of a phi at the head of a loop"""
    ini = [a for a, b in phi.d['phi'] if b not in body]
    nxt = [a for a, b in phi.d['phi'] if b in body]
    return ini, nxt


def leaves(F, v, body, stop, seen=()):
    """[(value, block it comes from)] through the joins inside of a loop"""
    x = F.I(v)
    if x is None or x.op != 'phi' or x.blk not in body or x.i in stop or v in seen:
        return [(v, None)]
    out = []
    for a, b in x.d['phi']:
        for w, c in leaves(F, a, body, stop, seen + (v,)):
            out.append((w, b if c is None else c))
    return out


def signs(F, cv, body):
    """possible signs of a comparison result at the start of every block"""
    f = F.f; x = F.I(cv); ALLS = frozenset('-0+')
    at = {x.blk: ALLS}; work = [x.blk]
    while work:
        b = work.pop(); s = at[b]; t = f.blocks[b][-1]
        outs = [(n, s) for n in f.succ[b]]
        if t.op == 'br' and t.a:
            c = F.I(t.a[0])
            if c is not None and c.op == 'icmp' and F.strip(c.a[0]) == cv and c.a[1][0] == 'c' and c.a[1][1] in (0, -1, 1):
                k = c.a[1][1]; p = c.d['p']
                rep = {'-': -2 if k != -1 else -1, '0': 0, '+': 2 if k != 1 else 1}
                op = {'eq': lambda a: a == k, 'ne': lambda a: a != k, 'slt': lambda a: a < k, 'sle': lambda a: a <= k,
                      'sgt': lambda a: a > k, 'sge': lambda a: a >= k}.get(p)
                if op:
                    y = frozenset(z for z in s if op(rep[z]))
                    outs = [(t.d['s'][0], y), (t.d['s'][1], s - y)]
        for n, s2 in outs:
            if n in body and n != x.blk and s2:
                u = at.get(n, frozenset()) | s2
                if u != at.get(n):
                    at[n] = u; work.append(n)
    return at


def compare_kind(P, x, d=0):
    """how a call compares two tokens"""
    if x.d['fn'][0] != 'f':
        return None
    n = x.d['fn'][1]; g = P.F.get(n)
    short = g.short if g else n
    if short in ('memcmp', 'bcmp'):
        return ('memcmp', x.a[2][1] if x.a[2][0] == 'c' else None)
    if g is not None and g.repo and d < 4:
        ks = {compare_kind(P, y, d + 1) for y in g.insts.values() if y.is_call} - {None}
        if len(ks) == 1:
            return ks.pop()
        if not ks and g.insts and d == 0 and any(y.op == 'icmp' for y in g.insts.values()):
            return ('own', g.short)
    return None


def depends(F, v, phis, seen=()):
    v = F.strip(v); x = F.I(v)
    if x is None or v in seen:
        return set()
    if x.i in phis:
        return {x.i}
    if x.op in ('add', 'sub', 'sdiv', 'udiv', 'lshr', 'ashr', 'select'):
        return set().union(*[depends(F, a, phis, seen + (v,)) for a in x.a])
    return set()


def search(P, F, rep, what):
    """binary searches of the function: [(kind of comparison, problems)]"""
    f = F.f; out = []
    for h in {h for l, h in F.loops}:
        body = set().union(*[b for (l, hh), b in F.loops.items() if hh == h])
        phis = {x.i: x for x in f.blocks[h] if x.op == 'phi' and x.t in ('i32', 'i64')}
        if len(phis) < 2:
            continue
        mids = [x for b in body for x in f.blocks[b]
                if x.op in ('sdiv', 'udiv', 'lshr', 'ashr') and x.a[1][0] == 'c' and len(depends(F, ('i', x.i), phis)) == 2]
        if not mids:
            continue
        lo_hi = depends(F, ('i', mids[0].i), phis)
        # the middle: lo + (hi - lo) / 2 or (lo + hi) / 2
        d = mids[0]
        num = lin(F, d.a[0])
        ks = {i: F.key(('i', i)) for i in lo_hi}
        cs = {i: num.get(ks[i], 0) for i in lo_hi}
        if sorted(cs.values()) == [-1, 1] and set(num) <= set(ks.values()):
            lo = [i for i in lo_hi if cs[i] == -1][0]; hi = [i for i in lo_hi if cs[i] == 1][0]
            mid = [x for b in body for x in f.blocks[b] if x.op == 'add' and {F.strip(x.a[0]), F.strip(x.a[1])} == {('i', lo), ('i', d.i)}]
            if not mid:
                continue
            m = mid[0]
        elif sorted(cs.values()) == [1, 1] and set(num) <= set(ks.values()):
            m = d; lo = hi = None
        else:
            continue
        conds = [(f.insts[t.a[0][1]], t) for b in body for t in [f.blocks[b][-1]]
                 if t.op == 'br' and t.a and t.a[0][0] == 'i' and f.insts[t.a[0][1]].op == 'icmp'
                 and {F.strip(a) for a in f.insts[t.a[0][1]].a} == {('i', i) for i in lo_hi}]
        if len(conds) != 1:
            continue
        c, t = conds[0]
        p = c.d['p']; l, r = F.strip(c.a[0])[1], F.strip(c.a[1])[1]
        if t.d['s'][0] not in body:
            p = NOT[p]
        if p[1:] in ('gt', 'ge'):
            p = FLIP[p]; l, r = r, l
        if p[1:] not in ('lt', 'le'):
            continue
        lo, hi = l, r
        closed = p[1:] == 'le'
        probs = []
        ini, nxt = back(F, h, body, phis[lo])
        if any(lin(F, a) != {} for a in ini):
            probs.append('does not start at the first entry')
        ini, nxt2 = back(F, h, body, phis[hi])
        for a in ini:
            L = lin(F, a)
            terms = [k for k in L if k is not None]
            if len(terms) == 1 and L[terms[0]] == 1:
                c0 = L.get(None, 0)
                want = (-1,) if closed else (0,)
                if c0 not in want:
                    probs.append('does not start with the last entry' if c0 < want[0] else 'starts beyond the last entry')
        mk = F.key(('i', m.i))
        calls = [x for b in body for x in f.blocks[b] if x.is_call and x.d['fn'][0] == 'f' and compare_kind(P, x) is not None]
        sg = None; rev = False
        if len(calls) == 1 and calls[0].t == 'i32':
            x = calls[0]
            sg = signs(F, ('i', x.i), body)
            dep = [k for k, a in enumerate(x.a[:2]) if a[0] == 'i' and uses(F, a, m.i)]
            if len(dep) == 1:
                rev = dep[0] == 1
            else:
                sg = None
        for which, phi, vals in (('lo', phis[lo], nxt), ('hi', phis[hi], nxt2)):
            for v0 in vals:
                for v, blk in leaves(F, v0, body, {lo, hi}):
                    v = F.strip(v)
                    if v == ('i', phi.i):
                        continue
                    L = lin(F, v)
                    L = {k: L.get(k, 0) - lin(F, ('i', m.i)).get(k, 0) for k in set(L) | set(lin(F, ('i', m.i)))}
                    L = {k: c for k, c in L.items() if c}
                    if set(L) - {None}:
                        continue
                    c0 = L.get(None, 0)
                    want = {'lo': 1, 'hi': -1 if closed else 0}[which]
                    if c0 != want:
                        probs.append('leaves out an entry next to the middle' if abs(c0) > abs(want) or c0 * want < 0 else 'need not end')
                    if sg is not None:
                        src = F.I(v)
                        at = sg.get(blk if blk is not None else src.blk)
                        at2 = sg.get(src.blk) if src is not None and src.blk in body and src.i != m.i else None
                        s = (at or frozenset('-0+')) & (at2 or frozenset('-0+'))
                        if rev:
                            s = frozenset({'-': '+', '+': '-', '0': '0'}[z] for z in s)
                        wrong = {'lo': '+', 'hi': '-'}[which]
                        if s and s <= {wrong}:
                            probs.append('goes on with the wrong half')
        kinds = {compare_kind(P, x) for x in calls}
        out.append((h, kinds, probs))
    return out


def uses(F, v, i, seen=()):
    x = F.I(v)
    if x is None or v in seen:
        return False
    if x.i == i:
        return True
    return any(uses(F, a, i, seen + (v,)) for a in ops(x) if isinstance(a, tuple) and a[0] == 'i')


def offsets(P, F, v, narrow=False, seen=()):
    """where an offset comes from: [(layout, node key in this function or None, narrowed)]"""
    x = F.I(v)
    if x is None:
        return []
    if v in seen:
        return []
    seen = seen + (v,)
    if x.op == 'trunc':
        return offsets(P, F, x.a[0], True, seen)
    if x.op in CASTS:
        return offsets(P, F, x.a[0], narrow, seen)
    if x.op in ('phi', 'select'):
        vs = [a for a, b in x.d['phi']] if x.op == 'phi' else x.a[1:]
        return [r for a in vs for r in offsets(P, F, a, narrow, seen)]
    if x.op == 'load':
        return [(t, k, narrow) for t, k, i, g in source(F, x.a[0])]
    if x.is_call and x.d['fn'][0] == 'f':
        g = P.F.get(x.d['fn'][1])
        if g is not None and g.repo and g.insts and len(seen) < 12:
            G = Fun.of(P, g); out = []
            for r in g.insts.values():
                if r.op == 'ret' and r.a:
                    for t, k, n in offsets(P, G, r.a[0], narrow, ()):
                        out.append((t, subst(k, [F.key(a) for a in x.a]) if k else None, n or narrow))
            return out
    return []


class Writer(Client):
    """q = (type of the node that is being written, known upper bounds of differences)"""
    name = 'index node writer'
    callbacks = False

    def __init__(self, P, sizes, limit):
        self.P = P; self.probs = {}; self.sizes = sizes; self.heads = set(); self.entries = set(); self.limit = limit; self.leaves = 0

    def init_q(self):
        return (None, None, frozenset())

    def relevant(self, eng, f):
        return f.short != 'memsector_write'

    def low(self, v):
        if v is None:
            return None
        if v[0] == 'k':
            return v[1] & 3
        if v[0] == 'op' and v[1] in ('or', 'and', 'xor', 'add'):
            if v[1] == 'and':
                for a, b in ((v[2], v[3]), (v[3], v[2])):
                    if b[0] == 'k' and b[1] & 3 == 0:
                        return 0
            a, b = self.low(v[2]), self.low(v[3])
            if a is None or b is None:
                return None
            return {'or': a | b, 'and': a & b, 'xor': a ^ b, 'add': (a + b) & 3}[v[1]]
        if v[0] == 'op' and v[1] == 'shl' and v[3][0] == 'k' and v[3][1] >= 2:
            return 0
        if v[0] == 'op' and v[1] == 'mul' and v[3][0] == 'k' and v[3][1] % 4 == 0:
            return 0
        if v[0] == 'op' and v[1] in ('zext', 'sext', 'trunc'):
            return self.low(v[3])
        return None

    def branch(self, eng, st, inst, cond, taken):
        self.note(st, cond, taken)

    picked = branch

    def note(self, st, c, taken):
        if not isinstance(c, tuple):
            return
        if c[0] == 'not':
            return self.note(st, c[1], not taken)
        if c[0] == 'cmp' and c[2][0] == 'op' and c[2][1] == 'trunc' and c[2][2] == 1 and c[3] == ('k', 0):
            return self.note(st, c[2][3], taken == (c[1] == 'ne'))
        if c[0] == 'op' and c[1] in ('trunc', 'zext'):
            return self.note(st, c[3], taken)
        if c[0] == 'cmp' and c[1] in ('eq', 'ne') and c[3] == ('k', 0) and c[2][0] in ('cmp', 'not', 'op') and (c[2][0] != 'op' or c[2][1] in ('zext', 'trunc')):
            return self.note(st, c[2], taken == (c[1] == 'ne'))
        if c[0] != 'cmp':
            return
        p = c[1] if taken else NOT[c[1]]
        t, top, known = st.q
        if ((NOT[p],) + tuple(c[2:])) in known:
            st.q = ('dead', None, known)
            return
        if c[2][0] == 'op' or c[3][0] == 'op' or c[3] == ('k', 1 << 32):
            known = known | {(p,) + tuple(c[2:])}
        if c[3][0] == 'k' and c[2][0] != 'k' and c[3][1] >= 1 << 16 and p in ('ult', 'slt', 'ule', 'sle'):
            top = min(1 << 70 if top is None else top, c[3][1] + (p[1:] == 'le'))
        st.q = (t, top, known)

    def call(self, eng, st, inst, fobj, short, args):
        if st.q[0] == 'dead':
            return []
        if short == 'memsector_write':
            n = args[2][1] if args[2][0] == 'k' else None
            o, off = eng.addr(st, args[1])
            words = {k[1]: v for k, v in st.mem.items() if k[0] == o and type(off) is int}
            where = (inst.fn.short, inst.loc())
            t = st.q[0]
            if n == 8 and type(off) is int and self.low(words.get(off)) in (1, 2, 3) and not self.isentry(inst, 8):
                t = self.low(words.get(off))
                if t == 3:
                    self.leaves += 1
                else:
                    self.heads.add(t)
                    if t == 1 and (st.q[1] is None or st.q[1] > self.limit):
                        self.probs[('short', where[0])] = '%s writes a node with short offsets without knowing that they fit (%s)' % where
                    st.q = (t, st.q[1], st.q[2])
            elif self.isentry(inst, 8) or self.isentry(inst, 12):
                lay = 1 if self.isentry(inst, 8) else 2
                self.entries.add(lay)
                if t is not None and t != lay:
                    self.probs[('entry', where[0])] = '%s writes entries with %s offsets into a node with %s ones (%s)' % (
                        where[0], 'short' if lay == 1 else 'long', 'short' if t == 1 else 'long', where[1])
                if n != self.sizes[lay]:
                    self.probs[('bytes', where[0])] = '%s writes %s bytes of an entry of %d (%s)' % (where[0], n, self.sizes[lay], where[1])
                v = words.get((off or 0) + 4) if type(off) is int else None
                if lay == 2 and narrowed(v):
                    self.probs[('narrow', where[0])] = '%s cuts a long offset to 32 bits (%s)' % where
            return [('ret', None, st)]
        return None

    def isentry(self, inst, n):
        """the written object is declared as an entry"""
        F = Fun.of(self.P, inst.fn)
        v = F.strip(inst.a[1]); x = F.I(v)
        while x is not None and x.op == 'getelementptr':
            x = F.I(F.strip(x.a[0]))
        ty = (x.d.get('ty') or '').lstrip('%').strip('"') if x is not None and x.op == 'alloca' else ''
        return DICT.get(ty) == {8: 1, 12: 2}[n]


def narrowed(v, d=0):
    if not isinstance(v, tuple) or d > 8:
        return False
    if v[0] == 'op' and v[1] == 'trunc' and v[2] <= 32 and isinstance(v[3], tuple) and v[3][0] != 'k':
        return True
    return v[0] == 'op' and any(narrowed(a, d + 1) for a in v[2:] if isinstance(a, tuple))


def run(P, rep, tier):
    rep.rule = ('For every use of the entries of an index node: the type of that node is known, from the tests on every path (also through the '
                'callers), to be the one whose layout is used; a loop over entries starts at the first one, steps by one and ends with the number '
                'of entries of the node; a binary search covers all entries and uses the order of the map the nodes are written from; an offset is '
                'used at full width and relative to the node it was read from; entries are written in the layout their node announces.')
    Fun.memo.clear()
    fns = [f for f in P.repo_fns() if f.insts and '/test' not in (f.file or '')]
    nd = nw = ns = no = 0
    for f in fns:
        if not any(x.op == 'getelementptr' and sty(x) in ENTRY for x in f.insts.values()):
            continue
        F = Fun.of(P, f)
        seen = set()
        for x, p in derefs(F):
            for t, k, idx, g in source(F, p):
                if (x.i, t, k) in seen:
                    continue
                seen.add((x.i, t, k))
                nd += 1
                other = 3 - t
                bad = guard(P, F, x, k, other, ())
                rep.ob('%s:%s reads %s entries of a node that has them' % (f.short, x.loc().split(':')[-1], 'short' if t == 1 else 'long'), not bad)
                if bad:
                    rep.viol('%s|layout %d' % (f.short, t), '%s reads the entries of a node with %s offsets, which the node need not have at %s%s' % (
                        f.short, 'short' if t == 1 else 'long', x.loc(), ' (called %s)' % ' from '.join(bad) if bad[0] else ''))
                # walks
                L = innermost(F, x.blk)
                if L is None:
                    continue
                h, body = L
                cond = exits(F, body)
                walk = any(any(is_size(kk) for kk in terms(F, c)) for c, s in cond)
                if not variant(F, p, body):
                    if walk:
                        nw += 1
                        rep.viol('%s|same entry' % f.short, '%s reads the same entry in every iteration of a walk over a node at %s' % (f.short, x.loc()))
                        rep.ob('%s walks over the entries' % f.short, False)
                    continue
                for i in idx:
                    i0 = F.strip(i); y = F.I(i0)
                    if y is None or y.op != 'phi' or y.blk != h:
                        continue
                    nw += 1
                    pr = walked(F, f, h, body, y, x)
                    rep.ob('%s: the walk over the entries at %s visits each once' % (f.short, x.loc()), not pr)
                    for m in pr:
                        rep.viol('%s|walk %s' % (f.short, m), '%s: the walk over the entries of a node at %s %s' % (f.short, x.loc(), m))
                # a pointer that walks
                q = F.strip(p); y = F.I(q)
                while y is not None and y.op == 'getelementptr' and not y.d['gep'].get('var'):
                    q = F.strip(y.a[0]); y = F.I(q)
                if y is not None and y.op == 'phi' and y.blk == h:
                    nw += 1
                    ini, nxt = back(F, h, body, y)
                    size = {1: 8, 2: 12}[t]
                    ends = [v for a in nxt for v, b in leaves(F, a, body, {y.i})]
                    rest = [v for v in ends if F.strip(v) != ('i', y.i)]
                    for v in rest or ends:
                            ka = F.key(v)
                            if not (ka[0] == 'g+' and ka[1] == ('i', y.i) and ka[2] == size and not ka[3]):
                                rep.viol('%s|step' % f.short, '%s: the walk over the entries of a node at %s does not go on to the next entry' % (f.short, x.loc()))
    # binary searches
    kinds = {}
    for f in fns:
        node = any(x.op == 'getelementptr' and sty(x) in ENTRY for x in f.insts.values())
        vmap = 'VectorMap<encoded_token_s' in (f.dem or '')
        if not node and not vmap:
            continue
        F = Fun.of(P, f)
        for h, ks, pr in search(P, F, rep, f.short):
            ns += 1
            rep.ob('%s: the search covers all entries' % f.short, not pr)
            for m in sorted(set(pr)):
                rep.viol('%s|search %s' % (f.short, m), '%s: the binary search %s (%s:%d)' % (f.short, m, f.file, f.line))
            for k in ks or {('arithmetic', 4)}:
                kinds.setdefault(k, set()).add(f.short)
        if vmap:
            for x in f.insts.values():
                if x.is_call and x.d['fn'][0] == 'f':
                    k = compare_kind(P, x)
                    if k is not None and 'VectorMap' not in P.F[x.d['fn'][1]].dem.split('(')[0]:
                        kinds.setdefault(k, set()).add(f.short)
    rep.ob('entries are looked up in the order they are written in', len(kinds) <= 1)
    if len(kinds) > 1:
        rep.viol('order', 'the entries of nodes are ordered by %s' % ' but by '.join('%s of %s bytes in %s' % (k[0], k[1], ', '.join(sorted(v))) for k, v in sorted(kinds.items(), key=str)))
    rep.stats['orders'] = len(kinds)
    # offsets
    for f in fns:
        F = Fun.of(P, f)
        for x in f.insts.values():
            if x.is_call and x.d['fn'][0] == 'f' and P.F[x.d['fn'][1]].short == 'memsector_relOff2addr':
                bk = F.key(x.a[0])
                for t, k, narrow in offsets(P, F, x.a[1]):
                    no += 1
                    rep.ob('%s: offset at %s' % (f.short, x.loc()), not (t == 2 and narrow) and k in (None, bk))
                    if t == 2 and narrow:
                        rep.viol('%s|narrow' % f.short, '%s cuts a long offset of a node to 32 bits (%s)' % (f.short, x.loc()))
                    if k is not None and k != bk and rooted(F, k) and rooted(F, bk):
                        rep.viol('%s|relative' % f.short, '%s uses an offset relative to another node than it was read from (%s)' % (f.short, x.loc()))
    units = {}
    for f in fns:
        if f.short in ('memsector_relOff2addr', 'memsector_off2addr'):
            F = Fun.of(P, f)
            for x in f.insts.values():
                if x.op == 'trunc':
                    rep.viol('%s|narrow' % f.short, '%s cuts offsets to %s (%s)' % (f.short, x.t, x.loc()))
                if x.op == 'ret' and x.a:
                    y = F.I(F.strip(x.a[0]))
                    if y is not None and y.op == 'getelementptr' and y.d['gep'].get('var') and F.strip(y.a[0]) == ('a', 0):
                        tot = {}
                        for i, s in y.d['gep']['var']:
                            for k, c in lin(F, i).items():
                                tot[k] = tot.get(k, 0) + c * s
                        units[f.short] = (tot.get(('a', 1), 0), y.d['gep']['off'] + tot.get(None, 0))
    unit = 4
    for n, (c, off) in units.items():
        ok = off == 0 and c == (-unit if n == 'memsector_relOff2addr' else unit)
        rep.ob('%s scales offsets by %d' % (n, unit), ok)
        if not ok:
            rep.viol('%s|unit' % n, '%s: an offset of one unit leads %d bytes away (plus %d)' % (n, c, off))
    for f in fns:
        if f.short == 'memsector_get_current_offset':
            F = Fun.of(P, f)
            for x in f.insts.values():
                if x.op == 'ret' and x.a:
                    y = F.I(x.a[0]); cut = False
                    while y is not None and y.op in CASTS:
                        cut = cut or y.op == 'trunc'; y = F.I(y.a[0])
                    k = F.key(x.a[0])
                    good = k[0] in ('udiv', 'lshr') and k[2] in ((('c', 4),) if k[0] == 'udiv' else (('c', 2),))
                    rep.ob('%s gives the full offset in units' % f.short, good and not cut)
                    if cut:
                        rep.viol('%s|narrow' % f.short, '%s cuts offsets to 32 bits' % f.short)
                    if not good and k[0] in ('udiv', 'lshr'):
                        rep.viol('%s|unit' % f.short, '%s does not count offsets in units of %d bytes' % (f.short, unit))
            break
    for x in shortened(P, fns):
        rep.viol('%s|narrow' % x.fn.short, '%s cuts an offset of the image to %s (%s)' % (x.fn.short, x.t, x.loc()))
    # iterators over a node
    ni = 0
    for f in fns:
        if 'IndexAccessor::getChildrenIterator' not in f.dem or 'TmpIndex' in f.dem:
            continue
        F = Fun.of(P, f)
        ends = [x for x in f.insts.values() if x.is_call and x.d['fn'][0] == 'f' and '_Iterator::_Iterator(' in P.F[x.d['fn'][1]].dem and len(x.a) == 3]
        if len(ends) < 2:
            continue
        ni += 1
        vals = [lin(F, x.a[2]) for x in ends]
        ok = sum(1 for v in vals if v == {}) >= 1 and sum(1 for v in vals if len(v) == 1 and is_size(list(v)[0]) and list(v.values()) == [1]) >= 1 and len(vals) == 2
        rep.ob('%s covers all entries' % f.short, ok)
        if not ok:
            rep.viol('%s|ends' % f.short, '%s does not go from the first entry to the number of entries of the node (%s:%d)' % (f.short, f.file, f.line))
        break
    for f in fns:
        if '_Iterator::operator++' in f.dem and 'IndexAccessor' in f.dem:
            F = Fun.of(P, f)
            for x in f.insts.values():
                if x.op == 'store':
                    k = F.key(x.a[1])
                    if base(k)[0] == 'a':
                        L = lin(F, x.a[0])
                        if ('ld', k) in L:
                            ok = L == {('ld', k): 1, None: 1}
                            ni += 1
                            rep.ob('%s goes on by one entry' % f.short, ok)
                            if not ok:
                                rep.viol('%s|step' % f.short, '%s does not go on to the next entry' % f.short)
            break
    # writers
    sizes = {t: P.ditypes[n.replace('struct.', '')]['size'] for n, t in DICT.items()}
    wr = set()
    for f in fns:
        if any(x.is_call and x.d['fn'][0] == 'f' and P.F[x.d['fn'][1]].short in ('memsector_write_inode_begin', 'memsector_write_inode_encoded_token_entry')
               for x in f.insts.values()):
            wr.add(f.name)
    nh = 0
    for n in sorted(wr):
        if len([c for c in P.callers(n) if c.fn.name in wr]):
            continue
        c = Writer(P, sizes, 1 << 32)
        e = Engine(P, c, 8)
        e.run_root(P.F[n])
        nh += len(c.heads) + len(c.entries)
        rep.ob('%s writes entries as their node announces' % P.F[n].short, not c.probs)
        for k, m in sorted(c.probs.items()):
            rep.viol('|'.join(map(str, k)), m)
    rep.need('entry_uses', nd, 6)
    rep.need('searches', ns, 1)
    rep.need('offset_uses', no, 2)
    rep.need('written_layouts', nh, 2)
    rep.stats['walks'] = nw
    rep.stats['iterators'] = ni
    rep.assumptions += ['a node keeps its type while it is used (index images are mapped read-only)']


def shortened(P, fns):
    """truncations of offsets on the way from where they are computed"""
    out = []; seen = set(); work = []

    def results(name):
        for c in P.callers(name):
            if c.fn.repo and '/test' not in (c.fn.file or ''):
                work.append((c.fn, ('i', c.i)))
    for f in fns:
        if f.short == 'memsector_get_current_offset':
            results(f.name)
    while work:
        f, v = work.pop()
        if (f.name, v) in seen:
            continue
        seen.add((f.name, v))
        for x in f.insts.values():
            if v not in x.a and not (x.op == 'phi' and any(a == v for a, b in x.d['phi'])):
                continue
            if x.op == 'trunc':
                out.append(x)
            elif x.op in ('phi', 'select', 'sub', 'add') + CASTS:
                work.append((f, ('i', x.i)))
            elif x.op == 'ret':
                results(f.name)
    return out


def rooted(F, k):
    return base(k)[0] in ('a', 'g') and not insts(k)


def guard(P, F, x, k, other, seen):
    """() when the node cannot have the other layout at x; else the chain of callers on which it can"""
    s = F.at(x, k)
    if other not in s:
        return ()
    b = base(k)
    if b[0] != 'a' or F.types(k).get(x.blk) != ALL and other not in s:
        return ('',)
    cs = [c for c in P.callers(F.f.name) if c.fn.repo and '/test' not in (c.fn.file or '')]
    if not cs or len(seen) > 4 or F.f.name in seen:
        return ('',)
    # is the type tested on all of the paths with what the callers know?
    for c in cs:
        G = Fun.of(P, c.fn)
        kk = subst(k, [G.key(a) for a in c.a])
        if kk is None:
            return (c.loc(),)
        r = guard(P, G, c, kk, other, seen + (F.f.name,))
        if r:
            return (c.loc(),) + tuple(z for z in r if z)
    return ()


def exits(F, body):
    """(condition, truth that stays) of the branches that leave a loop"""
    out = []
    for b in body:
        t = F.f.blocks[b][-1]
        if t.op == 'br' and t.a:
            ins = [s in body for s in t.d['s']]
            if ins[0] != ins[1]:
                out += conj(F, t.a[0], ins[0])
    return out


def conj(F, c, stay, d=0):
    """the conditions that all hold (a && b is a join of the constant false with b)"""
    x = F.I(c)
    out = [(c, stay)]
    if x is None or d > 6:
        return out
    if x.op == 'xor' and x.a[1][0] == 'c':
        return out + conj(F, x.a[0], not stay, d + 1)
    if x.op == ('and' if stay else 'or') and x.t == 'i1':
        return out + conj(F, x.a[0], stay, d + 1) + conj(F, x.a[1], stay, d + 1)
    if x.op == 'select' and x.t == 'i1' and x.a[2 if stay else 1][0] == 'c':
        return out + conj(F, x.a[0], stay, d + 1) + conj(F, x.a[1 if stay else 2], stay, d + 1)
    if x.op == 'phi' and x.t == 'i1':
        k = 0 if stay else 1
        rest = [(a, b) for a, b in x.d['phi'] if not (a[0] == 'c' and (a[1] & 1) == k)]
        if len(rest) == 1:
            out += conj(F, rest[0][0], stay, d + 1)
            for a, b in x.d['phi']:
                t = F.f.blocks[b][-1]
                if a[0] == 'c' and t.op == 'br' and t.a and t.d['s'][0] != t.d['s'][1]:
                    out += conj(F, t.a[0], t.d['s'][0] != x.blk, d + 1)
    return out


def consts(F, v, d=0):
    """constants a value may have"""
    v = F.strip(v); x = F.I(v)
    if v[0] == 'c':
        return {v[1]}
    if x is None or d > 6 or x.op not in ('phi', 'select'):
        return set()
    vs = [a for a, b in x.d['phi']] if x.op == 'phi' else x.a[1:]
    return set().union(*[consts(F, a, d + 1) for a in vs])


def terms(F, c):
    x = F.I(c)
    if x is None or x.op != 'icmp':
        return set()
    return set(lin(F, x.a[0])) | set(lin(F, x.a[1]))


def walked(F, f, h, body, phi, x):
    pr = []
    ini, nxt = back(F, h, body, phi)
    pk = F.key(('i', phi.i))
    steps = set()
    for a in nxt:
        for v, b in leaves(F, a, body, {phi.i}):
            L = dict(lin(F, v))
            if L.pop(pk, 0) != 1 or set(L) - {None}:
                return []           # not a walk by steps
            steps.add(L.get(None, 0))
    if steps - {1, -1} or len(steps) != 1:
        pr.append('does not go on to the next entry')
    if steps == {1}:
        if any(c for a in ini for c in consts(F, a)):
            pr.append('does not start at the first entry')
        bound = None
        for c, stay in exits(F, body):
            y = F.I(c)
            if y is None or y.op != 'icmp':
                continue
            p = y.d['p'] if stay else NOT[y.d['p']]
            a, b = lin(F, y.a[0]), lin(F, y.a[1])
            if pk in b:
                a, b = b, a; p = FLIP[p]
            if a.get(pk) != 1 or set(a) - {pk, None}:
                continue
            sz = [k for k in b if is_size(k)]
            if len(b.keys() - {None}) != 1 or not sz or b[sz[0]] != 1:
                continue
            c0 = b.get(None, 0) - a.get(None, 0)
            if p[1:] == 'lt' or p == 'ne':
                bound = c0
            elif p[1:] == 'le':
                bound = c0 + 1
            if bound is not None:
                break
        if bound is None:
            pr.append('does not end with the last entry of the node')
        elif bound != 0:
            pr.append('ends beyond the last entry' if bound > 0 else 'leaves out the last entries')
    return pr
