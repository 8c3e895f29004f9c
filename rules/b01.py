"""fixed-size tables are never accessed beyond their end: upper bounds of every computed index"""
from i07 import Fun, conj, CASTS, FLIP, NOT, base

INF = 1 << 62
BIN = ('add', 'sub', 'mul', 'lshr', 'and', 'or', 'shl', 'udiv')


def sub2(k, actual):
    """the key of a callee as a key of the caller; None when it depends on its locals"""
    if k[0] == 'a':
        return actual[k[1]] if k[1] < len(actual) else None
    if k[0] == 'c' or k[0] == 'g':
        return k
    if k[0] == 'ld':
        b = sub2(k[1], actual)
        return b and ('ld', b)
    if k[0] in BIN and len(k) == 3:
        a, b = sub2(k[1], actual), sub2(k[2], actual)
        return a and b and (k[0], a, b)
    if k[0] == 'g+':
        b = sub2(k[1], actual)
        vs = tuple((sub2(v, actual), s) for v, s in k[3])
        if b is None or any(v is None for v, s in vs):
            return None
        if b[0] == 'g+':
            return ('g+', b[1], b[2] + k[2], b[3] + vs)
        return ('g+', b, k[2], vs) if k[2] or vs else b
    return None


class Fn(Fun):
    memo = {}

    def key(self, v, d=0):
        k = Fun.key(self, v, d)
        if k[0] == 'i':
            x = self.I(k)
            if x is not None and x.is_call and x.d['fn'][0] == 'f':
                r = self.result(x)
                if r is not None:
                    k = sub2(r, [self.key(a, d + 1) for a in x.a]) or k
                    self._k[x.i] = k
        return k

    def result(self, x):
        """what a small function without effects returns, as a key"""
        g = self.P.F.get(x.d['fn'][1])
        if g is None or not g.repo or len(g.insts) > 14 or any(i.op == 'store' for i in g.insts.values()):
            return None
        rs = [i for i in g.insts.values() if i.op == 'ret' and i.a]
        if len(rs) != 1:
            return None
        return Fn.of(self.P, g).key(rs[0].a[0])


def field(F, a, d=0):
    """(struct, member) an address is of"""
    x = F.I(F.strip(a))
    if x is None or x.op != 'getelementptr':
        return None
    p = x.d['gep'].get('path') or ()
    if p and p[-1][0] == 's':
        return (p[-1][1].lstrip('%').strip('"'), p[-1][2])
    return None


def root(F, a):
    x = F.I(F.strip(a))
    while x is not None and x.op == 'getelementptr':
        a = x.a[0]; x = F.I(F.strip(a))
    return F.strip(a)


class Bounds:
    def __init__(self, P):
        self.P = P; self.inv = {}; self.grew = False
        self.cands = [0, INF]
        self.memo = {}; self.busy = set()
        self._dom = {}; self._mod = {}; self._stores = None; self._esc = {}; self._reach = {}

    # ---- stores to fields
    def stores(self, fl):
        if self._stores is None:
            self._stores = {}; self._addr = {}
            for f in self.P.repo_fns():
                F = Fn.of(self.P, f)
                for x in f.all():
                    if x.op == 'store':
                        k = field(F, x.a[1])
                        if k is not None:
                            self._stores.setdefault(k, []).append((F, x))
                    if x.op == 'getelementptr':
                        k = field(F, ('i', x.i))
                        if k is not None:
                            for u in f.uses(('i', x.i)):
                                if not (u.op == 'load' or (u.op == 'store' and u.a[1] == ('i', x.i) and u.a[0] != ('i', x.i))):
                                    self._addr.setdefault(k, []).append((F, u))
        return self._stores.get(fl, ())

    def modifies(self, name, seen=None):
        if name in self._mod:
            return self._mod[name]
        out = set(); done = set(); work = [name]
        while work:
            n = work.pop()
            if n in done:
                continue
            done.add(n)
            g = self.P.F.get(n)
            if g is None or not g.repo:
                continue
            F = Fn.of(self.P, g)
            for x in g.all():
                if x.op == 'store':
                    k = field(F, x.a[1])
                    if k is not None:
                        out.add(k)
                if x.is_call:
                    work += [getattr(c, 'name', c) for c in self.P.callees(x)]
        self._mod[name] = out
        return out

    # ---- dominating edges
    def reach(self, f, start, cut=None):
        key = (f.name, start, cut)
        if key not in self._reach:
            seen = {start}; work = [start]
            while work:
                b = work.pop()
                for s in f.succ[b]:
                    if (b, s) != cut and s not in seen:
                        seen.add(s); work.append(s)
            self._reach[key] = seen
        return self._reach[key]

    def without(self, f, b):
        """the blocks that can be reached without going through b"""
        seen = {0} - {b}; work = list(seen)
        while work:
            for s in f.succ[work.pop()]:
                if s != b and s not in seen:
                    seen.add(s); work.append(s)
        return seen

    def edges(self, f, b):
        """branch edges (block, successor, truth) every path to b goes through"""
        if (f.name, b) not in self._dom:
            out = []
            for d in range(len(f.blocks)):
                t = f.blocks[d][-1] if f.blocks[d] else None
                if t is None or t.op != 'br' or not t.a or t.d['s'][0] == t.d['s'][1]:
                    continue
                for n, s in enumerate(t.d['s']):
                    if b not in self.reach(f, 0, (d, s)) and b in self.reach(f, 0):
                        out.append((d, s, n == 0))
            self._dom[(f.name, b)] = out
        return self._dom[(f.name, b)]

    def loads(self, F, v, d=0, out=None):
        """the loads a value is computed from"""
        out = [] if out is None else out
        x = F.I(F.strip(v))
        if x is None or d > 8:
            return out
        if x.op == 'load':
            out.append(x)
        if x.op in BIN or x.op == 'getelementptr' or x.is_call or x.op == 'load':
            for a in x.a:
                self.loads(F, a, d + 1, out)
        if x.op == 'phi' and len(x.d['phi']) == 1:
            self.loads(F, x.d['phi'][0][0], d + 1, out)
        return out

    def pos(self, x):
        return [i.i for i in x.fn.blocks[x.blk]].index(x.i) if x.i is not None else len(x.fn.blocks[x.blk])

    def hits(self, F, i, ld):
        """may the instruction change what a load read"""
        fl = field(F, ld.a[0]); rt = root(F, ld.a[0])
        rx = F.I(rt)
        local = rx is not None and rx.op == 'alloca' and not self.escapes(F, rt)
        if i.op == 'store':
            if local or (F.I(root(F, i.a[1])) is not None and F.I(root(F, i.a[1])).op == 'alloca' and not self.escapes(F, root(F, i.a[1]))):
                return root(F, i.a[1]) == rt
            k = field(F, i.a[1])
            return k == fl if k is not None and fl is not None else k is None and fl is None
        if i.is_call and not local:
            if fl is None:
                return any(getattr(c, 'repo', False) for c in self.callees(i))
            return any(fl in self.modifies(c.name) for c in self.callees(i))
        return False

    def callees(self, i):
        out = []
        for c in self.P.callees(i):
            c = self.P.F.get(c) if isinstance(c, str) else c
            if c is not None:
                out.append(c)
        return out

    def escapes(self, F, v, d=0):
        if (F.f.name, v) in self._esc:
            return self._esc[(F.f.name, v)]
        r = False
        for u in F.f.uses(v):
            if u.op == 'load' or (u.op == 'store' and u.a[1] == v and u.a[0] != v):
                continue
            if u.op in ('getelementptr',) and d < 6 and not self.escapes(F, ('i', u.i), d + 1):
                continue
            if u.op == 'call' and (u.d['fn'][1] or '').startswith(('llvm.lifetime', 'llvm.dbg')):
                continue
            r = True
        self._esc[(F.f.name, v)] = r
        return r

    def between(self, F, p, q, cut=None, start=None):
        """instructions on the paths from p (or the block start) to q"""
        f = F.f
        if start is None and p.blk == q.blk and self.pos(p) < self.pos(q):
            return f.blocks[p.blk][self.pos(p) + 1:self.pos(q)]
        out = []
        if start is None:
            out += f.blocks[p.blk][self.pos(p) + 1:]
            bs = set()
            for s in f.succ[p.blk]:
                bs |= self.reach(f, s, cut)
            bs -= {p.blk}
        else:
            bs = self.reach(f, start, cut)
        for b in bs:
            if b == q.blk:
                again = any(q.blk in self.reach(f, s, cut) for s in f.succ[q.blk] if (q.blk, s) != cut and s in bs)
                out += f.blocks[b] if again else f.blocks[b][:self.pos(q)]
            elif q.blk in self.reach(f, b, cut):
                out += f.blocks[b]
        return out

    def still(self, F, v, w, d, s):
        """nothing changes what v and the compared value w were read from between the readings"""
        lv, lw = self.loads(F, v), self.loads(F, w)
        term = F.f.blocks[d][-1]
        for l in lv:
            if l in lw:
                continue
            after = l.blk in self.reach(F.f, s, None) and l.blk not in self.reach(F.f, 0, (d, s))
            if after:
                ins = self.between(F, None, l, (d, s), s)
            else:
                ins = self.between(F, l, term)
            for m in lw:
                ins = ins + (self.between(F, m, term) if after else [])
            if any(self.hits(F, i, l) for i in ins):
                return False
        return True

    def atoms(self, F, c, truth, d=0):
        """comparisons (left, predicate, right) that hold; left and right are values or keys"""
        out = []
        for a, t in conj(F, c, truth):
            v = a
            x = F.I(v)
            n = 0
            while x is not None and n < 6:
                n += 1
                if x.op in CASTS:
                    v = x.a[0]; x = F.I(v); continue
                if x.op == 'icmp' and x.d['p'] in ('eq', 'ne') and x.a[1][0] == 'c' and x.a[1][1] == 0:
                    y = F.I(F.strip(x.a[0]))
                    if y is not None and (y.t == 'i1' or (y.is_call and self.bool(y))):
                        t = t == (x.d['p'] == 'ne'); v = F.strip(x.a[0]); x = y; continue
                break
            if x is None:
                continue
            if v != a and d < 4 and x.op in ('phi', 'select', 'xor', 'and', 'or'):
                out += self.atoms(F, v, t, d + 1)
                continue
            if x.op == 'icmp':
                out.append((x.a[0], x.d['p'] if t else NOT[x.d['p']], x.a[1], None))
            if x.op == 'load' and d < 4:
                # a flag that was just set
                blk = F.f.blocks[x.blk]; p = self.pos(x)
                for i in reversed(blk[:p]):
                    if i.op == 'store' and F.key(i.a[1]) == F.key(x.a[0]):
                        out += self.atoms(F, i.a[0], t, d + 1)
                        break
                    if i.is_call or i.op == 'store':
                        break
            if x.is_call and x.d['fn'][0] == 'f' and d < 3:
                g = self.P.F.get(x.d['fn'][1])
                if g is not None and g.repo and len(g.insts) <= 24:
                    rs = [i for i in g.insts.values() if i.op == 'ret' and i.a]
                    if len(rs) == 1:
                        G = Fn.of(self.P, g)
                        act = [F.key(q) for q in x.a]
                        for l, p, r, w in self.atoms(G, rs[0].a[0], t, d + 1):
                            if w is None:
                                kl, kr = sub2(G.key(l), act), sub2(G.key(r), act)
                                if kl is not None and kr is not None:
                                    out.append((kl, p, kr, x))
        return out

    def bool(self, y):
        return y.t in ('i1', 'i8', 'i32')

    def guard(self, F, v, x, edge=None):
        """the least upper bound the branches before x give for v"""
        K = F.key(v)
        best = INF
        es = list(self.edges(F.f, x.blk))
        if edge is not None:
            t = F.f.blocks[edge[0]][-1]
            if t.op == 'br' and t.a and t.d['s'][0] != t.d['s'][1]:
                es.append((edge[0], edge[1], t.d['s'][0] == edge[1]))
        for d, s, truth in es:
            term = F.f.blocks[d][-1]
            for l, p, r, call in self.atoms(F, term.a[0], truth):
                for a, b, q in ((l, r, p), (r, l, FLIP[p])):
                    ka = F.key(a) if call is None else a
                    off = None
                    if ka == K:
                        off = 0
                    elif ka[0] == 'add' and ka[1] == K and ka[2][0] == 'c':
                        off = ka[2][1]
                    elif ka[0] == 'sub' and ka[1] == K and ka[2][0] == 'c':
                        off = -ka[2][1]
                    elif K[0] == 'add' and K[1] == ka and K[2][0] == 'c':
                        off = -K[2][1]
                    elif K[0] == 'sub' and K[1] == ka and K[2][0] == 'c':
                        off = K[2][1]
                    if off is None or q not in ('slt', 'ult', 'sle', 'ule', 'eq', 'ne'):
                        continue
                    if not self.still(F, v, a if call is None else ('i', call.i), d, s):
                        continue
                    if call is None:
                        n = self.ub(F, b, term)
                    else:
                        n = b[1] if b[0] == 'c' else INF
                    if n >= INF:
                        continue
                    if q == 'ne':
                        m = self.shape(F, v, x)
                        best = min(best, m - 1 if m == n - off else INF)
                    else:
                        best = min(best, n - off - (1 if q in ('slt', 'ult') else 0))
        return best

    def given(self, F, ld, depth=0):
        """the bound all callers have checked for what a load at a parameter reads"""
        K = F.key(('i', ld.i))
        b = K
        while b[0] in ('ld', 'g+'):
            b = b[1]
        if b[0] != 'a' or self.taken(F.f.name) or depth > 2:
            return INF
        start = F.f.blocks[0][0]
        before = self.between(F, start, ld) if start is not ld else []
        if any(self.hits(F, i, ld) for i in before):
            return INF
        r = -INF
        cs = self.P.callers(F.f.name)
        for c in cs:
            C = Fn.of(self.P, c.fn)
            k = sub2(K, [C.key(a) for a in c.a])
            if k is None:
                return INF
            best = INF
            for d, s, truth in self.edges(c.fn, c.blk):
                term = c.fn.blocks[d][-1]
                for l, p, rr, call in self.atoms(C, term.a[0], truth):
                    if call is not None:
                        continue
                    for a, o, q in ((l, rr, p), (rr, l, FLIP[p])):
                        if C.key(a) != k or q not in ('slt', 'ult', 'sle', 'ule', 'eq'):
                            continue
                        ls = self.loads(C, a)
                        ins = self.between(C, None, c, (d, s), s)
                        for l2 in ls:
                            ins = ins + self.between(C, l2, term)
                        if any(self.hits(C, i, l2) for i in ins for l2 in ls):
                            continue
                        n = self.ub(C, o, term)
                        if n < INF:
                            best = min(best, n - (1 if q in ('slt', 'ult') else 0))
            r = max(r, best)
        return r if cs else INF

    def ub(self, F, v, x, edge=None):
        """an upper bound of v at x"""
        if v[0] == 'c':
            return v[1] if isinstance(v[1], int) else INF
        w = F.strip(v)
        if w[0] == 'c':
            return w[1] if isinstance(w[1], int) else INF
        k = (F.f.name, w, x.blk, x.i, edge)
        if k in self.memo:
            return self.memo[k]
        if k in self.busy:
            return INF
        self.busy.add(k)
        r = min(self.guard(F, w, x, edge), self.shape(F, w, x))
        self.busy.discard(k)
        if not self.busy:
            self.memo[k] = r
        return r

    def lb(self, F, v, x, d=0):
        """a lower bound of v"""
        v = F.strip(v)
        if v[0] == 'c':
            return v[1] if isinstance(v[1], int) else -INF
        y = F.I(v)
        if v[0] == 'a' and d <= 6 and not self.taken(F.f.name):
            cs = self.P.callers(F.f.name)
            return min([self.lb(Fn.of(self.P, c.fn), c.a[v[1]], c, d + 2) for c in cs] or [-INF])
        if y is None or d > 8:
            return -INF
        if y.op in ('and', 'lshr', 'urem') and any(a[0] == 'c' and a[1] >= 0 for a in y.a):
            return 0
        if y.op == 'add' and y.a[1][0] == 'c':
            a = self.lb(F, y.a[0], x, d + 1)
            return a + y.a[1][1] if a > -INF else -INF
        if y.op == 'phi':
            m = INF
            for a, b in y.d['phi']:
                if self.step(F, a, y) is not None and self.step(F, a, y) >= 0:
                    continue
                m = min(m, self.lb(F, a, x, d + 1))
            return m
        return -INF

    def step(self, F, a, phi, d=0):
        a = F.strip(a); y = F.I(a)
        if y is None or d > 6:
            return None
        if y is phi or y.i == phi.i:
            return 0
        if y.op in ('add', 'sub') and y.a[1][0] == 'c':
            s = self.step(F, y.a[0], phi, d + 1)
            return None if s is None else s + (y.a[1][1] if y.op == 'add' else -y.a[1][1])
        if y.op == 'phi' and not F.header(y.blk):
            ss = {self.step(F, b, phi, d + 1) for b, n in y.d['phi']}
            return None if None in ss else max(ss)
        return None

    def shape(self, F, v, x):
        y = F.I(v)
        if v[0] == 'a':
            k = ('arg', F.f.name, v[1])
            if k in self.busy:
                return INF
            self.busy.add(k)
            cs = self.P.callers(F.f.name)
            r = -INF
            for c in cs:
                if v[1] >= len(c.a):
                    r = INF; break
                r = max(r, self.ub(Fn.of(self.P, c.fn), c.a[v[1]], c))
            if not cs or self.taken(F.f.name):
                r = INF
            self.busy.discard(k)
            return r
        if y is None:
            return INF
        if y.op == 'phi':
            r = -INF
            for a, b in y.d['phi']:
                if a[0] == 'u':
                    continue
                s = self.step(F, a, y) if F.header(y.blk) else None
                if s is not None and s <= 0:
                    continue
                r = max(r, self.ub(F, a, F.f.blocks[b][-1], (b, y.blk)))
            return r
        if y.op == 'select':
            r = -INF
            for n, a in ((True, y.a[1]), (False, y.a[2])):
                m = self.ub(F, a, x)
                for l, p, rr, call in self.atoms(F, y.a[0], n):
                    if call is None:
                        for s, t, q in ((l, rr, p), (rr, l, FLIP[p])):
                            if F.key(s) == F.key(a) and q in ('slt', 'ult', 'sle', 'ule', 'eq'):
                                u = self.ub(F, t, x)
                                if u < INF:
                                    m = min(m, u - (1 if q in ('slt', 'ult') else 0))
                r = max(r, m)
            return r
        if y.op == 'add':
            a, b = self.ub(F, y.a[0], x), self.ub(F, y.a[1], x)
            return min(INF, a + b) if a < INF and b < INF else INF
        if y.op == 'sub':
            a = self.ub(F, y.a[0], x); b = self.lb(F, y.a[1], x)
            return INF if a >= INF else a - b if b > -INF else a      # (amounts taken off are not negative)
        if y.op == 'and':
            m = [a[1] for a in y.a if a[0] == 'c' and a[1] >= 0]
            return min(m) if m else INF
        if y.op in ('urem', 'srem') and y.a[1][0] == 'c':
            return abs(y.a[1][1]) - 1
        if y.op in ('lshr', 'udiv', 'sdiv') and y.a[1][0] == 'c':
            a = self.ub(F, y.a[0], x)
            n = y.a[1][1]
            if a >= INF or n <= 0:
                return INF
            return a >> n if y.op == 'lshr' else a // n if a >= 0 else 0
        if y.op == 'load':
            fl = field(F, y.a[0])
            r = INF
            if fl is not None and y.t and y.t[0] == 'i':
                r = self.invariant(fl)
                blk = F.f.blocks[y.blk]
                for i in reversed(blk[:self.pos(y)]):
                    if i.op == 'store' and F.key(i.a[1]) == F.key(y.a[0]):
                        return min(r, self.ub(F, i.a[0], x))
                    if self.hits(F, i, y):
                        break
                if r >= INF or r > 0:
                    r = min(r, self.given(F, y))
            z = F.I(F.strip(y.a[0]))
            if z is not None and z.op == 'alloca' and y.t and y.t[0] == 'i':
                for i in F.f.uses(('i', z.i)):
                    if i.op == 'store' and i.a[1] == ('i', z.i) and i.blk != y.blk and y.blk not in self.without(F.f, i.blk) and \
                            not any(j is not i and self.hits(F, j, y) for j in self.between(F, i, y)):
                        r = min(r, self.ub(F, i.a[0], i))
            if z is not None and z.is_call and z.d['fn'][0] == 'f':
                d = z.d['fn'][1]
                if d.startswith(('_ZSt3minI', '_ZSt3maxI')) and len(z.a) == 2:
                    us = []
                    for a in z.a:
                        m = F.I(F.strip(a))
                        ss = [i for i in F.f.uses(('i', m.i)) if i.op == 'store' and i.a[1] == ('i', m.i)] if m is not None and m.op == 'alloca' else []
                        us.append(max([self.ub(F, i.a[0], i) for i in ss] or [INF]))
                    r = min(r, (min if d.startswith('_ZSt3min') else max)(us))
            return r
        if y.op in ('call', 'invoke') and y.d['fn'][0] == 'f':
            g = self.P.F.get(y.d['fn'][1])
            if y.d['fn'][1].startswith(('llvm.umin', 'llvm.smin')):
                return min(self.ub(F, y.a[0], x), self.ub(F, y.a[1], x))
            if g is not None and g.repo:
                k = ('ret', g.name)
                if k in self.busy:
                    return INF
                self.busy.add(k)
                G = Fn.of(self.P, g)
                r = -INF
                for i in g.all():
                    if i.op == 'ret' and i.a:
                        r = max(r, self.ub(G, i.a[0], i))
                self.busy.discard(k)
                return r
        return INF

    def taken(self, name):
        if not hasattr(self, '_taken'):
            self._taken = set()
            for f in self.P.repo_fns():
                for i in f.all():
                    for a in i.a:
                        if isinstance(a, tuple) and a[0] in ('f', 'g'):
                            self._taken.add(a[1])
        return name in self._taken

    def invariant(self, fl):
        if fl not in self.inv:
            self.stores(fl)
            self.inv[fl] = INF if self._addr.get(fl) else 0
            self.grew = True
        return self.inv[fl]

    def settle(self, goals):
        """the least bounds of the fields that all stores keep"""
        for n in range(60):
            self.grew = False; self.memo = {}
            for F, v, x in goals:
                self.ub(F, v, x)
            for fl in list(self.inv):
                if self.inv[fl] >= INF:
                    continue
                for F, x in self.stores(fl):
                    u = self.ub(F, x.a[0], x)
                    if u > self.inv[fl]:
                        self.inv[fl] = min([c for c in self.cands if c >= u] or [INF]); self.grew = True
                        self.memo = {}
            if not self.grew:
                return True
        return False


def accesses(P):
    """(function, access, index value, table size, constant part) of every computed index"""
    out = []
    for f in P.repo_fns():
        if not f.file or '/src/' not in f.file:
            continue
        F = Fn.of(P, f)
        for x in f.all():
            if x.op != 'getelementptr' or not x.d['gep'].get('var'):
                continue
            path = x.d['gep'].get('path') or ()
            for n, p in enumerate(path):
                if p[0] == 'x' and isinstance(p[2], tuple) and p[2][0] != 'c' and p[1] > 0:
                    out.append((F, x, p[2], p[1], 0))
                elif n == 0 and p[0] == 'p' and len(path) == 1 and p[1][0] != 'c':
                    y = F.I(F.strip(x.a[0]))
                    if y is not None and y.op == 'getelementptr':
                        q = (y.d['gep'].get('path') or ((),))[-1]
                        if q and q[0] == 'x' and q[1] > 0 and q[2][0] == 'c':
                            out.append((F, x, p[1], q[1], q[2][1]))
    return out


# function -> (destination, sizes that are multiplied; None when the callee does not know the size)
WRITES = {'snprintf': [(0, (1,))], 'vsnprintf': [(0, (1,))], 'fgets': [(0, (1,))], 'inet_ntop': [(2, (3,))],
          'getnameinfo': [(2, (3,)), (4, (5,))], 'fread': [(0, (1, 2))], 'read': [(1, (2,))], 'recv': [(1, (2,))],
          'strncpy': [(0, (2,))], 'memcpy': [(0, (2,))], 'memmove': [(0, (2,))], 'memset': [(0, (2,))], 'pread': [(1, (2,))],
          'strftime': [(0, (1,))], 'gethostname': [(0, (1,))], 'readlink': [(1, (2,))], 'getcwd': [(0, (1,))], 'recvfrom': [(1, (2,))],
          'strcpy': [(0, None)], 'strcat': [(0, None)], 'sprintf': [(0, None)], 'vsprintf': [(0, None)], 'gets': [(0, None)]}


def buffers(P):
    """(function, call, table size, start, sizes) of the tables a library function fills"""
    out = []
    for f in P.repo_fns():
        if not f.file or '/src/' not in f.file:
            continue
        F = Fn.of(P, f)
        for x in f.all():
            if not x.is_call or x.d['fn'][0] != 'f':
                continue
            n = x.d['fn'][1]
            if n.startswith('llvm.mem'):
                n = n.split('.')[1]
            n = n.replace('__isoc99_', '').replace('__', '').replace('_chk', '')
            for dst, size in WRITES.get(n, ()):
                if dst >= len(x.a):
                    continue
                off = 0; v = F.strip(x.a[dst]); y = F.I(v); var = None
                while y is not None and y.op == 'getelementptr' and off is not None:
                    g = y.d['gep']
                    for i, s in g.get('var', ()):
                        if s != 1 or var is not None:
                            off = None
                        var = i
                    off = None if off is None or g['off'] is None else off + g['off']
                    v = F.strip(y.a[0]); y = F.I(v)
                total = None
                if y is not None and y.op == 'alloca' and str(y.d.get('ty')).startswith('['):
                    total = y.d.get('sz')
                elif v[0] == 'g' and str((P.G.get(v[1]) or {}).get('ty')).startswith('['):
                    total = P.G[v[1]].get('sz')
                if total and off is not None:
                    out.append((F, x, n, total, off, var, size))
    return out


RAW = ('fread', 'read', 'recv', 'pread', 'recvfrom', 'memcpy', 'memmove', 'strncpy', 'readlink')


def text(P, F, x, k, seen):
    """does the callee take its k-th argument for a string that ends with a zero"""
    if x.d['fn'][0] != 'f':
        return False
    n = x.d['fn'][1]
    if n in ('strlen', 'strcmp', 'strcpy', 'strdup', 'strcat', 'strchr', 'strstr', 'atoi', 'puts'):
        return True
    g = P.F.get(n)
    if k >= 1 and 'basic_string' in n and 'PKc' in n and 'PKcm' not in n:
        return True
    if g is None or not g.repo or (n, k) in seen or len(seen) > 20:
        return False
    seen.add((n, k))
    G = Fn.of(P, g)
    for y in g.all():
        if y.is_call:
            for j, a in enumerate(y.a):
                if G.strip(a) == ('a', k) and text(P, G, y, j, seen):
                    return True
    return False


def is_text(P, F, v):
    """is the buffer used as a string somewhere"""
    for f in (P.repo_fns() if v[0] == 'g' else [F.f]):
        G = Fn.of(P, f)
        for y in f.all():
            if y.is_call:
                for j, a in enumerate(y.a):
                    if G.strip(a) == v or (a[0] == 'i' and root(G, a) == v):
                        if text(P, G, y, j, set()):
                            return True
    return False


def sentinel(F, x):
    """the table is a local constant list that a loop reads up to its last entry"""
    rt = root(F, x.a[0]); rx = F.I(rt)
    return rx is not None and rx.op == 'alloca' and 'pair' in str(x.d['gep'].get('sty'))


def run(P, rep, tier):
    rep.rule = ('the index of every access to a table of fixed size is at most its last entry, from the branches before the '
                'access and the bounds that all assignments of a counter keep')
    B = Bounds(P)
    acc = accesses(P)
    acc = [a for a in acc if not sentinel(a[0], a[1])]
    B.cands = sorted({0, INF} | {n for a in acc for n in (a[3], a[3] - 1)})
    bufs = buffers(P)
    ok = B.settle([(F, v, x) for F, x, v, n, c in acc] + [(F, x.a[i], x) for F, x, n, t, o, v, size in bufs for i in size or ()] +
                  [(F, v, x) for F, x, n, t, o, v, size in bufs if v is not None])
    B.memo = {}
    seen = {}; nbuf = 0
    for F, x, v, n, c in acc:
        u = B.ub(F, v, x) + c
        good = ok and u <= n - 1
        fn = F.f.dem.split('(')[0].split('::')[-1]
        what = '%s %s: index into a table of %d' % (x.loc(), fn, n)
        rep.ob(what + (' is at most %d' % u if u < INF else ''), good)
        if not good:
            k = 'index:%s:%s' % (fn, n)
            if k not in seen:
                seen[k] = 1
                rep.viol(k, '%s (%s): the index into a table of %d entries is not kept below its end%s' % (
                    x.loc(), fn, n, ' (it may be %d)' % u if u < INF else ''))
    for F, x, n, total, off, var, size in bufs:
        u = 0 if size is not None else INF
        for k, i in enumerate(size or ()):
            m = B.ub(F, x.a[i], x)
            u = m if k == 0 else (u * m if u < INF and m < INF else INF)
        if var is not None:
            m = B.ub(F, var, x)
            u = u + m if m < INF else INF
        if n in RAW and is_text(P, F, root(F, x.a[WRITES[n][0][0]])):
            total -= 1          # room for the zero at the end
        good = u < INF and u + off <= total
        fn = F.f.dem.split('(')[0].split('::')[-1]
        rep.ob('%s %s: %s fills a buffer of %d bytes%s' % (x.loc(), fn, n, total, ' with at most %d' % (u + off) if u < INF else ''), good)
        if not good:
            k = 'buffer:%s:%s' % (fn, n)
            if k not in seen:
                seen[k] = 1
                rep.viol(k, '%s (%s): %s may write more than the %d bytes of the buffer%s' % (
                    x.loc(), fn, n, total, ' (it may be %d)' % (u + off) if u < INF else ''))
        nbuf += 1
    rep.stats['buffers'] = nbuf
    rep.need('computed accesses of fixed-size tables', len(acc), 4)
    rep.stats['fields'] = len([f for f in B.inv if B.inv[f] < INF])
    rep.assumptions += ['counters of a structure are initialised before the structure is used',
                        'an amount of unknown sign that is subtracted is not negative',
                        'only the upper end is decided: no claim is made about an index below the start of a table']
