"""a page of results holds exactly the hits with the requested positions"""
from absint import Client, Engine
import sax
import q03

TOTAL = ('mws::MwsAnswset', 'total')
QUERY = 'mws::types::Query'
ROLES = {'attrResultLimitMin': 'offset', 'attrResultMaxSize': 'size', 'attrResultTotalReqNr': 'total'}


def lin(v):
    """value as {term: coefficient}, constant under None; casts are dropped (ranges are an obligation of the caller)"""
    if v[0] == 'k':
        return {None: v[1]}
    if v[0] == 'op':
        if v[1] in ('zext', 'sext', 'trunc'):
            return lin(v[3])
        if v[1] in ('add', 'sub') and len(v) == 4:
            r = dict(lin(v[2])); s = 1 if v[1] == 'add' else -1
            for t, c in lin(v[3]).items():
                r[t] = r.get(t, 0) + s * c
            return {t: c for t, c in r.items() if c or t is None}
    return {v: 1}


def add(*ls):
    """sum of (coefficient, linear form)"""
    r = {}
    for c, l in ls:
        for t, x in l.items():
            r[t] = r.get(t, 0) + c * x
    return {t: c for t, c in r.items() if c}


def freeze(l):
    return tuple(sorted(((t, c) for t, c in l.items() if c), key=repr))


ONE = {None: 1}


def terms(v):
    """the symbols of a value"""
    return {t for t in lin(v) if t is not None}


def mentions(v, pat):
    if v == pat:
        return True
    return isinstance(v, tuple) and any(mentions(x, pat) for x in v)


class Window(Client):
    """q = (inequalities that hold, query of the database or None, hits of the formula or None, flags)"""
    name = 'paging'
    callbacks = False
    depth = 16

    def __init__(self, P, rep, name, roles, file, leaf=None, found=None, header=None):
        self.P = P; self.rep = rep; self.name = name; self.file = file; self.roles = roles; self.leaf = leaf
        self.found = found          # term of the number of hits before this formula (None: to be learnt)
        self.header = header        # (root, block, phi) the term is the phi of
        self.totals = []            # values stored to the total
        self.checked = 0; self.queries = 0; self.counted = 0

    def init_q(self):
        return (frozenset(), None, None, False)

    def relevant(self, eng, f):
        c = f.cls or ''
        if f.short == 'mws::dbc::DbQueryManager::query':
            return False
        if 'std' in f.short[:4] or sum(len(b) for b in f.blocks) > 150:
            return f.repo and f.short.startswith('std::unique_ptr')
        if not f.short.startswith('std::') and f.file != self.file and (len(f.blocks) > 12 or not f.cls and '/query/' not in f.file and '/daemon/' not in f.file):
            return False
        return not ('Accessor' in c or c.endswith('Ctxt') or 'Ctxt<' in c or c.startswith('mws::index::') or c.startswith('mws::query::'))

    def arith(self, eng, st, op, l, r):
        if l[0] == 'k' and r[0] == 'k' or op not in ('add', 'sub'):
            return None
        if len(repr(l)) + len(repr(r)) > 3000:
            return None
        return ('op', op, l, r)

    # inequalities
    def interesting(self, l):
        ok = 0
        for t in l:
            if t is None:
                continue
            if t in self.roles or t == self.found or t == ('s', ('hits',)) or self.leaf is not None and mentions(t, self.leaf):
                ok += 1
            else:
                return False
        return ok

    def learn(self, st, l):
        if self.found is not None and self.interesting(l) and len(st.q[0]) < 40:
            st.q = (st.q[0] | {freeze(l)},) + st.q[1:]

    def cond(self, st, c, taken):
        if c[0] == 'not':
            return self.cond(st, c[1], not taken)
        if c[0] == 'and' and taken or c[0] == 'or' and not taken:
            self.cond(st, c[1], taken); self.cond(st, c[2], taken); return
        if c[0] != 'cmp':
            return
        p = c[1][-2:] if c[1] not in ('eq', 'ne') else c[1]
        a, b = lin(c[2]), lin(c[3])
        if not taken:
            p = {'lt': 'ge', 'ge': 'lt', 'gt': 'le', 'le': 'gt', 'eq': 'ne', 'ne': 'eq'}[p]
        if p in ('lt', 'le'):
            a, b = b, a
        if p in ('lt', 'gt'):
            self.learn(st, add((1, a), (-1, b), (-1, ONE)))
        elif p in ('le', 'ge'):
            self.learn(st, add((1, a), (-1, b)))
        elif p == 'eq':
            self.learn(st, add((1, a), (-1, b))); self.learn(st, add((1, b), (-1, a)))

    def branch(self, eng, st, inst, cond, taken):
        if isinstance(cond, tuple) and cond and cond[0] in ('cmp', 'not', 'and', 'or'):
            self.cond(st, cond, taken)

    picked = branch

    def dead(self, st):
        """the inequalities contradict each other: no such path"""
        cons = [dict(c) for c in st.q[0]]
        neg = lambda l: all(c <= 0 for t, c in l.items()) and l.get(None, 0) < 0
        for i, a in enumerate(cons):
            if neg(a):
                return True
            for j in range(i + 1, len(cons)):
                b = add((1, a), (1, cons[j]))
                if neg(b) or any(neg(add((1, b), (1, c))) for c in cons[j + 1:]):
                    return True
        return False

    def holds(self, st, goal):
        """the linear form is >= 0: it is the sum of at most three known inequalities and of things that are never negative"""
        def pos(l):
            return all(c >= 0 for t, c in l.items()) or all(c >= 0 for t, c in l.items() if t is not None) and self.least(l) >= 0
        if pos(goal):
            return True
        cons = [dict(c) for c in st.q[0]]
        for i, a in enumerate(cons):
            g = add((1, goal), (-1, a))
            if pos(g):
                return True
            for j in range(i, len(cons)):
                h = add((1, g), (-1, cons[j]))
                if pos(h):
                    return True
                for k in range(j, len(cons)):
                    if pos(add((1, h), (-1, cons[k]))):
                        return True
        return False

    def least(self, l):
        return l.get(None, 0)

    # events
    def call(self, eng, st, inst, fobj, short, args):
        last = short.split('::')[-1]
        if short in ('std::min', 'std::max') and len(args) == 2:
            a, b = [st.mem.get(eng.addr(st, x)) for x in args]
            if a is None or b is None:
                return None
            s2 = st.copy()
            hi, lo = (args[1], args[0]) if short == 'std::min' else (args[0], args[1])
            d = add((1, lin(b)), (-1, lin(a)))
            self.learn(st, d if short == 'std::min' else add((-1, d)))
            self.learn(s2, add((-1, d)) if short == 'std::min' else d)
            return [('ret', args[0], st), ('ret', args[1], s2)]
        if last == 'getHitsCount' and fobj is not None and fobj.repo:
            st.q = st.q[:2] + (args[0],) + st.q[3:]
            return [('ret', ('s', ('hits',)), st)]
        if last == 'getFormulaId' and fobj is not None and fobj.repo:
            return [('ret', ('s', ('formula', args[0])), st)]
        if short == 'mws::dbc::DbQueryManager::query':
            self.query(eng, st, inst, args)
            return [('ret', ('k', 0), st), ('ret', ('k', -1), st.copy())]
        return None

    def bad(self, key, text):
        self.rep.ob('%s: %s' % (self.name, key), False)
        self.rep.viol('%s|%s' % (self.name, key), '%s: %s' % (self.name, text))

    def role(self, n):
        return next(({t: 1} for t, r in self.roles.items() if r == n), None)

    def query(self, eng, st, inst, args):
        if self.found is None or self.first(st) or self.dead(st):
            return
        F = {self.found: 1}
        O, S, T = self.role('offset'), self.role('size'), self.role('total')
        off, mx = lin(args[2]), lin(args[3])
        self.queries += 1
        if st.q[1] is not None:
            self.bad('twice', 'asks for hits of a formula twice'); return
        fid = args[1]
        while fid[0] == 'op' and fid[1] in ('zext', 'sext', 'trunc'):
            fid = fid[3]
        if self.leaf is None:
            if fid != ('s', ('formula', st.q[2])):
                self.bad('formula', 'asks for the hits of another formula than the one that was found')
        elif not mentions(fid, self.leaf):
            self.bad('formula', 'asks for the hits of another formula than the one that was found')
        zero = not [1 for c in off.values() if c]
        if zero and self.holds(st, add((1, F), (-1, O))) or freeze(off) == freeze(add((1, O), (-1, F))) and self.holds(st, off):
            pass
        else:
            self.bad('first hit', 'the first hit taken of a formula is not the one at the requested offset')
        E = add((1, F), (1, off), (1, mx))
        end = add((1, O), (1, S))
        e = freeze(E)
        H = self.hits(st)
        self.counted += 1
        if e == freeze(end) and self.holds(st, add((1, T), (-1, end))):
            ok = True
        elif e == freeze(T) and self.holds(st, add((1, end), (-1, T))):
            ok = True
        elif H and any(e == freeze(add((1, F), (1, h))) and self.holds(st, add((1, end), (-1, F), (-1, h))) and self.holds(st, add((1, T), (-1, F), (-1, h))) for h in H):
            ok = True
        elif self.holds(st, add((-1, mx))) and (self.holds(st, add((1, O), (-1, T))) or self.holds(st, add((-1, S)))):
            ok = True
        elif e == freeze(O) and self.holds(st, add((1, O), (-1, T))):
            ok = True
        else:
            ok = False
        if not ok:
            self.bad('last hit', 'the last hit taken of a formula is not the last one of the requested page')
        elif not self.holds(st, mx):
            self.bad('size', 'the number of hits asked for may be negative')
        self.rep.ob('%s: page at %s' % (self.name, inst.loc()), ok)
        st.q = (st.q[0], ('called',)) + st.q[2:]

    def hits(self, st):
        """possible terms for the hits of the formula"""
        if self.leaf is None:
            return [{('s', ('hits',)): 1}] if st.q[2] is not None else []
        out = []
        for c in st.q[0]:
            for t, k in c:
                if t is not None and mentions(t, self.leaf) and {t: 1} not in out:
                    out.append({t: 1})
        return out

    def first(self, st):
        """the first formula (the number of hits before it is the constant 0): the general case is checked"""
        return self.header is not None and not st.q[3]

    def settle(self, eng, st, V):
        """the formula has been handled; V is the number of hits now"""
        if self.found is None:
            return
        F = {self.found: 1}
        O, S, T = self.role('offset'), self.role('size'), self.role('total')
        v = lin(V)
        if self.first(st) or self.dead(st):
            return
        d = add((1, v), (-1, F))
        H = self.hits(st)
        seen = H if self.leaf is None else [h for h in H]
        if self.leaf is not None and d and all(t is not None for t in d) and len(d) == 1:
            t, c = list(d.items())[0]
            if c == 1 and mentions(t, self.leaf):
                seen = [{t: 1}]
        self.checked += 1
        if not d and not seen and self.leaf is None:
            if st.q[1] is not None:
                self.bad('not counted', 'hits are reported that are not counted')
            return
        if freeze(v) == freeze(T) and any(self.holds(st, add((1, F), (1, h), (-1, T))) for h in (seen or [ONE])):
            pass
        elif seen and any(freeze(d) == freeze(h) for h in seen) or not seen and d == ONE:
            pass
        elif seen and freeze(v) == freeze(T) and self.holds(st, add((1, F), (-1, T))):
            pass
        else:
            self.bad('counted', 'the number of hits found does not grow by the hits of the formula')
            return
        if d and not self.holds(st, add((1, T), (-1, v))):
            self.bad('limit', 'the number of hits found may exceed the limit of hits to count')
            return
        if seen and st.q[1] is None:
            h = seen[0]
            end = add((1, O), (1, S))
            if not any(self.holds(st, add((1, o), (-1, F), (-1, h))) for o in (O,) for h in seen) and not self.holds(st, add((1, F), (-1, end))) \
               and not self.holds(st, add((1, F), (-1, T))):
                self.bad('left out', 'hits of the requested page may be left out')
        self.rep.ob('%s: hits counted' % self.name, True)

    def edge(self, eng, st, fn, pred, blk):
        if not self.header or fn.name != self.header[0] or blk != self.header[1]:
            return
        back = pred in self.header[3]
        kind, k = self.header[2]
        if kind == 'cell':
            o, off = eng.addr(st, st.env[k]) if k in st.env else (None, None)
            if o is not None and back:
                self.settle(eng, st, st.mem.get((o, off), ('u',)))
                st.mem[(o, off)] = self.found
        elif back:
            for v, pb in fn.insts[k].d['phi']:
                if pb == pred:
                    V = ('k', v[1]) if v[0] == 'c' else st.env.get(v)
                    if V is not None:
                        self.settle(eng, st, V)
                    if v[0] != 'c':
                        st.env[v] = self.found
        st.q = (frozenset(c for c in st.q[0] if all(t is None or t in self.roles for t, _ in c)), None, None, back)

    def store(self, eng, st, inst, addr, val):
        if inst.op != 'store':
            return
        fd = self.P.field(inst.fn, inst.a[1])
        if fd and fd[:2] == TOTAL and inst.fn.short.split('::')[-1] != 'MwsAnswset':
            self.totals.append(val)
            if self.found is not None:
                self.settle(eng, st, val)
                st.q = st.q[:1] + (None, None) + st.q[3:]


class Call(Client):
    """what a query handler passes on"""
    name = 'paging of handlers'

    def __init__(self, P):
        self.P = P; self.seen = []

    def relevant(self, eng, f):
        return f.file and f.file.split('/')[-1] == self.file

    def call(self, eng, st, inst, fobj, short, args):
        if short == 'mws::query::SearchContext::getResult':
            self.seen.append((fobj, args))
            return [('ret', None, st)]
        return None


class Attributes(q03.Choice):
    """which attribute of the document becomes which limit of the query"""
    formatters = ()

    def __init__(self, P):
        q03.Choice.__init__(self, P)
        self.stores = []

    def store(self, eng, st, inst, addr, val):
        if inst.op != 'store' or val is None or not self.now:
            return
        fd = self.P.field(inst.fn, inst.a[1])
        if fd and fd[0] == QUERY and fd[1] in ATTR:
            req = {(k[1], v) for k, v in st.mem.items() if k[0] == ('req',) and st.facts.get(('req', k[1])) == (0, 0, frozenset())}
            self.stores.append((fd[1], frozenset(req), val, inst))

    def call(self, eng, st, inst, fobj, short, args):
        last = short.split('::')[-1]
        if self.now and (last in ('strtol', 'strtoll', 'strtoul', 'strtoull') or last.startswith('__isoc23_strto')) and len(args) == 3:
            return [('ret', ('s', ('num', eng.ptr_of(args[0]))) if args[2] == ('k', 10) else ('s', ('num', None)), st)]
        if self.now and last in ('atoi', 'atol', 'atoll'):
            return [('ret', ('s', ('num', eng.ptr_of(args[0]))), st)]
        return q03.Choice.call(self, eng, st, inst, fobj, short, args)


ATTR = {'attrResultLimitMin': 'limitmin', 'attrResultMaxSize': 'answsize'}


def attributes(P, rep):
    parser = [f for f in sax.parsers(P) if f.short.split('::')[-1] == 'readMwsQuery']
    rep.need('query parser', len(parser), 1)
    for pf in parser:
        m = sax.Machine(P, pf, {}, None, Attributes)
        got = set()
        for mem, req, val, inst in m.C.stores:
            got.add(mem)
            names = {n for n, _ in req}
            ok = names == {ATTR[mem]}
            if ok:
                (n, at), = req
                wide = []
                while val[0] == 'op' and val[1] in ('zext', 'sext', 'trunc'):
                    if val[1] == 'trunc':
                        wide.append(val[2])
                    val = val[3]
                need = next((int(x[2]) for x in P.ditypes[QUERY]['members'] if x[0] == mem), 64)
                if [w for w in wide if w < need]:
                    rep.viol('%s|%s|width' % (pf.short, ATTR[mem]), '%s: the value of the attribute %s is cut to %d bits' % (pf.short, ATTR[mem], min(wide)))
                src = val[1][1] if val[0] == 's' and isinstance(val[1], tuple) and val[1][0] == 'num' else None
                ok = src is not None
                if ok and at[0] == 's' and at[1][0] == 'ld' and src[0] == 's' and src[1][0] == 'ld' and at[1][1] == src[1][1] and type(at[1][2]) is int:
                    ok = src[1][2] == at[1][2] + 8
                if not ok:
                    rep.viol('%s|%s|value' % (pf.short, ATTR[mem]), '%s: the value of the attribute %s is not read as a decimal number' % (pf.short, ATTR[mem]))
            else:
                rep.viol('%s|%s' % (pf.short, ATTR[mem]), '%s: %s of the page is set by the attribute %s' % (pf.short, 'the offset' if ATTR[mem] == 'limitmin' else 'the size', ', '.join(sorted(names)) or 'of any name'))
            rep.ob('%s: attribute %s' % (pf.short, ATTR[mem]), ok)
        for k in sorted(set(ATTR) - got):
            rep.viol('%s|%s|unused' % (pf.short, ATTR[k]), '%s: the attribute %s has no effect' % (pf.short, ATTR[k]))


def members(P):
    return {x[1]: ROLES[x[0]] for x in P.ditypes.get(QUERY, {}).get('members', ()) if x[0] in ROLES}


def strip(v):
    while v[0] == 'op' and v[1] in ('zext', 'sext', 'trunc'):
        v = v[3]
    return v


def search(P, rep, f, roles):
    """check one search loop"""
    name = f.dem.split('(')[0].split(' ')[-1]
    heads = counts(P, f)
    if heads is None:
        rep.viol('%s|total' % name, '%s: the total is not the number of hits counted over the formulae' % name); return
    if not heads:
        rep.error('%s: number of hits found is not recognised' % name); return
    for c, h in heads:
        C = Window(P, rep, name, roles, f.file, found=('s', c), header=h)
        eng = Engine(P, C, maxdepth=4, budget=600000)
        eng.run_root(f)
        if not C.queries or not C.checked:
            rep.error('%s: no page is taken from the hits' % name)
        rep.stats['pages'] = rep.stats.get('pages', 0) + C.counted


def counts(P, f):
    """where the number of hits found lives from one formula to the next: (symbol, (function, loop head, phi or cell, back edges))"""
    w = []
    for x in f.all():
        if x.op == 'store':
            fd = P.field(f, x.a[1])
            if fd and fd[:2] == TOTAL:
                w.append(x.a[0])
    back = {}
    for b in range(len(f.blocks)):
        ps = {p for p in range(len(f.blocks)) if b in f.succ[p]}
        bk = {p for p in ps if p == b or dominated(f, b, p)}
        if bk:
            back[b] = bk
    seen = set(); heads = []
    while w:
        v = w.pop()
        if v in seen or v[0] != 'i':
            continue
        seen.add(v)
        x = f.insts[v[1]]
        if x.op in ('phi', 'zext', 'sext', 'trunc', 'bitcast', 'select', 'freeze'):
            w += [o for o, _ in x.d['phi']] if x.op == 'phi' else list(x.a)
            if x.op == 'phi' and x.blk in back:
                heads.append((('s', ('j', (f.name,), x.blk, ('i', x.i))), (f.name, x.blk, ('i', x.i), back[x.blk])))
        elif x.op == 'load' and x.a[0][0] == 'i' and f.insts[x.a[0][1]].op == 'alloca':
            outer = [b for b in back if not any(o != b and dominated(f, o, b) and any(reaches(f, b, p) for p in back[o]) for o in back)
                     and any(reaches(f, b, u.blk) and any(reaches(f, u.blk, p) or u.blk == p for p in back[b]) for u in f.uses(x.a[0]))]
            for b in outer:
                heads.append((('s', ('found', b)), (f.name, b, ('cell', x.a[0]), back[b])))
    if not heads and not any(f.insts[v[1]].op == 'load' for v in seen):
        return None
    return [h for h in heads if not any(dominated(f, o[1][1], h[1][1]) and o[1][1] != h[1][1] and any(reaches(f, h[1][1], p) for p in o[1][3]) for o in heads)]


def dominated(f, a, b):
    """every path to b passes a"""
    if a == b:
        return True
    seen = {0}; w = [0]
    if a == 0:
        return True
    while w:
        x = w.pop()
        if x == b:
            return False
        for s in f.succ[x]:
            if s != a and s not in seen:
                seen.add(s); w.append(s)
    return True


def reaches(f, a, b):
    seen = set(); w = [a]
    while w:
        x = w.pop()
        for s in f.succ[x]:
            if s == b:
                return True
            if s not in seen:
                seen.add(s); w.append(s)
    return False


def run(P, rep, tier):
    rep.rule = ('Abstract interpretation of the search loop with linear inequalities over the offset, size, limit, hits found before and hits of a formula: at '
                'every query of the database the first and last hit asked for are those of the requested page, every path that leaves a formula out '
                'implies that it has no hit on the page, and the number of hits found grows by the hits of the formula.')
    rep.assumptions = ['the limit of hits to count fits the type of the counter']
    mem = members(P)
    roots = [f for f in P.repo_fns() if f.blocks and f.short == 'mws::query::SearchContext::getResult']
    rep.need('searches', len(roots), 2)
    roles = {}
    for h in sorted((h for h in P.repo_fns() if h.blocks and h.short.endswith('::handleQuery')), key=lambda h: h.name):
        if not any(n in P.reach([h.name]) for n in [f.name for f in roots]):
            continue
        C = Call(P); C.file = h.file.split('/')[-1]
        Engine(P, C, maxdepth=6, budget=200000).run_root(h)
        if not C.seen:
            rep.error('%s: search not reached' % h.short)
        for f, args in C.seen:
            r = {}
            for k, a in enumerate(args):
                t = strip(a)
                if t[0] == 's' and t[1][:2] == ('ld', ('d', ('arg', 1))) and t[1][2] in mem:
                    r[k] = mem[t[1][2]]
            ok = sorted(r.values()) == sorted(ROLES.values())
            rep.ob('%s: passes the limits of the query on' % h.short, ok)
            if not ok:
                rep.viol('%s|limits' % h.short, '%s does not search with the offset, size and limit of the query (%s)' % (h.short, ', '.join(sorted(r.values())) or 'none'))
            elif roles.setdefault(f.name, r) != r:
                rep.viol('%s|limits' % h.short, '%s passes the limits of the query in another order than another handler' % h.short)
    for f in sorted(roots, key=lambda f: f.name):
        if f.name in roles:
            search(P, rep, f, {('s', ('arg', k)): r for k, r in roles[f.name].items()})
    callback(P, rep)
    attributes(P, rep)


def callback(P, rep):
    """hits reported one formula at a time to a function of the C engine"""
    for f in sorted(P.repo_fns(), key=lambda f: f.name):
        if not f.blocks or len(f.args) != 2 or not f.dem.split('(')[-1].startswith('void*, leaf'):
            continue
        if not any(P.F[n].short == 'mws::dbc::DbQueryManager::query' for n in P.reach([f.name])):
            continue
        C = Reported(P, rep, f.short, {}, f.file, leaf=('d', ('arg', 1)))
        eng = Engine(P, C, maxdepth=4, budget=400000)
        outs = eng.run_root(f)
        n = 0
        for k, rv, st in outs:
            if k != 'ret' or C.dead(st):
                continue
            n += 1
            if st.q[3] or rv is not None and eng.truth(st, ('cmp', 'eq', rv, ('k', 2))) is True:
                continue
            C.bad('counted', 'the number of hits found does not grow by the hits of the formula')
        if not n or not C.queries:
            rep.error('%s: no page is taken from the hits' % f.short)
        rep.stats['pages'] = rep.stats.get('pages', 0) + C.counted


class Reported(Window):
    """q[3]: the hits of the formula were counted"""

    def first(self, st):
        return False

    def load(self, eng, st, inst, addr, val):
        fd = self.P.field(inst.fn, inst.a[0])
        if fd and val is None:
            val = ('s', ('ld',) + eng.addr(st, addr))
            if fd[0] == QUERY and fd[1] in ROLES:
                self.roles[val] = ROLES[fd[1]]
            elif fd[:2] == TOTAL and not st.q[3]:
                self.found = val

    def store(self, eng, st, inst, addr, val):
        n = len(self.totals)
        Window.store(self, eng, st, inst, addr, val)
        if len(self.totals) > n:
            st.q = st.q[:3] + (True,)
