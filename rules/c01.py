"""The crawler only queues links that its filters admit."""
import re
from absint import Client, Engine, Budget
import inject as J

ITER = re.compile(r'__gnu_cxx::__normal_iterator::operator(\+\+|\*|->|\+=|--|-=)$')
NEXT = ('operator++', 'operator+=')


def loops(f):
    """natural loops: {(latch, header): set of blocks}"""
    n = len(f.blocks)
    dom = [set(range(n)) for _ in range(n)]
    dom[0] = {0}
    ch = True
    while ch:
        ch = False
        for b in range(1, n):
            ps = [dom[p] for p in f.pred[b]]
            d = (set.intersection(*ps) if ps else set()) | {b}
            if d != dom[b]:
                dom[b] = d; ch = True
    out = {}
    for b in range(n):
        for s in f.succ[b]:
            if s in dom[b]:
                body = {s, b}; st = [b]
                while st:
                    x = st.pop()
                    if x == s:
                        continue
                    for p in f.pred[x]:
                        if p not in body:
                            body.add(p); st.append(p)
                out[(b, s)] = body
    return out


class Q(tuple):
    """(phase, vector filtered, passed checks, iterator balances, queued link not yet remembered)"""
    def put(self, **k):
        d = dict(zip(('phase', 'vec', 'ok', 'bal', 'pend'), self))
        d.update(k)
        return Q((d['phase'], d['vec'], d['ok'], d['bal'], d['pend']))
    phase = property(lambda s: s[0]); vec = property(lambda s: s[1]); ok = property(lambda s: s[2])
    bal = property(lambda s: s[3]); pend = property(lambda s: s[4])


class Filter(Client):
    def __init__(self, P, on, A):
        self.P = P; self.on = on; self.A = A
        self.bad = []; self.checks = set(); self.admits = set()
        self.backs = {}

    def init_q(self):
        return Q(('start', 'raw', frozenset(), frozenset(), False))

    def relevant(self, eng, f):
        return f.name in self.on

    def keep_cell(self, k, v, st):
        return k[0][:1] in (('host',), ('links',))

    def edge(self, eng, st, fn, pred, blk):
        b = self.backs.get(fn.name)
        if b is None:
            b = self.backs[fn.name] = {e: any(x.is_call and self.A.concerns(x) for k in body for x in fn.blocks[k])
                                       for e, body in loops(fn).items()}
        if b.get((pred, blk)):
            st.q = st.q.put(ok=frozenset())

    def report(self, inst, what):
        self.bad.append((inst, what))

    def require(self, st, inst, what, need):
        self.admits.add(inst.loc())
        for n in need:
            if n not in st.q.ok:
                self.report(inst, '%s %s' % (what, {'R': 'without robots.txt and the exclusions allowing it', 'V': 'without checking that it was not queued before',
                                                    'H': 'without comparing its host with that of the page'}[n]))

    def outcomes(self, st, c, yes, no):
        s2 = st.copy()
        st.q = st.q.put(ok=st.q.ok | {c}); s2.q = s2.q.put(ok=s2.q.ok - {c})
        return [('ret', yes, st), ('ret', no, s2)]

    @staticmethod
    def it(eng, st, av):
        o, off = eng.addr(st, av)
        v = st.mem.get((o, off))
        return v if v is not None else ('s', ('ld', o, off))

    def call(self, eng, st, inst, fobj, short, args):
        A = self.A; q = st.q
        last = short.split('::')[-1]
        if fobj is None:
            return None
        dem = fobj.dem
        if fobj.name in A.robots:
            self.checks.add(inst.loc())
            return self.outcomes(st, 'R', ('k', 1), ('k', 0))
        if fobj.name in A.links:
            if q.pend:
                self.report(inst, 'queues a link and reads the next page without remembering that it was queued')
            st.q = q.put(phase='links')
            st.mem[(('links',), 0)] = ('obj', eng.addr(st, args[0])[0])
            return None
        if re.match(r'std::(set|unordered_set)::', short) and 'basic_string' in dem:
            if last == 'find':
                s2 = st.copy()
                self.checks.add(inst.loc())
                if q.pend:
                    self.report(inst, 'checks the next link before remembering the one just queued')
                st.q = q.put(ok=q.ok | {'V'}); s2.q = q.put(ok=q.ok - {'V'})
                return [('ret', ('s', ('set', 'end')), st), ('ret', ('s', ('set', 'found')), s2)]
            if last in ('end', 'cend'):
                return [('ret', ('s', ('set', 'end')), st)]
            if last in ('count', 'contains'):
                self.checks.add(inst.loc())
                if q.pend:
                    self.report(inst, 'checks the next link before remembering the one just queued')
                r = self.outcomes(st, 'V', ('k', 0), ('k', 1))
                return r
            if last in ('insert', 'emplace'):
                self.checks.add(inst.loc())
                s2 = st.copy()
                had = 'V' in q.ok
                st.q = q.put(ok=q.ok | {'V', 'new'}, pend=False)
                s2.q = q.put(ok=(q.ok if had else q.ok - {'V'}) | {'new'}, pend=False)
                out = [('ret', ('agg', (('s', ('set', 'found')), ('k', 1))), st)]
                if not had or True:
                    out.append(('ret', ('agg', (('s', ('set', 'found')), ('k', 0))), s2))
                return out
            if last in ('erase', 'clear') and q.phase != 'start':
                self.report(inst, 'forgets which links were queued before')
        if re.match(r'std::operator(==|!=)', short) and '_Rb_tree_const_iterator' in dem or '_Node_iterator' in dem and re.match(r'std::(__detail::)?operator[=!]=', short):
            a, b = self.it(eng, st, args[0]), self.it(eng, st, args[1])
            v = {a, b}
            same = {('s', ('set', 'end'))} == v
            diff = v == {('s', ('set', 'end')), ('s', ('set', 'found'))}
            if same or diff:
                return [('ret', ('k', 1 if same == ('==' in short) else 0), st)]
        if short == 'GURL::host' and len(args) > 1:
            st.mem[(('host',) + eng.addr(st, args[0]), 0)] = ('k', 1)
            return [('ret', None, st)]
        if (re.match(r'std::operator(==|!=)', short) or re.match(r'std::(__cxx11::)?basic_string::compare$', short)) and len(args) == 2:
            if all((('host',) + eng.addr(st, a), 0) in st.mem for a in args):
                self.checks.add(inst.loc())
                eq = short.endswith('==')
                return self.outcomes(st, 'H', ('k', 1 if eq else 0), ('k', 0 if eq else 1))
        if last.startswith('~') and args:
            st.mem.pop((('host',) + eng.addr(st, args[0]), 0), None)
        # -- admissions
        if A.push(fobj):
            if q.phase == 'start':
                return [('ret', None, st)]
            need = ['V'] + ([] if q.vec == 'ok' else ['R'])
            self.require(st, inst, 'queues a link of a page', need)
            if q.pend:
                self.report(inst, 'queues a second link before remembering the first')
            st.q = st.q.put(pend='new' not in q.ok)
            return [('ret', None, st)]
        if 'vector<GURL' in dem and last in ('push_back', 'emplace_back'):
            if q.phase == 'links':
                self.require(st, inst, 'takes a link of a page', ['H'])
            elif q.phase == 'filter':
                self.require(st, inst, 'keeps a link', ['R'])
                st.q = st.q.put(vec='part')
            return [('ret', None, st)]
        if q.phase == 'filter':
            if ITER.match(short) and 'GURL' in dem and last in NEXT:
                o = eng.addr(st, args[0])
                st.q = q.put(bal=self.bal(q.bal, o, 1))
                return None
            if short == 'GURL::operator=' and self.elem(inst, inst.a[0]):
                self.require(st, inst, 'keeps a link', ['R'])
                d = dict.fromkeys(self.moved(st, inst.fn), 0)
                d.update(q.bal)
                st.q = q.put(bal=frozenset((o, max(-2, n - 1)) for o, n in d.items()), vec='raw' if q.vec == 'ok' else q.vec)
                return [('ret', args[0], st)]
            if 'vector<GURL' in dem and last in ('erase', 'resize') and q.vec != 'ok':
                st.q = q.put(vec='ok')
                it = self.source(eng, st, inst)
                n = dict(q.bal).get(it)
                if last == 'erase' and it is not None and n not in (None, 0):
                    self.report(inst, 'drops or keeps other links than the filter admitted (the end of the kept links is not moved once for every admitted link)')
                return None
            if 'vector<GURL' in dem and last in ('operator=', 'swap', 'vector') and len(args) > 1:
                a, b = eng.addr(st, args[0])[0], eng.addr(st, args[1])[0]
                lk = st.mem.get((('links',), 0), ('', None))[1]
                ra, rb = [x == lk and q.vec != 'ok' or (('host', 'raw', x), 0) in st.mem for x in (a, b)]
                if lk in (a, b) and not (ra and rb) and (last == 'swap' or a == lk):
                    st.q = q.put(vec='ok')
                elif rb and b[0] != 'k':
                    st.mem[(('host', 'raw', a), 0)] = ('k', 1)
                return None
            if short in ('std::remove_if', 'std::copy_if') and 'GURL' in dem:
                for g in A.predicates(fobj):
                    for what, f2 in A.judge(g, short == 'std::copy_if'):
                        self.bad.append((f2, what))
                st.q = q.put(vec='part' if short == 'std::copy_if' else q.vec)
        return None

    def moved(self, st, f):
        """iterator variables of the function which are advanced somewhere in it"""
        ids = {x.a[0] for x in f.calls() if x.d['fn'][0] == 'f' and x.a and x.a[0][0] == 'i' and f.insts[x.a[0][1]].op == 'alloca' and
               ITER.match(self.P.F[x.d['fn'][1]].short) and self.P.F[x.d['fn'][1]].short.split('::')[-1] in NEXT}
        out = []
        for i in ids:
            v = st.env.get(i)
            if v is not None and v[0] == 'p':
                out.append((v[1], v[2]))
        return out

    def elem(self, inst, v):
        f = inst.fn
        n = 0
        while v[0] == 'i' and n < 6:
            x = f.insts[v[1]]; n += 1
            if x.is_call and x.d['fn'][0] == 'f':
                g = self.P.F[x.d['fn'][1]]
                return 'GURL' in g.dem and (g.short.startswith('std::vector::') and g.short.split('::')[-1] in ('operator[]', 'at')
                                            or bool(ITER.match(g.short)) and g.short.endswith('operator*'))
            if x.op in ('bitcast', 'getelementptr'):
                v = x.a[0]
            else:
                return False
        return False

    @staticmethod
    def bal(b, o, k):
        d = dict(b)
        d[o] = max(-2, min(2, d.get(o, 0) + k))
        return frozenset(d.items())

    def source(self, eng, st, inst):
        """iterator variable that the first argument of erase is a copy of"""
        f = inst.fn
        v = inst.a[1] if len(inst.a) > 1 else None
        n = 0
        while v is not None and v[0] == 'i' and n < 10:
            n += 1
            x = f.insts[v[1]]
            if x.op in ('load', 'getelementptr', 'bitcast'):
                v = x.a[0]
            elif x.op == 'alloca':
                if any(u.is_call and u.a and u.a[0] == v and u.d['fn'][0] == 'f' and ITER.match(self.P.F[u.d['fn'][1]].short) and
                       self.P.F[u.d['fn'][1]].short.split('::')[-1] in NEXT for u in f.uses(v)):
                    return next((k for k in dict(st.q.bal) if k[0][0] == 'al' and k[0][2] == x.i and k[0][1][-1] == f.name), None)
                conv = [u for u in f.uses(v) if u.is_call and len(u.a) > 1 and u.a[0] == v and u.a[1] != v and u.d['fn'][0] == 'f' and
                        '__normal_iterator' in P_dem(self.P, u)]
                mem = [u for u in f.uses(v) if u.is_call and u.d['fn'][1].startswith('llvm.memcpy') and u.a[0] == v]
                if len(conv) == 1:
                    v = conv[0].a[1]
                elif len(mem) == 1 and not conv:
                    v = mem[0].a[1]
                else:
                    # the variable itself
                    for k in [c for c in dict(st.q.bal) if c[0][0] == 'al' and c[0][2] == x.i and c[0][1][-1] == f.name]:
                        return k
                    return None
                if v[0] == 'i' and f.insts[v[1]].op == 'alloca':
                    for k in [c for c in dict(st.q.bal) if c[0][0] == 'al' and c[0][2] == v[1] and c[0][1][-1] == f.name]:
                        return k
            else:
                return None
        return None

    def after_call(self, eng, st, inst, fobj, short, args, ret):
        if fobj.name in self.A.links:
            st.q = st.q.put(phase='filter', vec='raw', ok=frozenset(), bal=frozenset())
        elif st.q.bal:
            # iterators of a function that has returned
            st.q = st.q.put(bal=frozenset())

    def ret(self, eng, st, fn, rv, kind, depth):
        if kind == 'ret' and st.q.pend:
            self.report(fn.blocks[-1][-1], 'ends without remembering a link it queued')


def P_dem(P, x):
    return P.F[x.d['fn'][1]].dem


class Anchors:
    def __init__(self, P):
        self.P = P
        self.robots = {f.name for f in P.repo_fns() if f.blocks and f.cls == 'Robotstxt' and f.ret not in ('void', None) and len(f.ditypes or ()) == 3 and 'GURL' in str(f.ditypes[2])}
        self.links = {f.name for f in P.repo_fns() if f.blocks and f.cls == 'Page' and str((f.ditypes or [''])[0]).startswith('std::vector<GURL')}

    def push(self, f):
        return f.short in ('std::queue::push', 'std::queue::emplace', 'std::deque::push_back', 'std::list::push_back', 'std::deque::emplace_back') and 'GURL' in f.dem

    def concerns(self, x):
        """calls that make a loop an iteration over links"""
        for c in self.P.callees(x):
            f = self.P.F.get(c)
            if f is None:
                continue
            if f.name in self.robots or self.push(f) or f.short == 'GURL::host':
                return True
            if re.match(r'std::(unordered_)?set::(find|count|insert|emplace)$', f.short) and 'basic_string' in f.dem:
                return True
            if f.repo and f.blocks and f.name not in self.links and any(n in self.robots for n in self.P.reach([f.name])):
                return True
        return False

    def predicates(self, f):
        return [self.P.F[n] for n in self.P.lib_closure(f.name) if self.P.F[n].repo]

    def judge(self, g, keep_if):
        """(what, instruction) for each return of a predicate that keeps an unchecked link"""
        out = []
        A = self

        class One(Filter):
            def init_q(self):
                return Q(('filter', 'raw', frozenset(), frozenset(), False))

            def ret(self, eng, st, fn, rv, kind, depth):
                if kind != 'ret' or rv is None:
                    return
                t = eng.truth(st, rv)
                if (t is None or t == keep_if) and 'R' not in st.q.ok:
                    out.append(('keeps a link without robots.txt and the exclusions allowing it', fn.blocks[-1][-1]))
        c = One(self.P, J.upward(self.P, self.robots) | {g.name}, A)
        Engine(self.P, c, maxdepth=6, budget=200000).run_root(g)
        return out


def run(P, rep, tier):
    rep.rule = ('Path analysis over the compiler IR of the crawl loop, the link extraction and the link filter: since an element of the list of links was '
                'taken, it may only be kept after robots.txt and the exclusions allowed it, and only be queued after it was found not to be queued '
                'before; every queued link is remembered before the next one is judged.')
    rep.assumptions = ['URL parsing and resolution (GURL) and HTML parsing are trusted', 'the matching of a URL against one exclusion is not judged']
    A = Anchors(P)
    push = [x for f in P.repo_fns() for x in f.calls() if x.d['fn'][0] == 'f' and A.push(P.F[x.d['fn'][1]])]
    names = {x.fn.name for x in push} | A.links | A.robots
    on = J.upward(P, names)
    for f in list(P.repo_fns()):
        if f.name not in on and any(x.is_call and A.concerns(x) for x in f.all()):
            on |= J.upward(P, {f.name})
    roots = [f for f in P.repo_fns() if f.name in on and A.links & set(P.reach([f.name])) and {x.fn.name for x in push} & set(P.reach([f.name]))]
    low = [f for f in roots if not any(g.name != f.name and g.name in P.reach([f.name]) for g in roots)]
    checks = set(); admits = set()
    for f in low:
        c = Filter(P, on, A)
        try:
            Engine(P, c, maxdepth=10, budget=3000000).run_root(f)
        except Budget:
            rep.error('budget exceeded in %s' % f.short); continue
        checks |= c.checks; admits |= c.admits
        for inst, what in {(i.fn.short, w): (i, w) for i, w in c.bad}.values():
            rep.viol('%s|%s' % (inst.fn.short, what), '%s %s at %s (crawl loop in %s)' % (inst.fn.short, what, inst.loc(), f.short))
        rep.ob('every link queued by %s passed the filters' % f.short, not c.bad)
    for a in sorted(admits):
        rep.ob('link admitted at %s' % a)
    rep.stats['filter_checks'] = sorted(checks)
    rep.need('crawl_loops', len(low), 1)
    rep.need('admissions', len(admits), 2)
    rep.need('robots_decisions', len(A.robots), 1)
