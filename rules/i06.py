import re
import inject as J

DBSTATUS = {('_ZTSN7leveldb2DBE', 16): 'Put', ('_ZTSN7leveldb2DBE', 24): 'Delete', ('_ZTSN7leveldb2DBE', 32): 'Write', ('_ZTSN7leveldb2DBE', 40): 'Get'}
VALID = ('_ZTSN7leveldb8IteratorE', 16)
STATUS = ('_ZTSN7leveldb8IteratorE', 80)


def slot(P, x):
    fv = x.d['fn']
    if fv[0] == 'i':
        ld = x.fn.insts.get(fv[1])
        if ld is not None:
            return P.virtual_slot(x.fn, ld)
    return None


class Db(J.Inject):
    """judged at the exit of an entry function: an exception or a failing result"""
    it_bad = False

    def sticky(self, eng, st, inst, fobj, short, args):
        if self.it_bad and fobj is None:
            s = slot(self.P, inst)
            if s == STATUS:
                o, off = eng.addr(st, args[0])
                st.mem[(o, off)] = J.MARK
                return [('ret', None, st)]
            if s == VALID:
                return [('ret', ('k', 0), st)]
        return J.Inject.sticky(self, eng, st, inst, fobj, short, args)

    fail_is_zero = False

    def judge(self, eng, st, fn, rv, kind):
        if kind == 'throw':
            return
        t = None if rv is None else eng.truth(st, eng.ptr_of(rv))
        if rv is None or t is not (False if self.fail_is_zero else True):
            self.bad.append('returns normally with a result that does not report it')


def iterator_ends(c, eng, st, inst, args):
    c.it_bad = True
    return [('ret', ('k', 0), st)]


def sites(P):
    out = []
    for f in P.repo_fns():
        for x in f.calls():
            fv = x.d['fn']
            if fv[0] == 'f':
                s = P.F[fv[1]].short
                if re.match(r'leveldb::(DB::Open|RepairDB)$', s):
                    out.append(('DB::Open', x, J.fails_status))
            else:
                s = slot(P, x)
                if s in DBSTATUS:
                    out.append((DBSTATUS[s], x, J.fails_status))
                elif s == VALID:
                    out.append(('iteration', x, iterator_ends))
    return out


class Counted(J.Client):
    """records stored minus counter updates, per formula"""
    def __init__(self, P, rel):
        self.P = P; self.rel = rel; self.bad = []; self.stores = set(); self.ins = set(); self.exits = 0

    def init_q(self):
        return 0

    def relevant(self, eng, f):
        return f.name in self.rel

    def call(self, eng, st, inst, fobj, short, args):
        if short.split('::')[-1] == 'insertFormula' and fobj is not None and fobj.cls and 'Db' in fobj.cls:
            self.ins.add(inst)
            s2 = st.copy()
            s2.q = min(2, s2.q + 1)
            return [('ret', ('k', 0), s2), ('ret', J.M1, st)]
        return None

    def store(self, eng, st, inst, addr, val):
        if inst.op == 'store':
            fd = self.P.field(inst.fn, inst.a[1])
            if fd and fd[1] == 'solutions' and 'TmpLeafNode' in fd[0] and not (inst.a[0][0] == 'c' and inst.a[0][1] == 0):
                self.stores.add(inst)
                st.q = max(-2, st.q - 1)

    def ret(self, eng, st, fn, rv, kind, depth):
        self.exits += 1
        if kind == 'ret' and st.q != 0:
            self.bad.append('a stored record is not counted' if st.q > 0 else 'a formula is counted without a stored record')


def climb(P, f, judge, depth=0, seen=None):
    """judge(function) -> findings; a finding may be settled by every caller of the function instead"""
    seen = seen or set()
    seen.add(f.name)
    bad = judge(f)
    if not bad or depth >= 3:
        return bad
    cs = {x.fn.name: x.fn for x in P.callers(f.name) if x.fn.repo}
    if not cs or any(n in seen for n in cs):
        return bad
    for g in cs.values():
        if climb(P, g, judge, depth + 1, seen):
            return bad
    return []


def run(P, rep, tier):
    rep.rule = ('Failure injection over the abstract program: each LevelDB call returns an error status, and each iteration ends because of an '
                'error, in turn. The function that made the call, the index loader, the index build and the query handlers must then end with an '
                'exception or a failing result; a formula whose record was not stored must not change the number of solutions of its leaf.')
    rep.assumptions = ['an iterator that ended because of an error reports it through status()', 'std::bad_alloc is not considered']
    S = sites(P)
    kinds = {}
    for k, x, f in S:
        kinds[k] = kinds.get(k, 0) + 1
    rep.need('open_calls', kinds.get('DB::Open', 0), 4)
    rep.need('write_calls', kinds.get('Put', 0) + kinds.get('Write', 0), 2)
    rep.need('read_calls', kinds.get('Get', 0), 1)
    rep.need('iterations', kinds.get('iteration', 0), 1)
    handlers = [f for f in P.repo_fns() if f.short.split('::')[-1] == 'handleQuery' and f.blocks]
    loaders = [f for f in P.repo_fns() if f.short == 'mws::index::IndexLoader::IndexLoader' and re.search(r'C2E', f.name)]
    build = [f for f in P.repo_fns() if f.short == 'mws::index::createCompressedIndex']
    rep.need('entry_functions', len(handlers) + len(loaders) + len(build), 4)
    inj = 0

    def go(root, k, x, fail, zero):
        nonlocal inj
        on = J.upward(P, [x.fn.name]) & set(P.reach([root.name])) | {root.name}
        c = Db(P, x, fail, on); c.fail_is_zero = zero
        J.run(P, root, c)
        inj += c.hit
        rep.ob('%s failing at %s (%s) is reported by %s' % (k, x.loc(), x.fn.short, root.short), not c.bad)
        if not c.hit:
            rep.error('%s at %s not reached from %s' % (k, x.loc(), root.short))
        for b in sorted(set(c.bad)):
            rep.viol('%s|%s|%s' % (x.fn.short, k, root.short), 'when %s fails at %s (%s), %s %s' % (k, x.loc(), x.fn.short, root.short, b))
    for k, x, fail in S:
        root = x.fn
        zero = bool(root.ret == 'ptr')
        go(root, k, x, fail, zero)
        for r in loaders + build + handlers:
            if r is root or x.fn.name not in P.reach([r.name]):
                continue
            if k in ('Put', 'Write', 'Delete'):
                continue
            if r in build and k != 'DB::Open':
                continue
            go(r, k, x, fail, r in handlers)
    n = 0
    touch = set()
    for f in P.repo_fns():
        if any(y.op == 'store' and (P.field(f, y.a[1]) or ('', ''))[1] == 'solutions' for y in f.all()):
            touch.add(f.name)
    for f in P.repo_fns():
        calls = [x for x in f.calls() if any(P.F[c].short.split('::')[-1] == 'insertFormula' for c in P.callees(x) if c in P.F)]
        if not calls:
            continue
        n += len(calls)

        def judge(g):
            c = Counted(P, J.upward(P, [f.name]) | J.upward(P, touch) | {g.name})
            J.Engine(P, c, budget=1500000).run_root(g)
            rep.stats['solution_updates'] = rep.stats.get('solution_updates', 0) + len(c.stores)
            return sorted(set(c.bad))
        bad = climb(P, f, judge)
        rep.ob('each record stored by %s is counted once, and nothing else' % f.short, not bad)
        for b in bad:
            rep.viol('%s|%s' % (f.short, b), 'on a path of %s %s (%s)' % (f.short, b, calls[0].loc()))
    rep.need('formula_insertions', n, 1)
    rep.stats['failures_injected'] = inj
