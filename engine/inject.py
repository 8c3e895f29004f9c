"""Failure injection without execution: the failing outcome of one call site is followed through the abstract
interpreter from an entry function, and what the entry function reports afterwards is judged."""
import re
from absint import Client, Engine, Budget, EXC

NULL = ('k', 0)
M1 = ('k', -1)
MARK = ('bad',)          # cell of an object that is in a failed state (status object, stream)


def trace(f, v):
    """SSA value -> root operand through casts, geps with constant offsets and loads of once-stored slots"""
    n = 0
    while v[0] == 'i' and n < 30:
        x = f.insts[v[1]]; n += 1
        if x.op in ('bitcast', 'getelementptr', 'addrspacecast', 'freeze'):
            v = x.a[0]
        elif x.op == 'load' and x.a[0][0] == 'i' and f.insts[x.a[0][1]].op == 'alloca':
            st = [u for u in f.uses(x.a[0]) if u.op == 'store' and u.a[1] == x.a[0]]
            if len(st) != 1:
                return v
            v = st[0].a[0]
        else:
            return v
    return v


class Inject(Client):
    """q: 0 before the failure, 1 after it"""
    def __init__(self, P, site, fail, on_path, twice=False):
        self.P = P; self.site = site; self.fail = fail; self.on_path = on_path
        self.bad = []; self.exits = 0; self.failed_exits = 0; self.twice = twice
        self.hit = 0; self.stream = None

    def init_q(self):
        return 0

    def relevant(self, eng, f):
        return f.name in self.on_path or (self.stream is not None or self.fail is fails_status) and f.name in state_readers(self.P)

    def keep(self, v):
        return v == MARK

    def keep_cell(self, k, v, st):
        return v == MARK

    def call(self, eng, st, inst, fobj, short, args):
        if inst is self.site and (st.q == 0 or self.twice):
            self.hit += 1
            s2 = st.copy()
            s2.q = 1
            out = self.fail(self, eng, s2, inst, args)
            d = self.succeed(eng, st, inst, fobj, short, args)
            return out + d
        if st.q == 1:
            r = self.sticky(eng, st, inst, fobj, short, args)
            if r is not None:
                return r
        return self.model(eng, st, inst, fobj, short, args)

    def model(self, eng, st, inst, fobj, short, args):
        return None

    def succeed(self, eng, st, inst, fobj, short, args):
        if st.q == 1:
            return []
        eng.havoc_args(st, args, short)
        return [('ret', None, st)]

    def sticky(self, eng, st, inst, fobj, short, args):
        last = short.split('::')[-1]
        if self.stream == 'stdio':
            if short in ('ferror', 'ferror_unlocked'):
                return [('ret', ('k', 1), st)]
        elif self.stream in ('open', 'write'):
            if re.match(r'std::(basic_ios|basic_ostream|basic_ofstream|basic_fstream|ios)::', short):
                if last in ('operator!', 'fail', 'bad'):
                    return [('ret', ('k', 1), st)]
                if last in ('good', 'operator bool'):
                    return [('ret', ('k', 0), st)]
            if re.match(r'std::basic_(ofstream|fstream)::(close|flush)$', short):
                return [('ret', None, st)]
            if self.stream == 'open' and re.match(r'std::basic_(filebuf|ofstream|fstream)::(close|is_open)$', short):
                return [('ret', NULL, st)]
        if short == 'leveldb::Status::ok':
            o, off = eng.addr(st, args[0])
            if st.mem.get((o, off)) == MARK:
                return [('ret', ('k', 0), st)]
            return [('ret', None, st)]
        if short in ('leveldb::Status::Status', 'leveldb::Status::operator=') and len(args) > 1:
            o, off = eng.addr(st, args[1])
            d, doff = eng.addr(st, args[0])
            bad = st.mem.get((o, off)) == MARK
            if bad:
                st.mem[(d, doff)] = MARK
            else:
                st.mem.pop((d, doff), None)
            return [('ret', args[0] if inst.t else None, st)]
        if short == 'leveldb::Status::~Status':
            o, off = eng.addr(st, args[0])
            st.mem.pop((o, off), None)
            return [('ret', None, st)]
        return None

    def ret(self, eng, st, fn, rv, kind, depth):
        self.exits += 1
        if st.q == 1 and kind != 'stop':
            self.failed_exits += 1
            self.judge(eng, st, fn, rv, kind)

    def judge(self, eng, st, fn, rv, kind):
        pass


# ---- failing outcomes
def returns(v):
    def f(c, eng, st, inst, args):
        eng.havoc_args(st, args, '')
        return [('ret', v, st)]
    return f


def fails_stream(v, mode='stdio'):
    """mode: stdio (sticky error indicator), open / write / close of a C++ stream"""
    def f(c, eng, st, inst, args):
        c.stream = mode
        return [('ret', v, st)]
    return f


def fails_status(c, eng, st, inst, args):
    """leveldb call returning its Status through the hidden first argument"""
    o, off = eng.addr(st, args[0])
    st.mem[(o, off)] = MARK
    return [('ret', None, st)]


def upward(P, names):
    """functions from which one of the names is reachable (callbacks through library code included)"""
    cg = P.cg()
    if not hasattr(P, '_rcg'):
        r = {}
        for a, s in cg.items():
            for b in s:
                r.setdefault(b, set()).add(a)
        P._rcg = r
    seen = set(names); st = list(names)
    while st:
        for m in P._rcg.get(st.pop(), ()):
            if m not in seen:
                seen.add(m); st.append(m)
    return seen


def calls_to(P, names, fns=None):
    out = []
    for f in (fns if fns is not None else P.repo_fns()):
        for x in f.calls():
            fv = x.d['fn']
            if fv[0] == 'f' and P.F[fv[1]].short in names:
                out.append(x)
    return out


STATE = re.compile(r'(ferror(_unlocked)?|leveldb::Status::ok|std::(basic_ios|ios|basic_ofstream|basic_fstream)::(operator!|operator bool|fail|bad|good)|'
                   r'std::basic_(filebuf|ofstream|fstream)::(close|is_open))$')


def state_readers(P):
    """functions from which the state of a stream or status can be queried"""
    r = getattr(P, '_state_readers', None)
    if r is None:
        d = {f.name for f in P.repo_fns() for x in f.calls() if x.d['fn'][0] == 'f' and STATE.match(P.F[x.d['fn'][1]].short)}
        r = P._state_readers = upward(P, d)
    return r


def run(P, root, client, maxdepth=16, budget=1500000, **kw):
    eng = Engine(P, client, maxdepth=maxdepth, budget=budget)
    eng.run_root(root, **kw)
    client.steps = eng.steps; client.visited = set(eng.visited_fns)
    return client
