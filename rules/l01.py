"""Lock discipline: balance on every path, guarded data, container emptiness, no blocking under a lock."""
import re
from absint import Client, Engine, Budget
import inject as J
from common import foreign_callbacks

ACQ = {'pthread_mutex_lock', 'std::mutex::lock', 'std::recursive_mutex::lock', 'pthread_rwlock_wrlock', 'pthread_rwlock_rdlock', 'pthread_spin_lock'}
TRY = {'pthread_mutex_trylock': 0, 'std::mutex::try_lock': 1}
REL = {'pthread_mutex_unlock', 'std::mutex::unlock', 'std::recursive_mutex::unlock', 'pthread_rwlock_unlock', 'pthread_spin_unlock'}
GUARD = re.compile(r'std::(lock_guard|unique_lock|scoped_lock|shared_lock)::(\w+|~\w+)$')
BLOCK = {'sleep', 'usleep', 'nanosleep', 'curl_easy_perform', 'sigsuspend', 'pause', 'select', 'poll', 'accept', 'connect', 'recv', 'recvfrom',
         'std::this_thread::sleep_for', 'std::this_thread::sleep_until', 'pthread_join', 'waitpid', 'wait'}
START = {'pthread_create', 'MHD_start_daemon', 'std::thread::thread'}
MUTEX = re.compile(r'pthread_(mutex|rwlock|spinlock)_t|std::(recursive_|timed_|shared_)?mutex$|__pthread_mutex')
SEQ = re.compile(r'std::(queue|stack|priority_queue|deque|vector|list)::')
TAKE = {'front', 'back', 'top', 'pop', 'pop_front', 'pop_back'}
REFS = {'front', 'back', 'top', 'operator[]', 'at'}
XML = ('the XML library lock',)


class Locks(Client):
    """q: (held locks, threads may run)"""
    def __init__(self, P, D, on, threads):
        self.P = P; self.D = D; self.on = on; self.threads = threads
        self.bad = []; self.accesses = set(); self.ops = set()

    def init_q(self):
        return (frozenset(), self.threads)

    def relevant(self, eng, f):
        return f.name in self.on

    def keep_cell(self, k, v, st):
        return isinstance(k[0], tuple) and k[0][:1] in (('guard',), ('shared',))

    def key(self, eng, st, inst, k, av):
        """(names of the lock: class member or global variable / address)"""
        v = inst.a[k]
        fd = self.P.field(inst.fn, v)
        n = 0
        while fd is None and v[0] == 'i' and n < 6:
            x = inst.fn.insts[v[1]]; n += 1
            if x.op in ('bitcast', 'getelementptr'):
                v = x.a[0]
                fd = self.P.field(inst.fn, v)
            else:
                break
        if fd and MUTEX.search(fd[2][3]):
            return (fd[0], fd[1])
        if v[0] == 'g':
            return (self.P.G[v[1]]['dem'],)
        a = eng.addr(st, av)
        m = st.mem.get((('shared',), a))
        if m is not None:
            return m[1]
        if a[0][0] == 'g':
            return (self.P.G[a[0][1]]['dem'],)
        return ('lock', a)

    def report(self, inst, what):
        self.bad.append((inst, what))

    def acquire(self, st, inst, k):
        held, thr = st.q
        self.ops.add(inst.loc())
        if k in held and k != XML:
            self.report(inst, 'takes %s which is already held' % self.name(k))
        st.q = (held | {k}, thr)
        self.stale(st)

    def release(self, st, inst, k):
        held, thr = st.q
        self.ops.add(inst.loc())
        if k not in held:
            self.report(inst, 'releases %s which is not held' % self.name(k))
        st.q = (held - {k}, thr)
        self.stale(st)

    @staticmethod
    def stale(st):
        for c in [c for c in st.mem if c[0] == ('checked',)]:
            del st.mem[c]

    @staticmethod
    def name(k):
        return '::'.join(str(x) for x in k) if k[0] != 'lock' else 'a lock'

    def needs(self, eng, st, inst, v, av):
        """lock that guards the data at this address, or None"""
        fd = self.P.field(inst.fn, v) if v[0] == 'i' else None
        if fd and fd[:2] in self.D.members:
            return self.D.members[fd[:2]], '%s::%s' % fd[:2]
        if v[0] == 'g' and v[1] in self.D.globals:
            return self.D.globals[v[1]], self.P.G[v[1]]['dem']
        if av is None:
            return None
        a = eng.addr(st, av)
        if isinstance(a[0], tuple) and a[0][:1] == ('elem',):
            return a[0][1], 'an element of ' + a[0][2]
        m = st.mem.get((('shared',), a))
        if m is not None and m[0] == 'data':
            return m[1], m[2]
        return None

    def access(self, eng, st, inst, v, av):
        r = self.needs(eng, st, inst, v, av)
        if r is None or inst.fn.name in self.D.exempt:
            return
        self.accesses.add((inst.loc(), r[1]))
        held, thr = st.q
        if thr and r[0] not in held:
            self.report(inst, 'accesses %s without holding %s' % (r[1], self.name(r[0])))

    def load(self, eng, st, inst, addr, val):
        self.access(eng, st, inst, inst.a[0], addr)

    def store(self, eng, st, inst, addr, val):
        self.access(eng, st, inst, inst.a[1], addr)

    def call(self, eng, st, inst, fobj, short, args):
        last = short.split('::')[-1]
        if short in ACQ:
            self.acquire(st, inst, self.key(eng, st, inst, 0, args[0]))
            return [('ret', ('k', 0) if inst.t else None, st)]
        if short in TRY:
            s2 = st.copy()
            self.acquire(st, inst, self.key(eng, st, inst, 0, args[0]))
            return [('ret', ('k', TRY[short]), st), ('ret', ('k', 16 if TRY[short] == 0 else 0), s2)]
        if short in REL:
            self.release(st, inst, self.key(eng, st, inst, 0, args[0]))
            return [('ret', ('k', 0) if inst.t else None, st)]
        if short in ('xmlLockLibrary', 'xmlUnlockLibrary'):
            (self.acquire if short == 'xmlLockLibrary' else self.release)(st, inst, XML)
            return [('ret', None, st)]
        m = GUARD.match(short)
        if m:
            g = (('guard',) + eng.addr(st, args[0]), 0)
            if m.group(2) in ('lock_guard', 'unique_lock', 'scoped_lock', 'shared_lock'):
                if len(args) > 1:
                    k = self.key(eng, st, inst, 1, args[1])
                    self.acquire(st, inst, k)
                    st.mem[g] = ('held', k)
            elif m.group(2) == 'unlock' or m.group(2).startswith('~'):
                k = st.mem.pop(g, None)
                if k is not None:
                    self.release(st, inst, k[1])
                    if m.group(2) == 'unlock':
                        st.mem[g] = ('free', k[1])
                        if k[0] == 'free':
                            self.report(inst, 'releases a lock twice')
            elif m.group(2) == 'lock':
                k = st.mem.get(g)
                if k is not None:
                    self.acquire(st, inst, k[1]); st.mem[g] = ('held', k[1])
            return [('ret', None, st)]
        if short in BLOCK and st.q[0] and (fobj is None or not fobj.repo):
            self.report(inst, 'waits (%s) while holding %s' % (short, ', '.join(sorted(self.name(k) for k in st.q[0]))))
        if short in START:
            st.q = (st.q[0], True)
        own = fobj is not None and fobj.repo and fobj.blocks
        for k, v in enumerate(inst.a):
            if k >= len(args):
                break
            if own:
                r = self.needs(eng, st, inst, v, args[k])
                if r and not (args[k][0] == 'p' and args[k][1][:1] == ('elem',)):
                    st.mem[(('shared',), eng.addr(st, args[k]))] = ('data',) + r
                elif v[0] == 'i':
                    fd = self.P.field(inst.fn, v)
                    if fd and MUTEX.search(fd[2][3]):
                        st.mem[(('shared',), eng.addr(st, args[k]))] = ('lock', (fd[0], fd[1]))
            elif inst.d['fn'][0] != 'f' or not inst.d['fn'][1].startswith('llvm.'):
                if short.startswith('pthread_') or fobj is None:
                    continue
                self.access(eng, st, inst, v, args[k])
        if own:
            return None
        if SEQ.match(short) and args:
            r = self.needs(eng, st, inst, inst.a[0], args[0])
            if r:
                c = (('checked',), r[1])
                if last in ('empty', 'size'):
                    v = ('s', (last, r[1], inst.loc()))
                    st.facts.pop(v[1], None)
                    if r[0] in st.q[0] or not st.q[1]:
                        st.mem[c] = v
                    return [('ret', v, st)]
                if last in TAKE:
                    v = st.mem.get(c)
                    g = eng.rng(st, v) if v is not None else None
                    if g is None or not (g[1] == 0 if v[1][0] == 'empty' else g[0] > 0 or 0 in g[2]):
                        self.report(inst, 'takes an element of %s without having found it non-empty since the lock was taken' % r[1])
                    if last.startswith('pop'):
                        st.mem.pop(c, None)
                if last in REFS:
                    return [('ret', ('p', ('elem', r[0], r[1]), 0), st)]
        return None

    def ret(self, eng, st, fn, rv, kind, depth):
        if kind != 'stop' and not fn.name.startswith('main.'):
            for k in st.q[0]:
                self.report(fn.blocks[-1][-1], 'ends (%s) while still holding %s' % ('exception' if kind == 'throw' else 'return', self.name(k)))


class Guarded:
    """members next to a mutex, static members of a class with a static mutex"""
    def __init__(self, P):
        self.members = {}; self.globals = {}; self.exempt = set()
        cls = {}
        for c, d in P.ditypes.items():
            ms = [m for m in d['members'] if len(m) >= 4 and m[0] != '<base>' and m[1] >= 0 and isinstance(m[3], str)]
            mx = [m for m in ms if MUTEX.search(m[3])]
            if mx:
                cls[c] = mx
                for m in ms:
                    if not MUTEX.search(m[3]) and 'atomic' not in m[3] and 'pthread_' not in m[3] and 'condition_variable' not in m[3]:
                        self.members[(c, m[0])] = (c, mx[0][0])
        gm = {}
        for n, g in P.G.items():
            d = g['dem']
            if '::' in d and re.search(r'pthread_(mutex|rwlock)_t|std::(recursive_)?mutex', g.get('ty', '')) and str(g.get('file', '')).startswith(P.root + '/'):
                gm[d.rsplit('::', 1)[0]] = (d,)
        for n, g in P.G.items():
            d = g['dem']
            c = d.rsplit('::', 1)[0] if '::' in d else None
            if c in gm and (d,) != gm[c] and not g.get('const') and not re.search(r'pthread_|condition_variable', g.get('ty', '')):
                self.globals[n] = gm[c]
        own = set(cls) | set(gm)
        for f in P.repo_fns():
            if f.cls in own and f.short.split('::')[-1] in (f.cls.split('::')[-1], '~' + f.cls.split('::')[-1]) and f.cls in cls:
                self.exempt.add(f.name)


def run(P, rep, tier):
    rep.rule = ('Lock typestate over the compiler IR with branch correlation, from every entry (programs, functions called back by C libraries or '
                'started as threads, functions nobody calls): a lock is not taken twice, released only when held, and not held at the end; data '
                'declared next to a lock is accessed only while it is held (once threads may run), a queue is only read after it was found '
                'non-empty under the same lock, and nothing waits while a lock is held.')
    rep.assumptions = ['data that a lock protects is declared in the same class as the lock']
    D = Guarded(P)
    fc = foreign_callbacks(P)
    touch = set()
    for f in P.repo_fns():
        for x in f.all():
            if x.is_call and x.d['fn'][0] == 'f':
                s = P.F[x.d['fn'][1]].short
                if s in ACQ or s in REL or s in TRY or s in START or s in ('xmlLockLibrary', 'xmlUnlockLibrary') or GUARD.match(s):
                    touch.add(f.name)
            if x.op == 'getelementptr':
                fd = P.field(f, ('i', x.i))
                if fd and (fd[:2] in D.members or MUTEX.search(str(fd[2][3]))):
                    touch.add(f.name)
            if any(a[0] == 'g' and a[1] in D.globals for a in x.a):
                touch.add(f.name)
    # helpers that get guarded data, a lock or an element by reference
    grown = True
    while grown:
        grown = False
        for n in list(touch):
            for x in P.F[n].calls():
                for c in P.callees(x):
                    g = P.F.get(c)
                    if g is not None and g.repo and g.blocks and c not in touch and any(a == 'ptr' for a in g.args):
                        if any(ref_arg(P, D, x, v) for v in x.a):
                            touch.add(c); grown = True
    on = J.upward(P, touch)
    roots = []
    for f in P.repo_fns():
        if f.name not in on:
            continue
        if f.name.startswith('main.'):
            roots.append((f, False))
        elif f.name in fc or not [x for x in P.callers(f.name) if x.fn.repo]:
            roots.append((f, True))
    ops = set(); acc = set()
    for f, thr in roots:
        c = Locks(P, D, on, thr)
        try:
            Engine(P, c, maxdepth=14, budget=3000000).run_root(f)
        except Budget:
            rep.error('budget exceeded in %s' % f.short); continue
        ops |= c.ops; acc |= c.accesses
        rep.ob('lock discipline of everything %s does' % f.short, not c.bad)
        for inst, what in {(i.fn.short, w): (i, w) for i, w in c.bad}.values():
            rep.viol('%s|%s' % (inst.fn.short, what), '%s %s at %s (entered from %s)' % (inst.fn.short, what, inst.loc(), f.short))
    for l in sorted(acc):
        rep.ob('access to %s at %s' % (l[1], l[0]), True)
    rep.stats['lock_operations'] = len(ops); rep.stats['guarded_members'] = len(D.members) + len(D.globals)
    rep.need('entries', len(roots), 3)
    rep.need('guarded_accesses', len(acc), 2)


def ref_arg(P, D, x, v):
    fd = P.field(x.fn, v) if v[0] == 'i' else None
    if fd and (fd[:2] in D.members or MUTEX.search(str(fd[2][3]))):
        return True
    if v[0] == 'g' and v[1] in D.globals:
        return True
    if v[0] == 'i' and x.fn.insts[v[1]].is_call:
        y = x.fn.insts[v[1]]
        return bool(y.a) and y.d['fn'][0] == 'f' and bool(SEQ.match(P.F[y.d['fn'][1]].short)) and ref_arg(P, D, y, y.a[0])
    return False
