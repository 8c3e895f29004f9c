"""Signal handling of the servers: what handlers may do, and that a termination request is never lost."""
import re
from absint import Client, Engine, Budget
import inject as J

SIGS = {2: 'SIGINT', 15: 'SIGTERM', 11: 'SIGSEGV', 6: 'SIGABRT', 7: 'SIGBUS', 8: 'SIGFPE', 4: 'SIGILL', 1: 'SIGHUP', 3: 'SIGQUIT', 10: 'SIGUSR1', 12: 'SIGUSR2', 13: 'SIGPIPE', 14: 'SIGALRM', 17: 'SIGCHLD'}
TERM = (2, 15); CRASH = (11, 6, 7, 8, 4)
SAFE = {'raise', 'kill', 'sigaction', 'signal', 'sigprocmask', 'pthread_sigmask', 'sigemptyset', 'sigfillset', 'sigaddset', 'sigdelset', 'write', '_exit', '_Exit',
        'abort', 'memset', 'memcpy', 'memcmp', 'memmove', 'strlen', 'strcmp', 'strcpy', 'sem_post', 'getpid', 'time', 'close', 'read', 'unlink', 'pthread_self',
        'pthread_kill', 'alarm', '__errno_location', 'sigsuspend', 'tgkill'}
NAME = lambda s: SIGS.get(s, 'signal %s' % s)


def flagvar(P, g):
    t = str(P.G.get(g, {}).get('dty', ''))
    return 'volatile' in t or 'atomic' in t


class Handler(Client):
    """q: (flags set, signals with their default action restored, ended)"""
    def __init__(self, P, sig):
        self.P = P; self.sig = sig
        self.unsafe = set(); self.bad = []; self.flags = None; self.exits = 0

    def init_q(self):
        return (frozenset(), frozenset(), False)

    def store(self, eng, st, inst, addr, val):
        o, off = eng.addr(st, addr)
        if o[0] != 'g':
            if o[0] not in ('al', 'hp'):
                self.bad.append((inst, 'writes memory other than a flag'))
            return
        fl, df, e = st.q
        nz = val is not None and (val[0] == 'k' and val[1] != 0 or eng.truth(st, val) is True)
        if not flagvar(self.P, o[1]):
            self.bad.append((inst, 'writes %s, which is neither volatile nor atomic' % self.P.G[o[1]]['dem']))
        st.q = ((fl | {o[1]}) if nz else fl - {o[1]}, df, e)

    def call(self, eng, st, inst, fobj, short, args):
        if fobj is not None and fobj.repo and fobj.blocks:
            return None
        fl, df, e = st.q
        if re.match(r'std::(__)?atomic\w*::(store|operator=|exchange|test_and_set)$', short):
            o, off = eng.addr(st, args[0])
            if o[0] == 'g':
                st.q = (fl | {o[1]}, df, e)
            return [('ret', None, st)]
        if short.startswith('std::') and fobj is not None and fobj.blocks and not any(
                self.P.F[n].decl and self.P.F[n].short not in SAFE and not n.startswith('llvm.') for n in self.P.reach([fobj.name])):
            return None
        if short in ('sigaction', 'signal'):
            s = args[0]
            h = None
            if short == 'signal':
                h = args[1]
            elif args[1] != ('k', 0):
                o, off = eng.addr(st, args[1])
                h = st.mem.get((o, off))
                # a cleared structure
                if h is None and any(i.is_call and i.d['fn'][0] == 'f' and 'memset' in i.d['fn'][1] for i in inst.fn.calls()):
                    h = ('k', 0)
            if s[0] == 'k' or s == ('s', ('arg', 0)):
                n = s[1] if s[0] == 'k' else self.sig
                st.q = (fl, (df | {n}) if h == ('k', 0) else df - {n}, e)
            return [('ret', ('k', 0), st)]
        if short in ('raise', 'kill', 'pthread_kill', 'tgkill'):
            s = args[-1] if short != 'raise' else args[0]
            n = s[1] if s[0] == 'k' else None
            if n is not None and n in CRASH and n not in df:
                self.bad.append((inst, 'raises %s again without restoring its default action, so that it is handled over and over' % NAME(n)))
            st.q = (fl, df, True)
            return [('ret', ('k', 0), st)]
        if short in ('_exit', '_Exit', 'abort'):
            st.q = (fl, df, True)
            self.exits += 1
            if self.flags is None:
                self.flags = None
            return [('stop', None, st)]
        if short in SAFE or short.startswith(('llvm.', '__clang', '__cxa_guard')) or short in ('__gxx_personality_v0',):
            return None
        self.unsafe.add((short, inst.loc()))
        return None

    def ret(self, eng, st, fn, rv, kind, depth):
        fl, df, e = st.q
        if kind == 'stop':
            return
        self.exits += 1
        self.flags = fl if self.flags is None else self.flags & fl
        if self.sig in CRASH and not e:
            self.bad.append((fn.blocks[-1][-1], 'returns from %s without ending the process' % NAME(self.sig)))
        if self.sig in TERM and not fl and not e:
            self.bad.append((fn.blocks[-1][-1], 'ignores %s on some path' % NAME(self.sig)))


class Wait(Client):
    """q: (installed {(signal, handler)}, blocked signals, flags tested since they were blocked, waited)"""
    def __init__(self, P, on, flags):
        self.P = P; self.on = on; self.flags = flags
        self.bad = []; self.waits = []; self.inst = set()

    def init_q(self):
        return (frozenset(), frozenset(), frozenset(), False)

    def relevant(self, eng, f):
        return f.name in self.on

    def keep_cell(self, k, v, st):
        return k[0][:1] in (('set',), ('act',))

    def load(self, eng, st, inst, addr, val):
        o, off = eng.addr(st, addr)
        if o[0] == 'g' and o[1] in self.flags:
            i, b, t, w = st.q
            st.q = (i, b, t | {(o[1], b)}, w)

    def cell(self, eng, st, av, kind='set'):
        return ((kind,) + eng.addr(st, av), 0)

    def call(self, eng, st, inst, fobj, short, args):
        i, b, t, w = st.q
        if short in ('sigemptyset', 'sigfillset'):
            st.mem[self.cell(eng, st, args[0])] = ('ss', frozenset() if short == 'sigemptyset' else frozenset(SIGS))
            return [('ret', ('k', 0), st)]
        if short in ('sigaddset', 'sigdelset'):
            c = self.cell(eng, st, args[0])
            s = st.mem.get(c, ('ss', frozenset()))[1]
            if args[1][0] == 'k':
                s = s | {args[1][1]} if short == 'sigaddset' else s - {args[1][1]}
            st.mem[c] = ('ss', s)
            return [('ret', ('k', 0), st)]
        if short in ('sigprocmask', 'pthread_sigmask'):
            if len(args) > 2 and args[2] != ('k', 0):
                st.mem[self.cell(eng, st, args[2])] = ('ss', b)
            if args[1] != ('k', 0):
                s = st.mem.get(self.cell(eng, st, args[1]), ('ss', frozenset()))[1]
                how = args[0][1] if args[0][0] == 'k' else 2
                b = b | s if how == 0 else b - s if how == 1 else s
            st.q = (i, b, frozenset(x for x in t if x[1] == b), w)
            s2 = st.copy()
            return [('ret', ('k', 0), st)]
        if short in ('sigaction', 'signal'):
            sig = args[0][1] if args[0][0] == 'k' else None
            if short == 'sigaction' and args[2] != ('k', 0):
                st.mem[self.cell(eng, st, args[2], 'act')] = ('saved', sig)
            if args[1] == ('k', 0) and short == 'sigaction':
                return [('ret', ('k', 0), st)]
            if short == 'sigaction':
                sv = st.mem.get(self.cell(eng, st, args[1], 'act'))
                if sv is not None:
                    if sv[1] != sig:
                        self.bad.append((inst, 'restores for %s the action that was saved for %s' % (NAME(sig), NAME(sv[1]))))
                    h = None
                else:
                    o, off = eng.addr(st, args[1])
                    h = st.mem.get((o, off))
            else:
                h = args[1]
            # a signal number that is not a constant (taken from a table) stands for both
            for g in (sig,) if sig is not None else TERM:
                i = frozenset(x for x in i if x[0] != g)
                if h is not None and h[0] == 'f':
                    i = i | {(g, h[1])}; self.inst.add((g, h[1]))
            st.q = (i, b, t, w)
            return [('ret', ('k', 0), st)]
        if short in ('sigsuspend', 'pause', 'sigwait', 'sigwaitinfo', 'sigtimedwait'):
            self.waits.append(inst)
            hs = dict(i)
            for sig in TERM:
                if short == 'pause':
                    self.bad.append((inst, 'waits with pause: %s arriving between the test of the flag and the wait is lost' % NAME(sig)))
                elif short == 'sigsuspend':
                    if sig not in hs:
                        self.bad.append((inst, 'waits without a handler for %s' % NAME(sig)))
                        continue
                    if sig not in b:
                        self.bad.append((inst, 'waits without having blocked %s before: it is lost if it arrives just before the wait' % NAME(sig)))
                    m = st.mem.get(self.cell(eng, st, args[0]))
                    if m is not None and sig in m[1]:
                        self.bad.append((inst, 'waits while %s stays blocked' % NAME(sig)))
                    fl = self.flags_of(hs[sig], sig)
                    if fl and not any((f, b) in t for f in fl):
                        self.bad.append((inst, 'waits without testing the flag that the handler of %s sets' % NAME(sig)))
                else:
                    m = st.mem.get(self.cell(eng, st, args[0]))
                    if m is not None and sig not in m[1]:
                        self.bad.append((inst, 'does not wait for %s' % NAME(sig)))
            st.q = (i, b, frozenset(), True)
            return [('ret', ('k', -1) if short == 'sigsuspend' else None, st)]
        return None

    def flags_of(self, h, sig):
        return self.handler_flags.get((h, sig), frozenset())

    def branch(self, eng, st, inst, cond, taken):
        pass


def handlers(P):
    """functions installed as signal handlers"""
    out = set()
    for f in P.repo_fns():
        for x in f.all():
            if x.op == 'store' and x.a[0][0] == 'f':
                p = x.a[1]; n = 0
                while p[0] == 'i' and n < 5:
                    y = f.insts[p[1]]; n += 1
                    if y.op == 'getelementptr':
                        if 'struct.sigaction' in str(y.d['gep'].get('sty')):
                            out.add(x.a[0][1])
                        p = y.a[0]
                    elif y.op == 'alloca':
                        if 'struct.sigaction' in str(y.d.get('ty')):
                            out.add(x.a[0][1])
                        break
                    else:
                        break
            if x.is_call and x.d['fn'] == ('f', 'signal') and len(x.a) > 1 and x.a[1][0] == 'f':
                out.add(x.a[1][1])
    return {h for h in out if h in P.F and P.F[h].repo and P.F[h].blocks}


def run(P, rep, tier):
    rep.rule = ('Effect analysis of every signal handler for every signal it is installed for, and typestate of signal masks, dispositions and flag tests '
                'from program start to the wait, over the compiler IR: a handler of SIGINT or SIGTERM only sets a volatile flag (or uses async-signal-safe '
                'functions), a handler of a crash signal ends the process, and the wait cannot miss a signal.')
    rep.assumptions = ['sigprocmask and sigaction succeed when called with valid arguments']
    H = handlers(P)
    SIGCALLS = {'sigaction', 'signal', 'sigprocmask', 'sigsuspend', 'pause', 'sigaddset', 'sigemptyset', 'pthread_sigmask', 'sigwait', 'sigwaitinfo', 'sigfillset'}
    touch = {x.fn.name for x in J.calls_to(P, SIGCALLS)}
    hf = {}
    # pass 1: what is installed from each program
    mains = [f for f in P.repo_fns() if f.name.startswith('main.') and touch & set(P.reach([f.name]))]
    flags = set()
    for h in H:
        for s in SIGS:
            c = Handler(P, s)
            Engine(P, c, maxdepth=8, budget=200000).run_root(P.F[h], args={0: ('k', s)})
            hf[(h, s)] = (c, c.flags or frozenset())
            flags |= set(c.flags or ())
    servers = 0
    for f in mains:
        waits = {x.fn.name for x in J.calls_to(P, {'sigsuspend', 'pause', 'sigwait', 'sigwaitinfo', 'sigtimedwait'})} & set(P.reach([f.name]))
        c = Wait(P, J.upward(P, touch | {x.fn.name for x in loads_of(P, flags)}) - H, flags)
        c.handler_flags = {k: v[1] for k, v in hf.items()}
        try:
            Engine(P, c, maxdepth=10, budget=2000000).run_root(f)
        except Budget:
            rep.error('budget exceeded in %s' % f.short); continue
        prog = f.name.split('_')[-1]
        if waits:
            servers += 1
        rep.ob('%s cannot miss SIGINT or SIGTERM' % prog, not c.bad)
        for inst, what in {(i.fn.short, w): (i, w) for i, w in c.bad}.values():
            rep.viol('%s|%s' % (prog, what), '%s: %s %s at %s' % (prog, inst.fn.short, what, inst.loc()))
        for sig, h in sorted(c.inst):
            k = hf[(h, sig)][0]
            rep.ob('%s: handling %s' % (prog, NAME(sig)), not k.bad)
            if sig in CRASH:
                # writes by the cleanup count with the calls it makes
                k.unsafe |= {('a store', i.loc()) for i, w in k.bad if w.startswith('writes')}
                k.bad = [b for b in k.bad if not b[1].startswith('writes')]
            for inst, what in {(i.fn.short, w): (i, w) for i, w in k.bad}.values():
                rep.viol('%s|handler of %s|%s' % (prog, NAME(sig), what), '%s: the handler of %s (%s) %s at %s' % (prog, NAME(sig), inst.fn.short, what, inst.loc()))
            if k.unsafe:
                l = sorted(k.unsafe)
                rep.viol('%s|handler of %s|unsafe' % (prog, NAME(sig)), '%s: the handler of %s does what is not async-signal-safe: %s' % (
                    prog, NAME(sig), ', '.join('%s at %s' % x for x in l[:6])))
    rep.need('handlers', len(H), 1)
    rep.need('servers', servers, 2)


def loads_of(P, gs):
    return [x for f in P.repo_fns() for x in f.all() if x.op == 'load' and x.a[0][0] == 'g' and x.a[0][1] in gs]
