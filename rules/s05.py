"""a program that cannot start ends with a failure status and serves nothing"""
import inject as J
from o03 import Tool as Exit

ONE = ('k', 11)                                    # a non-zero error number
START = {'freopen': J.returns(J.NULL), 'freopen64': J.returns(J.NULL), 'dup2': J.returns(J.M1), 'daemon': J.returns(J.M1), 'MHD_start_daemon': J.returns(J.NULL),
         'pthread_create': J.returns(ONE),
         'fopen': J.returns(J.NULL), 'fopen64': J.returns(J.NULL), 'fclose': J.returns(J.M1), 'common::utils::FlagParser::parse': J.returns(J.M1)}
WAIT = {'sigsuspend', 'pause', 'sigwait', 'sigwaitinfo', 'sigtimedwait', 'poll', 'ppoll', 'select', 'pselect', 'getchar', 'sem_wait', 'pthread_join'}
SERVER = {'freopen', 'freopen64', 'dup2', 'daemon', 'MHD_start_daemon', 'pthread_create'}


class Start(Exit):
    def model(self, eng, st, inst, fobj, short, args):
        if short in WAIT and st.q == 1:
            self.bad.append('carries on and waits for requests')
            return [('stop', None, st)]
        return Exit.model(self, eng, st, inst, fobj, short, args)


class Port(J.Client):
    """the port number given on the command line that is listened on is a valid one"""
    callbacks = True

    def __init__(self, P, on):
        self.on = on; self.bad = []; self.seen = 0

    def init_q(self):
        return 0

    def relevant(self, eng, f):
        return f.name in self.on

    def call(self, eng, st, inst, fobj, short, args):
        if short == 'MHD_start_daemon':
            self.seen += 1
            v = args[1]
            while v[0] == 'op' and v[1] == 'trunc':
                v = v[3]
            lo, hi, _ = eng.rng(st, v)
            self.bad += [(lo, hi)] if not (lo >= 1 and hi <= 65535) else []
            return [('stop', None, st)]
        return None

    def keep_cell(self, k, v, st):
        return v[0] == 'op' or v[0] == 'k'


def calling(P, names, reach):
    """functions that call one of the library functions"""
    return {n for n in reach if P.F[n].repo and P.F[n].blocks and any(x.d['fn'][0] == 'f' and P.F[x.d['fn'][1]].short in names for x in P.F[n].calls())}


def run(P, rep, tier):
    rep.rule = ('Failure injection over the abstract programs: reading the command line fails, for every program; for every program that starts an HTTP '
                'server, also each library call that redirects its output, detaches it, writes its pid file, creates its threads or opens its port. On '
                'every path the program then ends with a non-zero status, without waiting for requests. The port passed to the HTTP library is '
                'between 1 and 65535 on every path (interval analysis).')
    mains = [f for f in P.repo_fns() if f.short.startswith('main.')]
    rep.need('programs', len(mains), 7)
    inj = 0; servers = 0
    for r in sorted(mains, key=lambda f: f.short):
        reach = set(P.reach([r.name]))
        starts = calling(P, {'MHD_start_daemon'}, reach); server = bool(starts)
        pid = calling(P, {'getpid'}, reach); waits = calling(P, WAIT, reach)
        servers += server
        S = []
        for n in sorted(reach):
            f = P.F[n]
            if not f.repo or not f.blocks:
                continue
            for x in f.calls():
                s = P.F[x.d['fn'][1]].short if x.d['fn'][0] == 'f' else ''
                if s.endswith('FlagParser::parse') or server and s in SERVER or n in pid and s in START:
                    S.append((s, x))
        for s, x in S:
            on = J.upward(P, [x.fn.name] + sorted(waits)) & reach | {r.name}
            c = J.run(P, r, Start(P, x, START[s], on), maxdepth=12)
            if not c.hit:
                continue
            inj += 1
            rep.ob('%s: %s failing at %s: the program ends with failure' % (r.short, s, x.loc()), not c.bad)
            for b in sorted(set(c.bad)):
                rep.viol('%s|%s|%s|%s' % (r.short, x.fn.short, s, b), 'when %s fails at %s, %s %s' % (s, x.loc(), r.short, b))
        if server:
            on = J.upward(P, sorted(starts)) & reach | {r.name}
            c = J.run(P, r, Port(P, on), maxdepth=12)
            rep.need('server_starts_' + r.short.split('_')[-1], c.seen, 1)
            rep.ob('%s listens on a valid port' % r.short, not c.bad)
            if c.bad:
                rep.viol('%s|port' % r.short, '%s may listen on a port outside 1..65535 (%s)' % (r.short, c.bad[0]))
    rep.need('servers', servers, 3)
    rep.need('injected', inj, 12)
    rep.stats['failures_injected'] = inj
