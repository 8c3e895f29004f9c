"""the conversion tools report failed writes"""
import re
import inject as J
import strs
from absint import Client, Engine

WRITES = {'fwrite': J.fails_stream(('k', 0)), 'fputs': J.fails_stream(J.M1), 'fputc': J.fails_stream(J.M1), 'putc': J.fails_stream(J.M1),
          'fprintf': J.fails_stream(J.M1), 'vfprintf': J.fails_stream(J.M1), 'fflush': J.fails_stream(J.M1), 'fclose': J.returns(J.M1),
          'fopen': J.returns(('k', 0)), 'fopen64': J.returns(('k', 0)), 'fdopen': J.returns(('k', 0)),
          'mkstemp': J.returns(J.M1), 'mkstemps': J.returns(J.M1)}
OPEN = {'fopen', 'fopen64', 'fdopen'}


def mode(P, f, x):
    a = x.a[1]
    return strs.literal(P, ('p', ('g', a[1]), 0)) if a[0] == 'g' else None


def origins(P, f, v, seen):
    """calls that produced the FILE* value v of f"""
    out = set(); work = [v]; loc = set()
    while work:
        v = J.trace(f, work.pop())
        if v in loc:
            continue
        loc.add(v)
        if v[0] == 'i':
            x = f.insts[v[1]]
            if x.is_call:
                out.add((f.name, x.i))
            elif x.op == 'phi':
                work += [a for a, _ in x.d['phi']]
            elif x.op == 'select':
                work += list(x.a[1:])
            elif x.op == 'load' and x.a[0][0] == 'i' and f.insts[x.a[0][1]].op == 'alloca':
                work += [u.a[0] for u in f.uses(x.a[0]) if u.op == 'store' and u.a[1] == x.a[0]]
        elif v[0] == 'a' and (f.name, v) not in seen:
            seen.add((f.name, v))
            for c in P.callers(f.name):
                if len(c.a) > v[1]:
                    out |= origins(P, c.fn, c.a[v[1]], seen)
    return out


def sites(P, root):
    out = []
    for n in sorted(P.reach([root.name])):
        f = P.F[n]
        if not f.repo or not f.blocks:
            continue
        for x in f.calls():
            fv = x.d['fn']
            if fv[0] != 'f':
                continue
            s = P.F[fv[1]].short
            if s not in WRITES:
                continue
            if s in OPEN:
                m = mode(P, f, x)
                if m is None or m[0] in 'wa' or '+' in m:
                    out.append((s, x))
                continue
            if s.startswith('mkstemp'):
                out.append((s, x)); continue
            fp = x.a[3] if s == 'fwrite' else x.a[-1] if s in ('fputs', 'fputc', 'putc') else x.a[0]
            for g, i in origins(P, f, fp, set()):
                y = P.F[g].insts[i]
                if y.d['fn'][0] == 'f' and P.F[y.d['fn'][1]].short in OPEN:
                    m = mode(P, P.F[g], y)
                    if m is None or m[0] in 'wa' or '+' in m:
                        out.append((s, x)); break
    return out


class Tool(J.Inject):
    left = False

    def model(self, eng, st, inst, fobj, short, args):
        if short in ('exit', '_exit', '_Exit', 'quick_exit'):
            if st.q != 0 and eng.truth(st, args[0]) is not True:
                self.bad.append('exits with success')
            return [('stop', None, st)]
        if short == '__errno_location' and st.q == 1:
            st.mem[(('errno',), 0)] = ('k', 13)       # EACCES: not one that has a meaning of its own
            return [('ret', ('p', ('errno',), 0), st)]
        return None

    def judge(self, eng, st, fn, rv, kind):
        if kind == 'ret' and (rv is None or eng.truth(st, eng.ptr_of(rv)) is not True):
            self.bad.append('exits with success')


class Left(Client):
    """an output file that is skipped when it exists is deleted on every path on which converting fails; q: 1 while it exists, 2 and 3 when writing or closing it failed"""
    callbacks = True

    def __init__(self, P, site, rel):
        self.P = P; self.site = site; self.rel = rel; self.bad = []; self.exits = 0; self.made = 0

    def init_q(self):
        return 0

    def relevant(self, eng, f):
        return f.name in self.rel

    def call(self, eng, st, inst, fobj, short, args):
        if inst is self.site:
            self.made += 1
            s2 = st.copy(); s2.q = 1
            return [('ret', ('k', 0), st), ('ret', ('p', ('res', 'out'), 0), s2)]
        if short in ('fclose', 'fflush', 'ferror') and st.q >= 1 and args[0] == ('p', ('res', 'out'), 0):
            if st.q > 1:
                return [('ret', ('k', 1 if short == 'ferror' else 0), st)]
            s2 = st.copy(); s2.q = 2 if short == 'ferror' else 3
            return [('ret', ('k', 0), st), ('ret', J.M1, s2)]
        if short in ('unlink', 'remove', 'std::remove'):
            st.q = 0
            return [('ret', ('k', 0), st)]
        return None

    def ret(self, eng, st, fn, rv, kind, depth):
        if kind == 'stop':
            return
        self.exits += 1
        if st.q > 1 or st.q == 1 and (kind == 'throw' or eng.truth(st, eng.ptr_of(rv)) is not False):
            self.bad.append('leaves the incomplete file behind, which is skipped as already converted when it runs again')


def run(P, rep, tier):
    rep.rule = ('Failure injection over the abstract programs docs2harvest and harvests2json: each library call that opens, writes, flushes or closes an '
                'output file fails in turn (the stream reports the error when asked later); on every path the program ends with a non-zero status. '
                'Where existing output files are skipped as already converted, an output file whose writing or closing failed is deleted on every path.')
    rep.assumptions = ['a stdio stream keeps its error indicator until it is closed', 'std::bad_alloc is not considered']
    roots = [f for f in P.repo_fns() if f.short.startswith('main.src_crawler_') and 'crawlerd' not in f.short]
    rep.need('programs', len(roots), 2)
    inj = 0
    for r in roots:
        S = sites(P, r)
        skips = [x for s, x in S if s in OPEN and 'x' in (mode(P, x.fn, x) or '')]
        rep.need('write_calls_' + r.short.split('_')[-1], len(S), 4)
        for s, x in S:
            on = J.upward(P, [x.fn.name]) & set(P.reach([r.name])) | {r.name}
            c = J.run(P, r, Tool(P, x, WRITES[s], on))
            inj += c.hit
            if not c.hit:
                rep.error('%s at %s not reached from %s' % (s, x.loc(), r.short))
            rep.ob('%s failing at %s: the program fails' % (s, x.loc()), not c.bad)
            for b in sorted(set(c.bad)):
                rep.viol('%s|%s|%s|%s' % (r.short, x.fn.short, s, b), 'when %s fails at %s, %s %s' % (s, x.loc(), r.short, b))
        for x in skips:
            top = x.fn
            rel = J.upward(P, {g.name for g in P.repo_fns() for y in g.calls() if y.d['fn'][0] == 'f' and P.F[y.d['fn'][1]].short in
                               set(WRITES) | {'unlink', 'remove', 'std::remove', 'ferror'}}) & set(P.reach([top.name])) | {top.name}
            c = Left(P, x, rel)
            Engine(P, c, 10).run_root(top)
            if not c.made:
                rep.error('creation of the output file at %s not reached' % x.loc())
            rep.ob('%s, which creates the output file at %s, deletes it on every failing path (%d exits)' % (top.short, x.loc(), c.exits), not c.bad)
            for b in sorted(set(c.bad)):
                rep.viol('%s|%s' % (top.short, b), 'when converting fails after %s, %s %s' % (x.loc(), top.short, b))
    rep.stats['failures_injected'] = inj
