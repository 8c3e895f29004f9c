import re
import inject as J

NULLS = {'xmlNewTextWriter', 'xmlOutputBufferCreateIO', 'xmlOutputBufferCreateFile', 'xmlOutputBufferCreateBuffer'}
STDIO = {'fwrite': J.fails_stream(('k', 0)), 'fputs': J.fails_stream(J.M1), 'fputc': J.fails_stream(J.M1), 'putc': J.fails_stream(J.M1),
         'fprintf': J.fails_stream(J.M1), 'fflush': J.fails_stream(J.M1), 'json_object_to_fd': J.returns(J.M1)}


class Neg(J.Inject):
    def judge(self, eng, st, fn, rv, kind):
        if kind == 'throw':
            return
        if rv is None or not eng.rng(st, eng.ptr_of(rv))[1] < 0:
            self.bad.append('returns a value that does not report it')


def failure(P, f, x):
    fv = x.d['fn']
    if fv[0] != 'f':
        return None
    s = P.F[fv[1]].short
    if s in NULLS:
        return s, J.returns(('k', 0))
    if s.startswith('xmlTextWriter') and x.t == 'i32':
        return s, J.returns(J.M1)
    if s in STDIO:
        # progress messages are not part of the answer
        if s in ('fprintf', 'fflush', 'fputs', 'fputc', 'putc'):
            fp = J.trace(f, x.a[0] if s in ('fprintf', 'fflush') else x.a[-1])
            if fp[0] == 'g' or fp[0] == 'i' and f.insts[fp[1]].op == 'load' and f.insts[fp[1]].a[0][0] == 'g':
                return None
        return s, STDIO[s]
    return None


def run(P, rep, tier):
    rep.rule = ('Failure injection over the abstract program: each library call that produces the answer document (text writer, output buffer, '
                'stream write) fails in turn; on every path the formatter must return a negative value, and the write callback of an output '
                'buffer must return a negative value for a short write.')
    rep.assumptions = ['libxml2 text writer functions return -1 on failure and remember the error of a write callback until the flush']
    roots = [f for f in P.repo_fns() if f.short.split('::')[-1] == 'writeData' and f.cls and 'Formatter' in f.cls]
    cbs = set()
    for f in P.repo_fns():
        for x in f.calls():
            if x.d['fn'][0] == 'f' and P.F[x.d['fn'][1]].short == 'xmlOutputBufferCreateIO' and x.a[0][0] == 'f':
                if any(f.name in P.reach([r.name]) for r in roots):
                    cbs.add(x.a[0][1])
    rep.need('formatters', len(roots), 4)
    rep.need('write_callbacks', len(cbs), 1)
    inj = n = 0
    for r, iscb in [(f, False) for f in roots] + [(P.F[c], True) for c in sorted(cbs)]:
        k = 0
        for m in P.reach([r.name]):
            f = P.F[m]
            if not f.repo or not f.blocks or (not iscb and m in cbs):
                continue
            for x in f.calls():
                q = failure(P, f, x)
                if q is None:
                    continue
                k += 1
                on = J.upward(P, [f.name]) & set(P.reach([r.name])) | {r.name}
                facts = {('arg', 2): (1, (1 << 31) - 1, frozenset([0]))} if iscb else {}
                c = J.run(P, r, Neg(P, x, q[1], on), facts=facts)
                inj += c.hit
                rep.ob('%s failing at %s is reported by %s' % (q[0], x.loc(), r.short), not c.bad)
                if not c.hit:
                    rep.error('%s at %s not reached from %s' % (q[0], x.loc(), r.short))
                for b in sorted(set(c.bad)):
                    rep.viol('%s|%s|%s|%s' % (r.short, f.short, q[0], ordinal(P, f, x)), 'when %s fails at %s, %s %s' % (q[0], x.loc(), r.short, b))
        n += k
        rep.need('writes_%s' % (re.sub(r'.*::(\w+)::writeData', r'\1', r.short) if not iscb else 'callback'), k, 1)
    rep.need('write_calls', n, 20)
    rep.stats['failures_injected'] = inj


def ordinal(P, f, x):
    s = P.F[x.d['fn'][1]].short
    L = [y for y in f.calls() if y.d['fn'][0] == 'f' and P.F[y.d['fn'][1]].short == s]
    return '%d of %d' % (L.index(x) + 1, len(L))
