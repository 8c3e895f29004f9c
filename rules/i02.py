import re
import inject as J
from absint import Client, Engine

STDIO = {'fopen': J.returns(('k', 0)), 'fopen64': J.returns(('k', 0)), 'fdopen': J.returns(('k', 0)),
         'fwrite': J.fails_stream(('k', 0)), 'fputs': J.fails_stream(J.M1), 'fputc': J.fails_stream(J.M1),
         'fprintf': J.fails_stream(J.M1), 'fflush': J.fails_stream(J.M1), 'fclose': J.returns(J.M1),
         'fseek': J.returns(J.M1), 'fseeko': J.returns(J.M1)}
WRITER = 'memsector_writer'


def is_writer_file(P, f, v, seen):
    """does this FILE* operand belong to the index image writer?"""
    v = J.trace(f, v)
    if v[0] == 'a':
        if (f.name, v) in seen:
            return False
        seen.add((f.name, v))
        return any(len(c.a) > v[1] and is_writer_file(P, c.fn, c.a[v[1]], seen) for c in P.callers(f.name))
    if v[0] == 'i':
        x = f.insts[v[1]]
        if x.op == 'load':
            return field_of_writer(f, x.a[0])
        for u in f.uses(v):
            if u.op == 'store' and u.a[0] == v and field_of_writer(f, u.a[1]):
                return True
        if x.is_call:
            for u in stored_to(f, v):
                if field_of_writer(f, u):
                    return True
    return False


def stored_to(f, v):
    out = []
    for u in f.uses(v):
        if u.op == 'store' and u.a[0] == v:
            out.append(u.a[1])
        elif u.op in ('bitcast', 'phi', 'select'):
            out += stored_to(f, ('i', u.i))
    return out


def field_of_writer(f, p):
    n = 0
    while p[0] == 'i' and n < 10:
        x = f.insts[p[1]]; n += 1
        if x.op == 'getelementptr':
            if WRITER in str(x.d.get('gep')):
                return True
            p = x.a[0]
        elif x.op == 'bitcast':
            p = x.a[0]
        else:
            break
    if p[0] == 'a':
        return WRITER in str(f.ditypes[p[1] + 1] if len(f.ditypes) > p[1] + 1 else '')
    return False


class Report0(J.Inject):
    def judge(self, eng, st, fn, rv, kind):
        if kind == 'throw':
            return
        if rv is None or eng.truth(st, eng.ptr_of(rv)) is not True:
            self.bad.append('returns success (or a value not known to differ from it)')


def sites(P, root):
    R = P.reach([root.name])
    out = []
    for n in R:
        f = P.F[n]
        if not f.repo or not f.blocks:
            continue
        for x in f.calls():
            fv = x.d['fn']
            if fv[0] != 'f':
                continue
            s = P.F[fv[1]].short
            if s in STDIO:
                fp = ('i', x.i) if s in ('fopen', 'fopen64', 'fdopen') else x.a[3] if s == 'fwrite' else x.a[-1] if s in ('fputs', 'fputc') else x.a[0]
                if is_writer_file(P, f, fp, set()):
                    out.append((s, x, STDIO[s]))
            elif re.match(r'std::basic_(filebuf|ofstream|fstream)::(open|close)$', s):
                m = s.split('::')[-1]
                # a file stream object remembers that its file could not be opened or closed
                out.append((s, x, J.fails_stream(('k', 0), m if 'filebuf' in s else 'open' if m == 'open' else 'write')))
            elif s in ('std::operator<<', 'std::ostream::operator<<', 'std::basic_ostream::write', 'std::basic_ostream::put') and file_bound(P, f, x.a[0], set()):
                out.append((s, x, stream_write))
            elif s == 'common::utils::create_directory':
                out.append((s, x, throws))
    return out


def throws(c, eng, st, inst, args):
    st.mem[J.EXC] = ('f', '_ZTISt13runtime_error')
    return [('throw', None, st)]


def stream_write(c, eng, st, inst, args):
    c.stream = 'write'
    return [('ret', args[0] if inst.t else None, st)]


def file_bound(P, f, v, seen):
    """is this std::ostream bound to a file (not to a string stream)?"""
    n = 0
    while n < 40:
        v = J.trace(f, v); n += 1
        if v[0] == 'i' and f.insts[v[1]].is_call and f.insts[v[1]].d['fn'][0] == 'f' and \
                'operator<<' in P.F[f.insts[v[1]].d['fn'][1]].short:
            v = f.insts[v[1]].a[0]
        else:
            break
    if v[0] == 'a':
        if (f.name, v) in seen:
            return False
        seen.add((f.name, v))
        return any(len(c.a) > v[1] and file_bound(P, c.fn, c.a[v[1]], seen) for c in P.callers(f.name))
    if v[0] == 'i' and f.insts[v[1]].op == 'alloca':
        for u in f.uses(v):
            if u.is_call and u.d['fn'][0] == 'f' and u.a[0] == v:
                if re.match(r'std::basic_(ostream|ofstream|fstream)::basic_(ostream|ofstream|fstream)$', P.F[u.d['fn'][1]].short):
                    return True
    return False


FB = r'std::basic_(filebuf|ofstream|fstream)::'


class Flushed(Client):
    """a file opened by the root is closed or flushed explicitly (destructors hide errors) before success is reported"""
    def __init__(self, P, rel):
        self.P = P; self.rel = rel; self.bad = []; self.opened = 0; self.exits = 0

    def init_q(self):
        return frozenset()

    def relevant(self, eng, f):
        return f.name in self.rel

    def call(self, eng, st, inst, fobj, short, args):
        last = short.split('::')[-1]
        if re.match(FB, short) and args:
            o = eng.addr(st, args[0])[0]
            if last == 'open' or last in ('basic_ofstream', 'basic_fstream') and len(args) > 1:
                self.opened += 1
                st.q = st.q | {o}
            elif last == 'close':
                st.q = st.q - {o}
        elif last == 'flush' and 'basic_ostream' in short or last == 'pubsync':
            st.q = frozenset()
        return None

    def ret(self, eng, st, fn, rv, kind, depth):
        self.exits += 1
        if kind == 'ret' and st.q and (rv is None or eng.truth(st, eng.ptr_of(rv)) is not True):
            self.bad.append('reports success before the written file is closed')


class Serve(J.Inject):
    """the program after its index build failed"""
    def model(self, eng, st, inst, fobj, short, args):
        if st.q == 1 and re.match(r'mws::daemon::Daemon::Daemon$', short):
            self.bad.append('starts the server')
        return None

    def judge(self, eng, st, fn, rv, kind):
        if kind == 'ret' and (rv is None or eng.truth(st, eng.ptr_of(rv)) is not True):
            self.bad.append('exits with success')


def run(P, rep, tier):
    rep.rule = ('Failure injection over the abstract program: each library call that writes the index image or the meaning dictionary, and each '
                'step that prepares the data directory, fails in turn (later stream state queries report the error); on every path from the '
                'index build entry function the result must be a failure; when the build fails, every program that runs it must exit with '
                'failure and not start serving.')
    rep.assumptions = ['a stdio stream or file buffer keeps its error indicator until it is queried or closed',
                       'std::bad_alloc is not considered']
    root = P.fn('mws::index::createCompressedIndex')
    if root is None:
        rep.error('index build entry function not found'); return
    S = sites(P, root)
    rep.need('write_calls', len(S), 7)
    inj = 0
    for s, x, fail in S:
        on = J.upward(P, [x.fn.name]) & set(P.reach([root.name])) | {root.name}
        c = J.run(P, root, Report0(P, x, fail, on))
        inj += c.hit
        rep.ob('failure of %s at %s is reported (%d failing exits)' % (s, x.loc(), c.failed_exits), not c.bad)
        if not c.hit:
            rep.error('%s at %s was not reached by the analysis' % (s, x.loc()))
        for b in sorted(set(c.bad)):
            rep.viol('%s|%s|%s' % (x.fn.short, s, b), 'when %s fails at %s (%s), %s %s' % (s, x.loc(), x.fn.short, root.short, b))
    rel = set()
    for s, x, fail in S:
        if s.startswith('std::basic_'):
            rel |= J.upward(P, [x.fn.name])
    c = Flushed(P, rel)
    Engine(P, c).run_root(root)
    rep.ob('files are closed before success is reported (%d exits)' % c.exits, not c.bad)
    for b in sorted(set(c.bad)):
        rep.viol('%s|%s' % (root.short, b), '%s %s, so that an error of the last write goes unnoticed' % (root.short, b))
    roots = [f for f in P.repo_fns() if f.short.startswith('main.') and root.name in P.reach([f.name])]
    rep.need('programs', len(roots), 2)
    for f in roots:
        calls = [x for x in J.calls_to(P, {root.short}, [P.F[n] for n in P.reach([f.name]) if P.F[n].repo and P.F[n].blocks])]
        for x in calls:
            on = J.upward(P, [x.fn.name]) & set(P.reach([f.name])) | {f.name}
            c = J.run(P, f, Serve(P, x, J.returns(('k', 1)), on))
            inj += c.hit
            rep.ob('%s fails when the index build at %s fails' % (f.short, x.loc()), not c.bad)
            if not c.hit:
                rep.error('%s: the index build was not reached by the analysis' % f.short)
            for b in sorted(set(c.bad)):
                rep.viol('%s|%s' % (f.short, b), '%s %s although the index build called at %s failed' % (f.short, b, x.loc()))
    rep.stats['failures_injected'] = inj
