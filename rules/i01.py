"""a damaged index image is rejected by the loader: abstract images, one per way in which an image can be damaged"""
import i04
from i04 import HD, fields
from absint import Client, Engine, Budget, State
import inject
from inject import Inject, upward

IMG = ('p', ('img',), 0)
INF = float('inf')


class Load(Client):
    name = 'image loader'
    callbacks = False
    loop_ranges = True

    def __init__(self, P, filesize, crc):
        self.P = P; self.fsize = filesize; self.crc = crc
        self.ends = []; self.crcs = []; self.beyond = []; self.mapped = 0

    def init_q(self):
        return ()

    def relevant(self, eng, f):
        return True

    def call(self, eng, st, inst, fobj, short, args):
        if short in ('open', 'open64', 'fileno'):
            return [('ret', ('k', 7), st)]
        if short in ('fstat', 'fstat64', 'stat', 'stat64', 'lstat'):
            o, off = eng.addr(st, args[1])
            eng.havoc_args(st, [args[1]], short)
            if type(off) is int:
                st.mem[(o, off + 48)] = self.fsize
            return [('ret', ('k', 0), st)]
        if short in ('lseek', 'lseek64'):
            return [('ret', self.fsize if args[2] == ('k', 2) else args[1], st)]
        if short in ('mmap', 'mmap64'):
            self.mapped += 1
            return [('ret', IMG, st)]
        if short == 'munmap' and args[0] == IMG:
            st.q = st.q + ('unmapped',) if 'unmapped' not in st.q else st.q
            return [('ret', ('k', 0), st)]
        if short == 'crc32':
            self.crcs.append((inst, args, st.facts.copy()))
            st.q = st.q + (('crc', args[0], args[1], args[2]),)
            return [('ret', self.crc, st)]
        if fobj is not None and not fobj.repo and not fobj.blocks and IMG in args and short not in ('munmap', 'madvise', 'close', 'memcmp', 'printf', 'fprintf'):
            return [('ret', None, st)]
        return None

    def load(self, eng, st, inst, addr, val):
        o, off = eng.addr(st, addr)
        if o == ('img',) and self.fsize[0] == 'k':
            if type(off) is not int or off + size_of(inst.t) > self.fsize[1]:
                self.beyond.append((inst, off))

    def ret(self, eng, st, fn, rv, kind, depth):
        self.ends.append((kind, rv, st))


class Reject(Inject):
    """a program after an image was rejected"""
    def model(self, eng, st, inst, fobj, short, args):
        if st.q == 1 and short in ('MHD_start_daemon', 'query_engine_run', 'memsector_get_root', 'sigsuspend', 'pause'):
            self.bad.append('goes on to %s' % {'MHD_start_daemon': 'serve', 'query_engine_run': 'search', 'memsector_get_root': 'use its root'}.get(short, 'wait for requests'))
            return [('stop', None, st)]
        return None

    def judge(self, eng, st, fn, rv, kind):
        if kind == 'ret' and (rv is None or eng.truth(st, eng.ptr_of(rv)) is not True):
            self.bad.append('exits with success')


def size_of(t):
    return max(1, int(t[1:]) // 8) if t and t[0] == 'i' and t[1:].isdigit() else 8


def scenario(P, f, fsize, cells, facts, crc):
    c = Load(P, fsize, crc); e = Engine(P, c, 8)
    h = fields(P, HD)
    mem = {(('img',), h[n][0]): v for n, v in cells.items()}
    e.run_root(f, None, None, mem, dict(facts))
    ok = [x for x in c.ends if x[0] == 'ret' and e.truth(x[2], x[1]) is not True]
    return c, e, ok


def eng_hi(e, v, facts):
    r = e.rng(State(None, {}, {}, facts), v)
    return r[1] if r[0] >= 0 else INF


def without(*ks):
    s = set()
    for k in ks:
        s.add(k)
        if k < 0:
            s.add(k + (1 << 32))
        elif k >= 1 << 31:
            s.add(k - (1 << 32))
    return (-INF, INF, frozenset(s))


def run(P, rep, tier):
    rep.rule = ('Abstract interpretation of the image loader on abstract images (file too short for the header; wrong magic number; wrong version; '
                'stored size larger than the file, also near the integer limits; checksum different from the CRC of the content; root outside of the '
                'file; intact image): no path accepts a damaged image, an intact one is accepted, the CRC is taken over exactly the stored content '
                'from the value the writer starts with, and nothing beyond the file is read. A rejected image is not used: failure of the loader '
                'followed into its callers up to the programs.')
    size = P.ditypes[HD]['size']
    vals, bad, e0 = i04.header_consts(P)
    if len(vals) != 1 or None in list(vals)[0]:
        rep.error('the header of a new image is not understood'); return
    magic, version, crc0 = list(vals)[0]
    f = P.fn('memsector_load')
    S = 1000; I = S - size
    CR = ('k', 77)
    good = {'magic': magic, 'version': version, 'index_size': ('k', I), 'checksum': CR, 'root_off': ('k', 7)}
    sc = []

    def img(**kw):
        d = dict(good); d.update(kw); return d
    sym = lambda n: ('s', ('img', n))
    for n in (1, 4, 12, size - 1):
        sc.append(('a file of %d bytes, too short for the header' % n, ('k', n), img(), {}, CR))
    sc.append(('a wrong magic number', ('k', S), img(magic=sym('magic')), {('img', 'magic'): without(magic[1])}, CR))
    sc.append(('a version that is not supported', ('k', S), img(version=sym('version')), {('img', 'version'): without(version[1])}, CR))
    for n in (I + 1, S, S + 1, 1 << 20, (1 << 32) + I, (1 << 63) - 1, -1, -size, 1 - size, -5):
        sc.append(('a stored size of %d bytes in a file with %d' % (n if n >= 0 else n + (1 << 64), I), ('k', S), img(index_size=('k', n)), {}, CR))
    sc.append(('a stored size of 1 byte in a file with none', ('k', size), img(index_size=('k', 1)), {}, CR))
    sc.append(('a checksum that differs from that of the content', ('k', S), img(checksum=sym('checksum')), {('img', 'checksum'): without(77)}, CR))
    for n in (S // 4, S // 4 + 1, (1 << 32) + 7, (1 << 62) + 7, (1 << 63) - 1, -1):
        sc.append(('a root at offset unit %d of %d' % (n if n >= 0 else n + (1 << 64), S // 4), ('k', S), img(root_off=('k', n)), {}, CR))
    # as the writer starts it
    sc.append(('a header as it is before the image is completed', ('k', S), img(index_size=('k', 0), checksum=crc0, root_off=('k', 0)), {}, crc0))
    # any size and root: a decision on the size of the image is followed both ways
    B = 1 << 40
    anysize = {('img', 'index_size'): (0, B - size, frozenset())}
    sc.append(('a checksum that differs from that of the content, at any size,', ('k', B), img(index_size=sym('index_size'), checksum=sym('checksum')),
               {**anysize, ('img', 'checksum'): without(77)}, CR))
    sc.append(('a root outside of the file, at any size,', ('k', B), img(index_size=sym('index_size'), root_off=sym('root_off')),
               {**anysize, ('img', 'root_off'): (B // 4, INF, frozenset())}, CR))
    sc.append(('a stored size larger than the file', ('k', B), img(index_size=sym('index_size')), {('img', 'index_size'): (B - size + 1, INF, frozenset())}, CR))
    steps = 0
    for what, fs, cells, facts, crc in sc:
        c, e, ok = scenario(P, f, fs, cells, facts, crc)
        steps += e.steps
        bad = []
        cls = what.split(' of ')[0] if what[2:].startswith(('file', 'stored')) else what.split(' at ')[0]
        cls = ''.join(ch for ch in what if not ch.isdigit())
        if not c.mapped:
            rep.error('the loader does not map the file'); return
        if ok:
            bad.append(('accepted', 'an image with %s is accepted' % what))
        for inst, off in c.beyond:
            bad.append(('beyond', 'an image with %s is read beyond the end of the file in %s (%s)' % (what, inst.fn.short, inst.loc())))
        for inst, args, fa in c.crcs:
            o, off = (args[1][1], args[1][2]) if args[1][0] == 'p' else (None, None)
            if o == ('img',) and (type(off) is not int or eng_hi(e, args[2], fa) < 0 or off + eng_hi(e, args[2], fa) > fs[1]):
                bad.append(('beyond', 'the checksum of an image with %s is computed beyond the end of the file (%s)' % (what, inst.loc())))
        rep.ob('an image with %s is rejected' % what, not bad)
        for k, t in bad:
            rep.viol('load|%s|%s' % (k, cls), t)
    # intact image
    for S2, n in ((S, ('k', I)), (S, ('k', I - 200)), (size + 8, ('k', 8)), (B, sym('index_size'))):
        c, e, ok = scenario(P, f, ('k', S2), img(index_size=n), anysize if n[0] == 's' else {}, CR)
        steps += e.steps
        bad = []
        if not ok:
            bad.append(('rejected', 'an intact image is rejected'))
        for kind, rv, st in ok:
            cs = [x for x in st.q if x[0] == 'crc']
            if not cs:
                bad.append(('crc', 'an image is accepted without computing its checksum'))
            elif ('crc', crc0, ('p', ('img',), size), n) not in cs:
                bad.append(('crc', 'the checksum of an image is not computed over exactly the %s' % ('content that its header describes')))
            if 'unmapped' in st.q:
                bad.append(('unmapped', 'an accepted image is unmapped'))
            k = [i - 1 for i, t in enumerate(f.ditypes) if str(t).startswith('memsector_handle_s')]
            if k:
                h = fields(P, 'memsector_handle_s')
                v = st.mem.get((('d', ('arg', k[0])), h['ms'][0]))
                if v != IMG:
                    bad.append(('handle', 'the handle of an accepted image does not refer to it'))
        rep.ob('an intact image with %s bytes of content in a file of %d is accepted after its checksum was computed' % (str(n[1]) if n[0] == 'k' else 'any number of', S2), not bad)
        for k, t in bad:
            rep.viol('load|%s' % k, t)
    rep.need('abstract_images', len(sc) + 4, 20)
    rep.stats['steps'] = steps
    # a rejected image is not used
    roots = [g for g in P.repo_fns() if g.short.startswith('main.') and f.name in P.reach([g.name])]
    rep.need('programs', len(roots), 2)
    inj = 0
    for g in roots:
        calls = inject.calls_to(P, {f.short}, [P.F[n] for n in P.reach([g.name]) if P.F[n].repo and P.F[n].blocks])
        for x in calls:
            on = upward(P, [x.fn.name]) & set(P.reach([g.name])) | {g.name}
            c = inject.run(P, g, Reject(P, x, inject.returns(('k', -1)), on, twice=True))
            inj += c.hit
            if not c.hit:
                rep.error('%s: the image loader was not reached by the analysis' % g.short)
            rep.ob('%s exits with failure when the image loaded at %s is rejected' % (g.short, x.loc()), not c.bad)
            for b in sorted(set(c.bad)):
                rep.viol('%s|%s' % (g.short, b), '%s %s although the index image loaded at %s was rejected' % (g.short, b, x.loc()))
    rep.stats['rejections_followed'] = inj
