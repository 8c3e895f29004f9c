"""Abstract index build: the order in which the parts of an index are destroyed, written and completed."""
import re
import strs
from absint import Client, Engine, Budget
from inject import upward, calls_to, MARK

OKM = ('okstatus',)
PUT = re.compile(r'leveldb::DB::(Put|Write|Delete)$')
FSTR = re.compile(r'std::basic_(filebuf|ofstream|fstream|ifstream)::')
ENOENT = 2


class Files(Client):
    """file and database operations with the names they are given"""
    callbacks = True

    def __init__(self, P, rel):
        self.P = P; self.rel = rel; self.bad = set(); self.events = {}; self.ends = []

    def relevant(self, eng, f):
        return f.name in self.rel

    def keep_cell(self, k, v, st):
        return strs.keep_tag(k) or v in (MARK, OKM) or (v[0] == 'p' and v[1][:2] == ('res', 'file'))

    def tag(self, eng, st, av):
        return strs.base(strs.tag_of(self.P, eng, st, av))

    def note(self, kind, tag, inst):
        self.events.setdefault((kind, tag), []).append(inst)

    def call(self, eng, st, inst, fobj, short, args):
        last = short.split('::')[-1]
        if short == 'leveldb::Options::Options':
            o, off = eng.addr(st, args[0])
            if type(off) is int:
                if len(args) == 1:
                    st.mem[(o, off + 8)] = ('k', 0); st.mem[(o, off + 9)] = ('k', 0)
                    return [('ret', None, st)]
            return None
        if short == 'leveldb::DestroyDB':
            t = self.tag(eng, st, args[1]); self.note('destroy', t, inst)
            self.destroy(eng, st, inst, t)
            return [('ret', None, st)]
        if short == 'leveldb::DB::Open':
            o, off = eng.addr(st, args[1])
            flag = lambda d: st.mem.get((o, off + d)) if type(off) is int else None
            t = self.tag(eng, st, args[2])
            so = eng.addr(st, args[0])
            s2 = st.copy(); s2.mem[so] = MARK
            st.mem[so] = OKM
            cim, eie = flag(8), flag(9)
            if cim == ('k', 0):
                self.note('open', t, inst)
            else:
                self.note('create', t, inst)
                self.created(eng, st, inst, t, eie == ('k', 1))
            return [('ret', None, st), ('ret', None, s2)]
        if short == 'leveldb::Status::ok':
            v = st.mem.get(eng.addr(st, args[0]))
            return [('ret', ('k', 1 if v == OKM else 0), st)] if v in (MARK, OKM) else [('ret', None, st)]
        if short in ('leveldb::Status::Status', 'leveldb::Status::operator=') and len(args) > 1:
            v = st.mem.get(eng.addr(st, args[1])); d = eng.addr(st, args[0])
            if v in (MARK, OKM):
                st.mem[d] = v
            else:
                st.mem.pop(d, None)
            return [('ret', args[0] if inst.t else None, st)]
        if short == 'leveldb::Status::~Status':
            st.mem.pop(eng.addr(st, args[0]), None)
            return [('ret', None, st)]
        if PUT.match(short):
            self.note('put', None, inst)
            self.wrote(eng, st, inst, 'a database')
            return None
        if short == '__errno_location':
            return [('ret', ('p', ('errno',), 0), st)]
        if short in ('unlink', 'remove', 'std::remove', 'rename', 'std::rename', 'truncate', 'truncate64', 'rmdir', 'unlinkat'):
            a = args[1] if short == 'unlinkat' else args[0]
            t = self.tag(eng, st, a); self.note('remove', t, inst)
            out = []
            s2 = st.copy(); s2.mem[(('errno',), 0)] = ('k', ENOENT)
            self.removed(eng, s2, inst, t, False)
            out.append(('ret', ('k', -1), s2))
            # any other failure leaves the file where it is
            s3 = st.copy(); s3.mem[(('errno',), 0)] = ('s', ('errno', inst.i)); s3.facts[('errno', inst.i)] = (1, float('inf'), frozenset({ENOENT}))
            out.append(('ret', ('k', -1), s3))
            self.removed(eng, st, inst, t, True)
            out.append(('ret', ('k', 0), st))
            if short.endswith('rename'):
                self.trunc(eng, st, inst, self.tag(eng, st, args[1]))
            return out
        if short in ('fopen', 'fopen64'):
            t = self.tag(eng, st, args[0]); m = strs.literal(self.P, args[1]) or 'w'
            s2 = st.copy()
            w = m[0] in 'wa' or '+' in m
            self.note('write' if w else 'read', t, inst)
            if w:
                self.over(eng, st, inst, t, m[0] == 'w')
                self.opened(st, ('res', 'file', t), t)
            return [('ret', ('p', ('res', 'file', t), 0), st), ('ret', ('k', 0), s2)]
        if short in ('open', 'open64', 'creat'):
            t = self.tag(eng, st, args[0])
            fl = args[1][1] if len(args) > 1 and args[1][0] == 'k' else 0
            s2 = st.copy()
            w = short == 'creat' or fl & 3
            self.note('write' if w else 'read', t, inst)
            if w:
                self.over(eng, st, inst, t, bool(short == 'creat' or fl & 0o1000 or fl & 0o300 == 0o300))
            return [('ret', ('k', -1), s2), ('ret', ('k', 7), st)]
        if short == 'std::operator|' and len(args) == 2 and args[0][0] == args[1][0] == 'k':
            return [('ret', ('k', args[0][1] | args[1][1]), st)]
        if FSTR.match(short):
            cls = short.split('::')[1]
            if last in ('open', cls) and len(args) >= 2 and (last == 'open' or len(args) > 2 or fobj and len(fobj.ditypes) > 2):
                t = self.tag(eng, st, args[1])
                m = args[2] if len(args) > 2 else ('k', 16 if cls == 'basic_ofstream' else 8)
                w = cls != 'basic_ifstream' and not (m[0] == 'k' and not m[1] & 16)
                self.note('write' if w else 'read', t, inst)
                if w:
                    # out alone truncates; with in or app only if trunc is given too
                    self.over(eng, st, inst, t, m[0] != 'k' or bool(m[1] & 32) or not m[1] & 9)
                    self.opened(st, eng.addr(st, args[0])[0], t)
                return None
            if last in ('close', '~' + cls):
                self.closed(st, eng.addr(st, args[0])[0])
                return None
        if short == 'fclose' and args[0][0] == 'p':
            self.closed(st, args[0][1])
            return [('ret', ('k', 0), st)]
        if short in ('fseek', 'fseeko', 'rewind', 'fseeko64', 'fsetpos'):
            # a FILE that went through a structure the analysis lost is the one that is open
            t = args[0][1][2] if args[0][0] == 'p' and args[0][1][:2] == ('res', 'file') else self.only_open(st)
            if t:
                self.rewound(eng, st, inst, t)
            return [('ret', ('k', 0), st)]
        if short == 'fwrite':
            return [('ret', args[2], st), ('ret', ('k', 0), st.copy())]
        r = strs.call(self.P, eng, st, inst, fobj, short, args)
        if r is not None:
            return r
        return self.other(eng, st, inst, fobj, short, args)

    def other(self, eng, st, inst, fobj, short, args):
        return None

    def only_open(self, st):
        return None

    # events
    def over(self, eng, st, inst, t, anew):
        self.trunc(eng, st, inst, t)

    def destroy(self, eng, st, inst, t): pass
    def created(self, eng, st, inst, t, exclusive): pass
    def wrote(self, eng, st, inst, t): pass
    def removed(self, eng, st, inst, t, ok): pass
    def trunc(self, eng, st, inst, t): pass
    def opened(self, st, obj, t): pass
    def closed(self, st, obj): pass
    def rewound(self, eng, st, inst, t): pass

    def ret(self, eng, st, fn, rv, kind, depth):
        self.ends.append((kind, rv, st))


EVENTFN = {'fopen', 'fopen64', 'open', 'open64', 'creat', 'unlink', 'remove', 'std::remove', 'rename', 'std::rename', 'truncate', 'rmdir', 'unlinkat',
           'leveldb::DestroyDB', 'leveldb::DB::Open', 'leveldb::DB::Put', 'leveldb::DB::Write', 'fseek', 'fseeko', 'rewind', 'fclose'}


def eventful(P, root):
    """functions under root from which a file operation is reachable"""
    R = set(P.reach([root.name]))
    direct = set()
    for n in R:
        f = P.F[n]
        if not f.repo or not f.blocks:
            continue
        for x in f.calls():
            for c in P.callees(x):
                s = P.F[c].short if c in P.F else c
                if s in EVENTFN or FSTR.match(s) and s.split('::')[-1] in ('open', 'close', 'basic_ofstream', 'basic_ifstream', 'basic_fstream'):
                    direct.add(n)
    return upward(P, direct) & R | {root.name}


class Parts(Files):
    """what the loader opens"""
    def init_q(self):
        return ()


def parts(P, root):
    c = Parts(P, eventful(P, root))
    e = Engine(P, c, 10)
    e.run_root(root)
    return c, e


class Build(Files):
    """q = (previous index: maybe / none / done, destroyed databases, files being written, parts made)"""
    def __init__(self, P, rel, image, flag, comps):
        Files.__init__(self, P, rel)
        self.image = image; self.flag = flag; self.comps = comps; self.finished = 0

    def init_q(self):
        return ('maybe', frozenset(), frozenset(), frozenset())

    def say(self, what, inst, text):
        self.bad.add((what, inst.fn.short, text, inst.loc()))

    def name(self, t):
        return t or 'a file'

    def destroy(self, eng, st, inst, t):
        img, d, o, m = st.q
        if self.flag == 0:
            self.say('unasked', inst, '%s is deleted although deleting old data was not requested' % self.name(t))
        if img == 'maybe':
            self.say('order', inst, '%s is deleted while the image of the previous index is still valid' % self.name(t))
        elif img == 'done':
            self.say('order', inst, '%s is deleted after the new image became valid' % self.name(t))
        st.q = (img, d | {t}, o, m)

    def created(self, eng, st, inst, t, exclusive):
        img, d, o, m = st.q
        if not exclusive:
            self.say('unasked', inst, 'an existing %s is opened for writing instead of being refused' % self.name(t))
        if img == 'done':
            self.say('order', inst, '%s is created after the image became valid' % self.name(t))
        elif exclusive and t not in d and img == 'maybe':
            img = 'none'
        st.q = (img, d, o, m | {t})

    def wrote(self, eng, st, inst, t):
        if st.q[0] == 'done':
            self.say('order', inst, '%s is written after the image became valid' % self.name(t))

    def removed(self, eng, st, inst, t, ok):
        img, d, o, m = st.q
        if t not in self.comps:
            return
        if ok and self.flag == 0 and img == 'maybe':
            self.say('unasked', inst, '%s is deleted although deleting old data was not requested' % self.name(t))
        if t == self.image:
            st.q = ('none', d, o, m - {t})
        elif ok and img == 'maybe':
            self.say('order', inst, '%s is deleted while the image of the previous index is still valid' % self.name(t))

    def trunc(self, eng, st, inst, t):
        img, d, o, m = st.q
        if t not in self.comps:
            return
        if img == 'maybe' and self.flag == 0:
            self.say('unasked', inst, '%s of an existing index is overwritten although deleting old data was not requested' % self.name(t))
        if t == self.image:
            st.q = ('none', d, o, m | {t})
            return
        if img == 'maybe':
            self.say('order', inst, '%s is overwritten while the image of the previous index is still valid' % self.name(t))
        elif img == 'done':
            self.say('order', inst, '%s is written after the image became valid' % self.name(t))
        st.q = (st.q[0], d, o, m | {t})

    def over(self, eng, st, inst, t, anew):
        if not anew and t in self.comps and t not in st.q[3]:
            self.say('order', inst, '%s is opened for writing without being emptied: what a previous index left there stays in it' % self.name(t))
        self.trunc(eng, st, inst, t)

    def opened(self, st, obj, t):
        img, d, o, m = st.q
        if t in self.comps:
            st.q = (img, d, o | {(obj, t)}, m)

    def only_open(self, st):
        c = {t for obj, t in st.q[2] if obj[:2] == ('res', 'file')}
        return c.pop() if len(c) == 1 else None

    def closed(self, st, obj):
        img, d, o, m = st.q
        st.q = (img, d, frozenset(x for x in o if x[0] != obj), m)

    def rewound(self, eng, st, inst, t):
        img, d, o, m = st.q
        if t != self.image:
            return
        self.finished += 1
        for obj, x in o:
            if x != self.image:
                self.say('order', inst, 'the image is completed before %s is closed' % self.name(x))
        for x in sorted(self.comps - m - {self.image}):
            self.say('order', inst, 'the image is completed before %s is written' % self.name(x))
        st.q = ('done', d, o, m)


def analyse(P, rep):
    """-> (components, image, [Build clients per flag value]) or None"""
    root = P.fn('mws::index::createCompressedIndex')
    ld = [f for f in P.repo_fns() if f.cls == 'mws::index::IndexLoader' and f.short.split('::')[-1] == 'IndexLoader' and f.blocks]
    if root is None or not ld:
        rep.error('index build or index loader not found'); return None
    c, e = parts(P, ld[0])
    comps = {t for k, t in c.events if k in ('open', 'read') and t}
    img = set()
    ml = P.fn('memsector_load')
    class I(Parts):
        def other(self, eng, st, inst, fobj, short, args):
            if short == ml.short:
                for a in args:
                    t = self.tag(eng, st, a)
                    if t:
                        img.add(t)
            return None
    ci = I(P, eventful(P, ld[0])); Engine(P, ci, 10).run_root(ld[0])
    rep.need('parts_of_an_index', len(comps), 4)
    if len(img) != 1:
        rep.error('the name of the image file is not understood: %s' % sorted(img)); return None
    image = img.pop()
    off = [m[1] for m in P.ditypes['mws::index::IndexConfiguration']['members'] if m[0] == 'deleteOldData']
    if not off:
        rep.error('configuration flag not found'); return None
    out = []
    rel = eventful(P, root)
    for flag in (0, 1):
        b = Build(P, rel, image, flag, comps)
        en = Engine(P, b, 14)
        en.run_root(root, None, None, {(('d', ('arg', 0)), off[0]): ('k', flag)})
        b.steps = en.steps
        out.append(b)
    rep.need('build_events', len(out[1].events), 7)
    rep.need('completions', sum(b.finished for b in out), 2)
    rep.stats['steps'] = sum(b.steps for b in out)
    rep.stats['parts'] = sorted(comps)
    return root, comps, image, out, off[0]
