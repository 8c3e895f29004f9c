"""what the index image writer stores about the image, as a function of what it wrote"""
from absint import Client, Engine, Budget
import strs

WR, HD = 'memsector_writer_s', 'memsector_header_s'
FILE = ('p', ('res', 'imagefile'), 0)
NOWRITE = {'fflush', 'ferror', 'fileno', 'clearerr', 'fsync', 'fdatasync', 'ftell', 'setvbuf', 'setbuf', 'fclose', 'ferror_unlocked'}


def fields(P, cls):
    return {m[0]: (m[1], (m[2] + 7) // 8) for m in P.ditypes[cls]['members']}


def lin(v):
    """value as {term: coefficient}, constant under None"""
    if v[0] == 'k':
        return {None: v[1]}
    if v[0] == 'op' and v[1] in ('add', 'sub') and len(v) == 4:
        a, b = lin(v[2]), lin(v[3])
        s = 1 if v[1] == 'add' else -1
        r = dict(a)
        for t, c in b.items():
            r[t] = r.get(t, 0) + s * c
        return {t: c for t, c in r.items() if c or t is None}
    if v[0] == 'op' and v[1] == 'mul' and v[3][0] == 'k':
        return {t: c * v[3][1] for t, c in lin(v[2]).items()}
    if v[0] == 'op' and v[1] in ('zext', 'sext'):
        return lin(v[3])
    return {v: 1}


def eqlin(a, b):
    a, b = lin(a), lin(b)
    a.setdefault(None, 0); b.setdefault(None, 0)
    return a == b


def plus(a, b):
    return ('op', 'add', a, b)


class Image(Client):
    """q = (position, writes, crc history); writes = ((position, data, length, snapshot of the header fields), ...)"""
    name = 'image writer'
    callbacks = False
    loop_ranges = True

    def __init__(self, P, msw):
        self.P = P; self.msw = msw; self.ends = []; self.other = []; self.calls = 0; self.modes = []
        self.hdr = fields(P, HD); self.wr = fields(P, WR)

    def init_q(self):
        return ('end', ())

    def relevant(self, eng, f):
        return True

    def snapshot(self, eng, st, addr):
        o, off = eng.addr(st, addr)
        if type(off) is not int:
            return ()
        return tuple((n, st.mem.get((o, off + p[0]))) for n, p in sorted(self.hdr.items()))

    def call(self, eng, st, inst, fobj, short, args):
        if short in ('fopen', 'fopen64', 'fdopen', 'freopen'):
            m = strs.literal(self.P, args[1])
            if m is not None and short != 'fdopen' and m[:1] != 'w':
                self.modes.append((inst, m))
            return [('ret', FILE, st)]
        if short == 'crc32':
            self.calls += 1
            return [('ret', ('s', ('crc', args[0], args[1], args[2])), st)]
        if short in ('fseek', 'fseeko', 'fseeko64', 'rewind'):
            at = ('k', 0) if short == 'rewind' or args[2] == ('k', 0) else None
            st.q = (args[1] if at and short != 'rewind' else at or ('?',), st.q[1])
            if short != 'rewind' and args[2] == ('k', 2) and args[1] == ('k', 0):
                st.q = ('end', st.q[1])
            return [('ret', ('k', 0), st)]
        if FILE in args:
            pos, w = st.q
            if short in ('fwrite', 'fwrite_unlocked'):
                self.calls += 1
                n = args[2] if args[1] == ('k', 1) else args[1] if args[2] == ('k', 1) else \
                    ('k', args[1][1] * args[2][1]) if args[1][0] == args[2][0] == 'k' else ('s', ('len', args[1], args[2]))
                st.q = ('end' if pos == 'end' else plus(pos, n), w + ((pos, args[0], n, self.snapshot(eng, st, args[0])),))
                return [('ret', args[2], st)]
            if short == 'fclose':
                st.q = ('closed', w)
                return [('ret', ('k', 0), st)]
            if short in NOWRITE:
                return [('ret', ('k', 0), st)]
            if fobj is None or not fobj.repo:
                self.other.append((inst, short))
                st.q = (pos, w + ((pos, ('?', short), ('?',), ()),))
                return [('ret', None, st)]
        return None

    def ret(self, eng, st, fn, rv, kind, depth):
        self.ends.append((kind, rv, st))


def direct(P):
    """functions that touch the writer's file, checksum or offset themselves"""
    out = {}
    w = fields(P, WR)
    for f in P.repo_fns():
        if '/test/' in (f.file or ''):
            continue
        for x in f.all():
            if x.op == 'store':
                m = P.field(f, x.a[1])
                if m and ((m[0] == WR and m[1] in ('file', 'offset')) or (m[0] == HD)):
                    out.setdefault(f.name, []).append(x)
            if x.is_call and x.d['fn'][0] == 'f' and P.F[x.d['fn'][1]].short in ('fwrite', 'fputs', 'fputc', 'fprintf', 'putc', 'write'):
                for a in x.a:
                    if a[0] == 'i' and f.insts[a[1]].op == 'load':
                        m = P.field(f, f.insts[a[1]].a[0])
                        if m and m[0] == WR and m[1] == 'file':
                            out.setdefault(f.name, []).append(x)
    return out


def header_consts(P):
    """magic, version and initial checksum that a new image gets; (values, findings)"""
    f = P.fn('memsector_create')
    c = Image(P, ('arg', 0)); e = Engine(P, c, 6)
    e.run_root(f)
    vals = set(); bad = []
    for kind, rv, st in c.ends:
        if kind != 'ret' or e.truth(st, rv) is not False:
            continue
        o = ('d', ('arg', 0))
        base = c.wr['ms'][0]
        get = lambda n: st.mem.get((o, base + c.hdr[n][0]))
        w = st.q[1]
        if c.modes:
            bad.append('the file of a new image is not emptied and positioned at its start when it is opened')
        size = P.ditypes[HD]['size']
        if len(w) != 1 or lin(w[0][2]) != {None: size}:
            bad.append('a new image does not start with room for its header')
        off = st.mem.get((o, c.wr['offset'][0]))
        if off is None or lin(off) != {None: size}:
            bad.append('the offset of a new image is not the end of its header')
        if st.mem.get((o, c.wr['file'][0])) != FILE:
            bad.append('the file of a new image is not the one that was opened')
        vals.add((get('magic'), get('version'), get('checksum')))
    return vals, bad, e


def run(P, rep, tier):
    rep.rule = ('Abstract interpretation of the image writer: every function that writes to the image file keeps the invariants offset = bytes '
                'written so far and checksum = CRC chained over exactly the bytes written after the header, in order, from the value the reader '
                'starts with; saving writes the header at the start of the file with these values, the given root and the size without header.')
    size = P.ditypes[HD]['size']
    vals, bad, e = header_consts(P)
    rep.ob('a new image reserves its header and starts with offset %d' % size, not bad and len(vals) == 1)
    for b in sorted(set(bad)):
        rep.viol('memsector_create|' + b, 'memsector_create: ' + b)
    if len(vals) != 1 or None in list(vals)[0]:
        rep.viol('memsector_create|header', 'memsector_create: magic, version or initial checksum of a new image are not fixed')
        return
    magic, version, crc0 = list(vals)[0]
    D = direct(P)
    roots = []
    for n in sorted(D):
        f = P.F[n]
        if f.short in ('memsector_create', 'memsector_save'):
            continue
        k = [i - 1 for i, t in enumerate(f.ditypes) if str(t) == WR + '*']
        roots.append((f, k[0] if k else None))
    inner = [f for f, k in roots]
    # callers with a writer argument that write through these functions: checked as a whole as well
    for f in P.repo_fns():
        k = [i - 1 for i, t in enumerate(f.ditypes) if str(t) == WR + '*']
        if k and f.cls is None and f not in inner and f.short not in ('memsector_create', 'memsector_save') and \
           any(g in P.reach([f.name]) for g in D):
            roots.append((f, k[0]))
    steps = 0; paths = 0
    # functions that only run as part of creating or saving
    owned = P.reach([P.fn('memsector_create').name, P.fn('memsector_save').name])
    for f, k in roots:
        if k is None or (f.name in owned and not [g for g in P.callers(f.name) if g.fn.name not in owned]):
            if f.name in owned:
                continue
            for x in D.get(f.name, []):
                rep.viol('%s|outside' % f.short, '%s writes to the image or its header outside of the image writer (%s)' % (f.short, x.loc()))
            rep.ob('%s leaves the image alone' % f.short, False)
            continue
        c = Image(P, ('arg', k)); e = Engine(P, c, 8)
        o = ('d', ('arg', k)); base = c.wr['ms'][0]
        O, C = ('s', ('old', 'offset')), ('s', ('old', 'crc'))
        mem = {(o, c.wr['file'][0]): FILE, (o, c.wr['offset'][0]): O, (o, base + c.hdr['checksum'][0]): C,
               (o, base + c.hdr['magic'][0]): magic, (o, base + c.hdr['version'][0]): version}
        e.run_root(f, None, None, mem, {O[1]: (size, float('inf'), frozenset())})
        steps += e.steps
        probs = set()
        for kind, rv, st in c.ends:
            paths += 1
            pos, w = st.q
            off = st.mem.get((o, c.wr['offset'][0])); cs = st.mem.get((o, base + c.hdr['checksum'][0]))
            if off is None or cs is None:
                probs.add('offset or checksum are unknown after it'); continue
            if st.mem.get((o, base + c.hdr['magic'][0])) != magic or st.mem.get((o, base + c.hdr['version'][0])) != version:
                probs.add('changes the magic number or version of the image')
            exp = O; crc = C
            for p, d, n, s in w:
                if p != 'end':
                    probs.add('writes into a part of the image that was already written')
                exp = plus(exp, n)
                crc = ('s', ('crc', crc, d, n))
            if not eqlin(off, exp):
                probs.add('the offset does not advance by the bytes written')
            if cs != crc:
                probs.add('the checksum does not cover exactly the bytes written')
        rep.ob('%s: %d outcomes keep offset and checksum of the image' % (f.short, len(c.ends)), not probs)
        for p in sorted(probs):
            rep.viol('%s|%s' % (f.short, p), '%s: %s' % (f.short, p))
    rep.need('writer_functions', len([1 for f, k in roots if k is not None]), 1)
    # saving
    f = P.fn('memsector_save')
    c = Image(P, ('arg', 0)); e = Engine(P, c, 8)
    o = ('d', ('arg', 0)); base = c.wr['ms'][0]
    O, C, R = ('s', ('old', 'offset')), ('s', ('old', 'crc')), ('s', ('arg', 1))
    mem = {(o, c.wr['file'][0]): FILE, (o, c.wr['offset'][0]): O, (o, base + c.hdr['checksum'][0]): C,
           (o, base + c.hdr['magic'][0]): magic, (o, base + c.hdr['version'][0]): version}
    e.run_root(f, None, None, mem, {O[1]: (size, float('inf'), frozenset())})
    steps += e.steps
    probs = set(); good = 0
    for kind, rv, st in c.ends:
        if kind != 'ret' or e.truth(st, rv) is not False:
            continue
        good += 1; paths += 1
        pos, w = st.q
        head = [x for x in w if x[0] == ('k', 0)]
        if any(x[0] != ('k', 0) for x in w):
            probs.add('writes something else than the header')
        if not head or lin(head[-1][2]) != {None: size}:
            probs.add('the header is not written at the start of the image'); continue
        h = dict(head[-1][3])
        want = {'magic': magic, 'version': version, 'checksum': C, 'root_off': R}
        for n, v in want.items():
            if h.get(n) != v:
                probs.add('the header written does not hold the %s of the image' % n)
        if h.get('index_size') is None or not eqlin(h['index_size'], ('op', 'sub', O, ('k', size))):
            probs.add('the header written does not hold the size of what follows the header')
        if pos != 'closed':
            probs.add('the image is not closed')
    if not good:
        probs.add('never succeeds')
    rep.ob('memsector_save: the header describes what was written', not probs)
    for p in sorted(probs):
        rep.viol('memsector_save|' + p, 'memsector_save: ' + p)
    rep.need('outcomes', paths, 3)
    rep.stats['steps'] = steps
