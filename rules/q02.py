"""the dictionary of meanings: numbers are given once, in order, and survive saving and loading"""
from absint import Engine, Client
from i04 import lin

DICT = 'IdDictionary'


def base_of(eng, v):
    """(symbol, constant) of a linear form with one symbol of coefficient 1"""
    l = dict(lin(v)); c = l.pop(None, 0)
    return (next(iter(l)), c) if len(l) == 1 and list(l.values()) == [1] else (None, c if not l else None)


class Map(Client):
    """q = (entry found?, (value stored under the key, ...), other changes of the map, last string event)"""
    name = 'Q02'
    loop_ranges = True

    def __init__(self, P, inline_put=True, inline_get=True):
        self.P = P; self.bad = {}; self.puts = []; self.inline_put = inline_put; self.inline_get = inline_get
        self.at = []; self.index = []; self.delims = set(); self.lookups = []; self.dictcalls = set()

    def init_q(self):
        return (None, (), 0, None)

    def arith(self, eng, st, op, l, r):
        if op in ('add', 'sub') and (l[0] == 'k') != (r[0] == 'k'):
            a = l if l[0] != 'k' else r
            if base_of(eng, a)[0] is not None and any(n in repr(a) for n in ("'stored'", "'next'", "'num'", "'id'")):
                return ('op', op, l, r)
        return None

    def v(self, what, loc):
        self.bad.setdefault(what, loc)

    def store(self, eng, st, inst, addr, val):
        o, off = eng.addr(st, addr)
        if o == ('slot',) and val is not None:
            st.q = st.q[:1] + (st.q[1] + (val,),) + st.q[2:]
        if o == ('entry',):
            st.q = st.q[:2] + (1,) + st.q[3:]
        return None

    def call(self, eng, st, inst, fobj, short, args):
        name = short.split('::')[-1].split('<')[0] if short else ''
        f = eng.P.F.get(fobj) if isinstance(fobj, str) else fobj
        dem = (f.dem if f is not None else short) or ''
        loc = inst.loc()
        q = st.q
        if f is not None and f.repo:
            if DICT in short and name == 'put' and not self.inline_put or DICT in short and name == 'get' and not self.inline_get \
                    and 'Reverse' not in short:
                return self.api(eng, st, inst, name, args, loc)
            if DICT in short and name == 'get' and 'Reverse' in short and not self.inline_get:
                self.lookups.append((args[1], loc))
                return [('ret', ('p', ('key',), 0), st)]
            if DICT in short and name == 'getReverseLookupTable' and not self.inline_get:
                return [('ret', None, st)]
            return None
        head = dem.split('(')[0]
        if 'Rb_tree' in dem and (name in ('operator!=', 'operator==')):
            want = int(name == 'operator!=')
            if q[0] is not None and not self.iterating:
                return [('ret', ('k', want if q[0] == 'old' else 1 - want), st)]
            a = st.copy()
            st.q = ('old',) + q[1:]; a.q = ('new',) + q[1:]
            return [('ret', ('k', want), st), ('ret', ('k', 1 - want), a)]
        if 'Rb_tree' in dem and name in ('operator->', 'operator*'):
            return [('ret', ('p', ('entry',), 0), st)]
        if 'std::map' in head:
            if name in ('find', 'lower_bound', 'end', 'begin', 'cend', 'cbegin'):
                return [('ret', ('s', ('it', name)), st)]
            if name in ('count', 'contains'):
                a = st.copy()
                st.q = ('old',) + q[1:]; a.q = ('new',) + q[1:]
                return [('ret', ('k', 1), st), ('ret', ('k', 0), a)]
            if name == 'at':
                return [('ret', ('p', ('entry',), 32), st)]
            if name == 'operator[]':
                if q[0] == 'old':
                    return [('ret', ('p', ('entry',), 32), st)]
                return [('ret', ('p', ('slot',), 0), st)]
            if name == 'size':
                return [('ret', ('s', ('mapsize',)), st)]
            if name in ('insert', 'emplace', 'try_emplace') and len(args) >= 2 and q[0] in (None, 'new'):
                val = None
                if name == 'insert' and args[1][0] == 'p':
                    val = eng.load(st, ('p', args[1][1], (args[1][2] or 0) + 32), inst, None)
                elif len(args) >= 3:
                    val = eng.load(st, args[2], inst, None) if args[2][0] == 'p' else args[2]
                out = []
                if q[0] is None:
                    a = st.copy(); a.q = ('old',) + q[1:]
                    out.append(('ret', ('agg', (('s', ('it', 'find')), ('k', 0))), a))
                st.q = ('new', q[1] + (val,)) + q[2:]
                return out + [('ret', ('agg', (('s', ('it', 'find')), ('k', 1))), st)]
            if name in ('erase', 'clear', 'swap', 'operator=', 'insert_or_assign', 'extract', 'merge', 'insert', 'emplace'):
                st.q = q[:2] + (1,) + q[3:]
                return None
        if name in ('make_pair', 'pair') and len(args) >= 3:
            o, off = eng.addr(st, args[0])
            if type(off) is int:
                a = args[-1]
                st.mem[(o, off + 32)] = eng.load(st, a, inst, None) if a[0] == 'p' else a
            return [('ret', None, st)]
        if 'std::vector' in head and name in ('at', 'operator[]'):
            self.index.append((args[1], loc))
            return [('ret', ('p', ('key',), 0), st)]
        if 'std::vector' in head and name == 'resize':
            self.at.append((args[1], loc))
            return [('ret', None, st)]
        return self.stream(eng, st, inst, name, dem, head, args, loc)

    iterating = False

    def stream(self, *a):
        return None

    def api(self, eng, st, inst, name, args, loc):
        self.dictcalls.add(name)
        if name == 'put':
            return [('ret', ('s', ('num',)), st)]
        a = st.copy()
        st.q = ('new',) + st.q[1:]; a.q = ('old',) + st.q[1:]
        a.facts[('num',)] = (1, (1 << 32) - 1000, frozenset())
        return [('ret', ('k', self.nf), st), ('ret', ('s', ('num',)), a)]


class Loader(Map):
    """q[3]: None / ('read', non-empty?) / 'put'"""
    def __init__(self, P, nextoff):
        Map.__init__(self, P, False, False); self.nextoff = nextoff; self.start = set(); self.reads = 0; self.nf = 0

    def stream(self, eng, st, inst, name, dem, head, args, loc):
        q = st.q
        if name == 'getline' and 'istream' in dem:
            self.done(q, loc)
            self.reads += 1
            d = args[2] if len(args) > 2 else ('k', 10)
            self.delims.add(d[1] if d[0] == 'k' else None)
            a = st.copy()
            st.q = q[:3] + (('read', args[1], None),)
            a.q = q[:3] + (('read', args[1], False, 'fail'),)       # nothing read: the string is empty
            return [('ret', args[0], st), ('ret', args[0], a)]
        if q[3] and q[3][0] == 'read' and 'basic_ios' in dem and name in ('operator bool', 'operator!', 'fail', 'good'):
            bad = len(q[3]) == 4
            if name == 'good' and not bad:
                return None
            return [('ret', ('k', int(bad == (name in ('operator!', 'fail')))), st)]
        if q[3] and q[3][0] == 'read' and args and args[0] == q[3][1] and 'basic_string' in head:
            ne = q[3][2]
            if name in ('size', 'length', 'empty'):
                e = name == 'empty'
                out = []
                if ne is not False:
                    s = st.copy(); s.q = q[:3] + (('read', q[3][1], True),)
                    if e:
                        out.append(('ret', ('k', 0), s))
                    else:
                        s.facts[('len',)] = (1, 1 << 40, frozenset())
                        out.append(('ret', ('s', ('len',)), s))
                if ne is not True:
                    s = st.copy(); s.q = q[:3] + (('read', q[3][1], False),)
                    out.append(('ret', ('k', int(e)), s))
                return out
        return None

    def done(self, q, loc):
        if q[3] and q[3][0] == 'read' and q[3][2] is not False:
            self.v('a meaning that was read is not numbered', loc)

    def api(self, eng, st, inst, name, args, loc):
        q = st.q
        if name == 'put':
            c = st.mem.get((('d', ('arg', 0)), self.nextoff))
            self.start.add(c[1] if c is not None and c[0] == 'k' else None)
            if not (q[3] and q[3][0] == 'read' and args[1] == q[3][1]):
                self.v('something else than the meaning just read is numbered, or it is numbered twice', loc)
            st.q = q[:3] + (('put',),)
            return [('ret', ('s', ('num',)), st)]
        return Map.api(self, eng, st, inst, name, args, loc)

    def ret(self, eng, st, fn, rv, kind, depth):
        if depth == 0 and kind == 'ret':
            self.done(st.q, fn.short)


class Saver(Map):
    """q[3]: None outside of the iteration, 'el' at an element, 'key' after the key was written, 'end' after the terminator"""
    def __init__(self, P):
        Map.__init__(self, P, False, False); self.nf = 0; self.keys = 0; self.walk = False

    def call(self, eng, st, inst, fobj, short, args):
        f = eng.P.F.get(fobj) if isinstance(fobj, str) else fobj
        dem = (f.dem if f is not None else short) or ''
        name = short.split('::')[-1].split('<')[0] if short else ''
        loc = inst.loc()
        if not (f is not None and f.repo):
            if 'Rb_tree' in dem and name in ('operator!=', 'operator=='):
                self.v('meanings are saved in the order of the meanings, not of their numbers', loc)
            if '__normal_iterator' in dem and name in ('operator!=', 'operator=='):
                q = st.q
                if q[3] in ('el', 'key'):
                    self.v('a meaning is saved without its terminator' if q[3] == 'key' else 'a meaning is not saved', loc)
                if 'reverse_iterator' in dem:
                    self.v('meanings are saved in reverse order', loc)
                a = st.copy()
                st.q = q[:3] + ('el',); a.q = q[:3] + ('done',)
                t = int(name == 'operator!=')
                return [('ret', ('k', t), st), ('ret', ('k', 1 - t), a)]
            if 'std::vector' in dem.split('(')[0] and name in ('at', 'operator[]'):
                # a walk by index: how far it goes is not decided
                q = st.q
                if q[3] == 'key':
                    self.v('a meaning is saved without its terminator', loc)
                st.q = q[:3] + ('el',)
                self.walk = True
                return [('ret', ('p', ('key',), 0), st)]
            if 'ostream' in dem and (name.startswith('operator') or name in ('put', 'write')):
                ch = args[1] if len(args) > 1 else None
                if name.startswith('operator') and 'basic_string<' in dem.split('(', 1)[-1]:
                    return self.out(st, 'key', loc, args[0])
                if name == 'put' or dem.rstrip().endswith(', char)'):
                    self.delims.add(ch[1] if ch[0] == 'k' else None)
                    return self.out(st, 'delim', loc, args[0])
        return Map.call(self, eng, st, inst, fobj, short, args)

    def out(self, st, what, loc, ret):
        q = st.q
        if what == 'key':
            self.keys += 1
            if q[3] != 'el':
                self.v('something is saved that the loader does not expect', loc)
            st.q = q[:3] + ('key',)
        else:
            if q[3] != 'key':
                self.v('a terminator is saved where no meaning precedes it', loc)
            st.q = q[:3] + ('end',)
        return [('ret', ret, st)]

    def ret(self, eng, st, fn, rv, kind, depth):
        if depth == 0 and kind == 'ret' and rv == ('k', 0) and st.q[3] != 'done' and not (self.walk and st.q[3] in (None, 'end')):
            self.v('reports success before all meanings are saved', fn.short)


class Iter(Map):
    iterating = True


def run(P, rep, tier):
    rep.rule = ('Abstract interpretation of the dictionary with its map modelled as one entry (found or not, any stored number): a found key yields the '
                'stored number and changes nothing; a new key is stored once under the counter, which grows by one; the number for unknown keys is below '
                'the first one. Loading numbers every meaning read, in order, from the first number; saving writes the meanings in the order of their '
                'numbers, each with the terminator the loader splits at. The offsets in the reverse table and of encoders and decoder are linear forms '
                'that must agree.')
    rep.assumptions = ['standard containers and streams do what they say', 'no meaning is empty or contains the terminator (meanings contain the tag name and #)',
                       'fewer than 2^32 - 161 meanings are stored']
    fs = {}
    for f in P.repo_fns():
        if DICT in f.short and f.cls and not f.decl:
            fs.setdefault(f.short.split('::')[-1] if not f.cls.endswith('ReverseLookupTable') else 'Reverse::' + f.short.split('::')[-1], []).append(f)
    if not fs.get('put') or not fs.get('get'):
        rep.error('no dictionary found'); return
    cls = fs['put'][0].cls
    ints = [m for m in P.ditypes[cls]['members'] if m[2] in (32, 64) and 'map<' not in m[3] and m[0] != '<base>']
    if len(ints) != 1:
        rep.error('no single counter in %s' % cls); return
    noff = ints[0][1]
    me = ('d', ('arg', 0))
    NEXT, STORED = ('s', ('next',)), ('s', ('stored',))
    pre = {(me, noff): NEXT, (('entry',), 32): STORED}
    facts = {('next',): (1, (1 << 32) - 1000, frozenset()), ('stored',): (1, (1 << 32) - 1000, frozenset())}

    def viol(f, what, loc=None):
        rep.viol('%s|%s' % (f.short.split('::')[-1], what), '%s: %s (%s)' % (f.short, what, loc or f.short))

    nf = set()
    f = fs['get'][0]
    c = Map(P)
    eng = Engine(P, c, 6, 200000)
    n = 0
    for kind, rv, st in eng.run_root(f, mem=pre, facts=facts):
        if kind != 'ret':
            continue
        n += 1
        if st.q[1] or st.q[2] or st.mem.get((me, noff)) != NEXT:
            viol(f, 'looking a meaning up changes the dictionary')
        if st.q[0] == 'old':
            ok = rv == STORED
            rep.ob('get: a known meaning yields its number', ok)
            if not ok:
                viol(f, 'a known meaning does not yield its number')
        else:
            nf.add(rv[1] if rv[0] == 'k' else None)
    rep.need('get: outcomes', n, 2)
    rep.ob('get: an unknown meaning yields one constant', len(nf) == 1 and None not in nf)
    if len(nf) != 1 or None in nf:
        viol(f, 'an unknown meaning yields something that is not one constant'); return
    nfv = next(iter(nf))
    f = fs['put'][0]
    c = Map(P)
    eng = Engine(P, c, 6, 200000)
    shift = None
    n = 0
    for kind, rv, st in eng.run_root(f, mem=pre, facts=facts):
        if kind != 'ret':
            continue
        n += 1
        nx = st.mem.get((me, noff))
        if st.q[0] == 'old':
            ok = rv == STORED and not st.q[1] and not st.q[2] and nx == NEXT
            rep.ob('put: a known meaning keeps its number and changes nothing', ok)
            if not ok:
                viol(f, 'a known meaning does not keep its number' if rv != STORED or st.q[1] or st.q[2] else 'a known meaning uses a number up')
        elif st.q[0] is None:
            viol(f, 'a number is given without looking for the one the meaning has')
        else:
            w = st.q[1]
            if len(w) != 1 or w[0] is None:
                viol(f, 'a new meaning is not stored exactly once'); continue
            b, k = base_of(eng, w[0])
            ok1 = b == NEXT
            ok2 = rv is not None and lin_eq(rv, w[0])
            bb, kk = base_of(eng, nx) if nx is not None else (None, None)
            ok3 = bb == NEXT and kk == 1
            rep.ob('put: a new meaning is stored under the counter', ok1)
            rep.ob('put: the number returned is the one stored', ok2)
            rep.ob('put: the counter grows by one', ok3)
            if not ok1:
                viol(f, 'a new meaning is not stored under the next number')
            if not ok2:
                viol(f, 'the number returned for a new meaning is not the one stored')
            if not ok3:
                viol(f, 'the counter does not grow by one with a new meaning')
            shift = k if ok1 else shift
    rep.need('put: outcomes', n, 2)
    if shift is None:
        if not rep.violations:
            rep.error('no new meaning is ever stored')
        return
    # constructors
    starts = set(); ldel = set()
    for f in fs.get('IdDictionary', ()):
        c = Loader(P, noff)
        eng = Engine(P, c, 6, 400000)
        outs = eng.run_root(f)
        for kind, rv, st in outs:
            if kind != 'ret':
                continue
            v = st.mem.get((me, noff))
            if not c.reads:
                starts.add(v[1] if v is not None and v[0] == 'k' else None)
        starts |= c.start
        ldel |= c.delims
        rep.ob('%s: every meaning read is numbered once, in order' % ('loader' if c.reads else 'constructor'), not c.bad)
        for w, loc in sorted(c.bad.items()):
            viol(f, w, loc)
        if c.reads and 'put' not in c.dictcalls and not c.start:
            viol(f, 'no meaning read is numbered')
    if len(starts) != 1 or None in starts:
        viol(fs['IdDictionary'][0], 'the dictionary does not always start with the same number: %s' % sorted(map(str, starts))); return
    first = next(iter(starts)) + shift
    rep.ob('the first number %d is above the one for unknown meanings %d' % (first, nfv), nfv < first)
    if not nfv < first:
        viol(fs['put'][0], 'a meaning can get the number that stands for unknown meanings')
    # saving
    for f in fs.get('save', ()):
        c = Saver(P)
        Engine(P, c, 6, 400000).run_root(f)
        rep.ob('save: every meaning in the order of the numbers', not c.bad)
        for w, loc in sorted(c.bad.items()):
            viol(f, w, loc)
        rep.need('save: meanings written', c.keys, 1)
        ok = c.delims == ldel and len(ldel) == 1 and None not in ldel
        rep.ob('save: terminator %s is the one the loader splits at' % c.delims, ok)
        if not ok:
            viol(f, 'meanings are separated by %s but read back split at %s' % (sorted(map(str, c.delims)), sorted(map(str, ldel))))
    # reverse table
    for nm, arg in (('getReverseLookupTable', None), ('Reverse::get', ('s', ('id',)))):
        for f in fs.get(nm, ()):
            c = Iter(P)
            eng = Engine(P, c, 6, 200000)
            if arg is None:
                # the table is returned through the first argument
                eng.run_root(f, mem={(('entry',), 32): STORED}, facts=facts)
                want = STORED
            else:
                eng.run_root(f, args={1: arg}, facts={('id',): (1, (1 << 32) - 1000, frozenset())})
                want = arg
            for v, loc in c.index:
                b, k = base_of(eng, v)
                ok = b == want and k == -first
                rep.ob('%s: index is the number minus %d' % (nm, first), ok)
                if not ok:
                    viol(f, 'the reverse table is not indexed by the number minus %d' % first, loc)
            rep.need('%s: accesses' % nm, len(c.index), 1)
    # encoders and decoder
    ks = {}
    for f in P.repo_fns():
        if f.short.endswith('Encoder::_getConstantEncoding') and not f.decl:
            c = Map(P, False, False); c.nf = nfv
            eng = Engine(P, c, 6, 200000)
            n = 0
            for kind, rv, st in eng.run_root(f):
                if kind != 'ret':
                    continue
                b, k = base_of(eng, rv)
                if b == ('s', ('num',)):
                    ks.setdefault(k, []).append(f); n += 1
                elif not (st.q[0] == 'new' and rv == ('k', nfv)):
                    viol(f, 'a known meaning is not encoded by its number')
            rep.need('%s: ways to encode a known meaning' % f.short.split('::')[-2], n, 1)
            want = {'put'} if 'Harvest' in f.short else {'get'}
            if c.dictcalls != want and 'Query' in f.short:
                viol(f, 'encoding a query changes the dictionary')
    for f in P.repo_fns():
        if f.short.endswith('ExpressionDecoder::getMeaning') and not f.decl:
            c = Map(P, False, False); c.nf = nfv
            eng = Engine(P, c, 6, 200000)
            eng.run_root(f, args={len(f.args) - 1: ('s', ('id',))},
                         facts={('id',): (0, (1 << 24) - 1, frozenset())})
            for v, loc in c.lookups:
                b, k = base_of(eng, v)
                ks.setdefault(-k if k is not None and b == ('s', ('id',)) else None, []).append(f)
            rep.need('decoder: lookups', len(c.lookups), 1)
    rep.ob('encoders and decoder shift numbers by the same amount: %s' % sorted(map(str, ks)), len(ks) == 1 and None not in ks)
    if len(ks) != 1 or None in ks:
        for k, l in sorted(ks.items(), key=lambda x: len(x[1])):
            for f in l:
                viol(f, 'encoders and decoder do not shift the numbers of meanings by the same amount')


def lin_eq(a, b):
    a, b = dict(lin(a)), dict(lin(b))
    a.setdefault(None, 0); b.setdefault(None, 0)
    return a == b
