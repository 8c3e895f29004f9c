"""formulae found by the crawler are kept until they are stored, in a file of their own"""
import re
import strs
from absint import Client, Engine, INF
from inject import upward, calls_to

VEC = re.compile(r'std::(vector|list|deque)::')
STR = re.compile(r'std::(__cxx11::)?basic_string::')
SSTREAM = re.compile(r'std::(__cxx11::)?basic_o?stringstream::')
ELEM = ('p', ('felem',), 0)
TEXT = ('p', ('ftext',), 0)
LEN = ('s', ('flen',))
FILES = {'fopen', 'fopen64', 'open', 'open64', 'creat', 'fdopen', 'fwrite', 'fputs', 'fprintf', 'write', 'fclose', 'close', 'rename'}
BAD = ('badw', 'badf', 'badc', 'badwc')
WRITES = ('fwrite', 'fputs', 'fprintf', 'write', 'fputs_unlocked', 'fwrite_unlocked')


class Q(tuple):
    """(pack, file, iterated vector, phase, found on a page and not kept yet, texts made of formulae)"""
    N = ('pk', 'fl', 'vec', 'ph', 'found', 'txt')
    def put(self, **k):
        return Q(tuple(k.get(n, v) for n, v in zip(self.N, self)))
    pk = property(lambda s: s[0]); fl = property(lambda s: s[1]); vec = property(lambda s: s[2])
    ph = property(lambda s: s[3]); found = property(lambda s: s[4]); txt = property(lambda s: s[5])


class Packs(Client):
    callbacks = True

    def __init__(self, P, rel, pack, getters):
        self.P = P; self.rel = rel; self.pack = pack; self.getters = getters
        self.bad = {}; self.stored = set(); self.kept = set(); self.opens = set(); self.drops = set(); self.ends = []

    def init_q(self):
        return Q(('old', None, None, None, False, frozenset()))

    def relevant(self, eng, f):
        return f.name in self.rel

    def keep_cell(self, k, v, st):
        return strs.keep_tag(k) or isinstance(k[1], tuple) and k[1][:1] in (('fv',), ('fe',)) or v[0] == 's' and v[1][:1] == ('fit',) \
            or v in (TEXT, ELEM) or v == LEN

    def say(self, inst, text):
        self.bad.setdefault((inst.fn.short, text), inst.loc())

    # what a value is
    def vector(self, eng, st, av):
        """'pack', 'found' or None"""
        o, off = eng.addr(st, av)
        if (o, off) == self.pack:
            return 'pack'
        return 'found' if (o, ('fv', off)) in st.mem else None

    def elem(self, eng, st, av):
        if av[0] == 'p' and av[1] == ('felem',):
            return True
        o, off = eng.addr(st, av)
        return (o, ('fe', off)) in st.mem

    def text(self, eng, st, av):
        if av == TEXT:
            return True
        return eng.addr(st, av) in st.q.txt

    def mark(self, eng, st, av, kind, on=True):
        o, off = eng.addr(st, av)
        if kind == 'fs':
            st.q = st.q.put(txt=st.q.txt | {(o, off)} if on else st.q.txt - {(o, off)})
        elif on:
            st.mem[(o, (kind, off))] = ('k', 1)
        else:
            st.mem.pop((o, (kind, off)), None)

    def size(self, which):
        return ('s', ('fsize', which))

    def empty(self, st, which):
        lo, hi, ex = st.facts.get(('fsize', which), (0, INF, frozenset()))
        return hi <= 0

    # events
    def push(self, st, inst, which):
        self.kept.add(inst.loc())
        if which == 'pack':
            if st.q.pk == 'stored' and not self.empty(st, 'pack'):
                self.say(inst, 'adds formulae to some that were stored already')
            st.q = st.q.put(pk='new')
            st.facts[('fsize', 'pack')] = (1, INF, frozenset())

    def use(self, st, inst, which):
        """an element was taken over by vector 'which' or by a text"""
        q = st.q
        if q.ph in ('at', 'start', 'next'):
            st.q = q.put(ph='used')
        elif q.ph == 'used':
            self.say(inst, 'takes a formula over twice')
        elif q.ph in ('idx', 'idxat'):
            st.q = q.put(ph='idx')

    def drop(self, eng, st, inst, what):
        self.drops.add(inst.loc())
        if st.q.pk not in ('stored', 'clean') and not self.empty(st, 'pack'):
            self.say(inst, 'drops formulae %s' % ('although storing them failed' if st.q.pk == 'kept' else 'that were not stored'))
        st.q = st.q.put(pk='clean')
        st.facts[('fsize', 'pack')] = (0, 0, frozenset())

    def done(self, st, inst):
        """an iteration came to its end"""
        q = st.q
        if q.ph == 'start':
            st.facts[('fsize', q.vec)] = (0, 0, frozenset())
        if q.vec == 'found':
            st.q = st.q.put(ph='end', found=False)
        else:
            st.q = st.q.put(ph='end')

    def start(self, st, which, ph='start', inst=None):
        if which == 'pack' and st.q.pk == 'stored' and not self.empty(st, 'pack') and (st.q.vec, st.q.ph) != ('pack', 'idx') and inst is not None:
            self.say(inst, 'takes formulae again that were stored already')
        st.q = st.q.put(vec=which, ph=ph)

    def moved(self, st, inst):
        q = st.q
        if q.ph in ('at', 'start'):
            self.say(inst, 'skips formulae')
        if q.ph in ('at', 'used', 'start'):
            st.q = q.put(ph='next')

    def cell(self, eng, st, av):
        o, off = eng.addr(st, av)
        v = st.mem.get((o, off)) if type(off) is int else None
        return v if v is not None and v[0] == 's' and v[1][:1] == ('fit',) else None

    def cmp_iter(self, st, inst, yes_ne):
        """comparison with the end: (value for 'not at the end')"""
        q = st.q
        if q.ph in ('at', 'used'):
            return None
        out = []
        s2 = st.copy()
        self.done(s2, inst)
        st.facts[('fsize', q.vec)] = (1, INF, frozenset())
        out.append(('ret', ('k', 0 if yes_ne else 1), s2))
        st.q = q.put(ph='at')
        out.append(('ret', ('k', 1 if yes_ne else 0), st))
        return out

    def branch(self, eng, st, inst, cond, taken):
        # loops with an index
        if cond[0] == 'cmp' and st.q.ph in (None, 'end', 'idx') and cond[1] in ('ult', 'ugt', 'slt', 'sgt', 'ule', 'uge'):
            for a, b in ((cond[2], cond[3]), (cond[3], cond[2])):
                if a[0] == 's' and a[1][:1] == ('fsize',) and (b[0] != 'k' or b[1] == 0) and cond[1][1:] in ('lt', 'gt'):
                    self.start(st, a[1][1], 'idx', inst)
                    if a[1][1] == 'found':
                        st.q = st.q.put(found=False)
        return None

    def call(self, eng, st, inst, fobj, short, args):
        q = st.q
        last = short.split('::')[-1]
        dem = fobj.dem if fobj is not None else ''
        if fobj is not None and fobj.name in self.getters:
            if q.found and not self.empty(st, 'found'):
                self.say(inst, 'formulae found on a page are forgotten')
            st.facts.pop(('fsize', 'found'), None)
            self.mark(eng, st, args[0], 'fv')
            st.q = q.put(found=True, vec=None, ph=None)
            return [('ret', None, st)]
        if VEC.match(short) and args and 'basic_string' in dem:
            return self.vec_call(eng, st, inst, last, args, dem)
        if short in ('__gnu_cxx::operator!=', '__gnu_cxx::operator==', 'std::operator!=', 'std::operator==') and len(args) == 2:
            if self.cell(eng, st, args[0]) or self.cell(eng, st, args[1]):
                return self.cmp_iter(st, inst, last == 'operator!=')
        if re.match(r'__gnu_cxx::__normal_iterator::', short) and args:
            c = self.cell(eng, st, args[0])
            if c is not None:
                if last in ('operator*', 'operator->'):
                    return [('ret', ELEM, st)]
                if last == 'operator++':
                    self.moved(st, inst)
                    return [('ret', args[0] if len(args) == 1 else c, st)]
                if last in ('operator+=', 'operator--', 'operator-='):
                    self.say(inst, 'skips formulae')
                    return [('ret', args[0], st)]
                if last in ('operator+', 'operator-'):
                    self.say(inst, 'skips formulae')
                    return [('ret', c, st)]
            if last == '__normal_iterator' and len(args) == 2:
                c = self.cell(eng, st, args[1])
                if c is not None:
                    st.mem[eng.addr(st, args[0])] = c
                    return [('ret', None, st)]
        if short == 'std::operator<<' and len(args) == 2:
            o = eng.addr(st, args[0])[0]
            if self.elem(eng, st, args[1]):
                self.use(st, inst, 'text')
                st.q = st.q.put(txt=st.q.txt | {(o, 'stream')})
            elif self.text(eng, st, args[1]):
                st.q = st.q.put(txt=st.q.txt | {(o, 'stream')})
            return [('ret', args[0], st)]
        if SSTREAM.match(short) and last == 'str' and len(args) == 2:
            t = (eng.addr(st, args[1])[0], 'stream') in st.q.txt
            self.mark(eng, st, args[0], 'fs', t)
            return [('ret', None, st)] if t else None
        r = self.file_call(eng, st, inst, short, args)
        if r is not None:
            return r
        if STR.match(short) and args:
            r = self.str_call(eng, st, inst, last, args)
            if r is not None:
                return r
        if short == 'std::operator+' and len(args) == 3:
            n = sum(self.elem(eng, st, a) for a in args[1:])
            t = any(self.text(eng, st, a) for a in args[1:])
            self.mark(eng, st, args[0], 'fs', t)
            self.mark(eng, st, args[0], 'fe', n > 0)
        if short == 'strlen' and args[0] == TEXT:
            return [('ret', LEN, st)]
        return strs.call(self.P, eng, st, inst, fobj, short, args)

    def str_call(self, eng, st, inst, last, args):
        a = args[0]
        if last in ('append', 'operator+=', 'push_back') and len(args) >= 2:
            if self.elem(eng, st, args[1]):
                self.use(st, inst, 'text'); self.mark(eng, st, a, 'fs')
            elif self.text(eng, st, args[1]):
                self.mark(eng, st, a, 'fs')
            else:
                return None
            return [('ret', a, st)]
        if last in ('basic_string', 'operator=', 'assign') and len(args) >= 2:
            self.mark(eng, st, a, 'fe', self.elem(eng, st, args[1]))
            self.mark(eng, st, a, 'fs', self.text(eng, st, args[1]))
            return None
        if last in ('c_str', 'data') and len(args) == 1:
            if self.text(eng, st, a):
                return [('ret', TEXT, st)]
            if self.elem(eng, st, a):
                return [('ret', ELEM, st)]
        if last in ('size', 'length'):
            return [('ret', LEN if self.text(eng, st, a) else ('s', ('ssize',) + eng.addr(st, a)), st)]
        if last not in ('c_str', 'data', 'size', 'length', 'find', 'compare', 'empty', 'substr', '~basic_string'):
            st.facts.pop(('ssize',) + eng.addr(st, a), None)
        if last in ('clear', 'erase', 'resize', '~basic_string', 'swap'):
            self.mark(eng, st, a, 'fs', False); self.mark(eng, st, a, 'fe', False)
        return None

    def vec_call(self, eng, st, inst, last, args, dem):
        w = self.vector(eng, st, args[0])
        if last in ('vector', 'operator=', 'assign') and len(args) >= 2:
            src = self.vector(eng, st, args[1])
            if w == 'pack':
                self.drop(eng, st, inst, last)
            elif src:
                self.mark(eng, st, args[0], 'fv')
                if src == 'pack' and '&&' in dem:
                    self.say(inst, 'drops formulae that were not stored')
                return [('ret', args[0] if inst.t == 'ptr' else None, st)]
            return None
        if last in ('push_back', 'emplace_back', 'insert', 'emplace') and w and len(args) >= 2:
            its = [a for a in args[1:] if a[0] == 's' and a[1][:1] == ('fit',) or self.cell(eng, st, a)]
            if any(self.elem(eng, st, a) for a in args[1:]):
                self.push(st, inst, w); self.use(st, inst, w)
            elif len(its) >= 2 and last == 'insert':
                self.push(st, inst, w)
                st.q = st.q.put(vec=None, ph=None)
                if w == 'pack':
                    st.q = st.q.put(found=False)
            elif w == 'pack':
                self.push(st, inst, w)
            return [('ret', args[0] if inst.t == 'ptr' else None, st)]
        if w is None:
            if last in ('push_back', 'emplace_back') and len(args) == 2 and self.elem(eng, st, args[1]):
                self.mark(eng, st, args[0], 'fv'); self.use(st, inst, 'found')
                return [('ret', None, st)]
            return None
        if last in ('begin', 'cbegin'):
            self.start(st, w, 'start', inst)
            return [('ret', ('s', ('fit', w)), st)]
        if last in ('end', 'cend'):
            return [('ret', ('s', ('fit', w)), st)]
        if last in ('rbegin', 'crbegin', 'rend', 'crend'):
            return None
        if last == 'size':
            st.facts.setdefault(('fsize', w), (0, INF, frozenset()))
            return [('ret', self.size(w), st)]
        if last == 'empty':
            s2 = st.copy(); out = []
            lo, hi, ex = st.facts.get(('fsize', w), (0, INF, frozenset()))
            if lo <= 0:
                s2.facts[('fsize', w)] = (0, 0, frozenset()); out.append(('ret', ('k', 1), s2))
            if hi > 0:
                st.facts[('fsize', w)] = (max(lo, 1), hi, frozenset()); out.append(('ret', ('k', 0), st))
            return out
        if last in ('operator[]', 'at', 'front', 'back'):
            if st.q.ph == 'idx':
                st.q = st.q.put(ph='idxat')
            return [('ret', ELEM, st)]
        if last in ('clear', 'erase', 'pop_back', 'resize', 'pop_front'):
            if w == 'pack':
                self.drop(eng, st, inst, last)
            elif st.q.found and not self.empty(st, 'found'):
                self.say(inst, 'formulae found on a page are forgotten')
            return [('ret', None if inst.t is None else ('s', ('fit', w)), st)]
        if last == 'swap':
            o = self.vector(eng, st, args[1])
            if 'pack' in (w, o):
                self.mark(eng, st, args[1] if w == 'pack' else args[0], 'fv')
                self.drop(eng, st, inst, last)
            return [('ret', None, st)]
        return None

    def file_call(self, eng, st, inst, short, args):
        q = st.q
        if short in ('fopen', 'fopen64', 'open', 'open64', 'creat'):
            f = short.startswith('fopen')
            m = strs.literal(self.P, args[1]) if f else None
            fl = args[1][1] if not f and len(args) > 1 and args[1][0] == 'k' else None
            if f and m is not None and m[0] == 'r' and '+' not in m or not f and short != 'creat' and fl is not None and not fl & 3:
                return None
            self.opens.add(inst.loc())
            own = m is not None and m[0] == 'w' and 'x' in m if f else short != 'creat' and fl is not None and fl & 0o300 == 0o300
            if not own:
                self.say(inst, 'writes into a file that may hold other formulae already')
            s2 = st.copy()
            s2.q = q.put(pk='kept' if q.pk in ('new', 'old') else q.pk, fl=None)
            s2.mem[(('errno',), 0)] = ('s', ('errno', inst.i))
            s2.facts[('errno', inst.i)] = (1, INF, frozenset())
            if q.fl in BAD:
                self.say(inst, 'leaves an incomplete file behind')
            st.q = q.put(fl='open')
            return [('ret', ('p', ('res', 'pack'), 0) if f else ('k', 7), st), ('ret', ('k', 0 if f else -1), s2)]
        if short == '__errno_location':
            return [('ret', ('p', ('errno',), 0), st)]
        if q.fl is None:
            return None
        if short in WRITES and ('p', ('res', 'pack'), 0) not in args and not (short == 'write' and args[0] == ('k', 7)):
            return None
        if short in WRITES:
            t = [a for a in args if a == TEXT]
            if not t:
                if any(self.elem(eng, st, a) for a in args):
                    self.use(st, inst, 'text')
                    t = [1]
            whole = bool(t)
            if t == [TEXT] and short.startswith('fwrite'):
                whole = args[0] == TEXT and sorted([args[1], args[2]], key=repr) == sorted([('k', 1), LEN], key=repr)
            elif t == [TEXT] and short == 'write':
                whole = args[2] == LEN
            if t and not whole:
                self.say(inst, 'writes only a part of the formulae')
            if t == [TEXT] and q.vec == 'pack' and q.ph not in ('end', 'idx'):
                self.say(inst, 'writes only a part of the formulae')
            s2 = st.copy()
            s2.q = st.q.put(fl='badw', pk='kept' if q.pk in ('new', 'old') else q.pk)
            if q.fl not in BAD:
                st.q = st.q.put(fl='part' if t or q.fl == 'part' else q.fl)
            ok, ko = (args[2], ('k', 0)) if short.startswith('fwrite') else (args[2], ('k', -1)) if short == 'write' else (('k', 1), ('k', -1))
            if ok[0] == 's':
                # a write of nothing cannot be short
                lo, hi, ex = s2.facts.get(ok[1], (0, INF, frozenset()))
                s2.facts[ok[1]] = (max(lo, 1), hi, ex)
            return [('ret', ok, st), ('ret', ko, s2)]
        if short in ('fflush', 'fsync'):
            if args[0] not in (('p', ('res', 'pack'), 0), ('k', 7)):
                return None
            s2 = st.copy(); s2.q = q.put(fl='badf', pk='kept' if q.pk in ('new', 'old') else q.pk)
            return [('ret', ('k', 0), st), ('ret', ('k', -1), s2)]
        if short in ('ferror', 'ferror_unlocked'):
            return [('ret', ('k', 1 if q.fl in BAD else 0), st)]
        if short in ('fclose', 'close'):
            if args[0] not in (('p', ('res', 'pack'), 0), ('k', 7)):
                return None
            s2 = st.copy(); s2.q = q.put(fl='badc' if q.fl not in BAD else 'badwc', pk='kept' if q.pk in ('new', 'old') else q.pk)
            if q.fl == 'part':
                st.q = q.put(fl='done', pk='stored' if q.pk in ('new', 'old', 'kept') and q.vec == 'pack' and q.ph in ('end', 'idx') else q.pk)
                self.stored.add(inst.loc())
            elif q.fl == 'open':
                st.q = q.put(fl='done')
            return [('ret', ('k', 0), st), ('ret', ('k', -1), s2)]
        if short in ('unlink', 'remove', 'std::remove') and q.fl in BAD + ('open', 'part', 'done'):
            if q.fl == 'done' and q.pk == 'stored':
                self.say(inst, 'deletes a file that holds the formulae')
            st.q = q.put(fl=None)
            return [('ret', ('k', 0), st)]
        return None

    def ret(self, eng, st, fn, rv, kind, depth):
        self.ends.append((kind, st))


class Load(Client):
    """q = (state of the content, failed or complete download under way)"""
    def __init__(self, P, rel, strings, flagoffs):
        self.P = P; self.flagoffs = flagoffs; self.rel = rel; self.strings = strings; self.ends = []; self.loads = 0; self.bad = {}

    def init_q(self):
        return (frozenset(), frozenset())

    def relevant(self, eng, f):
        return f.name in self.rel

    def which(self, eng, st, av):
        o, off = eng.addr(st, av)
        return self.strings.get(off) if o == ('d', ('arg', 0)) else None

    def call(self, eng, st, inst, fobj, short, args):
        part, full = st.q
        if short == 'curl_easy_setopt':
            w = self.which(eng, st, args[2]) if len(args) > 2 else None
            if w:
                st.mem[(('dest',), w)] = ('k', 1)
            return [('ret', ('k', 0), st)]
        if short == 'curl_easy_init':
            for k in [k for k in st.mem if k[0] == ('dest',)]:
                st.mem.pop(k)
            s2 = st.copy()
            return [('ret', ('p', ('curl',), 0), st), ('ret', ('k', 0), s2)]
        if short == 'curl_easy_perform':
            self.loads += 1
            d = frozenset(k[1] for k in st.mem if k[0] == ('dest',))
            for w in sorted(d & (part | full)):
                self.bad.setdefault('appends a download to what an earlier one left in the %s' % w, inst.loc())
            s2 = st.copy()
            s2.q = (part | d, full)
            st.q = (part - d, full | d)
            return [('ret', ('k', 0), st), ('ret', ('s', ('curlerr', inst.i)), self.nz(s2, inst))]
        if STR.match(short) and args:
            w = self.which(eng, st, args[0])
            last = short.split('::')[-1]
            if w and last in ('clear', 'operator=', 'assign', 'erase', 'swap', 'resize'):
                st.q = (part - {w}, full - {w})
                return [('ret', args[0] if inst.t == 'ptr' else None, st)]
        return None

    def nz(self, st, inst):
        st.facts[('curlerr', inst.i)] = (1, INF, frozenset())
        return st

    def keep_cell(self, k, v, st):
        return k[0] == ('dest',) or k[0] == ('d', ('arg', 0)) and k[1] in self.flagoffs

    def ret(self, eng, st, fn, rv, kind, depth):
        self.ends.append((kind, st))


def pages(P, rep):
    cls = [c for c, d in P.ditypes.items() if c.split('::')[-1] == 'Page' and isinstance(d, dict) and d.get('members')]
    if not cls:
        rep.error('class of downloaded pages not found'); return
    cls = cls[0]
    M = P.ditypes[cls]['members']
    strings = {m[1]: m[0] for m in M if 'basic_string' in str(m[3])}
    flags = {m[0]: (m[1], m[2]) for m in M if m[3] in ('int', 'bool', 'unsigned int', 'char') and any(m[0].lower().endswith(s.lower()) for s in strings.values())}
    rel = upward(P, {x.fn.name for x in calls_to(P, {'curl_easy_perform', 'curl_easy_setopt'})})
    roots = [f for f in P.repo_fns() if f.cls == cls and f.name in rel and f.blocks]
    n = 0; seen = set(); probs = {}
    o = ('d', ('arg', 0))
    roots = [f for f in sorted(roots, key=lambda f: f.name)
             if str(f.ditypes[1] if len(f.ditypes) > 1 else '').split('*')[0].strip() == cls]
    public = {f.name for f in roots if any(c[0].cls != cls if isinstance(c, tuple) else c.fn.cls != cls for c in P.callers(f.name))}
    # every history of calls from outside: start with nothing downloaded, go on from every state that a call leaves
    todo = [((frozenset(), frozenset()), tuple(sorted((off, ('k', 0)) for off, _ in flags.values())))]
    while todo and len(seen) < 400:
        s = todo.pop()
        if s in seen:
            continue
        seen.add(s)
        for f in roots:
            if len(seen) > 1 and f.name not in public:
                continue
            c = Load(P, rel, strings, {x for x, _ in flags.values()})
            e = Engine(P, c, 6)
            e.run_root(f, s[0], None, {(o, off): v for off, v in s[1] if v is not None})
            n += c.loads
            for t, loc in c.bad.items():
                probs.setdefault((f.short, t), loc)
            here = '%s:%s' % (f.file, f.line)
            for kind, st in c.ends:
                part, full = st.q
                for w in part:
                    probs.setdefault((f.short, 'keeps what a failed download left in the %s' % w), here)
                for k, (off, _) in flags.items():
                    w = [x for x in strings.values() if k.lower().endswith(x.lower())]
                    if w and w[0] in full and eng_zero(e, st, o, off):
                        probs.setdefault((f.short, 'forgets that the %s was downloaded' % w[0]), here)
                    if w and not eng_zero(e, st, o, off) and w[0] not in full and kind == 'ret':
                        probs.setdefault((f.short, 'takes the %s as downloaded although it is not' % w[0]), here)
                if kind == 'ret' and not part and f.name in public:
                    todo.append((st.q, tuple(sorted(((off, st.mem.get((o, off))) for off, _ in flags.values()), key=repr))))
    for f in roots:
        rep.ob('%s: what is kept of a page is one complete download' % f.short, not any(k[0] == f.short for k in probs))
    for (fn, t), loc in sorted(probs.items()):
        rep.viol('%s|%s' % (fn, t), '%s: %s (%s)' % (fn, t, loc))
    rep.stats['page_states'] = len(seen)
    rep.need('downloads', n, 2)


def eng_zero(e, st, o, off):
    v = st.mem.get((o, off))
    return v == ('k', 0)


def run(P, rep, tier):
    rep.rule = ('Typestate over the formulae that a crawl has found (abstract interpretation of the crawl and of the end of the crawler, all outcomes of '
                'opening, writing and closing a file): the formulae of every page are taken over one by one; a pack is written, each formula once, as a '
                'whole into a file created exclusively; the pack is emptied only after writing and closing succeeded; a file that could not be completed '
                'is deleted; no crawl ends without having tried to store what it found. Typestate over a page: a failed download leaves nothing behind, '
                'and no download is appended to an earlier one.')
    rep.assumptions = ['std::vector and std::string behave as specified', 'what a crawler still holds when it is destroyed after storing failed again is lost']
    cls = 'mws::Crawler'
    packs = [m for m in P.ditypes.get(cls, {}).get('members', ()) if 'vector' in str(m) or 'list' in str(m) or 'deque' in str(m)]
    pm = [m for m in packs if 'basic_string' in str(m)] or packs
    getters = {f.name for f in P.fns('mws::get_math')} or {f.name for f in P.repo_fns() if f.short.split('::')[-1].split('[')[0] == 'get_math'}
    starts = [f for f in P.repo_fns() if f.cls == cls and f.short.split('::')[-1] == 'start' and f.blocks]
    dtors = [f for f in P.repo_fns() if f.cls == cls and f.short.split('::')[-1] == '~Crawler' and f.blocks]
    if not pm or not getters or not starts or not dtors:
        rep.error('crawler, its formulae or the extraction of formulae not found'); return
    own = [f.name for f in starts + dtors]
    rel = set()
    for f in P.repo_fns():
        if f.cls == cls or f.name in getters:
            rel.add(f.name)
    rel = upward(P, {x.fn.name for x in calls_to(P, FILES)} | getters) & (set(P.reach(own)) | set(own))
    # helpers that only touch the pack
    for f in P.repo_fns():
        if f.name in P.reach(own) and (f.cls == cls or f.file and f.file.endswith(('MwsCrawler.cpp', 'MwsCrawler.hpp'))):
            rel.add(f.name)
    steps = 0; stored = set(); opens = set(); drops = set(); kept = set(); outcomes = 0
    for f in starts + dtors[:1]:
        c = Packs(P, rel, (('d', ('arg', 0)), pm[0][1]), getters)
        e = Engine(P, c, 10)
        q = c.init_q() if f in starts else c.init_q().put(pk='new')
        e.run_root(f, q)
        steps += e.steps
        stored |= c.stored; opens |= c.opens; drops |= c.drops; kept |= c.kept
        for kind, st in c.ends:
            if kind != 'ret':
                continue
            outcomes += 1
            if st.q.pk == 'new' and not c.empty(st, 'pack'):
                c.bad.setdefault((f.short, 'ends without trying to store the formulae found'), '%s:%s' % (f.file, f.line))
            if st.q.found and not c.empty(st, 'found'):
                c.bad.setdefault((f.short, 'formulae found on a page are forgotten'), '%s:%s' % (f.file, f.line))
            if st.q.fl in BAD:
                c.bad.setdefault((f.short, 'leaves an incomplete file behind'), '%s:%s' % (f.file, f.line))
        rep.ob('%s: formulae are kept until they are stored' % f.short, not c.bad)
        for (fn, t), loc in sorted(c.bad.items()):
            rep.viol('%s|%s' % (fn, t), '%s: %s (%s)' % (fn, t, loc))
    rep.need('files_created', len(opens), 1)
    rep.need('formulae_taken_over', len(kept), 1)
    rep.need('completions', len(stored), 1)
    rep.need('outcomes', outcomes, 2)
    rep.stats['steps'] = steps; rep.stats['drops'] = len(drops)
    pages(P, rep)
