"""what is read back from the databases of an index is what was stored there"""
from absint import Client, Engine, Budget, State as State_
from i04 import lin, plus

DB = {('_ZTSN7leveldb2DBE', 16): 'Put', ('_ZTSN7leveldb2DBE', 40): 'Get', ('_ZTSN7leveldb2DBE', 48): 'NewIterator',
      ('_ZTSN7leveldb8IteratorE', 16): 'Valid', ('_ZTSN7leveldb8IteratorE', 40): 'Seek', ('_ZTSN7leveldb8IteratorE', 48): 'Next',
      ('_ZTSN7leveldb8IteratorE', 64): 'key', ('_ZTSN7leveldb8IteratorE', 72): 'value', ('_ZTSN7leveldb8IteratorE', 80): 'status'}
MARK = ('okstatus',)


def norm(l):
    return tuple(sorted(((t, c) for t, c in l.items() if c), key=repr))


def join(*ts):
    """concatenation of string values (tuples of pieces)"""
    out = []
    for t in ts:
        if t is None:
            return None
        for p in t:
            if p[0] == 'lit' and not p[1]:
                continue
            if p[0] == 'lit' and out and out[-1][0] == 'lit':
                out[-1] = ('lit', out[-1][1] + p[1])
            else:
                out.append(p)
    return tuple(out)


def show(t):
    if t is None:
        return 'an unknown value'
    return ''.join(p[1] if p[0] == 'lit' else '{%s}' % num(p[1]) if p[0] == 'num' else '<%s>' % (p[1],) for p in t).encode('unicode_escape').decode() or 'nothing'


def num(v):
    return '+'.join(str(c) if t is None else (str(c) + '*' if c != 1 else '') + str(t[1] if t[0] == 's' else t) for t, c in sorted(lin(v).items(), key=repr) if c or len(lin(v)) == 1)


class Store(Client):
    """strings by their pieces, bytes written through a moving cursor, one database"""
    name = 'stored data'
    callbacks = True
    State = State_
    inits = {}

    def __init__(self, P, k=0, puts=None, cb=0, fails=False):
        self.P = P; self.k = k; self.cb = cb; self.db = puts or {}; self.fails = fails
        self.slots = 0; self.sizes = {}; self.notes = set()

    # q = (events)   events: ('put', key, value, cells), ('seek', key, pos), ('cb', args)
    def init_q(self):
        return (None, ())

    def relevant(self, eng, f):
        return True

    def keep_cell(self, k, v, st):
        o = k[0]
        return (isinstance(k[1], tuple) and k[1] and k[1][0] in ('tag', 'fn')) or o[0] == 'res' or k[1] == 'bytes' or self.cursor(o) is not None or v == MARK

    def cursor(self, o):
        return o[1][1:] if o[0] == 'd' and isinstance(o[1], tuple) and o[1][:1] == ('cur',) else None

    # strings
    def tag(self, eng, st, av):
        if av[0] == 'p' and av[1][0] == 'g' and av[2] == 0:
            g = self.P.G.get(av[1][1])
            if g and g.get('init'):
                if g['init'][0] == 's':
                    return (('lit', g['init'][1]),) if g['init'][1] else ()
                if g['init'][0] == 'z':
                    i = self.initial(av[1][1])
                    return () if i is None else i[0]
        if av[0] == 's' and isinstance(av[1], tuple) and av[1][:1] == ('bytes',):
            return av[1][1]
        o, off = eng.addr(st, av)
        v = st.mem.get((o, ('tag', off)))
        return v[1] if v is not None and v[0] == 'tag' else None

    def initial(self, g):
        """[value] a global std::string is given by its initialiser"""
        if g not in self.inits:
            self.inits[g] = None
            for n, f in self.P.F.items():
                for x in f.calls() if f.blocks and 'global_var_init' in n else ():
                    fv = x.d['fn']
                    if fv[0] == 'f' and fv[1] in self.P.F and self.P.F[fv[1]].short == 'std::basic_string::basic_string' and x.a and x.a[0] == ('g', g):
                        t = None
                        if len(x.a) == 1:
                            t = ()
                        elif x.a[1][0] == 'g':
                            t = self.tag(None, None, ('p', x.a[1], 0))
                        self.inits[g] = [t]
        return self.inits[g]

    def put(self, eng, st, av, t):
        o, off = eng.addr(st, av)
        if t is None:
            st.mem.pop((o, ('tag', off)), None)
        else:
            st.mem[(o, ('tag', off))] = ('tag', t)

    def length(self, t):
        if t == ():
            return ('k', 0)
        if all(p[0] == 'lit' for p in t):
            return ('k', sum(len(p[1]) for p in t))
        if len(t) == 1 and t[0][0] == 'parcel':
            return t[0][2]
        return ('s', ('len', t))

    def data(self, t):
        if len(t) == 1 and t[0][0] == 'parcel':
            return ('s', ('cur', t[0][1], ()))
        return ('s', ('bytes', t))

    def bytes_at(self, eng, st, ptr, n):
        """string value of n bytes at ptr"""
        if ptr[0] == 's' and isinstance(ptr[1], tuple) and ptr[1][:1] == ('bytes',):
            return ptr[1][1] if norm(lin(n)) == norm(lin(self.length(ptr[1][1]))) else None
        o, off = eng.addr(st, ptr)
        c = self.cursor(o)
        if c is not None and off == 0:
            base, l = c
            if base[0] == 'W' and l == ():
                return (('parcel', base, n),)
            v = st.mem.get((o, 'bytes'))
            if v is not None and norm(lin(v[2])) == norm(lin(n)):
                return v[1]
        if self.tag(eng, st, ptr) is not None and ptr[0] == 'p' and ptr[1][0] == 'g':
            t = self.tag(eng, st, ptr)
            return t if n == self.length(t) else None
        return None

    # addresses
    def gep(self, eng, st, inst, b, off, var):
        if b[0] == 'p' and self.cursor(b[1]) is not None and b[2] == 0:
            b = ('s', b[1][1])
        if not (b[0] == 's' and isinstance(b[1], tuple) and b[1][:1] == ('cur',)) or type(off) is not int:
            return None
        l = dict(b[1][2]); l[None] = l.get(None, 0) + off
        for v, sc in var:
            for t, c in lin(v).items():
                l[t] = l.get(t, 0) + c * sc
        return ('s', ('cur', b[1][1], norm(l)))

    def copy(self, eng, st, inst, d, s, n):
        do, doff = eng.addr(st, d); so, soff = eng.addr(st, s)
        dc, sc = self.cursor(do), self.cursor(so)
        if dc is not None and doff == 0:
            if s[0] == 's' and isinstance(s[1], tuple) and s[1][:1] == ('bytes',):
                st.mem[(do, 'bytes')] = ('tagv', s[1][1], n)
            elif n[0] == 'k' and type(soff) is int and (so, soff) in st.mem:
                st.mem[(do, 0)] = st.mem[(so, soff)]; st.mem[(do, 'w')] = n
            else:
                st.mem[(do, 'bytes')] = ('tagv', None, n)
            return True
        if sc is not None and soff == 0:
            if n[0] == 'k' and type(doff) is int:
                v = st.mem.get((so, 0)) if st.mem.get((so, 'w')) == n else None
                for kk in [c for c in st.mem if c[0] == do and type(c[1]) is int and doff <= c[1] < doff + n[1]]:
                    del st.mem[kk]
                if v is not None:
                    st.mem[(do, doff)] = v
                return True
        return False

    def store(self, eng, st, inst, addr, val):
        if inst.op != 'store':
            return
        o, off = eng.addr(st, addr)
        if self.cursor(o) is not None and off == 0:
            st.mem[(o, 'w')] = ('k', inst.d['vs'])

    def arith(self, eng, st, op, l, r):
        if l[0] == 'k' and r[0] == 'k' and op in ('add', 'sub', 'mul'):
            c = l[1] + r[1] if op == 'add' else l[1] - r[1] if op == 'sub' else l[1] * r[1]
            return ('k', c)
        if op in ('add', 'sub') and not any(v[0] == 'op' and len(repr(v)) > 1500 for v in (l, r)):
            return ('op', op, l, r)
        return None

    def event(self, st, e):
        st.q = (st.q[0], st.q[1] + (e,))

    def slot(self, inst):
        fv = inst.d['fn']
        if fv[0] != 'i':
            return None
        ld = inst.fn.insts[fv[1]]
        if ld.op != 'load':
            return None
        s = self.P.virtual_slot(inst.fn, ld)
        return DB.get(s) if s else None

    def cells(self, st, base):
        out = []
        for (o, off), v in st.mem.items():
            c = self.cursor(o)
            if c is not None and c[0] == base:
                out.append((c[1], off, v))
        return tuple(sorted(out, key=repr))

    def call(self, eng, st, inst, fobj, short, args):
        if fobj is None and (short == '?indirect' or short.startswith('leveldb::')):
            w = self.slot(inst) if short == '?indirect' else short.split('::')[-1]
            if w:
                self.slots += 1
                return self.database(eng, st, inst, w, args)
        return self.library(eng, st, inst, fobj, short, args)

    def database(self, eng, st, inst, w, args):
        pos, ev = st.q
        if w == 'Put' and len(args) == 5:
            key, val = self.tag(eng, st, args[3]), self.tag(eng, st, args[4])
            cells = ()
            if val and len(val) == 1 and val[0][0] == 'parcel':
                cells = self.cells(st, val[0][1])
            self.event(st, ('put', key, val, cells))
            s2 = st.copy()
            st.mem[eng.addr(st, args[0])] = MARK
            return [('ret', None, st)]
        if w == 'Get' and len(args) == 5:
            key = self.tag(eng, st, args[3])
            self.event(st, ('get', key))
            self.put(eng, st, args[4], self.fetch(key))
            st.mem[eng.addr(st, args[0])] = MARK
            return [('ret', None, st)]
        if w == 'NewIterator':
            return [('ret', ('s', ('iter',)), st)]
        if w == 'Seek':
            st.q = (0, ev + (('seek', self.tag(eng, st, args[-1])),))
            return [('ret', None, st)]
        if w == 'Next':
            if pos is None or pos > self.k:
                self.notes.add(('steps an iterator that is not valid', inst.fn.short, inst.loc()))
                return [('stop', None, st)]
            st.q = (pos + 1, ev)
            return [('ret', None, st)]
        if w == 'Valid':
            return [('ret', ('k', int(pos is not None and pos <= self.k)), st)]
        if w in ('key', 'value'):
            if pos is None or pos > self.k:
                self.notes.add(('reads from an iterator that is not valid', inst.fn.short, inst.loc()))
                return [('stop', None, st)]
            a = ('agg', (('s', ('sl', w, pos)), ('s', ('sllen', w, pos))))
            if inst.t == 'ptr' or (args and len(args) > 1):
                return None
            return [('ret', a, st)]
        if w == 'status':
            st.mem[eng.addr(st, args[0])] = MARK
            return [('ret', None, st)]
        return None

    def fetch(self, key):
        for k, v in self.db.get('crawl', ()):
            if k == key:
                return v
        return None

    def slice_value(self, eng, st, av):
        t = self.tag(eng, st, av)
        if t is not None:
            return t
        o, off = eng.addr(st, av)
        if type(off) is int:
            v = st.mem.get((o, off))
            if v is not None and v[0] == 's' and isinstance(v[1], tuple) and v[1][0] == 'sl':
                if v[1][1] == 'key':
                    return (('key', v[1][2]),)
                return self.db['values'][v[1][2]] if v[1][2] < self.k else (('foreign', v[1][2]),)
        return None

    def below(self, t, bound):
        """is the key t smaller than this bound?"""
        pre = self.db.get('prefix')
        if not (t and len(t) == 1 and t[0][0] == 'key') or bound is None or pre is None:
            return None
        own = t[0][1] < self.k
        if join(bound)[:len(pre) - 1] != pre[:-1] or len(bound) != len(pre) or bound[-1][0] != 'lit':
            return None
        b, p = bound[-1][1], pre[-1][1]
        if b == p:
            return False
        if b.startswith(p) and len(b) == len(p) + 1 and ord(b[-1]) > ord('9'):
            return own
        if b[:-1] == p[:-1] and len(b) == len(p) and ord(b[-1]) == ord(p[-1]) + 1:
            return own
        return None

    def starts(self, t, pre):
        if not (t and len(t) == 1 and t[0][0] == 'key') or pre is None or pre != self.db.get('prefix'):
            return None
        return t[0][1] < self.k

    def library(self, eng, st, inst, fobj, short, args):
        last = short.split('::')[-1]
        name = fobj.name if fobj is not None else short
        ret = lambda v=None: [('ret', v, st)]
        flag = lambda b: ret(('k', int(b)) if b is not None else None)
        if short in ('operator new[]', '_Znam', 'malloc'):
            base = ('W', inst.i, inst.fn.name)
            self.sizes[base] = args[0]
            return ret(('s', ('cur', base, ())))
        if short in ('operator delete[]', '_ZdaPv', 'free'):
            return ret()
        if short in ('memcpy', 'memmove', 'std::memcpy'):
            return ret(args[0]) if self.copy(eng, st, inst, args[0], args[1], args[2]) else None
        if last in ('strtoul', 'strtoull', 'strtol', 'strtoll', '__isoc23_strtoul', '__isoc23_strtoull', '__isoc23_strtol', '__isoc23_strtoll') or short in ('std::stoul', 'std::stoull', 'std::stoll', 'std::stol'):
            t = self.tag(eng, st, args[0])
            if t and len(t) == 1 and t[0][0] == 'num' and args[2] in (('k', 0), ('k', 10)):
                return ret(t[0][1])
            return ret()
        if last in ('atoi', 'atol', 'stoi'):
            return ret()                 # not for the whole range
        if short == 'leveldb::Status::ok':
            v = st.mem.get(eng.addr(st, args[0]))
            return ret(('k', 1)) if v == MARK else None
        if short == 'leveldb::Slice::Slice':
            if len(args) == 2:
                self.put(eng, st, args[0], self.tag(eng, st, args[1]))
                return ret()
            if len(args) == 3:
                self.put(eng, st, args[0], self.bytes_at(eng, st, args[1], args[2]))
                return ret()
        if short == 'leveldb::Slice::ToString':
            self.put(eng, st, args[0], self.slice_value(eng, st, args[1]))
            return ret()
        if short == 'leveldb::Slice::starts_with':
            return flag(self.starts(self.slice_value(eng, st, args[0]), self.slice_value(eng, st, args[1])))
        if short == 'leveldb::Slice::data':
            t = self.slice_value(eng, st, args[0])
            return ret(self.data(t)) if t is not None else None
        if short == 'leveldb::Slice::size':
            t = self.slice_value(eng, st, args[0])
            return ret(self.length(t)) if t is not None else None
        if short == 'leveldb::Slice::compare':
            b = self.below(self.slice_value(eng, st, args[0]), self.slice_value(eng, st, args[1]))
            return ret(('k', -1 if b else 1) if b is not None else None)
        if short == 'std::function::function' or short == 'std::function::operator=':
            return self.closure(eng, st, inst, fobj, args, short)
        if self.invokes(inst):
            if fobj is not None and fobj.name != self.P.callees(inst)[0]:
                return []            # (one of the functions it may hold: done with the first)
            o, off = eng.addr(st, args[0])
            v = st.mem.get((o, ('fn', off)))
            if v is not None and v[0] == 'clo' and len(eng.saved_envs) < 40:
                return self.enter(eng, st, inst, v, args)
            self.called(eng, st, inst, args)
            return ret(('k', self.cb))
        if short in ('std::to_string', 'std::__cxx11::to_string') and len(args) == 2:
            self.put(eng, st, args[0], (('num', self.strip(args[1])),))
            return ret()
        if name.startswith('_ZStltI'):
            return flag(self.below(self.tag(eng, st, args[0]), self.tag(eng, st, args[1])))
        if name.startswith('_ZStgtI'):
            return flag(self.below(self.tag(eng, st, args[1]), self.tag(eng, st, args[0])))
        if name.startswith('_ZStgeI') or name.startswith('_ZStleI'):
            # (a key never equals a bound: it has a number after the bound's prefix)
            k = 0 if name.startswith('_ZStgeI') else 1
            b = self.below(self.tag(eng, st, args[k]), self.tag(eng, st, args[1 - k]))
            return flag(None if b is None else not b)
        if last == 'compare' and 'basic_string' in short and len(args) == 2:
            b = self.below(self.tag(eng, st, args[0]), self.tag(eng, st, args[1]))
            if b is not None:
                return ret(('k', -1 if b else 1))
            b = self.below(self.tag(eng, st, args[1]), self.tag(eng, st, args[0]))
            return ret(('k', 1 if b else -1) if b is not None else None)
        if short == 'std::operator+' and len(args) == 3:
            b = self.tag(eng, st, args[2])
            if args[2][0] == 'k':
                b = (('lit', chr(args[2][1] & 255)),)
            self.put(eng, st, args[0], join(self.tag(eng, st, args[1]), b))
            return ret()
        if 'basic_string::' not in short or 'stream' in short or 'streambuf' in short or 'basic_stringbuf' in short:
            return None
        if last == 'basic_string':
            if len(args) == 1:
                self.put(eng, st, args[0], ()); return ret()
            if len(args) >= 3 and fobj is not None and 'unsigned long' in fobj.dem and 'char const*, unsigned long' in fobj.dem:
                self.put(eng, st, args[0], self.bytes_at(eng, st, args[1], args[2])); return ret()
            if len(args) > 2 and not (fobj is not None and 'allocator<char> const&)' in fobj.dem):
                self.put(eng, st, args[0], None); return ret()
            self.put(eng, st, args[0], self.tag(eng, st, args[1])); return ret()
        if last == '~basic_string':
            self.put(eng, st, args[0], None); return ret()
        if last in ('operator=', 'assign') and len(args) == 2:
            self.put(eng, st, args[0], self.tag(eng, st, args[1])); return ret(args[0])
        if last == 'assign' and len(args) == 3 and fobj is not None and 'char const*, unsigned long' in fobj.dem:
            self.put(eng, st, args[0], self.bytes_at(eng, st, args[1], args[2])); return ret(args[0])
        if last in ('operator+=', 'append', 'push_back') and len(args) == 2:
            b = self.tag(eng, st, args[1])
            if args[1][0] == 'k':
                b = (('lit', chr(args[1][1] & 255)),)
            self.put(eng, st, args[0], join(self.tag(eng, st, args[0]), b)); return ret(args[0])
        if last == 'append' and len(args) == 3 and fobj is not None and 'char const*, unsigned long' in fobj.dem:
            self.put(eng, st, args[0], join(self.tag(eng, st, args[0]), self.bytes_at(eng, st, args[1], args[2]))); return ret(args[0])
        if last == 'swap' and len(args) == 2:
            a, b = self.tag(eng, st, args[0]), self.tag(eng, st, args[1])
            self.put(eng, st, args[0], b); self.put(eng, st, args[1], a); return ret()
        if last in ('c_str', 'data') and len(args) == 1:
            t = self.tag(eng, st, args[0])
            return ret(self.data(t)) if t is not None else None
        if last in ('size', 'length') and len(args) == 1:
            t = self.tag(eng, st, args[0])
            return ret(self.length(t)) if t is not None else None
        if last == 'reserve':
            return ret()
        if last == 'compare':
            t = self.tag(eng, st, args[0])
            if len(args) == 2:
                b = self.below(t, self.tag(eng, st, args[1]))
                return ret(('k', -1 if b else 1) if b is not None else None)
            if len(args) == 4 and args[1] == ('k', 0):
                pre = self.tag(eng, st, args[3])
                b = self.starts(t, pre)
                return ret(('k', 0 if b else 1) if b is not None else None)
            return ret()
        if last in ('find', 'rfind') and len(args) == 3:
            b = self.starts(self.tag(eng, st, args[0]), self.tag(eng, st, args[1]))
            if b is not None and (last == 'find' or args[2] == ('k', 0)):
                return ret(('k', 0 if b else -1))
            return ret()
        if last in ('clear',):
            self.put(eng, st, args[0], ()); return ret()
        if last in ('insert', 'erase', 'replace', 'resize'):
            self.put(eng, st, args[0], None); return ret(args[0] if inst.t == 'ptr' else None)
        return None

    def strip(self, v):
        while v[0] == 'op' and v[1] in ('zext', 'sext', 'trunc'):
            v = v[3]
        return v

    def closure(self, eng, st, inst, fobj, args, short):
        o, off = eng.addr(st, args[0])
        rv = args[0] if inst.t == 'ptr' else None
        if len(args) == 1:
            return [('ret', rv, st)]
        so, soff = eng.addr(st, args[1])
        v = st.mem.get((so, ('fn', soff)))
        st.mem.pop((o, ('fn', off)), None)
        if v is not None:
            st.mem[(o, ('fn', off))] = v
            return [('ret', rv, st)]
        target = self.functor(fobj)
        if target:
            n = len([k for k in st.mem if k[1] == 'closure'])
            clo = ('res', 'closure', n)
            st.mem[(clo, 'closure')] = MARK
            for (ko, kk), val in list(st.mem.items()):
                if ko == so and type(soff) is int:
                    if type(kk) is int and kk >= soff:
                        st.mem[(clo, kk - soff)] = val
                    elif isinstance(kk, tuple) and kk[0] in ('tag', 'fn') and type(kk[1]) is int and kk[1] >= soff:
                        st.mem[(clo, (kk[0], kk[1] - soff))] = val
            st.mem[(o, ('fn', off))] = ('clo', target, clo)
        return [('ret', rv, st)]

    def invokes(self, inst):
        fv = inst.d['fn']
        return fv[0] == 'f' and fv[1] in self.P.F and self.P.F[fv[1]].short == 'std::function::operator()'

    def functor(self, ctor):
        """operator() of the object this constructor of a function object wraps"""
        if ctor is None or ctor.decl:
            return None
        r = [n for n in self.P.lib_closure(ctor.name) if self.P.F[n].short.split('::')[-1] == 'operator()']
        if len(r) == 1:
            return r[0]
        return None

    def enter(self, eng, st, inst, v, args):
        g = self.P.F[v[1]]
        ctx = ('clo', inst.i, g.name)
        saved = st.env
        eng.saved_envs.append(saved)
        ins = [('p', v[2], 0)] + list(args[1:])
        ins = ins[:len(g.args)]
        outs = eng.run(Engine.Frame(g, ctx, 2, (g.name,)), self.State(st.q, {('a', k): a for k, a in enumerate(ins)}, st.mem, st.facts, st.trail))
        eng.saved_envs.pop()
        res = []
        for kind, rv, so in outs:
            so.env = dict(saved)
            for kk in [c for c in so.mem if c[0][0] == 'al' and c[0][1][:len(ctx)] == ctx]:
                del so.mem[kk]
            res.append((kind, rv, so))
        return res

    def called(self, eng, st, inst, args):
        self.event(st, ('cb', tuple(self.value(eng, st, a) for a in args[1:])))

    def value(self, eng, st, a):
        """what a callback argument (a reference) refers to"""
        o, off = eng.addr(st, a)
        if o[0] == 'g' and self.tag(eng, st, a) is not None:
            return (off, ((('tag', off), ('tag', self.tag(eng, st, a))),))
        cells = tuple(sorted(((k[1], v) for k, v in st.mem.items() if k[0] == o and (type(k[1]) is int or k[1][0] == 'tag')
                              and v[0] in ('tag', 's', 'k', 'op')), key=repr))
        return (off, cells)

    def qkey(self, q):
        return q


def preset(P, cls, obj, mem, base=0):
    """an object of this class with a distinct value in every member; [(offset, kind, value)]"""
    out = []
    for m in P.ditypes[cls]['members']:
        nm, off, bits, ty = m[0], m[1], m[2], m[3]
        if nm == '<base>' or off < 0:
            continue
        if 'basic_string<char' in ty or ty == 'std::string':
            v = ('tag', (('sym', nm),))
            mem[(obj, ('tag', base + off))] = v
            out.append((nm, ('tag', base + off), v))
        else:
            v = ('s', ('orig', nm))
            mem[(obj, base + off)] = v
            out.append((nm, base + off, v))
    return out


def tile(cells, size):
    """the pieces follow each other without gap or overlap and fill the size"""
    at = {}
    for l, off, v in cells:
        if off == 'w' or off == 'bytes':
            w = lin(v if off == 'w' else v[2])
            if l in at:
                return 'two values are written at the same place'
            at[l] = w
    cur = {}
    for _ in range(len(at)):
        k = norm(cur)
        if k not in at:
            return 'values are not written one after the other'
        w = at.pop(k)
        for t, c in w.items():
            cur[t] = cur.get(t, 0) + c
    if norm(cur) != norm(lin(size)):
        return 'the size of the record is not the size of what was written'
    return None



def rename(v, base, new, ids):
    """the value with another buffer and other symbols"""
    if isinstance(v, tuple):
        if v == base:
            return new
        if len(v) == 2 and v[0] in ('sym', 'orig') and v in ids:
            return ids[v]
        return tuple(rename(x, base, new, ids) for x in v)
    return v


def nums(t):
    return [p[1] for p in t or () if p[0] == 'num']


def run_store(P, f, q, args, mem, facts=None, **kw):
    C = Store(P, **kw)
    eng = Engine(P, C, maxdepth=12, budget=400000)
    outs = eng.run_root(f, q, args, mem, facts or {})
    return C, [o for o in outs if o[0] in ('ret', 'throw')]


def uses_db(P, f, what):
    for x in f.calls():
        fv = x.d['fn']
        if fv[0] == 'i':
            ld = f.insts[fv[1]]
            if ld.op == 'load' and DB.get(P.virtual_slot(f, ld) or 0) == what:
                return True
    return False


def member(P, cls, pred):
    for m in P.ditypes.get(cls, {}).get('members', ()):
        if m[0] == '<base>':
            r = member(P, m[3], pred)
            if r:
                return (r[0], r[1] + m[1])
        elif m[1] >= 0 and pred(m):
            return (m[0], m[1])
    return None


PATH = 'mws::types::FormulaPath'
THIS = ('d', ('arg', 0))


class Read(Store):
    """reading through the query manager"""

    def __init__(self, P, readers, **kw):
        Store.__init__(self, P, **kw)
        self.readers = readers

    def call(self, eng, st, inst, fobj, short, args):
        if fobj is not None and fobj.repo and fobj.short.split('::')[-1] in ('queryFormula', 'getData') and fobj.name not in self.readers:
            return []                # another kind of database
        return Store.call(self, eng, st, inst, fobj, short, args)


def stores(P, rep):
    """what is put into the databases: ((function, key, separator, value, cells) of hits, the same of page data)"""
    hits = [f for f in P.repo_fns() if f.blocks and f.short.endswith('::insertFormula') and uses_db(P, f, 'Put')]
    data = [f for f in P.repo_fns() if f.blocks and f.short.endswith('::putData') and uses_db(P, f, 'Put')]
    rep.need('functions storing hits', len(hits), 1); rep.need('functions storing page data', len(data), 1)
    if not hits or not data:
        return None
    res = []
    for f, kind in ((hits[0], 'hit'), (data[0], 'page data')):
        mem = {}
        if kind == 'hit':
            mem[(('d', ('arg', 1)), 0)] = ('s', ('orig', 'formula'))
            mem[(('d', ('arg', 2)), 0)] = ('s', ('orig', 'data id'))
            mem.update({(('d', ('arg', 3)), o): v for n, o, v in preset(P, PATH, None, {})})
        else:
            mem[(('d', ('arg', 1)), ('tag', 0))] = ('tag', (('sym', 'data'),))
        C, outs = run_store(P, f, None, {}, mem)
        outs = [o for o in outs if o[0] == 'ret']
        name = f.short
        good = None
        for k, rv, st in outs:
            ps = [e for e in st.q[1] if e[0] == 'put']
            if not ps:
                if kind == 'page data' or rv is None or eng_negative(rv):
                    continue
                rep.viol('%s|nothing stored' % name, '%s succeeds without storing the %s' % (name, kind)); continue
            if len(ps) > 1:
                rep.viol('%s|stored twice' % name, '%s stores %d records for one %s' % (name, len(ps), kind)); continue
            _, key, val, cells = ps[0]
            if key is None or val is None or len(val) != 1 or val[0][0] != 'parcel':
                rep.viol('%s|unknown record' % name, '%s: the record stored for a %s is %s -> %s' % (name, kind, show(key), show(val))); continue
            t = tile(cells, val[0][2])
            if t is None and norm(lin(C.sizes.get(val[0][1], ('k', -1)))) != norm(lin(val[0][2])):
                t = 'the memory reserved for the record is not of its size'
            rep.ob('%s: pieces of the record fill it' % name, t is None)
            if t:
                rep.viol('%s|layout' % name, '%s: %s' % (name, t)); continue
            ns = nums(key)
            cnt = [n for n in ns if counter(n)]
            want = 2 if kind == 'hit' else 1
            ok = len(ns) == want and len(cnt) == 1 and ns[-1] == cnt[0] and (kind != 'hit' or ns[0] == ('s', ('orig', 'formula')) and key[0][0] == 'num')
            if ok and kind == 'hit':
                ok = len(key) >= 3 and key[1][0] == 'lit' and not key[1][1][0].isdigit() and key[2][0] == 'num'
            rep.ob('%s: key names the %s' % (name, kind), ok)
            if not ok:
                rep.viol('%s|key' % name, '%s: the key of the record is %s' % (name, show(key))); continue
            a, fld = counter(cnt[0])
            later = [counter(v) for (o, off), v in st.mem.items() if o == THIS and off == fld]
            up = later and later[0] and later[0][0] > 0
            rep.ob('%s: the next record gets another key' % name, up)
            if not up:
                rep.viol('%s|key used again' % name, '%s: after storing a %s the number used for its key is used again' % (name, kind)); continue
            if kind == 'page data':
                if strip(rv) != strip(cnt[0]):
                    rep.viol('%s|other id' % name, '%s returns another id than the one the data is stored under' % name); continue
                if a < 1:
                    rep.viol('%s|id 0' % name, '%s may store data under the id that stands for no data' % name); continue
            good = (f, key, val[0], cells, cnt[0])
        rep.ob('%s: one record for each %s' % (name, kind), good is not None)
        if good is None and not any(v['key'].startswith(name + '|') for v in rep.violations):
            rep.error('%s: no storing path understood' % name)
        res.append(good)
    return res if all(res) else None


def eng_negative(v):
    return v[0] == 'k' and v[1] != 0


def strip(v):
    while v[0] == 'op' and v[1] in ('zext', 'sext', 'trunc'):
        v = v[3]
    return norm(lin(v))


def counter(v):
    """(a, offset) if the value is the member of this at the offset plus a"""
    l = {t: c for t, c in lin(v).items()}
    a = l.pop(None, 0)
    l = {t: c for t, c in l.items() if c}
    if len(l) == 1:
        (t, c), = l.items()
        while t[0] == 'op' and t[1] in ('zext', 'sext', 'trunc'):
            t = t[3]
        if c == 1 and t[0] == 's' and t[1][:2] == ('ld', THIS):
            return (a, t[1][2])
    return None


def reads(P, rep, hit, page):
    fq = [f for f in P.repo_fns() if f.blocks and f.short.endswith('::queryFormula') and uses_db(P, f, 'NewIterator')]
    fg = [f for f in P.repo_fns() if f.blocks and f.short.endswith('::getData') and uses_db(P, f, 'Get')]
    man = [f for f in P.repo_fns() if f.blocks and f.short == 'mws::dbc::DbQueryManager::query']
    rep.need('functions reading hits', len(fq), 1); rep.need('functions reading page data', len(fg), 1); rep.need('query managers', len(man), 1)
    if not (fq and fg and man):
        return
    f = man[0]
    readers = {fq[0].name, fg[0].name}
    _, hkey, hval, hcells, _ = hit
    _, pkey, pval, pcells, pid = page
    crawl = member(P, f.cls, lambda m: 'CrawlDb' in m[3])
    scen = [(k, m, s, cb, 0) for k in (0, 1, 2, 3) for m in (0, 1, 2) for s in (0, 1, 2, 5) for cb in (0,)] + [(2, 0, 5, 1, 0), (2, 1, 5, 1, 0), (1, 0, 1, 0, 1)]
    n = 0
    for k, m, s, cb, nodata in scen:
        ids = lambda i: {('sym', x): ('sym', x, i) for x in ('xmlId', 'xpath', 'data')} | {('orig', 'data id'): ('orig', 'data id', i)}
        allm = [x[0] for x in P.ditypes[PATH]['members'] if x[0] != '<base>']
        mem, facts, values, cdb, want = {}, {}, [], [], []
        for i in range(k):
            d = ids(i)
            for x in allm:
                d[('sym', x)] = ('sym', x, i); d[('orig', x)] = ('orig', x, i)
            new = ('R', i)
            values.append((('parcel', new, rename(hval[2], hval[1], new, d)),))
            for l, off, v in hcells:
                mem[(('d', ('cur', new, norm(dict(rename(l, hval[1], new, d))))), off)] = rename(v, hval[1], new, d)
            did = ('s', ('orig', 'data id', i))
            facts[('orig', 'data id', i)] = (0, 0, frozenset()) if nodata else (1, 2 ** 32 - 1, frozenset())
            new = ('C', i)
            key = tuple(('num', did) if p[0] == 'num' else p for p in pkey)
            cdb.append((key, (('parcel', new, rename(pval[2], pval[1], new, d)),)))
            for l, off, v in pcells:
                mem[(('d', ('cur', new, norm(dict(rename(l, pval[1], new, d))))), off)] = rename(v, pval[1], new, d)
            cells = [(o, rename(v, None, None, d)) for _, o, v in preset(P, PATH, None, {})]
            want.append((cells, () if nodata else (('sym', 'data', i),)))
        if crawl:
            mem[(THIS, crawl[1])] = ('p', ('res', 'crawldb'), 0)
        fid = ('s', ('orig', 'formula'))
        pre = hkey[:2]
        C = Read(P, readers, k=k, puts=dict(prefix=pre, values=values, crawl=cdb), cb=cb)
        eng = Engine(P, C, maxdepth=12, budget=600000)
        args = {1: fid, 2: ('k', m), 3: ('k', s)}
        outs = [o for o in eng.run_root(f, None, args, mem, facts) if o[0] in ('ret', 'throw')]
        n += len(outs)
        exp = want[m:m + s] if not cb else want[m:m + s][:1]
        for kind, rv, st in outs:
            if kind == 'throw':
                continue
            ev = st.q[1]
            seeks = [e for e in ev if e[0] == 'seek']
            cbs = [e[1] for e in ev if e[0] == 'cb']
            what = None
            if seeks and seeks[0][1] != pre and (k or seeks[0][1] is not None):
                what = ('start', 'starts reading at the key %s; the keys of the hits of a formula start with %s' % (show(seeks[0][1]), show(pre)))
            elif C.notes:
                w = sorted(C.notes)[0]
                what = ('iterator', '%s %s (%s)' % (w[1], w[0], w[2]))
            elif len(cbs) != len(exp):
                what = ('count', 'of %d hits, skipping %d, at most %d%s: %d are reported' % (k, m, s, ' (reporting the first fails)' if cb else '', len(cbs)))
            else:
                for i, (c, (cells, data)) in enumerate(zip(cbs, exp)):
                    a = c[0]
                    for o, v in cells:
                        if (o, v) not in a[1]:
                            nm = [x for x, oo, _ in preset(P, PATH, None, {}) if oo == o][0]
                            what = what or ('hit', 'the %s of a hit is not the one that was stored (reported: %s)' % (nm, show(dict(a[1]).get(o, ('', None))[1])))
                    b = c[1]
                    t = dict(b[1]).get(('tag', b[0]))
                    if what is None and (t is None or t[1] != data):
                        what = ('data', 'the page data of a hit %s is %s instead of %s' % ('without data' if nodata else 'with data', show(t[1]) if t else 'unknown', show(data)))
                if what is None and cb and not (rv is not None and eng.truth(st, ('cmp', 'ne', rv, ('k', 0))) is True):
                    what = ('ignored', 'that a hit could not be reported is ignored')
            rep.ob('%s: %d hits, skip %d, at most %d' % (f.short, k, m, s), what is None)
            if what:
                rep.viol('%s|%s' % (fq[0].short if what[0] in ('start', 'count', 'iterator') else f.short, what[0]), '%s: %s' % (f.short, what[1]))
        if not [o for o in outs if o[0] == 'ret']:
            rep.error('%s: no path ends (%d hits, skip %d, at most %d)' % (f.short, k, m, s))
    rep.stats['reading_paths'] = n



def accessor(P, cls, name, attr):
    """offset of the member the accessor gives a reference to"""
    for f in P.fns(cls + '::' + name):
        for x in f.all() if f.blocks else ():
            if x.op == 'ret' and x.a and x.a[0][0] == 'i' and 'gep' in f.insts[x.a[0][1]].d:
                return f.insts[x.a[0][1]].d['gep']['off']
    m = member(P, cls, lambda m: attr in m[0])
    return m[1] if m else None


class Answers(Store):
    """what a reported hit becomes in the answers"""

    def call(self, eng, st, inst, fobj, short, args):
        last = short.split('::')[-1]
        if last in ('push_back', 'emplace_back') and 'vector' in short and len(args) >= 2:
            a = st.mem.get(eng.addr(st, args[1]))
            if a is None:
                self.event(st, ('answer', ()))
            else:
                o, off = eng.addr(st, a)
                self.event(st, ('answer', tuple(sorted(((k[1][1] - off, v[1]) for k, v in st.mem.items()
                                if k[0] == o and isinstance(k[1], tuple) and k[1][0] == 'tag' and v[0] == 'tag'), key=repr))))
            return [('ret', None, st)]
        return Store.call(self, eng, st, inst, fobj, short, args)


def answers(P, rep):
    roots = [f for f in P.repo_fns() if f.blocks and f.short.split('::')[-1] == 'operator()' and len(f.args) == 3
             and f.dem.split('operator()(')[-1].startswith('mws::types::FormulaPath const&, std::__cxx11::basic_string')]
    rep.need('functions given a hit', len(roots), 2)
    mp = {x[0]: x[1] for x in P.ditypes[PATH]['members'] if x[0] != '<base>'}
    ma = {x[0]: x[1] for x in P.ditypes['mws::types::Answer']['members'] if x[0] != '<base>'}
    pair = (('uri', 'xmlId'), ('xpath', 'xpath'))
    if not all(a in ma and b in mp for a, b in pair) or 'data' not in ma:
        rep.error('unknown members of hits or answers'); return
    want = tuple(sorted([(ma[a], (('sym', b),)) for a, b in pair] + [(ma['data'], (('sym', 'data'),))], key=repr))
    for f in sorted(roots, key=lambda f: f.name):
        mem = {}
        preset(P, PATH, ('d', ('arg', 1)), mem)
        mem[(('d', ('arg', 2)), ('tag', 0))] = ('tag', (('sym', 'data'),))
        C = Answers(P)
        eng = Engine(P, C, maxdepth=10, budget=200000)
        name = f.dem.split('(')[0].split(' ')[-1] + '/' + f.dem.split('::')[-2][:12]
        outs = [o for o in eng.run_root(f, None, {}, mem, {}) if o[0] == 'ret']
        if not outs:
            rep.error('%s: no path ends' % name)
        for k, rv, st in outs:
            an = [e[1] for e in st.q[1] if e[0] == 'answer']
            what = None
            if len(an) != 1:
                what = 'makes %d answers of one hit' % len(an)
            elif an[0] != want:
                bad = [n for n in ma if dict(an[0]).get(ma[n]) != dict(want).get(ma[n])]
                what = 'the %s of the answer is not the one of the hit' % ' and '.join(sorted(bad) or ['rest'])
            elif rv is None or eng.truth(st, ('cmp', 'eq', rv, ('k', 0))) is not True:
                what = 'may report that the hit could not be taken'
            rep.ob('%s: the answer has the values of the hit' % name, what is None)
            if what:
                rep.viol('%s|answer' % name, '%s: %s' % (name, what))


class Record(Store):
    """what is recorded for the subexpressions of a formula; q = (None, (leaf whose hit is not counted yet)?)"""

    def __init__(self, P, rep, name, xpath, leaf):
        Store.__init__(self, P)
        self.rep = rep; self.name = name; self.xpath = xpath; self.leaf = leaf; self.seen = set()

    def tag(self, eng, st, av):
        t = Store.tag(self, eng, st, av)
        if t is None and st is not None:
            o, off = eng.addr(st, av)
            if o[0] == 'd' and self.cursor(o) is None and type(off) is int:
                t = (('sym', (o, off)),)
        return t

    def bad(self, key, text):
        self.rep.ob('%s: %s' % (self.name, key), False)
        self.rep.viol('%s|%s' % (self.name, key), '%s: %s' % (self.name, text))

    def settle(self, st):
        if st.q[1]:
            self.bad('hit not counted', 'a hit that was stored is not counted in the hits of its formula')
        st.q = (None, ())

    def first(self, inst, fobj):
        return fobj is None or fobj.name == self.P.callees(inst)[0]

    def leaf_of(self, o):
        return o[1][1] if o[0] == 'd' and isinstance(o[1], tuple) and o[1][:1] == ('leaf',) else None

    def store(self, eng, st, inst, addr, val):
        if inst.op == 'store':
            o, off = eng.addr(st, addr)
            l = self.leaf_of(o)
            if l is not None and off == self.leaf['hits']:
                d = dict(lin(val)); one = d.pop(None, 0)
                d = {t: c for t, c in d.items() if c}
                if st.q[1] == (l,) and one == 1 and list(d.values()) == [1]:
                    st.q = (None, ())
                    self.seen.add('count')
                else:
                    self.bad('counted otherwise', 'the hits of a formula are not counted one for each that is stored')
        Store.store(self, eng, st, inst, addr, val)

    def enter(self, eng, st, inst, v, args):
        res = Store.enter(self, eng, st, inst, v, args)
        for kind, rv, so in res:
            if kind == 'ret':
                self.settle(so)
        return res

    def call(self, eng, st, inst, fobj, short, args):
        last = short.split('::')[-1]
        ret = lambda v=None: [('ret', v, st)]
        repo = fobj is not None and fobj.repo
        if last in ('insert', 'count', 'find') and short.split('::')[-2] in ('set', 'unordered_set', '_Rb_tree') and len(args) == 2:
            return ret()             # (its argument is only read)
        if repo and last == 'encode' and len(args) >= 4 and 'Encoder' in short:
            self.settle(st)
            o, off = eng.addr(st, args[3])
            st.mem[(o, ('tag', off))] = ('tag', (('enc', args[2]),))
            return [('ret', ('k', 0), st), ('ret', ('k', -1), st.copy())]
        if last == 'vector' and len(args) == 2 and 'encoded_token' in (fobj.dem if fobj is not None else ''):
            self.put(eng, st, args[0], self.tag(eng, st, args[1]))
            return ret()
        if repo and last == 'insertData' and 'TmpIndex' in short:
            t = self.tag(eng, st, args[1])
            tok = t[0][1] if t and len(t) == 1 and t[0][0] == 'enc' else None
            return ret(('s', ('leaf', tok)))
        if repo and last == 'insertFormula':
            if not self.first(inst, fobj):
                return []
            self.recorded(eng, st, inst, args)
            s2 = st.copy()
            s2.q = (None, ())
            return [('ret', ('k', 0), st), ('ret', ('k', -1), s2), ('throw', None, s2.copy())]
        return Store.call(self, eng, st, inst, fobj, short, args)

    def recorded(self, eng, st, inst, args):
        self.settle(st)
        self.seen.add('rec')
        def val(a):
            o, off = eng.addr(st, a)
            v = st.mem.get((o, off))
            return v if v is not None else ('s', ('ld', o, off))
        fid, crawl = strip(val(args[1])), strip(val(args[2]))
        po, poff = eng.addr(st, args[3])
        P = self.P
        mp = {x[0]: x[1] for x in P.ditypes[PATH]['members'] if x[0] != '<base>'}
        uri, xp = (st.mem.get((po, ('tag', poff + mp[n])), (0, None))[1] for n in ('xmlId', 'xpath'))
        tok = None
        f = [t for t in fid]
        if len(f) == 1 and f[0][1] == 1 and f[0][0] is not None and f[0][0][0] == 's' and f[0][0][1][0] == 'ld' and f[0][0][1][2] == self.leaf['id']:
            tok = self.leaf_of(f[0][0][1][1])
        if tok is None:
            self.bad('another formula', 'a hit is stored under the number %s, which is not the one of the formula of the subexpression' % (show_l(fid),)); st.q = (None, ()); return
        st.q = (None, (tok,))
        if crawl != strip(('s', ('ld', ('d', ('arg', 3)), 0))):
            self.bad('other data', 'a hit is stored with other page data than the one of its expression')
        elif uri != (('sym', (('d', ('arg', 2)), 0)),):
            self.bad('other uri', 'a hit is stored with another URI than the one of its expression')
        elif xp != (('sym', (eng.addr(st, tok)[0], eng.addr(st, tok)[1] + self.xpath)),):
            self.bad('other place', 'a hit is stored with another XPath than the one of the subexpression that was indexed')
        else:
            self.rep.ob('%s: hit stored at %s' % (self.name, inst.loc()), True)


def show_l(l):
    return repr(l)[:120]


def recording(P, rep):
    xp = accessor(P, 'mws::types::CmmlToken', 'getXpath', 'xpath')
    lm = {}
    for x in P.ditypes.get('mws::index::TmpLeafNode', {}).get('members', ()):
        if x[0] == 'id':
            lm['id'] = x[1]
        if x[0] == 'solutions':
            lm['hits'] = x[1]
    roots = [f for f in P.repo_fns() if f.blocks and f.short.endswith('::processExpression')
             and any(g.short.split('::')[-1] == 'insertFormula' for g in (P.F[n] for n in P.reach([f.name])))]
    if xp is None or len(lm) < 2:
        rep.error('unknown members of tokens or leaves'); return
    pds = [f for f in P.repo_fns() if f.blocks and f.short.endswith('::processData')
           and any(g.short.split('::')[-1] == 'putData' for g in (P.F[n] for n in P.reach([f.name])))]
    roots = [f for f in roots if any(g.cls == f.cls for g in pds)]
    rep.need('functions indexing an expression', len(roots), 1)
    for f in roots:
        C = Record(P, rep, f.short, xp, lm)
        eng = Engine(P, C, maxdepth=12, budget=400000)
        for k, rv, st in eng.run_root(f, None, {}, {}, {}):
            if k == 'ret':
                C.settle(st)
        if 'rec' not in C.seen:
            rep.error('%s: no hit is stored' % f.short)
        elif 'count' not in C.seen and not rep.violations:
            rep.error('%s: no hit is counted' % f.short)
    rep.need('functions storing the data of a page', len(pds), 1)
    for f in pds:
        C = Data(P)
        eng = Engine(P, C, maxdepth=10, budget=200000)
        for k, rv, st in eng.run_root(f, None, {}, {}, {}):
            if k != 'ret':
                continue
            pd = [e for e in st.q[1] if e[0] == 'data']
            what = None
            if not pd or pd[-1][2] == 'failed':
                if not (rv is not None and eng.truth(st, ('cmp', 'eq', rv, ('k', 0))) is True):
                    what = 'gives a number for page data that was not stored'
            elif len(pd) > 1:
                what = 'stores page data %d times' % len(pd)
            elif pd[0][1] != (('sym', (('d', ('arg', 1)), 0)),):
                what = 'stores other data than the one of the page'
            elif rv is None or strip(rv) != strip(('s', ('page',))):
                what = 'does not give the number the page data was stored under'
            rep.ob('%s: %s' % (f.short, 'stored' if pd else 'nothing stored'), what is None)
            if what:
                rep.viol('%s|data' % f.short, '%s %s' % (f.short, what))


class Data(Record):
    def __init__(self, P):
        Store.__init__(self, P)

    def call(self, eng, st, inst, fobj, short, args):
        if fobj is not None and fobj.repo and short.split('::')[-1] == 'putData':
            if not self.first(inst, fobj):
                return []
            t = self.tag(eng, st, args[1])
            s2 = st.copy()
            self.event(st, ('data', t, 'stored')); self.event(s2, ('data', t, 'failed'))
            return [('ret', ('s', ('page',)), st), ('throw', None, s2)]
        return Store.call(self, eng, st, inst, fobj, short, args)

    def store(self, eng, st, inst, addr, val):
        Store.store(self, eng, st, inst, addr, val)

    def enter(self, eng, st, inst, v, args):
        return Store.enter(self, eng, st, inst, v, args)

def run(P, rep, tier):
    rep.rule = ('Abstract interpretation of storing and of reading with strings as symbolic pieces and the byte cursor of the records as a linear form: '
                'the bytes and the key that are written for arbitrary values are what the reading functions are then given, for every small number '
                'of stored hits, skipped hits and wanted hits; the values reported must be the symbols that were stored.')
    rep.assumptions = ['LevelDB returns what was put under a key and iterates in the order of the keys', 'sizes do not overflow']
    r = stores(P, rep)
    if r:
        reads(P, rep, *r)
    answers(P, rep)
    recording(P, rep)
