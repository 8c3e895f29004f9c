"""What a client sends in several pieces is taken whole; what a server writes into memory is sent whole."""
from absint import Client, Engine, Budget
import resources as R
import mhd
from mhd import cstr
from i04 import lin

INF = float('inf')
VERBS = ('GET', 'POST', 'OPTIONS', 'PUT', 'HEAD', 'DELETE', 'PATCH', 'TRACE', 'CONNECT')
TERM = {'strlen', 'strcpy', 'strcat', 'strdup', 'strcmp', 'strncmp', 'strchr', 'strstr', 'atoi', 'atol', 'strtol', 'strtoul', 'fputs', 'puts', 'printf',
        'fprintf', 'sprintf', 'snprintf', 'stpcpy', 'strtok', 'sscanf', 'strcasecmp', '__isoc99_sscanf', '__isoc23_strtol', '__isoc23_sscanf', 'atoll'}
N = ('s', ('up',))


def norm(l):
    return tuple(sorted(((t, c) for t, c in l.items() if c), key=repr))


def add(a, b, s=1):
    r = dict(a)
    for t, c in dict(b).items():
        r[t] = r.get(t, 0) + s * c
    return norm(r)


class Lin(Client):
    """pointers into the received data are kept as (data, linear offset); sums are kept as such"""
    DATA = ()            # argument numbers of the data pointer
    loop_ranges = True

    def arith(self, eng, st, op, l, r):
        if l[0] == 'k' and r[0] == 'k' or op not in ('add', 'sub'):
            return None
        if len(repr(l)) + len(repr(r)) > 2000:
            return None
        v = ('op', op, l, r)
        d = dict(norm(lin(v)))
        if not d:
            return ('k', 0)
        if set(d) == {None}:
            return ('k', d[None])
        if len(d) == 1:
            t, c = list(d.items())[0]
            if c == 1:
                return t
        return v

    def base(self, av):
        """(base pointer, linear offset)"""
        if av[0] == 's' and isinstance(av[1], tuple) and av[1][:1] == ('off',):
            return av[1][1], av[1][2]
        if av[0] == 'p' and av[1][0] == 'd' and isinstance(av[1][1], tuple):
            o = ('s', av[1][1])
            if type(av[2]) is not int:
                return None, None
            if o[1][:1] == ('off',):
                return o[1][1], add(o[1][2], ((None, av[2]),))
            return o, norm({None: av[2]})
        if av[0] == 's':
            return av, ()
        if av[0] == 'p' and av[1][0] in ('res', 'hp') and type(av[2]) is int:
            return ('p', av[1], 0), norm({None: av[2]})
        return None, None

    def isdata(self, b):
        return b is not None and b[0] == 's' and b[1] in self.DATA

    def tracked(self, b):
        return self.isdata(b)

    def gep(self, eng, st, inst, b, off, var):
        o, l = self.base(b)
        if o is None or not self.tracked(o) or type(off) is not int or not var and not (b[0] == 's' and b[1][:1] == ('off',)):
            return None
        l = add(l, ((None, off),))
        for v, sc in var:
            for t, c in norm(lin(v)):
                l = add(l, ((t, c * sc),))
        if not l:
            return o
        if set(dict(l)) == {None} and o[0] == 'p':
            return ('p', o[1], dict(l)[None])
        return ('s', ('off', o, l))


class Take(Lin, mhd.Http):
    """the upload call of an access handler; q = (bytes taken, partial writes so far, reason why it is unknown)"""
    DATA = (('arg', 5),)

    def __init__(self, P, root):
        mhd.Http.__init__(self, P, set(), 'upload', root)
        self.uses = 0; self.unknown = set(); self.good = 0; self.kinds = set()

    def init_q(self):
        return ((), 0, None)

    def relevant(self, eng, f):
        return True

    def skey(self, st):
        return st.q[2] if st.q[2] is not None else (st.q, st.mem.get((('d', ('arg', 6)), 0)))

    def arith(self, eng, st, op, l, r):
        v = Lin.arith(self, eng, st, op, l, r)
        if v is None and not (l[0] == 'k' and r[0] == 'k') and mentions((l, r), N) and len(repr(l)) + len(repr(r)) < 1000:
            return ('op', op, l, r)
        return v

    def taken(self, st, inst, ptr, n, what):
        """n bytes at ptr have been taken"""
        b, o = self.base(ptr)
        c, k, u = st.q
        self.uses += 1; self.kinds.add(what)
        if len(c) > 6 or any(abs(x) > 8 * (1 << 16) for t, x in c if t is None):
            self.lost(st, 'many pieces'); return
        if dict(add(o, c, -1)):
            self.find.append(('order', inst, 'a piece of the body that does not follow the bytes taken before it is passed to ' + what))
        st.q = (add(c, norm(lin(n))), k, u)

    def lost(self, st, why):
        self.unknown.add(why)
        st.q = st.q[:2] + (why,)

    def load(self, eng, st, inst, addr, val):
        b, o = self.base(addr)
        if self.isdata(b):
            self.lost(st, 'single bytes are read')
        return None

    def copy(self, eng, st, inst, d, s, n):
        b, o = self.base(s)
        if self.isdata(b):
            self.taken(st, inst, s, n, 'memcpy')
        return None

    def branch(self, eng, st, inst, cond, taken):
        c = cond
        while isinstance(c, tuple) and c and c[0] == 'not':
            c, taken = c[1], not taken
        if not (isinstance(c, tuple) and c and c[0] == 'cmp' and c[1] in ('eq', 'ne') and taken == (c[1] == 'eq')):
            return None
        # an equation about what one write took: it is replaced by what it is equal to
        z = dict(add(norm(lin(c[2])), norm(lin(c[3])), -1)) if c[2][0] != 'p' and c[3][0] != 'p' else {}
        ms = [t for t in z if t is not None and t[0] == 's' and t[1][:1] == ('m',) and abs(z[t]) == 1]
        if not ms or any(not (t is None or plain(t)) for t in z):
            return None
        m = max(ms, key=repr)

        def without(l):
            k = -dict(l).get(m, 0) * z[m]
            return add(l, norm(z), k)
        st.q = (without(st.q[0]),) + st.q[1:]
        cell = (('d', ('arg', 6)), 0)
        v = st.mem.get(cell)
        if v is not None and v[0] != 'p':
            d = dict(without(norm(lin(v))))
            if not d or set(d) == {None}:
                st.mem[cell] = ('k', d.get(None, 0))
        return None

    picked = branch

    def call(self, eng, st, inst, fobj, short, args):
        last = short.split('::')[-1]
        idx = [i for i, a in enumerate(args) if self.isdata(self.base(a)[0])]
        if idx and not (fobj is not None and fobj.repo and fobj.blocks):
            i = idx[0]; ptr = args[i]
            if last in ('fwrite', 'fwrite_unlocked') or last in ('write', 'send') and i == 1 and short == last:
                n = args[i + 1]
                whole = False
                if last.startswith('fwrite'):
                    if args[1] == ('k', 1):
                        n = args[2]
                    elif args[2] == ('k', 1):
                        n = args[1]; whole = True
                    else:
                        self.lost(st, 'size of ' + last); return None
                out = []
                s0 = st.copy()
                out.append(('ret', ('k', 0 if last.startswith('fwrite') else -1), s0))
                if not whole and st.q[1] < 2:
                    s1 = st.copy()
                    m = ('s', ('m', st.q[1]))
                    s1.facts[m[1]] = (1, 1 << 40, frozenset([0]))
                    self.taken(s1, inst, ptr, m, last)
                    s1.q = (s1.q[0], s1.q[1] + 1, s1.q[2])
                    out.append(('ret', m, s1))
                self.taken(st, inst, ptr, n, last)
                out.append(('ret', ('k', 1) if whole else n, st))
                return out
            if last == 'MHD_post_process':
                self.taken(st, inst, ptr, args[i + 1], last)
                return None
            if short in TERM or last in ('operator<<', 'operator+=', 'operator=') or \
                    last in ('basic_string', 'append', 'assign', 'push_back') and (len(args) <= i + 1 or args[i + 1][0] == 'p'):
                self.find.append(('terminator', inst, 'the bytes of a body are read up to a terminator by ' + last + ': they have none'))
                self.lost(st, 'read up to a terminator')
                return None
            if last in ('basic_string', 'append', 'assign', 'insert', 'write', 'sputn', 'basic_string_view') and len(args) > i + 1:
                self.taken(st, inst, ptr, args[i + 1], last)
                return None
            if last in ('memcmp', 'memchr'):
                return None
            if last not in ('memcpy', 'memmove'):
                self.lost(st, 'passed to ' + last)
            return None
        return mhd.Http.compared(self, eng, st, inst, short, args)

    def ret(self, eng, st, fn, rv, kind, depth):
        if kind != 'ret' or depth != 0 or rv is None or rv == ('k', 0):
            return
        self.exits += 1
        c, k, u = st.q
        left = st.mem.get((('d', ('arg', 6)), 0))
        if left is None:
            left = N
        if u is not None:
            return
        l = norm(lin(left))
        tot = add(c, l)
        d = dict(add(tot, norm(lin(N)), -1))
        # leftovers of paths on which the rest is known to be empty
        if not d:
            if not dict(c):
                if eng.truth(st, left) is not False:
                    self.find.append(('no progress', fn, 'the handler accepts the call without taking any byte of the body'))
                return
            self.good += 1
            return
        if any(not (t is None or t == N or t[0] == 's' and t[1][:1] == ('m',) or t[0] == 'op' and plain(t)) for t in d):
            self.unknown.add('size left')
            return
        self.find.append(('bytes lost', fn, 'the handler reports %s bytes of the body as left when it has taken %s of them' % (show(l), show(c))))


def mentions(v, w):
    return v == w or isinstance(v, tuple) and any(mentions(x, w) for x in v)


def plain(v):
    """an expression over the number of bytes and constants only"""
    if v[0] == 's':
        return v == N or v[1][:1] == ('m',)
    if v[0] == 'op':
        return all(plain(x) for x in v[2:] if isinstance(x, tuple))
    return v[0] == 'k'


def show(l):
    out = []
    for t, c in l:
        n = str(c) if t is None else ('all' if t == N else 'what one write took' if t[0] == 's' and t[1][:1] == ('m',) else 'some')
        if t is not None and c != 1:
            n = ('minus ' if c == -1 else '%d times ' % c) + n
        out.append(n)
    return ' and '.join(out) or 'no'


# ---------------------------------------------------------------- values of forms
class Piece(Lin):
    """a post data iterator, called for a piece at offset 0 or a later one
    q = (copies made, evidence that the value is being dropped, upper bounds known, terminators written, reason why it is unknown)"""
    DATA = (('arg', 6),)
    OFF, SIZE = ('s', ('arg', 7)), ('s', ('arg', 8))

    def __init__(self, P, root, later, limit):
        self.P = P; self.root = root; self.later = later; self.limit = limit
        self.find = []; self.exits = 0; self.copies = 0; self.unknown = set(); self.keys = {}; self.sizes = set()

    def init_q(self):
        return ((), False, frozenset(), frozenset(), None, None, frozenset())

    def relevant(self, eng, f):
        return True

    def skey(self, st):
        return st.q

    def tracked(self, b):
        return b is not None and (self.isdata(b) or b[0] == 's' and b[1][:1] in (('ld',), ('buf',), ('j',)) or b[0] == 'p' and b[1][0] in ('res', 'hp') or b[0] == 's' and len(b[1]) == 2)

    def state(self, v, n=0):
        """does the value come from the connection's own state?"""
        if n > 12 or not isinstance(v, tuple):
            return False
        if v == ('arg', 0):
            return True
        return any(self.state(x, n + 1) for x in v if isinstance(x, tuple))

    def lost(self, st, why):
        self.unknown.add(why)
        st.q = st.q[:4] + (why,) + st.q[5:]

    def load(self, eng, st, inst, addr, val):
        b, o = self.base(addr)
        if self.isdata(b):
            self.lost(st, 'single bytes are read')
        return None

    def branch(self, eng, st, inst, cond, taken):
        # the paths of an iterator are kept apart
        st.q = q = st.q[:6] + (st.q[6] | {(inst.fn.name, inst.i, taken)},)
        if cond[0] == 'cmp' and cond[2] == ('k', 0):
            cond = (cond[0], cond[1], cond[3], cond[2])
        if cond[0] == 'cmp' and cond[1] in ('eq', 'ne') and cond[2][0] == 's' and cond[2][1][:1] == ('key',) and cond[3] == ('k', 0):
            if (cond[1] == 'eq') == taken and q[5] is None:
                st.q = q[:5] + (cond[2][1][1],) + q[6:]
            return
        if cond[0] == 's' and cond[1][:1] == ('key',):
            if not taken and q[5] is None:
                st.q = q[:5] + (cond[1][1],) + q[6:]
            return
        if cond[0] == 'not' and cond[1][0] == 's' and cond[1][1][:1] == ('key',):
            if taken and q[5] is None:
                st.q = q[:5] + (cond[1][1][1],) + q[6:]
            return
        t = cond; zero = not taken
        while t[0] == 'not':
            t = t[1]; zero = not zero
        if t[0] == 'cmp' and t[1] in ('eq', 'ne') and ('k', 0) in t[2:]:
            zero = (t[1] == 'eq') == taken
        elif t[0] == 'cmp':
            zero = True
        if self.state(cond) and zero:
            st.q = q = (q[0], True) + q[2:]
        b = self.bound(eng, st, cond, taken)
        if b:
            st.q = q[:2] + (q[2] | b,) + q[3:]

    def bound(self, eng, st, c, taken):
        """forms l with l <= 0 that the outcome tells"""
        if c[0] == 'not':
            return self.bound(eng, st, c[1], not taken)
        if c[0] in ('and', 'or'):
            if (c[0] == 'and') == taken:
                return (self.bound(eng, st, c[1], taken) or frozenset()) | (self.bound(eng, st, c[2], taken) or frozenset())
            return frozenset()
        if c[0] != 'cmp' or c[1][1:] not in ('lt', 'le', 'gt', 'ge'):
            return frozenset()
        p, l, r = c[1:]
        if not (self.nowrap(eng, st, l) and self.nowrap(eng, st, r)):
            return frozenset()
        p = p[1:]
        if not taken:
            p = {'lt': 'ge', 'ge': 'lt', 'gt': 'le', 'le': 'gt'}[p]
        if p in ('gt', 'ge'):
            l, r = r, l; p = {'gt': 'lt', 'ge': 'le'}[p]
        d = add(norm(lin(l)), norm(lin(r)), -1)
        if p == 'lt':
            d = add(d, ((None, 1),))
        if not any(t in (self.OFF, self.SIZE) for t in dict(d)):
            return frozenset()
        return frozenset([d])

    def nowrap(self, eng, st, v):
        if v[0] == 'op' and v[1] == 'sub' and len(v) == 4:
            return eng.rng(st, v[3])[1] <= eng.rng(st, v[2])[0] and self.nowrap(eng, st, v[2]) and self.nowrap(eng, st, v[3])
        if v[0] == 'op' and v[1] == 'add' and len(v) == 4 and v[3][0] == 'k' and v[3][1] < 0:
            return eng.rng(st, v[2])[0] >= -v[3][1] and self.nowrap(eng, st, v[2])
        if v[0] == 'op' and v[1] == 'add' and len(v) == 4:
            return self.nowrap(eng, st, v[2]) and self.nowrap(eng, st, v[3])
        return v[0] in ('k', 's') or v[0] == 'op' and v[1] in ('zext',) and self.nowrap(eng, st, v[3])

    def most(self, eng, st, form, k):
        """is form <= k on this path?"""
        for b in list(st.q[2]) + [()]:
            d = dict(add(form, b, -1))          # form - b where b <= 0
            m = 0
            for t, c in d.items():
                if t is None:
                    m += c; continue
                lo, hi, _ = eng.rng(st, t)
                if c > 0:
                    m += c * hi
                else:
                    m += c * max(lo, 0)
            if m <= k:
                return True
        return False

    def room(self, eng, st, b):
        """bytes a buffer has"""
        if b[0] == 'p':
            v = st.mem.get((b[1], 'room'))
            return v[1] if v is not None and v[0] == 'k' else None
        return None

    def put(self, eng, st, inst, dst, src, n, what):
        """n bytes of the piece go to dst"""
        b, o = self.base(src)
        self.copies += 1
        q = st.q
        if dict(o):
            self.find.append(('part', inst, 'a part of the piece is left out')); return
        over = dict(add(norm(lin(n)), norm(lin(self.SIZE)), -1))
        if over:
            lo = eng.rng(st, n)
            if set(over) == {None} and over[None] > 0:
                self.find.append(('beyond', inst, 'more bytes than the piece has are read'))
            elif set(over) == {None}:
                self.find.append(('cut', inst, 'the last bytes of the piece are left out'))
            else:
                self.lost(st, 'length')
        db, do = self.base(dst) if dst is not None else (None, None)
        fresh = db is not None and (db[0] == 'p' and st.mem.get((db[1], 'keeps')) is None)
        if db is not None and what in ('memcpy', 'memmove', 'strncpy', 'memcpy_s'):
            # where it goes
            e = dict(add(do, norm(lin(self.OFF)), -1))
            z = not self.later
            if z and not dict(do):
                e = {}
            if e:
                if any(t is not None and t not in (self.OFF, self.SIZE) for t in e):
                    self.lost(st, 'place')
                else:
                    self.find.append(('place', inst, 'the piece does not go where the bytes before it end'))
            elif self.later and fresh:
                self.find.append(('restart', inst, 'a later piece replaces the ones before it'))
            # how much room there is
            room = self.room(eng, st, db)
            if room is not None:
                self.sizes.add(room)
            else:
                room = self.limit
            if room is not None and not e:
                end = add(do, norm(lin(n)))
                if not self.most(eng, st, end, room):
                    self.find.append(('room', inst, 'the piece may not fit into the %d bytes of the buffer' % room))
            st.q = (st.q[0] + ((what, db, add(do, norm(lin(n)))),),) + st.q[1:]
        else:
            if fresh and self.later:
                self.find.append(('restart', inst, 'a later piece replaces the ones before it'))
            st.q = (st.q[0] + ((what, None, None),),) + st.q[1:]

    def copy(self, eng, st, inst, d, s, n):
        b, o = self.base(s)
        if self.isdata(b):
            self.put(eng, st, inst, d, s, n, 'memcpy')
            return True
        b2, o2 = self.base(d)
        if b2 is not None and b2[0] == 'p' and (b2[1], 'room') in st.mem:
            st.mem[(b2[1], 'keeps')] = ('k', 1)
        return None

    def keep_cell(self, k, v, st):
        return k[1] in ('room', 'keeps', 'piece')

    def store(self, eng, st, inst, addr, val):
        b, o = self.base(addr)
        if val == ('k', 0) and b is not None and (o or b[0] == 'p') and st.q[0]:
            st.q = st.q[:3] + (st.q[3] | {(b, o)},) + st.q[4:]
            room = self.room(eng, st, b) or self.limit
            if room is not None and any(x[1] == b for x in st.q[0]) and all(t in (None, self.OFF, self.SIZE) for t in dict(o)) and not self.most(eng, st, o, room - 1):
                self.find.append(('room', inst, 'the terminator may not fit into the %d bytes of the buffer' % room))
        if val == ('k', 0) and self.state(addr[1:]) or self.isdata(self.base(val)[0]):
            st.q = (st.q[0], True) + st.q[2:]
        if self.isdata(self.base(val)[0]):
            ob, off = eng.addr(st, addr)
            if self.state(ob):
                self.find.append(('kept', inst, 'a pointer to the piece is kept: it is valid during the call only'))

    def call(self, eng, st, inst, fobj, short, args):
        last = short.split('::')[-1]
        if short in ('strcmp', 'strcasecmp') and len(args) == 2 and ('s', ('arg', 2)) in args:
            k = [cstr(self.P, a) for a in args if a != ('s', ('arg', 2))]
            return [('ret', ('s', ('key', k[0] if k else None)), st)]
        if short.startswith('std::operator') and ('==' in short or '!=' in short) and ('s', ('arg', 2)) in args:
            k = [cstr(self.P, a) for a in args if a != ('s', ('arg', 2))]
            return [('ret', ('cmp', 'eq' if '==' in short else 'ne', ('s', ('key', k[0] if k else None)), ('k', 0)), st)]
        if short in ('malloc', 'calloc', 'realloc', 'operator new', 'operator new[]') and args:
            o = ('hp', 'form', inst.fn.name, inst.i, len(st.q[0]))
            n = args[0] if short not in ('calloc', 'realloc') else args[1] if short == 'realloc' or args[0] == ('k', 1) else \
                args[0] if args[1] == ('k', 1) else ('s', ('?',))
            for k in [k for k in st.mem if k[0] == o]:
                del st.mem[k]
            if n[0] == 'k':
                st.mem[(o, 'room')] = n
            if short == 'calloc':
                st.mem[(o, 'zero')] = ('k', 1)
            if short == 'realloc':
                st.mem[(o, 'keeps')] = ('k', 1)
            s2 = st.copy()
            s2.q = st.q[:6] + (st.q[6] | {(inst.fn.name, inst.i, 'no memory')},)
            return [('ret', ('k', 0), s2), ('ret', ('p', o, 0), st)] if 'new' not in short else [('ret', ('p', o, 0), st)]
        if short == 'free' or short.startswith('operator delete'):
            if args and self.state(args[0][1:]):
                st.q = (st.q[0], True) + st.q[2:]
            return None
        if short in ('strcpy', 'memcpy', 'strncpy', 'memmove', 'stpcpy') and args:
            b2, o2 = self.base(args[0])
            if b2 is not None and b2[0] == 'p' and (b2[1], 'room') in st.mem and not self.isdata(self.base(args[1])[0]):
                st.mem[(b2[1], 'keeps')] = ('k', 1)
        idx = [i for i, a in enumerate(args) if self.isdata(self.base(a)[0])]
        if idx and not (fobj is not None and fobj.repo and fobj.blocks):
            i = idx[0]; src = args[i]
            if last in ('strncpy', 'memcpy', 'memmove', 'mempcpy', '__memcpy_chk', '__strncpy_chk') and i == 1:
                self.put(eng, st, inst, args[0], src, args[2], 'memcpy')
                return [('ret', args[0], st)]
            if last == 'strncat' and i == 1:
                self.put(eng, st, inst, args[0], src, args[2], 'strncat')
                return [('ret', args[0], st)]
            if last == 'strndup':
                o = ('hp', 'form', inst.fn.name, inst.i)
                self.put(eng, st, inst, ('p', o, 0), src, args[1], 'strndup')
                return [('ret', ('p', o, 0), st)]
            if last in ('append', 'assign', 'basic_string', 'write', 'insert') and len(args) > i + 1 and args[i + 1][0] != 'p':
                o, off = eng.addr(st, args[0])
                if last in ('append', 'write', 'insert'):
                    self.put(eng, st, inst, None, src, args[i + 1], last)
                    st.mem[(o, ('piece', off))] = ('k', 1)
                else:
                    if self.later and self.state(o):
                        self.find.append(('restart', inst, 'a later piece replaces the ones before it'))
                    st.mem[(o, ('piece', off))] = ('k', 1)
                return [('ret', args[0] if inst.t else None, st)]
            if short in TERM or last in ('operator<<', 'operator+=', 'operator=', 'append', 'assign', 'basic_string'):
                self.find.append(('terminator', inst, 'the bytes of a piece are read up to a terminator by ' + last + ': they have none'))
                self.lost(st, 'terminator')
                return None
            self.lost(st, 'passed to ' + last)
            return None
        # strings that hold the piece
        if 'basic_string' in short and len(args) > 1:
            so, soff = eng.addr(st, args[1])
            if (so, ('piece', soff)) in st.mem:
                o, off = eng.addr(st, args[0])
                if last in ('append', 'operator+=', 'operator=', 'assign', 'basic_string'):
                    if self.state(o):
                        self.copies += 1
                        if self.later and last in ('operator=', 'assign'):
                            self.find.append(('restart', inst, 'a later piece replaces the ones before it'))
                        st.q = (st.q[0] + ((last, None, None),),) + st.q[1:]
                    else:
                        st.mem[(o, ('piece', off))] = ('k', 1)
        return None

    def ret(self, eng, st, fn, rv, kind, depth):
        if kind != 'ret' or depth != 0:
            return
        self.exits += 1
        copies, ev, bounds, terms, unknown, key = st.q[:6]
        no = rv == ('k', 0)
        if key is not None:
            self.keys.setdefault(key, []).append((bool(copies), ev, unknown, no))
        if no or unknown:
            return
        for what, b, end in copies:
            if what != 'memcpy' or b is None:
                continue
            if b[0] == 'p' and (b[1], 'zero') in st.mem:
                continue
            if not any(tb == b and not dict(add(to, end, -1)) for tb, to in terms):
                if any(tb == b for tb, to in terms):
                    self.find.append(('end', fn, 'the terminator does not follow the last byte of the piece'))
                else:
                    self.find.append(('end', fn, 'no terminator is written behind the piece'))


class Done(Client):
    """the completion callback for a request that was not completed"""
    def __init__(self, P):
        self.P = P; self.find = []; self.calls = 0

    def relevant(self, eng, f):
        return True

    def call(self, eng, st, inst, fobj, short, args):
        last = short.split('::')[-1]
        if last in ('push', 'push_back', 'emplace', 'emplace_back', 'insert', 'push_front', 'operator[]') and args and 'std::' in short:
            self.calls += 1
            if self.cls(args[0]):
                self.find.append(('aborted', inst, 'an aborted request is handed on with ' + last))
        return None

    def cls(self, v, n=0):
        if v == ('arg', 0):
            return True
        return n < 12 and isinstance(v, tuple) and any(self.cls(x, n + 1) for x in v if isinstance(x, tuple))


# ---------------------------------------------------------------- memory streams
class Stream(mhd.Http):
    """what was written into a memory stream is read / sent whole"""
    def __init__(self, P, root, ctx):
        mhd.Http.__init__(self, P, set(), ctx, root)
        self.opened = set(); self.used = set(); self.resp = 0

    def init_q(self):
        return None

    def relevant(self, eng, f):
        return f.name in self.rel or f.file == self.root.file

    def ms(self, av):
        if av[0] == 'p' and av[1][0] == 'res' and av[1][1] == 'ms' and av[2] == 0:
            return av[1][2:]
        return None

    def keep_cell(self, k, v, st):
        return mhd.Http.keep_cell(self, k, v, st) or v[0] == 's' and isinstance(v[1], tuple) and v[1][:1] in (('msbuf',), ('mslen',), ('msold',))

    def call(self, eng, st, inst, fobj, short, args):
        last = short.split('::')[-1]
        if short == 'open_memstream':
            b = eng.addr(st, args[0]); n = eng.addr(st, args[1])
            self.opened.add(inst)
            for c in (b, n):
                st.mem[c] = ('s', ('msold', b, n, c == n))
            return [('ret', ('p', ('res', 'ms', b, n), 0), st)]
        for i, a in enumerate(args):
            m = self.ms(a)
            if m is None or fobj is not None and fobj.repo and fobj.blocks and fobj.name in eng_names(eng, fobj, self):
                continue
            b, n = m
            if short in ('fclose', 'fflush'):
                st.mem[b] = ('s', ('msbuf', b, n)); st.mem[n] = ('s', ('mslen', b, n))
                return [('ret', ('k', 0), st)]
            st.mem[b] = ('s', ('msold', b, n, False)); st.mem[n] = ('s', ('msold', b, n, True))
        if short == 'fmemopen':
            self.pair(inst, args[0], args[1], 'read back')
            return [('ret', ('p', ('res', 'msin', inst.i), 0), st)]
        if short == 'strlen':
            t = cstr(self.P, args[0])
            return [('ret', ('k', len(t)) if t is not None else ('s', ('strlen', args[0])), st)]
        if short.startswith('MHD_create_response_from'):
            self.resp += 1
            n, d = args[0], args[1]
            if self.kind(d) or self.kind(n):
                self.pair(inst, d, n, 'sent')
            t = cstr(self.P, d)
            if t is not None and n[0] == 'k' and n[1] != len(t):
                self.find.append(('length', inst, 'a response of %d characters is sent as %d bytes' % (len(t), n[1])))
            if n[0] == 's' and isinstance(n[1], tuple) and n[1][:1] == ('strlen',) and n[1][1] != d:
                self.find.append(('length', inst, 'the length of a response is taken from another text'))
            return [('ret', ('p', ('hp', 'resp', inst.i), 0), st)]
        return mhd.Http.compared(self, eng, st, inst, short, args)

    def kind(self, v):
        return v[1][0] if v[0] == 's' and isinstance(v[1], tuple) and v[1][:1] in (('msbuf',), ('mslen',), ('msold',)) else None

    def pair(self, inst, d, n, what):
        self.used.add(inst)
        kd, kn = self.kind(d), self.kind(n)
        if 'msold' in (kd, kn):
            self.find.append(('unflushed', inst, 'a memory stream is %s before what was written to it is there' % what))
        elif kd == 'msbuf' and not (kn == 'mslen' and d[1][1:] == n[1][1:]):
            self.find.append(('size', inst, 'a memory stream is %s with another size than it has' % what))
        elif kd is None and kn is not None:
            self.find.append(('buffer', inst, 'another buffer than that of the memory stream is %s' % what))

    def ret(self, eng, st, fn, rv, kind, depth):
        if kind == 'ret' and depth == 0:
            self.exits += 1


def eng_names(eng, f, c):
    """does the engine go into the function?"""
    return {f.name} if c.relevant(eng, f) or eng.small(f) else set()


def verbs(facts, which='POST'):
    for v in VERBS:
        facts[('strcmp', 3, v)] = (0, 0, frozenset()) if v == which else (-INF, INF, frozenset([0]))
    return facts


def OB(rep, what, d):
    rep.ob(what + ' (' + ', '.join('%s: %s' % (k, v) for k, v in d.items()) + ')')


def run(P, rep, tier):
    rep.rule = ('Abstract interpretation of every access handler for a call that brings a part of a body (linear arithmetic over the number of bytes '
                'and the outcomes of partial writes), of every iterator over form values for a first and for a later piece, of the completion '
                'callback of an aborted request, and of the memory streams of an exchange (buffer and size are taken after a flush).')
    rep.assumptions = ['the HTTP library passes the pieces of a body in order and reports what the handler left again',
                       'a partial write takes at least one byte; memory is not exhausted']
    fns = set(); steps = 0
    def rp(find, root):
        seen = set()
        for k, at, text in find:
            key = '%s|%s|%s' % (k, root.short, at.fn.short if hasattr(at, 'fn') else at.short)
            if key in seen:
                continue
            seen.add(key)
            rep.viol(key, '%s  (at %s in %s)' % (text, at.loc() if hasattr(at, 'loc') else '%s:%s' % (at.file, at.line), at.fn.short if hasattr(at, 'fn') else at.short))
    its = {}
    nh = 0; streams = 0; resp = 0; used = 0; done = set()
    for h, k0, dn in R.connections(P):
        H = P.F[h]; nh += 1
        # A: the upload call
        c = Take(P, H)
        eng = Engine(P, c, maxdepth=10, budget=2000000)
        cell = (('d', ('arg', k0)), 0)
        f0 = verbs({('conn',): (1, INF, frozenset([0])), ('up',): (1, 1 << 40, frozenset([0]))})
        try:
            eng.run_root(H, mem={cell: ('s', ('conn',)), (('d', ('arg', 6)), 0): N}, facts=f0)
        except Budget:
            rep.error('budget in the upload call of ' + H.short)
        fns |= set(eng.visited_fns); steps += eng.steps
        OB(rep, '%s: an upload call takes what it says it took, in order' % H.short, {'exits': c.exits, 'reads of the data': c.uses, 'by': sorted(c.kinds), 'undecided': sorted(c.unknown)})
        if not c.uses and not c.find:
            rep.error('no use of the upload data found in ' + H.short)
        rp(c.find, H)
        # memory streams
        first = Stream(P, H, 'first'); first.rel = mhd.relevant_set(P)
        e1 = Engine(P, first, maxdepth=12, budget=2000000)
        outs = e1.run_root(H, mem={cell: ('k', 0)}, facts=verbs({}))
        states = []
        for kd, rv, st in outs or ():
            v = st.mem.get(cell)
            if kd == 'ret' and rv != ('k', 0) and v is not None and v != ('k', 0):
                m = {k: x for k, x in st.mem.items() if k[0][0] in ('hp', 'res', 'x') or k == cell}
                if m not in states:
                    states.append(m)
        find = list(first.find); opened = set(first.opened); fns |= set(e1.visited_fns)
        for m in states:
            fin = Stream(P, H, 'final'); fin.rel = first.rel
            e2 = Engine(P, fin, maxdepth=12, budget=3000000)
            m = dict(m); m[(('d', ('arg', 6)), 0)] = ('k', 0)
            e2.run_root(H, mem=m, facts=verbs({}))
            find += fin.find; opened |= fin.opened; used += len(fin.used); resp += fin.resp; fns |= set(e2.visited_fns); steps += e2.steps
        streams += len(opened)
        OB(rep, '%s: memory streams are read and sent whole' % H.short, {'streams': len(opened), 'connection states': len(states)})
        rp(find, H)
        if opened and not used:
            rep.error('a memory stream of %s is opened but never read' % H.short)
        # B: post data iterators
        for f in P.repo_fns():
            for x in f.calls():
                fv = x.d['fn']
                if fv[0] == 'f' and P.F[fv[1]].short == 'MHD_create_post_processor':
                    t = x.a[2]
                    if t[0] == 'f':
                        its[t[1]] = P.F[t[1]]
                    else:
                        rep.error('post data iterator unknown at ' + x.loc())
        # C: completion of aborted requests
        for d in ([dn] if isinstance(dn, str) else dn or []):
            if d in done or d not in P.F or not P.F[d].blocks:
                continue
            done.add(d)
            D = P.F[d]; c = Done(P)
            eng = Engine(P, c, maxdepth=10, budget=1000000)
            eng.run_root(D, facts={('arg', 3): (1, 5, frozenset([0]))})
            OB(rep, '%s: an aborted request is not handed on' % D.short, {'hand-over calls seen': c.calls})
            rp(c.find, D); fns |= set(eng.visited_fns); steps += eng.steps
    copies = 0
    for f in its.values():
        limit = None; find = []; drop = {}
        for later in (False, True):
            c = Piece(P, f, later, limit)
            eng = Engine(P, c, maxdepth=10, budget=2000000)
            facts = {('arg', 7): (1, 1 << 62, frozenset([0])) if later else (0, 0, frozenset()), ('arg', 8): (0 if not later else 1, 1 << 62, frozenset([0] if later else []))}
            args = {}
            eng.run_root(f, facts=facts, args=args) if not args else None
            find += c.find; fns |= set(eng.visited_fns); steps += eng.steps; copies += c.copies
            if c.sizes:
                limit = min(c.sizes)
            drop[later] = c.keys
            OB(rep, '%s: %s piece of a value' % (f.short, 'later' if later else 'first'), {'exits': c.exits, 'copies': c.copies, 'undecided': sorted(c.unknown), 'values': sorted(map(str, c.keys)), 'buffer': limit})
        for key, v in drop[False].items():
            if not any(cp for cp, ev, u, no in v):
                continue
            for cp, ev, u, no in drop[True].get(key, ()):
                if not (cp or ev or u or no):
                    find.append(('truncated', f, "a later piece of the value '%s' is dropped and the value kept without it" % key))
            if not any(cp or u for cp, ev, u, no in drop[True].get(key, ())):
                find.append(('truncated', f, "the later pieces of the value '%s' are never added to it" % key))
        rp(find, f)
        if not copies:
            rep.error('no use of the data found in ' + f.short)
    rep.need('access handlers', nh, 2); rep.stats['iterators'] = len(its); rep.stats['memory_streams'] = streams
    rep.stats['responses'] = resp; rep.stats['functions_analysed'] = len(fns); rep.stats['steps'] = steps
    if not nh:
        rep.error('no HTTP server found')
