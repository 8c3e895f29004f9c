"""Interprocedural, disjunctive abstract interpreter over the resolved program (ESP style).

Abstract state = automaton state q (client defined)  x  SSA environment  x  memory cells  x  range facts.
States that reach the same block with the same q (and the same constants flowing into that block's
phis) are joined, so that the analysis is polynomial, while states in which the property automaton
differs stay apart together with the branch facts that distinguish them.  No solver is involved: facts are
integer ranges / null-ness of single values, refined at branches.

Abstract values
  ('k', c)            integer constant (null pointer = ('k', 0))
  ('p', obj, off)     address inside an abstract object (never null); off may be None
  ('f', name)         function address
  ('s', sid)          symbolic value, facts[sid] = (lo, hi, excluded)
  ('cmp', pred, l, r) comparison result, ('not', v), ('and', a, b), ('or', a, b)
  ('op', name, ...)   other pure expression of bounded depth
Abstract objects
  ('al', ctx, id) stack slot, ('hp', ctx, id) heap, ('g', name) global, ('d', sid) target of symbolic
  pointer, client-made objects ('res', ...).
"""
import re, collections, os, time
from ir import Inst

NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt',
       'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle',
        'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}
INF = float('inf')
TOPR = (-INF, INF, frozenset())

SMART = re.compile(r'std::(unique_ptr|default_delete|__uniq_ptr_impl|__uniq_ptr_data|tuple|_Tuple_impl|_Head_base|get|__get_helper|move|forward|swap|addressof|__addressof)(::|$)')



def smart(f, short):
    return SMART.match(short) or (short.startswith('std::operator') and re.match(r'.*operator[=!]=.*unique_ptr', f.dem))


# library functions that neither write through their pointer arguments nor keep them
PURE = re.compile(r'^(strlen|strcmp|strncmp|strcasecmp|memcmp|strchr|strrchr|strstr|atoi|atol|fprintf|printf|puts|fputs|'
                  r'fflush|vfprintf|perror|fwrite|fputc|putc|ferror|fileno|islower|isspace|tolower|toupper|'
                  r'strerror|__errno_location|xmlStrcmp|xmlTextWriter\w+|MHD_add_response_header|'
                  r'json_object_(get|to_json)\w*|crc32\w*|__assert_fail|access|unlink|mkdir|close|raise|'
                  r'pthread_mutex_\w+|pthread_cond_signal|time|getpid|sleep|write|'
                  r'std::char_traits::\w+|std::operator(==|!=|<|>|<=|>=|\+)|std::__throw\w*|__cxa_\w+|__clang_call_terminate|'
                  r'std::operator<<|std::ostream::operator<<|std::endl|std::to_string|std::__is_constant_evaluated|'
                  r'llvm\..*)$')


def is_lib_const(f):
    return f.const_method


class State:
    __slots__ = ('q', 'env', 'mem', 'facts', 'trail')

    def __init__(self, q, env, mem, facts, trail=None):
        self.q, self.env, self.mem, self.facts, self.trail = q, env, mem, facts, trail

    def copy(self):
        return State(self.q, dict(self.env), dict(self.mem), dict(self.facts), self.trail)


def wlo(x):
    """widening thresholds"""
    return next((t for t in (0, -1) if t <= x), -INF)


def whi(x):
    return next((t for t in (0, 2 ** 31 - 1) if t >= x), INF)


class Client:
    """Base client; override the hooks."""
    name = 'client'
    loop_ranges = False         # keep value ranges of arithmetic in loops (precise, slower)

    def init_q(self):
        return None

    def call(self, eng, st, inst, fobj, short, args):
        """-> None for default treatment, or list of (kind, ret AV or None, State) with kind 'ret'/'throw'/'stop'"""
        return None

    def after_call(self, eng, st, inst, fobj, short, args, ret):
        """repo callee has returned (st is the state after)"""
        return None

    def relevant(self, eng, fobj):
        return True

    def branch(self, eng, st, inst, cond, taken):
        return None

    def picked(self, eng, st, inst, cond, taken):
        """one operand of a select was taken"""
        return None

    def store(self, eng, st, inst, addr, val):
        pass

    def load(self, eng, st, inst, addr, val):
        return None

    def ret(self, eng, st, fn, val, kind, depth):
        pass

    def lib_throws(self, fobj, short):
        return False

    def qkey(self, q):
        return q

    def skey(self, st):
        """further part of the state that keeps states apart"""
        return None

    def edge(self, eng, st, fn, pred, blk):
        pass

    def obj_class(self, obj):
        """class of an object of known layout"""
        return None

    depth = 5                   # nesting of expressions that are kept as such
    arith = None                # arith(eng, st, op, l, r) -> AV or None: own meaning of an arithmetic operation

    gep = None                  # gep(eng, st, inst, base, constant offset, [(AV, scale)]) -> AV or None: own meaning of an address computation
    copy = None                 # copy(eng, st, inst, dst, src, n) -> True if the memcpy was done

    def new_sid(self, sid, *of):
        """name of a symbolic value that is loaded from / joined of these"""
        return sid


EXC = (('x', 'exc'), 0)
EXCO = (('x', 'exco'), 0)          # the object thrown
NULLSID = ('null',)          # a null pointer that remembers that it was injected


from ir import Prog
derives = Prog.derives


class Budget(Exception):
    pass


class Engine:
    MAXDEPTH = 12
    MAXITER = 60000

    def __init__(self, prog, client, maxdepth=None, budget=None):
        self.P = prog; self.C = client
        self.maxdepth = maxdepth or self.MAXDEPTH
        self.live = {}
        self.steps = 0
        self.budget = budget or 3000000
        self.visited_fns = set()
        self.call_sites = 0
        self.havoc_deep = set()
        self._writes = None
        self.saved_envs = []

    # ------------------------------------------------------------ liveness
    def liveness(self, fn):
        r = self.live.get(fn.name)
        if r is not None:
            return r
        use = []; de = []
        for b in fn.blocks:
            u = set(); d = set()
            for x in b:
                if x.op != 'phi':
                    for o in self._ops(x):
                        if o not in d:
                            u.add(o)
                d.add(('i', x.i))
            use.append(u); de.append(d)
        livein = [set() for _ in fn.blocks]
        ch = True
        while ch:
            ch = False
            for bi in range(len(fn.blocks) - 1, -1, -1):
                out = set()
                for s in fn.succ[bi]:
                    out |= livein[s]
                    for x in fn.blocks[s]:
                        if x.op != 'phi':
                            break
                        for v, pb in x.d['phi']:
                            if pb == bi:
                                out |= set(self._leaves(v))
                        out.discard(('i', x.i))
                n = use[bi] | (out - de[bi])
                for x in fn.blocks[bi]:
                    if x.op == 'phi':
                        n.discard(('i', x.i))
                if n != livein[bi]:
                    livein[bi] = n; ch = True
        self.live[fn.name] = livein
        return livein

    def _leaves(self, v):
        if v[0] in ('i', 'a') and len(v) == 2:
            return [v]
        return []

    def _ops(self, x):
        for o in x.a:
            if o[0] in ('i', 'a') and len(o) == 2:
                yield o
        if x.is_call:
            o = x.d['fn']
            if o[0] in ('i', 'a'):
                yield o
        g = x.d.get('gep')
        if g and 'var' in g:
            for v, s in g['var']:
                if v[0] in ('i', 'a'):
                    yield v

    # ------------------------------------------------------------ facts
    def rng(self, st, v):
        k = v[0]
        if k == 'k':
            return (v[1], v[1], frozenset())
        if k in ('p', 'f'):
            return (1, INF, frozenset([0]))
        if k == 's':
            if v[1] == NULLSID:
                return (0, 0, frozenset())
            return st.facts.get(v[1], TOPR)
        if k in ('cmp', 'not', 'and', 'or'):
            t = self.truth(st, v)
            if t is True:
                return (1, 1, frozenset())
            if t is False:
                return (0, 0, frozenset())
            return (0, 1, frozenset())
        if k == 'op':
            return self.op_range(st, v)
        return TOPR

    def op_range(self, st, v):
        n = v[1]
        try:
            if n in ('add', 'sub') and len(v) == 4:
                a = self.rng(st, v[2]); b = self.rng(st, v[3])
                if n == 'add':
                    return (a[0] + b[0], a[1] + b[1], frozenset())
                return (a[0] - b[1], a[1] - b[0], frozenset())
            if n == 'zext':
                bits = v[2]
                a = self.rng(st, v[3])
                if a[0] >= 0:
                    return a
                return (0, (1 << bits) - 1, frozenset([0]) if 0 in a[2] else frozenset())
            if n == 'sext':
                a = self.rng(st, v[3])
                return a if a[1] < (1 << (v[2] - 1)) or a[1] == INF else TOPR
            if n == 'trunc':
                bits = v[2]
                a = self.rng(st, v[3])
                if bits <= 64 and a[0] >= -(1 << (bits - 1)) and a[1] < (1 << (bits - 1)):
                    return a
                if bits == 16 and a[0] >= 0 and a[1] < (1 << bits):
                    return a
                return TOPR
            if n == 'and' and len(v) == 4:
                for m in (v[2], v[3]):
                    if m[0] == 'k' and m[1] >= 0:
                        return (0, m[1], frozenset())
        except Exception:
            pass
        return TOPR

    def truth(self, st, v):
        k = v[0]
        if k == 'k':
            return v[1] != 0
        if k in ('p', 'f'):
            return True
        if k == 's':
            lo, hi, ex = st.facts.get(v[1], TOPR)
            if lo == 0 and hi == 0:
                return False
            if lo > 0 or hi < 0 or 0 in ex:
                return True
            return None
        if k == 'not':
            t = self.truth(st, v[1])
            return None if t is None else not t
        if k == 'and':
            a = self.truth(st, v[1]); b = self.truth(st, v[2])
            if a is False or b is False:
                return False
            if a and b:
                return True
            return None
        if k == 'or':
            a = self.truth(st, v[1]); b = self.truth(st, v[2])
            if a or b:
                return True
            if a is False and b is False:
                return False
            return None
        if k == 'cmp':
            _, p, l, r = v
            if 'exc' in (l[0], r[0]) and 'ti' in (l[0], r[0]):
                t = derives(l[1], r[1]) if l[0] == 'exc' else derives(r[1], l[1])
                return t if t is None or p == 'eq' else not t
            if p in ('eq', 'ne'):
                if l == r and l[0] != 'u':
                    return p == 'eq'
                if l[0] == 'p' and r[0] == 'p':
                    if l[1] == r[1]:
                        if type(l[2]) is int and type(r[2]) is int:
                            return (l[2] == r[2]) == (p == 'eq')
                        return None
                    if l[1][0] in ('al', 'hp', 'res', 'g') and r[1][0] in ('al', 'hp', 'res', 'g'):
                        return p == 'ne'
                    return None
            a = self.rng(st, l); b = self.rng(st, r)
            if p in ('eq', 'ne'):
                if a[0] == a[1] == b[0] == b[1]:
                    return p == 'eq'
                if a[1] < b[0] or b[1] < a[0] or (b[0] == b[1] and b[0] in a[2]) or (a[0] == a[1] and a[0] in b[2]):
                    return p == 'ne'
                return None
            if p[0] == 'u':
                if p == 'ugt' and b == (0, 0, frozenset()):
                    if 0 in a[2] or a[0] > 0 or a[1] < 0:
                        return True
                    if a[0] == a[1] == 0:
                        return False
                    return None
                if a[1] < 0:
                    a = (a[0] + (1 << 64), a[1] + (1 << 64))
                if b[1] < 0:
                    b = (b[0] + (1 << 64), b[1] + (1 << 64))
                if a[0] < 0 or b[0] < 0:
                    return None
            q = p[1:]
            if q == 'lt':
                return True if a[1] < b[0] else False if a[0] >= b[1] else None
            if q == 'le':
                return True if a[1] <= b[0] else False if a[0] > b[1] else None
            if q == 'gt':
                return True if a[0] > b[1] else False if a[1] <= b[0] else None
            if q == 'ge':
                return True if a[0] >= b[1] else False if a[1] < b[0] else None
            return None
        if k == 'op':
            r = self.op_range(st, v)
            if r[0] == r[1] == 0:
                return False
            if r[0] > 0 or r[1] < 0 or 0 in r[2]:
                return True
        return None

    def assume(self, st, v, taken):
        """refine facts; False when infeasible"""
        t = self.truth(st, v)
        if t is not None:
            return t == taken
        k = v[0]
        if k == 's':
            return self._ref(st, v, 'ne' if taken else 'eq', ('k', 0))
        if k == 'not':
            return self.assume(st, v[1], not taken)
        if k == 'and':
            if taken:
                return self.assume(st, v[1], True) and self.assume(st, v[2], True)
            a = self.truth(st, v[1]); b = self.truth(st, v[2])
            if a:
                return self.assume(st, v[2], False)
            if b:
                return self.assume(st, v[1], False)
            return True
        if k == 'or':
            if not taken:
                return self.assume(st, v[1], False) and self.assume(st, v[2], False)
            a = self.truth(st, v[1]); b = self.truth(st, v[2])
            if a is False:
                return self.assume(st, v[2], True)
            if b is False:
                return self.assume(st, v[1], True)
            return True
        if k == 'cmp':
            p = v[1] if taken else NEG.get(v[1])
            if p is None:
                return True
            ok = True
            if v[2][0] in ('s', 'op', 'cmp', 'not', 'and', 'or'):
                ok = self._ref(st, v[2], p, v[3])
            if ok and v[3][0] in ('s', 'op'):
                ok = self._ref(st, v[3], SWAP[p], v[2])
            return ok
        if k == 'op':
            return self._ref(st, v, 'ne' if taken else 'eq', ('k', 0))
        return True

    def _ref(self, st, v, p, other):
        if v[0] in ('cmp', 'not', 'and', 'or'):
            if other == ('k', 0):
                if p == 'ne':
                    return self.assume(st, v, True)
                if p == 'eq':
                    return self.assume(st, v, False)
            return True
        if v[0] == 'op':
            if v[1] in ('sext', 'zext', 'trunc') and other[0] == 'k' and (p in ('eq', 'ne') or v[1] == 'sext'):
                if v[1] == 'trunc' and p == 'ne':
                    return True
                return self._ref(st, v[3], p, other) if v[3][0] in ('s', 'op', 'cmp', 'not', 'and', 'or') else True
            if v[1] == 'zext' and other[0] == 'k' and other[1] >= 0:
                return self._ref(st, v[3], 'u' + p[1:] if p not in ('eq', 'ne') else p, other) if v[3][0] in ('s', 'op') else True
            if v[1] == 'add' and other[0] == 'k' and len(v) == 4:
                lo, hi, _ = self.op_range(st, v)
                if lo >= 0 and hi < 1 << 32:        # nothing wraps
                    for a, c in ((v[2], v[3]), (v[3], v[2])):
                        if a[0] in ('s', 'op') and c[0] == 'k':
                            return self._ref(st, a, p, ('k', other[1] - c[1]))
            return True
        sid = v[1]
        lo, hi, ex = st.facts.get(sid, TOPR)
        b = self.rng(st, other)
        if p == 'eq':
            lo, hi = max(lo, b[0]), min(hi, b[1])
            if other[0] in ('p', 'f'):
                ex = ex | {0}
                lo, hi = st.facts.get(sid, TOPR)[:2]
        elif p == 'ne':
            if b[0] == b[1]:
                ex = ex | {b[0]} if len(ex) < 8 else ex
                if lo == b[0]:
                    lo += 1
                if hi == b[0]:
                    hi -= 1
        elif p == 'slt' or (p == 'ult' and lo >= 0):
            hi = min(hi, b[1] - 1)
        elif p == 'sle' or (p == 'ule' and lo >= 0):
            hi = min(hi, b[1])
        elif p == 'sgt' or (p == 'ugt' and lo >= 0):
            lo = max(lo, b[0] + 1)
        elif p == 'sge' or (p == 'uge' and lo >= 0):
            lo = max(lo, b[0])
        elif p == 'ult' and 0 < b[1] < (1 << 62):
            lo = max(lo, 0); hi = min(hi, b[1] - 1)
        elif p == 'ule' and 0 <= b[1] < (1 << 62):
            lo = max(lo, 0); hi = min(hi, b[1])
        elif p == 'ugt' and b[0] >= 0:
            ex = ex | {0}
            if lo == 0:
                lo = 1
        if lo > hi:
            return False
        if lo == hi and lo in ex:
            return False
        st.facts[sid] = (lo, hi, ex)
        return True

    # ------------------------------------------------------------ values
    def ev(self, st, v, fr):
        k = v[0]
        if k == 'i' or k == 'a':
            r = st.env.get(v)
            if r is None:
                r = ('s', (fr.ctx, v))
                st.env[v] = r
            return r
        if k == 'c':
            return ('k', v[1])
        if k == 'n':
            return ('k', 0)
        if k == 'f':
            return ('f', v[1])
        if k == 'g':
            return ('p', ('g', v[1]), 0)
        if k == 'z':
            return ('k', 0)
        if k == 'e':
            if v[1] == 'getelementptr':
                b = self.ev(st, v[2], fr)
                off = v[3].get('off') if isinstance(v[3], dict) and 'var' not in v[3] else None
                return self.padd(b, off)
            if v[1] in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast'):
                return self.ev(st, v[2], fr)
        if k == 'd':
            return ('fl', v[1])
        return ('s', (fr.ctx, 'c', hash(v) & 0xffffff))

    def padd(self, b, off):
        if b[0] == 'p':
            if off is None or b[2] is None:
                return ('p', b[1], None)
            if type(b[2]) is int and type(off) is int:
                return ('p', b[1], b[2] + off)
            if type(off) is int:
                return ('p', b[1], b[2])        # inside the same array
            if type(b[2]) is int:
                return ('p', b[1], ('r', off[1] + b[2], off[2] + b[2]))
            return ('p', b[1], None)
        if b[0] == 's':
            return ('p', ('d', b[1]), off)
        if b == ('k', 0):
            return ('p', ('d', 'null'), off)
        return ('p', ('d', ('x', hash(b) & 0xffffff)), off)

    def addr(self, st, b):
        """AV of a pointer -> (obj, off)"""
        if b[0] == 'p':
            return (b[1], b[2])
        if b[0] == 's':
            return (('d', b[1]), 0)
        return (('d', ('x', hash(b) & 0xffffff)), 0)

    def ptr_of(self, av):
        """normalise ('p',('d',sid),0) back to the symbol itself"""
        if av[0] == 'p' and av[1][0] == 'd' and av[2] == 0 and isinstance(av[1][1], tuple):
            return ('s', av[1][1])
        return av

    def load(self, st, addrv, inst, fr):
        obj, off = self.addr(st, addrv)
        if type(off) is not int:
            return ('s', self.C.new_sid((fr.ctx, ('i', inst.i)), addrv))
        c = st.mem.get((obj, off))
        if c is not None:
            return c
        if obj[0] == 'g':
            g = self.P.G.get(obj[1])
            if g is not None:
                if 'vt' in g:
                    d = dict(g['vt'])
                    if off in d:
                        return ('f', d[off])
                if g.get('const') and 'init' in g:
                    i = g['init']
                    if i[0] == 'c' and off == 0:
                        return ('k', i[1])
                    if i[0] == 'f' and off == 0:
                        return ('f', i[1])
        v = ('s', ('ld', obj, off))
        # bounded nesting of symbolic memory
        if self._depth(obj) > 6:
            v = ('s', self.C.new_sid((fr.ctx, ('i', inst.i)), addrv))
        st.mem[(obj, off)] = v
        return v

    def _depth(self, o):
        d = 0
        while isinstance(o, tuple) and o and o[0] == 'd' and isinstance(o[1], tuple) and len(o[1]) == 3 and o[1][0] == 'ld':
            o = o[1][1]; d += 1
        return d

    def store(self, st, addrv, val):
        obj, off = self.addr(st, addrv)
        if type(off) is not int:
            # somewhere inside the object (inside one array of it)
            for kk in [c for c in st.mem if c[0] == obj]:
                if off is not None and type(kk[1]) is int and not off[1] <= kk[1] < off[2]:
                    continue
                if not self.C_keep(st.mem[kk]):
                    del st.mem[kk]
            if self.C_keep(val):
                st.mem[(obj, None)] = val
            return
        st.mem[(obj, off)] = val

    def havoc_obj(self, st, obj, seen=None, keep=None, base=None):
        if seen is None:
            seen = set()
        if obj in seen:
            return
        seen.add(obj)
        if base is not None and type(base) is not int:
            base, end = base[1], base[2]
        else:
            end = self.extent(obj, base)
        for kk in [c for c in st.mem if c[0] == obj]:
            v = st.mem[kk]
            if base is not None and type(kk[1]) is int and (kk[1] < base or end is not None and kk[1] >= end):
                continue
            if keep and keep(kk, v, st):
                continue
            del st.mem[kk]
            if v[0] == 'p' and v[1][0] in ('al', 'hp'):
                self.havoc_obj(st, v[1], seen, keep)

    def extent(self, obj, off):
        """end of the data member of *this containing offset off (a pointer to a member reaches no further)"""
        c = getattr(self, 'this_cls', None) if obj == ('d', ('arg', 0)) else self.C.obj_class(obj)
        if off and c:
            m = self.P.member_at(c, off)
            if m and len(m) >= 4 and m[0] != '<base>':
                return m[1] + max(1, (m[2] + 7) // 8)
        return None

    # ------------------------------------------------------------ expression building
    def mk(self, st, fr, inst, *e):
        def dep(v):
            if isinstance(v, tuple) and v and v[0] in ('op', 'cmp', 'not', 'and', 'or'):
                return 1 + max([dep(y) for y in v[1:]] + [0])
            return 0
        if dep(tuple(e)) > self.C.depth:
            return self.fresh(st, fr, inst)
        return tuple(e)

    def fresh(self, st, fr, inst, tag=None):
        sid = (fr.ctx, ('i', inst.i)) if tag is None else (fr.ctx, ('i', inst.i), tag)
        self.rename_old(st, sid)
        return ('s', sid)

    def rename_old(self, st, sid):
        """the defining instruction executes again: older copies of the value become a different symbol"""
        v = ('s', sid)
        used = False
        old = ('s', ('old', sid))
        for k, x in list(st.env.items()):
            if x == v:
                st.env[k] = old; used = True
            elif x[0] in ('op', 'cmp', 'not', 'and', 'or') and self._mentions(x, sid):
                st.env[k] = ('s', ('old', k, sid)); st.facts.pop(('old', k, sid), None)
        for k, x in list(st.mem.items()):
            if x == v:
                st.mem[k] = old; used = True
            elif x[0] in ('op', 'cmp', 'not', 'and', 'or') and self._mentions(x, sid):
                del st.mem[k]
            if k[0] == ('d', sid):
                x = st.mem.pop(k, None)
                if x is not None and used:
                    st.mem[(('d', ('old', sid)), k[1])] = x
        f = st.facts.pop(sid, None)
        if used and f:
            st.facts[('old', sid)] = f
        # loads through the redefined symbol
        for k in [k for k in st.facts if k != sid and self._sid_mentions(k, sid)]:
            st.facts.pop(k, None)

    def _mentions(self, v, sid):
        if v == ('s', sid):
            return True
        if isinstance(v, tuple):
            return any(isinstance(y, tuple) and self._mentions(y, sid) for y in v)
        return False

    def _sid_mentions(self, k, sid):
        if isinstance(k, tuple) and k and k[0] == 'ld':
            o = k[1]
            return isinstance(o, tuple) and o[0] == 'd' and (o[1] == sid or self._sid_mentions(o[1], sid))
        return False

    # ------------------------------------------------------------ running
    class Frame:
        __slots__ = ('fn', 'ctx', 'depth', 'stack')

        def __init__(self, fn, ctx, depth, stack):
            self.fn, self.ctx, self.depth, self.stack = fn, ctx, depth, stack

    def run_root(self, fn, q=None, args=None, mem=None, facts=None):
        fr = self.Frame(fn, (fn.name,), 0, (fn.name,))
        env = {}
        self.this_cls = fn.cls
        for k in range(len(fn.args)):
            env[('a', k)] = (args or {}).get(k, ('s', ('arg', k)))
        st = State(self.C.init_q() if q is None else q, env, dict(mem or {}), dict(facts or {}))
        outs = self.run(fr, st)
        for kind, rv, s in outs:
            self.C.ret(self, s, fn, rv, kind, 0)
        return outs

    def key(self, st, fn, blk, pred):
        # constants arriving at the phis distinguish states (short-circuit conditions, status codes)
        ks = []
        for x in fn.blocks[blk]:
            if x.op != 'phi':
                break
            v = st.env.get(('i', x.i))
            if v is not None and v[0] == 'k':
                ks.append((x.i, v[1]))
            elif v is not None and v[0] in ('p',):
                ks.append((x.i, 'p'))
        if pred is not None and fn.blocks[pred] and fn.blocks[pred][-1].op == 'invoke':
            # so does the constant a call that may throw returned
            v = st.env.get(('i', fn.blocks[pred][-1].i))
            if v is not None and v[0] == 'k':
                ks.append(('call', v[1]))
        return (self.C.qkey(st.q), self.C.skey(st), tuple(ks))

    def join_av(self, a, b, st, fa, fb, sid):
        if a == b:
            return a
        A = State(None, {}, {}, fa); B = State(None, {}, {}, fb)
        ra = self.rng(A, a); rb = self.rng(B, b)
        ex = frozenset(x for x in (ra[2] | rb[2]) if (x in ra[2] or x < ra[0] or x > ra[1]) and (x in rb[2] or x < rb[0] or x > rb[1]))
        if (ra[0] > 0 or ra[1] < 0 or 0 in ra[2]) and (rb[0] > 0 or rb[1] < 0 or 0 in rb[2]):
            ex = ex | {0}
        r = (min(ra[0], rb[0]), max(ra[1], rb[1]), ex)
        v = ('s', sid)
        if r != TOPR:
            st.facts[sid] = r
        else:
            st.facts.pop(sid, None)
        return v

    def join(self, a, b, fr, blk, widen):
        """join b into a; returns (state, changed)"""
        fa, fb = a.facts, b.facts
        n = State(a.q, {}, {}, {}, a.trail)
        for sid, r in fa.items():
            r2 = fb.get(sid)
            if r2 is None:
                continue
            if r == r2:
                n.facts[sid] = r
            else:
                lo, hi = min(r[0], r2[0]), max(r[1], r2[1])
                if widen:
                    if lo < r[0]:
                        lo = wlo(lo)
                    if hi > r[1]:
                        hi = whi(hi)
                ex = r[2] & r2[2]
                for x in (r[2] | r2[2]):
                    if (x in r[2] or x < r[0] or x > r[1]) and (x in r2[2] or x < r2[0] or x > r2[1]):
                        ex = ex | {x}
                if (lo, hi, ex) != TOPR:
                    n.facts[sid] = (lo, hi, ex)
        for k, v in a.env.items():
            v2 = b.env.get(k)
            if v2 is None:
                continue
            if v == v2:
                n.env[k] = v
            elif v[:2] == ('op', 'tok') and v2[:2] == ('op', 'tok'):
                n.env[k] = self.join_tok(v, v2, n, fa, fb, ('j', fr.ctx, blk, k), widen)
            else:
                sid = self.C.new_sid(('j', fr.ctx, blk, k), v, v2)
                if v == ('s', sid) and widen:
                    n.env[k] = v
                    r2 = self.rng(State(None, {}, {}, fb), v2); r = fa.get(sid, TOPR)
                    lo = r[0] if r2[0] >= r[0] else wlo(r2[0])
                    hi = r[1] if r2[1] <= r[1] else whi(r2[1])
                    ex = frozenset(x for x in r[2] if x in r2[2] or x < r2[0] or x > r2[1])
                    if (lo, hi, ex) != TOPR:
                        n.facts[sid] = (lo, hi, ex)
                    else:
                        n.facts.pop(sid, None)
                else:
                    n.env[k] = self.join_av(v, v2, n, fa, fb, sid)
        for k, v in a.mem.items():
            v2 = b.mem.get(k)
            if v2 is None:
                if self.C_keep(v):
                    n.mem[k] = v
                continue
            if v == v2:
                n.mem[k] = v
            elif self.C_keep(v):
                n.mem[k] = v
            elif self.C_keep(v2):
                n.mem[k] = v2
            elif v[:2] == ('op', 'tok') and v2[:2] == ('op', 'tok'):
                n.mem[k] = self.join_tok(v, v2, n, fa, fb, ('j', fr.ctx, blk, k), widen)
            else:
                sid = self.C.new_sid(('j', fr.ctx, blk, k), v, v2)
                if v == ('s', sid) and widen:
                    n.mem[k] = v
                    r2 = self.rng(State(None, {}, {}, fb), v2); r = fa.get(sid, TOPR)
                    lo = r[0] if r2[0] >= r[0] else wlo(r2[0])
                    hi = r[1] if r2[1] <= r[1] else whi(r2[1])
                    ex = frozenset(x for x in r[2] if x in r2[2] or x < r2[0] or x > r2[1])
                    if (lo, hi, ex) != TOPR:
                        n.facts[sid] = (lo, hi, ex)
                    else:
                        n.facts.pop(sid, None)
                else:
                    n.mem[k] = self.join_av(v, v2, n, fa, fb, sid)
        for k, v2 in b.mem.items():
            if k not in a.mem and self.C_keep(v2):
                n.mem[k] = v2
        ch = n.env != a.env or n.mem != a.mem or n.facts != a.facts
        return n, ch

    def join_tok(self, v, v2, n, fa, fb, key, widen):
        """values made of two bit fields are joined field by field"""
        r = []
        for i in (2, 3):
            a, b = v[i], v2[i]
            if a == b:
                r.append(a); continue
            sid = self.C.new_sid(key + (i,), a, b)
            r.append(self.join_av(a, b, n, fa, fb, sid))
        return ('op', 'tok') + tuple(r)

    def C_keep(self, v):
        f = getattr(self.C, 'keep', None)
        return f(v) if f else False

    def run(self, fr, st0):
        fn = fr.fn
        self.visited_fns.add(fn.name)
        live = self.liveness(fn)
        inst_states = {}
        counts = collections.Counter()
        work = []
        outs = {}

        def add_out(kind, rv, s):
            c = None
            if rv is not None:
                t = rv
                if t[0] == 'k':
                    c = t
                elif t[0] in ('p', 'f'):
                    c = ('nn', t[1] if t[0] == 'p' and t[1][0] in ('res',) else None)
                else:
                    r = self.rng(s, rv)
                    c = 'nz' if (0 in r[2] or r[0] > 0 or r[1] < 0) else ('k', r[0]) if r[0] == r[1] else None
            k = (kind, self.C.qkey(s.q), self.C.skey(s), c)
            s.env = {}
            if k in outs:
                orv, os_ = outs[k]
                os_.env = {'r': orv} if orv is not None else {}
                s.env = {'r': rv} if rv is not None else {}
                n, ch = self.join(os_, s, fr, 'out', False)
                outs[k] = (n.env.get('r', orv if orv is None else ('s', (fr.ctx, 'ret'))), n)
                n.env = {}
            else:
                outs[k] = (rv, s)

        def push(blk, s, pred):
            self.C.edge(self, s, fn, pred, blk)
            # phis
            newv = {}
            for x in fn.blocks[blk]:
                if x.op != 'phi':
                    break
                for v, pb in x.d['phi']:
                    if pb == pred:
                        newv[('i', x.i)] = self.ev(s, v, fr)
                        break
            L = live[blk]
            s.env = {k: v for k, v in s.env.items() if k in L}
            s.env.update(newv)
            k = (blk, self.key(s, fn, blk, pred))
            if k in inst_states:
                counts[k] += 1
                n, ch = self.join(inst_states[k], s, fr, blk,
                                  counts[k] > (3 if not self.C.loop_ranges or blk in self._heads(fn) else 16))
                if counts[k] > 40 and ch:
                    n.facts = {f: r for f, r in n.facts.items() if inst_states[k].facts.get(f) == r}
                    if counts[k] > 80:
                        n.facts = {}
                        n.mem = {c: v for c, v in n.mem.items() if self.C_keep(v)}
                        ch = counts[k] < 90
                if ch:
                    inst_states[k] = n
                    if k not in work:
                        work.append(k)
            else:
                inst_states[k] = s
                work.append(k)

        s = st0
        # entry block may have no phis
        inst_states[(0, self.key(s, fn, 0, None))] = s
        work.append((0, self.key(s, fn, 0, None)))
        while work:
            k = work.pop(0)
            blk = k[0]
            states = [inst_states[k].copy()]
            for x in fn.blocks[blk]:
                if x.op == 'phi':
                    continue
                self.steps += len(states)
                if self.steps > self.budget:
                    raise Budget('%s: step budget exhausted in %s' % (self.C.name, fn.short))
                nxt = []
                for s in states:
                    nxt.extend(self.step(fr, s, x, push, add_out))
                states = nxt
                if not states:
                    break
                if len(states) > 1:
                    # merge identical automaton states early
                    by = {}
                    for s in states:
                        vv = s.env.get(('i', x.i))
                        kk = (self.C.qkey(s.q), self.C.skey(s), vv if vv is not None and vv[0] == 'k' else
                              ('p', vv[1]) if vv is not None and vv[0] == 'p' and vv[1][0] == 'res' else
                              'nz' if vv is not None and self.truth(s, vv) else None)
                        if kk in by:
                            by[kk] = self.join(by[kk], s, fr, ('m', x.i), False)[0]
                        else:
                            by[kk] = s
                    states = list(by.values())
        return [(k[0], rv, s) for k, (rv, s) in outs.items()]

    # ------------------------------------------------------------ one instruction
    def step(self, fr, st, x, push, add_out):
        op = x.op
        me = ('i', x.i)
        ev = lambda v: self.ev(st, v, fr)
        if op == 'alloca':
            obj = ('al', fr.ctx, x.i)
            for kk in [c for c in st.mem if c[0] == obj]:
                del st.mem[kk]
            st.env[me] = ('p', obj, 0)
            return [st]
        if op == 'load':
            a = ev(x.a[0])
            self.C.load(self, st, x, a, None)
            v = self.load(st, a, x, fr)
            st.env[me] = v
            return [st]
        if op == 'store':
            v = ev(x.a[0]); a = ev(x.a[1])
            self.C.store(self, st, x, a, v)
            self.store(st, a, v)
            return [st]
        if op == 'getelementptr':
            b = ev(x.a[0]); g = x.d['gep']
            off = g.get('off')
            if self.C.gep:
                v = self.C.gep(self, st, x, b, off, [(self.ev(st, v, fr), sc) for v, sc in g.get('var', ())])
                if v is not None:
                    st.env[me] = v
                    return [st]
            if 'var' in g:
                tot = off
                arr = [e for e in g.get('path', ()) if e[0] == 'x' and e[2][0] in ('i', 'a')]
                span = None
                if len(g['var']) == 1 and len(arr) == 1 and arr[0][1] > 0 and type(off) is int:
                    span = ('r', off, off + arr[0][1] * g['var'][0][1])
                for v, sc in g['var']:
                    vv = self.ev(st, v, fr)
                    if vv[0] == 'k' and tot is not None:
                        tot += vv[1] * sc
                    else:
                        tot = None
                off = tot if tot is not None else span
            st.env[me] = b if off == 0 and b[0] != 'k' else self.padd(b, off)
            return [st]
        if op == 'icmp':
            l, r = self.ptr_of(ev(x.a[0])), self.ptr_of(ev(x.a[1]))
            p = x.d['p']
            if x.d.get('ct') == 'i1' and r == ('k', 0) and p in ('ne', 'eq'):
                v = l if p == 'ne' else ('not', l)
            else:
                v = self.mk(st, fr, x, 'cmp', p, l, r)
            t = self.truth(st, v)
            st.env[me] = ('k', int(t)) if t is not None else v
            return [st]
        if op in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast', 'freeze'):
            st.env[me] = ev(x.a[0]); return [st]
        if op in ('zext', 'sext', 'trunc'):
            v = ev(x.a[0])
            if v[0] == 'k':
                c = v[1]
                if op == 'zext' and c < 0:
                    bits = int(x.d['ft'][1:]) if x.d['ft'][1:].isdigit() else 64
                    c &= (1 << bits) - 1
                elif op == 'sext' and x.d['ft'] == 'i1':
                    c = -c
                elif op == 'trunc' and x.t[1:].isdigit():
                    b = int(x.t[1:]); c &= (1 << b) - 1
                    if b > 1 and c >= (1 << (b - 1)):
                        c -= 1 << b
                st.env[me] = ('k', c)
            elif v[0] in ('cmp', 'not', 'and', 'or') and op in ('zext', 'trunc'):
                st.env[me] = v
            elif op == 'trunc' and x.t == 'i1':
                st.env[me] = self.mk(st, fr, x, 'cmp', 'ne', v, ('k', 0)) if v[0] in ('s', 'op') else v
            else:
                bits = int(x.t[1:]) if x.t and x.t[1:].isdigit() else 64
                fb = int(x.d['ft'][1:]) if x.d['ft'][1:].isdigit() else 64
                st.env[me] = self.mk(st, fr, x, 'op', op, fb if op != 'trunc' else bits, v)
            return [st]
        if op == 'xor' and x.t == 'i1' and ev(x.a[1]) == ('k', 1):
            v = ev(x.a[0])
            st.env[me] = ('k', 1 - v[1]) if v[0] == 'k' else v[1] if v[0] == 'not' else ('not', v)
            return [st]
        if op in ('and', 'or') and x.t == 'i1':
            st.env[me] = self.mk(st, fr, x, op, ev(x.a[0]), ev(x.a[1])); return [st]
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'sdiv', 'udiv', 'srem', 'urem'):
            l, r = ev(x.a[0]), ev(x.a[1])
            if self.C.arith:
                v = self.C.arith(self, st, op, l, r)
                if v is not None:
                    st.env[me] = v; return [st]
            if l[0] == 'k' and r[0] == 'k':
                a, b = l[1], r[1]
                try:
                    c = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: a & b,
                         'or': lambda: a | b, 'xor': lambda: a ^ b, 'shl': lambda: a << b, 'sdiv': lambda: int(a / b),
                         'srem': lambda: a - b * int(a / b), 'udiv': lambda: a // b, 'urem': lambda: a % b,
                         'lshr': lambda: a >> b, 'ashr': lambda: a >> b}[op]()
                    if abs(c) < (1 << 63) and not self._in_loop(fr.fn, x):
                        st.env[me] = ('k', c); return [st]
                except Exception:
                    pass
            if not self._in_loop(fr.fn, x):
                st.env[me] = self.mk(st, fr, x, 'op', op, l, r)
            else:
                g = self.op_range(st, ('op', op, l, r)) if self.C.loop_ranges else TOPR
                v = st.env[me] = self.fresh(st, fr, x)
                if g != TOPR:
                    st.facts[v[1]] = g
            return [st]
        if op == 'select':
            c = ev(x.a[0]); t = self.truth(st, c)
            if t is not None:
                st.env[me] = ev(x.a[1] if t else x.a[2]); return [st]
            a, b = ev(x.a[1]), ev(x.a[2])
            if a == b:
                st.env[me] = a; return [st]
            s2 = st.copy()
            r = []
            if self.assume(st, c, True):
                self.C.picked(self, st, x, c, True)
                st.env[me] = a; r.append(st)
            if self.assume(s2, c, False):
                self.C.picked(self, s2, x, c, False)
                s2.env[me] = b; r.append(s2)
            return r
        if op == 'br':
            ss = x.d['s']
            if not x.a:
                push(ss[0], st, x.blk); return []
            c = ev(x.a[0])
            self.last_cond = c
            for taken, tgt in ((True, ss[0]), (False, ss[1])):
                t = self.truth(st, c)
                if t is not None and t != taken:
                    continue
                s2 = st.copy()
                if not self.assume(s2, c, taken):
                    continue
                self.C.branch(self, s2, x, c, taken)
                push(tgt, s2, x.blk)
            return []
        if op == 'switch':
            c = self.ptr_of(ev(x.a[0]))
            s3 = st.copy(); deff = True
            for cv, tgt in x.d['cases']:
                s2 = st.copy()
                cond = ('cmp', 'eq', c, ('k', cv))
                if self.assume(s2, cond, True):
                    self.C.branch(self, s2, x, cond, True)
                    push(tgt, s2, x.blk)
                if deff and not self.assume(s3, cond, False):
                    deff = False
            if deff:
                self.C.branch(self, s3, x, ('switchdef', c), True)
                push(x.d['def'], s3, x.blk)
            return []
        if op == 'ret':
            add_out('ret', ev(x.a[0]) if x.a else None, st)
            return []
        if op == 'landingpad':
            v = st.mem.get(EXC)
            st.env[me] = ('exc', v[1]) if v is not None and v[0] == 'f' else self.fresh(st, fr, x)
            return [st]
        if op == 'insertvalue' and x.t != '{ ptr, i32 }' and len(x.d.get('idx', ())) == 1 and x.d['idx'][0] < 4:
            v = ev(x.a[0]); i = x.d['idx'][0]
            l = list(v[1]) if v[0] == 'agg' else []
            while len(l) <= i:
                l.append(('u',))
            l[i] = ev(x.a[1])
            st.env[me] = ('agg', tuple(l))
            return [st]
        if op == 'extractvalue':
            v = ev(x.a[0])
            ix = tuple(x.d.get('idx', ()))
            if v[0] == 'agg' and len(ix) == 1 and ix[0] < len(v[1]):
                st.env[me] = v[1][ix[0]]
                return [st]
            st.env[me] = v if v[0] == 'exc' and tuple(x.d.get('idx', ())) == (1,) else self.fresh(st, fr, x)
            return [st]
        if op == 'resume':
            add_out('throw', None, st)
            return []
        if op == 'unreachable':
            return []
        if op in ('call', 'invoke'):
            res = self.do_call(fr, st, x)
            out = []
            for kind, rv, s in res:
                if kind == 'ret':
                    if x.t is not None:
                        if rv is None:
                            rv = self.fresh(s, fr, x)
                        s.env[me] = rv
                    if op == 'invoke':
                        push(x.d['to'], s, x.blk)
                    else:
                        out.append(s)
                elif kind == 'throw':
                    if op == 'invoke':
                        push(x.d['uw'], s, x.blk)
                    else:
                        add_out('throw', None, s)
            return out
        if x.t is not None:
            st.env[me] = self.fresh(st, fr, x)
        return [st]

    def _heads(self, fn):
        """blocks that are entered by a back edge (of a depth first walk)"""
        h = getattr(fn, '_heads', None)
        if h is None:
            h = set(); col = {}
            stk = [(0, iter(fn.succ[0]))]; col[0] = 1
            while stk:
                b, it = stk[-1]
                y = next(it, None)
                if y is None:
                    col[b] = 2; stk.pop()
                elif col.get(y) == 1:
                    h.add(y)
                elif y not in col:
                    col[y] = 1; stk.append((y, iter(fn.succ[y])))
            fn._heads = h
        return h

    def _in_loop(self, fn, x):
        if not hasattr(fn, '_loopblk'):
            # blocks on a cycle
            n = len(fn.blocks); reach = []
            import itertools
            lb = set()
            # Tarjan-free: reachability per block (functions are small)
            for b in range(n):
                seen = set(); stk = list(fn.succ[b])
                while stk:
                    y = stk.pop()
                    if y == b:
                        lb.add(b); break
                    if y in seen:
                        continue
                    seen.add(y); stk.extend(fn.succ[y])
            fn._loopblk = lb
        return x.blk in fn._loopblk

    def may_write_args(self, f):
        """repo callee (transitively) contains stores/calls that may write caller memory"""
        if self._writes is None:
            self._writes = {}
        r = self._writes.get(f.name)
        if r is not None:
            return r
        self._writes[f.name] = True  # recursion: assume
        w = False
        for y in f.all():
            if y.op == 'store':
                p = y.a[1]
                while p[0] == 'i' and f.insts[p[1]].op in ('getelementptr', 'bitcast'):
                    p = f.insts[p[1]].a[0]
                if not (p[0] == 'i' and f.insts[p[1]].op == 'alloca'):
                    w = True; break
            elif y.is_call:
                for c in self.P.callees(y) or ['?']:
                    g = self.P.F.get(c)
                    if g is None:
                        w = True; break
                    if PURE.match(g.short) or g.const_method:
                        continue
                    if g.blocks:
                        if self.may_write_args(g):
                            w = True; break
                    else:
                        w = True; break
                if w:
                    break
        self._writes[f.name] = w
        return w

    def do_call(self, fr, st, x):
        fnv = x.d['fn']
        args = [self.ev(st, a, fr) for a in x.a]
        targets = None
        if fnv[0] in ('i', 'a', 'e'):
            fv = self.ev(st, fnv, fr)
            if fv[0] == 'f':
                targets = [fv[1]]
            elif fv[0] == 's' and isinstance(fv[1], tuple) and fv[1][0] == 'ld' and fv[1][1] == ('g', 'xmlFree'):
                targets = ['xmlFree']
        if targets is None:
            if fnv[0] == 'i':
                ld = fr.fn.insts[fnv[1]]
                if ld.op == 'load' and ld.a[0] == ('g', 'xmlFree'):
                    targets = ['xmlFree']
            if targets is None:
                targets = self.P.callees(x)
        self.call_sites += 1
        outs = []
        tl = [t for t in targets if t != '__cxa_pure_virtual']
        if not tl:
            r = self.C.call(self, st, x, None, '?indirect', args)
            if r is not None:
                return r
            self.havoc_args(st, args, None)
            return [('ret', None, st)]
        for n, t in enumerate(tl):
            s = st if n == len(tl) - 1 else st.copy()
            outs.extend(self.call_one(fr, s, x, t, args))
        return outs

    def call_one(self, fr, st, x, name, args):
        f = self.P.F.get(name)
        short = f.short if f else name
        if short.startswith('llvm.'):
            return self.intrinsic(fr, st, x, short, args)
        r = self.C.call(self, st, x, f, short, args)
        if r is not None:
            return r
        if f is None:
            self.havoc_args(st, args, short)
            return [('ret', None, st)]
        inl = f.blocks and (f.repo or smart(f, short))
        if inl and (fr.stack.count(f.name) >= 1 or len(fr.stack) > self.maxdepth):
            if f.repo:
                self.havoc_deep.add(f.short)
            inl = False
        if inl and f.repo and not self.C.relevant(self, f) and not self.small(f):
            inl = False
        if inl:
            nf = self.Frame(f, fr.ctx + (x.i, f.name), fr.depth + 1, fr.stack + (f.name,))
            saved = st.env
            s = State(st.q, {('a', k): v for k, v in enumerate(args)}, st.mem, st.facts, st.trail)
            self.saved_envs.append(saved)
            outs = self.run(nf, s)
            self.saved_envs.pop()
            res = []
            for kind, rv, so in outs:
                so.env = dict(saved)
                # drop cells of the callee's stack slots
                pre = nf.ctx
                for kk in [c for c in so.mem if c[0][0] == 'al' and c[0][1][:len(pre)] == pre]:
                    if not self.C_keep(so.mem[kk]) or True:
                        del so.mem[kk]
                so.facts = self.prune(so, rv)
                self.C.after_call(self, so, x, f, short, args, rv)
                res.append((kind, rv, so))
            return res
        # opaque callee
        if f.noreturn or x.d.get('nr'):
            if short in ('__cxa_throw', '__cxa_rethrow') or short.startswith('std::__throw'):
                if short == '__cxa_throw' and args[1][0] == 'p' and args[1][1][0] == 'g':
                    st.mem[EXC] = ('f', args[1][1][1])
                elif short != '__cxa_rethrow':
                    st.mem[EXC] = ('f', '_ZTISt9exception')
                if short == '__cxa_throw' and args[0][0] == 'p':
                    st.mem[EXCO] = args[0]
                elif short != '__cxa_rethrow':
                    st.mem.pop(EXCO, None)
                return [('throw', None, st)]
            return [('stop', None, st)]
        res = []
        # callbacks through library code
        # (making, copying or destroying a std::function does not call what it holds)
        if not f.repo and not f.decl and not (short.startswith('std::function::') and short.split('::')[-1] != 'operator()'):
            lc = self.P.lib_closure(name)
            rel = [self.P.F[c] for c in lc if self.P.F[c].name not in fr.stack and self.C.relevant(self, self.P.F[c])
                   and getattr(self.C, 'callbacks', True)]
            if rel and len(fr.stack) <= self.maxdepth:
                for g in rel:
                    s2 = st.copy()
                    nf = self.Frame(g, fr.ctx + (x.i, g.name), fr.depth + 1, fr.stack + (g.name,))
                    ar = {}
                    # a forwarded receiver/argument list keeps its position when the arity matches
                    for k in range(len(g.args)):
                        ar[('a', k)] = ('s', (nf.ctx, 'cb', k))
                    off = len(g.args) - len(args)
                    s3 = State(s2.q, ar, s2.mem, s2.facts, s2.trail)
                    saved = s2.env
                    self.saved_envs.append(saved)
                    cbouts = self.run(nf, s3)
                    self.saved_envs.pop()
                    for kind, rv, so in cbouts:
                        so.env = dict(saved)
                        so.facts = self.prune(so, rv)
                        res.append((kind, None if g.short.split('::')[-1].startswith('~') else (rv if kind == 'ret' and g.ret == (f.ret or '') else None), so))
        if f.repo and f.blocks:
            for t in sorted(self.P.throws(f.name)):
                s2 = st.copy()
                if not (is_lib_const(f) or not self.may_write_args(f)):
                    self.havoc_args(s2, args, short)
                s2.mem[EXC] = ('f', t)
                s2.mem.pop(EXCO, None)
                res.append(('throw', None, s2))
        if self.C.lib_throws(f, short):
            s2 = st.copy()
            s2.mem[EXC] = ('f', '_ZTISt9exception')
            s2.mem.pop(EXCO, None)
            res.append(('throw', None, s2))
        if not (PURE.match(short) or is_lib_const(f) or (f.repo and not self.may_write_args(f))):
            self.havoc_args(st, args, short)
        if short == '__cxa_begin_catch' and EXCO in st.mem:
            return [('ret', st.mem.pop(EXCO), st)]
        if short in ('operator new', 'operator new[]', 'malloc', 'calloc', '__cxa_allocate_exception'):
            obj = ('hp', fr.ctx, x.i)
            for kk in [c for c in st.mem if c[0] == obj]:
                del st.mem[kk]
            if short in ('malloc', 'calloc'):
                s2 = st.copy()
                res.append(('ret', ('k', 0), s2))
            res.append(('ret', ('p', obj, 0), st))
            return res
        if short == '__dynamic_cast':
            v = self.fresh(st, fr, x)
            t = self.truth(st, self.ptr_of(args[0]))
            s2 = st.copy()
            res.append(('ret', ('k', 0), s2))
            res.append(('ret', args[0], st))
            return res
        if short == 'std::function::function' or short.endswith('::operator=') and f and not f.repo:
            rv = args[0] if x.t is not None and x.t == 'ptr' else None
            res.append(('ret', rv, st))
            return res
        res.append(('ret', None, st))
        return res

    def small(self, f):
        n = sum(len(b) for b in f.blocks)
        return n <= 40

    def prune(self, st, rv):
        used = set()

        def add(v):
            if isinstance(v, tuple):
                if len(v) == 2 and v[0] == 's':
                    used.add(v[1])
                else:
                    for y in v:
                        if isinstance(y, tuple):
                            add(y)
        # only facts on symbols created by returned frames can be dropped; keep the others
        return st.facts

    def havoc_args(self, st, args, short):
        keep = getattr(self.C, 'keep_cell', None)
        for a in args:
            if a[0] == 'p' and a[1][0] in ('al', 'hp', 'd', 'g'):
                if a[1][0] == 'g' and a[1][1].startswith('.str'):
                    continue
                self.havoc_obj(st, a[1], None, keep, a[2])
            elif a[0] == 's':
                self.havoc_obj(st, ('d', a[1]), None, keep)

    def _hit(self, off, doff, n):
        """may a write of n bytes at doff touch the cell at off?  (objects are not written below the pointer)"""
        if doff is None or type(off) is not int:
            return True
        if type(doff) is not int:
            return doff[1] <= off < doff[2]
        if off < doff:
            return False
        return n[0] != 'k' or off < doff + n[1]

    def intrinsic(self, fr, st, x, short, args):
        if short.startswith('llvm.memcpy') or short.startswith('llvm.memmove'):
            d, s, n = args[0], args[1], args[2]
            if self.C.copy and self.C.copy(self, st, x, d, s, n):
                return [('ret', None, st)]
            do, doff = self.addr(st, d); so, soff = self.addr(st, s)
            cells = {k[1]: v for k, v in st.mem.items() if k[0] == so and type(k[1]) is int}
            end = self.extent(do, doff) if n[0] != 'k' and type(doff) is int else None
            for kk in [c for c in st.mem if c[0] == do and self._hit(c[1], doff, n)]:
                if end is not None and type(kk[1]) is int and kk[1] >= end:
                    continue
                if n[0] == 'k' or not self.C_keep(st.mem[kk]):
                    del st.mem[kk]
            if n[0] == 'k' and type(doff) is int and type(soff) is int:
                for o, v in cells.items():
                    if soff <= o < soff + n[1]:
                        st.mem[(do, doff + o - soff)] = v
            self.C.store(self, st, x, d, None)
            return [('ret', None, st)]
        if short.startswith('llvm.memset'):
            d, v, n = args[0], args[1], args[2]
            do, doff = self.addr(st, d)
            for kk in [c for c in st.mem if c[0] == do and self._hit(c[1], doff, n)]:
                del st.mem[kk]
            if n[0] == 'k' and v == ('k', 0) and type(doff) is int and n[1] <= 512:
                for o in range(0, n[1], 4):
                    st.mem[(do, doff + o)] = ('k', 0)
            self.C.store(self, st, x, d, None)
            return [('ret', None, st)]
        if short.startswith('llvm.expect'):
            return [('ret', args[0], st)]
        if short.startswith('llvm.eh.typeid'):
            if args[0][0] == 'p' and args[0][1][0] == 'g':
                return [('ret', ('ti', args[0][1][1]), st)]
            return [('ret', None, st)]
        if short.startswith('llvm.trap'):
            return [('stop', None, st)]
        if short.endswith('type.test'):
            return [('ret', ('k', 1), st)]
        return [('ret', None, st)]
