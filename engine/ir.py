"""In-memory model of the resolved program dumped by mwsir: functions, CFGs, call graph."""
import json, re, collections, os, sys

sys.setrecursionlimit(20000)


class FD(dict):
    """hashable dict"""
    def __hash__(self):
        return hash(tuple(sorted((k, v) for k, v in self.items() if not isinstance(v, dict))))


def tup(x):
    if isinstance(x, list):
        return tuple(tup(y) for y in x)
    if isinstance(x, dict):
        return FD((k, tup(v)) for k, v in x.items())
    return x


class Inst:
    __slots__ = ('fn', 'blk', 'pos', 'i', 'op', 't', 'l', 'lf', 'n', 'a', 'd', 'target')

    def __init__(self, fn, blk, pos, d):
        self.fn, self.blk, self.pos = fn, blk, pos
        self.i = d['i']; self.op = d['op']; self.t = d.get('t'); self.l = d.get('l', 0)
        self.lf = d.get('lf'); self.n = d.get('n'); self.a = tup(d.get('a', []))
        self.d = {k: tup(v) for k, v in d.items() if k not in ('i', 'op', 't', 'l', 'lf', 'n', 'a')}

    @property
    def is_call(self):
        return self.op in ('call', 'invoke')

    def loc(self):
        f = self.lf or self.fn.file
        return '%s:%d' % (self.fn.prog.rel(f), self.l or self.fn.line)

    def __repr__(self):
        return '<%s %%%d %s @%s>' % (self.fn.short, self.i, self.op, self.loc())


def strip_templates(s):
    out = []; depth = 0; i = 0
    while i < len(s):
        c = s[i]
        if s.startswith('operator', i) and (i == 0 or not (s[i-1].isalnum() or s[i-1] == '_')):
            m = re.match(r'operator(<<=|>>=|<=>|<<|>>|<=|>=|->\*|->|<|>|\(\)|\[\])', s[i:])
            if m:
                if depth == 0:
                    out.append(m.group(0))
                i += len(m.group(0)); continue
        if c == '<':
            depth += 1
        elif c == '>':
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    return ''.join(out)


def qualname(dem):
    """demangled -> qualified name without parameters, template arguments, return type."""
    s = dem
    s = re.sub(r'\[abi:[^\]]*\]', '', s)
    s = s.replace('(anonymous namespace)', '{anon}')
    s = strip_templates(s)
    # lambdas: foo(...)::{lambda(...)#1}::operator()(...)
    s = re.sub(r'\{lambda\([^{}]*\)#(\d+)\}', r'{lambda#\1}', s)
    # drop parameter lists
    s = s.replace('operator()', 'operator@@')
    out = []; depth = 0
    for c in s:
        if c == '(':
            depth += 1
        elif c == ')':
            depth -= 1
        elif depth == 0:
            out.append(c)
    s = ''.join(out).replace('operator@@', 'operator()')
    s = re.sub(r'\b(const|volatile)\b', '', s).strip()
    s = re.sub(r'\s*(&&|&)$', '', s)
    # return type of templates
    if ' ' in s and 'operator' not in s:
        s = s.split(' ')[-1]
    elif ' ' in s:
        k = s.index('operator')
        j = s.rfind(' ', 0, k)
        s = s[j + 1:].strip()
    s = s.replace('std::__cxx11::', 'std::')
    return s.strip()


class Fn:
    def __init__(self, prog, d):
        self.prog = prog
        self.name = d['name']; self.dem = d['dem']; self.short = qualname(d['dem'])
        if self.name.startswith('main.'):
            self.short = self.name
        self.decl = d['decl']; self.repo = d.get('repo', False)
        self.args = d.get('args', []); self.ret = d.get('ret'); self.variadic = d.get('variadic')
        self.noreturn = d.get('noreturn', False); self.nounwind = d.get('nounwind', False)
        self.file = d.get('file', ''); self.line = d.get('line', 0); self.cls = d.get('cls')
        self.uses_names = d.get('uses', []); self.ind = d.get('ind', False)
        self.ditypes = d.get('ditypes', [])
        self.internal = d.get('internal', False)
        self.blocks = []
        self.insts = {}
        if 'blocks' in d:
            for bi, b in enumerate(d['blocks']):
                L = [Inst(self, bi, k, x) for k, x in enumerate(b)]
                self.blocks.append(L)
                for x in L:
                    self.insts[x.i] = x
            self.succ = [self._succ(b[-1]) for b in self.blocks]
            self.pred = [[] for _ in self.blocks]
            for bi, ss in enumerate(self.succ):
                for s in ss:
                    self.pred[s].append(bi)
        self._uses = None
        self._dom = None

    def _succ(self, t):
        if t.op == 'br':
            return list(t.d['s'])
        if t.op == 'switch':
            r = [t.d['def']]
            for c in t.d['cases']:
                if c[1] not in r:
                    r.append(c[1])
            return r
        if t.op == 'invoke':
            return [t.d['to'], t.d['uw']]
        return []

    @property
    def const_method(self):
        return bool(re.match(r'_ZN[VRO]*K', self.name))

    def all(self):
        for b in self.blocks:
            for x in b:
                yield x

    def calls(self):
        for x in self.all():
            if x.is_call:
                yield x

    def uses(self, v):
        """instructions using SSA value v (('i',n) or ('a',k))"""
        if self._uses is None:
            u = collections.defaultdict(list)
            for x in self.all():
                for o in operands(x):
                    u[o].append(x)
            self._uses = u
        return self._uses.get(v, [])

    def __repr__(self):
        return '<Fn %s>' % self.short


def vals_in(v):
    """SSA leaves inside an operand tuple."""
    if not isinstance(v, tuple) or not v:
        return
    if v[0] in ('i', 'a') and len(v) == 2:
        yield v
        return
    if v[0] == 'e':
        for x in v[2:]:
            if isinstance(x, tuple):
                yield from vals_in(x)


def operands(x):
    out = []
    for o in x.a:
        out.append(o)
    if x.op == 'phi':
        for v, b in x.d['phi']:
            out.append(v)
    if x.is_call:
        out.append(x.d['fn'])
    g = x.d.get('gep')
    if g and 'var' in g:
        for v, s in g['var']:
            out.append(v)
    return out


class Prog:
    def __init__(self, path, root):
        d = json.load(open(path))
        self.root = root
        self.F = {}
        for f in d['functions']:
            self.F[f['name']] = Fn(self, f)
        self.G = {g['name']: {k: tup(v) for k, v in g.items()} for g in d['globals']}
        self.structs = d['structs']; self.ditypes = d['ditypes']
        self._by_short = collections.defaultdict(list)
        for f in self.F.values():
            self._by_short[f.short].append(f)
        self._vt = collections.defaultdict(list)   # (typeid, off) -> functions
        for g in self.G.values():
            if 'types' in g and 'vt' in g:
                vt = dict(g['vt'])
                for off, tid in g['types']:
                    for o, fn in vt.items():
                        if o >= off:
                            self._vt[(tid, o - off)].append(fn)
        self._cg = None
        self._libclose = {}
        self._addr_taken()

    def rel(self, f):
        return f[len(self.root) + 1:] if f.startswith(self.root + '/') else f

    def repo_fns(self):
        return [f for f in self.F.values() if f.repo and not f.decl]

    def fns(self, short):
        return self._by_short.get(short, [])

    def fn(self, short):
        L = [f for f in self.fns(short) if not f.decl]
        return L[0] if L else None

    # ---- indirect targets
    def _addr_taken(self):
        self.addr_taken = collections.defaultdict(list)  # fn -> [Inst or global name]
        self.gfuncs = {}

        def funcs_in(v):
            if isinstance(v, tuple):
                if len(v) == 2 and v[0] == 'f' and isinstance(v[1], str):
                    yield v[1]
                else:
                    for x in v:
                        if isinstance(x, tuple):
                            yield from funcs_in(x)
        for g in self.G.values():
            s = set(funcs_in(g.get('init', ()))) if 'vt' not in g else set()
            self.gfuncs[g['name']] = s
            for f in s:
                self.addr_taken[f].append(g['name'])
        for f in self.F.values():
            for x in f.all():
                ops = list(x.a)
                if x.op == 'phi':
                    ops += [v for v, b in x.d['phi']]
                for o in ops:
                    for n in funcs_in(o):
                        self.addr_taken[n].append(x)

    def std_function_targets(self, sig):
        return [f.name for f in self.F.values()
                if f.dem.startswith('std::_Function_handler<' + sig + ',') and f.short.endswith('::_M_invoke')]

    def callees(self, x):
        """set of function names that call instruction x may enter"""
        fnv = x.d['fn']
        if fnv[0] == 'f':
            n = fnv[1]
            f = self.F[n]
            m = re.match(r'std::function<(.*)>::operator\(\)\(', f.dem)
            if m:
                return self.std_function_targets(m.group(1))
            return [n]
        if fnv[0] == 'i':
            ld = x.fn.insts[fnv[1]]
            r = self._virtual(x.fn, ld)
            if r is not None:
                return r
            # plain function pointer: every address-taken function with the same signature shape
            nargs = len(x.a)
            return [n for n in self.addr_taken if n in self.F and len(self.F[n].args) == nargs
                    and self.F[n].ret == (x.t or 'void') and self.F[n].repo]
        if fnv[0] == 'a':
            nargs = len(x.a)
            return [n for n in self.addr_taken if n in self.F and len(self.F[n].args) == nargs
                    and self.F[n].ret == (x.t or 'void') and self.F[n].repo]
        return []

    def virtual_slot(self, f, ld):
        """(typeid, byte offset) when ld is a vtable slot load"""
        if ld.op != 'load':
            return None
        p = ld.a[0]
        off = 0
        if p[0] != 'i':
            return None
        pi = f.insts[p[1]]
        if pi.op == 'getelementptr' and pi.d['gep'].get('off') is not None and 'var' not in pi.d['gep']:
            off = pi.d['gep']['off']; p = pi.a[0]
            if p[0] != 'i':
                return None
            pi = f.insts[p[1]]
        for u in f.uses(p):
            if u.is_call and u.d['fn'][0] == 'f' and u.d['fn'][1].endswith('.type.test'):
                md = u.a[1]
                if md[0] == 'md' and len(md) > 1:
                    return (md[1], off)
        return None

    def _virtual(self, f, ld):
        s = self.virtual_slot(f, ld)
        if s is None:
            return None
        return sorted(set(self._vt.get(s, [])))

    def lib_closure(self, name):
        """repo functions a library function may call back (through library code only)"""
        if name in self._libclose:
            return self._libclose[name]
        seen = {name}; st = [name]; out = set()
        while st:
            n = st.pop()
            f = self.F.get(n)
            if f is None:
                continue
            for u in f.uses_names:
                g = self.F.get(u)
                if g is None:
                    continue
                if g.repo and not g.decl:
                    out.add(u)
                elif u not in seen:
                    seen.add(u); st.append(u)
        self._libclose[name] = out
        return out

    LIBTHROW = re.compile(r'std::(sto[a-z]+|.*::at)$')

    @staticmethod
    def derives(t, x):
        """does a handler for x catch a thrown t?  None: unknown"""
        if t == x:
            return True
        if x == '_ZTISt9exception':
            return True if t.startswith('_ZTISt') or t.startswith('_ZTINSt') else None
        if t == '_ZTISt9exception':
            return None
        lg = ('_ZTISt16invalid_argument', '_ZTISt12out_of_range', '_ZTISt12length_error', '_ZTISt12domain_error')
        rt = ('_ZTISt11range_error', '_ZTISt14overflow_error', '_ZTISt15underflow_error')
        if x == '_ZTISt11logic_error':
            return t in lg or (None if not t.startswith('_ZTISt') else False)
        if x == '_ZTISt13runtime_error':
            return t in rt or (None if not t.startswith('_ZTISt') else False)
        if t.startswith('_ZTISt') and x.startswith('_ZTI'):
            return False
        return None

    def site_throws(self, x):
        """types a call may throw (before the handlers of its own function)"""
        T = set()
        fv = x.d['fn']
        short = self.F[fv[1]].short if fv[0] == 'f' else ''
        if short == '__cxa_throw':
            t = x.a[1]
            return {t[1] if t[0] == 'g' else '_ZTISt9exception'}
        if short == '__cxa_rethrow' or self.LIBTHROW.match(short):
            return {'_ZTISt9exception'}
        for c in self.callees(x):
            g = self.F.get(c)
            if g is None:
                continue
            if g.repo and g.blocks:
                T |= self._thr.get(c, set())
            elif not g.repo and not g.nounwind and '__cxa_' not in g.short:
                for r in self.lib_closure(c):
                    T |= self._thr.get(r, set())
        return T

    def throws(self, name=None):
        """exception types that may leave a repo function (thrown in the repository or by number parsing / checked access)"""
        if not hasattr(self, '_thr'):
            self._thr = {}
            ch = True
            while ch:
                ch = False
                for f in self.repo_fns():
                    T = set()
                    for x in f.calls():
                        S = self.site_throws(x)
                        if S and x.op == 'invoke':
                            lp = [y for y in f.blocks[x.d['uw']] if y.op == 'landingpad']
                            cl = lp[0].d.get('clauses', ()) if lp else ()
                            S = {t for t in S if not any(c[0] in ('n', 'z', 'k') or c == ('c', 0) or c[0] == 'g' and self.derives(t, c[1]) for c in cl)}
                        T |= S
                    if T != self._thr.get(f.name, set()):
                        self._thr[f.name] = T; ch = True
        return self._thr.get(name, set()) if name is not None else self._thr

    def cg(self):
        """call graph over repo functions: name -> set(names), including callbacks through library code,
        functions whose address is taken inside the function (registered callbacks), and tables they reference"""
        if self._cg is None:
            cg = {}
            for f in self.repo_fns():
                s = set()
                for x in f.all():
                    if x.is_call:
                        for c in self.callees(x):
                            g = self.F.get(c)
                            if g and g.repo and not g.decl:
                                s.add(c)
                            else:
                                s |= self.lib_closure(c)
                    for o in operands(x):
                        if o[0] == 'f':
                            g = self.F[o[1]]
                            if g.repo and not g.decl:
                                s.add(o[1])
                            elif not g.decl:
                                s |= self.lib_closure(o[1])
                        elif o[0] == 'g':
                            for n in self.gfuncs.get(o[1], ()):
                                g = self.F[n]
                                if g.repo and not g.decl:
                                    s.add(n)
                cg[f.name] = s
            self._cg = cg
        return self._cg

    def reach(self, names):
        seen = set(names); st = list(names); cg = self.cg()
        while st:
            for m in cg.get(st.pop(), ()):
                if m not in seen:
                    seen.add(m); st.append(m)
        return seen

    def callers(self, name):
        if not hasattr(self, '_callers'):
            self._callers = collections.defaultdict(list)
            for f in self.repo_fns():
                for x in f.calls():
                    for c in self.callees(x):
                        self._callers[c].append(x)
                        g = self.F.get(c)
                        if g and not g.repo:
                            for r in self.lib_closure(c):
                                self._callers[r].append(x)
        return self._callers.get(name, [])

    # ---- layout helpers
    def struct_cls(self, sty):
        """%class.mws::query::X.12 -> mws::query::X"""
        s = re.sub(r'^%(class|struct|union)\.', '', sty)
        return re.sub(r'\.\d+$', '', s).replace('.base', '')

    def field(self, f, p):
        """address operand -> (class, member name) of the innermost field it designates, or None"""
        n = 0; off = 0
        while p[0] == 'i' and n < 8:
            x = f.insts[p[1]]; n += 1
            if x.op == 'bitcast':
                p = x.a[0]; continue
            if x.op != 'getelementptr':
                return None
            g = x.d['gep']
            cls = self.clean(g.get('sty', ''))
            if cls in self.ditypes and g.get('off') is not None:
                m = self.member_at(cls, g['off'] + off)
                return (cls, m[0], m) if m else None
            if g.get('off') is None or 'var' in g:
                return None
            off += g['off']; p = x.a[0]
        return None

    @staticmethod
    def clean(sty):
        s = re.sub(r'^%(class|struct|union)\.', '', sty)
        return re.sub(r'(\.\d+|\.base)+$', '', s)

    def member_at(self, cls, off):
        d = self.ditypes.get(cls)
        if not d:
            return None
        best = None
        for m in d['members']:
            if m[0] == '<base>':
                b = self.ditypes.get(m[3])
                if b and m[1] <= off < m[1] + max(b['size'], 1):
                    r = self.member_at(m[3], off - m[1])
                    if r:
                        best = best or r
                continue
            if len(m) >= 4 and m[1] >= 0 and m[1] <= off < m[1] + max(1, (m[2] + 7) // 8):
                best = m
                return m
        return best
