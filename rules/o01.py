"""O01: text from outside is escaped where it is put into XML or JSON"""
import re, json
from c01 import loops
from common import foreign_callbacks

STR = r'_ZNK?St7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE'
LS_CHARS = '_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc'
LS_CHAR = re.compile(r'_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_[cah]$')
LS_STR = re.compile(r'_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_string')
LS_NUM = re.compile(r'_ZNSolsE[a-z]$')
PLUS = re.compile(r'_ZStplIcSt11char_traitsIcESaIcEE')
MOVE = re.compile(r'_ZSt4moveI|_ZSt7forwardI')
STREAMSTR = re.compile(r'_ZNK?[RO]?St7__cxx11\d+basic_o?stringstreamIcSt11char_traitsIcESaIcEE3strEv')
SETTERS = ('aS', 'pL', '6append', '6assign', '9push_back', '6insert', '7replace')
ENCODERS = {'xmlEncodeSpecialChars', 'xmlEncodeEntitiesReentrant', 'xmlEncodeEntities'}
DUMPERS = {'xmlNodeDumpOutput', 'xmlElemDump', 'xmlNodeDump', 'xmlDocDumpMemory', 'xmlDocDumpFormatMemory', 'xmlBufNodeDump', 'xmlDocDump',
           'xmlSaveDoc', 'xmlSaveTree'}
RAWC = {'xmlGetProp', 'xmlGetNoNsProp', 'xmlGetNsProp', 'xmlNodeGetContent', 'xmlNodeListGetString', 'getenv', 'fgets', 'MHD_lookup_connection_value'}
RAWWRITE = {'xmlTextWriterWriteRaw': 1, 'xmlTextWriterWriteRawLen': 1}
TRUSTED = re.compile(r'HarvesterConfiguration')
XMLISH = re.compile(r'<[/?!a-zA-Z]|<$')
ANY, XML, JSON, MARK, UNK = ('safe', 'any'), ('safe', 'xml'), ('safe', 'json'), ('markup',), ('unknown',)


def const_text(P, v):
    if v[0] == 'g' and v[1] in P.G:
        init = P.G[v[1]].get('init')
        if init and init[0] == 's':
            s = init[1]
            return s[:s.index('\0')] if '\0' in s else s
        if init and init[0] == 'z':
            return ''
    return None


def cal(x):
    return x.d['fn'][1] if x.is_call and x.d['fn'][0] == 'f' else ''


def strfn(n):
    """what member of std::string a name is"""
    m = re.match(STR, n)
    return n[m.end():] if m else None


class Esc:
    def __init__(self, P):
        self.P = P
        self._kf = {}; self._busy = set(); self._maps = {}
        self._ev = {}; self.closures = None

    def repo(self, n):
        g = self.P.F.get(n)
        return g if g is not None and g.repo and g.blocks else None

    # ---- where a stream or a string lives
    def root(self, f, v, depth=0):
        if depth > 30 or v[0] not in 'aig':
            return None
        if v[0] != 'i':
            return v
        x = f.insts[v[1]]
        if x.is_call:
            n = cal(x); s = strfn(n)
            if x.a and (n.startswith(('_ZStls', '_ZNSols')) or MOVE.match(n) or s is not None and s.startswith(('aS', 'pL', '6append', '6assign', '6insert'))):
                return self.root(f, x.a[0], depth + 1)
            return v
        if x.op in ('bitcast', 'addrspacecast'):
            return self.root(f, x.a[0], depth + 1)
        if x.op == 'getelementptr':
            b = self.root(f, x.a[0], depth + 1)
            if b is None:
                return None
            g = x.d['gep']
            if 'stream' in str(g.get('sty') or '') or b[0] == 'i' and 'stream' in str(f.insts[b[1]].d.get('ty') or ''):
                return b
            return ('m', b, g.get('off'), str(g.get('sty') or ''))
        if x.op == 'load':
            p = x.a[0]
            if p[0] == 'i' and f.insts[p[1]].op == 'alloca':
                ss = [y for y in f.uses(p) if y.op == 'store' and y.a[1] == p]
                if len(ss) == 1:
                    return self.root(f, ss[0].a[0], depth + 1)
            r = self.root(f, p, depth + 1)
            return ('l', r) if r is not None else None
        return v

    def sroot(self, f, v):
        """a stream; its output part is a base of it"""
        r = self.root(f, v)
        return r[1] if r is not None and r[0] == 'm' and r[3] == 'i8' else r

    def captured(self, f, r):
        """a variable of the creator that a lambda refers to: [(function, value)]"""
        if self.closures is None:
            self.closures = {}
            for g in self.P.repo_fns():
                for x in g.all():
                    if x.op == 'store' and x.a[1][0] == 'i':
                        y = g.insts[x.a[1][1]]
                        if y.op == 'getelementptr' and 'anon' in str(y.d['gep'].get('sty') or ''):
                            self.closures.setdefault((y.d['gep']['sty'], y.d['gep'].get('off')), []).append((g, x.a[0]))
                        elif y.op == 'alloca' and 'anon' in str(y.d.get('ty') or ''):
                            self.closures.setdefault((y.d['ty'], 0), []).append((g, x.a[0]))
        if r and r[0] == 'l' and r[1] and r[1][0] == 'm' and r[1][1] == ('a', 0) and 'anon' in r[1][3]:
            return [c for c in self.closures.get((r[1][3], r[1][2]), ()) if c[0].file == f.file]
        return None

    # ---- what a text is made of
    def kind(self, f, v):
        key = (f.name, v)
        if key in self._kf:
            return self._kf[key]
        if key in self._busy or len(self._busy) > 60:
            return frozenset()
        self._busy.add(key)
        try:
            k = frozenset(self._kind(f, v))
        finally:
            self._busy.discard(key)
        self._kf[key] = k
        return k

    def _kind(self, f, v):
        P = self.P
        if v[0] in ('c', 'n', 'u'):
            return {ANY}
        if v[0] == 'g':
            return {ANY} if const_text(P, v) is not None else {UNK}
        if v[0] == 'a':
            t = str(f.args[v[1]]) if v[1] < len(f.args) else ''
            w = self.written(f, v)
            return (w or {UNK}) if t.startswith('sret') else {('arg', v[1])} | w
        if v[0] != 'i':
            return {UNK}
        x = f.insts[v[1]]
        if x.op == 'phi':
            return {k for w, b in x.d['phi'] for k in self.kind(f, w)}
        if x.op == 'select':
            return self.kind(f, x.a[1]) | self.kind(f, x.a[2])
        if x.op in ('bitcast', 'sext', 'zext', 'trunc'):
            return self.kind(f, x.a[0])
        if x.op == 'alloca':
            return self.written(f, v) or {UNK}
        if x.op == 'getelementptr':
            g = x.d['gep']; sty = str(g.get('sty') or '')
            if TRUSTED.search(sty):
                return {ANY}
            b = x.a[0]
            while b[0] == 'i' and f.insts[b[1]].op in ('getelementptr', 'bitcast'):
                if TRUSTED.search(str((f.insts[b[1]].d.get('gep') or {}).get('sty') or '')):
                    return {ANY}
                b = f.insts[b[1]].a[0]
            cl = self.captured(f, ('l', self.root(f, v)))
            if cl:
                return {k for g2, w in cl for k in self.resolve(g2, self.kind(g2, w))}
            if b[0] == 'i' and f.insts[b[1]].is_call and ('__normal_iterator' in cal(f.insts[b[1]]) or 'St' in cal(f.insts[b[1]]) and 'std::' in sty):
                return self.element(f, f.insts[b[1]])
            if b[0] == 'i' and f.insts[b[1]].op == 'alloca' and not g.get('off'):
                return {UNK}
            return {('raw', 'a member of %s' % P.clean(sty).split('::')[-1])}
        if x.op == 'load':
            p = x.a[0]
            if x.t != 'ptr':
                return {ANY} if x.t != 'i8' or p[0] == 'g' else {('char',)}
            if p[0] == 'i' and f.insts[p[1]].op == 'alloca':
                out = set()
                for y in f.uses(p):
                    if y.op == 'store' and y.a[1] == p:
                        out |= self.kind(f, y.a[0])
                    elif cal(y) == 'open_memstream':
                        out.add(MARK if any(cal(z) in DUMPERS for z in f.calls()) else UNK)
                return out or {UNK}
            if p[0] == 'i' and f.insts[p[1]].op == 'getelementptr':
                cl = self.captured(f, self.root(f, v))
                if cl:
                    return {k for g2, w in cl for k in self.resolve(g2, self.kind(g2, w))}
                sty = str(f.insts[p[1]].d['gep'].get('sty') or '')
                if '_xmlNode' in sty or '_xmlAttr' in sty:
                    return {('raw', 'the content of a node')}
            return {UNK}
        if x.is_call:
            return self.result(f, x)
        return {ANY} if x.t in ('i32', 'i64', 'i16', 'i1') else {UNK}

    def element(self, f, y):
        n = cal(y)
        if '__normal_iterator' in n or self.repo(n):
            return {UNK}
        if re.search(r'_Rb_tree|St3map|unordered_map|_Node_iterator|_Node_const_iterator', n):
            return {('raw', 'an element of a map')}
        return {UNK}

    def result(self, f, x):
        n = cal(x); s = strfn(n)
        if not n:
            return {UNK}
        if n in ENCODERS:
            return {XML}
        if n in RAWC:
            return {('raw', 'the result of %s' % n)}
        if MOVE.match(n) or s is not None and (s.startswith(('5c_str', '4data')) or s.startswith(SETTERS)):
            return self.kind(f, x.a[0])
        if s is not None and s.startswith(('ixE', '2atE', '4back', '5front')):
            return {('char',)}
        if n in ('strdup', '__strdup', 'strndup', 'xmlStrdup', 'xmlStrndup'):
            return self.kind(f, x.a[0])
        g = self.repo(n)
        if g is not None:
            if x.t != 'ptr':
                return {ANY} if x.t in ('i32', 'i64', 'i16', 'i1') else {UNK}
            out = set()
            for y in g.all():
                if y.op == 'ret' and y.a:
                    out |= self.bind(f, x, self.kind(g, y.a[0]))
            return out or {UNK}
        return {ANY} if x.t != 'ptr' else self.element(f, x)

    def bind(self, f, x, ks):
        out = set()
        for k in ks:
            if k[0] == 'arg':
                if k[1] < len(x.a):
                    out |= self.kind(f, x.a[k[1]])
            else:
                out.add(k)
        return out

    def into(self, f, x):
        """the text a call puts into its first argument"""
        n = cal(x)
        if PLUS.match(n):
            return {MARK} if self.markup(self.tree(f, x)) else self.kind(f, x.a[1]) | self.kind(f, x.a[2])
        if '9to_string' in n:
            return {ANY}
        if STREAMSTR.match(n):
            r = self.root(f, x.a[1])
            if r is None:
                return {UNK}
            return {MARK} if self.is_xml(f, r) else self.stream_kind(f, r) or {ANY}
        if (strfn(n) or '').startswith('6substr'):
            return self.kind(f, x.a[1])
        g = self.repo(n)
        if g is not None and self.nothing_to_encode(g):
            return {XML}
        if g is not None:
            m = self.charmap(g)
            if m:
                # what is handed through beside the loop stays what it was
                return {XML if m == 'xml' else JSON} | self.bind(f, x, {k for k in self.kind(g, ('a', 0)) if k[0] in ('arg', 'raw')})
            return {('raw', 'what %s makes of a text' % g.short.split('::')[-1]) if k == ('char',) else k for k in self.bind(f, x, self.kind(g, ('a', 0)))}
        g = self.P.F.get(n)
        if g is not None and re.match(r'_ZNK?\d', n):
            return {('raw', 'the result of %s' % g.short)}
        return {UNK}

    def written(self, f, v):
        """the texts that end up in a string object"""
        if v[0] == 'i' and 'MetadataItem' in str(f.insts[v[1]].d.get('ty') or ''):
            return {ANY}
        out = set()
        for y in f.uses(v):
            n = cal(y)
            if not n or not y.a or y.a[0] != v or len(y.a) < 2 and not self.repo(n):
                continue
            s = strfn(n)
            if s is not None and not s.startswith('6substr'):
                if re.match(r'C[12]E', s) or s.startswith(SETTERS):
                    if re.search(r'E[mjyi]c|Emc|EmRK|ESt16initializer', s):
                        out.add(ANY)
                    elif s.startswith(('6insert', '7replace')):
                        out |= self.kind(f, y.a[-1])
                    elif not re.match(r'C[12]ERKS3_$', s):
                        out |= self.kind(f, y.a[1])
            elif PLUS.match(n) or STREAMSTR.match(n) or '9to_string' in n or s is not None:
                out |= self.into(f, y)
            elif n in self.P.F and self.P.F[n].args and str(self.P.F[n].args[0]).startswith('sret'):
                out |= self.into(f, y)
        if out and v[0] == 'i' and self.is_xml(f, v):
            out = {MARK}
        return out

    # ---- what goes where
    def pieces(self, f, x):
        """(root, [piece]) that this call puts somewhere"""
        n = cal(x); P = self.P
        if not n or not x.a:
            return None

        def arg(a):
            t = const_text(P, a)
            return ('lit', t) if t is not None else ('lit', chr(a[1] & 255)) if a[0] == 'c' else ('val', a)
        if n == LS_CHARS or LS_CHAR.match(n) or n == '_ZNSo3putEc' or LS_STR.match(n):
            return self.sroot(f, x.a[0]), [arg(x.a[1])]
        if LS_NUM.match(n):
            return self.sroot(f, x.a[0]), [('num',)]
        if n in ('fprintf', 'fputs') and std_stream(f, x.a[0 if n == 'fprintf' else 1]):
            return None
        if n == 'fprintf':
            t = const_text(P, x.a[1])
            return (self.root(f, x.a[0]), fmt(t, x.a[2:])) if t is not None else None
        if n in ('fputs', 'fputs_unlocked', 'fputc', 'putc'):
            return self.root(f, x.a[1]), [arg(x.a[0])]
        if n == 'fwrite':
            return self.root(f, x.a[3]), [arg(x.a[0])]
        s = strfn(n)
        if s is not None and len(x.a) > 1:
            if s.startswith(('pL', '6append', '9push_back')):
                return self.root(f, x.a[0]), [('num',)] if s.startswith('6appendEmc') else [arg(x.a[1])]
            if re.match(r'C[12]E(RKS4_|OS4_|PKc)|aSE|6assignE', s):
                return self.root(f, x.a[0]), [('reset',), arg(x.a[1])]
        return None

    def events(self, f):
        """{root: {inst: [pieces]}}"""
        if f.name in self._ev:
            return self._ev[f.name]
        ev = self._ev[f.name] = {}
        for x in f.calls():
            pr = self.pieces(f, x)
            if pr and pr[0] is not None and pr[0][0] != 'g':
                ev.setdefault(pr[0], {}).setdefault(x.i, []).extend(pr[1])
            g = self.repo(cal(x))
            if g is not None and not (pr and pr[0] is not None):
                for k, a in enumerate(x.a):
                    if k < len(g.args) and not str(g.args[k]).startswith('sret') and a[0] in 'ai':
                        r = self.root(f, a)
                        if r is not None and self.sinky(f, r):
                            ev.setdefault(r, {}).setdefault(x.i, []).append(('call', g.name, k))
        return ev

    def sinky(self, f, r):
        if r[0] == 'i':
            x = f.insts[r[1]]
            if x.op == 'alloca':
                return 'stream' in str(x.d.get('ty') or '') or 'basic_string' in str(x.d.get('ty') or '')
            return cal(x) in ('fopen', 'fopen64', 'fdopen', 'open_memstream')
        return r[0] == 'a'

    def lits(self, f, r, seen=frozenset()):
        if (f.name, r) in seen:
            return []
        seen = seen | {(f.name, r)}
        out = []
        for ps in self.events(f).get(r, {}).values():
            for p in ps:
                if p[0] == 'lit':
                    out.append(p[1])
                elif p[0] == 'call':
                    out += self.lits(self.P.F[p[1]], ('a', p[2]), seen)
        return out

    def is_xml(self, f, r):
        return any(XMLISH.search(t) for t in self.lits(f, r))

    def stream_kind(self, f, r, seen=frozenset()):
        if (f.name, r) in seen:
            return set()
        seen = seen | {(f.name, r)}
        out = set()
        for i, ps in self.events(f).get(r, {}).items():
            for p in ps:
                if p[0] == 'val':
                    out |= self.kind(f, p[1])
                elif p[0] == 'call':
                    out |= self.bind(f, f.insts[i], self.stream_kind(self.P.F[p[1]], ('a', p[2]), seen))
                else:
                    out.add(ANY)
        return out

    # ---- trees of operator+
    def tree(self, f, x, depth=0):
        out = []
        for a in x.a[1:3]:
            t = const_text(self.P, a)
            if t is not None:
                out.append(('lit', t))
            elif a[0] == 'c':
                out.append(('lit', chr(a[1] & 255)))
            else:
                sub = self.plus_into(f, a) if depth < 40 else None
                out += self.tree(f, sub, depth + 1) if sub is not None else [('val', a)]
        return out

    @staticmethod
    def markup(t):
        return any(p[0] == 'lit' and XMLISH.search(p[1]) for p in t)

    def plus_into(self, f, a):
        if a[0] != 'i':
            return None
        x = f.insts[a[1]]
        if x.is_call and MOVE.match(cal(x)):
            return self.plus_into(f, x.a[0])
        if x.op != 'alloca':
            return None
        w = [y for y in f.uses(a) if y.is_call and y.a and y.a[0] == a and not re.search(r'D[12]Ev$', cal(y)) and not PLUS.match(cal(y))
             and not re.match(r'(5c_str|4size|6length|5empty|4data)', strfn(cal(y)) or '')]
        p = [y for y in f.uses(a) if PLUS.match(cal(y)) and y.a[0] == a]
        return p[0] if len(p) == 1 and not w else None

    # ---- encoders that go through a text character by character
    def charmap(self, g):
        if g.name not in self._maps:
            self._maps[g.name] = None
            self._maps[g.name] = CharMap(self, g).decide()
        return self._maps[g.name]

    def nothing_to_encode(self, g):
        """an encoder for XML that hands through texts without special characters"""
        look = any((strfn(cal(y)) or '').startswith('13find_first_of') and set('&<"') <= set(const_text(self.P, y.a[1]) or '') for y in g.calls() if len(y.a) > 1)
        return look and XML in self.bind_free(g)

    def bind_free(self, g):
        m = self.charmap(g)
        return {XML} if m == 'xml' else set() if m else self.kind(g, ('a', 0))

    # ---- parameters
    def callbacks(self):
        if not hasattr(self, '_cb'):
            self._cb = set(foreign_callbacks(self.P))
        return self._cb

    def resolve(self, f, ks, depth=0):
        out = set()
        for k in ks:
            if k[0] != 'arg':
                out.add(k); continue
            key = ('arg', f.name, k[1])
            if key in self._busy or depth > 6:
                continue
            self._busy.add(key)
            try:
                cs = self.P.callers(f.name)
                if not cs:
                    out.add(('raw', 'what is handed to %s' % f.short.split('::')[-1]) if f.name in self.callbacks() else UNK)
                for c in cs:
                    if k[1] < len(c.a):
                        for r in self.resolve(c.fn, self.kind(c.fn, c.a[k[1]]), depth + 1):
                            out.add(r if r[0] != 'raw' or 'handed' in r[1] else ('raw', '%s, handed over at %s,' % (r[1], c.loc())))
            finally:
                self._busy.discard(key)
        return out


def fmt(t, args):
    out = []; k = 0; pos = 0
    for m in re.finditer(r'%(%|[-+ #0]*(\*|\d+)?(\.(\*|\d+))?(hh|h|ll|l|z|j|t|L)?([a-zA-Z]))', t):
        if m.start() > pos:
            out.append(('lit', t[pos:m.start()]))
        pos = m.end()
        if m.group(1) == '%':
            out.append(('lit', '%')); continue
        k += (m.group(2) == '*') + (m.group(4) == '*')
        out.append(('val', args[k]) if m.group(6) == 's' and k < len(args) else ('num',))
        k += 1
    if pos < len(t):
        out.append(('lit', t[pos:]))
    return out


class CharMap:
    """what a loop over the characters of a text emits for each of the 256 characters"""

    def __init__(self, E, f):
        self.E = E; self.f = f; self.P = E.P

    def table(self):
        f = self.f; best = None
        L = {}
        for (latch, head), body in loops(f).items():
            L.setdefault(head, set()).update(body)
        for head, body in L.items():
            if any(x.op == 'load' and x.t == 'i8' for b in body for x in f.blocks[b]) and (best is None or len(body) > len(best[1])):
                best = (head, body)
        if best is None or len([1 for b in best[1] for x in f.blocks[b] if (self.E.pieces(f, x) if x.is_call else None)]) < 2:
            return None
        tab = {}
        for c in range(256):
            self.outs = set(); self.steps = 0; self.c = c; self.body = best[1]; self.head = best[0]
            if not self.walk(best[0], None, {}, (), set()):
                return None
            tab[c] = self.outs
        return tab

    def walk(self, b, prev, env, out, seen):
        """one iteration, depth first"""
        f = self.f
        if b not in self.body or prev is not None and b == self.head:
            if b in self.body:
                self.outs.add(out)
            return True
        if b in seen:
            return True
        seen = seen | {b}
        self.steps += 1
        if self.steps > 20000:
            return False
        env = dict(env)
        for x in f.blocks[b]:
            if x.op == 'load' and x.t == 'i8':
                env[x.i] = self.c
            elif x.is_call:
                pr = self.E.pieces(f, x)
                for p in (pr[1] if pr else ()):
                    if p[0] == 'lit':
                        out = out + (p[1],)
                    elif p[0] == 'num':
                        out = out + (None,)
                    elif p[0] == 'val':
                        v = self.val(f, p[1], env)
                        out = out + (chr(v & 255) if isinstance(v, int) else v if isinstance(v, str) else self.formatted(p[1], env),)
                g = self.E.repo(cal(x))
                if g is not None and x.t in ('ptr', 'i1', 'i32', 'i8'):
                    a = [self.val(f, w, env) for w in x.a]
                    if any(isinstance(w, int) for w in a):
                        env[x.i] = self.inline(g, a)
            else:
                self.step(f, x, prev, env)
        t = f.blocks[b][-1]
        return all(self.walk(s, b, env, out, seen) for s in self.targets(f, t, env))

    def targets(self, f, t, env, args=None):
        if t.op == 'invoke':
            return [t.d['to']]
        if t.op == 'br' and len(t.d['s']) == 2:
            k = self.val(f, t.a[0], env, args)
            return [t.d['s'][0 if k else 1]] if isinstance(k, int) else list(t.d['s'])
        if t.op == 'switch':
            k = self.val(f, t.a[0], env, args)
            return [switch_target(t, k)] if isinstance(k, int) else list(t.fn.succ[t.blk])
        return list(t.d.get('s') or ())

    def step(self, f, x, prev, env, args=None):
        V = lambda w: self.val(f, w, env, args)
        if x.op == 'phi':
            for w, pb in x.d['phi']:
                if pb == prev:
                    env[x.i] = V(w)
        elif x.op in ('sext', 'zext', 'trunc', 'bitcast', 'freeze'):
            v = V(x.a[0])
            if isinstance(v, int):
                v = v - 256 if x.op == 'sext' and ftype(f, x.a[0]) == 'i8' and v > 127 else v
                env[x.i] = v & 255 if x.op == 'zext' and ftype(f, x.a[0]) == 'i8' or x.t == 'i8' else v
            elif v is not None:
                env[x.i] = v
        elif x.op == 'icmp':
            l, r = V(x.a[0]), V(x.a[1])
            if isinstance(l, str) or isinstance(r, str):
                if x.d['p'] in ('eq', 'ne') and (l == 0 or r == 0):
                    env[x.i] = int(x.d['p'] == 'ne')
            elif l is not None and r is not None:
                env[x.i] = int(cmp(x.d['p'], l, r, x.d.get('ct')))
        elif x.op in ('xor', 'and', 'or', 'add', 'sub'):
            l, r = V(x.a[0]), V(x.a[1])
            if isinstance(l, int) and isinstance(r, int):
                env[x.i] = {'xor': l ^ r, 'and': l & r, 'or': l | r, 'add': l + r, 'sub': l - r}[x.op]
        elif x.op == 'select':
            k = V(x.a[0])
            if isinstance(k, int):
                env[x.i] = V(x.a[1 if k else 2])

    def formatted(self, v, env):
        """the text a formatting call made out of the character"""
        f = self.f
        if v[0] == 'i' and f.insts[v[1]].op == 'alloca':
            for y in f.uses(v):
                if y.is_call and y.a and y.a[0] == v:
                    for k, a in enumerate(y.a[1:], 1):
                        t = const_text(self.P, a)
                        if t is not None and k + 1 < len(y.a):
                            w = self.val(f, y.a[k + 1], env)
                            if isinstance(w, int):
                                try:
                                    return t % (w & 0xffffffff)
                                except Exception:
                                    return None
        return None

    def inline(self, g, args):
        """the value a helper returns for this character"""
        env = {}; b = 0; prev = None
        for _ in range(300):
            for x in g.blocks[b]:
                if x.op == 'ret':
                    return self.val(g, x.a[0], env, args) if x.a else None
                self.step(g, x, prev, env, args)
            nx = self.targets(g, g.blocks[b][-1], env, args)
            if len(nx) != 1:
                return None
            prev, b = b, nx[0]
        return None

    def val(self, f, v, env, args=None):
        if v[0] == 'c':
            return v[1]
        if v[0] == 'n':
            return 0
        if v[0] == 'g':
            return const_text(self.P, v)
        if v[0] == 'a' and args is not None and v[1] < len(args):
            return args[v[1]]
        return env.get(v[1]) if v[0] == 'i' else None

    def decide(self):
        tab = self.tab = self.table()
        if not tab:
            return None

        def one(c):
            o = list(tab[c])
            return ''.join(o[0]) if len(o) == 1 and all(p is not None for p in o[0]) else None
        if one(ord('a')) != 'a' or one(ord('Z')) != 'Z':
            return None
        x = {'&': ('&amp;', '&#38;', '&#x26;'), '<': ('&lt;', '&#60;', '&#x3c;', '&#x3C;'), '"': ('&quot;', '&#34;', '&#x22;')}
        if all(one(ord(c)) in ok for c, ok in x.items()) and \
           all(one(c) in (chr(c), '&gt;' if chr(c) == '>' else '', '&apos;' if chr(c) == "'" else '', '&#%d;' % c) and one(c) for c in range(32, 256)
               if chr(c) not in x):
            return 'xml'
        for c in range(256):
            try:
                if one(c) is None or (json.loads('"%s"' % one(c)) if c < 128 else one(c)) != chr(c):
                    return None
            except ValueError:
                return None
        return 'json'


def ftype(f, v):
    return f.insts[v[1]].t if v[0] == 'i' else f.args[v[1]] if v[0] == 'a' else None


def cmp(p, l, r, ct=None):
    bits = int(ct[1:]) if isinstance(ct, str) and ct[:1] == 'i' and ct[1:].isdigit() else 32
    m = (1 << bits) - 1
    if p in ('eq', 'ne'):
        return ((l & m) == (r & m)) == (p == 'eq')
    l, r = l & m, r & m
    if p[0] == 's':
        l, r = [v - (1 << bits) if v >> (bits - 1) else v for v in (l, r)]
    return {'gt': l > r, 'ge': l >= r, 'lt': l < r, 'le': l <= r}[p[1:]]


def switch_target(t, k):
    for v, b in t.d['cases']:
        if (v & 0xff) == (k & 0xff):
            return b
    return t.d['def']


STEP = {('text', '<'): 'tag', ('tag', '>'): 'text', ('tag', '"'): 'attr', ('attr', '"'): 'tag', ('tag', "'"): 'attr1', ('attr1', "'"): 'tag'}


def piece(E, f, x, p, ss, bad, seen):
    """the contexts after a piece"""
    if p[0] == 'reset':
        return {'text'}
    if p[0] == 'lit':
        for c in p[1]:
            ss = {STEP.get((s, c), s) for s in ss}
        return ss
    if p[0] == 'call':
        return flow(E, E.P.F[p[1]], ('a', p[2]), ss, bad, seen)
    if p[0] == 'val' and ss & {'text', 'attr', 'attr1'}:
        bad(f, x, p[1], ss)
    return ss


def flow(E, f, r, start, bad, seen=frozenset()):
    """the contexts a sink is left in"""
    if (f.name, r) in seen:
        return set(start)
    seen = seen | {(f.name, r)}
    ev = E.events(f).get(r, {})
    if not ev:
        return set(start)
    instate = {0: set(start)}; work = [0]; exits = set(); done = {}
    while work:
        b = work.pop()
        ss = set(instate[b])
        if done.get(b) == ss:
            continue
        done[b] = set(ss)
        for x in f.blocks[b]:
            for p in ev.get(x.i, ()):
                ss = piece(E, f, x, p, ss, bad, seen)
            if x.op == 'ret':
                exits |= ss
        for s in f.succ[b]:
            if s not in instate or not ss <= instate[s]:
                instate[s] = instate.get(s, set()) | ss
                work.append(s)
    return exits or set(start)


def run(P, rep, tier):
    E = Esc(P)
    rep.rule = ('every text that is streamed, concatenated, appended or printed between pieces of XML or inside a string of JSON comes out of an encoder, '
                'a serializer, a number or a literal; nothing is encoded twice; an encoder written by hand maps each of the 256 characters to something that reads back as it')
    obs = {}; sinks = 0; enc = 0

    def check(f, x, v, ctx, want):
        if v[0] == 'i' and f.insts[v[1]].t == 'i8':
            return                  # a page that is copied character by character
        ok = True; why = ''
        attr = bool(ctx & {'attr', 'attr1'})
        for k in sorted(E.resolve(f, E.kind(f, v)), key=str):
            if k[0] == 'raw':
                ok, why = False, k[1]
            elif k[0] == 'safe' and k[1] not in ('any', want):
                ok, why = False, 'a text encoded for %s' % k[1]
            elif k == MARK and (want != 'xml' or attr):
                ok, why = False, 'markup'
        what = 'a JSON string' if want == 'json' else 'the value of an attribute' if attr else 'the text of an element'
        key = (f.name, x.i, v, what)
        obs[key] = obs.get(key, True) and ok
        if not ok:
            rep.viol('%s|%s' % (owner(f), what), 'in %s at %s %s becomes %s without being encoded for it' % (f.short, x.loc(), why, what))

    def xml(f, x, v, ctx):
        check(f, x, v, ctx, 'xml')
    for f in P.repo_fns():
        if '/src/' not in str(f.file):
            continue
        for r in list(E.events(f)):
            if E.is_xml(f, r):
                sinks += 1
                flow(E, f, r, {'text'}, xml)
        inner = {id(E.plus_into(f, a)) for y in f.calls() if PLUS.match(cal(y)) for a in y.a[1:3]}
        for x in f.calls():
            n = cal(x)
            if PLUS.match(n) and id(x) not in inner:
                t = E.tree(f, x)
                if E.markup(t):
                    sinks += 1; ss = {'text'}
                    for p in t:
                        ss = piece(E, f, x, p, ss, xml, frozenset())
            elif n in ENCODERS or E.repo(n) and len(x.a) > 1 and E.charmap(P.F[n]):
                enc += 1
                want = XML if n in ENCODERS or E.charmap(P.F[n]) == 'xml' else JSON
                ks = E.resolve(f, E.kind(f, x.a[1]))
                rep.ob('%s at %s: what is encoded is not encoded already' % (f.short, x.loc()), want not in ks)
                if want in ks:
                    rep.viol('%s|twice' % owner(f), 'in %s at %s a text that is encoded already is encoded once more' % (f.short, x.loc()))
            elif n in RAWWRITE:
                sinks += 1
                xml(f, x, x.a[RAWWRITE[n]], {'text'})
            elif n == 'fprintf':
                t = const_text(P, x.a[1]) if not std_stream(f, x.a[0]) else None
                if t and re.search(r'"\s*:|^\s*\{', t) and not XMLISH.search(t):
                    inq = False; sinks += 1; last = ''
                    for p in fmt(t, x.a[2:]):
                        if p[0] == 'lit':
                            for c in p[1]:
                                if c == '"' and last != '\\':
                                    inq = not inq
                                last = c
                        elif p[0] == 'val' and inq:
                            check(f, x, p[1], {'string'}, 'json')
    for (fn, i, v, what), ok in sorted(obs.items(), key=str):
        f = P.F[fn]
        rep.ob('%s at %s: what becomes %s is encoded' % (f.short, f.insts[i].loc(), what), ok)
    rep.need('sinks', sinks, 4)
    rep.need('pieces', len(obs), 6)
    rep.need('encodings', enc, 3)
    rep.stats['hand_written_encoders'] = sorted('%s: %s' % (P.F[n].short, m) for n, m in E._maps.items() if m)
    rep.assumptions.append('pieces of pages that are copied verbatim out of their markup are taken as encoded already')
    rep.assumptions.append('the names in the configuration of the harvester are names of elements')


def std_stream(f, v):
    return v[0] == 'i' and f.insts[v[1]].op == 'load' and f.insts[v[1]].a[0] in (('g', 'stderr'), ('g', 'stdout'))


def owner(f):
    m = re.match(r'(.*?)::(\$_|\{lambda|operator)', f.short)
    return m.group(1) if m else f.short
