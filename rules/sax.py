"""The XML reading state machines: callbacks of a SAX parser explored over every nesting of elements.

A context abstracts the position in the document: D outside of the root element, M in the root element, E in an expression element,
T in a formula tree (depth 1 or deeper), A in a data element, U in an element to be skipped (entered from D or M), X after an error.
For each context the reachable parser states (cells of the user data that are constants, tokens of the tree, or the depth plus a
constant) are computed as a fixpoint."""
import re
from absint import Client, Engine, State
import strs

DEEP = ('depth',)
NAMES = ('mws:query', 'mws:harvest', 'mws:expr', 'mws:data', 'other')
EV = {'startElement': 'start', 'endElement': 'end', 'characters': 'chars', 'error': 'error', 'warning': 'warning',
      'endDocument': 'enddoc', 'startDocument': 'startdoc', 'fatalError': 'fatal', 'cdataBlock': 'chars2', 'ignorableWhitespace': 'chars3'}
# the layout of the handler structure is part of the interface of the parser library
SLOTS = {12 * 8: 'startDocument', 13 * 8: 'endDocument', 14 * 8: 'startElement', 15 * 8: 'endElement', 17 * 8: 'characters',
         18 * 8: 'ignorableWhitespace', 21 * 8: 'warning', 22 * 8: 'error', 23 * 8: 'fatalError', 25 * 8: 'cdataBlock'}
STRWRITE = {'operator=', 'assign', 'clear'}


def tok(n):
    return ('p', ('hp', 'tok', n), 0)


def is_tok(v):
    return v[0] == 'p' and v[1][:2] == ('hp', 'tok')


WR = ('p', ('hp', 'wr', 'open'), 0)
DEADWR = ('p', ('hp', 'wr', 'closed'), 0)
ATTRS = ('p', ('hp', 'attrs'), 0)


def lin(v):
    """v = depth + c -> c"""
    if v == ('s', DEEP):
        return 0
    if v[0] == 'op' and v[1] in ('add', 'sub') and len(v) == 4 and v[3][0] == 'k':
        c = lin(v[2])
        if c is not None:
            return c + v[3][1] if v[1] == 'add' else c - v[3][1]
    if v[0] == 'op' and v[1] in ('zext', 'sext', 'trunc') and len(v) == 4:
        return lin(v[3])
    return None


def parsers(P):
    """functions that parse a document with their own callbacks"""
    out = []
    for f in P.repo_fns():
        s = {P.F[x.d['fn'][1]].short for x in f.calls() if x.d['fn'][0] == 'f'}
        if any(n.startswith('xmlCreate') and n.endswith('ParserCtxt') for n in s):
            out.append(f)
    return out


def ev_text(now):
    return bool(now) and now[1] in ('chars', 'chars2', 'chars3')


def strip(v):
    while v[0] == 'op' and v[1] in ('zext', 'sext', 'trunc', 'bitcast'):
        v = v[3]
    return v


class Sax(Client):
    """events of one callback: q = tuple of observations"""
    name = 'sax'
    loop_ranges = True

    def __init__(self, P):
        self.P = P; self.at_parse = []; self.bad = {}; self.ud = None; self.udty = None
        self.now = None; self.nm = None; self.final = None; self.returns = []; self.strings = {}
        self.callees = set()
        self.attr = None          # names of the attributes of the element that starts, if they are given
        self.uses = {}            # string cells of the parser used at the end of a formula or data element -> role

    def skey(self, st):
        if self.attr is None:
            return None
        return tuple(sorted(v[2] for v in st.env.values() if v[0] == 'p' and v[1] == ATTRS[1] and type(v[2]) is int))

    def arith(self, eng, st, op, l, r):
        if self.attr is not None and op in ('add', 'sub', 'mul', 'shl') and l[0] == 'k' and r[0] == 'k' and abs(l[1]) < 64 and abs(r[1]) < 64:
            return ('k', {'add': l[1] + r[1], 'sub': l[1] - r[1], 'mul': l[1] * r[1], 'shl': l[1] << max(r[1], 0)}[op])
        return None

    def attrpart(self, eng, st, v):
        """(kind, index) if v is the name or the value of an attribute, None if not known"""
        t = strs.tag_of(self.P, eng, st, v)
        m = re.match(r'^\x01(an|av)(\d)$', t or '')
        return (m.group(1), int(m.group(2))) if m else None

    def attribute(self, eng, st, inst, nv, vv):
        if self.attr is None:
            return
        n, v = self.attrpart(eng, st, nv), self.attrpart(eng, st, vv)
        if n is None or v is None:
            self.note(st, 'attr', None)
            if n is not None and n[0] != 'an' or v is not None and v[0] != 'av':
                self.flaw('confuses names and values of attributes', inst)
        else:
            if n[0] != 'an' or v != ('av', n[1]):
                self.flaw('confuses names and values of attributes', inst)
            self.note(st, 'attr', n[1])

    def init_q(self):
        return ()

    def note(self, st, *what):
        if len(st.q) < 12:
            st.q = st.q + (what if len(what) > 1 else what[0],)

    def flaw(self, what, inst):
        self.bad.setdefault((self.now and self.now[0], what), (inst, self.now))

    def relevant(self, eng, f):
        return True

    def store(self, eng, st, inst, addr, val):
        pass

    def call(self, eng, st, inst, fobj, short, args):
        P = self.P
        f = P.F.get(fobj) if isinstance(fobj, str) else fobj
        last = (short or '').split('::')[-1].split('<')[0]
        # ------------------------------------------------ the parser library
        if short.startswith('xmlCreate') and short.endswith('ParserCtxt'):
            p = [a for a in args[:2]]
            st.mem[(('sax',), 0)] = p[0]; st.mem[(('sax',), 8)] = p[1]
            s2 = st.copy()
            return [('ret', ('k', 0), s2), ('ret', ('p', ('hp', 'ctxt'), 0), st)]
        if short == 'xmlParseDocument':
            if self.final is None:
                self.at_parse.append((st.copy(), inst))
                return []
            out = []
            for cells, wf in self.final:
                s = st.copy()
                for k in [k for k in s.mem if k[0] == self.ud or k[0][0] == 'hp' and k[0][:2] != ('hp', 'ctxt')]:
                    del s.mem[k]
                s.mem.update(cells)
                s.mem[(('hp', 'ctxt'), 24)] = ('k', int(wf))
                s.q = ('well-formed' if wf else 'malformed',)
                out.append(('ret', ('k', 0 if wf else -1), s))
            return out
        if short in ('__assert_fail', 'abort', 'exit', '_exit') or short.startswith('std::terminate'):
            if self.now:
                self.flaw('ends the program', inst)
            return [('stop', None, st)]
        # ------------------------------------------------ names
        if short in ('strcmp', 'strcasecmp', 'xmlStrcmp', 'xmlStrEqual', 'xmlStrcasecmp') and self.nm is not None:
            a = [eng.ptr_of(x) for x in args[:2]]
            lit = [strs.literal(P, x) for x in args[:2]]
            for i in (0, 1):
                if a[i] == ('s', ('name',)) and lit[1 - i] is not None:
                    eq = lit[1 - i] == self.nm
                    if short == 'xmlStrEqual':
                        return [('ret', ('k', int(eq)), st)]
                    return [('ret', ('k', int(not eq)), st)]
            if self.attr is not None:
                for i in (0, 1):
                    t = self.attrpart(eng, st, a[i])
                    if t and t[0] == 'an' and lit[1 - i] is not None:
                        eq = lit[1 - i] == self.attr[t[1]]
                        return [('ret', ('k', int(eq if short == 'xmlStrEqual' else not eq)), st)]
        if self.attr is not None and short in ('strncmp', 'xmlStrncmp', 'strncasecmp') and args[2][0] == 'k':
            for i in (0, 1):
                t = self.attrpart(eng, st, args[i]); l = strs.literal(P, args[1 - i])
                if t and t[0] == 'an' and l is not None:
                    return [('ret', ('k', int(self.attr[t[1]][:args[2][1]] != l[:args[2][1]])), st)]
        if self.attr is not None and (last.startswith('operator==') or last.startswith('operator!=')) and len(args) == 2:
            for i in (0, 1):
                t = self.attrpart(eng, st, args[i]); l = strs.tag_of(P, eng, st, args[1 - i])
                if t and t[0] == 'an' and l is not None and not l.startswith(('*', '\1')):
                    return [('ret', ('k', int((l == self.attr[t[1]]) == last.startswith('operator=='))), st)]
        if self.nm is not None and (last.startswith('operator==') or last.startswith('operator!=')) and len(args) == 2:
            t = [strs.tag_of(P, eng, st, x) for x in args]
            if None not in t and not any(x.startswith('*') for x in t) and '\1name' in t:
                o = [x for x in t if x != '\1name']
                eq = not o or o[0] == self.nm
                return [('ret', ('k', int(eq == last.startswith('operator=='))), st)]
        # ------------------------------------------------ the tree
        if f is not None and f.cls and f.cls.endswith('CmmlToken') or 'CmmlToken::' in short and f is not None and f.repo:
            r = self.token(eng, st, inst, f, last, args)
            if r is not None:
                return r
        if short == 'operator delete':
            if is_tok(args[0]):
                return [('ret', None, st)]
        if f is not None and not f.repo and last in ('push_back', 'emplace_back') and 'CmmlToken*' in (f.dem or '') and len(args) == 2:
            v = eng.load(st, args[1], inst, type('F', (), {'ctx': ()}))
            self.note(st, 'process', v[1][2] if is_tok(v) else '?')
            return [('ret', None, st)]
        if last == 'processExpression' and len(args) >= 2:
            v = args[1]
            self.note(st, 'process', v[1][2] if is_tok(v) else '?')
            if is_tok(v) and v[1][2] == 'dead':
                self.flaw('hands over a formula that was freed', inst)
            for a in args[2:]:
                self.readstr(eng, st, a, inst, 'url')
            return [('ret', ('s', ('processed',)), st)]
        if last == 'processData' and len(args) == 2:
            self.note(st, 'data')
            self.readstr(eng, st, args[1], inst, 'text')
            return [('ret', ('s', ('crawlid',)), st)]
        # ------------------------------------------------ the copy of a data element
        if short.startswith('xmlOutputBufferCreate'):
            s2 = st.copy()
            return [('ret', ('k', 0), s2), ('ret', ('p', ('hp', 'buf'), 0), st)]
        if short.startswith('xmlNewTextWriter'):
            s2 = st.copy()
            self.note(st, 'open')
            return [('ret', ('k', 0), s2), ('ret', WR, st)]
        if short.startswith('xmlTextWriter') or short == 'xmlFreeTextWriter':
            if args and args[0] != WR:
                if args[0] == DEADWR:
                    self.flaw('uses the copy of a data element after it was closed', inst)
                elif self.now and self.now[0] != 'X':
                    self.flaw('copies an element without having started the copy', inst)
                return [('ret', ('s', ('written',)), st)]
            if short.endswith('StartElement'):
                self.note(st, 'ws')
                if eng.ptr_of(args[1]) != ('s', ('name',)):
                    self.flaw('copies an element under another name', inst)
            elif short.endswith('WriteAttribute') and len(args) == 3:
                self.attribute(eng, st, inst, args[1], args[2])
            elif short.endswith('EndElement'):
                self.note(st, 'we')
            elif short == 'xmlFreeTextWriter':
                self.note(st, 'close')
                self.swap(st, WR, DEADWR)
            elif 'WriteRaw' in short and (('encoded',), 0) not in st.mem and ev_text(self.now):
                self.flaw('copies text without encoding it', inst)
                self.note(st, 'wt')
            elif 'WriteRaw' in short or short.endswith('WriteString') or short.endswith('WriteVString') or 'WriteFormatString' in short:
                self.note(st, 'wt')
            return [('ret', ('s', ('written',)), st)]
        if short in ('xmlEncodeSpecialChars', 'xmlEncodeEntitiesReentrant', 'xmlBufAttrSerializeTxtContent'):
            st.mem[(('encoded',), 0)] = ('k', 1)
            return [('ret', ('p', ('hp', 'enc'), 0), st)]
        if last in ('basic_string', 'append', 'assign') and 'basic_string::' in short and ev_text(self.now):
            self.text_part(inst, args)
        # ------------------------------------------------ strings kept between the callbacks
        if self.attr is not None and 'basic_string::' in short and last in ('basic_string', 'operator=', 'assign', '~basic_string'):
            r = strs.call(P, eng, st, inst, f, short, args)
            if r is not None:
                if self.strof(args[0]):
                    st.mem[(('fresh',), args[0][2])] = ('k', 1)
                return r
        if self.nm is not None or self.now:
            r = strs.call(P, eng, st, inst, f, short, args) if last == 'basic_string' and len(args) > 1 and \
                eng.ptr_of(args[1]) == ('s', ('name',)) else None
            if r is not None:
                return r
        if f is not None and not f.repo and self.now:
            for i, a in enumerate(args):
                if i == 0 and 'basic_string::' in short and last in STRWRITE:
                    if self.strof(a):
                        st.mem[(('fresh',), a[2])] = ('k', 1)
                    continue
                if i == 0 and 'basic_string::' in short and last in ('~basic_string', 'basic_string'):
                    continue
                self.readstr(eng, st, a, inst)
        return None

    def obj_class(self, obj):
        return self.udty if obj == self.ud else None

    def strof(self, a):
        if a[0] == 'p' and a[1] == self.ud and type(a[2]) is int and self.udty:
            m = self.P.member_at(self.udty, a[2])
            return m if m and m[1] == a[2] and re.match(r'(const )?(std::(__cxx11::)?(basic_)?string\b)', str(m[3])) else None
        return None

    def readstr(self, eng, st, a, inst, role='data id'):
        m = self.strof(a)
        if m and self.now and self.now[1] == 'end' and (self.now[0] == 'T' or self.now[:1] == ('A',)):
            self.uses.setdefault((self.now[0], a[2]), (role, inst)) if role == 'data id' else \
                self.uses.__setitem__((self.now[0], a[2]), (role, inst))
        if m and self.now and self.now[1] == 'end' and self.now[0] != 'X' and (('fresh',), a[2]) not in st.mem:
            self.flaw('uses the %s of another element' % m[0], inst)

    def token(self, eng, st, inst, f, last, args):
        new = tok('new')
        if last == 'newRoot':
            self.note(st, 'new', 'root')
            return [('ret', new, st)]
        if not args or not is_tok(args[0]):
            if last.startswith('~') or last in ('operator delete',):
                return [('ret', None, st)]
            return None
        n = args[0][1][2]
        if n == 'dead':
            self.flaw('uses a formula that was freed', inst)
            return [('stop', None, st)]
        if last == 'newChildNode':
            self.note(st, 'new', n)
            return [('ret', new, st)]
        if last == 'setTag':
            self.note(st, 'tag', n)
            return [('ret', None, st)]
        if last == 'addAttribute':
            if n != 'new':
                self.flaw('adds an attribute to another element', inst)
            if len(args) == 3:
                self.attribute(eng, st, inst, args[1], args[2])
            return [('ret', None, st)]
        if last == 'appendTextContent':
            self.text_part(inst, args)
            self.note(st, 'text', n)
            return [('ret', None, st)]
        if last == 'isRoot':
            if n in ('root', 'new') and (n == 'root' or ('new', 'root') in st.q):
                return [('ret', ('k', 1), st)]
            if n in ('cur', 'new') or n == 'par':
                return [('ret', ('k', 0), st)]
            return [('ret', ('s', ('isroot', n)), st)]
        if last == 'getParentNode':
            if n == 'root':
                return [('ret', ('k', 0), st)]
            if n == 'cur':
                return [('ret', tok('root' if self.now and self.now[3] == 2 else 'par'), st)]
            return [('ret', ('s', ('parent', n)), st)]
        if last.startswith('~'):
            self.note(st, 'free', n)
            for x in ([n] if n != 'root' else ['root', 'cur', 'anc', 'par', 'new', 'sub']):
                self.swap(st, tok(x), tok('dead'))
            return [('ret', None, st)]
        return None

    def text_part(self, inst, args):
        """text handed on from a callback: all of it"""
        if not ev_text(self.now) or len(args) < 2 or strip(args[1]) != ('s', ('evarg', 1)):
            return
        if len(args) < 3 or inst.a[2][0] not in ('i', 'a', 'c'):
            self.flaw('takes text without its length', inst)
        elif strip(args[2]) != ('s', ('evarg', 2)):
            if args[2] != ('k', 1):
                self.flaw('takes only a part of the text', inst)

    @staticmethod
    def swap(st, a, b):
        for k, v in list(st.mem.items()):
            if v == a:
                st.mem[k] = b
        for k, v in list(st.env.items()):
            if v == a:
                st.env[k] = b

    def ret(self, eng, st, fn, rv, kind, depth):
        if depth == 0:
            self.returns.append((kind, rv, st))


class Machine:
    """the callbacks registered by a parser function, explored from the state in which parsing starts"""

    def __init__(self, P, parser, args=None, want_data=None, client=Sax):
        self.P = P; self.parser = parser; self.args = args or {}
        self.want_data = want_data
        self.C = client(P); self.eng = Engine(P, self.C, maxdepth=14, budget=4000000)
        self.ctxs = {}            # context -> {key: cells}
        self.flaws = {}
        self.events = 0
        self.dropped = {}
        self.harvest = None
        self.eng.run_root(parser, args={k: v for k, v in self.args.items()})
        self.C.returns = []
        self.starts = self.C.at_parse
        self.final = {}
        if not self.starts:
            return
        s0 = self.starts[0][0]
        self.handler = s0.mem[(('sax',), 0)]; self.ud = s0.mem[(('sax',), 8)]
        self.C.ud = self.ud[1]
        ho = self.handler[1]
        self.cb = {}
        for st, _ in self.starts:
            for (o, off), v in st.mem.items():
                if o == ho and v[0] == 'f' and type(off) is int:
                    m = SLOTS.get(off - (self.handler[2] or 0))
                    if m:
                        self.cb[m] = P.F[v[1]]
        for f in [parser]:
            for x in f.all():
                if x.op == 'alloca' and self.ud[1] == ('al', (parser.name,), x.i):
                    self.C.udty = P.clean(x.d['ty'])
        r = P.reach([f.name for f in self.cb.values()])
        self.harvest = any(P.F[n].short.split('::')[-1] == 'processExpression' for n in r if n in P.F)
        self.main = 'mws:harvest' if self.harvest else 'mws:query'
        self.explore()

    # ------------------------------------------------------------ states
    def cells(self, mem, facts, dep=0):
        """what is kept of a state; dep: depth after the event minus the symbol (None: depth is a number)"""
        out = {}
        for (o, off), v in mem.items():
            if o == self.ud[1] or o == ('fresh',) or o[0] == 'hp' and o[1] not in ('tok', 'wr', 'ctxt', 'buf', 'enc'):
                if type(off) is not int:
                    continue
                if v[0] in ('k', 'f') or v[0] == 'p' and (v[1][0] in ('hp', 'al', 'g')):
                    out[(o, off)] = v
                elif v[0] == 's' and v[1] and v[1][0] == 'arg':
                    out[(o, off)] = v
                else:
                    c = lin(v)
                    if c is not None and dep is not None:
                        out[(o, off)] = ('lin', c - dep)
                    elif self.eng.rng(State((), {}, {}, facts), v)[:2] != (float('-inf'), float('inf')):
                        lo, hi, ex = self.eng.rng(State((), {}, {}, facts), v)
                        if lo == hi:
                            out[(o, off)] = ('k', int(lo))
        return out

    def add(self, ctx, cells):
        d = self.ctxs.setdefault(ctx, {})
        drop = self.dropped.setdefault(ctx, set())
        cells = {k: v for k, v in cells.items() if k not in drop}
        items = frozenset(cells.items())
        if any(k <= items for k in d):
            return
        # cells with many values are not kept
        vals = {}
        for k in list(d) + [items]:
            for c, v in k:
                vals.setdefault(c, set()).add(v)
        many = {c for c, v in vals.items() if len(v) > 6}
        if many:
            drop |= many
            old = list(d) + [items]
            d.clear()
            for k in old:
                n = frozenset((c, v) for c, v in k if c not in drop)
                if n not in d:
                    d[n] = True; self.work.append((ctx, n))
            return
        d[items] = True
        self.work.append((ctx, items))

    def explore(self):
        self.work = []
        for st, _ in self.starts:
            self.add(('D',), self.cells(st.mem, st.facts))
        n = 0
        while self.work:
            ctx, items = self.work.pop()
            if items not in self.ctxs[ctx]:
                continue
            n += 1
            if n > 6000:
                raise RuntimeError('too many parser states')
            self.visit(ctx, dict(items))
        self.attributes()

    def attributes(self):
        """elements with up to three attributes"""
        C = self.C; f = self.cb.get('startElement')
        if f is None or len(f.args) != 3:
            return
        self.attr_lists = 0
        runs = [(('E',), 'other', ['a', 'b', 'c'])] + [(('T', d), 'other', l) for d in (1, 2) for l in (['a', 'b', 'c'], ['a'], [])] + \
            [(('A', d), 'other', l) for d in (1, 2) for l in (['a', 'b', 'c'], [])]
        if self.harvest:
            U, D = 'url', 'mws:data_id'
            runs += [(('M',), 'mws:expr', l) for l in ([U, D], [D, U], ['a', U], ['a', D], [])] + \
                    [(('M',), 'mws:data', l) for l in ([D], ['a', D], [D, 'a'])]
        for ctx, nm, names in runs:
            for items in sorted(self.ctxs.get(ctx, ()), key=str):
                self.attr_lists += 1
                C.attr = names
                outs = self.fire(f, ctx, dict(items), 'start', nm, None, True)
                C.attr = None
                for kind, rv, s in outs:
                    if kind == 'ret':
                        self.judge_attrs(ctx, nm, names, s, f)

    def judge_attrs(self, ctx, nm, names, s, f):
        q = [x if isinstance(x, tuple) else (x,) for x in s.q]
        at = [x[1] for x in q if x[0] == 'attr']
        F = lambda w: self.flaw(w, ctx, 'start', nm, f)
        if ctx[0] in ('E', 'T', 'A'):
            if len(s.q) < 12 and None not in at and sorted(at) != list(range(len(names))):
                F('an attribute of a formula is not read exactly once' if ctx[0] != 'A' else 'an attribute within data is not copied exactly once')
            return
        k = 'T' if nm == 'mws:expr' else 'A'
        if k == 'A' and ('open',) not in q:
            return
        for (c, off), (role, inst) in sorted(self.C.uses.items(), key=str):
            if c != k or role == 'text':
                continue
            t = s.mem.get((self.ud[1], ('tag', off)))
            t = t[1] if t else None
            if t is None or t.startswith('*'):
                continue
            an = {'url': 'url', 'data id': 'mws:data_id'}[role]
            want = {'\1av%d' % names.index(an)} if an in names else {''}
            if role == 'data id' and k == 'T':
                want.add('')
            if t not in want:
                F('the %s of %s is not taken from its attribute' % (role if role != 'url' else 'URL', 'an expression' if k == 'T' else 'data'))

    def visit(self, ctx, cells):
        k = ctx[0]
        if k == 'D':
            for nm in NAMES:
                self.event(ctx, cells, 'start', nm)
            self.event(ctx, cells, 'enddoc', None)
        elif k == 'X':
            for nm in NAMES:
                self.event(ctx, cells, 'start', nm)
                self.event(ctx, cells, 'end', nm)
            self.event(ctx, cells, 'enddoc', None)
        else:
            for nm in NAMES:
                self.event(ctx, cells, 'start', nm)
            names = {'M': (self.main,), 'E': ('mws:expr',)}.get(k, ('mws:data',) if ctx[:2] == ('A', 1) else NAMES)
            for nm in names:
                self.event(ctx, cells, 'end', nm)
        for e in ('chars', 'chars2', 'chars3', 'warning', 'error'):
            self.event(ctx, cells, e, None)

    # ------------------------------------------------------------ one event
    def event(self, ctx, cells, ev, nm):
        role = {v: k for k, v in EV.items()}[ev]
        f = self.cb.get(role)
        deep = len(ctx) > 1 and ctx[1] == 2
        if f is None:
            if ev in ('error', 'chars2', 'chars3', 'warning'):
                return
            self.judge(ctx, ev, nm, (), cells, None)
            return
        if deep and ev == 'end':
            self.fire(f, ctx, {k: (('k', v[1] + 2) if v[0] == 'lin' else v) for k, v in cells.items()}, ev, nm, 2)
            self.fire(f, ctx, cells, ev, nm, 3)
        else:
            self.fire(f, ctx, cells, ev, nm, None)

    def fire(self, f, ctx, cells, ev, nm, d, attrs=False):
        C, eng = self.C, self.eng
        C.now = (ctx[0], ev, nm, d); C.nm = nm
        st = State((), {}, {}, {})
        for k, v in cells.items():
            st.mem[k] = ('op', 'add', ('s', DEEP), ('k', v[1])) if v[0] == 'lin' and v[1] else ('s', DEEP) if v[0] == 'lin' else v
        if ev == 'start' and nm in ('mws:expr', 'mws:data') and ctx[0] == 'M':
            for k in [k for k in st.mem if k[0] == ('fresh',)]:
                del st.mem[k]
        st.facts[DEEP] = (3 if d == 3 else 2, 1 << 24, frozenset())
        st.facts[('name',)] = (1, 1 << 62, frozenset([0]))
        st.mem[(('d', ('name',)), ('tag', 0))] = ('tag', '\1name')
        for k in range(len(f.args)):
            st.env[('a', k)] = self.ud if k == 0 else ('s', ('evarg', k))
        if ev in ('start', 'end'):
            st.env[('a', 1)] = ('s', ('name',))
        if attrs:
            st.env[('a', 2)] = ATTRS
            for i in range(len(C.attr)):
                for o, n in ((0, 'an'), (8, 'av')):
                    st.mem[(ATTRS[1], 16 * i + o)] = ('s', (n, i))
                    st.mem[(('d', (n, i)), ('tag', 0))] = ('tag', '\1%s%d' % (n, i))
                    st.facts[(n, i)] = (1, 1 << 62, frozenset([0]))
            st.mem[(ATTRS[1], 16 * len(C.attr))] = ('k', 0)
        fr = Engine.Frame(f, (f.name, 'cb'), 1, (f.name,))
        self.events += 1
        outs = eng.run(fr, st)
        if attrs:
            return outs
        for kind, rv, s in outs:
            if kind != 'ret':
                continue
            self.judge(ctx, ev, nm, s.q, None, s, d, cells)

    def flaw(self, what, ctx, ev, nm, f=None):
        self.flaws.setdefault(what, (ctx, ev, nm, f or self.cb.get({v: k for k, v in EV.items()}[ev])))

    def judge(self, ctx, ev, nm, q, same, s, d=None, before=None):
        """observations q against what the context demands; the context that follows"""
        k = ctx[0]; F = lambda w: self.flaw(w, ctx, ev, nm)
        deep = len(ctx) > 1 and ctx[1] == 2
        q = [x if isinstance(x, tuple) else (x,) for x in q]
        proc = [x for x in q if x[0] == 'process']
        news = [x for x in q if x[0] == 'new']
        tags = [x for x in q if x[0] == 'tag']
        text = [x for x in q if x[0] == 'text']
        wr = [x for x in q if x[0] in ('ws', 'we', 'wt', 'open', 'close')]
        free = [x for x in q if x[0] == 'free']
        data = [x for x in q if x[0] == 'data']
        chars = ev in ('chars', 'chars2', 'chars3')
        nxt = ctx; dep = 0; ren = {}
        if k == 'X' or ev == 'error':
            if (proc or data) and (self.harvest or ev == 'error'):
                F('something is handed over after an XML error')
            nxt = ('X',); ren = {'new': 'root'}
            if ev == 'enddoc':
                nxt = ('END', 'malformed')
        elif ev == 'warning' or ev == 'fatal':
            if q:
                F('a warning changes what is read')
        elif ev == 'enddoc':
            nxt = ('END', 'well-formed')
            if proc or data:
                F('something is handed over at the end of the document')
        else:
            quiet = lambda w: F(w) if proc or data or news or text or wr else None
            if k in ('D', 'M', 'U'):
                if ev == 'start':
                    if k == 'U':
                        nxt = ('U', 2, ctx[2]); dep = 1
                        quiet('an element to be skipped is read')
                    elif k == 'D' and nm == self.main:
                        nxt = ('M',)
                        quiet('the root element is read as a formula or data')
                    elif k == 'M' and nm == 'mws:expr':
                        nxt = ('E',)
                        quiet('an expression element is read as a formula or data')
                    elif k == 'M' and nm == 'mws:data' and self.harvest:
                        if wr and wr[-1] == ('open',):
                            nxt = ('A', 1)
                        else:
                            nxt = ('U', 1, 'M')
                        if proc or data or news or text:
                            F('a data element is read as a formula')
                    else:
                        nxt = ('U', 1, k)
                        quiet('an unknown element is read')
                elif ev == 'end':
                    if k == 'M':
                        nxt = ('D',)
                    elif k == 'U':
                        if deep:
                            nxt = ('U', 1, ctx[2]) if d == 2 else ctx
                            dep = -1
                        else:
                            nxt = (ctx[2],)
                    quiet('something is handed over at the end of %s' % ('a skipped element' if k == 'U' else 'the root element'))
                elif chars:
                    quiet('text outside of formulae and data is read')
            elif k in ('E', 'T'):
                if wr or data:
                    F('a part of a formula is read as data')
                if ev == 'start':
                    want = ('new', 'root') if k == 'E' else ('new', 'cur') if deep else ('new', 'root')
                    if len(news) != 1 or len(tags) != 1 or tags[0] != ('tag', 'new') or proc or text or free:
                        F('an element of a formula does not become exactly one node with its name')
                    elif news[0] != want:
                        F('an element of a formula becomes a child of the wrong node')
                    if k == 'E':
                        nxt = ('T', 1); ren = {'new': 'root'}
                    else:
                        nxt = ('T', 2); dep = 1; ren = {'new': 'cur', 'cur': 'anc'}
                elif ev == 'end':
                    if news or tags or text:
                        F('the end of an element changes the formula')
                    if k == 'E':
                        nxt = ('M',)
                        if proc:
                            F('an expression element without a formula hands over a formula')
                    elif not deep:
                        nxt = ('E',)
                        if len(proc) != 1 or proc[0] != ('process', 'root'):
                            F('a complete formula is not handed over exactly once')
                        if self.harvest and free != [('free', 'root')]:
                            F('a formula that was handed over is not freed exactly once')
                        if not self.harvest and free:
                            F('the formula of a query is freed while it is read')
                        ren = {'root': 'kept'}
                    else:
                        if proc:
                            F('a formula is handed over before it is complete')
                        nxt = ('T', 1) if d == 2 else ctx
                        dep = -1
                        ren = {'par': 'cur', 'cur': 'sub'} if d != 2 else {'cur': 'sub'}
                        if free:
                            F('a part of a formula is freed while it is read')
                elif chars:
                    if k == 'T' and text != [('text', 'cur' if deep else 'root')]:
                        F('text in a formula is not added exactly once to its element')
                    if k == 'E' and (text or news):
                        F('text outside of formulae and data is read')
                    if proc:
                        F('text hands over a formula')
            elif k == 'A':
                if proc or news or text:
                    F('a part of a data element is read as a formula')
                if ev == 'start':
                    if wr != [('ws',)]:
                        F('an element within data is not copied exactly once')
                    nxt = ('A', 2); dep = 1
                elif ev == 'end':
                    if deep:
                        if wr != [('we',)]:
                            F('the end of an element within data is not copied exactly once')
                        nxt = ('A', 1) if d == 2 else ctx
                        dep = -1
                        if data:
                            F('a data element is handed over before it is complete')
                    else:
                        nxt = ('M',)
                        if ('close',) not in wr:
                            F('a data element is complete but its copy is not')
                        want = self.want_data
                        if want is not None and len(data) != int(want):
                            F('a data element is not handed over exactly once' if want else 'a data element is handed over although data is ignored')
                elif chars and not [x for x in wr if x[0] == 'wt']:
                    F('text within data is not copied')
        # the state that follows
        if s is None:
            cells = dict(same)
        else:
            mem = s.mem
            if d == 2 or not deep and dep == 1:
                # the depth is a number here
                cells = self.cells(mem, s.facts, None)
                if dep == 1:
                    # from depth 1 to depth 2: counters keep their distance to the depth
                    for c, v in list(cells.items()):
                        u = before.get(c)
                        if v[0] == 'k' and u is not None and u[0] == 'k' and v[1] == u[1] + 1 and c[0] == self.ud[1]:
                            cells[c] = ('lin', v[1] - 2)
            else:
                cells = self.cells(mem, s.facts, dep if deep else 0)
            if ren:
                for c, v in list(cells.items()):
                    if is_tok(v):
                        cells[c] = tok(ren.get(v[1][2], v[1][2]))
        if nxt[0] == 'END':
            c2 = {c: v for c, v in cells.items()}
            self.final.setdefault(nxt[1], {})[frozenset(c2.items())] = True
        else:
            self.add(nxt, cells)

    def finish(self):
        """what the parser function returns for the final states: list of (well-formed, kind, rv, state)"""
        fin = []
        for w, d in self.final.items():
            seen = []
            for items in d:
                if not any(x <= items for x in d if x != items):
                    fin.append((dict(items), w == 'well-formed'))
        C = Sax(self.P); C.ud = self.ud[1]; C.final = fin
        eng = Engine(self.P, C, maxdepth=14, budget=4000000)
        eng.run_root(self.parser, args=self.args)
        return C.returns
