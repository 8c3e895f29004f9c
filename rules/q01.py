"""encoded formulae are well formed: every node once, leaves without children, kinds in their own id ranges"""
from absint import Engine, Client, State

M24 = (1 << 24) - 1
LABEL = {'v': 'a variable', 'r': 'a range', 'c': 'a constant'}


def dict_id(v):
    return v[0] == 's' and v[1][0] in ('put', 'got') or v[0] == 'op' and v[1] in ('add', 'm24', 'zext') and any(
        type(x) is tuple and dict_id(x) for x in v[2:])


class Tok(Client):
    """gives tokens their two bit fields: values ('op', 'tok', arity, id)"""
    name = 'Q01'
    loop_ranges = True

    def arith(self, eng, st, op, l, r):
        if l[0] == 'k' and r[0] != 'k':
            l, r = r, l
            if op in ('shl', 'lshr', 'sub'):
                l, r = r, l
        tok = l[:2] == ('op', 'tok')
        if op == 'and' and r[0] == 'k':
            if r[1] == M24:
                return ('op', 'm24', l)
            if r[1] == 255:
                return l[2] if tok else ('op', 'lo', l)
            if r[1] in (-256, 0xffffff00):
                return ('op', 'hi', l[3] if tok else None)
        if op == 'shl' and r == ('k', 8) and l[:2] == ('op', 'm24'):
            return ('op', 'hi', l[2])
        if op == 'shl' and r == ('k', 8) and l[0] == 'k':
            return ('op', 'hi', l)
        if op == 'or':
            if r[:2] == ('op', 'hi'):
                l, r = r, l
            if l[:2] == ('op', 'hi'):
                a = r[2] if r[:2] == ('op', 'lo') else r
                return ('op', 'tok', a, l[2] if l[2] is not None else ('s', ('unset', 'id')))
        if op == 'add' and (dict_id(l) or dict_id(r)):
            return ('op', 'add', l, r)
        if op == 'lshr' and r == ('k', 8) and tok:
            return l[3]
        return None


class Enc(Tok):
    """q = (kind, named, state of the iteration over the children, emissions, worklist empty?, unknown meaning met, last meaning
    found?)"""
    tags = {'mws:qvar': 'v', 'mws:range': 'r'}

    def __init__(self, P):
        self.P = P; self.bad = {}; self.ids = {}; self.pops = set(); self.emits = set(); self.lifo = False

    def init_q(self):
        return ('-', False, None, 0, None, False, None)

    def v(self, what, loc=None):
        self.bad.setdefault(what, loc)

    def finish(self, q, loc):
        kind, named, ch, em, more, poison, found = q
        if kind == '-':
            return
        if em != 1:
            self.v('a node of the formula is encoded %s' % ('more than once' if em else 'not at all'), loc)
        if kind in ('?', 'c') and ch != 'end':
            self.v('the children of a constant are not all encoded', loc)

    def call(self, eng, st, inst, fobj, short, args):
        f = eng.P.F.get(fobj) if isinstance(fobj, str) else fobj
        q = st.q
        name = short.split('::')[-1].split('<')[0] if short else ''
        dem = self.dem(eng, fobj)
        loc = inst.loc()
        if name == 'getArity' and 'CmmlToken' in short:
            return [('ret', ('s', ('arity',)), st)]
        if name.startswith('operator==') or name.startswith('operator!=') or name == 'compare':
            lit = next((t for t in (self.lit(eng, a) for a in args) if t is not None), None)
            if lit is not None and lit in self.tags:
                want = self.tags[lit]; eq = name == 'operator=='
                out = []
                if q[0] in ('?', '-') or q[0][0] == '!':
                    excl = q[0][1:] if q[0][0] == '!' else ''
                    if want not in excl:
                        s = st.copy(); s.q = (want,) + q[1:]
                        out.append(('ret', ('k', int(eq)), s))
                    rest = ''.join(sorted(set(excl + want)))
                    s = st.copy(); s.q = (('!' + rest) if rest != 'rv' else 'c',) + q[1:]
                    out.append(('ret', ('k', int(not eq)), s))
                    return out
                return [('ret', ('k', int((q[0] == want) == eq)), st)]
        if not dem.startswith('std::') and 'IdDictionary' in short and name == 'put':
            st.q = (q[0], True) + q[2:]
            s = ('s', ('put', st.q[0][0] == 'v'))
            st.facts[s[1]] = (1, (1 << 32) - 1 - 161, frozenset())
            return [('ret', s, st)]
        if not dem.startswith('std::') and 'IdDictionary' in short and name == 'get':
            a = st.copy()
            a.facts[('got',)] = (1, (1 << 32) - 1 - 161, frozenset())
            st.q = q[:5] + (True, False)
            a.q = q[:6] + (True,)
            return [('ret', ('k', 0), st), ('ret', ('s', ('got',)), a)]
        lib = dem.startswith('std::') or dem.startswith('bool std::') or dem.startswith('__gnu')
        if not (f is None or f.decl or lib):
            return None
        if 'mws::types::CmmlToken const*' in dem or 'mws::types::CmmlToken*' in dem:
            cls = dem.split('::' + name)[0] if dem.startswith('std::') else dem
            work = not ('list<' in cls or 'List_' in cls)
            if work:
                self.lifo = self.lifo or 'std::stack' in dem
                if name in ('pop', 'pop_back', 'pop_front'):
                    self.finish(q, loc)
                    self.pops.add(loc)
                    st.q = ('?', False, None, 0, None, q[5], None)
                    st.facts.pop(('arity',), None)
                    return [('ret', None, st)]
                if name == 'empty':
                    a = st.copy()
                    st.q = q[:4] + ('done',) + q[5:]
                    a.q = q[:4] + ('more',) + q[5:]
                    return [('ret', ('k', 1), st), ('ret', ('k', 0), a)]
                if name in ('push', 'push_back', 'emplace', 'emplace_back', 'push_front'):
                    k = q[0]
                    if k in ('v', 'r'):
                        self.v('children of %s are encoded although it counts as a leaf' % LABEL[k], loc)
                    if k != '-' and q[2] is not None:
                        if q[2] != 'el':
                            self.v('a child is put twice on the list of nodes to encode', loc)
                        st.q = q[:2] + ('ok',) + q[3:]
                    return [('ret', None, st)]
            else:
                if name in ('rbegin', 'begin', 'crbegin', 'cbegin'):
                    st.q = q[:2] + ('ok',) + q[3:]
                    if self.lifo and name in ('begin', 'cbegin'):
                        self.v('the children of a node are encoded in reverse order', loc)
                    return None
                if name in ('operator!=', 'operator=='):
                    if q[2] == 'el':
                        self.v('a child is left out', loc)
                    if q[2] is None:
                        return None
                    a = st.copy()
                    st.q = q[:2] + ('el',) + q[3:]
                    a.q = q[:2] + ('end',) + q[3:]
                    t = int(name == 'operator!=')
                    return [('ret', ('k', t), st), ('ret', ('k', 1 - t), a)]
        if 'encoded_token_s' in dem.split('(')[0] and name in ('push_back', 'emplace_back', 'insert') and 'vector<' in dem:
            self.emit(eng, st, inst, args)
            st.q = q[:3] + (min(2, q[3] + 1),) + q[4:]
            return [('ret', None, st)]
        return None

    def dem(self, eng, fobj):
        f = eng.P.F.get(fobj) if isinstance(fobj, str) else fobj
        return f.dem if f is not None else (fobj if isinstance(fobj, str) else '') or ''

    def lit(self, eng, a):
        from strs import literal
        return literal(eng.P, a)

    def emit(self, eng, st, inst, args):
        loc = inst.loc()
        self.emits.add(loc)
        v = eng.load(st, args[1], inst, None) if args[1][0] == 'p' else args[1]
        kind, named, ch, em, more, poison, found = st.q
        if kind[0] == '!' or kind == '?':
            kind = 'c'
        if v[:2] != ('op', 'tok'):
            self.v('the token encoded for %s is not built on every path' % LABEL.get(kind, kind), loc)
            return
        ar, i = v[2], v[3]
        if i[0] == 's' and i[1][0] == 'unset':
            self.v('the id of the token encoded for %s is not set' % LABEL[kind], loc); return
        if kind == 'c':
            if ar != ('s', ('arity',)):
                self.v('the arity encoded for a constant is not its number of children', loc)
            elif eng.rng(st, ar)[1] > 255 or eng.rng(st, ar)[0] < 0 and eng.rng(st, ar)[1] > 255:
                self.v('the arity of a constant may not fit its field', loc)
        elif ar != ('k', 0):
            self.v('%s is encoded with an arity' % LABEL[kind], loc)
        lo, hi, _ = eng.rng(st, i)
        cls = kind if kind != 'v' else 'named' if named else 'anon'
        if kind == 'c' and found is False:
            return      # the result is a failure (ret)
        if kind == 'c' and not dict_id(i):
            self.v('the id of a constant is not the one the dictionary gives its meaning', loc)
        if cls == 'named' and not dict_id(i):
            self.v('the id of a named variable is not the one its name was given', loc)
        a, b = self.ids.get(cls, (lo, hi))
        self.ids[cls] = (min(a, lo), max(b, hi))

    def ret(self, eng, st, fn, rv, kind, depth):
        if depth or kind != 'ret':
            return
        lo, hi, ex = eng.rng(st, rv)
        if not (lo <= 0 <= hi and 0 not in ex):
            return
        self.finish(st.q, fn.short)
        if st.q[4] != 'done':
            self.v('reports success before all nodes are encoded', fn.short)
        if st.q[5]:
            self.v('reports success although a meaning is unknown', fn.short)


class Pred(Tok):
    pass


def run(P, rep, tier):
    rep.rule = ('Abstract interpretation of the encoder, once per kind of encoder, with the bit fields of tokens tracked: between two nodes taken from the '
                'work list exactly one token is emitted, its arity is the number of children listed for it (0 for variables and ranges, whose children are '
                'not listed), the intervals of the ids of the kinds are disjoint and those the classification predicates accept; success is only '
                'reported with the work list empty and every meaning known.')
    rep.assumptions = ['a dictionary of meanings holds fewer than 2^32 - 161 keys (Q02 decides that it numbers them from 1)',
                       'containers, strings and iterators of the standard library do what they say']
    base = 'mws::index::ExpressionEncoder'
    root = P.fn(base + '::encode')
    if root is None:
        rep.error('no encoder found'); return
    vts = {}
    for g, d in P.G.items():
        if not g.startswith('_ZTV') or not d.get('vt'):
            continue
        cls = d['dem'].replace('vtable for ', '')
        if cls != base and any(t[1] == '_ZTSN3mws5index17ExpressionEncoderE' for t in d.get('types', ())):
            vts[cls] = g
    ids = {}
    for cls, g in sorted(vts.items()):
        c = Enc(P)
        eng = Engine(P, c, 10, 3000000)
        out = eng.run_root(root, mem={(('d', ('arg', 0)), 0): ('p', ('g', g), 16)})
        short = cls.split('::')[-1]
        rep.ob('%s: %d ways to finish' % (short, len(out)), not c.bad)
        for w, loc in sorted(c.bad.items()):
            rep.viol('%s|%s' % (short, w), '%s: %s (%s)' % (short, w, loc or ''))
        ids[short] = c.ids
        for k in ('anon', 'named', 'r', 'c'):
            if k not in c.ids:
                rep.error('%s: no %s token is ever emitted' % (short, k))
        L = sorted((v, k) for k, v in c.ids.items())
        for (a, ka), (b, kb) in zip(L, L[1:]):
            ok = a[1] < b[0]
            rep.ob('%s: ids of %s %s and of %s %s are disjoint' % (short, ka, a, kb, b), ok)
            if not ok:
                rep.viol('%s|ids of %s and %s overlap' % (short, ka, kb), '%s: ids of %s %s and of %s %s overlap' % (short, ka, a, kb, b))
        for k, (lo, hi) in c.ids.items():
            if k in ('anon', 'r') and lo == hi:
                rep.viol('%s|ids of %s are all alike' % (short, k), '%s: every %s of a formula gets the id %d'
                         % (short, 'range' if k == 'r' else 'anonymous variable', lo))
            if lo < 1 or hi > M24:
                rep.viol('%s|ids of %s do not fit' % (short, k), '%s: ids of %s lie in %s, which the field does not hold' % (short, k, (lo, hi)))
        rep.need('%s: nodes taken' % short, len(c.pops), 1)
        rep.need('%s: tokens emitted' % short, len(c.emits), 1)
    # variables of queries and of indexed formulae are kept apart, other ids are shared
    names = sorted(ids)
    for i, a in enumerate(names):
        for b in names[i + 1:]:
            for ka in ('anon', 'named'):
                for kb in ('anon', 'named'):
                    if ka in ids[a] and kb in ids[b]:
                        x, y = ids[a][ka], ids[b][kb]
                        ok = x[1] < y[0] or y[1] < x[0]
                        rep.ob('%s %s %s and %s %s %s are disjoint' % (a, ka, x, b, kb, y), ok)
                        if not ok:
                            rep.viol('%s|%s %s variables share ids' % (a, ka, b), '%s variables of %s %s and %s variables of %s %s share ids'
                                     % (ka, a, x, kb, b, y))
    # the predicates
    preds = 0
    for pn, pos in (('encoded_token_is_var', ('anon', 'named')), ('encoded_token_is_range', ('r',)), ('encoded_token_is_anon_var', ('anon',))):
        f = P.fn(pn)
        if f is None:
            continue
        for a in names:
            for k, (lo, hi) in sorted(ids[a].items()):
                if pn == 'encoded_token_is_anon_var' and k in 'rc':
                    pass
                preds += 1
                for v in probes(P, f, lo, hi):
                    ok = v[2] == (k in pos)
                    if not ok:
                        rep.viol('%s|%s of %s' % (pn, k, a), '%s answers %s for ids %s to %s, which %s gives to %s tokens' % (pn, v[2], v[0], v[1], a, k))
                        break
                rep.ob('%s is %s for %s of %s %s' % (pn, k in pos, k, a, (lo, hi)), True)
    rep.need('classified intervals', preds, 8)


def probes(P, f, lo, hi):
    """-> [(from, to, answer)]: what the predicate answers for ids lo..hi"""
    c = Pred()
    eng = Engine(P, c, 4, 100000)
    s = ('id',)
    out = eng.run_root(f, args={0: ('op', 'tok', ('s', ('ar',)), ('s', s))}, facts={s: (lo, hi, frozenset())})
    r = []
    for kind, rv, st in out:
        x = st.facts.get(s, (lo, hi, ()))
        t = eng.truth(st, rv)
        if t is None:
            y = st.copy(); n = st.copy()
            if eng.assume(y, rv, True):
                z = y.facts.get(s, (lo, hi, ())); r.append((z[0], z[1], True))
            if eng.assume(n, rv, False):
                z = n.facts.get(s, (lo, hi, ())); r.append((z[0], z[1], False))
        else:
            r.append((x[0], x[1], t))
    return r
