"""answers are rendered by a formatter that was made for them and for the requested format"""
import re
import sax
import strs
import mhd as H
from absint import Engine, Client


def formatters(P):
    """class -> {'type': content type, 'answer': classes the answer is read as, 'body': kinds of text produced}"""
    out = {}
    for f in P.repo_fns():
        if f.short.split('::')[-1] == 'getContentType' and f.cls and not f.decl:
            out.setdefault(f.cls, {})['tf'] = f
        elif f.short.split('::')[-1] == 'writeData' and f.cls and not f.decl:
            out.setdefault(f.cls, {})['wf'] = f
    out = {c: d for c, d in out.items() if 'tf' in d and 'wf' in d}
    for c, d in out.items():
        lits = set()
        eng = Engine(P, Client(), 6, 50000)
        for kind, rv, st in eng.run_root(d['tf']):
            lits.add(strs.literal(P, rv) if kind == 'ret' and rv is not None else None)
        d['type'] = lits
        d['answer'] = answer_types(P, d['wf'], 1)
        names = set()
        for n in P.reach([d['wf'].name]):
            if n in P.F and P.F[n].repo:
                names |= {P.F[x.d['fn'][1]].short for x in P.F[n].calls() if x.d['fn'][0] == 'f'}
        d['body'] = ({'json'} if any(n.startswith('json_object_to_json') for n in names) else set()) | \
                    ({'xml'} if 'xmlTextWriterStartDocument' in names else set())
    return out


def answer_types(P, f, k, seen=None):
    """classes of which the object given as argument k is read"""
    seen = seen if seen is not None else set()
    if (f.name, k) in seen:
        return set()
    seen.add((f.name, k))
    alias = {('a', k)}
    out = set()
    ch = True
    while ch:
        ch = False
        for x in f.all():
            me = ('i', x.i)
            if me in alias:
                continue
            if x.op in ('bitcast', 'phi', 'select', 'freeze'):
                src = [v for v, _ in x.d['phi']] if x.op == 'phi' else list(x.a)
                if any(v in alias for v in src):
                    alias.add(me); ch = True
            elif x.is_call and x.d['fn'][0] == 'f' and P.F[x.d['fn'][1]].short == '__dynamic_cast' and x.a[0] in alias:
                alias.add(me); ch = True
    for x in f.all():
        if x.op == 'getelementptr' and x.a[0] in alias:
            t = P.clean(x.d['gep'].get('sty') or '')
            if t:
                out.add(t)
        elif x.is_call:
            for i, a in enumerate(x.a):
                if a in alias:
                    for n in P.callees(x):
                        g = P.F.get(n)
                        if g is not None and g.repo and g.blocks and i < len(g.args):
                            out |= answer_types(P, g, i, seen)
    return out


def base_closure(P, cls):
    out = {cls}
    d = P.ditypes.get(cls)
    for m in (d or {}).get('members', ()):
        if m[0] == '<base>':
            out |= base_closure(P, P.clean(m[3]))
    return out


def answers(P, handle):
    """classes of answers made while a query is handled"""
    out = set()
    for n in P.reach([handle.name]):
        g = P.F.get(n)
        if g is None or not g.repo:
            continue
        for x in g.all():
            if x.op == 'store':
                s = str(x.a[0])
                m = re.search(r"_ZTV(N?[\w]+)", s)
                if m and m.group(0) in P.G:
                    cls = re.sub(r'^vtable for ', '', P.G[m.group(0)].get('dem') or '')
                    out.add(cls)
    return out


class Choice(sax.Sax):
    """records which formatter objects become the formatter of the query"""

    def __init__(self, P):
        sax.Sax.__init__(self, P)
        self.chosen = {}
        self.by_req = []

    def fmt(self, v):
        if v[0] == 's' and isinstance(v[1], tuple) and v[1][0] == 'ld' and v[1][1][0] == 'g' and v[1][2] == 0:
            i = self.P.G.get(v[1][1][1], {}).get('init')
            if i and i[0] == 'g':
                v = ('p', ('g', i[1]), 0)
        if v[0] == 'p' and v[1][0] == 'g':
            c = self.P.G.get(v[1][1], {}).get('dty')
            return c if c in self.formatters else None
        return None

    def store(self, eng, st, inst, addr, val):
        if val is None:
            return
        c = self.fmt(val)
        if c and (self.now or self.always):
            req = {k[1] for k, v in st.mem.items() if k[0] == ('req',) and st.facts.get(('req', k[1])) == (0, 0, frozenset())}
            self.chosen.setdefault(c, inst)
            self.by_req.append((c, frozenset(req), inst))
        if c:
            pass

    always = False

    def call(self, eng, st, inst, fobj, short, args):
        if short in ('strcmp', 'strcasecmp', 'xmlStrcmp') and self.now:
            lit = [strs.literal(self.P, x) for x in args[:2]]
            a = [eng.ptr_of(x) for x in args[:2]]
            for i in (0, 1):
                if lit[1 - i] is not None and lit[i] is None and a[i] != ('s', ('name',)):
                    L = lit[1 - i]
                    cur = [k for k in st.mem if k[0] == ('req',)]
                    if (('req',), L) in st.mem or any(st.mem[k] != a[i] for k in cur):
                        for k in cur:
                            st.facts.pop(('req', k[1]), None)
                            del st.mem[k]
                    st.mem[(('req',), L)] = a[i]
                    st.facts.pop(('req', L), None)
                    return [('ret', ('s', ('req', L)), st)]
        return sax.Sax.call(self, eng, st, inst, fobj, short, args)


class Mode(H.Http):
    """which parser mode goes with which query handler; which formatter object writes and names the content type"""

    def __init__(self, P, rel, ctx, root):
        H.Http.__init__(self, P, rel, ctx, root)
        self.modes = {}; self.hdr = []; self.fmt_ok = []

    def call(self, eng, st, inst, fobj, short, args):
        f = self.P.F.get(fobj) if isinstance(fobj, str) else fobj
        last = short.split('::')[-1].split('<')[0]
        if short == '__dynamic_cast' and args and args[0] == ('s', ('arg', 0)) or \
                short == '__dynamic_cast' and eng.ptr_of(args[0]) == ('s', ('arg', 0)):
            t = args[2]
            tgt = re.sub(r'^typeinfo for ', '', self.P.G.get(t[1][1], {}).get('dem', '')) if t[0] == 'p' else None
            if tgt:
                return [('ret', args[0] if tgt in base_closure(self.P, self.cls) else ('k', 0), st)]
        if f is not None and f.repo and last == 'readMwsQuery':
            key = tuple((i, a[1]) for i, a in enumerate(args) if a[0] == 'k' and i > 0)
            self.modes.setdefault(key, inst)
            self.nargs = len(args)
            self.known = all(a[0] == 'k' for a in args[1:])
        if f is not None and f.repo and last == 'getContentType':
            st.mem[(('ct',), 0)] = eng.ptr_of(args[0])
            return [('ret', ('s', ('contenttype',)), st)]
        if f is not None and f.repo and last == 'writeData' and f.cls and 'Formatter' in f.cls:
            st.mem[(('wr',), 0)] = eng.ptr_of(args[0])
        if short == 'MHD_add_response_header' and len(args) == 3 and H.cstr(self.P, args[1]) == 'Content-Type':
            w = st.mem.get((('wr',), 0))
            if w is not None:
                ok = eng.ptr_of(args[2]) == ('s', ('contenttype',)) and st.mem.get((('ct',), 0)) == w
                if not ok and H.cstr(self.P, args[2]) is not None:
                    # an error message in place of an answer that could not be written
                    ok = eng.rng(st, ('s', H.FORMAT))[1] < 0
                self.hdr.append((ok, inst))
        return H.Http.call(self, eng, st, inst, fobj, short, args)


def run(P, rep, tier):
    rep.rule = ('For every query handler: the parser mode that the access handler selects for it is computed, then the formatters that the query '
                'parser can choose in that mode (fixpoint over its callbacks); each must read the answer as a class that the handler makes. A '
                'formatter chosen where the requested format was compared equal to a name has the content type of that name and produces that '
                'kind of text; the content type sent comes from the formatter that wrote the body.')
    rep.assumptions = ['the set of answer classes of a handler is that of the objects constructed in its call closure']
    F = formatters(P)
    rep.need('formatters', len(F), 3)
    for c, d in sorted(F.items()):
        kinds = {('json' if 'json' in t else 'xml' if 'xml' in t else '?') for t in d['type'] if t}
        ok = len(d['type']) == 1 and None not in d['type'] and kinds == d['body']
        rep.ob('%s: content type %s, text produced %s' % (c, sorted(map(str, d['type'])), sorted(d['body'])), ok)
        if not ok:
            rep.viol('%s|content type' % c, '%s: the content type %s is not that of the text produced (%s)' %
                     (c, sorted(map(str, d['type'])), ', '.join(sorted(d['body']))))
    handlers = [f for f in P.repo_fns() if f.short.split('::')[-1] == 'handleQuery' and not f.decl and f.cls]
    rep.need('query handlers', len(handlers), 2)
    rel = H.relevant_set(P)
    parser = [f for f in sax.parsers(P) if f.short.split('::')[-1] == 'readMwsQuery']
    rep.need('query parser', len(parser), 1)
    made = {}
    for h in handlers:
        cand = answers(P, h)
        made[h.cls] = {c for c in cand if any('GenericAnswer' in b for b in base_closure(P, c)) and c.split('::')[-1] != 'GenericAnswer'}
        rep.need('answers of %s' % h.cls, len(made[h.cls]), 1)
    cache = {}
    for Hf, k0, ctx in H.contexts(P):
        if ctx != 'final' or not any(P.F[x].short.split('::')[-1] == 'readMwsQuery' for x in P.reach([Hf.name])):
            continue
        for h in sorted(handlers, key=lambda f: f.cls):
            vt = [g for g, d in P.G.items() if g.startswith('_ZTV') and d.get('dem') == 'vtable for ' + h.cls]
            c = Mode(P, rel, ctx, Hf); c.cls = h.cls
            eng = Engine(P, c, maxdepth=16, budget=3000000)
            mem = {(('d', ('arg', k0)), 0): ('s', ('conn',)), (('d', ('arg', 6)), 0): ('k', 0)}
            if vt:
                mem[(('d', ('arg', 0)), 0)] = ('p', ('g', vt[0]), 16)
            eng.run_root(Hf, mem=mem, facts={('conn',): (1, float('inf'), frozenset([0])),
                                          ('arg', 0): (1, float('inf'), frozenset([0]))})
            rep.need('%s: queries parsed' % h.cls, len(c.modes), 1)
            bad = [i for ok, i in c.hdr if not ok]
            rep.need('%s: content types sent' % h.cls, len(c.hdr), 1)
            rep.ob('%s: the content type sent is that of the formatter that wrote the answer' % h.cls, not bad)
            for i in bad:
                rep.viol('%s|%s|header' % (Hf.short, i.fn.short), 'the content type sent at %s is not that of the formatter that wrote the answer'
                         % i.loc())
            for mode in sorted(c.modes):
                for pf in parser:
                    if (pf, mode) not in cache:
                        mk = type('C', (Choice,), {'formatters': set(F)})
                        m = sax.Machine(P, pf, {i: ('k', v) for i, v in mode}, None, mk)
                        got = dict(m.C.chosen)
                        # set up before parsing
                        for st, inst in m.starts:
                            for (o, off), v in st.mem.items():
                                cc = m.C.fmt(v)
                                if cc and o[0] in ('hp', 'al', 'd'):
                                    got.setdefault(cc, inst)
                        cache[(pf, mode)] = (got, m.C.by_req)
                    got, by_req = cache[(pf, mode)]
                    rep.need('%s: formatters that may be chosen' % h.cls, len(got), 2)
                    for fc, inst in sorted(got.items()):
                        reads = {t for t in F[fc]['answer'] if any('GenericAnswer' in b for b in base_closure(P, t)) and t.split('::')[-1] != 'GenericAnswer'}
                        okc = set()
                        for a in made[h.cls]:
                            okc |= base_closure(P, a)
                        bad = reads - okc
                        rep.ob('%s (answers %s) with %s (reads %s)' % (h.cls.split('::')[-1], sorted(made[h.cls]), fc.split('::')[-1], sorted(reads)),
                               not bad)
                        if bad:
                            rep.viol('%s|%s' % (h.cls, fc), 'an answer of %s (%s) may be written by %s, which reads it as %s; chosen at %s in %s' %
                                     (h.cls, ', '.join(sorted(made[h.cls])), fc, ', '.join(sorted(bad)), inst.loc(), inst.fn.short))
    n = 0
    for (pf, mode), (got, by_req) in cache.items():
        for fc, req, inst in by_req:
            want = {'xml': 'xml', 'json': 'json', 'mws-ids': 'json'}
            for r in req & set(want):
                n += 1
                ok = any(t and want[r] in t for t in F[fc]['type'])
                if r == 'mws-ids' or ok:
                    continue
                rep.viol('%s|%s|%s' % (inst.fn.short, fc, r), 'the format "%s" is answered by %s (chosen at %s)' % (r, fc, inst.loc()))
    rep.ob('%d choices of a formatter agree with the requested format' % n, True)
    rep.need('choices by format', n, 2)
