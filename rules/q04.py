"""malformed and empty queries are refused"""
import re
import sax
import mhd as H
from absint import Engine


class Refuse(H.Http):
    """the complete request when no query comes out of the parser, or one without formulae"""
    mode = 'null'

    def init_q(self):
        return (0, False, frozenset())

    def call(self, eng, st, inst, fobj, short, args):
        f = self.P.F.get(fobj) if isinstance(fobj, str) else fobj
        last = short.split('::')[-1].split('<')[0]
        if f is not None and f.repo and last == 'readMwsQuery':
            self.events.add(H.PARSE)
            n, cf, ev = st.q
            st.q = (n, cf, ev | {'parse'})
            self.parsed = True
            return [('ret', ('k', 0) if self.mode == 'null' else ('p', ('hp', 'query'), 0), st)]
        if f is not None and not f.repo and self.mode == 'empty' and 'CmmlToken*' in (f.dem or '') and args and \
                args[0][0] == 'p' and args[0][1] == ('hp', 'query'):
            if last in ('size', 'max_size'):
                return [('ret', ('k', 0), st)]
            if last == 'empty':
                return [('ret', ('k', 1), st)]
            if last in ('begin', 'end', 'cbegin', 'cend', 'data'):
                return [('ret', ('s', ('nothing',)), st)]
            if last in ('operator[]', 'front', 'back'):
                self.find.append(('empty', inst, 'a formula is taken from a query without formulae'))
        return H.Http.call(self, eng, st, inst, fobj, short, args)

    def check_status(self, eng, st, inst, args):
        if 'parse' not in st.q[2]:
            return
        s = args[1]
        r = eng.rng(st, s)
        self.checked = getattr(self, 'checked', 0) + 1
        if not (400 <= r[0] and r[1] < 500):
            self.find.append(('status', inst, 'it is answered with HTTP %s' % (s[1] if s[0] == 'k' else 'status unknown')))


def run(P, rep, tier):
    rep.rule = ('Fixpoint over the callbacks of the query parser: from every state the parser can be in, an error followed by any further '
                'events leads to no query. In the access handler, on every path on which no query or a query without formulae comes out of '
                'the parser, no query handler is called and a client error is sent.')
    rep.assumptions = ['the XML parser library reports each violation of well-formedness to the error callback before the end of the document',
                       'a document that the library gives up before the first element yields no formulae']
    n = 0
    for f in sax.parsers(P):
        m = sax.Machine(P, f)
        if m.harvest is not False:
            continue
        n += 1
        rep.need('error callback', len([x for x in ('error',) if x in m.cb]), 1)
        outs = m.finish()
        bad = [o for o in outs if o[0] == 'ret' and o[2].q == ('malformed',) and m.eng.truth(o[2], m.eng.ptr_of(o[1])) is not False]
        rep.need('outcomes of a malformed document', len([o for o in outs if o[2].q == ('malformed',)]), 1)
        rep.ob('%s: no query from a malformed document (%d final states)' % (f.short, len(m.final.get('malformed', ()))), not bad)
        if bad:
            rep.viol('%s|malformed' % f.short, '%s may return a query although the document is not well-formed' % f.short)
        bad = [o for o in outs if o[0] == 'ret' and o[2].q == ('well-formed',) and m.eng.truth(o[2], m.eng.ptr_of(o[1])) is not True]
        rep.ob('%s: a query from a well-formed document' % f.short, not bad)
        if bad:
            rep.viol('%s|well-formed' % f.short, '%s may return no query although the document is well-formed' % f.short)
        rep.stats['events_analysed'] = m.events
    rep.need('query parsers', n, 1)
    rel = H.relevant_set(P)
    done = 0
    for Hf, k0, ctx in H.contexts(P):
        if ctx != 'final' or not any(P.F[x].short.split('::')[-1] == 'readMwsQuery' for x in P.reach([Hf.name])):
            continue
        for mode, text in (('null', 'a malformed query'), ('empty', 'a query without formulae')):
            c = Refuse(P, rel, ctx, Hf); c.mode = mode; c.parsed = False
            eng = Engine(P, c, maxdepth=16, budget=3000000)
            facts = {('conn',): (1, float('inf'), frozenset([0]))}
            mem = {(('d', ('arg', k0)), 0): ('s', ('conn',)), (('d', ('arg', 6)), 0): ('k', 0)}
            eng.run_root(Hf, mem=mem, facts=facts)
            rep.need('%s: requests parsed' % Hf.short, int(c.parsed), 1)
            rep.need('%s: answers to %s' % (Hf.short, text), getattr(c, 'checked', 0), 1)
            v = [x for x in c.find if x[0] in ('status', 'empty')]
            if H.HANDLE in c.events:
                v.append(('handled', Hf, 'it is passed to the query handler'))
            rep.ob('%s: %s is refused' % (Hf.short, text), not v)
            for what, where, t in v:
                fn = where if not hasattr(where, 'fn') else where.fn
                rep.viol('%s|%s|%s|%s' % (Hf.short, fn.short, mode, what), '%s: %s is not refused: %s%s' %
                         (Hf.short, text, t, ' at ' + where.loc() if hasattr(where, 'loc') and hasattr(where, 'fn') else ''))
            done += 1
    rep.need('request handlers', done, 2)
