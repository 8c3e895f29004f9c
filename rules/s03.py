import mhd as H
import resources as R

INF = float('inf')


class Status(H.Http):
    def known(self, st, arg):
        eq = set(); ne = set()
        for sid, r in st.facts.items():
            if isinstance(sid, tuple) and sid and sid[0] == 'strcmp' and sid[1] == arg:
                if r[0] == r[1] == 0:
                    eq.add(sid[2])
                elif 0 in r[2] or r[0] > 0 or r[1] < 0:
                    ne.add(sid[2])
        return eq, ne

    def check_status(self, eng, st, inst, args):
        n, cf, ev = st.q
        s = args[1]
        self.checked = getattr(self, 'checked', 0) + 1
        if s[0] != 'k':
            r = eng.rng(st, s)
            if r[0] != r[1]:
                self.find.append(('status', inst, 'the status code is not determined by the outcome')); return
            s = ('k', int(r[0]))
        s = s[1]
        T = lambda sym: eng.truth(st, ('s', sym)) if sym[1] in ev else None
        f = st.facts.get(H.FORMAT, (-INF, INF, frozenset()))
        fmt_ok = 'format' in ev and f[0] >= 0
        fmt_bad = 'format' in ev and f[1] < 0
        eqm, nem = self.known(st, 3); equ, neu = self.known(st, 2)
        fail = lambda t: self.find.append(('status', inst, 'HTTP %d %s' % (s, t)))
        if 'parse' in ev:
            if T(H.PARSE) is False and s != 400:
                fail('sent for a request that could not be parsed')
            elif ('threw' in ev or ('handle' in ev and T(H.HANDLE) is False)) and s != 500:
                fail('sent although the query handler failed')
            elif fmt_bad and s != 500:
                fail('sent although the answer could not be written')
            elif s == 200:
                if T(H.PARSE) is not True:
                    fail('sent without establishing that the request was parsed')
                elif 'handle' not in ev or T(H.HANDLE) is not True:
                    fail('sent without an answer from the query handler')
                elif not fmt_ok:
                    fail('sent without establishing that the answer was written')
            elif s == 400 and 'handle' in ev:
                fail('sent for a query that was handled')
            elif s == 500 and 'handle' not in ev:
                fail('sent for a query that was not handled')
            elif s == 500 and fmt_ok:
                fail('sent although the answer was written')
            elif s not in (200, 400, 500):
                fail('is not one of the outcomes of a query')
            return
        if s == 405:
            if 'POST' not in nem and not (eqm - {'POST'}):
                fail('sent for a request whose method may be POST')
            elif 'OPTIONS' in eqm:
                fail('sent for an OPTIONS request')
            elif 'GET' in eqm and '/' in equ:
                fail('sent for GET of the root page')
        elif s == 200:
            if not ('OPTIONS' in eqm or ('GET' in eqm and '/' in equ)):
                fail('sent without processing the request')
        elif s in (400, 500):
            pass

    def ret(self, eng, st, fn, rv, kind, depth):
        if kind == 'throw' and depth == 0:
            self.find.append(('status', At(fn), 'ends by an exception instead of an answer'))
        H.Http.ret(self, eng, st, fn, rv, kind, depth)


class At:
    def __init__(self, fn):
        self.fn = fn
    def loc(self):
        return '%s:%s' % (self.fn.file, self.fn.line)


def run(P, rep, tier):
    rep.rule = ('Typestate over every path of the query access callback (first call, upload, complete request; exceptions of query handlers '
                'included): the status code of each queued response agrees with what is established about the outcome of parsing, answering '
                'and writing on that path, and with the request method and URL.')
    cl = [c for c in H.explore(P, Status) if any(P.F[m].short.split('::')[-1] == 'readMwsQuery' for m in P.reach([c.root.name]))]
    rep.need('handler_contexts', len(cl), 3)
    rep.need('responses_checked', sum(getattr(c, 'checked', 0) for c in cl), 6)
    ev = set()
    for c in cl:
        ev |= c.events
    rep.need('query_stages', len(ev), 3)
    rep.stats['steps'] = sum(c.steps for c in cl)
    for c in cl:
        f = [x for x in c.find if x[0] == 'status']
        rep.ob('%s, %s call: %d responses carry the status of the outcome' % (c.root.short, c.ctx, getattr(c, 'checked', 0)), not f)
        for what, where, text in f:
            rep.viol('%s|%s|%s' % (c.root.short, where.fn.short, text), '%s (%s call): %s (%s)' % (c.root.short, c.ctx, text, where.loc()))
