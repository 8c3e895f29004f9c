"""reading harvests and queries: every nesting of elements is read as the format says"""
import sax


def run(P, rep, tier):
    rep.rule = ('Fixpoint over the callbacks of each XML parser and an abstraction of the position in the document (outside, root, expression, '
                'formula tree of depth 1 and deeper, data element of depth 1 and deeper, skipped element of depth 1 and deeper, after an '
                'error); counters are related to the depth. In each context each event must make the demanded observations: nodes created, '
                'named, filled and handed over, data copied, nothing at all for skipped elements.')
    rep.assumptions = ['the parser library calls the callbacks in document order with matching start and end of elements until an error, and '
                       'possibly goes on after a recoverable error',
                       'the names of the elements are those of the documented formats (mws:query, mws:harvest, mws:expr, mws:data)',
                       'memory is not exhausted']
    fs = sax.parsers(P)
    rep.need('parsers', len(fs), 2)
    n = events = 0
    for f in fs:
        bools = [k for k, t in enumerate(f.args) if t == 'i1']
        runs = [({}, None)]
        if len(bools) == 1:
            runs = [({bools[0]: ('k', 0)}, False), ({bools[0]: ('k', 1)}, True)]
        for args, want in runs:
            m = sax.Machine(P, f, args, want)
            rep.need('%s: parsing starts' % f.short, len(m.starts), 1)
            rep.need('%s: callbacks' % f.short, len([x for x in ('startElement', 'endElement', 'characters') if x in m.cb]), 3)
            events += m.events
            want_c = [('D',), ('M',), ('E',), ('T', 1), ('T', 2), ('U', 1, 'D'), ('U', 2, 'D'), ('U', 1, 'M'), ('U', 2, 'M')]
            rep.need('%s: contexts reached' % f.short, len([c for c in want_c if c in m.ctxs]), len(want_c))
            rep.need('%s: attribute lists' % f.short, m.attr_lists, 5)
            n += sum(len(v) for v in m.ctxs.values())
            flaws = set()
            for what, (ctx, ev, nm, g) in sorted(m.flaws.items()):
                flaws.add((what, g.short if g else f.short, ctx, ev, nm, ''))
            for (k, what), (inst, now) in m.C.bad.items():
                g = m.cb.get({v: k for k, v in sax.EV.items()}[now[1]])
                flaws.add(('a document %s' % what if what == 'ends the program' else 'it ' + what, g.short if g else f.short, (k,), now[1],
                           now[2], inst.loc()))
            for c in sorted(m.ctxs, key=str):
                bad = [x for x in flaws if x[2][0] == c[0]]
                rep.ob('%s%s: context %s (%d parser states)' % (f.short, args or '', '/'.join(map(str, c)), len(m.ctxs[c])), not bad)
            for what, fn, ctx, ev, nm, loc in sorted(flaws, key=str):
                rep.viol('%s|%s|%s' % (f.short, fn, what), '%s: %s (context %s, %s%s; callback %s%s)' %
                         (f.short, what, '/'.join(map(str, ctx)), ev, ' of ' + nm if nm else '', fn, ' at ' + loc if loc else ''))
    rep.stats['parser_states'] = n
    rep.stats['events_analysed'] = events
