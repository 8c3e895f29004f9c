from common import resource_rule
import mhd as H
import resources as R


def run(P, rep, tier):
    rep.rule = ('(1) typestate over every path: HTTP responses, post processors, servers and per-request upload objects are created and '
                'destroyed exactly once, through the life of the connection (access callback, post data iterator, completion callback); '
                '(2) each access callback, from the states "first call", "upload" and "complete request": at most one response is queued, '
                'a complete request is never accepted or refused without one, and a queued response is never followed by a refusal.')
    rep.assumptions = ['std::bad_alloc is not considered', 'libmicrohttpd calls the completion callback once for every request']
    handlers = {h for h, k, d in R.connections(P)}

    def only(kind, s):
        return kind != 'new' or s.fn.name in handlers
    resource_rule(P, rep, ['mhdresponse', 'mhdpost', 'mhddaemon', 'new'], dict(mhdresponse=2, mhdpost=1, mhddaemon=2), only)
    cl = H.explore(P, H.Http)
    rep.need('handler_contexts', len(cl), 6)
    rep.need('responses_queued', sum(len(c.queued) for c in cl), 6)
    rep.stats['handler_exits'] = sum(c.exits for c in cl)
    for c in cl:
        rep.ob('%s, %s call: exactly one response' % (c.root.short, c.ctx), not c.find)
        for what, where, text in c.find:
            rep.viol('protocol|%s|%s|%s' % (c.root.short, c.ctx, what), '%s (%s call): %s [%s]' % (
                c.root.short, c.ctx, text, where.loc() if hasattr(where, 'loc') else '%s:%d' % (P.rel(where.file), where.line)))
