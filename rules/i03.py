"""an existing index is destroyed or overwritten only on request"""
import build
from absint import Client, Engine
from inject import upward
import strs
import re

WORDS = re.compile('delete|overwrite|force|replace')


class Request(Client):
    """the value of the request when the build starts, in a program run without the option"""
    callbacks = False

    def __init__(self, P, rel, target, letters, off):
        self.P = P; self.rel = rel; self.target = target; self.letters = letters; self.off = off
        self.seen = []; self.options = {}

    def init_q(self):
        return ()

    def relevant(self, eng, f):
        return f.name in self.rel

    def keep_cell(self, k, v, st):
        return k[1] == self.off or strs.keep_tag(k)

    def call(self, eng, st, inst, fobj, short, args):
        if short.endswith('FlagParser::addFlag'):
            a = [x for x in args if x[0] == 'k'][:1]
            t = [t for t in (strs.tag_of(self.P, eng, st, x) for x in args if x[0] == 'p') if t]
            if a and t:
                self.options[a[0][1]] = t[0]
            return [('ret', None, st)]
        if short.endswith('FlagParser::hasArg'):
            a = args[-1]
            if a[0] == 'k' and a[1] in self.letters:
                return [('ret', ('k', 0), st)]
            return [('ret', ('s', ('hasArg', a)), st)]
        if fobj is not None and fobj.name == self.target:
            o, off = eng.addr(st, args[0])
            v = st.mem.get((o, off + self.off)) if type(off) is int else None
            self.seen.append((inst, v is not None and eng.truth(st, v) is False, v))
            return [('stop', None, st)]
        return strs.call(self.P, eng, st, inst, fobj, short, args)


def run(P, rep, tier):
    rep.rule = ('Abstract interpretation of the index build with the request to delete old data fixed to "no": no path deletes, truncates, or opens '
                'for writing without insisting on creation, any part that the index loader reads, before such a path has itself created the index. '
                'Abstract interpretation of every program that builds an index, with the deletion option absent: the request is "no" when the build starts.')
    rep.assumptions = ['the parts of an index are the files and databases the index loader opens', 'LevelDB refuses to open an existing database with error_if_exists']
    r = build.analyse(P, rep)
    if r is None:
        return
    root, comps, image, out, off = r
    for b, flag in zip(out, (0, 1)):
        if flag:
            continue
        bad = {(fn, t): loc for w, fn, t, loc in b.bad if w == 'unasked'}
        ev = sorted({'%s %s' % (k, t) for k, t in b.events})
        for k in ev:
            rep.ob('build without request: %s' % k, not any(k.split(' ', 1)[1] in t for _, t in bad))
        for (fn, t), loc in sorted(bad.items()):
            rep.viol('%s|%s' % (fn, t), '%s: %s (%s)' % (fn, t, loc))
    mains = [f for f in P.repo_fns() if f.short.startswith('main.') and root.name in P.reach([f.name])]
    rep.need('programs', len(mains), 2)
    n = 0
    for f in mains:
        flags = {g.name for g in P.F.values() if g.short.endswith(('FlagParser::addFlag', 'FlagParser::hasArg'))}
        rel = (upward(P, {root.name}) | upward(P, flags)) & set(P.reach([f.name])) | {f.name}
        c = Request(P, rel, root.name, set(), off)
        Engine(P, c, 10).run_root(f)
        del_ = {k for k, t in c.options.items() if WORDS.search(t)}
        rep.need('options_of_' + f.short, len(c.options), 2)
        c = Request(P, rel, root.name, del_, off)
        Engine(P, c, 10).run_root(f)
        n += len(c.seen)
        bad = [(i, v) for i, ok, v in c.seen if not ok]
        if not c.seen:
            rep.error('%s: the analysis does not reach the index build' % f.short)
        rep.ob('%s requests deletion only if told to (option %s)' % (f.short, ', '.join(chr(x) for x in sorted(del_)) or 'none'), not bad)
        for i, v in bad[:1]:
            rep.viol('%s|request' % f.short, '%s: the build started at %s is told to delete old data, or may be, although no option asked for it' % (f.short, i.loc()))
    rep.need('builds_reached', n, 2)
