from common import foreign_callbacks


def terminates(P, f, x):
    if x.op != 'invoke':
        return False
    return any(y.is_call and y.d['fn'][0] == 'f' and 'terminate' in P.F[y.d['fn'][1]].short for y in f.blocks[x.d['uw']])


def origin(P, f, names=None, depth=0, seen=None):
    """where an exception leaving f is raised"""
    seen = seen if seen is not None else set()
    seen.add(f.name)
    for x in f.calls():
        if not P.site_throws(x):
            continue
        fv = x.d['fn']
        if fv[0] == 'f' and not (P.F[fv[1]].repo and P.F[fv[1]].blocks) and not P.lib_closure(fv[1]):
            return '%s at %s' % (P.F[fv[1]].short, x.loc())
        for c in P.callees(x):
            for n in ([c] if P.F.get(c) and P.F[c].repo and P.F[c].blocks else sorted(P.lib_closure(c))):
                if n not in seen and P.throws(n) and depth < 30:
                    o = origin(P, P.F[n], names, depth + 1, seen)
                    if o:
                        return o
    return None


def run(P, rep, tier):
    rep.rule = ('Exception effect analysis (least fixpoint over the call graph; a handler removes the types it catches): no exception raised in '
                'the repository may leave a callback registered with C code, a thread start function, a function that must not throw '
                '(C function, noexcept function, destructor) or a main function.')
    rep.assumptions = ['exceptions considered: throw expressions of the repository, std::sto*, checked element access; not std::bad_alloc',
                       'a call through std::function or a virtual call may reach every target of the same type']
    P.throws()
    cb = foreign_callbacks(P)
    rep.need('callbacks', len(cb), 20)
    kinds = sorted({k for v in cb.values() for k, _, _ in v})
    rep.stats['registered_with'] = kinds
    for what in ('_xmlSAXHandler', 'MHD_start_daemon', 'pthread_create', 'curl_easy_setopt'):
        rep.need('callbacks_' + what, sum(1 for v in cb.values() for k, _, _ in v if k == what), 1)
    n = 0
    for name in sorted(cb):
        f = P.F[name]; T = P.throws(name)
        n += 1
        rep.ob('%s (registered with %s) does not throw' % (f.short, cb[name][0][0]), not T)
        if T:
            rep.viol('callback|%s' % f.short, '%s, called by %s (registered at %s), may be left by an exception raised by %s' %
                     (f.short, cb[name][0][0], cb[name][0][2], origin(P, f)))
    for f in P.repo_fns():
        for x in f.calls():
            S = P.site_throws(x)
            if not S:
                continue
            if terminates(P, f, x) or f.nounwind:
                ts = [c for c in P.callees(x) if P.F.get(c) and P.throws(c) and c not in cb and not P.F[c].nounwind]
                n += 1
                if not ts and P.F[P.callees(x)[0]].repo:
                    continue          # reported for the callback or the inner function
                rep.ob('%s at %s in a function that must not throw' % (f.short, x.loc()), False)
                rep.viol('nothrow|%s' % f.short, '%s must not throw, but the call at %s may (raised by %s)' %
                         (f.short, x.loc(), origin(P, P.F[ts[0]]) if ts else 'the library call'))
    mains = [f for f in P.repo_fns() if f.short.startswith('main.')]
    rep.need('programs', len(mains), 6)
    for f in mains:
        T = P.throws(f.name)
        rep.ob('%s is not left by an exception' % f.short, not T)
        if T:
            rep.viol('main|%s' % f.short, 'the program %s may be left by an exception raised by %s' % (f.short, origin(P, f)))
    rep.stats['functions_analysed'] = len(list(P.repo_fns()))
    rep.stats['throwing_functions'] = sum(1 for v in P.throws().values() if v)
