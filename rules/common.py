"""shared pieces of the rules"""
import re
import resources as R


def resource_rule(P, rep, kinds, floors, only=None, budget=1500000):
    """run the acquire/release analysis for some kinds of resources"""
    total = roots = chains = 0
    owners = set()
    for kind in kinds:
        U = R.closure_users(P, kind)
        S = [s for s in R.sites(P, kind) if only is None or only(kind, s)]
        n = 0
        for s in S:
            f, o, st = R.analyse_site(P, kind, s, U, budget=budget)
            n += 1; roots += st['roots']; chains += st['chains']
            for note in st['notes']:
                rep.error('%s at %s: %s' % (kind, s.loc(), note))
            for ow in o:
                owners.add('%s held by %s' % (kind, ow[1]))
            rep.ob('%s acquired in %s (%s): released exactly once on every path' % (kind, s.fn.short, s.loc()), not f)
            for x in sorted(set(f), key=str):
                what, fn, loc, extra, root = (list(x) + [''] * 5)[:5]
                rep.viol('%s|%s|%s|%s' % (kind, s.fn.short, what, fn),
                         '%s of %s acquired in %s at %s: %s %s (analysed from %s; event at %s in %s)' %
                         (what, kind, s.fn.short, s.loc(), extra, '', root, loc, fn))
        total += n
        if kind in floors:
            rep.need('sites_' + kind.replace('[]', '_array'), n, floors[kind])
    rep.stats['acquire_sites'] = total
    rep.stats['entry_functions_analysed'] = roots
    rep.stats['owner_lifecycles'] = chains
    rep.stats['owners'] = sorted(owners)


def foreign_callbacks(P):
    """repo functions handed to C code: {name: [(registered with, by function, place)]}"""
    out = {}

    def is_repo_struct(sty):
        d = P.ditypes.get(P.clean(sty))
        return bool(d and str(d.get('file', '')).startswith(P.root + '/'))

    def funcs(f, v, depth=0):
        if v[0] == 'f':
            return {v[1]}
        if v[0] == 'i' and depth < 5 and f.insts[v[1]].op in ('phi', 'select', 'bitcast'):
            r = set()
            for a in f.insts[v[1]].a:
                r |= funcs(f, a, depth + 1)
            return r
        return set()
    for f in P.repo_fns():
        for x in f.all():
            if x.is_call and x.d['fn'][0] == 'f':
                g = P.F[x.d['fn'][1]]
                if g.name.startswith('_Z') or g.name.startswith(('llvm.', '__cxa')):
                    continue
                if g.repo and not str(getattr(g, 'file', '') or '').endswith('.c'):
                    continue
                for a in x.a:
                    for n in funcs(f, a):
                        if P.F[n].repo:
                            out.setdefault(n, []).append((g.short, f, x.loc()))
            elif x.op == 'store':
                for n in funcs(f, x.a[0]):
                    if not P.F[n].repo:
                        continue
                    p = x.a[1]; sty = None
                    while p[0] == 'i':
                        y = f.insts[p[1]]
                        if y.op == 'getelementptr':
                            sty = y.d['gep'].get('sty') or sty
                            p = y.a[0]
                        elif y.op == 'bitcast':
                            p = y.a[0]
                        else:
                            if y.op == 'alloca' and not sty:
                                sty = y.d.get('ty')
                            break
                    if sty and sty.startswith('%struct.') and not is_repo_struct(sty):
                        out.setdefault(n, []).append((P.clean(sty), f, x.loc()))
    for gname, names in P.gfuncs.items():
        if gname.startswith(('_ZT', 'llvm.')):
            continue
        for n in names:
            if n in P.F and P.F[n].repo:
                out.setdefault(n, []).append(('table ' + gname, P.F[n], ''))
    return out
