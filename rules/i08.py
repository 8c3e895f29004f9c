"""an interrupted index build is never taken for a complete index"""
import build


def run(P, rep, tier):
    rep.rule = ('Typestate over the index build (abstract interpretation of all paths, with and without the request to delete old data): before any other '
                'part of a previous index is deleted or overwritten its image is invalidated (deleted or truncated); the header that makes the new image '
                'valid is written after every other part was written and closed; nothing else is deleted, created or written after it; the build only '
                'reports success with the image complete.')
    rep.assumptions = ['the parts of an index are the files and databases the index loader opens', 'file operations take effect in program order',
                       'a path ends where the process is killed: every prefix of a path is a possible history',
                       'the image is valid from the moment its header is rewritten (I01, I04)']
    r = build.analyse(P, rep)
    if r is None:
        return
    root, comps, image, out, off = r
    seen = {}
    paths = 0
    for b, flag in zip(out, (0, 1)):
        for w, fn, t, loc in b.bad:
            if w == 'order':
                seen.setdefault((fn, t), loc)
        good = 0
        for kind, rv, st in b.ends:
            if kind != 'ret' or rv is None:
                continue
            paths += 1
            if rv != ('k', 0) and not (rv[0] != 'k'):
                continue
            good += 1
            if st.q[0] != 'done':
                seen.setdefault((root.short, 'reports success although the image is not complete'), root.short)
            miss = comps - st.q[3]
            if miss:
                seen.setdefault((root.short, 'reports success although %s is not written' % ', '.join(sorted(miss))), root.short)
        if not good:
            seen.setdefault((root.short, 'never succeeds'), root.short)
        for k in sorted({'%s of %s' % (k, t) for k, t in b.events if t in comps}):
            rep.ob('%s %s' % (k, 'when old data is deleted' if flag else 'when old data is kept'),
                   not any(k.split(' of ', 1)[1] in t for _, t in seen))
    for (fn, t), loc in sorted(seen.items()):
        rep.viol('%s|%s' % (fn, t), '%s: %s (%s)' % (fn, t, loc))
    rep.need('outcomes', paths, 8)
