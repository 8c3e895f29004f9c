#!/usr/bin/env python3
"""check.py <property> : decides one property of /repo's current working tree by static analysis."""
import sys, os, time, json, importlib, traceback
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'engine')); sys.path.insert(0, os.path.join(V, 'rules'))
sys.dont_write_bytecode = True
import frontend, ir


class Report:
    """what a rule analysed and found"""

    def __init__(self, pid):
        self.pid = pid
        self.obligations = []      # (description, ok)
        self.violations = []       # dict(key, text)
        self.stats = {}
        self.errors = []
        self.assumptions = []
        self.rule = ''

    def ob(self, desc, ok=True):
        self.obligations.append((desc, bool(ok)))

    def viol(self, key, text):
        if not any(v['key'] == key for v in self.violations):
            self.violations.append(dict(key=key, text=text))

    def need(self, what, n, least):
        """instance floor: fewer instances than confirmed by hand means the rule lost its anchor"""
        self.stats[what] = n
        if n < least:
            self.errors.append('anchor lost: %s: %d instance(s), at least %d expected' % (what, n, least))

    def error(self, msg):
        self.errors.append(msg)


def known(pid):
    out = []
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                rest = l.split(' ', 2)[2]
                key, _, text = rest.partition(' :: ')
                out.append((key.strip(), text.strip()))
    return out


def main():
    pid = sys.argv[1]
    if pid == '--setup':
        print(frontend.build_tool()); return 0
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    rep = Report(pid)
    try:
        path, tus = frontend.build_ir()
        P = ir.Prog(path, frontend.REPO)
        P.tus = tus
        if len(tus) < 45:
            rep.error('only %d translation units found' % len(tus))
        mod = importlib.import_module(pid.lower())
        mod.run(P, rep, tier)
    except frontend.FrontendError as e:
        print('ERROR: %s' % e); return 2
    except Exception:
        traceback.print_exc(); return 2
    kf = known(pid)
    new = []; hit = []
    for v in rep.violations:
        m = [k for k in kf if k[0] == v['key']]
        if m:
            hit.append((v, m[0]))
        else:
            new.append(v)
    os.makedirs(os.path.join(V, 'evidence', 'replay'), exist_ok=True)
    ok = sum(1 for o in rep.obligations if o[1])
    cov = dict(explanation=rep.rule, obligations=len(rep.obligations), discharged=ok,
               translation_units=len(tus), functions_in_program=len(P.repo_fns()),
               samples=[o[0] for o in rep.obligations[:6]])
    cov.update(rep.stats)
    ev = dict(property=pid, tier=tier, seed=seed, level='other', coverage=cov,
              assumptions=rep.assumptions, wall_s=round(time.time() - t0, 2), violations=len(new))
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    for v, k in hit:
        print('KNOWN-FINDING: property=%s %s' % (pid, k[1]))
    if new:
        rp = os.path.join(V, 'evidence', 'replay', pid + '.txt')
        with open(rp, 'w') as f:
            for v in new:
                f.write('[%s]\n%s\n\n' % (v['key'], v['text']))
        for v in new:
            print('  violation [%s] %s' % (v['key'], v['text'].replace('\n', '\n    ')))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if rep.errors:
        for e in rep.errors:
            print('ERROR: ' + e)
        return 3
    print('OK property=%s obligations=%d discharged=%d %s (%.1fs)' % (pid, len(rep.obligations), ok,
          ' '.join('%s=%s' % kv for kv in rep.stats.items() if not isinstance(kv[1], (list, dict))), time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
