"""Typestate of acquired resources: every acquire is released exactly once on every path, or its ownership
is handed on.  One acquire site is tracked per run (ESP); the interpreter of absint.py supplies aliasing,
branch correlation and inlining."""
import re, collections
from absint import Client, Engine, Budget

# kind -> (acquire functions, failure value, release functions {name: argument})
NULL = ('k', 0)
M1 = ('k', -1)
KINDS = {
    'fd': dict(acq=['open', 'open64', 'socket', 'accept', 'accept4', 'mkstemp', 'mkstemps', 'dup', 'creat', 'openat'], fail=M1,
               rel={'close': 0, 'fdopen': 0}, intval=True),
    'stream': dict(acq=['fopen', 'fopen64', 'fdopen', 'fmemopen', 'open_memstream', 'tmpfile', 'popen'], fail=NULL,
                   rel={'fclose': 0, 'pclose': 0}),
    'dir': dict(acq=['opendir', 'fdopendir'], fail=NULL, rel={'closedir': 0}),
    'mapping': dict(acq=['mmap', 'mmap64'], fail=M1, rel={'munmap': 0}),
    'membuf': dict(acq_out={'open_memstream': 0}, rel={'free': 0}),
    'malloc': dict(acq=['malloc', 'calloc', 'strdup', 'strndup', 'realloc'], fail=NULL, rel={'free': 0, 'realloc': 0}),
    'new': dict(acq=['operator new'], fail=None, rel={'operator delete': 0}),
    'new[]': dict(acq=['operator new[]'], fail=None, rel={'operator delete[]': 0}),
    'xmldoc': dict(acq=['xmlReadMemory', 'xmlParseMemory', 'htmlCtxtReadMemory', 'xmlReadFile', 'xmlParseFile',
                        'htmlReadMemory', 'htmlParseDoc', 'xmlNewDoc', 'xmlReadFd', 'xmlReadDoc', 'xmlParseDoc'], fail=NULL,
                   rel={'xmlFreeDoc': 0}),
    'xpathctx': dict(acq=['xmlXPathNewContext'], fail=NULL, rel={'xmlXPathFreeContext': 0}),
    'xpathobj': dict(acq=['xmlXPathEval', 'xmlXPathEvalExpression'], fail=NULL, rel={'xmlXPathFreeObject': 0}),
    'xmlstr': dict(acq=['xmlGetProp', 'xmlEncodeSpecialChars', 'xmlNodeGetContent', 'xmlEncodeEntitiesReentrant', 'xmlStrdup',
                        'xmlNodeListGetString'],
                   fail=NULL, rel={'xmlFree': 0, 'free': 0}),
    'parserctxt': dict(acq=['xmlCreateIOParserCtxt', 'htmlNewParserCtxt', 'xmlNewParserCtxt', 'xmlCreatePushParserCtxt'], fail=NULL,
                       rel={'xmlFreeParserCtxt': 0, 'htmlFreeParserCtxt': 0}),
    'writer': dict(acq=['xmlNewTextWriter'], fail=NULL, rel={'xmlFreeTextWriter': 0}),
    'outbuf': dict(acq=['xmlOutputBufferCreateIO', 'xmlOutputBufferCreateFile'], fail=NULL,
                   rel={'xmlOutputBufferClose': 0}, transfer={'xmlNewTextWriter': 0}),
    'json': dict(acq=['json_object_new_object', 'json_object_new_array', 'json_object_new_string', 'json_object_new_int',
                      'json_object_new_boolean', 'json_object_new_double', 'json_object_new_int64', 'json_tokener_parse',
                      'json_object_new_string_len'], fail=None,
                 rel={'json_object_put': 0}, give={'json_object_object_add': 2, 'json_object_array_add': 1}),
    'mhdresponse': dict(acq=['MHD_create_response_from_buffer', 'MHD_create_response_from_data', 'MHD_create_response_from_fd'],
                        fail=None, rel={'MHD_destroy_response': 0}),
    'mhdpost': dict(acq=['MHD_create_post_processor'], fail=NULL, rel={'MHD_destroy_post_processor': 0}),
    'mhddaemon': dict(acq=['MHD_start_daemon'], fail=NULL, rel={'MHD_stop_daemon': 0}),
    'curl': dict(acq=['curl_easy_init'], fail=NULL, rel={'curl_easy_cleanup': 0}),
}
# external functions that take over memory handed to them (function, argument index)
TAKES = {('malloc', 'MHD_create_response_from_buffer'): 1, ('membuf', 'MHD_create_response_from_buffer'): 1}


PP = (('x', 'post processor'), 0)      # iterator argument of the post processor created for the connection
PPF = (('x', 'post processor'), 1)


class Res(Client):
    callbacks = True

    def __init__(self, prog, kind, site, relfns):
        self.P = prog; self.kind = kind; self.K = KINDS[kind]; self.site = site
        self.relfns = relfns      # names of repo functions whose closure releases/uses this kind or contains the site
        self.name = 'res:%s@%s' % (kind, site.loc())
        self.findings = []
        self.escapes = []
        self.held = []            # exit states that still hold the resource in reachable memory
        self.rid = ('res', site.fn.name, site.i)
        self.exits = 0
        self.acquired = False
        self.sid = ('fd', site.fn.name, site.i)

    def init_q(self):
        return 'none'

    def handle(self):
        return ('s', self.sid) if self.K.get('intval') else ('p', self.rid, 0)

    def keep(self, v):
        return v == self.handle()

    def keep_cell(self, k, v, st):
        h = self.handle()
        if v == h:
            return True
        # a pointer to the object that holds the handle (captured by reference, say)
        return v[0] == 'p' and any(c[0] == v[1] and w == h for c, w in st.mem.items())

    def is_h(self, v):
        if self.K.get('intval'):
            return v == ('s', self.sid)
        return v[0] == 'p' and v[1] == self.rid and (v[2] == 0 or type(v[2]) is not int)

    def skey(self, st):
        h = self.handle()
        return (PP in st.mem, st.q == 'open' and any(v == h for v in st.mem.values()),
                frozenset(k for k, v in st.mem.items() if v == h and k[0][0] != 'al') if st.q in ('open', 'closed') else None)

    def relevant(self, eng, f):
        return f.name in self.relfns

    def report(self, what, inst, st, extra=''):
        self.findings.append((what, inst.fn.short, inst.loc(), extra))

    def acquire(self, eng, st):
        self.acquired = True
        if self.K.get('intval'):
            st.facts[self.sid] = (3, float('inf'), frozenset())   # 0..2 are the standard streams
        else:
            for kk in [c for c in st.mem if c[0] == self.rid]:
                del st.mem[kk]
        st.q = 'open'

    def call(self, eng, st, inst, fobj, short, args):
        K = self.K
        res = None
        if inst is self.site and short in K.get('acq', ()):
            if st.q == 'open':
                # acquired again while the tracked one is held: keep following the first
                s2 = st.copy()
                return ([('ret', K['fail'], s2)] if K['fail'] is not None else []) + [('ret', None, st)]
            s2 = st.copy()
            fails = []
            if K['fail'] is not None:
                fails = [('ret', K['fail'], s2)]
            # the old value of a re-executed site
            h = self.handle()
            for k, v in list(st.env.items()):
                if v == h:
                    st.env[k] = ('s', ('oldh', k))
            for k, v in list(st.mem.items()):
                if v == h:
                    st.mem[k] = ('s', ('oldh', k))
            # re-opening through another handle: realloc-like release of the argument is handled below
            self.acquire(eng, st)
            if short == 'MHD_create_post_processor':
                st.mem[PP] = args[3]; st.mem[PPF] = args[2]
            return fails + [('ret', h, st)]
        if inst is self.site and short in K.get('acq_out', {}):
            if st.q == 'open':
                s2 = st.copy()
                return [('ret', NULL, s2), ('ret', ('p', ('hp', 'ms', inst.i), 0), st)]
            a = args[K['acq_out'][short]]
            s2 = st.copy()
            self.acquire(eng, st)
            eng.store(st, a, self.handle())
            if short == 'open_memstream':
                eng.store(st, args[1], ('s', ('mslen', inst.i)))      # changes as the stream is written
            return [('ret', NULL, s2), ('ret', None, st)] if False else [('ret', ('p', ('hp', 'ms', inst.i), 0), st), ('ret', NULL, s2)]
        if short == 'MHD_create_post_processor':
            s2 = st.copy()
            st.mem[PP] = args[3]; st.mem[PPF] = args[2]
            return [('ret', NULL, s2), ('ret', self.nn(eng, st, inst), st)]
        if st.q == 'none':
            return None
        r = K['rel'].get(short)
        if r is not None and r < len(args) and self.is_h(args[r]):
            if st.q in ('closed', 'taken'):
                self.report('double release', inst, st)
                return [('stop', None, st)]
            if short == 'fdopen':
                s2 = st.copy()
                st.q = 'closed-by-stream'
                return [('ret', NULL, s2), ('ret', None, st)]
            st.q = 'closed'
            return [('ret', None, st)]
        if r is not None and r < len(args) and st.q == 'open' and args[r][0] == 's':
            # an element of an array that holds the resource in one of its elements
            h = self.handle()
            weak = [k for k, v in st.mem.items() if v == h and k[1] is None]
            sid = args[r][1]
            if weak and isinstance(sid, tuple) and (sid[0] != 'ld' or sid[1] in [k[0] for k in weak]):
                for k in weak:
                    del st.mem[k]
                st.q = 'closed'
                return [('ret', None, st)]
        g = K.get('give', {}).get(short)
        if g is not None and g < len(args) and self.is_h(args[g]):
            st.q = 'escaped'
            return [('ret', None, st)]
        t = K.get('transfer', {}).get(short)
        if t is not None and self.is_h(args[t]):
            s2 = st.copy()
            st.q = 'escaped'
            return [('ret', NULL, s2), ('ret', None if st is None else self.nn(eng, st, inst), st)]
        t = TAKES.get((self.kind, short))
        if t is not None and t < len(args) and self.is_h(args[t]):
            if st.q == 'taken':
                self.report('double release', inst, st)
                return [('stop', None, st)]
            if args[2:3] in ([('k', 0)], [('k', 2)]):
                return None           # only read or copied
            if st.q == 'open':
                st.q = 'taken'
            return [('ret', None, st)]
        # handle passed on
        direct = any(self.is_h(a) for a in args)
        if direct and st.q == 'closed' and fobj is not None and not fobj.blocks and not re.match(r'std::unique_ptr|std::__uniq|std::operator|std::_', short) \
                and not short.startswith('llvm.'):
            self.report('use after release', inst, st, 'passed to %s' % short)
            return [('stop', None, st)]
        if st.q == 'open' and fobj is not None and not fobj.repo and (not fobj.blocks or not __import__('absint').SMART.match(short)):
            if short.startswith('std::') or short.startswith('leveldb') or short.startswith('operator<<'):
                if not re.match(r'std::(operator<<|basic_ostream|ostream|char_traits|operator==|operator!=|__throw)', short):
                    hold = direct
                    if not hold:
                        for a in args:
                            if a[0] == 'p' and a[1][0] in ('al', 'hp'):
                                if any(k[0] == a[1] and self.is_h(v) and a[2] == k[1] for k, v in st.mem.items()):
                                    hold = True
                    if hold and not re.match(r'std::(string|__cxx11::basic_string|basic_string)::', short) and not fobj.const_method \
                            and 'basic_string' not in short:
                        # handed to a library object (container element, smart pointer, std::function)
                        st.q = 'escaped'
                        return None
            if short == 'pthread_create':
                if direct:
                    st.q = 'escaped'
        if direct and fobj is not None and fobj.repo and st.q == 'open':
            # recursion / depth cut: ownership unknown
            pass
        return None

    def nn(self, eng, st, inst):
        return ('p', ('hp', 'tr', inst.i), 0)

    def load(self, eng, st, inst, addr, val):
        if st.q == 'closed' and addr[0] == 'p' and addr[1] == self.rid:
            self.report('use after release', inst, st, 'read through the released object')
            st.q = 'reported'

    def store(self, eng, st, inst, addr, val):
        if st.q == 'closed' and addr[0] == 'p' and addr[1] == self.rid:
            self.report('use after release', inst, st, 'write through the released object')
            st.q = 'reported'

    def ret(self, eng, st, fn, rv, kind, depth):
        self.exits += 1
        if st.q != 'open' or kind == 'stop':
            return
        # reachability of the handle from the outside
        roots = []
        if rv is not None:
            roots.append(('ret', None, rv))
        for (o, off), v in st.mem.items():
            if o[0] in ('d', 'g'):
                roots.append((o, off, v))
        seen = set(); found = []

        def walk(v, why, depth=0):
            if self.is_h(v):
                found.append(why); return
            if v[0] == 'p' and v[1][0] in ('hp', 'al', 'res') and v[1] not in seen and depth < 6:
                seen.add(v[1])
                for (o, off), w in st.mem.items():
                    if o == v[1]:
                        walk(w, why, depth + 1)
        for o, off, v in roots:
            seen.clear()
            walk(v, (o, off))
        if found:
            for w in found:
                self.escapes.append((fn, w, kind))
            self.held.append((fn, frozenset(found), kind, st.copy()))
        else:
            self.findings.append(('leak', fn.short, self.site.loc(), 'still held when %s %s' % (fn.short, 'returns' if kind == 'ret' else 'exits by exception')))


def closure_users(prog, kind):
    """repo functions from which a function touching this kind is reachable"""
    K = KINDS[kind]
    names = set(K['rel']) | set(K.get('acq', ())) | set(K.get('acq_out', {})) | set(K.get('give', {})) | set(K.get('transfer', {}))
    for k, v in TAKES.items():
        if k[0] == kind:
            names.add(k[1])
    direct = set()
    for f in prog.F.values():
        if not f.blocks:
            continue
        for x in f.calls():
            fv = x.d['fn']
            nm = prog.F[fv[1]].short if fv[0] == 'f' else None
            if fv[0] == 'i':
                ld = f.insts[fv[1]]
                if ld.op == 'load' and ld.a[0] == ('g', 'xmlFree'):
                    nm = 'xmlFree'
            if nm in names:
                direct.add(f.name)
    res = set(direct)
    # upward closure over resolved calls
    rev = collections.defaultdict(set)
    for f in prog.F.values():
        if not f.blocks:
            continue
        for x in f.calls():
            for c in prog.callees(x):
                rev[c].add(f.name)
                g = prog.F.get(c)
                if g is not None and not g.blocks:
                    for r in prog.lib_closure(c):
                        rev[r].add(f.name)
    st = list(res)
    while st:
        for m in rev[st.pop()]:
            if m not in res:
                res.add(m); st.append(m)
    return res


def sites(prog, kind, infile=None):
    K = KINDS[kind]
    names = set(K.get('acq', ())) | set(K.get('acq_out', {}))
    out = []
    for f in prog.repo_fns():
        for x in f.calls():
            fv = x.d['fn']
            if fv[0] == 'f' and prog.F[fv[1]].short in names:
                out.append(x)
    return out


def method_of(prog, fn):
    return fn.cls is not None and len(fn.args) > 0 and (fn.ditypes[1:2] and fn.ditypes[1].replace('const ', '').rstrip('*') == fn.cls)


def arg_base(o):
    """('d',('arg',k)) or nested -> k"""
    while isinstance(o, tuple) and o and o[0] == 'd' and isinstance(o[1], tuple):
        if o[1][0] == 'arg':
            return o[1][1]
        if o[1][0] == 'ld':
            o = o[1][1]
            continue
        return None
    return None


def destructor(prog, cls):
    nm = re.sub(r'<.*', '', cls)
    short = nm + '::~' + nm.split('::')[-1]
    L = [f for f in prog.fns(short) if f.blocks and re.search(r'D2Ev$', f.name) and (f.cls == cls or f.cls is None or '<' not in cls)]
    if not L:
        L = [f for f in prog.fns(short) if f.blocks and re.search(r'D[12]Ev$', f.name) and (f.cls == cls or f.cls is None or '<' not in cls)]
    return L[0] if L else None


def methods(prog, cls):
    return [f for f in prog.repo_fns() if f.cls == cls and method_of(prog, f) and not re.search(r'[CD][012]E', f.name)]


def mhd_closers(prog):
    """per-connection state of the HTTP callbacks: (function, argument holding void **con_cls) -> completion callback"""
    out = {}
    for f in prog.repo_fns():
        for x in f.calls():
            if x.d['fn'][0] == 'f' and prog.F[x.d['fn'][1]].short == 'MHD_start_daemon':
                done = None
                for k in range(6, len(x.a) - 1):
                    if x.a[k][:2] == ('c', 4):      # MHD_OPTION_NOTIFY_COMPLETED
                        if x.a[k + 1][0] == 'f':
                            done = x.a[k + 1][1]
                h = x.a[4]
                if h[0] == 'f':
                    out[(h[1], 7)] = done
    return out


def repeated(prog, eng, fn):
    """some call site of fn lies on a cycle: the same object may be put through it again"""
    return any(eng._in_loop(x.fn, x) for x in prog.callers(fn.name))


def cont(eng, c, fn, st, args):
    """run fn from an exit state"""
    s = st.copy()
    s.env = {('a', k): v for k, v in args.items()}
    for k in range(len(fn.args)):
        s.env.setdefault(('a', k), ('s', ('arg2', fn.name, k)))
    fr = eng.Frame(fn, ('chain', fn.name), 0, (fn.name,))
    return eng.run(fr, s)


def chain(prog, eng, c, closers, findings, stats):
    """lifecycle of a resource that outlives the function acquiring it: whatever the owner is put through afterwards
    (one intermediate operation, or none), its end of life releases the resource exactly once"""
    for fn, where, kind, st in c.held:
        if not any(o == 'ret' or arg_base(o) == 0 and method_of(prog, fn) or (arg_base(o) is not None and (fn.name, arg_base(o)) in closers)
                   for o, off in where):
            continue
        if any(o == 'ret' for o, off in where):
            continue
        o0 = sorted(where, key=str)[0]
        this = arg_base(o0[0]) == 0 and method_of(prog, fn)
        isctor = re.search(r'C[12]E', fn.name) is not None
        if kind == 'throw' and isctor and this:
            findings.append(('leak', fn.short, c.site.loc(), 'still held by the object whose construction fails by exception', fn.short))
            continue
        if this:
            cls = fn.cls
            dt = destructor(prog, cls)
            if dt is None:
                findings.append(('leak', fn.short, c.site.loc(), 'held by %s, which has no destructor releasing it' % cls, fn.short)); continue
            seqs = [[]] + [[m] for m in methods(prog, cls) if m.name in c.relfns and not m.const_method and (m.name != fn.name or repeated(prog, eng, fn))]
            end = (dt, {0: ('s', ('arg', 0))})
        else:
            continue        # connection_chain
        for seq in seqs:
            states = [('ret', None, st)]
            n0 = len(c.findings)
            for m in seq:
                nx = []
                for kd, rv, s in states:
                    nx += cont(eng, c, m, s, {0: ('s', ('arg', 0))})
                states = [x for x in nx if x[0] in ('ret', 'throw')]
            fin = []
            for kd, rv, s in states:
                fin += cont(eng, c, end[0], s, end[1])
            via = fn.short + ''.join(' then ' + m.short for m in seq) + ' then ' + dt.short
            stats['chains'] = stats.get('chains', 0) + 1
            for f in c.findings[n0:]:
                findings.append(f + (via,))
            del c.findings[n0:]
            for kd, rv, s in fin:
                if s.q == 'open' and kd in ('ret', 'throw'):
                    findings.append(('leak', fn.short, c.site.loc(), 'still held after ' + via, fn.short)); break


def connections(prog):
    """(access handler, completion callback) of every HTTP server the program starts"""
    return [(f, k, d) for (f, k), d in mhd_closers(prog).items()]


def connection_chain(prog, kind, site, users, handler, k0, done, budget=900000):
    """lifecycle of one HTTP connection: first call of the access handler, any of: post data iterations, further
    calls, then the completion callback; whatever was acquired on behalf of the connection is released by then"""
    c = Res(prog, kind, site, users)
    eng = Engine(prog, c, maxdepth=8, budget=budget)
    c.ret = lambda *a: None
    H = prog.F[handler]
    cell = (('d', ('arg', k0)), 0)
    out = []

    def first():
        s = __import__('absint').State('none', {}, {cell: ('k', 0)}, {})
        return cont(eng, c, H, s, {k: ('s', ('arg', k)) for k in range(len(H.args))})

    def again(sts, fn, args):
        r = []
        for kd, rv, s in sts:
            a = args(s)
            if a is not None:
                r += cont(eng, c, fn, s, a)
        return [x for x in r if x[0] in ('ret', 'throw')]

    def it_args(s):
        if PP not in s.mem:
            return None
        return {0: s.mem[PP]}
    n = 0
    try:
        s1 = [x for x in first() if x[0] in ('ret', 'throw')]
        its = sorted({s.mem[PPF][1] for kd, rv, s in s1 if PPF in s.mem and s.mem[PPF][0] == 'f'})
        levels = [s1]
        for itf in its:
            a = again(s1, prog.F[itf], it_args)
            levels.append(a)
            levels.append(again(a, prog.F[itf], it_args))
        more = []
        if not its:
            for L in list(levels):
                a = again([x for x in L if x[2].mem.get(cell) != ('k', 0)], H, lambda s: {k: ('s', ('arg', k)) for k in range(len(H.args))})
                more.append(a)
            levels += more
        if done is None:
            fin = [x for L in levels for x in L]
            via = 'no completion callback is registered'
        else:
            D = prog.F[done]
            fin = []
            for L in levels:
                fin += again(L, D, lambda s: {2: ('s', ('arg', k0))})
            via = '%s returns for the finished request' % D.short
        n = len(fin)
        for kd, rv, s in fin:
            if s.q == 'open':
                out.append(('leak', site.fn.short, site.loc(), 'acquired for an HTTP connection and still held when ' + via, H.short)); break
    except Budget as e:
        return out, n, str(e)
    for f in c.findings:
        out.append(f + ('connection of ' + H.short,))
    return out, n, None


def analyse_site(prog, kind, site, users, maxclimb=4, budget=600000):
    """-> (findings, owners, stats)"""
    seen = set(); work = [(site.fn, 0)]
    findings = []; owners = []; nroots = 0; steps = 0; notes = []; stats = {}
    closers = mhd_closers(prog)
    iterators = set()
    for f in prog.repo_fns():
        for x in f.calls():
            if x.d['fn'][0] == 'f' and prog.F[x.d['fn'][1]].short == 'MHD_create_post_processor' and x.a[2][0] == 'f':
                iterators.add(x.a[2][1])
    while work:
        root, d = work.pop()
        if root.name in seen:
            continue
        seen.add(root.name)
        c = Res(prog, kind, site, users)
        eng = Engine(prog, c, maxdepth=8, budget=budget)
        try:
            eng.run_root(root)
        except Budget as e:
            notes.append('budget: %s' % e); continue
        nroots += 1; steps += eng.steps
        ismain = root.name.startswith('main.')
        for f in c.findings:
            if ismain and f[0] == 'leak':
                continue
            findings.append(f + (root.short,))
        try:
            chain(prog, eng, c, closers, findings, stats)
        except Budget as e:
            notes.append('budget: %s' % e)
        for fn, (o, off), k in set(c.escapes):
            if o == 'ret':
                cl = prog.callers(fn.name)
                if not cl or d >= maxclimb:
                    owners.append(('returned by', fn.short, None))
                for x in cl:
                    work.append((x.fn, d + 1))
                continue
            if o[0] == 'g':
                owners.append(('global', o[1], off)); continue
            k0 = arg_base(o)
            if k0 == 0 and method_of(prog, fn):
                direct = o == ('d', ('arg', 0))
                owners.append(('field', fn.cls, off if direct else 'deep'))
                # functions in which the owner is a local object: from its construction to its end
                for x in prog.callers(fn.name):
                    if d < maxclimb and x.a and x.a[0][0] == 'i' and x.fn.insts[x.a[0][1]].op == 'alloca':
                        work.append((x.fn, d + 1))
                continue
            if k0 is not None and (fn.name, k0) in closers:
                owners.append(('connection state of', fn.short, k0))
                continue
            if k0 is not None and fn.name in iterators:
                owners.append(('connection state of', fn.short, k0))
                continue
            if k0 is not None:
                cl = prog.callers(fn.name)
                if not cl or d >= maxclimb:
                    owners.append(('caller memory of', fn.short, k0))
                for x in cl:
                    work.append((x.fn, d + 1))
                continue
            owners.append(('unknown object', fn.short, str(o)[:80]))
    if any(o[0] == 'connection state of' for o in owners):
        for h, k0, done in connections(prog):
            if site.fn.name in prog.reach([h]) or site.fn.name in iterators:
                if site.fn.name in iterators and not any(i in prog.reach([h]) for i in [site.fn.name]):
                    continue
                o, n, note = connection_chain(prog, kind, site, users, h, k0, done)
                findings += o
                stats['chains'] = stats.get('chains', 0) + n
                if note:
                    notes.append(note)
    return findings, sorted(set(owners), key=str), dict(roots=nroots, steps=steps, notes=notes, chains=stats.get('chains', 0))
