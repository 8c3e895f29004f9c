"""Answering queries does not modify what concurrent requests share."""
import re
from absint import Client, Engine, Budget
from common import foreign_callbacks
from l01 import ACQ, REL, GUARD

READ = re.compile(r'(begin|end|rbegin|rend|cbegin|cend|find|at|get|size|length|empty|front|back|top|data|c_str|str|count|lower_bound|upper_bound|'
                  r'equal_range|capacity|max_size|compare|substr|operator(\*|->|==|!=|<|>|<=|>=|bool| bool|\+|-|\(\))|use_count|load|'
                  r'good|fail|bad|eof|what|name|lock|key_comp|_M_\w*(begin|end|root|bound|node|key|leftmost|rightmost|header|mbegin|data|ptr|head|tail|local|length|find)\w*|_S_\w+|'
                  r'get_deleter|_M_t|_M_const_cast|base)$')
WRITES = {'memcpy': 0, 'memmove': 0, 'memset': 0, 'strcpy': 0, 'strncpy': 0, 'strcat': 0, 'strncat': 0, 'sprintf': 0, 'snprintf': 0, 'vsnprintf': 0,
          'fread': 0, 'read': 1, 'fgets': 0, 'fscanf': 2, 'sscanf': 2, 'free': 0, 'realloc': 0, 'fwrite': 3, 'fprintf': 0, 'fputs': 1, 'fputc': 1,
          'operator delete': 0, 'operator delete[]': 0, 'stpcpy': 0, 'qsort': 0, 'bzero': 0, 'munmap': 0, 'getline': 0, 'fseek': 0, 'rewind': 0, 'lseek': None}
STATIC = {'strtok', 'localtime', 'gmtime', 'ctime', 'asctime', 'srand', 'setlocale', 'getopt', 'gethostbyname', 'gethostbyaddr', 'tmpnam',
          'readdir', 'setenv', 'putenv', 'unsetenv', 'chdir', 'umask', 'getpwnam', 'getpwuid', 'inet_ntoa', 'ttyname', 'ptsname', 'drand48', 'srand48',
          'lgamma', 'ecvt', 'fcvt', 'getlogin', 'crypt', 'dup2', 'signal', 'sigaction', 'xmlSetGenericErrorFunc', 'xmlCleanupParser', 'xmlKeepBlanksDefault',
          'xmlSubstituteEntitiesDefault', 'xmlLineNumbersDefault', 'xmlMemSetup', 'curl_global_init', 'curl_global_cleanup'} - {'readdir', 'dup2'}
LEVEL = re.compile(r'leveldb::(DB|WriteBatch)::(Put|Write|Delete|CompactRange)$')
SHARED = ('shr',)


class Share(Client):
    """q: number of locks held"""
    def __init__(self, P, on, roots):
        self.P = P; self.on = on; self.roots = roots
        self.bad = []; self.stores = set(); self.calls = set(); self.captured = set()

    def init_q(self):
        return 0

    def relevant(self, eng, f):
        return f.name in self.on

    # -- which values lead into shared data
    def shared_sid(self, s):
        n = 0; path = ()
        while isinstance(s, tuple) and n < 40:
            n += 1
            if len(s) == 3 and s[1:] == ('cb', 0):
                # captured by a closure
                return any((s[0][-1], path[:k]) in self.captured for k in range(len(path) + 1))
            if s == ('arg', 0) or s[:1] == SHARED:
                return True
            if s[:1] == ('old',):
                s = s[-1]
                continue
            if s[:1] == ('ld',):
                o, off = s[1], s[2]
                if o[0] == 'g':
                    return self.shared_obj(o)
                if o[0] != 'd':
                    return False
                s = o[1]; path = (off,) + path
                continue
            return False
        return False

    def shared_obj(self, o):
        if o[0] == 'd':
            return self.shared_sid(o[1])
        if o[0] == 'g':
            g = self.P.G.get(o[1])
            return bool(g) and not g.get('const') and not g.get('tls') and str(g.get('file', '')).startswith(self.P.root + '/')
        return False

    def shared(self, av):
        if av is None:
            return False
        if av[0] == 'p':
            return self.shared_obj(av[1])
        if av[0] == 's':
            return self.shared_sid(av[1])
        return False

    def leads(self, eng, st, av):
        """shared itself, or an object (iterator, smart pointer) whose first word is"""
        if self.shared(av):
            return True
        if av is not None and av[0] == 'p' and av[1][0] in ('al', 'hp'):
            return self.shared(st.mem.get((av[1], av[2])))
        return False

    def new_sid(self, sid, *of):
        return SHARED + (sid,) if any(self.shared(v) for v in of) else sid

    # -- effects
    def what(self, eng, av):
        o = av[1] if av[0] == 'p' else ('d', av[1])
        return 'the variable ' + self.P.G[o[1]]['dem'] if o[0] == 'g' else 'data of the shared object'

    def report(self, st, inst, what):
        if st.q == 0:
            self.bad.append((inst, what))

    def store(self, eng, st, inst, addr, val):
        if inst.op == 'atomicrmw' or 'atomic' in inst.d:
            return
        self.stores.add((inst.fn.name, inst.i))
        if self.shared(addr):
            self.report(st, inst, 'stores into %s' % self.what(eng, addr))

    def call(self, eng, st, inst, fobj, short, args):
        if fobj is not None and fobj.name in self.roots:
            eng.havoc_args(st, args, None)
            return [('ret', None, st)]
        if short in ACQ or short == '__cxa_guard_acquire' or short == 'xmlLockLibrary':
            st.q = min(st.q + 1, 4)
            return [('ret', None, st)]
        if short in REL or short in ('__cxa_guard_release', '__cxa_guard_abort', 'xmlUnlockLibrary'):
            st.q = max(st.q - 1, 0)
            return [('ret', None, st)]
        m = GUARD.match(short)
        if m and m.group(2) in ('lock_guard', 'unique_lock', 'scoped_lock', '~lock_guard', '~unique_lock', '~scoped_lock'):
            st.q = min(max(st.q + (-1 if m.group(2)[0] == '~' else 1), 0), 4)
            return [('ret', None, st)]
        if fobj is not None and fobj.repo and fobj.blocks:
            return None
        self.calls.add((inst.fn.name, inst.i))
        if short == 'std::function::function' and len(args) > 1:
            self.capture(eng, st, fobj, args[1])
        if short in STATIC:
            self.report(st, inst, 'calls %s, which keeps its state for the whole process' % short)
        k = WRITES.get(short)
        if k is not None and k < len(args) and self.shared(args[k]):
            self.report(st, inst, 'lets %s write to %s' % (short, self.what(eng, args[k])))
        if len(args) > 1 and inst.d['fn'][0] == 'f' and self.shared(args[1]) and fobj is not None and short.startswith('std::') and (
                short.split('::')[-1] == 'swap' or re.search(r'&&\)( const)?$', fobj.dem) and
                re.match(r'std::(map|set|vector|list|deque|basic_string|__cxx11::basic_string|unique_ptr|shared_ptr|function)::(operator=|map|set|vector|list|deque|basic_string|unique_ptr|shared_ptr|function)$', short)):
            self.report(st, inst, 'lets %s take %s away' % (short, self.what(eng, args[1])))
        if not args or not self.leads(eng, st, args[0]):
            return None
        last = short.split('::')[-1]
        if self.shared(args[0]) and (LEVEL.match(short) or fobj is not None and self.mutator(fobj, short, last)):
            self.report(st, inst, 'calls %s on %s' % (short, self.what(eng, args[0])))
        if inst.t == 'ptr' and not last.startswith('New') and '::' in short:
            if not (fobj and fobj.const_method) and not self.shared(args[0]):
                eng.havoc_args(st, args[1:], short)
            return [('ret', ('s', SHARED + (inst.fn.name, inst.i)), st)]
        return None

    def capture(self, eng, st, fobj, av):
        """pointers into shared data that a closure keeps, by value or by reference to a local variable"""
        o, off = eng.addr(st, av)
        lam = [g for g in self.P.lib_closure(fobj.name)]
        for k, v in list(st.mem.items()):
            if k[0] == o and type(k[1]) is int:
                paths = []
                if self.shared(v):
                    paths.append((k[1] - (off or 0),))
                elif v[0] == 'p' and v[1][0] in ('al', 'hp'):
                    for k2, v2 in st.mem.items():
                        if k2[0] == v[1] and type(k2[1]) is int and self.shared(v2):
                            paths.append((k[1] - (off or 0), k2[1] - (v[2] or 0)))
                for g in lam:
                    for p in paths:
                        self.captured.add((g, p))

    @staticmethod
    def mutator(f, short, last):
        if not re.match(r'std::(map|set|multimap|multiset|unordered_\w+|vector|list|deque|queue|stack|priority_queue|basic_string|__cxx11::basic_string|'
                        r'basic_ostream|ostream|basic_ofstream|basic_stringstream|basic_ostringstream|basic_istream|function|unique_ptr|shared_ptr|array|'
                        r'_Rb_tree|bitset|optional|__cxx11::list|atomic)::', short):
            return False
        if f.const_method or READ.match(last):
            return False
        if last == 'operator[]':
            return bool(re.match(r'std::(map|unordered_map)::', short))
        if re.match(r'std::atomic::', short):
            return False
        return True


def run(P, rep, tier):
    rep.rule = ('Effect analysis over the compiler IR: from the functions that answer a query and write the answer, every store and every library '
                'call is checked against the set of addresses derived from the handler or formatter object that all requests share and from global '
                'and static variables; none may be written (unless a lock is held or an atomic is used), and no library function with '
                'process-wide state is called.')
    rep.assumptions = ['LevelDB, libxml2, json-c and zlib are safe for concurrent use as documented', 'objects created while answering are not shared']
    roots = {}
    for base, meth in (('QueryHandler', 'handleQuery'), ('ResponseFormatter', 'writeData')):
        for f in P.repo_fns():
            if f.blocks and f.cls and f.short.split('::')[-1] == meth and f.dem.split('(')[0].endswith('::' + meth):
                roots[f.name] = f
    n = {'handleQuery': 0, 'writeData': 0}
    for f in roots.values():
        n[f.short.split('::')[-1]] += 1
    cbs = {}
    for name, reg in foreign_callbacks(P).items():
        if name in P.reach(['main.src_mws_mwsd', 'main.src_mws_schemad']) and any(r[0] == 'MHD_start_daemon' for r in reg):
            cbs[name] = P.F[name]
    reach = P.reach(list(roots) + list(cbs))
    on = set(reach)
    jobs = [(f, set(roots) - {f.name}) for f in roots.values()] + [(f, set(roots)) for f in cbs.values()]
    ns = nc = 0
    for f, cut in jobs:
        c = Share(P, on, cut)
        try:
            Engine(P, c, maxdepth=14, budget=4000000).run_root(f)
        except Budget:
            rep.error('budget exceeded in %s' % f.short); continue
        ns += len(c.stores); nc += len(c.calls)
        rep.ob('%s modifies nothing shared' % f.short, not c.bad)
        for inst, what in {(i.fn.short, w): (i, w) for i, w in c.bad}.values():
            rep.viol('%s|%s' % (inst.fn.short, what), '%s %s at %s (while %s answers a request, other requests use it)' % (inst.fn.short, what, inst.loc(), f.short))
    rep.stats['stores_checked'] = ns; rep.stats['library_calls_checked'] = nc
    rep.need('handlers', n['handleQuery'], 2)
    rep.need('formatters', n['writeData'], 3)
    rep.need('callbacks', len(cbs), 1)
