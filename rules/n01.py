import re
import inject as J
from absint import Client, Engine, NULLSID

NULLV = ('s', NULLSID)
MAYBE = {'fopen', 'fopen64', 'fdopen', 'freopen', 'freopen64', 'fmemopen', 'opendir', 'getenv', 'strchr', 'strrchr', 'strstr', 'strpbrk',
         'xmlGetProp', 'xmlGetNoNsProp', 'xmlGetNsProp', 'xmlNodeGetContent', 'xmlDocGetRootElement', 'xmlOutputBufferCreateIO', 'xmlOutputBufferCreateFile',
         'xmlOutputBufferCreateBuffer', 'xmlNewTextWriter', 'MHD_start_daemon', 'MHD_create_post_processor', 'MHD_lookup_connection_value',
         'MHD_get_connection_info', 'MHD_create_response_from_buffer',
         'xmlXPathNewContext', 'xmlXPathEval', 'xmlXPathEvalExpression', 'xmlParseMemory', 'xmlReadMemory', 'xmlReadFile', 'xmlParseFile',
         'xmlReadIO', 'xmlReadFd', 'xmlCreateIOParserCtxt', 'xmlNewParserCtxt', 'htmlNewParserCtxt', 'htmlCtxtReadMemory', 'htmlReadMemory', 'htmlParseDoc',
         'xmlCtxtReadMemory', 'xmlGetPredefinedEntity', 'curl_easy_init', 'gethostbyname', 'json_tokener_parse', 'json_object_object_get',
         'json_object_from_file', 'gmtime', 'localtime', 'readdir', 'readdir64', 'fgets', 'realpath'}
# parameters that must not be null: function -> positions
STR1 = {'strlen', 'strdup', 'atoi', 'atol', 'atof', 'strtol', 'strtoul', 'strtod', 'fclose', 'fgetc', 'feof', 'ferror', 'fileno', 'ftell', 'rewind', 'fprintf',
        'fseek', 'fscanf', 'closedir', 'readdir', 'readdir64', 'xmlParseDocument', 'puts', 'json_object_object_add', 'json_object_array_add', 'fopen',
        'opendir', 'sscanf', 'strndup', 'vfprintf', 'fseeko', 'lh_table_head', 'lh_entry_next', 'lh_entry_k', 'lh_entry_v'}
ARGS = {'strcmp': (0, 1), 'strncmp': (0, 1), 'strcasecmp': (0, 1), 'strncasecmp': (0, 1), 'strcpy': (0, 1), 'strncpy': (0, 1), 'strcat': (0, 1),
        'memcpy': (0, 1), 'memmove': (0, 1), 'memcmp': (0, 1), 'memset': (0,), 'strchr': (0,), 'strrchr': (0,), 'strstr': (0, 1), 'strtok': (1,),
        'fread': (0, 3), 'fwrite': (0, 3), 'fgets': (0, 2), 'fputs': (0, 1), 'fputc': (1,), 'getline': (2,), 'sprintf': (0, 1), 'snprintf': (),
        'open': (0,), 'open64': (0,), 'stat': (0, 1), 'json_object_to_fd': (1,)}


def bad_params(f, short):
    if short in STR1:
        return (0,)
    if short in ARGS:
        return ARGS[short]
    if short.startswith('std::') and f is not None and f.name.startswith('_Z'):
        last = short.split('::')[-1]
        if last in ('basic_string',):
            return (0, 1)
        if re.match(r'std::(basic_string|vector|map|set|list|deque|basic_[a-z]*stream|basic_filebuf|function)::', short):
            return (0, 1) if re.match(r'std::basic_string::(basic_string|operator=|operator\+=|append|assign|compare|find)$', short) else (0,)
    return ()


UPTR = re.compile(r'std::unique_ptr::(unique_ptr|reset|get|release|operator->|operator\*|operator bool|operator=)$')


class Deref(J.Inject):
    loop_ranges = True

    def __init__(self, P, site, on_path):
        J.Inject.__init__(self, P, site, J.returns(NULLV), on_path)
        self.escapes = False; self.returned = False

    def keep(self, v):
        return v == J.MARK or v == NULLV

    def keep_cell(self, k, v, st):
        return v == J.MARK or v == NULLV

    def _null(self, addr):
        return addr == NULLV or addr[0] == 'p' and addr[1] == ('d', NULLSID)

    def load(self, eng, st, inst, addr, val):
        if st.q == 1 and self._null(addr):
            self.bad.append((inst, 'is dereferenced'))
        cell = eng.addr(st, addr)
        if inst.t == 'i32' and cell not in st.mem:
            fd = self.P.field(inst.fn, inst.a[0])
            if fd and fd[2][3] == 'unsigned int':
                v = ('unsigned', cell)
                st.mem[cell] = ('s', v)
                st.facts.setdefault(v, (0, 2 ** 31 - 1, frozenset()))

    def store(self, eng, st, inst, addr, val):
        if st.q == 1 and self._null(addr):
            self.bad.append((inst, 'is dereferenced'))

    def model(self, eng, st, inst, fobj, short, args):
        if st.q == 1:
            for k in bad_params(fobj, short):
                if k < len(args) and self._null(args[k]):
                    self.bad.append((inst, 'is passed to %s' % short))
            if short == 'json_object_get_object' and args[0] == NULLV:
                return [('ret', NULLV, st)]
            if UPTR.match(short):
                return self.unique_ptr(eng, st, inst, fobj, short.split('::')[-1], args)
            if fobj is not None and fobj.short in ('std::operator==', 'std::operator!=') and re.search(r'unique_ptr<.*nullptr_t', fobj.dem):
                for a in args:
                    if st.mem.get(eng.addr(st, a)) == NULLV:
                        return [('ret', ('k', int(short.endswith('=='))), st)]
        return None

    def unique_ptr(self, eng, st, inst, fobj, last, args):
        """a smart pointer that owns the null pointer"""
        cell = eng.addr(st, args[0])
        if last in ('unique_ptr', 'reset', 'operator='):
            new = args[1] if len(args) > 1 else None
            if new is not None and new != NULLV and last != 'reset' and '&&' in fobj.dem:
                new = st.mem.get(eng.addr(st, new))
            if new == NULLV:
                st.mem[cell] = NULLV
            else:
                st.mem.pop(cell, None)
            return [('ret', args[0] if inst.t == 'ptr' else None, st)]
        if st.mem.get(cell) != NULLV:
            return None
        if last == 'operator bool':
            return [('ret', ('k', 0), st)]
        return [('ret', NULLV, st)]

    def ret(self, eng, st, fn, rv, kind, depth):
        if st.q != 1:
            return
        self.failed_exits += 1
        if kind != 'ret':
            return
        if rv == NULLV:
            self.returned = True
        for (o, off), v in st.mem.items():
            if v == NULLV and o[0] in ('d',) and 'arg' not in ():
                self.escapes = True


ENDV = ('s', ('end iterator',))
FIND = re.compile(r'std::(map|set|multimap|multiset|unordered_map|unordered_set)::find$')
BEGIN = re.compile(r'std::(map|set|unordered_map|unordered_set|list)::c?begin$')
CONT = re.compile(r'std::(map|set|multimap|multiset|unordered_map|unordered_set|list|vector)::(c?end|empty|size)$')
ITER = re.compile(r'std::(_Rb_tree_(const_)?iterator|_List_(const_)?iterator|__detail::_Node_(const_)?iterator|__detail::_Node_iterator_base)::')


class Missing(Deref):
    """a lookup that finds nothing / the first element of an empty container"""
    def __init__(self, P, site, on_path, empty):
        Deref.__init__(self, P, site, on_path)
        self.empty = empty
        self.fail = self.miss

    def keep(self, v):
        return v == ENDV

    def keep_cell(self, k, v, st):
        return v == ENDV

    def miss(self, c, eng, st, inst, args):
        if self.empty:
            o = eng.addr(st, args[0])
            if eng.rng(st, ('s', ('empty?', o)))[1] == 0 or eng.rng(st, ('s', ('size', o)))[0] > 0:
                return []
            st.facts[('empty?', o)] = (1, 1, frozenset())
            st.facts[('size', o)] = (0, 0, frozenset())
        return [('ret', ENDV, st)]

    def load(self, eng, st, inst, addr, val):
        pass
    store = load

    def model(self, eng, st, inst, fobj, short, args):
        if fobj is None or fobj.repo:
            return None
        last = short.split('::')[-1]
        if CONT.match(short):
            o = eng.addr(st, args[0])
            if last in ('end', 'cend'):
                return [('ret', ENDV, st)]
            return [('ret', ('s', ('empty?' if last == 'empty' else 'size', o)), st)]
        if last in ('operator==', 'operator!=') and len(args) == 2:
            a, b = (st.mem.get(eng.addr(st, v)) for v in args)
            if a == b == ENDV and 'iterator' in fobj.dem:
                return [('ret', ('k', int(last == 'operator==')), st)]
            return None
        if ITER.match(short):
            if last.endswith('iterator') and len(args) == 2:
                v = st.mem.get(eng.addr(st, args[1]))
                if v is not None:
                    st.mem[eng.addr(st, args[0])] = v
                    return [('ret', None, st)]
            if last in ('operator->', 'operator*') and st.q == 1 and st.mem.get(eng.addr(st, args[0])) == ENDV:
                self.bad.append((inst, 'is dereferenced'))
                return [('stop', None, st)]
        return None

    def ret(self, eng, st, fn, rv, kind, depth):
        if st.q == 1:
            self.failed_exits += 1


def taken_at_once(f, x):
    """the iterator is only dereferenced (no loop over it)"""
    ok = False
    for u in f.uses(('i', x.i)):
        if u.op != 'store' or u.a[1][0] != 'i':
            return False
        for w in f.uses(u.a[1]):
            if w is u or w.op == 'call' and w.d['fn'][0] == 'f' and w.d['fn'][1].startswith('llvm.'):
                continue
            if w.is_call and w.d['fn'][0] == 'f' and P_short(f, w).split('::')[-1] in ('operator*', 'operator->'):
                ok = True
            else:
                return False
    return ok


def P_short(f, w):
    return f.prog.F[w.d['fn'][1]].short


class Nulls(Client):
    """does a path of the function return a null constant"""
    def __init__(self, f):
        self.f = f; self.null = False

    def relevant(self, eng, f):
        return f is self.f

    def ret(self, eng, st, fn, rv, kind, depth):
        if kind == 'ret' and rv == ('k', 0):
            self.null = True


def null_returns(P):
    """repo functions with a path that returns a null constant"""
    out = set()
    for f in P.repo_fns():
        if f.ret == 'ptr' and any(a == ('n',) for x in f.all() for a in x.a) and (P.callers(f.name) or f.cls):
            c = Nulls(f)
            try:
                Engine(P, c, maxdepth=2, budget=200000).run_root(f)
            except J.Budget:
                out.add(f.name); continue
            if c.null:
                out.add(f.name)
    return out


def run(P, rep, tier):
    rep.rule = ('Failure injection over the abstract program: each call whose result may be null (library calls by their documentation, functions '
                'of the repository with a path returning null) returns null in turn; on no path may this pointer be dereferenced or passed to a '
                'library function that requires a valid pointer. Functions that hand the null on (as their result or in an object) are followed '
                'in their callers.')
    rep.assumptions = ['exhausted memory (malloc, new, strdup) is not considered', 'an assert on a null pointer states an invariant']
    nullable = null_returns(P)
    work = []; done = set()
    for f in P.repo_fns():
        for x in f.calls():
            fv = x.d['fn']
            if x.t != 'ptr':
                continue
            for c in P.callees(x):
                g = P.F.get(c)
                if g is not None and (g.short in MAYBE or c in nullable):
                    work.append((f, x, 0)); break
    sites = len(work)
    rep.need('nullable_results', sites, 40)
    runs = 0
    while work:
        f, x, d = work.pop()
        if (f.name, id(x)) in done:
            continue
        done.add((f.name, id(x)))
        on = J.upward(P, [x.fn.name]) & set(P.reach([f.name])) | {f.name}
        c = Deref(P, x, on)
        try:
            J.run(P, f, c, budget=400000)
        except J.Budget:
            rep.error('budget exceeded at %s' % x.loc()); continue
        runs += 1
        what = P.F[P.callees(x)[0]].short
        rep.ob('null result of %s at %s in %s' % (what, x.loc(), f.short), not c.bad)
        if not c.hit:
            rep.stats['unreached'] = rep.stats.get('unreached', 0) + 1
        for inst, how in {(i.fn.short, h): (i, h) for i, h in c.bad}.values():
            rep.viol('%s|%s|%s' % (x.fn.short, what, inst.fn.short), 'when %s at %s (%s) returns null, the pointer %s at %s (%s)' %
                     (what, x.loc(), x.fn.short, how, inst.loc(), inst.fn.short))
        if c.bad:
            continue
        if c.returned:
            for y in P.callers(f.name):
                work.append((y.fn, y, 0))
        elif c.escapes and d < 3:
            for y in P.callers(f.name):
                if y.fn.repo:
                    work.append((y.fn, x, d + 1))
    rep.stats['functions_followed'] = runs
    n = 0
    for f in P.repo_fns():
        for x in f.calls():
            fv = x.d['fn']
            if fv[0] != 'f':
                continue
            s = P.F[fv[1]].short
            if not (FIND.match(s) or BEGIN.match(s) and taken_at_once(f, x)):
                continue
            n += 1
            c = Missing(P, x, {f.name}, bool(BEGIN.match(s)))
            try:
                J.run(P, f, c, budget=400000)
            except J.Budget:
                rep.error('budget exceeded at %s' % x.loc()); continue
            rep.ob('%s without a result at %s in %s' % (s, x.loc(), f.short), not c.bad)
            for inst, how in {(i.fn.short, h): (i, h) for i, h in c.bad}.values():
                rep.viol('%s|%s|%s' % (f.short, s, how), 'when %s at %s (%s) finds no element, the resulting end iterator %s at %s' %
                         (s, x.loc(), f.short, how, inst.loc()))
    rep.need('lookups', n, 10)
    members(P, rep)


class Member(Deref):
    """a pointer member that the program itself treats as optional is null"""
    def __init__(self, P, on_path, fld):
        Deref.__init__(self, P, None, on_path)
        self.fld = fld; self.set = set()

    def load(self, eng, st, inst, addr, val):
        if st.q == 0 and inst.t == 'ptr' and self.P.field(inst.fn, inst.a[0]) is not None and self.P.field(inst.fn, inst.a[0])[:2] == self.fld:
            o = eng.addr(st, addr)
            if o not in st.mem:
                st.mem[o] = NULLV
                st.q = 1; self.hit += 1
        Deref.load(self, eng, st, inst, addr, val)


def for_delete(P, f, u):
    """the comparison with null belongs to a delete expression or an assert"""
    v = u.a[0] if u.a[1] == ('n',) else u.a[1]
    brs = [b for b in f.uses(('i', u.i))]
    if not brs:
        return True
    for br in brs:
        if br.op != 'br' or len(br.d['s']) != 2:
            return False
        null, other = br.d['s'] if u.d['p'] == 'eq' else br.d['s'][::-1]
        if any(y.is_call and y.d['fn'][0] == 'f' and P.F[y.d['fn'][1]].short == '__assert_fail' for y in f.blocks[null]):
            continue
        for y in f.blocks[other]:
            if y.is_call and y.d['fn'][0] == 'f' and y.d['fn'][1].startswith('llvm.'):
                continue
            if y.is_call:
                s = P.F[y.d['fn'][1]].short if y.d['fn'][0] == 'f' else ''
                if not (y.a and y.a[0] == v and ('::~' in s or s.startswith('operator delete') or not s and
                                                 all('::~' in P.F[c].short for c in P.callees(y)))):
                    return False
                break
        else:
            return False
    return True


def given(f, v):
    """v is a parameter (possibly through its stack copy)"""
    if v[0] == 'i' and f.insts[v[1]].op == 'load':
        return any(u.op == 'store' and u.a[0][0] == 'a' for u in f.uses(f.insts[v[1]].a[0]))
    return v[0] == 'a'


def optional_members(P):
    """pointer members that may be set to null and are compared with null by the program itself (not just for a delete or by an assert)"""
    out = set(); may = set()
    for f in P.repo_fns():
        for x in f.all():
            if x.op == 'store' and (x.a[0] == ('n',) or given(f, x.a[0])):
                fd = P.field(f, x.a[1])
                if fd:
                    may.add(fd[:2])
    for f in P.repo_fns():
        for x in f.all():
            if x.op == 'load' and x.t == 'ptr':
                fd = P.field(f, x.a[0])
                if fd and fd[:2] in may and any(u.op == 'icmp' and ('n',) in u.a and not for_delete(P, f, u) for u in f.uses(('i', x.i))):
                    out.add(fd[:2])
    return out


def members(P, rep):
    M = optional_members(P)
    rep.need('optional_members', len(M), 1)
    for fld in sorted(M):
        for f in P.repo_fns():
            if not any(x.op == 'load' and x.t == 'ptr' and (P.field(f, x.a[0]) or ('', ''))[:2] == fld for x in f.all()):
                continue
            c = Member(P, {f.name}, fld)
            try:
                J.run(P, f, c, budget=400000)
            except J.Budget:
                rep.error('budget exceeded in %s' % f.short); continue
            rep.ob('%s without its %s' % (f.short, fld[1]), not c.bad)
            for inst, how in {(i.fn.short, h): (i, h) for i, h in c.bad}.values():
                rep.viol('%s|%s|%s' % (f.short, fld[1], how), '%s (%s) may be null, but %s at %s' % (fld[1], fld[0], how, inst.loc()))
