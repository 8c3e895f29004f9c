"""One HTTP exchange of each server: access handler contexts (first call, upload, final call)."""
import re
from absint import Client, Engine, Budget
import resources as R

PARSE, HANDLE, FORMAT = ('ev', 'parse'), ('ev', 'handle'), ('ev', 'format')


def cstr(P, av):
    if av[0] == 'p' and av[1][0] == 'g' and av[2] == 0:
        g = P.G.get(av[1][1])
        if g and g.get('init') and g['init'][0] == 's':
            return g['init'][1]
    return None


class Http(Client):
    def __init__(self, P, rel, ctx, root):
        self.P = P; self.rel = rel; self.ctx = ctx; self.root = root
        self.find = []; self.exits = 0; self.queued = []
        self.events = set()

    def init_q(self):
        # responses queued, creation failed, stages entered
        return (0, False, frozenset())

    def relevant(self, eng, f):
        # the helpers next to the handler belong to it
        return f.name in self.rel or f.file == self.root.file

    def verb(self, eng, st, av):
        """number of the handler argument (URL, method) that a C string or std::string holds"""
        if av[0] == 's' and av[1] in (('arg', 2), ('arg', 3)):
            return av[1][1]
        o, off = eng.addr(st, av)
        v = st.mem.get((o, ('verb', off)))
        return v[1] if v is not None else None

    def compared(self, eng, st, inst, short, args):
        """the handler compares the URL or the method with a literal"""
        last = short.split('::')[-1]
        if last in ('basic_string', 'operator=', 'assign') and len(args) > 1 and 'basic_string::' in short:
            k = self.verb(eng, st, args[1]); o, off = eng.addr(st, args[0])
            if k is None:
                st.mem.pop((o, ('verb', off)), None)
                return None
            st.mem[(o, ('verb', off))] = ('verb', k)
            return [('ret', args[0] if inst.t else None, st)]
        if last in ('c_str', 'data') and 'basic_string::' in short:
            k = self.verb(eng, st, args[0])
            return [('ret', ('s', ('arg', k)), st)] if k is not None else None
        eq = short.startswith('std::operator') and ('==' in short or '!=' in short)
        if last in ('strcmp', 'strcasecmp', 'compare') or eq:
            if len(args) != 2:
                return None
            k = [cstr(self.P, a) for a in args]
            o = [n for n in (self.verb(eng, st, a) for a in args) if n is not None]
            lit = [x for x in k if x is not None]
            if o and lit:
                v = ('s', ('strcmp', o[0], lit[0]))
                if eq:
                    v = ('cmp', 'eq' if '==' in short else 'ne', v, ('k', 0))
                return [('ret', v, st)]
        return None

    def keep_cell(self, k, v, st):
        return v[0] == 'verb'

    def call(self, eng, st, inst, fobj, short, args):
        n, cf, ev = st.q
        last = short.split('::')[-1]
        if short.startswith('MHD_create_response_from'):
            s2 = st.copy(); s2.q = (n, True, ev)
            return [('ret', ('k', 0), s2), ('ret', ('p', ('hp', 'resp', inst.fn.name, inst.i), 0), st)]
        if short == 'MHD_queue_response':
            self.queued.append((st, inst, args))
            self.check_status(eng, st, inst, args)
            if n >= 1:
                self.find.append(('second response', inst, 'a second response is queued for the same request'))
            st.q = (min(n + 1, 2), cf, ev)
            return None
        r = self.compared(eng, st, inst, short, args)
        if r is not None:
            return r
        ev2 = None
        if fobj is not None and fobj.repo:
            if last == 'readMwsQuery':
                ev2 = PARSE
            elif last == 'handleQuery' and fobj.cls and 'QueryHandler' in fobj.cls:
                ev2 = HANDLE
            elif last == 'writeData' and fobj.cls and 'Formatter' in fobj.cls:
                ev2 = FORMAT
        if ev2:
            self.events.add(ev2)
            st.facts.pop(ev2, None)
            st.q = (n, cf, ev | {ev2[1]})
            out = []
            if ev2 is HANDLE:
                s2 = st.copy(); s2.q = (n, cf, st.q[2] | {'threw'})
                s2.facts[HANDLE] = (0, 0, frozenset())
                s2.mem[__import__('absint').EXC] = ('f', '_ZTISt13runtime_error')
                out.append(('throw', None, s2))
            return out + [('ret', ('s', ev2), st)]
        return None

    def check_status(self, eng, st, inst, args):
        pass

    def ret(self, eng, st, fn, rv, kind, depth):
        if kind not in ('ret',):
            return
        self.exits += 1
        n, cf, ev = st.q
        r = eng.rng(st, rv) if rv is not None else None
        no = rv == ('k', 0)
        yes = rv is not None and rv[0] == 'k' and rv[1] != 0
        if self.ctx == 'final' and n == 0 and yes:
            self.find.append(('no response', fn, 'the complete request is accepted but no response is queued'))
        if self.ctx == 'final' and n == 0 and not cf and not yes:
            self.find.append(('no response', fn, 'the complete request is refused without a response'))
        if n >= 1 and no:
            self.find.append(('response dropped', fn, 'the connection is closed after a response was queued'))


def contexts(P):
    for h, k0, done in R.connections(P):
        H = P.F[h]
        for ctx in ('first', 'upload', 'final'):
            yield H, k0, ctx


def relevant_set(P):
    """functions from which an HTTP library call or a query stage is reachable"""
    names = set()
    for f in P.repo_fns():
        for x in f.calls():
            fv = x.d['fn']
            if fv[0] == 'f' and (P.F[fv[1]].short.startswith('MHD_') or P.F[fv[1]].short.split('::')[-1] == 'readMwsQuery'):
                names.add(f.name)
    out = set(names)
    work = list(names)
    while work:
        for x in P.callers(work.pop()):
            if x.fn.name not in out:
                out.add(x.fn.name); work.append(x.fn.name)
    return out


def explore(P, cls):
    """run the client over the three contexts of every access handler; -> list of clients"""
    rel = relevant_set(P)
    out = []
    for H, k0, ctx in contexts(P):
        c = cls(P, rel, ctx, H)
        eng = Engine(P, c, maxdepth=16, budget=3000000)
        cell = (('d', ('arg', k0)), 0)
        up = (('d', ('arg', 6)), 0)
        mem = {}; facts = {}
        if ctx == 'first':
            mem[cell] = ('k', 0)
        else:
            mem[cell] = ('s', ('conn',)); facts[('conn',)] = (1, float('inf'), frozenset([0]))
            if ctx == 'final':
                mem[up] = ('k', 0)
            else:
                mem[up] = ('s', ('up',)); facts[('up',)] = (1, 1 << 40, frozenset([0]))
        eng.run_root(H, mem=mem, facts=facts)
        c.steps = eng.steps; c.visited = set(eng.visited_fns)
        out.append(c)
    return out
