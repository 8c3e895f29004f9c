"""std::string values as far as they are known: '*' stands for an unknown beginning"""
import re

CTOR = re.compile(r'std::(__cxx11::)?basic_string::basic_string$')
LITERAL = {}


def literal(P, av):
    if av[0] == 'p' and av[1][0] == 'g' and av[2] == 0:
        g = P.G.get(av[1][1])
        if g and g.get('init'):
            if g['init'][0] == 's':
                return g['init'][1]
            if g['init'][0] == 'z' or g['init'] == ('z',):
                return ''
    return None


def tag_of(P, eng, st, av):
    """known content of a C string or std::string value"""
    l = literal(P, av)
    if l is not None:
        return l
    if av[0] == 's' and isinstance(av[1], tuple) and av[1] and av[1][0] == 'cs':
        return av[1][1]
    o, off = eng.addr(st, av)
    v = st.mem.get((o, ('tag', off)))
    return v[1] if v is not None and v[0] == 'tag' else None


def cat(a, b):
    if b is None:
        return None
    if b.startswith('*') or a is None:
        return b if b.startswith('*') else '*' + b
    return a + b


def put(eng, st, av, tag):
    o, off = eng.addr(st, av)
    if tag is None:
        st.mem.pop((o, ('tag', off)), None)
    else:
        st.mem[(o, ('tag', off))] = ('tag', tag[-80:])


def keep_tag(k):
    return isinstance(k[1], tuple) and k[1] and k[1][0] == 'tag'


def base(tag):
    return tag.rsplit('/', 1)[-1].lstrip('*') if tag else None


def call(P, eng, st, inst, fobj, short, args):
    """outcome of a std::string operation, or None"""
    if not short.startswith('std::'):
        return None
    last = short.split('::')[-1]
    if short == 'std::operator+' and len(args) == 3:
        put(eng, st, args[0], cat(tag_of(P, eng, st, args[1]), tag_of(P, eng, st, args[2])))
        return [('ret', None, st)]
    if not ('basic_string::' in short and 'basic_stringstream' not in short and 'basic_stringbuf' not in short):
        return None
    if last == 'basic_string':
        put(eng, st, args[0], tag_of(P, eng, st, args[1]) if len(args) > 1 else '')
        return [('ret', None, st)]
    if last == '~basic_string':
        put(eng, st, args[0], None)
        return [('ret', None, st)]
    if last in ('operator=', 'assign') and len(args) == 2:
        put(eng, st, args[0], tag_of(P, eng, st, args[1]))
        return [('ret', args[0], st)]
    if last in ('operator+=', 'append') and len(args) == 2:
        put(eng, st, args[0], cat(tag_of(P, eng, st, args[0]), tag_of(P, eng, st, args[1])))
        return [('ret', args[0], st)]
    if last in ('c_str', 'data') and len(args) == 1:
        t = tag_of(P, eng, st, args[0])
        return [('ret', ('s', ('cs', t)), st)] if t is not None else None
    if last in ('clear', 'push_back', 'insert', 'erase', 'replace', 'resize', 'swap', 'operator=', 'assign', 'operator+=', 'append'):
        put(eng, st, args[0], None)
        return [('ret', args[0] if inst.t == 'ptr' else None, st)]
    return None
