RULE = """Typestate of files.  contextopen, textpack, lazy_textpack and dbfpack are interpreted with every library, file and
converter call allowed to raise, for a file name and for a caller's stream (text and bytes), with all reading arguments that
change the path.  On every outcome a file opened by name must be closed and the caller's stream must not; no path may call
close on the stream or read a closed file.  contextopen must leave the position of the stream where it was, and lazy_textpack
and dbfpack with names must read data from the position the stream was given at."""
TECHNIQUE = 'typestate analysis over all normal and exceptional paths (abstract interpretation)'
from .common import *       # noqa
from .readscene import *    # noqa

RT = 'channelpack.readtext.'
CO, TP, LZ, PP = RT + 'contextopen', RT + 'textpack', RT + 'lazy_textpack', RT + 'preparse'
DP = 'channelpack.dbf.dbfpack'
FIELDS = [('AA', b'C', 4, 0), ('BB', b'N', 6, 0)]


class Watch(object):
    """close and read events, by file"""

    def __init__(self):
        self.closed, self.late, self.opens = [], [], 0
        self.fo = None

    def __call__(self, kind, st, info):
        if kind == 'open':
            self.opens += 1
        elif kind == 'close' and info['file'] == self.fo:
            self.closed.append((bool(st.taint), site(info)))
        elif kind == 'closedread':
            self.late.append((bool(st.taint), site(info)))


def site(info):
    fi = info.get('fi')
    return '%s:%s' % (fi.mod.rel if fi else '?', getattr(info.get('node'), 'lineno', '?'))


def preparse_model(empty):
    def preparse(E, st, b):
        s = E.implicit(st, T('preparse'), 'Exception')
        if s is None:
            return []
        if empty:
            return [(s, s.alloc(DictObj()))]
        return [(s, dct(s, [(K('skiprows'), K(1)), (K('delimiter'), K(';')), (K('converters'), NONE),
                            (K('names'), dct(s, [(K(i), K('n%d' % i)) for i in range(2)])),
                            (K('usecols'), Tup([K(0), K(1)]))]))]
    return preparse


def text_cases():
    for binary in (False, True):
        for kw in ({}, {'names': 1}, {'usecols': 1}, {'hasnames': 1, 'skiprows': 1}, {'debug': 1}, {'stripstrings': 1},
                   {'converters': 1}, {'skiprows': 2}):
            yield binary, kw


def check(P, r):
    for q in (TP, LZ, DP, CO + '.__init__', CO + '.__exit__'):
        P.func(q)
    for byname in (True, False):
        for binary in (False, True):
            if byname and binary:
                continue
            name = 'contextopen of %s' % ('a file name' if byname else 'a %s stream' % ('bytes' if binary else 'text'))
            with r.obligation(name):
                context(P, r, name, byname, binary)
        for binary, kw in text_cases():
            if byname and binary:
                continue
            name = 'textpack(%s%s)' % ('name' if byname else 'bytes stream' if binary else 'text stream',
                                       ''.join(', %s' % k for k in sorted(kw)))
            with r.obligation(name):
                text(P, r, name, TP, byname, binary, kw)
        for binary, kw in ((False, {}), (True, {'encoding': 1}), (False, {'usecols': 1}), (False, {'debug': 1})):
            if byname and binary:
                continue
            for empty in (False, True) if not kw else (False,):
                name = 'lazy_textpack(%s%s)%s' % ('name' if byname else 'bytes stream' if binary else 'text stream',
                                                  ''.join(', %s' % k for k in sorted(kw)),
                                                  ' with a failed preparse' if empty else '')
                with r.obligation(name):
                    text(P, r, name, LZ, byname, binary, kw, empty)
        for sel in (None, ['BB'], ['AA', 'BB'], ['ZZ']):
            name = 'dbfpack(%s, names=%s)' % ('name' if byname else 'stream', sel)
            with r.obligation(name):
                dbf(P, r, name, byname, sel)
    positions(P, r)


def judge(P, r, name, sc, w, outs, byname, where, fails=False):
    r.engine(sc.E)
    rets = 0
    for kind, s, v in outs:
        r.count('exits')
        rets += kind == 'return'
        for k, o in s.heap.items():
            if getattr(o, 'kind', None) != 'inst' or o.cls != 'file' or '$closed' not in o.attrs:
                continue
            mine = o.label == 'opened'
            closed = o.attrs['$closed'] == TRUE
            if mine and not closed:
                how = 'returns' if kind == 'return' else 'raises (%s at %s)' % (v.name, v.site)
                if s.taint:
                    r.undecided(name, 'open file on a path that depends on unknown: %s' % (s.taint[:1],))
                else:
                    r.viol('leak', '%s: the file opened is still open when the reader %s' % (name, how), where)
            if not mine and closed:
                if s.taint:
                    r.undecided(name, 'closed stream on a path that depends on unknown')
                else:
                    r.viol('close', "%s: the caller's stream is closed" % name, where)
    for taint, at in w.closed:
        if not taint:
            r.viol('close', "%s: the caller's stream is closed at %s" % (name, at), at)
        else:
            r.undecided(name, 'close on a path that depends on unknown')
    for taint, at in w.late:
        if not taint:
            r.viol('late', '%s: a closed file is read at %s' % (name, at), at)
        else:
            r.undecided(name, 'read of a closed file on a path that depends on unknown')
    if not rets and not fails:
        r.undecided(name, 'no normal outcome')
    if byname and not w.opens:
        r.undecided(name, 'no file seen to be opened')


def context(P, r, name, byname, binary):
    w = Watch()
    spec(P, '''
from channelpack.readtext import contextopen


def use(f, func):
    with contextopen(f) as context:
        func(context)
    return context


def only(f):
    return contextopen(f)
''', 'verif_c14')
    sc = TextScene(P, [1, 1, 1], 1, binary, may_raise=True, observers=[w])
    w.fo = sc.fo
    arg = K('x.txt') if byname else sc.fo
    outs = sc.run('verif_c14.use', [arg, Sym('func', 'function')])
    judge(P, r, name, sc, w, outs, byname, P.func(CO + '.__init__').where)
    # the position
    for nm in (K(3), None):     # a stream from a descriptor, a stream without a name
        w = Watch()
        sc = TextScene(P, [1, 1, 1], 1, binary, may_raise=True, observers=[w])
        w.fo = sc.fo
        o = sc.st.mut(sc.fo)
        if nm is None:
            del o.attrs['name']
            o.attrs['$noname'] = TRUE
        else:
            o.attrs['name'] = nm
        outs = sc.run('verif_c14.use', [K('x.txt') if byname else sc.fo, Sym('func', 'function')])
        judge(P, r, name, sc, w, outs, byname, P.func(CO + '.__init__').where)
    for start in (0, 2):
        sc = TextScene(P, [1, 1, 1], 1, binary, start=start)
        outs = sc.run('verif_c14.only', [K('x.txt') if byname else sc.fo])
        r.engine(sc.E)
        for kind, s, v in outs:
            if kind != 'return':
                continue
            for k, o in s.heap.items():
                if getattr(o, 'kind', None) == 'inst' and o.cls == 'file' and '$pos' in o.attrs:
                    if (o.label == 'opened') != byname:
                        continue
                    want = K(0) if byname else K(start)
                    if o.attrs['$pos'] == want:
                        r.count('positions')
                    elif s.taint or has_unk(o.attrs['$pos']):
                        r.undecided(name, 'position %s' % show(o.attrs['$pos']))
                    else:
                        r.viol('position', '%s: the position is %s afterwards, it was %s' % (
                            name, show(o.attrs['$pos']), want.v), P.func(CO + '.__init__').where)


def text(P, r, name, q, byname, binary, kw, empty=False):
    w = Watch()
    d = K(b';') if binary else K(';')
    sc = TextScene(P, [2, 2, 2, 2], 2, binary, d, may_raise=True, observers=[w],
                   opaque={PP: preparse_model(empty)} if q == LZ else {})
    sc.numeric()
    for L in sc.lines[-1:]:
        for f in sc.fields[L]:
            sc.st.facts.pop(T('raises', T('float', f)), None)
    w.fo = sc.fo
    st = sc.st
    args = {}
    if q == TP:
        args['delimiter'] = d
    for k in kw:
        args[k] = {'names': lambda: dct(st, [(K(0), K('a'))]), 'usecols': lambda: lst(st, [K(1)]),
                   'hasnames': lambda: TRUE, 'skiprows': lambda: K(kw[k]), 'debug': lambda: TRUE,
                   'stripstrings': lambda: TRUE, 'converters': lambda: dct(st, [(K(0), Sym('conv', 'function'))]),
                   'encoding': lambda: K('ascii')}[k]()
    if q == LZ:
        args['parselines'] = K(2)
    outs = sc.run(q, [K('x.txt') if byname else sc.fo], args)
    judge(P, r, name, sc, w, outs, byname, P.func(q).where, empty)


def dbf(P, r, name, byname, sel):
    w = Watch()
    sc = DbfScene(P, FIELDS, 1, may_raise=True, observers=[w])
    w.fo = sc.fo
    sc.E.max_states = 2000
    sc.set(0, -1, b' ')
    kw = {} if sel is None else {'names': lst(sc.st, [K(n) for n in sel])}
    outs = sc.run(DP, [K('x.dbf') if byname else sc.fo], kw)
    judge(P, r, name, sc, w, outs, byname, P.func(DP).where)


def positions(P, r):
    """lazy and name-selecting readers start where the stream was"""
    for binary in (False, True):
        for start in (0, 2):
            name = 'lazy_textpack of a %s stream at line %d' % ('bytes' if binary else 'text', start)
            with r.obligation(name):
                sc = TextScene(P, [2] * 6, 2, binary, K(b';') if binary else K(';'), start=start,
                               opaque={PP: preparse_model(False)}).numeric()
                outs = sc.run(LZ, [sc.fo], dict({'parselines': K(2)}, **({'encoding': K('ascii')} if binary else {})))
                first(P, r, name, sc, outs, 0, sc.row(start + 1)[0], LZ)
    for start in (0, 'second'):
        name = 'dbfpack by name of a stream at %s' % ('its start' if not start else 'a second dbf in it')
        with r.obligation(name):
            sc = DbfScene(P, FIELDS, 2, start=start)
            sc.set(0, -1, b' ')
            sc.set(1, -1, b' ')
            outs = sc.run(DP, [sc.fo], {'names': lst(sc.st, [K('AA')])})
            first(P, r, name, sc, outs, 0, sc.value(0, 0), DP)


def first(P, r, name, sc, outs, key, src, q):
    r.engine(sc.E)
    n = 0
    for kind, s, v in outs:
        if s.taint:
            r.undecided(name, 'path depends on unknown: %s' % (s.taint[:1],))
            continue
        if kind == 'raise':
            if not v.implicit:
                r.viol('start', '%s: raises %s' % (name, v.name), v.site)
            continue
        n += 1
        c = columns(sc.E, s, v)
        got = c[0].get(key) if c else None
        if not got or has_unk(got[0]):
            if c and not got:
                r.viol('start', '%s: no data is read' % name, P.func(q).where)
            else:
                r.undecided(name, 'pack of unknown content')
            continue
        if src not in set(walk(got[0])):
            r.viol('start', '%s: the first value is %s, expected %s' % (name, show(got[0]), show(src)), P.func(q).where)
    if not n:
        r.undecided(name, 'no normal outcome')
