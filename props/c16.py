RULE = """textpack is interpreted on streams with symbolic fields for every kind of stream (text, bytes with and without
encoding), stripstrings setting and set of converters.  Every path splits on whether the first line's fields are numbers
with a dot or with a comma and on later fields being empty; on each, every value in the pack must be the term that the
specification (a reference function for one field, interpreted by the same engine) gives: the caller's converter of that
column, the number conversion decided by the first line (comma for all numeric columns if any needs it, empty as nan), or
the text as it is, stripped and decoded as set.  Blank lines give no row, converters get the raw field.  A later field that is no number must end the reading with the
error, and the open of a file given by name must get the given encoding."""
TECHNIQUE = 'abstract interpretation with symbolic fields; term equality with an interpreted reference conversion'
import itertools
from .common import *       # noqa
from .readscene import *    # noqa
from .c15 import TP, run as _run

SPEC = '''
import numpy as np


def kind(val, comma, dot):
    try:
        float(val)
        return 'num'
    except ValueError:
        pass
    try:
        float(val.replace(comma, dot))
        return 'comma'
    except ValueError:
        return 'text'


def one(k, conv, val, comma, dot, strip, enc):
    if conv is not None:
        return conv(val)
    if k == 'num':
        if not val:
            return np.nan
        return float(val)
    if k == 'comma':
        if not val:
            return np.nan
        return float(val.replace(comma, dot))
    if strip:
        val = val.strip()
    if enc is not None:
        val = val.decode(enc)
    return val


def table(rows, convs, comma, dot, strip, enc):
    kinds = []
    for v in rows[0]:
        kinds.append(kind(v, comma, dot))
    if 'comma' in kinds:
        kinds = ['comma' if k == 'num' else k for k in kinds]
    out = []
    for row in rows:
        line = []
        for j, v in enumerate(row):
            line.append(one(kinds[j], convs[j], v, comma, dot, strip, enc))
        out.append(tuple(line))
    return tuple(out)
'''


def check(P, r):
    where = P.func(TP).where
    thorough = getattr(r, 'tier', 'quick') == 'thorough'
    streams = [('text', NONE), ('text', K('utf-8')), ('bytes', NONE), ('bytes', K('latin-1'))]
    for kindof, enc in streams:
        for strip in (False, True):
            for convs in ((), (1,), (0, 1)):
                for ncols, nrows in (((2, 2), (1, 3)) if not thorough else ((2, 2), (1, 3), (3, 2), (2, 3))):
                    if convs and max(convs) >= ncols:
                        continue
                    for debug in (False, True) if (ncols, nrows) == (2, 2) or thorough else (False,):
                        name = '%s stream, encoding %s, stripstrings %s, converters for %s, %d columns, %d lines%s' % (
                            kindof, enc, strip, list(convs), ncols, nrows, ', debug' if debug else '')
                        with r.obligation(name):
                            for kinds in itertools.product(('num', 'comma', 'text', 'empty'), repeat=ncols):
                                one(P, r, name, kinds, kindof == 'bytes', enc, strip, convs, ncols, nrows, debug, where)
    for kinds in itertools.product(('num', 'comma', 'text'), repeat=3):
        with r.obligation('columns 2 and 0 of three, first line %s' % (kinds,)):
            one(P, r, 'columns 2 and 0 of three', kinds, False, NONE, False, (2,), 3, 2, False, where, (2, 0))
    for binary, comma, debug in itertools.product((False, True), repeat=3):
        name = '%s stream, a later field is no number in a column of numbers%s%s' % (
            'bytes' if binary else 'text', ' with comma' if comma else '', ', debug' if debug else '')
        with r.obligation(name):
            bad_field(P, r, name, binary, comma, debug, where)
    from .c15 import LZ
    for fn in (TP, LZ):
        for enc in (None, 'utf-8', 'latin-1', 'utf-16'):
            name = '%s of a file opened by name, encoding %s' % (fn.split('.')[-1], enc or 'not given')
            with r.obligation(name):
                opened(P, r, name, fn, enc)
    with r.obligation('lazy bytes comma'):
        lazy_comma(P, r)


def normal(v):
    """strip and decode commute; strip twice is strip"""
    if isinstance(v, T):
        a = [normal(x) if isinstance(x, V) else x for x in v.args]
        v = T(v.op, *a)
        if v.op == 'decode' and isinstance(a[0], T) and a[0].op == 'mcall' and a[0].args[1] == 'strip' and not a[0].args[2]:
            return T('mcall', T('decode', a[0].args[0], *a[1:]), *a[0].args[1:])
        if v.op == 'mcall' and v.args[1] == 'strip' and isinstance(v.args[0], T) and v.args[0] == T('mcall', v.args[0].args[0],
                                                                                               'strip', (), ()):
            return v.args[0]
    return v


OPS_KNOWN = {'callres', 'apply', 'float', 'mcall', 'decode', 'nan', 'call', 'dyncall', 'wrongfield', 'item'}


def one(P, r, name, kinds, binary, enc, strip, convs, ncols, nrows, debug, where, usecols=None):
    spec(P, SPEC, 'verif_c16')
    blank = 2
    rows = [ncols] * (nrows + 2)
    rows[blank] = None
    delim = K(b';') if binary else K(';')
    sc = TextScene(P, rows, ncols, binary, delim, 0)
    st = sc.st
    E = sc.E
    cv = [Sym('conv%d' % j, 'function') if j in convs else NONE for j in range(ncols)]
    kw = {'delimiter': delim, 'skiprows': K(1), 'encoding': enc, 'stripstrings': K(strip)}
    if convs:
        kw['converters'] = dct(st, [(K(j), cv[j]) for j in convs])
    if usecols:
        kw['usecols'] = lst(st, [K(x) for x in usecols])
    if debug:
        kw['debug'] = TRUE
    datarows = [i for i in range(1, len(rows)) if i != blank]
    comma, dot = (K(b','), K(b'.')) if binary else (K(','), K('.'))
    for f, k in zip(sc.row(1), kinds):
        st.facts[T('truthy', f)] = k != 'empty'
        st.facts[T('raises', T('float', f))] = k != 'num'
        st.facts[T('raises', T('float', T('mcall', f, 'replace', (comma, dot), ())))] = k in ('text', 'empty')
    last = sc.row(len(rows) - 1)[-1]     # this one may be no number
    for x in (last, T('mcall', last, 'replace', (comma, dot), ())):
        st.facts.pop(T('raises', T('float', x)), None)
    outs = sc.run(TP, [sc.fo], kw)
    r.engine(E)
    rets = 0
    keys = sorted(usecols) if usecols else list(range(ncols))
    for kind, s, v in outs:
        r.count('paths')
        if s.taint:
            r.undecided(name, 'path depends on unknown: %s' % (s.taint[:1],))
            continue
        if kind == 'raise':
            if not v.implicit:
                r.viol('raise', '%s: raises %s (%s)' % (name, v.name, facts_text(s)), v.site)
            continue
        rets += 1
        c = columns(E, s, v)
        if c is None:
            r.undecided(name, 'pack of unknown content')
            continue
        data = c[0]
        table = Tup([Tup(sc.row(i)) for i in datarows])
        want = E.run(P.func('verif_c16.table'), [table, Tup(cv), comma, dot, K(strip),
                                                 enc if binary else NONE], {}, st=s.copy())
        for k2, s2, w in want:
            if k2 != 'return':
                if any(a.op == 'raises' and v2 and s.facts.get(a) for a, v2 in s2.facts.items()) and not s2.taint and not any(
                        a.op == 'raises' and v2 and not s.facts.get(a) for a, v2 in s2.facts.items()):
                    r.viol('no number', '%s: a field that is no number is accepted in a column of numbers when %s' % (
                        name, first_facts(s2, sc, datarows)), where)
                    break
                continue
            r.count('cases')
            if set(data) != set(keys):
                r.viol('keys', '%s: data keys %s' % (name, sorted(data)), where)
                break
            w = [E.fixed_items(x, s2) for x in E.fixed_items(w, s2)]
            for k in keys:
                if len(data[k]) != len(datarows):
                    r.viol('rows', '%s: %d rows from %d lines with data' % (name, len(data[k]), len(datarows)), where)
                    break
                for i, got in enumerate(data[k]):
                    exp = w[i][k]
                    if normal(got) == normal(exp):
                        continue
                    if has_unk(got) or has_unk(exp) or not within(got, OPS_KNOWN) or not within(exp, OPS_KNOWN):
                        r.undecided(name, 'value %s' % show(got))
                        continue
                    r.viol('conversion', '%s: row %d, column %d is %s, expected %s when %s' % (
                        name, i, k, show(got), show(exp), first_facts(s2, sc, datarows)), where)
                    break
    if not rets and not any(k == 'raise' and not v.implicit for k, s, v in outs):
        r.undecided(name, 'no outcome')


def opened(P, r, name, fn, enc):
    """a file opened by name is decoded with the given encoding"""
    from .c15 import PP
    seen = []

    def watch(kind, st, info):
        if kind == 'open' and not st.taint:
            seen.append((info['mode'], info['kw'], st, E.site(info['node'])))

    def preparse(E, st, b):
        return [(st, dct(st, [(K('skiprows'), K(0)), (K('delimiter'), K(';')), (K('converters'), NONE),
                              (K('names'), dct(st, [])), (K('usecols'), Tup([K(0), K(1)]))]))]
    sc = TextScene(P, [2] * 3, 2, False, K(';'), 0, {PP: preparse}, observers=(watch,)).numeric()
    E = sc.E
    kw = {'delimiter': K(';')}
    if enc:
        kw['encoding'] = K(enc)
    outs = sc.run(fn, [K('file.txt')], kw)
    r.engine(E)
    if not seen:
        return r.undecided(name, 'no file is opened')
    r.count('opens', len(seen))
    for mode, kw, st, site in seen:
        if not isinstance(mode, K) or not isinstance(mode.v, str) or 'b' in mode.v:
            r.undecided(name, 'file opened in mode %s' % show(mode))
            continue
        got = kw.get('encoding', NONE)
        if has_unk(got) or '**' in kw:
            r.undecided(name, 'opened with encoding %s' % show(got))
        elif enc and got != K(enc):
            r.viol('encoding', '%s: the file is opened with encoding %s' % (name, show(got)), site)
        elif not enc and isinstance(got, K) and got.v is not None:
            r.viol('encoding', '%s: the file is opened with encoding %s' % (name, show(got)), site)
    if not any(k == 'return' for k, s, v in outs):
        r.undecided(name, 'no outcome')


def bad_field(P, r, name, binary, comma, debug, where):
    """the error of the number conversion reaches the caller"""
    delim = K(b';') if binary else K(';')
    cm, dot = (K(b','), K(b'.')) if binary else (K(','), K('.'))
    for nrow in (2, 3):
        sc = TextScene(P, [2] * 4, 2, binary, delim, 0)
        st = sc.st
        for i in (1, 2, 3):
            for f in sc.row(i):
                bad = i == nrow and f is sc.row(i)[1]
                st.facts[T('truthy', f)] = True
                st.facts[T('raises', T('float', f))] = bad or comma
                st.facts[T('raises', T('float', T('mcall', f, 'replace', (cm, dot), ())))] = bad
        kw = {'delimiter': delim, 'skiprows': K(1)}
        if debug:
            kw['debug'] = TRUE
        outs = sc.run(TP, [sc.fo], kw)
        r.engine(sc.E)
        raised = 0
        for kind, s, v in outs:
            r.count('paths')
            if s.taint:
                r.undecided(name, 'path depends on unknown: %s' % (s.taint[:1],))
            elif kind == 'return':
                c = columns(sc.E, s, v)
                if c is None or any(has_unk(x) for vs in c[0].values() for x in vs):
                    r.undecided(name, 'pack of unknown content')
                else:
                    r.viol('no number', '%s: a pack of %s rows is returned although a field of data line %d is no number' % (
                        name, sorted({len(x) for x in c[0].values()}), nrow), where)
            elif not v.implicit:
                raised += 1
        if not raised and not any(k == 'return' for k, s, v in outs):
            r.undecided(name, 'no outcome')


def first_facts(s, sc, datarows):
    out = []
    for a, w in s.facts.items():
        if any(x in sc.row(i) for i in datarows for x in walk(a)):
            out.append(('' if w else 'not ') + show(a, 60))
    return '; '.join(out[:6])


def lazy_comma(P, r):
    """a derived decimal comma converter works on the kind of stream it is used on"""
    from .c15 import LZ, PP
    where = P.func(LZ).where
    for binary in (False, True):
        name = 'lazy_textpack with derived comma converters, %s stream' % ('bytes' if binary else 'text')

        def preparse(E, st, b):
            f = E.global_value('channelpack.readtext', '_floatit', st)
            d = dct(st, [(K('skiprows'), K(0)), (K('delimiter'), K(';')), (K('converters'), dct(st, [(K(0), f), (K(1), f)])),
                         (K('names'), dct(st, [])), (K('usecols'), Tup([K(0), K(1)]))])
            return [(st, d)]
        P.func('channelpack.readtext._floatit')
        sc = TextScene(P, [2, 2], 2, binary, K(b';') if binary else K(';'), 0, {PP: preparse})
        outs = sc.run(LZ, [sc.fo], {'encoding': K('ascii'), 'parselines': K(3)})
        r.engine(sc.E)
        typ = bytes if binary else str
        for kind, s, v in outs:
            r.count('paths')
            if kind != 'return' or s.taint:
                continue
            c = columns(sc.E, s, v)
            if c is None:
                r.undecided(name, 'pack of unknown content')
                continue
            for k, vals in c[0].items():
                for x in vals:
                    for y in walk(x):
                        if isinstance(y, T) and y.op == 'mcall' and isinstance(y.args[0], Sym) and y.args[1] == 'replace' and \
                                any(isinstance(a, K) and not isinstance(a.v, typ) for a in y.args[2]):
                            r.viol('lazy', '%s: fields are converted by %s' % (name, show(x)), where)
                            return
