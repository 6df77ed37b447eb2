RULE = """textpack and lazy_textpack are interpreted on streams of a fixed shape (lines of three symbolic fields, a blank line,
a start position) for every kind of stream, delimiter and setting of usecols (absent, one integer, unsorted, repeated),
names, hasnames, skiprows and debug.  In the resulting pack the value at row i of key k must be built from field k of the
i-th data line alone, the name under k from field k of the names line or be the given one, and the keys be the selected
columns.  The lazy reader must give what textpack gives with the derived arguments overridden by the caller's."""
TECHNIQUE = 'abstract interpretation with symbolic fields (provenance of every value in the pack), generators included'
from .common import *       # noqa
from .readscene import *    # noqa

TP = 'channelpack.readtext.textpack'
LZ = 'channelpack.readtext.lazy_textpack'
PP = 'channelpack.readtext.preparse'


def prov(v, allf):
    return {x for x in walk(v) if x in allf}


def foreign(v):
    return any(isinstance(x, T) and x.op == 'wrongfield' for x in walk(v))


def compare(r, sc, name, s, pack, keys, names, datarows, namesrow, where):
    """pack holds exactly the columns keys of datarows"""
    E = sc.E
    c = columns(E, s, pack)
    if c is None:
        return r.undecided(name, 'pack of unknown content')
    data, nms = c
    allf = {f: (L, j) for L, fs in sc.fields.items() for j, f in enumerate(fs)}
    if set(data) != set(keys):
        return r.viol('keys', '%s: data keys %s, expected %s' % (name, sorted(data), sorted(keys)), where)
    for k in keys:
        if len(data[k]) != len(datarows):
            return r.viol('rows', '%s: %d rows in column %d, expected %d' % (name, len(data[k]), k, len(datarows)), where)
        for i, v in zip(datarows, data[k]):
            if has_unk(v):
                return r.undecided(name, 'value %s' % show(v))
            if foreign(v):
                return r.viol('field', '%s: the value of row %d, key %d comes from %s' % (
                    name, datarows.index(i), k, show(v)), where)
            got = prov(v, allf)
            want = {sc.row(i)[k]}
            if got != want:
                return r.viol('field', '%s: the value of row %d, key %d is %s, expected field %s' % (
                    name, datarows.index(i), k, show(v), show(want)), where)
    if names is None:
        want = {k: sc.row(namesrow)[k] for k in keys} if namesrow is not None else {}
    else:
        want = names
    if set(nms) != set(want):
        return r.viol('names', '%s: names keys %s, expected %s' % (name, sorted(nms), sorted(want)), where)
    for k, v in nms.items():
        if has_unk(v):
            return r.undecided(name, 'name %s' % show(v))
        if names is not None:
            if v != want[k]:
                return r.viol('names', '%s: name of key %d is %s, expected %s' % (name, k, show(v), show(want[k])), where)
        elif foreign(v) or prov(v, allf) != {want[k]}:
            return r.viol('names', '%s: name of key %d is %s, expected field %s' % (name, k, show(v), show(want[k])), where)


def settings():
    """(label, usecols, names, hasnames)"""
    out = []
    for u in (None, 1, 0, (0, 2), (2, 0), (2, 0, 2, 1), (1,)):
        for h in (False, True):
            out.append((u, None, h))
    for n in ({0: 'a', 1: 'b', 2: 'c'}, {2: 'c', 0: 'a'}, {1: 'b'}):
        for u, h in ((None, False), ((0, 2), True), ((1,), False), (None, True)):
            out.append((u, n, h))
    out.append((None, {}, False))
    out.append((None, {}, True))
    return out


def mkargs(sc, u, n, h, skip, debug):
    st = sc.st
    kw = {'delimiter': sc.delim, 'skiprows': K(skip)}
    if u is not None:
        kw['usecols'] = K(u) if isinstance(u, int) else lst(st, [K(x) for x in u])
    if n is not None:
        kw['names'] = dct(st, [(K(k), K(v)) for k, v in n.items()])
    if h:
        kw['hasnames'] = TRUE
    if debug:
        kw['debug'] = TRUE
    return kw


def expected(u, n, h, start, skip, nlines, blank, lazy=False):
    if n:
        keys = sorted(n)
    elif u is None:
        keys = [0, 1, 2]
    else:
        keys = sorted(set([u] if isinstance(u, int) else u))
    namesrow = None
    if n:
        names = {k: K(v) for k, v in n.items()}
    elif h:
        names, namesrow = None, start + skip - 1
    else:
        names = {}
    rows = [i for i in range(start + skip, nlines) if i != blank]
    return keys, names, namesrow, rows


def check(P, r):
    where = P.func(TP).where
    P.func(LZ), P.func(PP)
    thorough = getattr(r, 'tier', 'quick') == 'thorough'
    streams = [(False, K(';'), 0, False), (True, K(b'\t'), 1, False), (False, NONE, 0, True), (False, K('\t'), 2, False),
               (True, NONE, 0, False), (False, K(' '), 0, False), (True, K(b' '), 1, False)]
    if thorough:
        streams += [(True, K(b';'), 2, False), (True, NONE, 0, True), (False, K(','), 1, True), (False, K('abc'), 0, False)]
    for binary, delim, start, byname in streams:
        for skip in (2, 1) if not thorough else (3, 2, 1):
            for debug in (False, True):
                for u, n, h in settings():
                    name = 'textpack %s stream%s, delimiter %s, from line %d, skiprows %d, usecols %s, names %s, ' \
                        'hasnames %s%s' % ('bytes' if binary else 'text', ' opened by name' if byname else '', delim,
                                           start, skip, u, n, h, ', debug' if debug else '')
                    if len(r.violations) > 20:
                        return
                    with r.obligation(name):
                        one(P, r, name, binary, delim, start, byname, skip, debug, u, n, h, where)
    for debug in (False, True):
        with r.obligation('hasnames without skiprows'):
            nohead(P, r, debug, where)
    lazy_checks(P, r)


def nohead(P, r, debug, where):
    """with names but no header line given, nothing above the data is skipped"""
    sc = TextScene(P, [3] * 3, 3, False, K(';'), 0).numeric()
    kw = mkargs(sc, None, {0: 'a', 1: 'b', 2: 'c'}, True, 0, debug)
    run(P, r, sc, 'hasnames and names without skiprows', TP, sc.fo, kw,
        ([0, 1, 2], {0: K('a'), 1: K('b'), 2: K('c')}, None, [0, 1, 2]), where)


def one(P, r, name, binary, delim, start, byname, skip, debug, u, n, h, where):
    nlines = start + skip + 4
    blank = nlines - 2
    rows = [3] * nlines
    rows[blank] = None
    sc = TextScene(P, rows, 3, binary, delim, start if not byname else 0).numeric()
    kw = mkargs(sc, u, n, h, skip, debug)
    exp = expected(u, n, h, start if not byname else 0, skip, nlines, blank)
    run(P, r, sc, name, TP, K('file.txt') if byname else sc.fo, kw, exp, where)


def run(P, r, sc, name, fn, src, kw, exp, where):
    outs = sc.run(fn, [src], kw)
    r.engine(sc.E)
    rets = 0
    for kind, s, v in outs:
        r.count('paths')
        if s.taint:
            r.undecided(name, 'path depends on unknown: %s' % (s.taint[:1],))
            continue
        if kind == 'raise':
            if v.implicit:
                continue
            r.viol('raise', '%s: raises %s' % (name, v.name), v.site)
            continue
        rets += 1
        compare(r, sc, name, s, v, exp[0], exp[1], exp[3], exp[2], where)
    if not rets and not any(k == 'raise' and not v.implicit for k, s, v in outs):
        r.undecided(name, 'no outcome')


# ------------------------------------------------------------------ the lazy reader
def lazy_checks(P, r):
    where = P.func(LZ).where
    cases = []
    for derived_names in (False, True):
        for over in ('', 'usecols', 'usecols int', 'names', 'skiprows', 'delimiter', 'debug', 'names and usecols'):
            for binary in (False, True):
                cases.append((derived_names, over, binary))
    for dn, over, binary in cases:
        name = 'lazy_textpack %s stream, derived names %s, overriding %s' % ('bytes' if binary else 'text', dn, over or 'nothing')
        with r.obligation(name):
            lazy(P, r, name, dn, over, binary, where)


def lazy(P, r, name, dn, over, binary, where):
    start, skip = 1, 1
    nlines = 7
    blank = 5
    rows = [3] * nlines
    rows[blank] = None

    def preparse(E, st, b):
        d = dct(st, [(K('skiprows'), K(skip)), (K('delimiter'), K(';') if over != 'delimiter' else K('|')),
                     (K('converters'), NONE),
                     (K('names'), dct(st, [(K(i), K('n%d' % i)) for i in range(3)] if dn else [])),
                     (K('usecols'), Tup([K(0), K(1), K(2)]))])
        return [(st, d)]
    delim = K(b';') if binary else K(';')
    sc = TextScene(P, rows, 3, binary, delim, start, {PP: preparse}).numeric()
    st = sc.st
    kw = {'encoding': K('ascii')} if binary else {}
    keys, names, sk = [0, 1, 2], {i: K('n%d' % i) for i in range(3)} if dn else {}, skip
    if over == 'usecols':
        kw['usecols'] = lst(st, [K(2), K(0)])
        keys = [0, 2]
        names = {k: v for k, v in names.items() if k in keys}
    elif over == 'usecols int':
        kw['usecols'] = K(1)
        keys = [1]
        names = {k: v for k, v in names.items() if k in keys}
    elif over in ('names', 'names and usecols'):
        kw['names'] = dct(st, [(K(2), K('x')), (K(0), K('y'))])
        keys, names = [0, 2], {2: K('x'), 0: K('y')}
        if over == 'names and usecols':
            kw['usecols'] = lst(st, [K(1)])
    elif over == 'skiprows':
        kw['skiprows'] = K(2)
        sk = 2
    elif over == 'delimiter':
        kw['delimiter'] = delim
    elif over == 'debug':
        kw['debug'] = TRUE
    kw['parselines'] = K(3)
    datarows = [i for i in range(start + sk, nlines) if i != blank]
    run(P, r, sc, name, LZ, sc.fo, kw, (keys, names, None, datarows), where)
