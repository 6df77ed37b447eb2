RULE = """textpack, lazy_textpack, dbfpack (all fields and by name) and sheetpack are interpreted for a file given by name, a stream
with a name, without one, or named by a descriptor number or bytes, under several options.  In every pack returned, fn must
be the name given or the name of the stream ('' where it has none that is text) and filenames the list of just that name."""
TECHNIQUE = 'abstract interpretation of every reader with the resulting pack attributes compared with the source given'
from .common import *       # noqa
from .readscene import *    # noqa
from .c15 import TP, LZ, PP
from .c18 import DP
from .c19 import SP


SOURCES = GIVEN, NAMED, BARE, NUMBER_, BYTES_ = (
    'a file given by name', 'a stream with a name', 'a stream without a name', 'a stream named by a number',
    'a stream named by bytes')


def text(P, binary):
    def preparse(E, st, b):
        return [(st, dct(st, [(K('skiprows'), K(0)), (K('delimiter'), K(';')), (K('converters'), NONE),
                              (K('names'), dct(st, [])), (K('usecols'), Tup([K(0), K(1)]))]))]
    return TextScene(P, [2] * 3, 2, binary, K(b';') if binary else K(';'), 0, {PP: preparse}).numeric()


def dbf(P):
    sc = DbfScene(P, [('AA', b'C', 4, 0), ('BB', b'N', 3, 0)], 2)
    for i in range(2):
        sc.set(i, -1, b' ')
    return sc


def sheet(P):
    return SheetScene(P, [('S', [[(NUMBER, Sym('v%d%d' % (i, j), 'float')) for j in range(2)] for i in range(3)])])


def check(P, r):
    for fn, binary in ((TP, False), (TP, True), (LZ, False), (LZ, True)):
        for src in SOURCES:
            for opt in ('', 'names', 'usecols', 'hasnames', 'debug'):
                sc = text(P, binary)
                kw = {'delimiter': sc.delim, 'encoding': K('ascii')} if binary else {'delimiter': sc.delim}
                if opt == 'names':
                    kw['names'] = dct(sc.st, [(K(0), K('a'))])
                elif opt == 'usecols':
                    kw['usecols'] = K(1)
                elif opt == 'hasnames':
                    kw.update(hasnames=TRUE, skiprows=K(1))
                elif opt == 'debug':
                    kw['debug'] = TRUE
                name = '%s, %s, %s%s' % (fn.split('.')[-1], 'bytes' if binary else 'text', src, opt and ', with ' + opt)
                with r.obligation(name):
                    one(P, r, name, fn, sc, src, kw)
    for src in SOURCES:
        for sel in (None, ['BB'], ['AA', 'BB']):
            sc = dbf(P)
            kw = {} if sel is None else {'names': lst(sc.st, [K(x) for x in sel])}
            name = 'dbfpack, %s, names %s' % (src, sel)
            with r.obligation(name):
                one(P, r, name, DP, sc, src, kw)
    for kw in ({}, {'header': FALSE}, {'usecols': K('B')}, {'sheet': K('S'), 'startcell': K('A1')}, {'header': K('A1'), 'stopcell': K('B3')}):
        sc = sheet(P)
        name = 'sheetpack, %s, %s' % (GIVEN, ', '.join(sorted(kw)) or 'no options')
        with r.obligation(name):
            one(P, r, name, SP, sc, GIVEN, kw)


def one(P, r, name, fn, sc, src, kw):
    E, where = sc.E, P.func(fn).where
    if src == GIVEN:
        arg = want = K('dir/file name.dat')
    else:
        arg, want = sc.fo, Sym('stream.name', 'str')
        if src == BARE:
            want = K('')
            o = sc.st.mut(sc.fo)
            del o.attrs['name']
            o.attrs.update({'$noname': TRUE, '$name': K('')})
        elif src == NUMBER_:
            want = K('')
            sc.st.mut(sc.fo).attrs['name'] = K(7)
        elif src == BYTES_:
            want = K('')
            sc.st.mut(sc.fo).attrs['name'] = K(b'file.dat')
    outs = sc.run(fn, [arg], kw)
    r.engine(E)
    rets = 0
    for kind, s, v in outs:
        r.count('paths')
        if s.taint:
            r.undecided(name, 'path depends on unknown: %s' % (s.taint[:1],))
            continue
        if kind == 'raise':
            if not v.implicit:
                r.viol('raise', '%s: raises %s' % (name, v.name), v.site)
            continue
        rets += 1
        if not isinstance(v, Ref) or s.get(v).kind != 'inst':
            r.undecided(name, 'pack unknown')
            continue
        at = s.get(v).attrs
        got, files = at.get('fn'), at.get('filenames')
        fl = E.fixed_items(files, s) if files is not None else None
        if got is None or fl is None or has_unk(got) or any(has_unk(x) for x in fl):
            r.undecided(name, 'fn %s' % show(got))
            continue
        r.count('packs')
        ok = lambda x: isinstance(x, (K, Sym)) or within(x)
        if got != want:
            if ok(got):
                r.viol('fn', '%s: fn of the pack is %s, not %s' % (name, show(got), show(want)), where)
            else:
                r.undecided(name, 'fn %s' % show(got))
        elif fl != [want]:
            if all(ok(x) for x in fl):
                r.viol('filenames', '%s: filenames of the pack is %s, not [%s]' % (name, [show(x) for x in fl], show(want)), where)
            else:
                r.undecided(name, 'filenames %s' % show(fl))
    if not rets and not any(k == 'raise' and not v.implicit for k, s, v in outs):
        r.undecided(name, 'no outcome')
