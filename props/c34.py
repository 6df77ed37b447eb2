RULE = """open_workbook_xls, the record loop of the globals, the sheet loader and the accessors of Book are interpreted over
whole workbook streams made of records of known and symbolic bytes: BIFF versions 5, 7 and 8, one to three BOUNDSHEET records
of every sheet type, the sheet substreams laid out in another order than their records, with and without on_demand, and the
stream at an offset inside a container.  On every path the names, their order, the number of sheets, and each sheet's name,
number, visibility and first cell must be those of its own record and substream, whichever accessor is used and in whatever
order sheets are loaded, unloaded and loaded again; the date mode and encoding must be those of their records."""
TECHNIQUE = 'abstract interpretation of the workbook loader over symbolic record streams, against a table of stream layouts'
from .common import *       # noqa
from .biffscene import *    # noqa
from .c31 import same
from .scen import spec

BOOK = XL + '.book'

SRC34 = '''
import sys
from channelpack.xlrd.book import Book, open_workbook_xls
from channelpack.xlrd.biffh import XLRDError


def view(s):
    return (s.name, s.number, s.visibility, s.cell_value(0, 0), s.nrows)


def load(mem, demand, override):
    return open_workbook_xls(file_contents=mem, on_demand=demand, encoding_override=override)


def whole(mem, demand, override):
    bk = load(mem, demand, override)
    return (bk.sheet_names(), bk.nsheets, [view(s) for s in bk.sheets()])


def settings(mem, demand, override):
    bk = load(mem, demand, override)
    return (bk.datemode, bk.biff_version)


def encoding(mem, demand, override):
    bk = load(mem, demand, override)
    return (bk.encoding, bk.codepage)


def by_index(mem, demand, override):
    bk = load(mem, demand, override)
    n = bk.nsheets
    back = [view(bk.sheet_by_index(n - 1 - i)) for i in range(n)]
    return [back[n - 1 - i] for i in range(n)]


def by_iteration(mem, demand, override):
    return [view(s) for s in load(mem, demand, override)]


def by_item(mem, demand, override):
    bk = load(mem, demand, override)
    return [view(bk[i]) for i in range(bk.nsheets)]


def named(mem, demand, override, names):
    bk = load(mem, demand, override)
    return [view(bk.sheet_by_name(x)) for x in names]


def named_item(mem, demand, override, names):
    bk = load(mem, demand, override)
    return [view(bk[x]) for x in names]


def again(mem, demand, override, names):
    bk = load(mem, demand, override)
    first = view(bk.sheet_by_index(0))
    last = view(bk.sheet_by_index(len(names) - 1))
    bk.unload_sheet(0)
    state = [bk.sheet_loaded(i) for i in range(len(names))] + [bk.sheet_loaded(x) for x in names]
    repeat = view(bk.sheet_by_name(names[0]))
    state2 = [bk.sheet_loaded(i) for i in range(len(names))]
    bk.unload_sheet(names[len(names) - 1])
    state3 = [bk.sheet_loaded(x) for x in names]
    return (first, last, repeat, state, state2, state3)


def kept(mem, demand, override):
    bk = load(mem, demand, override)
    a = bk.sheet_by_index(1)
    before = view(a)
    bk.release_resources()
    b = bk.sheet_by_index(1)
    return (before, view(a), view(b), bk.sheet_names(), bk.nsheets, bk.sheet_loaded(0))


def late(mem, demand, override):
    bk = load(mem, demand, override)
    bk.sheet_by_index(1)
    bk.release_resources()
    return view(bk.sheet_by_index(0))
'''


def u32(n):
    return n.to_bytes(4, 'little', signed=True)


def bof(bv, kind):
    v2 = {80: 0x600, 70: 0x500, 50: 0x500}[bv]
    year = {80: 1997, 70: 1995, 50: 1993}[bv]
    return rec(0x809, K(u16(v2) + u16(kind) + u16(3515) + u16(year) + (b'\0' * 8 if bv == 80 else b'')))


def known(n):
    return [B.byte(x) for x in n]


class Sheet(object):
    """a BOUNDSHEET record and its substream"""

    def __init__(self, name, typ=0, vis=None, wide=False):
        self.name, self.typ, self.vis, self.wide = name, typ, vis, wide     # name: text, or number of symbolic characters


def build(bv, sheets, before=(), after=(), order=None, base=0, enc5='latin-1'):
    """-> (bytes, [(name, visibility, value)] of the worksheets)"""
    order = list(range(len(sheets))) if order is None else order
    bodies, names = {}, {}
    for i, s in enumerate(sheets):
        val = R('d%d' % i, 14, {0: u16(0) * 3})
        bodies[i] = stream([bof(bv, {0: 0x10, 1: 0x40, 2: 0x20, 6: 6}.get(s.typ, 0x10)), rec(0x203, val), EOF])
        w = 2 if s.wide else 1
        if isinstance(s.name, int):
            chars = [B.byte(('n%d' % i, j)) for j in range(s.name * w)]
            n = s.name
        else:
            chars = known(s.name.encode('utf-16-le' if s.wide else 'latin-1'))
            n = len(s.name)
        names[i] = chars
    def globs(offs):
        recs = [bof(bv, 5)] + list(before)
        for i, s in enumerate(sheets):
            vis = B.byte(s.vis) if isinstance(s.vis, int) else B.byte(('v%d' % i, 0))
            head = known(u32(offs.get(i, 0))) + [vis, B.byte(s.typ), B.byte(len(names[i]) // (2 if s.wide else 1))]
            if bv == 80:
                head.append(B.byte(1 if s.wide else 0))
            recs.append(rec(0x85, B.bstr(head + names[i])))
        return stream(recs + list(after) + [EOF])
    size = len(B.as_bytes(globs({})))
    offs, out = {}, []
    for i in order:
        offs[i] = size + len(out)
        out += B.as_bytes(bodies[i])
    mem = [B.byte(0x5a)] * base + B.as_bytes(globs(offs)) + out
    want = []
    for i, s in enumerate(sheets):
        if s.typ == 0:
            enc = 'utf-16-le' if s.wide else 'latin-1' if bv == 80 else enc5
            bs = names[i]
            name = B.mktext(tuple(bs), K(enc)) if isinstance(s.name, int) else K(s.name)
            vis = B.byte(s.vis) if isinstance(s.vis, int) else B.byte(('v%d' % i, 0))
            want.append((name, K(len(want)), B.bits(vis), B.f8('d%d' % i, 6), K(1)))
    return B.bstr(mem), want


def book3(bv, order=(0, 1, 2), **kw):
    return build(bv, [Sheet(3), Sheet('Aa', wide=bv == 80), Sheet(1, vis=2)], order=list(order), **kw)


CONST = [Sheet('b'), Sheet('B1'), Sheet('a b')]
DATEMODE, CODEPAGE = 0x22, 0x42
CODES = [(437, 'cp437'), (850, 'cp850'), (932, 'cp932'), (1250, 'cp1250'), (1252, 'cp1252'), (10000, 'mac_roman'),
         (10006, 'mac_greek'), (10007, 'mac_cyrillic'), (10029, 'mac_latin2'), (10079, 'mac_iceland'),
         (10081, 'mac_turkish'), (32768, 'mac_roman'), (32769, 'cp1252')]
MORE = [720, 737, 775, 852, 855, 857, 858, 860, 861, 862, 863, 864, 865, 866, 869, 874, 936, 949, 950, 1251, 1253, 1254, 1255,
        1256, 1257, 1258, 1361]


def w(want):
    return ([x[0] for x in want], K(len(want)), want)


def scenarios():
    """(group, function, arguments, expected value or exception name)"""
    for bv in (80, 70, 50):
        for d in (FALSE, TRUE):
            tag = 'BIFF%d%s' % (bv // 10, ', on demand' if d == TRUE else '')
            for order in ((0, 1, 2), (2, 0, 1), (2, 1, 0)):
                mem, want = book3(bv, order)
                for fn in ('by_index', 'by_iteration', 'by_item'):
                    yield 'order of sheets, ' + tag, fn, [mem, d, NONE], want
                yield 'order of sheets, ' + tag, 'whole', [mem, d, NONE], w(want)
            for n in (1, 2):
                mem, want = build(bv, [Sheet(2)] * n)
                yield 'order of sheets, ' + tag, 'whole', [mem, d, NONE], w(want)
            for typ in (1, 2, 6, 3):
                for at in (0, 1, 2):
                    sh = [Sheet(2), Sheet(1)]
                    sh.insert(at, Sheet('Zz', typ))
                    mem, want = build(bv, sh, order=[2, 0, 1])
                    yield 'sheets that are no worksheets, ' + tag, 'whole', [mem, d, NONE], w(want)
                    yield 'sheets that are no worksheets, ' + tag, 'by_index', [mem, d, NONE], want
            mem, want = build(bv, CONST, order=[1, 2, 0])
            nm = [K('a b'), K('b'), K('B1')]
            for fn in ('named', 'named_item'):
                yield 'sheets by name, ' + tag, fn, [mem, d, NONE, Tup(nm)], [want[2], want[0], want[1]]
                for x in ('A', 'B', ' b', 'B1 '):
                    yield 'names of no sheet, ' + tag, fn, [mem, d, NONE, Tup([K(x)])], 'XLRDError'
            for typ, at in ((2, 0), (6, 1), (1, 2)):
                sh = list(CONST)
                sh.insert(at, Sheet('Zz', typ))
                mem, want = build(bv, sh, order=[1, 3, 2, 0])
                for fn in ('named', 'named_item'):
                    yield 'sheets by name, ' + tag, fn, [mem, d, NONE, Tup(nm)], [want[2], want[0], want[1]]
                    yield 'names of no sheet, ' + tag, fn, [mem, d, NONE, Tup([K('Zz')])], 'XLRDError'
            for dm in (0, 1):
                mem, want = build(bv, [Sheet('x')], before=[rec(DATEMODE, K(u16(dm)))])
                yield 'date mode, ' + tag, 'settings', [mem, d, NONE], (K(dm), K(bv))
                mem, want = build(bv, [Sheet('x')], after=[rec(DATEMODE, K(u16(dm)))])
                yield 'date mode, ' + tag, 'settings', [mem, d, NONE], (K(dm), K(bv))
            mem, want = build(bv, [Sheet('x')])
            yield 'date mode, ' + tag, 'settings', [mem, d, NONE], (K(0), K(bv))
            if d == TRUE:
                mem, want = build(bv, CONST, order=[1, 2, 0])
                T_, F_ = TRUE, FALSE
                yield 'sheets unloaded and loaded again, ' + tag, 'again', [mem, d, NONE, Tup([K(x.name) for x in CONST])], (
                    want[0], want[2], want[0], [F_, F_, T_] * 2, [T_, F_, T_], [T_, F_, F_])
                yield 'after the resources are released, ' + tag, 'kept', [mem, d, NONE], (
                    want[1], want[1], want[1], [x[0] for x in want], K(3), FALSE)
                yield 'after the resources are released, ' + tag, 'late', [mem, d, NONE], 'XLRDError'
    for bv in (70, 50):
        for cp, enc in CODES:
            g = 'code pages, BIFF%d' % (bv // 10)
            mem, want = build(bv, [Sheet(3), Sheet(1)], before=[rec(CODEPAGE, K(u16(cp)))], enc5=enc)
            yield g, 'whole', [mem, FALSE, NONE], w(want)
            yield g, 'encoding', [mem, FALSE, NONE], (('codec', enc), K(cp))
            mem, want = build(bv, [Sheet(3), Sheet(1)], before=[rec(CODEPAGE, K(u16(cp)))], enc5='koi8-r')
            yield g, 'whole', [mem, FALSE, K('koi8-r')], w(want)
        for cp in MORE if bv == 50 else MORE[::4] + [1361]:
            mem, want = build(bv, [Sheet(3)], before=[rec(CODEPAGE, K(u16(cp)))], enc5='cp%d' % cp)
            yield 'code pages, BIFF%d' % (bv // 10), 'encoding', [mem, FALSE, NONE], (('codec', 'cp%d' % cp), K(cp))
        mem, want = build(bv, [Sheet(3), Sheet(1)])
        yield 'code pages, BIFF%d' % (bv // 10), 'whole', [mem, FALSE, NONE], w(want)
    for cp in (1200, 1252, 10000):
        mem, want = build(80, [Sheet(3), Sheet(2, wide=True)], before=[rec(CODEPAGE, K(u16(cp)))])
        yield 'code pages, BIFF8', 'whole', [mem, FALSE, NONE], w(want)


def check(P, r):
    if 'verif_c34' not in P.modules:
        spec(P, SRC34, 'verif_c34')
    for q in ('open_workbook_xls', 'Book.sheets', 'Book.sheet_by_index', 'Book.sheet_by_name', 'Book.sheet_names'):
        P.func(BOOK + '.' + q)
    sc = BiffScene(P)
    groups = {}
    for g, fn, args, want in list(scenarios()) + list(versions()):
        groups.setdefault(g, []).append((fn, args, want))
    for g, todo in groups.items():
        with r.obligation(g):
            run(r, sc, g, todo)
    contained(P, r)
    r.engine(sc.E)


def run(r, sc, g, todo, mod='verif_c34.', where=BOOK):
    bad, unsure, ok = [], [], 0
    for fn, args, want in todo:
        sc.E.steps = 0
        n = 0
        for kind, s, v in sc.E.run(sc.P.func(mod + fn), args, {}, st=sc.st.copy()):
            r.count('paths')
            if kind == 'raise' and v.implicit:
                continue
            if s.taint:
                unsure.append('a path is not followed exactly: %s' % (sorted(s.taint)[0],))
                continue
            n += 1
            if kind == 'raise':
                if v.name == want:
                    ok += 1
                elif v.name in SKIP_EXC and not isinstance(want, str):
                    unsure.append('%s: raises %s at %s' % (fn, v.name, v.site))
                else:
                    bad.append('%s: raises %s at %s (%s)' % (fn, v.name, v.site, facts_text(s)))
                continue
            if isinstance(want, str):
                bad.append('%s: gives %s instead of %s' % (fn, shown(sc.E, s, v), want))
                continue
            x = compare(sc.E, s, v, want)
            if x is True:
                ok += 1
            elif x is None:
                unsure.append('%s: %s not decided against %s' % (fn, shown(sc.E, s, v), shown(sc.E, s, want)))
            else:
                bad.append('%s: %s is %s instead of %s' % ((fn,) + x))
        if not n:
            unsure.append('%s: no path' % fn)
    if bad:
        r.viol(g, '%s; %s' % (g, bad[0]), where=where)
    elif unsure:
        r.undecided(g, unsure[0])
    else:
        r.ok(g)
        r.count('workbooks', ok)


def shown(E, s, v):
    if isinstance(v, (list, tuple)):
        return '[%s]' % ', '.join(shown(E, s, x) for x in v)
    it = E.fixed_items(v, s) if isinstance(v, (Tup, Ref)) else None
    return shown(E, s, it) if it is not None else B.show(v)


def compare(E, s, v, want, at='result'):
    """True, None (not decided) or (place, got, wanted)"""
    if isinstance(want, tuple) and len(want) == 2 and want[0] == 'codec':
        import codecs
        if not isinstance(v, K):
            return None
        try:
            return True if codecs.lookup(v.v) == codecs.lookup(want[1]) or \
                codecs.lookup(v.v).name == codecs.lookup(want[1]).name else (at, v.v, want[1])
        except (LookupError, TypeError):
            return at, show(v), want[1]
    if isinstance(want, (list, tuple)):
        it = E.fixed_items(v, s) if isinstance(v, (Tup, Ref)) else None
        if it is None:
            return None
        if len(it) != len(want):
            return at, shown(E, s, v), shown(E, s, want)
        res = [compare(E, s, a, b, '%s[%d]' % (at, i)) for i, (a, b) in enumerate(zip(it, want))]
        bad = [x for x in res if isinstance(x, tuple)]
        return bad[0] if bad else None if None in res else True
    x = same(v, want, s.facts)
    return (at, B.show(v), B.show(want)) if x is False else x


SIGNATURE = b'\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1'


def contained(P, r):
    """the workbook stream inside a compound document"""
    COMP = XL + '.compdoc.CompDoc'
    for q in ('__init__', 'locate_named_stream'):
        P.func(COMP + '.' + q)
    for stream_name in ('Workbook', 'Book'):
        for base in (8, 523):
            g = 'stream %s at offset %d of its container' % (stream_name, base)
            with r.obligation(g):
                todo = []
                for bv in (80, 50):
                    mem, want = book3(bv, (2, 0, 1), base=base)
                    bs = B.as_bytes(mem)
                    mem = B.bstr(known(SIGNATURE) + bs[8:])
                    for d in (FALSE, TRUE):
                        todo.append(('by_index', [mem, d, NONE], want))
                        todo.append(('whole', [mem, d, NONE], w(want)))
                for fn, args, want in todo:
                    n = len(B.as_bytes(args[0]))

                    def locate(E, st, b, mem=args[0], n=n):
                        q = b.get('qname')
                        if q is None:
                            q = list(b.values())[-1]
                        if not isinstance(q, K):
                            return [(st, Unk('stream'))]
                        if q.v != stream_name:
                            return [(st, Tup([NONE, K(0), K(0)]))]
                        return [(st, Tup([mem, K(base), K(n - base)]))]
                    sc = BiffScene(P, opaque={COMP + '.__init__': lambda E, st, b: [(st, NONE)],
                                              COMP + '.locate_named_stream': locate})
                    run(r, sc, g + ', ' + fn, [(fn, args, want)])
    g = 'container without a workbook'
    with r.obligation(g):
        sc = BiffScene(P, opaque={COMP + '.__init__': lambda E, st, b: [(st, NONE)],
                                  COMP + '.locate_named_stream': lambda E, st, b: [(st, Tup([NONE, K(0), K(0)]))]})
        run(r, sc, g, [('whole', [B.bstr(known(SIGNATURE + b'\0' * 504)), FALSE, NONE], 'XLRDError')])


def versions():
    """streams of one sheet and no globals, workbooks of embedded sheets, and first records by version"""
    one = ([K('Sheet 1')], K(1), [(K('Sheet 1'), K(0), K(0), B.f8('d', 6), K(1))])
    g = 'one sheet without globals'
    for bv, op, n in ((30, 0x209, 6), (40, 0x409, 6)):
        for dm in (None, 0, 1):
            recs = [rec(op, K((u16(0) + u16(0x10) + b'\0' * 8)[:n]))]
            if dm is not None:
                recs.append(rec(DATEMODE, K(u16(dm))))
            mem = stream(recs + [rec(0x203, R('d', 14, {0: u16(0) * 3})), EOF])
            yield g, 'whole', [mem, FALSE, NONE], one
            yield g, 'whole', [mem, TRUE, NONE], one
            yield g, 'settings', [mem, FALSE, NONE], (K(dm or 0), K(bv))
    g = 'sheets embedded in the globals of BIFF4'
    for names in (('A',), ('A', 'Bc'), ('Bc', 'A', 'A b')):
        recs = [rec(0x409, K(u16(0x400) + u16(0x100) + u16(0))), rec(0x8e, K(u32(99)))]
        recs += [rec(0x85, K(bytes([len(x)]) + x.encode())) for x in names]
        out = B.as_bytes(stream(recs))
        want = []
        for i, x in enumerate(names):
            body = B.as_bytes(stream([rec(0x409, K(u16(0x400) + u16(0x10) + u16(0))),
                                      rec(0x203, R('d%d' % i, 14, {0: u16(0) * 3})), EOF]))
            out += B.as_bytes(stream([rec(0x8f, K(u32(len(body)) + bytes([len(x)]) + x.encode()))])) + body
            want.append((K(x), K(i), K(0), B.f8('d%d' % i, 6), K(1)))
        out += B.as_bytes(stream([EOF]))
        yield g, 'whole', [B.bstr(out), FALSE, NONE], w(want)
        yield g, 'by_iteration', [B.bstr(out), FALSE, NONE], want
    g = 'versions'
    for v2, build_, year, bv in ((0x600, 3515, 1997, 80), (0x600, 2412, 1990, 80), (0x500, 3515, 1995, 70), (0x500, 1, 1994, 70),
                                 (0x500, 3515, 1993, 50), (0x500, 2412, 1996, 50), (0x500, 3218, 1996, 50),
                                 (0x500, 3321, 1996, 50)):
        for n in (8, 16) if v2 == 0x600 else (8,):
            first = rec(0x809, K((u16(v2) + u16(5) + u16(build_) + u16(year) + b'\0' * 8)[:n]))
            yield g, 'settings', [stream([first, EOF]), FALSE, NONE], (K(0), K(bv))
    g = 'streams that are no workbook'
    for v2, typ in ((0x600, 0x10), (0x600, 0x100), (0x600, 0x20), (0x500, 6), (0x500, 0x100)):
        first = rec(0x809, K(u16(v2) + u16(typ) + u16(3515) + u16(1997)))
        yield g, 'settings', [stream([first, EOF]), FALSE, NONE], 'XLRDError'
    for b in (b'\x09', b'\x09\x08', b'\x09\x08\x10', b'\x09\x08\x10\0', b'\x09\x08\x10\0\0\x06', b'\x0a\x08\x10\0' + b'\0' * 16,
              b'\x09\x08\x02\0\0\x06', b'\x09\x08\x15\0' + b'\0' * 21, b'Name;Val', b'\x09\x08\x08\0\x11\x11\x05\0\0\0\0\0'):
        yield g, 'settings', [K(b), FALSE, NONE], 'XLRDError'
