RULE = """sheetpack is interpreted on a loaded workbook of two sheets with symbolic cell values, for every combination of
header (True, False, a cell address), start cell, stop cell, column selection and sheet selection in a grid of forms.  In the
pack, key k must hold exactly the cells of sheet column k in the prescribed rows, in order, and the name of k must be the
header row's cell of that column; selections outside the range must raise ValueError, nothing else may."""
TECHNIQUE = 'abstract interpretation with cell-exact provenance over a grid of argument forms'
import itertools
from .common import *       # noqa
from .readscene import *    # noqa

SP = 'channelpack.readxl.sheetpack'
NR, NC = 5, 5
OTHER = [[(NUMBER, Sym('other_%d_%d' % (i, j), 'float')) for j in range(2)] for i in range(2)]

HEADERS = [True, False, 'A1', 'B2', 'c1', None]
STARTS = [None, 'A1', 'B2', 'b3', 'C']
STOPS = [None, 'D4', 'e5', 'D2', 'C3']
COLS = [None, 'B:C', 'D,B', 'b, D', 'C', [3, 1], (2,), [1, 2], 'B:C,D', 'D, B:C', [0], 'A:E', [4], ['2', '1']]


BAD = ['B0', 'A00', '7', '$B$2', ' ', '2B']
WIDE = [(None, None, 'Z:AB'), (None, None, 'AA,B'), ('Z1', None, None), ('AA2', 'AC3', None), (None, 'AB2', [25, 26, 27]),
        ('aa1', 'ad3', 'AB:AC, AD'), (None, 'Z3', 'AA')]


def addr(a):
    """-> row, col of an address"""
    if a is None:
        return 0, 0
    letters = a.rstrip('0123456789')
    n = a[len(letters):]
    return (int(n) - 1 if n else 0), colnum(letters)


def colnum(letters):
    n = 0
    for c in letters.strip().upper():
        n = n * 26 + ord(c) - 64
    return n - 1


def cols_of(u):
    if isinstance(u, str):
        out = []
        for p in u.split(','):
            p = p.strip().upper()
            if ':' in p:
                a, b = p.split(':')
                out += list(range(colnum(a), colnum(b) + 1))
            else:
                out.append(colnum(p))
        return sorted(out)
    return sorted(int(c) for c in u)


def expect(header, start, stop, use, nr, nc):
    r0, c0 = addr(start)
    r1, c1 = addr(stop) if stop else (nr - 1, nc - 1)
    cols = cols_of(use) if use else list(range(c0, c1 + 1))
    if cols[0] < c0 or cols[-1] > c1:
        return 'ValueError'
    hrow = None
    if header is True:
        hrow, r0 = r0, r0 + 1
    elif isinstance(header, str):
        hrow = addr(header)[0]
    return cols, list(range(r0, min(r1 + 1, nr))), hrow


def lift(st, v):
    if isinstance(v, list):
        return lst(st, [K(x) for x in v])
    if isinstance(v, tuple):
        return Tup([K(x) for x in v])
    return K(v)


def check(P, r):
    where = P.func(SP).where
    cases = []
    for header, start, stop in itertools.product(HEADERS, STARTS, STOPS):
        if start and stop and (addr(start)[1] > addr(stop)[1] or addr(start)[0] > addr(stop)[0]):
            continue
        for use in COLS:
            cases.append((header, start, stop, use))
    groups = {}
    for c in cases:
        groups.setdefault(c[:3], []).append(c)
    for g, cs in groups.items():
        name = 'header %r, startcell %r, stopcell %r' % g
        with r.obligation(name):
            for c in cs:
                one(P, r, '%s, usecols %r' % (name, c[3]), c, 0, where)
    for bad in BAD:
        for arg in range(3):
            case = [False, None, None, None]
            case[arg] = bad
            name = '%s %r' % (('header', 'startcell', 'stopcell')[arg], bad)
            with r.obligation(name):
                one(P, r, name, tuple(case), 0, where, want='ValueError', what='an address that is none does not raise ValueError')
    for start, stop, use in WIDE:
        name = 'sheet of 30 columns, startcell %r, stopcell %r, usecols %r' % (start, stop, use)
        with r.obligation(name):
            one(P, r, name, (True, start, stop, use), 0, where, shape=(3, 30))
    for sheet, pos in ((0, 0), (1, 1), ('S', 0), ('Other', 1)):
        name = 'sheet %r' % (sheet,)
        with r.obligation(name):
            one(P, r, name, (True, None, None, None), sheet, where, pos)


def one(P, r, name, case, sheet, where, pos=0, want=None, what='columns outside of the range do not raise ValueError',
        shape=(NR, NC)):
    header, start, stop, use = case
    cells = [[(NUMBER, Sym('cell_%d_%d' % (i, j), 'float')) for j in range(shape[1])] for i in range(shape[0])]
    sc = SheetScene(P, [('S', cells), ('Other', OTHER)])
    if pos:
        cells = OTHER
    E, st = sc.E, sc.st
    kw = {'header': K(header), 'startcell': K(start), 'stopcell': K(stop), 'usecols': lift(st, use)}
    if sheet != 0:
        kw['sheet'] = K(sheet)
    want = want or expect(header, start, stop, use, len(cells), len(cells[0]))
    outs = sc.run(SP, [K('x.xls')], kw)
    r.engine(E)
    rets = 0
    for kind, s, v in outs:
        r.count('paths')
        if s.taint:
            r.undecided(name, 'path depends on unknown: %s' % (s.taint[:1],))
            continue
        if kind == 'raise':
            rets += 1
            if want == 'ValueError' and v.name == 'ValueError':
                continue
            if not v.implicit or want == 'ValueError':
                r.viol('raise', '%s: raises %s' % (name, v.name), v.site)
            continue
        rets += 1
        if want == 'ValueError':
            r.viol('range', '%s: %s' % (name, what), where)
            continue
        c = columns(E, s, v)
        if c is None:
            r.undecided(name, 'pack of unknown content')
            continue
        data, nms = c
        cols, rows, hrow = want
        if sorted(data) != sorted(set(cols)):
            r.viol('keys', '%s: data keys %s, expected %s' % (name, sorted(data), cols), where)
            continue
        if list(data) != cols:
            r.viol('order', '%s: columns taken in order %s' % (name, list(data)), where)
            continue
        wn = {k: cells[hrow][k][1] for k in cols} if hrow is not None else {}
        if nms != wn:
            if any(has_unk(x) for x in nms.values()):
                r.undecided(name, 'names %s' % show(nms))
            else:
                r.viol('names', '%s: names %s, expected %s' % (name, show(nms), show(wn)), where)
            continue
        for k in cols:
            wv = [cells[i][k][1] for i in rows]
            if data[k] != wv:
                if any(has_unk(x) for x in data[k]):
                    r.undecided(name, 'values %s' % show(data[k]))
                else:
                    r.viol('cells', '%s: key %d holds %s, expected %s' % (name, k, show(data[k]), show(wv)), where)
                break
    if not rets:
        r.undecided(name, 'no outcome')
