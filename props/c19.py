RULE = """sheetpack is interpreted on a loaded workbook whose columns hold every sequence of up to four (thorough: five) cell types (numbers,
texts, dates, both booleans, empty, blank and error cells; values and date system symbolic).  Every value in the pack must be
what the column's set of cell types and the cell's own type prescribe: the cell's own value, nan, '', None, True/False or the
datetime of the cell's value in the workbook's date system."""
TECHNIQUE = 'abstract interpretation over all cell type sequences with symbolic cell values'
import itertools
from .common import *       # noqa
from .readscene import *    # noqa

SP = 'channelpack.readxl.sheetpack'
KINDS = 'EXNDTFRB'      # empty, text, number, date, true, false, error, blank
CODE = dict(E=EMPTY, X=TEXT, N=NUMBER, D=DATE, T=BOOLEAN, F=BOOLEAN, R=ERROR, B=BLANK)
KNOWN = {'nan', 'asdatetime', 'float', 'int', 'str', 'eq', 'bool', 'not', 'truthy', 'is'}


def cell(k, r, c):
    v = {'E': K(''), 'B': K(''), 'T': K(1), 'F': K(0)}.get(k)
    if v is None:
        v = Sym('cell_%s_%d_%d' % (k, r, c), {'X': 'str', 'N': 'float', 'D': 'float', 'R': 'int'}[k])
    return CODE[k], v


def expect(sc, col, k, v):
    kinds = set(col)
    if kinds <= set('NERB'):
        return v if k == 'N' else T('nan')
    if kinds <= set('XERB'):
        return v if k == 'X' else K('')
    if k == 'D':
        return T('asdatetime', v, sc.datemode)
    if k in 'ERB':
        return NONE
    if k in 'TF':
        return K(k == 'T')
    return v


def check(P, r):
    where = P.func(SP).where
    n = 5 if getattr(r, 'tier', 'quick') == 'thorough' else 4
    for length in range(1, n + 1):
        cols = list(itertools.product(KINDS, repeat=length))
        for i in range(0, len(cols), 16):
            part = cols[i:i + 16]
            name = 'columns of cell types %s to %s' % (''.join(part[0]), ''.join(part[-1]))
            with r.obligation(name):
                one(P, r, name, part, length, where)


    pairs = list(itertools.product(KINDS, repeat=2))
    for pre, post in itertools.product(KINDS, repeat=2):
        for header in (True, False):
            name = 'cells of type %s above and %s below the range, header %s' % (pre, post, header)
            with r.obligation(name):
                for i in range(0, len(pairs), 16):
                    one(P, r, name, pairs[i:i + 16], 2, where, (pre, post, header))


def same(a, b):
    if isinstance(a, K) and isinstance(b, K):
        return type(a.v) is type(b.v) and a.v == b.v
    return a == b


def one(P, r, name, cols, length, where, around=None):
    rows = [[cell(cols[c][i], i, c) for c in range(len(cols))] for i in range(length)]
    sheet, kw = rows, {'header': K(False)}
    if around:
        pre, post, header = around
        sheet = [[cell(pre, 90, c) for c in range(len(cols))]] + rows + [[cell(post, 91, c) for c in range(len(cols))]]
        kw = {'header': K(header), 'stopcell': K('P%d' % (length + 1))}
        if not header:
            kw['startcell'] = K('A2')
    sc = SheetScene(P, [('S', sheet)])
    E = sc.E
    outs = sc.run(SP, [K('x.xls')], kw)
    r.engine(E)
    rets = 0
    for kind, s, v in outs:
        r.count('paths')
        if s.taint:
            r.undecided(name, 'path depends on unknown: %s' % (s.taint[:1],))
            continue
        if kind == 'raise':
            if not v.implicit:
                r.viol('raise', '%s: raises %s' % (name, v.name), v.site)
            continue
        rets += 1
        c = columns(E, s, v)
        if c is None:
            r.undecided(name, 'pack of unknown content')
            continue
        data = c[0]
        for j, col in enumerate(cols):
            got = data.get(j)
            if got is None or len(got) != length:
                r.viol('column', '%s: column of cell types %s gives %s' % (name, ''.join(col), show(got)), where)
                break
            for i, g in enumerate(got):
                r.count('cells')
                want = expect(sc, col, col[i], rows[i][j][1])
                if same(g, want):
                    continue
                if has_unk(g) or not within(g, KNOWN) or isinstance(g, Ref):
                    r.undecided(name, 'value %s' % show(g))
                    continue
                r.viol('cell', 'column of cell types %s: cell %d (%s) gives %s, expected %s%s' % (
                    '/'.join(col), i, rows[i][j][1] if not isinstance(rows[i][j][1], K) else repr(rows[i][j][1].v), show(g), show(want), ''), where)
                break
    if not rets and not any(k == 'raise' and not v.implicit for k, s, v in outs):
        r.undecided(name, 'no outcome')
