RULE = """A Sheet is built by its own constructor and put_cell is interpreted for every sequence of up to three cells (four in the
thorough tier) at positions of a 3 x 3 grid, in any order and with repeats, ragged and not, with and without formatting
information, the cells' type, value and format index symbolic; tidy_dimensions (also with merged cells) follows each
sequence.  After each step the parallel rows must have equal lengths, each stored cell must be found at its place in every
store, every other place must be an empty cell, and nrows and ncols must span the cells.  The accessors are interpreted on
rectangular and ragged sheets of symbolic cells for all pairs of bounds from -(n+1) to n+1 and a missing end: each must take
exactly the cells of the same slice."""
TECHNIQUE = 'abstract interpretation of concrete store shapes with symbolic cells; sibling agreement of accessors'
import itertools
from .common import *       # noqa
from .readscene import *    # noqa

SH = XL + '.sheet.Sheet'
STORES = ('_cell_types', '_cell_values', '_cell_xf_indexes')


def new_sheet(P, ragged, fmt, biff=80, types=None):
    E = Engine(P)
    E.max_steps = 60000
    E.eager_gens = True
    st = E.new_state()
    bc, shc = P.cls(XL + '.book.Book'), P.cls(SH)
    book = st.alloc(Inst(bc, 'book'))
    st.mut(book).attrs.update({
        'biff_version': K(biff), 'logfile': Sym('logfile'), 'verbosity': K(0), 'formatting_info': K(fmt),
        'ragged_rows': K(ragged), '_xf_index_to_xl_type_map': dct(st, types or []), '_sheet_visibility': lst(st, [K(0)]),
        'on_demand': K(False)})
    outs = E.instantiate(shc, [book, K(0), K('sheet'), K(0)], {}, st)
    if len(outs) != 1 or not isinstance(outs[0][1], Ref):
        return E, None, None
    s, sh = outs[0]
    s.ghost['$roots'] = Tup([book, sh])
    return E, s, sh


def grid(E, st, sh, store):
    rows = items(E, st, st.get(sh).attrs.get(store))
    if rows is None:
        return None
    out = []
    for x in rows:
        y = items(E, st, x)
        if y is None:
            return None
        out.append(list(y))
    return out


def check(P, r):
    thorough = getattr(r, 'tier', 'quick') == 'thorough'
    for m in ('put_cell_ragged', 'put_cell_unragged', 'tidy_dimensions'):
        P.func(SH + '.' + m)
    for ragged in (False, True):
        for fmt in (False, True):
            name = 'cells in any order%s%s' % (', ragged rows' if ragged else '', ', formatting info' if fmt else '')
            with r.obligation(name):
                orders(P, r, name, ragged, fmt, 4 if thorough else 3)
            name = 'type from the format index%s%s' % (', ragged rows' if ragged else '', ', formatting info' if fmt else '')
            with r.obligation(name):
                lookup(P, r, name, ragged, fmt)
    accessors(P, r, thorough)


def run(E, fi, args, st):
    E.steps = 0
    return E.run(fi, list(args), {}, st=st)


def method(P, E, st, sh, name):
    v = st.get(sh).attrs.get(name)
    if isinstance(v, Bound):
        fn = v.fn
        return getattr(fn, 'fi', fn)
    fi = P.find_method(P.cls(SH), name)
    return fi


def orders(P, r, name, ragged, fmt, depth):
    E, st, sh = new_sheet(P, ragged, fmt)
    if st is None:
        r.undecided(name, 'sheet not constructed')
        return
    put = method(P, E, st, sh, 'put_cell')
    tidy = method(P, E, st, sh, 'tidy_dimensions')
    if put is None or tidy is None:
        r.undecided(name, 'no put_cell or tidy_dimensions')
        return
    where = put.where
    pos = list(itertools.product(range(3), range(3)))
    bad = [0]

    def go(s, seq, cells):
        if len(seq) == depth or bad[0] > 3:
            return
        for rc in pos:
            n = len(seq)
            args = [sh, K(rc[0]), K(rc[1]), Sym('type%d' % n, 'int'), Sym('value%d' % n), Sym('xf%d' % n, 'int')]
            outs = run(E, put, args, s.copy())
            r.count('sequences')
            q = seq + [rc]
            c = dict(cells)
            c[rc] = n
            rets = judge(P, r, name, E, sh, outs, q, c, ragged, fmt, where, False, bad)
            for s2 in rets:
                ts = run(E, tidy, [sh], s2.copy())
                judge(P, r, name, E, sh, ts, q, c, ragged, fmt, tidy.where, True, bad)
                if len(q) < 3:
                    for mc in ([(0, 5, 0, 4)], [(1, 3, 0, 5), (0, 2, 1, 2)], [(0, 1, 0, 5)], [(3, 5, 0, 1)], [(0, 2, 0, 2)]):
                        s3 = s2.copy()
                        s3.mut(sh).attrs['merged_cells'] = lst(s3, [Tup([K(x) for x in t]) for t in mc])
                        ts = run(E, tidy, [sh], s3)
                        judge(P, r, '%s, merged %s' % (name, mc), E, sh, ts, q, c, ragged, fmt, tidy.where, True, bad, mc)
                go(s2, q, c)

    go(st, [], {})
    # neither put_cell nor tidy_dimensions with no cell at all
    ts = run(E, tidy, [sh], st.copy())
    judge(P, r, name, E, sh, ts, [], {}, ragged, fmt, tidy.where, True, bad)
    r.engine(E)


def judge(P, r, name, E, sh, outs, seq, cells, ragged, fmt, where, tidied, bad, merged=()):
    rets = []
    label = '%s: cells at %s%s' % (name, seq, ', then tidy_dimensions' if tidied else '')

    def viol(k, m):
        bad[0] += 1
        r.viol(k, '%s: %s' % (label, m), where)

    for kind, s, v in outs:
        if s.taint:
            r.undecided(name, 'path depends on unknown: %s' % (s.taint[:1],))
            continue
        if kind == 'raise':
            if not v.implicit:
                viol('raise', 'raises %s' % v.name)
            continue
        a = s.get(sh).attrs
        ty, va = grid(E, s, sh, '_cell_types'), grid(E, s, sh, '_cell_values')
        xf = grid(E, s, sh, '_cell_xf_indexes') if fmt else None
        if ty is None or va is None or fmt and xf is None:
            r.undecided(name, 'stores of unknown content after %s' % (seq,))
            continue
        nr, nc = a.get('nrows'), a.get('ncols')
        rows = max([x for x, y in cells] + [-1]) + 1
        cols = max([y for x, y in cells] + [-1]) + 1
        if tidied:
            rows = max([rows] + [m[1] for m in merged])
            cols = max([cols] + [m[3] for m in merged])
        if not isinstance(nr, K) or not isinstance(nc, K):
            r.undecided(name, 'nrows %s, ncols %s' % (show(nr), show(nc)))
            continue
        if (nr.v, nc.v) != (rows, cols):
            viol('dimensions', 'nrows, ncols = %s, %s, expected %d, %d' % (nr.v, nc.v, rows, cols))
            continue
        stores = [('types', ty, 'type', K(0)), ('values', va, 'value', K('')), ('format indexes', xf, 'xf', K(-1))]
        stores = [x for x in stores if x[1] is not None]
        if any(len(x[1]) != rows for x in stores):
            viol('rows', 'stores have %s rows, expected %d' % ({x[0]: len(x[1]) for x in stores}, rows))
            continue
        ok = True
        for i in range(rows):
            ls = {x[0]: len(x[1][i]) for x in stores}
            need = max([y for x, y in cells if x == i] + [-1]) + 1
            if len(set(ls.values())) != 1:
                viol('parallel rows', 'row %d has lengths %s' % (i, ls))
                ok = False
            elif tidied and not ragged and ls['types'] != cols:
                viol('tidy', 'row %d has %d cells, expected ncols = %d' % (i, ls['types'], cols))
                ok = False
            elif ls['types'] < need or ragged and ls['types'] != need and not (merged and need == 0 and ls['types'] == 1):
                viol('row length', 'row %d has %d cells, expected %d' % (i, ls['types'], need))
                ok = False
            if not ok:
                break
            for j in range(ls['types']):
                for label2, g, sym, empty in stores:
                    exp = Sym('%s%d' % (sym, cells[i, j]), 'any' if sym == 'value' else 'int') if (i, j) in cells else empty
                    got = g[i][j]
                    if got == exp or isinstance(got, K) and isinstance(exp, K) and got.v == exp.v:
                        continue
                    if has_unk(got) or not isinstance(got, (K, Sym)):
                        r.undecided(name, 'cell %s' % show(got))
                    else:
                        viol('cell', '%s[%d][%d] is %s, expected %s' % (label2, i, j, show(got), show(exp)))
                    ok = False
                    break
                if not ok:
                    break
            if not ok:
                break
        if ok:
            rets.append(s)
    return rets


def lookup(P, r, name, ragged, fmt):
    E, st, sh = new_sheet(P, ragged, fmt, types=[(K(20), K(2)), (K(21), K(3)), (K(22), K(2))])
    if st is None:
        r.undecided(name, 'sheet not constructed')
        return
    put = method(P, E, st, sh, 'put_cell')
    for i in (20, 21, 22):
        for row, col in ((0, 0), (2, 1)):
            outs = run(E, put, [sh, K(row), K(col), NONE, Sym('v', 'float'), K(i)], st.copy())
            for kind, s, v in outs:
                if s.taint or kind == 'raise':
                    if kind == 'raise' and not v.implicit and not s.taint:
                        r.viol('raise', '%s: raises %s' % (name, v.name), put.where)
                    continue
                ty = grid(E, s, sh, '_cell_types')
                if ty is None or len(ty) <= row or len(ty[row]) <= col:
                    r.undecided(name, 'types %s' % show(ty))
                    continue
                exp = K({20: 2, 21: 3, 22: 2}[i])
                if ty[row][col] != exp:
                    if isinstance(ty[row][col], K):
                        r.viol('type lookup', '%s: format index %d gives type %s, expected %s' % (name, i, ty[row][col], exp),
                               put.where)
                    else:
                        r.undecided(name, 'type %s' % show(ty[row][col]))
    r.engine(E)


# ------------------------------------------------------------------ accessors
SHAPES = {'3 x 4': (4, 4, 4), 'ragged 2, 4, 0': (2, 4, 0), 'one cell': (1,), '5 x 2': (2, 2, 2, 2, 2)}


def filled(P, shape, fmt):
    E, st, sh = new_sheet(P, len(set(shape)) > 1, fmt)
    if st is None:
        return None
    a = st.mut(sh).attrs
    g = {}
    for k, (store, sym) in enumerate(zip(STORES, ('type', 'value', 'xf'))):
        g[sym] = [[Sym('%s_%d_%d' % (sym, i, j)) if sym != 'xf' else K(100 + 10 * i + j) for j in range(n)]
                  for i, n in enumerate(shape)]
        a[store] = lst(st, [lst(st, row) for row in g[sym]]) if sym != 'xf' or fmt else lst(st, [])
    a['nrows'], a['ncols'] = K(len(shape)), K(max(shape))
    a['_first_full_rowx'] = K(-2)
    return E, st, sh, g


def cell_of(E, st, v):
    if isinstance(v, Ref):
        o = st.get(v)
        if o.kind == 'inst' and {'ctype', 'value'} <= set(o.attrs):
            return (o.attrs['ctype'], o.attrs['value'], o.attrs.get('xf_index'))
    return None


def accessors(P, r, thorough):
    for sname, shape in SHAPES.items():
        for fmt in (False, True):
            f = filled(P, shape, fmt)
            if f is None:
                r.undecided(sname, 'sheet not constructed')
                continue
            E, st, sh, g = f
            cells = [[(g['type'][i][j], g['value'][i][j], g['xf'][i][j] if fmt else NONE) for j in range(n)]
                     for i, n in enumerate(shape)]

            def ask(meth, args, exp, conv, label, kw=None):
                fi = P.find_method(P.cls(SH), meth)
                if fi is None:
                    raise AnalysisError('no Sheet.%s' % meth)
                E.steps = 0
                outs = E.run(fi, [sh] + args, dict(kw or {}), st=st.copy())
                r.count('accessor calls')
                for kind, s, v in outs:
                    if s.taint:
                        r.undecided(label, 'path depends on unknown: %s' % (s.taint[:1],))
                        continue
                    if kind == 'raise':
                        if exp is IndexError and v.name.split('.')[-1] in ('IndexError', 'KeyError'):
                            continue
                        if not v.implicit:
                            r.viol('raise', '%s: raises %s' % (label, v.name), v.site or fi.where)
                        continue
                    got = conv(E, s, v)
                    if got is None:
                        r.undecided(label, 'result %s' % show(v))
                        continue
                    if exp is IndexError:
                        r.viol('agree', '%s: gives %s although a row has no such cell' % (label, show(got)), fi.where)
                    elif got != exp:
                        if any(has_unk(x) for x in flat(got)):
                            r.undecided(label, 'result %s' % show(got))
                        else:
                            r.viol('agree', '%s: takes %s, expected %s' % (label, show(got), show(exp)), fi.where)
                if not outs:
                    r.undecided(label, 'no outcome')

            def vals(E, s, v):
                x = items(E, s, v)
                return None if x is None else list(x)

            def cs(E, s, v):
                x = items(E, s, v)
                if x is None:
                    return None
                x = [cell_of(E, s, y) for y in x]
                return None if any(y is None for y in x) else x

            def rows(E, s, v):
                x = items(E, s, v)
                if x is None:
                    return None
                x = [cs(E, s, y) for y in x]
                return None if any(y is None for y in x) else x

            lab = 'sheet %s%s: ' % (sname, ', formatting info' if fmt else '')
            with r.obligation(lab + 'row accessors'):
                for i, n in enumerate(shape):
                    bs = range(-n - 1, n + 2)
                    for a, b in itertools.product(bs, [None] + list(bs)):
                        sl = slice(a, b)
                        args = [K(i), K(a), K(b)]
                        l2 = '(%d, %s, %s)' % (i, a, b)
                        ask('row_types', args, g['type'][i][sl], vals, lab + 'row_types' + l2)
                        ask('row_values', args, g['value'][i][sl], vals, lab + 'row_values' + l2)
                        ask('row_slice', args, cells[i][sl], cs, lab + 'row_slice' + l2)
                    for a in [None] + list(bs):
                        args, sl = ([K(i)], slice(0, None)) if a is None else ([K(i), K(a)], slice(a, None))
                        l2 = '(%d%s)' % (i, '' if a is None else ', %d' % a)
                        ask('row_types', args, g['type'][i][sl], vals, lab + 'row_types' + l2)
                        ask('row_values', args, g['value'][i][sl], vals, lab + 'row_values' + l2)
                        ask('row_slice', args, cells[i][sl], cs, lab + 'row_slice' + l2)
                    ask('row', [K(i)], cells[i], cs, lab + 'row(%d)' % i)
                    ask('__getitem__', [K(i)], cells[i], cs, lab + '[%d]' % i)
                    ask('row_len', [K(i)], K(n), lambda E, s, v: v, lab + 'row_len(%d)' % i)
                    ask('row', [K(i - len(shape))], cells[i], cs, lab + 'row(%d)' % (i - len(shape)))
                ask('get_rows', [], cells, rows, lab + 'get_rows()')
            with r.obligation(lab + 'column accessors'):
                nr = len(shape)
                bs = range(-nr - 1, nr + 2)
                for j in range(max(shape)):
                    for a, b in list(itertools.product(bs, [None] + list(bs))) + [(0, 'none')]:
                        args = [K(j), K(a), K(b)] if b != 'none' else [K(j)]
                        sl = slice(a, b) if b != 'none' else slice(0, None)
                        pick = list(range(nr))[sl]
                        short = any(shape[i] <= j for i in pick)
                        l2 = '(%d, %s, %s)' % (j, a, b)
                        for m, src, conv in (('col_types', g['type'], vals), ('col_values', g['value'], vals),
                                             ('col_slice', cells, cs)) + ((('col', cells, cs),) if b in (None, 'none') else ()):
                            if P.find_method(P.cls(SH), m) is None:
                                continue
                            ask(m, args, IndexError if short else [src[i][j] for i in pick], conv, lab + m + l2)
            with r.obligation(lab + 'cell accessors'):
                for i, n in enumerate(shape):
                    for j in range(n):
                        for a, b in ((i, j), (i - len(shape), j - n)):
                            if fmt and a < 0:
                                continue
                            l2 = '(%d, %d)' % (a, b)
                            ask('cell_type', [K(a), K(b)], g['type'][i][j], lambda E, s, v: v, lab + 'cell_type' + l2)
                            ask('cell_value', [K(a), K(b)], g['value'][i][j], lambda E, s, v: v, lab + 'cell_value' + l2)
                            ask('cell', [K(a), K(b)], cells[i][j], cell_of, lab + 'cell' + l2)
                            ask('__getitem__', [Tup([K(a), K(b)])], cells[i][j], cell_of, lab + '[%d, %d]' % (a, b))
            r.engine(E)


def flat(x):
    if isinstance(x, (list, tuple)):
        for y in x:
            for z in flat(y):
                yield z
    elif isinstance(x, V):
        yield x
