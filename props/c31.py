RULE = """The sheet reader (Sheet.read and all it calls) is interpreted over streams of records of symbolic bytes, one stream per
kind of cell record, BIFF version and alternative the record's flag bytes choose, each followed by a plain number record and
the end record.  Bytes are tracked bit by bit through unpack, slices, masks and shifts.  On every path the cells put into the
sheet must be exactly those of the record layout: row, column and format index from their own bytes; numbers from their eight
bytes or by the RK rule (30 bits, integer or the high part of a float, with or without division by 100); text from its
character bytes with the encoding its flag or version calls for, over continuation records too; booleans and errors by the
flag; formulas with the result their record or the string record after it holds; blanks only with formatting information.
Malformed formula results raise XLRDError."""
TECHNIQUE = 'abstract interpretation of the record reader over bit-level symbolic records, against a table of record layouts'
from .common import *       # noqa
from .biffscene import *    # noqa

EMPTY, TEXT, NUMBER, DATE, BOOLEAN, ERROR, BLANK = range(7)


def put(E, st, b):
    vals = [b.get(k) for k in ('rowx', 'colx', 'ctype', 'value', 'xf_index')]
    if any(v is None for v in vals):
        vals = (list(b.values()) + [Unk('arg')] * 6)[1:6]
    old = st.ghost.get('$cells', Tup([]))
    st.ghost['$cells'] = Tup(list(old.items) + [Tup(vals)])
    return [(st, NONE)]


def rk(label, off, flags):
    """the value of the RK number at off"""
    if flags & 2:
        v = B.bits([(label, off + i // 8, i % 8) for i in range(2, 32)], (label, off + 3, 7))
        return T('div', v, K(100.0)) if flags & 1 else T('float', v)
    low = (0, 0) + tuple((label, off, i) for i in range(2, 8))
    v = T('ieee', (B.byte(0),) * 4 + (low,) + tuple(B.byte((label, off + i)) for i in (1, 2, 3)))
    return T('div', v, K(100.0)) if flags & 1 else v


def rkbits(off, flags):
    return {(off, 0): flags & 1, (off, 1): flags >> 1}


def scenarios():
    """(name, version, formatting_info, records, cells or exception name[, ixfe])"""
    d = lambda o: B.uint('d', o)
    row, col, xf = d(0), d(2), d(4)
    sst = lambda v: T('item', Sym('sst', 'any'), v)
    for bv in (80, 50, 40, 30):
        yield 'NUMBER', bv, 0, [rec(0x203, R('d', 14))], [(row, col, None, B.f8('d', 6), xf)]
        yield 'NUMBER with trailing bytes', bv, 0, [rec(0x203, R('d', 18))], [(row, col, None, B.f8('d', 6), xf)]
    for bv in (80, 50, 40, 30):
        for fl in range(4):
            yield 'RK flags %d' % fl, bv, 0, [rec(0x27e, R('d', 10, bits=rkbits(6, fl)))], [
                (row, col, None, rk('d', 6, fl), xf)]
    for fl, fl2 in ((0, 3), (2, 1), (1, 2), (3, 0)):
        for first, n in ((3, 2), (0, 1), (255, 1)):
            bits = rkbits(6, fl)
            if n > 1:
                bits.update(rkbits(12, fl2))
            yield 'MULRK flags %d %d, %d cells from column %d' % (fl, fl2, n, first), 80, 0, [
                rec(0xbd, R('d', 6 + 6 * n, {2: u16(first), 4 + 6 * n: u16(first + n - 1)}, bits))], [
                (row, K(first + i), None, rk('d', 6 + 6 * i, (fl, fl2)[i]), B.uint('d', 4 + 6 * i)) for i in range(n)]
    yield 'LABELSST', 80, 0, [rec(0xfd, R('d', 10, bits={(9, 7): 0}))], [
        (row, col, TEXT, sst(B.field('d', 6, 0, 30)), xf)]
    for bv in (50, 40, 30):
        for n in (0, 3):
            yield 'LABEL of %d characters' % n, bv, 0, [rec(0x204, R('d', 8 + n, {6: u16(n)}))], [
                (row, col, TEXT, B.text('d', 8, n, 'cp1252'), xf)]
    for n in (1, 3):
        yield 'LABEL of %d one byte characters' % n, 80, 0, [rec(0x204, R('d', 9 + n, {6: u16(n), 8: 0}))], [
            (row, col, TEXT, B.text('d', 9, n, 'latin-1'), xf)]
        yield 'LABEL of %d two byte characters' % n, 80, 0, [rec(0x204, R('d', 9 + 2 * n, {6: u16(n), 8: 1}))], [
            (row, col, TEXT, B.text('d', 9, 2 * n, 'utf-16-le'), xf)]
        yield 'LABEL with rich text, %d characters' % n, 80, 0, [rec(0x204, R('d', 9 + 2 + n + 4, {
            6: u16(n), 8: 8, 9: u16(1)}))], [(row, col, TEXT, B.text('d', 11, n, 'latin-1'), xf)]
        yield 'LABEL with phonetic text, %d characters' % n, 80, 0, [rec(0x204, R('d', 9 + 4 + 2 * n + 6, {
            6: u16(n), 8: 5, 9: u16(6), 11: u16(0)}))], [(row, col, TEXT, B.text('d', 13, 2 * n, 'utf-16-le'), xf)]
        yield 'LABEL with rich and phonetic text, %d characters' % n, 80, 0, [rec(0x204, R('d', 9 + 6 + 2 * n + 10, {
            6: u16(n), 8: 13, 9: u16(1), 11: u16(6), 13: u16(0)}))], [
            (row, col, TEXT, B.text('d', 15, 2 * n, 'utf-16-le'), xf)]
    yield 'empty LABEL', 80, 0, [rec(0x204, R('d', 9, {6: u16(0), 8: 0}))], [(row, col, TEXT, K(''), xf)]
    yield 'empty LABEL without flags', 80, 0, [rec(0x204, R('d', 8, {6: u16(0)}))], [(row, col, TEXT, K(''), xf)]
    yield 'RSTRING', 80, 0, [rec(0xd6, R('d', 9 + 3 + 2 + 8, {6: u16(3), 8: 0, 12: u16(2)}))], [
        (row, col, TEXT, B.text('d', 9, 3, 'latin-1'), xf)]
    yield 'RSTRING of two byte characters', 80, 0, [rec(0xd6, R('d', 9 + 6 + 2 + 4, {6: u16(3), 8: 1, 15: u16(1)}))], [
        (row, col, TEXT, B.text('d', 9, 6, 'utf-16-le'), xf)]
    yield 'RSTRING', 50, 0, [rec(0xd6, R('d', 8 + 3 + 1 + 4, {6: u16(3), 11: 2}))], [
        (row, col, TEXT, B.text('d', 8, 3, 'cp1252'), xf)]
    for bv in (80, 50, 30):
        yield 'BOOLERR boolean', bv, 0, [rec(0x205, R('d', 8, {7: 0}))], [(row, col, BOOLEAN, B.uint('d', 6, 1), xf)]
        yield 'BOOLERR error', bv, 0, [rec(0x205, R('d', 8, {7: 1}))], [(row, col, ERROR, B.uint('d', 6, 1), xf)]
        yield 'BOOLERR of 9 bytes', bv, 0, [rec(0x205, R('d', 9, {7: 0}))], [(row, col, BOOLEAN, B.uint('d', 6, 1), xf)]
        yield 'BLANK without formatting', bv, 0, [rec(0x201, R('d', 6))], []
        yield 'BLANK', bv, 1, [rec(0x201, R('d', 6))], [(row, col, BLANK, K(''), xf)]
    for first, n in ((2, 3), (0, 1)):
        mb = rec(0xbe, R('d', 6 + 2 * n, {2: u16(first), 4 + 2 * n: u16(first + n - 1)}))
        yield 'MULBLANK of %d without formatting' % n, 80, 0, [mb], []
        yield 'MULBLANK of %d' % n, 80, 1, [mb], [
            (row, K(first + i), BLANK, K(''), B.uint('d', 4 + 2 * i)) for i in range(n)]
    # formulas
    for bv, rc, n in ((80, 6, 22), (50, 6, 22), (40, 0x406, 18), (30, 0x206, 18)):
        bits = {(13, 7): 0}
        num = B.T('ieee', tuple(B.byte(('d', 6 + i)) for i in range(7)) + (
            tuple(('d', 13, i) for i in range(7)) + (0,),))
        yield 'FORMULA number', bv, 0, [rec(rc, R('d', n, bits=bits))], [(row, col, None, num, xf)]
        num = B.T('ieee', tuple(B.byte(('d', 6 + i)) for i in range(6)) + (
            tuple(('d', 12, i) for i in range(7)) + (0,), B.byte(255)))
        yield 'FORMULA number with a high byte 255', bv, 0, [rec(rc, R('d', n, {13: 255}, {(12, 7): 0}))], [
            (row, col, None, num, xf)]
        sp = {12: 255, 13: 255}
        yield 'FORMULA boolean', bv, 0, [rec(rc, R('d', n, dict(sp, **{}) | {6: 1}))], [
            (row, col, BOOLEAN, B.uint('d', 8, 1), xf)]
        yield 'FORMULA error', bv, 0, [rec(rc, R('d', n, sp | {6: 2}))], [(row, col, ERROR, B.uint('d', 8, 1), xf)]
        yield 'FORMULA empty text', bv, 0, [rec(rc, R('d', n, sp | {6: 3}))], [(row, col, TEXT, K(''), xf)]
        yield 'FORMULA of unknown result', bv, 0, [rec(rc, R('d', n, sp | {6: 4}))], 'XLRDError'
        f = rec(rc, R('d', n, sp | {6: 0}))
        if bv == 80:
            strs = [('text', rec(0x207, R('s', 6, {0: u16(3), 2: 0})), B.text('s', 3, 3, 'latin-1')),
                    ('wide text', rec(0x207, R('s', 9, {0: u16(3), 2: 1})), B.text('s', 3, 6, 'utf-16-le')),
                    ('text with unused flag bits', rec(0x207, R('s', 6, {0: u16(3)}, {(2, 0): 0})),
                     B.text('s', 3, 3, 'latin-1'))]
        else:
            strs = [('text', rec(0x207, R('s', 5, {0: u16(3)})), B.text('s', 2, 3, 'cp1252'))]
        for what, s, t in strs:
            yield 'FORMULA ' + what, bv, 0, [f, s], [(row, col, TEXT, t, xf)]
        s, t = strs[0][1:]
        for nm, oc, ln in (('SHRFMLA', 0x4bc, 10), ('ARRAY', 0x221, 14), ('TABLEOP', 0x236, 16), ('ARRAY of BIFF2', 0x21, 14),
                           ('TABLEOP2', 0x37, 16), ('TABLEOP of BIFF2', 0x36, 16)):
            yield 'FORMULA text after %s' % nm, bv, 0, [f, rec(oc, R('x', ln)), s], [(row, col, TEXT, t, xf)]
            yield 'FORMULA number with %s' % nm, bv, 0, [rec(rc, R('d', n, bits=bits)), rec(oc, R('x', ln))], [
                (row, col, None, B.T('ieee', tuple(B.byte(('d', 6 + i)) for i in range(7)) + (
                    tuple(('d', 13, i) for i in range(7)) + (0,),)), xf)]
        yield 'FORMULA text without its record', bv, 0, [f], 'XLRDError'
        yield 'FORMULA text after SHRFMLA without its record', bv, 0, [f, rec(0x4bc, R('x', 10))], 'XLRDError'
    f = rec(6, R('d', 22, {12: 255, 13: 255, 6: 0}))
    narrow = rec(0x207, R('s', 3 + 2, {0: u16(5), 2: 0}))
    cont = rec(0x3c, R('t', 1 + 3, {0: 0}))
    wide = rec(0x207, R('s', 3 + 4, {0: u16(5), 2: 1}))
    wcont = rec(0x3c, R('t', 1 + 6, {0: 1}))
    n2, n3 = B.text('s', 3, 2, 'latin-1'), B.text('t', 1, 3, 'latin-1')
    w2, w3 = B.text('s', 3, 4, 'utf-16-le'), B.text('t', 1, 6, 'utf-16-le')
    yield 'FORMULA text over two records', 80, 0, [f, narrow, cont], [(row, col, TEXT, cat(n2, n3), xf)]
    yield 'FORMULA wide text over two records', 80, 0, [f, wide, wcont], [(row, col, TEXT, cat(w2, w3), xf)]
    yield 'FORMULA text becoming wide in the second record', 80, 0, [f, narrow, wcont], [
        (row, col, TEXT, cat(n2, w3), xf)]
    yield 'FORMULA text becoming narrow in the second record', 80, 0, [f, wide, cont], [(row, col, TEXT, cat(w2, n3), xf)]
    sm = '\U0001F600'.encode('utf_16_le')
    yield 'FORMULA text with a character of two units', 80, 0, [
        f, rec(0x207, R('s', 3 + 6, {0: u16(3), 2: b'\1a\0' + sm}))], [(row, col, TEXT, K('a\U0001F600'), xf)]
    yield 'FORMULA text with a character of two units in two records', 80, 0, [
        f, rec(0x207, R('s', 3 + 4, {0: u16(4), 2: b'\1a\0' + sm[:2]})), rec(0x3c, R('t', 5, {0: b'\1' + sm[2:] + b'b\0'}))], [
        (row, col, TEXT, K('a\U0001F600b'), xf)]
    yield 'FORMULA text too short', 80, 0, [f, narrow], 'XLRDError'
    yield 'FORMULA text too long', 80, 0, [f, rec(0x207, R('s', 3 + 6, {0: u16(5), 2: 0}))], 'XLRDError'
    yield 'FORMULA text over two records', 50, 0, [f, rec(0x207, R('s', 2 + 2, {0: u16(5)})), rec(0x3c, R('t', 3))], [
        (row, col, TEXT, cat(B.text('s', 2, 2, 'cp1252'), B.text('t', 0, 3, 'cp1252')), xf)]
    # BIFF 2
    at = {(4, 5): 0}
    xf2 = B.field('d', 4, 0, 4)
    yield 'NUMBER', 21, 0, [rec(3, R('d', 15, bits=at))], [(row, col, None, B.f8('d', 7), xf2)]
    yield 'INTEGER', 21, 0, [rec(2, R('d', 9, bits=at))], [(row, col, None, T('float', B.uint('d', 7)), xf2)]
    yield 'LABEL', 21, 0, [rec(4, R('d', 8 + 3, {7: 3}, at))], [(row, col, TEXT, B.text('d', 8, 3, 'cp1252'), xf2)]
    yield 'BOOLERR boolean', 21, 0, [rec(5, R('d', 9, {8: 0}, at))], [(row, col, BOOLEAN, B.uint('d', 7, 1), xf2)]
    yield 'BOOLERR error', 21, 0, [rec(5, R('d', 9, {8: 1}, at))], [(row, col, ERROR, B.uint('d', 7, 1), xf2)]
    yield 'BLANK', 21, 1, [rec(1, R('d', 7, bits=at))], [(row, col, BLANK, K(''), xf2)]
    yield 'BLANK without formatting', 21, 0, [rec(1, R('d', 7, bits=at))], []
    num = B.T('ieee', tuple(B.byte(('d', 7 + i)) for i in range(7)) + (tuple(('d', 14, i) for i in range(7)) + (0,),))
    yield 'FORMULA number', 21, 0, [rec(6, R('d', 18, bits=dict(at, **{}) | {(14, 7): 0}))], [(row, col, None, num, xf2)]
    sp = {13: 255, 14: 255}
    yield 'FORMULA boolean', 21, 0, [rec(6, R('d', 18, sp | {7: 1}, at))], [(row, col, BOOLEAN, B.uint('d', 9, 1), xf2)]
    yield 'FORMULA error', 21, 0, [rec(6, R('d', 18, sp | {7: 2}, at))], [(row, col, ERROR, B.uint('d', 9, 1), xf2)]
    yield 'FORMULA text', 21, 0, [rec(6, R('d', 18, sp | {7: 0}, at)), rec(7, R('s', 4, {0: 3}))], [
        (row, col, TEXT, B.text('s', 1, 3, 'cp1252'), xf2)]
    yield 'NUMBER with the format of an IXFE record', 21, 0, [
        rec(0x44, R('x', 2)), rec(3, R('d', 15, {4: 0x3f}))], [(row, col, None, B.f8('d', 7), B.uint('x', 0))]
    yield 'NUMBER with attribute 63 after unused bits', 21, 0, [
        rec(0x44, R('x', 2)), rec(3, R('d', 15, bits={(4, i): 1 for i in range(6)}))], [
        (row, col, None, B.f8('d', 7), B.uint('x', 0))]
    # what is not a cell
    yield 'embedded chart', 80, 0, [rec(0x809, R('x', 16, {2: u16(0x20)})), rec(0x203, R('y', 14)), EOF,
                                    rec(0x203, R('d', 14))], [(row, col, None, B.f8('d', 6), xf)]
    yield 'unknown record', 80, 0, [rec(0x7fff, R('x', 16)), rec(0x203, R('d', 14))], [
        (row, col, None, B.f8('d', 6), xf)]


def cat(a, b):
    return T('cat2', a, b) if a.args[2] != b.args[2] else B.mktext(a.args[1] + b.args[1], a.args[2])


def normal(v):
    """one form for values that are equal for every input"""
    if isinstance(v, T) and v.op == 'div' and isinstance(v.args[1], K) and isinstance(v.args[1].v, (int, float)):
        a = v.args[0]
        if isinstance(a, T) and a.op == 'float':
            a = a.args[0]
        return T('div', normal(a), K(float(v.args[1].v)))
    if isinstance(v, T) and v.op in ('mul',) and len(v.args) == 2 and K(1.0) in v.args:
        a, b = v.args
        return normal(T('float', b if a == K(1.0) else a))
    if isinstance(v, T) and v.op == 'lin' and len(v.args[0]) == 1 and v.args[0][0][1] == 1.0 and not v.args[1]:
        return normal(T('float', v.args[0][0][0]))
    if isinstance(v, T) and v.op == 'float' and isinstance(v.args[0], T) and v.args[0].op == 'ieee':
        return v.args[0]
    if isinstance(v, T) and v.op == 'concat' and len(v.args) == 2:
        return T('cat2', *v.args)
    return v


KNOWN = {'bits', 'bstr', 'ieee', 'text', 'float', 'div', 'cat2', 'item', 'truthy'}


def judged(v):
    """only operations whose meaning is known here"""
    return all(not isinstance(x, (Unk, Ref)) and (not isinstance(x, T) or x.op in KNOWN) for x in walk(v))


def same(got, want, facts=()):
    """True, False or None"""
    m = B.known_bits(facts)
    got, want = normal(B.fix_bits(got, m)), B.fix_bits(want, m)
    if got == want:
        return True
    ug, uw = B.units(got), B.units(want)
    if ug is not None and uw is not None:
        return ug == uw
    if isinstance(got, K) and isinstance(want, K) and type(got.v) in (int, float, str) and got.v == want.v:
        return True
    if isinstance(got, T) and got.op == 'truthy' and got.args[0] == want:
        return None
    if judged(got) or B.differ(got, want, facts):
        return False
    return None


def check(P, r):
    sc = BiffScene(P, opaque={SHEET + '.put_cell_ragged': put, SHEET + '.put_cell_unragged': put,
                              SHEET + '.put_cell': put})
    tail = rec(0x203, R('z', 14))
    tailcell = (B.uint('z', 0), B.uint('z', 2), None, B.f8('z', 6), B.uint('z', 4))
    xfmap = Sym('xfmap', 'any')
    for sce in scenarios():
        name, bv, fi, recs, want = sce
        name = '%s, BIFF %s' % (name, bv)
        if bv == 21:
            after, aftercell = rec(3, R('z', 15, bits={(4, 5): 0})), (
                B.uint('z', 0), B.uint('z', 2), None, B.f8('z', 7), B.field('z', 4, 0, 4))
        else:
            after, aftercell = tail, tailcell
        with r.obligation(name):
            sc.E.steps = 0
            st = sc.st.copy()
            args = [K(bv), K(fi), stream(list(recs) + [after, EOF]), Sym('sst', 'any'), xfmap, NONE]
            bad, unsure, ok = [], [], 0
            for kind, s, v in sc.run('sheet', args, st):
                r.count('paths')
                cells = s.ghost.get('$cells', Tup([])).items
                if s.taint:
                    unsure.append('a path is not followed exactly: %s' % (sorted(s.taint)[0],))
                    continue
                if kind != 'return':
                    n = getattr(v, 'name', '?')
                    if n == want:
                        ok += 1
                    elif n in SKIP_EXC or getattr(v, 'implicit', False):
                        unsure.append('raises %s at %s' % (n, v.site))
                    elif isinstance(want, str):
                        unsure.append('raises %s instead of %s at %s' % (n, want, v.site))
                    else:
                        bad.append('raises %s at %s' % (n, v.site))
                    continue
                if isinstance(want, str):
                    bad.append('gives cells (%s) instead of raising %s' % (', '.join(B.show(c) for c in cells), want))
                    continue
                exp = list(want) + [aftercell]
                if len(cells) != len(exp):
                    if not cells and stored(sc, s, v):
                        unsure.append('cells are not put by the put_cell methods')
                        continue
                    bad.append('puts %d cells instead of %d' % (len(cells) - 1 if cells else 0, len(want)))
                    continue
                res = [compare_cell(c, e, xfmap, s.facts) for c, e in zip(cells, exp)]
                if any(x and x[0] is False for x in res):
                    bad.append(next(x[1] for x in res if x and x[0] is False))
                elif any(x for x in res):
                    unsure.append(next(x[1] for x in res if x))
                else:
                    ok += 1
            if bad:
                r.viol(name, 'Sheet.read, %s: %s' % (name, bad[0]), where=SHEET + '.read')
            elif unsure:
                r.undecided(name, unsure[0])
            elif not ok:
                r.undecided(name, 'no path')
            else:
                r.ok(name)
                r.count('cells checked', ok)
    r.engine(sc.E)


def stored(sc, s, v):
    if not isinstance(v, Ref) or s.get(v).kind != 'inst':
        return True
    t = s.get(v).attrs.get('_cell_types')
    return not (isinstance(t, Ref) and sc.E.fixed_items(t, s) == [])


def compare_cell(c, e, xfmap, facts=()):
    """None or (False | None, text)"""
    un = None
    for what, got, want in zip(('row', 'column', 'type', 'value', 'format index'), c.items, e):
        if what == 'type' and want is None:
            if got == NONE or got == T('item', xfmap, e[4]):
                continue
            if isinstance(got, K):
                return False, 'the type of a number cell is %s, whatever its format' % B.show(got)
            un = un or (None, 'type %s of a number' % B.show(got))
            continue
        want = want if isinstance(want, V) else K(want)
        x = same(got, want, facts)
        if x is True:
            continue
        t = 'the %s is %s, the record holds it as %s' % (what, B.show(normal(got)), B.show(want))
        if x is False:
            return False, t
        un = un or (None, t)
    return un
