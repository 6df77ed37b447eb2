RULE = """handle_xf and the sheet reader are interpreted over records of symbolic bytes, one per record kind and BIFF version, with
every byte tracked bit by bit through unpack, masks and shifts.  Every attribute of the resulting format, row, column, window,
pane, page break and object data must be exactly the bits of the record layout table, in order, unsigned, shifted down to bit 0;
an attribute the version lacks must be its documented default.  Attributes chosen by a case on some bits (orientation, BIFF2
borders, rows without a default format) are checked in every case."""
TECHNIQUE = 'abstract interpretation of the record handlers over bit-level symbolic records, against a table of record layouts'
from .common import *       # noqa
from .biffscene import *    # noqa
from .c31 import same

FLAGS = ('format', 'font', 'alignment', 'border', 'background', 'protection')
SIDES = ('left', 'right', 'top', 'bottom')
ZERO = {'alignment.indent_level': 0, 'alignment.shrink_to_fit': 0, 'alignment.text_direction': 0, 'border.diag_up': 0,
        'border.diag_down': 0, 'border.diag_colour_index': 0, 'border.diag_line_style': 0}


def f(off, lo, hi=None):
    return B.field('d', off, lo, lo if hi is None else hi)


def u(off, n=2):
    return B.uint('d', off, n)


def type_par(off):
    return {'protection.cell_locked': f(off, 0), 'protection.formula_hidden': f(off, 1), 'is_style': f(off, 2),
            'lotus_123_prefix': f(off, 3)}


def used(off):
    return {'_%s_flag' % s: f(off, 2 + i) for i, s in enumerate(FLAGS)}


def bkg34(off):
    return {'background.fill_pattern': f(off, 0, 5), 'background.pattern_colour_index': f(off, 6, 10),
            'background.background_colour_index': f(off, 11, 15)}


def brd34(off):
    d = {}
    for i, s in enumerate(('top', 'left', 'bottom', 'right')):
        d['border.%s_line_style' % s] = f(off, 8 * i, 8 * i + 2)
        d['border.%s_colour_index' % s] = f(off, 8 * i + 3, 8 * i + 7)
    return d


def xf_cases():
    """(name, version, record, attributes)"""
    w = {'font_index': u(0), 'format_key': u(2), 'parent_style_index': f(4, 4, 15),
         'alignment.hor_align': f(6, 0, 2), 'alignment.text_wrapped': f(6, 3), 'alignment.vert_align': f(6, 4, 6),
         'alignment.rotation': u(7, 1), 'alignment.indent_level': f(8, 0, 3), 'alignment.shrink_to_fit': f(8, 4),
         'alignment.text_direction': f(8, 6, 7), 'border.left_line_style': f(10, 0, 3),
         'border.right_line_style': f(10, 4, 7), 'border.top_line_style': f(10, 8, 11),
         'border.bottom_line_style': f(10, 12, 15), 'border.left_colour_index': f(10, 16, 22),
         'border.right_colour_index': f(10, 23, 29), 'border.diag_down': f(10, 30), 'border.diag_up': f(10, 31),
         'border.top_colour_index': f(14, 0, 6), 'border.bottom_colour_index': f(14, 7, 13),
         'border.diag_colour_index': f(14, 14, 20), 'border.diag_line_style': f(14, 21, 24),
         'background.fill_pattern': f(14, 26, 31), 'background.pattern_colour_index': f(18, 0, 6),
         'background.background_colour_index': f(18, 7, 13)}
    w.update(type_par(4), **used(9))
    yield 'XF', 80, R('d', 20), w
    for o, rot in enumerate((0, 255, 90, 180)):
        w = dict(ZERO)
        w.update({'font_index': u(0), 'format_key': u(2), 'parent_style_index': f(4, 4, 15),
                  'alignment.hor_align': f(6, 0, 2), 'alignment.text_wrapped': f(6, 3), 'alignment.vert_align': f(6, 4, 6),
                  'alignment.rotation': rot, 'background.pattern_colour_index': f(8, 0, 6),
                  'background.background_colour_index': f(8, 7, 13), 'background.fill_pattern': f(8, 16, 21),
                  'border.bottom_line_style': f(8, 22, 24), 'border.bottom_colour_index': f(8, 25, 31),
                  'border.top_line_style': f(12, 0, 2), 'border.left_line_style': f(12, 3, 5),
                  'border.right_line_style': f(12, 6, 8), 'border.top_colour_index': f(12, 9, 15),
                  'border.left_colour_index': f(12, 16, 22), 'border.right_colour_index': f(12, 23, 29)})
        w.update(type_par(4), **used(7))
        yield 'XF, orientation %d' % o, 50, R('d', 16, bits={(7, 0): o & 1, (7, 1): o >> 1}), w
        w = dict(ZERO)
        w.update({'font_index': u(0, 1), 'format_key': u(1, 1), 'parent_style_index': f(2, 4, 15),
                  'alignment.hor_align': f(4, 0, 2), 'alignment.text_wrapped': f(4, 3), 'alignment.vert_align': f(4, 4, 5),
                  'alignment.rotation': rot})
        for x in type_par(2), used(5), bkg34(6), brd34(8):
            w.update(x)
        yield 'XF, orientation %d' % o, 40, R('d', 12, bits={(4, 6): o & 1, (4, 7): o >> 1}), w
    w = dict(ZERO)
    w.update({'font_index': u(0, 1), 'format_key': u(1, 1), 'parent_style_index': f(4, 4, 15),
              'alignment.hor_align': f(4, 0, 2), 'alignment.text_wrapped': f(4, 3), 'alignment.vert_align': 2,
              'alignment.rotation': 0})
    for x in type_par(2), used(3), bkg34(6), brd34(8):
        w.update(x)
    yield 'XF', 30, R('d', 12), w
    for on in (0, 0xf8, 0x08, 0x10, 0x20, 0x40, 0x80):
        w = dict(ZERO)
        w.update({'font_index': u(0, 1), 'format_key': f(2, 0, 5), 'protection.cell_locked': f(2, 6),
                  'protection.formula_hidden': f(2, 7), 'alignment.hor_align': f(3, 0, 2), 'parent_style_index': 0,
                  'alignment.vert_align': 2, 'alignment.rotation': 0,
                  'background.fill_pattern': 17 if on & 0x80 else 0, 'background.background_colour_index': 9,
                  'background.pattern_colour_index': 8})
        for i, s in enumerate(SIDES):
            w['border.%s_line_style' % s] = 1 if on & (8 << i) else 0
            w['border.%s_colour_index' % s] = 8 if on & (8 << i) else 0
        w.update(('_%s_flag' % s, 1) for s in FLAGS)
        yield 'XF, border and fill bits %02x' % on, 21, R('d', 4, bits={(3, i): (on >> i) & 1 for i in range(3, 8)}), w


WINDOW2 = ('show_formulas', 'show_grid_lines', 'show_sheet_headers', 'panes_are_frozen', 'show_zero_values',
           'automatic_grid_line_colour', 'columns_from_right_to_left', 'show_outline_symbols',
           'remove_splits_if_pane_freeze_is_removed', 'sheet_selected', 'sheet_visible', 'show_in_page_break_preview')
WINDOW2_DEF = dict(zip(WINDOW2, (0, 1, 1, 0, 1, 1, 0, 1, 0, 0, 0, 0)))


def row(off=None, lab='d', **kw):
    g = lambda o, lo, hi=None: B.field(lab, o, lo, lo if hi is None else hi)
    d = {'height': g(6, 0, 14), 'has_default_height': g(6, 15), 'outline_level': g(12, 0, 2),
         'outline_group_starts_ends': g(12, 4), 'hidden': g(12, 5), 'height_mismatch': g(12, 6),
         'has_default_xf_index': 1, 'xf_index': g(12, 16, 27), 'additional_space_above': g(12, 28),
         'additional_space_below': g(12, 29)}
    d.update(kw)
    return d


def sheet_cases():
    """(name, version, records, attributes); 'map[key].attr' looks into a dict, 'list' against a list of values"""
    for bv in (80, 50, 40, 30):
        for on in (1, 0):
            x = {'has_default_xf_index': on}
            if not on:
                x['xf_index'] = -1
            yield 'ROW with%s default format' % ('' if on else 'out'), bv, [
                rec(0x208, R('d', 16, {0: u16(5)}, {(12, 7): on}))], {
                'rowinfo_map[5].' + k: v for k, v in row(**x).items()}
    w = {'rowinfo_map[5].' + k: v for k, v in row().items()}
    w.update(('rowinfo_map[7].' + k, v) for k, v in row(lab='e', has_default_xf_index=0, xf_index=-1).items())
    yield 'two ROW records', 80, [rec(0x208, R('d', 16, {0: u16(5)}, {(12, 7): 1})),
                                  rec(0x208, R('e', 16, {0: u16(7)}, {(12, 7): 0}))], w
    w = {'rowinfo_map[5].' + k: v for k, v in row().items()}
    w.update(('rowinfo_map[6].' + k, v) for k, v in row().items())
    yield 'two rows of the same format', 80, [rec(0x208, R('d', 16, {0: u16(5)}, {(12, 7): 1})),
                                              rec(0x208, R('d', 16, {0: u16(6)}, {(12, 7): 1}))], w
    same_bits = {12: b'\x80\x00\x12\x00'}
    yield 'two rows that differ in the height only', 80, [
        rec(0x208, R('d', 16, same_bits | {0: u16(5), 6: u16(300)})),
        rec(0x208, R('e', 16, same_bits | {0: u16(7), 6: u16(0x8100)}))], {
        'rowinfo_map[5].height': 300, 'rowinfo_map[7].height': 256, 'rowinfo_map[5].has_default_height': 0,
        'rowinfo_map[7].has_default_height': 1, 'rowinfo_map[5].xf_index': 18, 'rowinfo_map[7].xf_index': 18}
    same_bits = {6: u16(300)}
    yield 'two rows that differ in the options only', 80, [
        rec(0x208, R('d', 16, same_bits | {0: u16(5), 12: b'\x80\x00\x12\x00'})),
        rec(0x208, R('e', 16, same_bits | {0: u16(7), 12: b'\xa0\x00\x13\x00'}))], {
        'rowinfo_map[5].height': 300, 'rowinfo_map[7].height': 300, 'rowinfo_map[5].hidden': 0,
        'rowinfo_map[7].hidden': 1, 'rowinfo_map[5].xf_index': 18, 'rowinfo_map[7].xf_index': 19}
    fields = [('height', 6, 0x7fff, 0), ('has_default_height', 6, 0x8000, 15), ('outline_level', 12, 7, 0),
              ('outline_group_starts_ends', 12, 0x10, 4), ('hidden', 12, 0x20, 5), ('height_mismatch', 12, 0x40, 6),
              ('xf_index', 12, 0x0fff0000, 16), ('additional_space_above', 12, 1 << 28, 28),
              ('additional_space_below', 12, 1 << 29, 29)]
    for nm, off, mask, sh in fields:
        # the whole field is on in the second row, nothing else differs
        base = {6: 0, 12: 0x80}
        two = dict(base)
        two[off] |= mask
        enc = lambda d: {6: u16(d[6]), 12: d[12].to_bytes(4, 'little')}
        w = {}
        for rw, d in ((5, base), (7, two)):
            for n2, o2, m2, s2 in fields:
                w['rowinfo_map[%d].%s' % (rw, n2)] = (d[o2] & m2) >> s2
        yield 'two rows that differ in %s only' % nm, 80, [
            rec(0x208, R('d', 16, {0: u16(5), **enc(base)})), rec(0x208, R('e', 16, {0: u16(7), **enc(two)}))], w
    for a, b in ((3, 5), (0, 0), (255, 256), (250, 250)):
        w = {}
        for c in range(a, min(b, 255) + 1):
            w.update({'colinfo_map[%d].%s' % (c, k): v for k, v in {
                'width': u(4), 'xf_index': u(6), 'hidden': f(8, 0), 'bit1_flag': f(8, 1), 'outline_level': f(8, 8, 10),
                'collapsed': f(8, 12)}.items()})
        w['#colinfo_map'] = list(range(a, min(b, 255) + 1))
        for bv in (80, 30):
            yield 'COLINFO for columns %d to %d' % (a, b), bv, [rec(0x7d, R('d', 12, {0: u16(a), 2: u16(b)}))], w
    yield 'COLINFO with the last column before the first', 80, [rec(0x7d, R('d', 12, {0: u16(5), 2: u16(4)}))], {
        '#colinfo_map': []}
    yield 'DEFCOLWIDTH', 80, [rec(0x55, R('d', 2))], {'defcolwidth': u(0)}
    yield 'STANDARDWIDTH', 80, [rec(0x99, R('d', 2))], {'standardwidth': u(0)}
    yield 'GCW', 80, [rec(0xab, R('d', 34, {0: u16(32)}))], {
        'gcw': [B.field('d', 2 + i // 8, i % 8, i % 8) for i in range(256)]}
    for bv in (80, 50, 30):
        yield 'DEFAULTROWHEIGHT', bv, [rec(0x225, R('d', 4))], {
            'default_row_height': u(2), 'default_row_height_mismatch': f(0, 0), 'default_row_hidden': f(0, 1),
            'default_additional_space_above': f(0, 2), 'default_additional_space_below': f(0, 3)}
    yield 'DEFAULTROWHEIGHT of two bytes', 80, [rec(0x225, R('d', 2))], {
        'default_row_height': u(0), 'default_row_height_mismatch': 0, 'default_row_hidden': 0,
        'default_additional_space_above': 0, 'default_additional_space_below': 0}
    for n in (0, 1, 2):
        yield 'MERGEDCELLS of %d ranges' % n, 80, [rec(0xe5, R('d', 2 + 8 * n, {0: u16(n)}))], {
            'merged_cells': [(u(2 + 8 * i), ('+1', u(4 + 8 * i)), u(6 + 8 * i), ('+1', u(8 + 8 * i))) for i in range(n)]}
    opts = {a: f(0, i) for i, a in enumerate(WINDOW2)}
    for n in (14, 18):
        yield 'WINDOW2 of %d bytes' % n, 80, [rec(0x23e, R('d', n))], dict(
            opts, first_visible_rowx=u(2), first_visible_colx=u(4), gridline_colour_index=u(6),
            cached_page_break_preview_mag_factor=u(10), cached_normal_view_mag_factor=u(12))
    for bv, n in ((80, 10), (50, 10), (40, 10), (30, 10)):
        yield 'WINDOW2 of %d bytes' % n, bv, [rec(0x23e, R('d', n, {6: 1, 7: 2, 8: 3}))], dict(
            opts, first_visible_rowx=u(2), first_visible_colx=u(4), gridline_colour_rgb=[1, 2, 3])
    yield 'no WINDOW2', 80, [], dict(WINDOW2_DEF, first_visible_rowx=0, first_visible_colx=0, gridline_colour_index=64)
    for on in (0, 1, 2, 4, 8, 16, 31):
        w = {a: (on >> i) & 1 for i, a in enumerate(WINDOW2[:5])}
        w.update(first_visible_rowx=u(5), first_visible_colx=u(7), automatic_grid_line_colour=u(9, 1),
                 gridline_colour_rgb=[1, 2, 3])
        yield 'WINDOW2 of BIFF2, options %02x' % on, 21, [rec(0x3e, R('d', 14, dict(
            [(i, (on >> i) & 1) for i in range(5)] + [(10, 1), (11, 2), (12, 3), (13, 0)])))], w
    for bv in (80, 50, 30, 21):
        yield 'PANE', bv, [rec(0x41, R('d', 10))], {
            'vert_split_pos': u(0), 'horz_split_pos': u(2), 'horz_split_first_visible': u(4),
            'vert_split_first_visible': u(6), 'split_active_pane': u(8, 1), 'has_pane_record': 1}
    for rc, a, last in ((0x1b, 'horizontal_page_breaks', 255), (0x1a, 'vertical_page_breaks', 65535)):
        for n in (0, 1, 2):
            yield '%s of %d' % (a, n), 80, [rec(rc, R('d', 2 + 6 * n, {0: u16(n)}))], {
                a: [(u(2 + 6 * i), u(4 + 6 * i), u(6 + 6 * i)) for i in range(n)]}
            yield '%s of %d' % (a, n), 50, [rec(rc, R('d', 2 + 2 * n, {0: u16(n)}))], {
                a: [(u(2 + 2 * i), 0, last) for i in range(n)]}
    # BIFF 2
    base = {'height': f(6, 0, 14), 'has_default_height': f(6, 15)}
    for n, on, x in ((13, 0, -1), (16, 1, B.field('d', 13, 0, 5)), (18, 1, u(16))):
        bits = {(10, 0): on, (13, 5): 0} if n == 16 else {(10, 0): on}
        if n == 16:
            x = B.field('d', 13, 0, 4)
        if n == 18:
            x = 0x107
        w = dict(base, has_default_xf_index=on, xf_index=x)
        yield 'ROW of %d bytes' % n, 21, [rec(8, R('d', n, {0: u16(5), 16: u16(0x107)} if n == 18 else {0: u16(5)}, bits))], {
            'rowinfo_map[5].' + k: v for k, v in w.items()}
    for hs, xs in (((300, 301), (1, 1)), ((300, 300), (1, 2)), ((300, 300), (2, 1))):
        yield 'two ROW records of heights %d, %d and formats %d, %d' % (hs + xs), 21, [
            rec(8, R('d', 18, {0: u16(5), 6: u16(hs[0]), 10: 1, 16: u16(xs[0])})),
            rec(8, R('e', 18, {0: u16(6), 6: u16(hs[1]), 10: 1, 16: u16(xs[1])}))], {
            'rowinfo_map[%d].%s' % (5 + i, k): v for i in (0, 1) for k, v in (('height', hs[i]), ('xf_index', xs[i]))}
    yield 'COLWIDTH', 21, [rec(0x24, R('d', 4, {0: 3, 1: 5}))], dict(
        {'colinfo_map[%d].width' % c: u(2) for c in (3, 4, 5)}, **{'#colinfo_map': [3, 4, 5]})
    yield 'COLWIDTH of one column', 21, [rec(0x24, R('d', 4, {0: 255, 1: 255}))], {
        'colinfo_map[255].width': u(2), '#colinfo_map': [255]}
    at = {(o, 5): 0 for o in (4, 7)}
    yield 'COLUMNDEFAULT', 21, [rec(0x20, R('d', 12, {0: u16(3), 2: u16(5)}, at))], dict(
        {'colinfo_map[%d].xf_index' % c: B.field('d', o, 0, 4) for c, o in ((3, 4), (4, 7))}, **{'#colinfo_map': [3, 4]})
    yield 'COLUMNDEFAULT and COLWIDTH', 21, [rec(0x20, R('d', 9, {0: u16(3), 2: u16(4)}, {(4, 5): 0})),
                                             rec(0x24, R('e', 4, {0: 3, 1: 4}))], {
        'colinfo_map[3].xf_index': B.field('d', 4, 0, 4), 'colinfo_map[3].width': B.uint('e', 2),
        'colinfo_map[4].width': B.uint('e', 2), '#colinfo_map': [3, 4]}


def obj_cases():
    yield 'OBJ', 'obj', R('d', 26, {0: u16(0x15), 2: u16(18), 22: b'\0\0\0\0'}), [], {
        'type': u(4), 'id': u(6), 'locked': f(8, 0), 'printable': f(8, 4), 'autofilter': f(8, 8), 'scrollbar_flag': f(8, 9),
        'autofill': f(8, 13), 'autoline': f(8, 14)}
    yield 'OBJ with a scroll bar', 'obj', R('d', 22 + 24, {0: u16(0x15), 2: u16(18), 22: u16(0xc), 24: u16(20)}), [], {
        'type': u(4), 'id': u(6), 'scrollbar_value': u(30), 'scrollbar_min': u(32), 'scrollbar_max': u(34),
        'scrollbar_inc': u(36), 'scrollbar_page': u(38)}
    opt = {'horz_align': f(0, 1, 3), 'vert_align': f(0, 4, 6), 'lock_text': f(0, 9), 'just_last': f(0, 14),
           'secret_edit': f(0, 15), 'rot': u(2), 'ifntEmpty': u(14)}
    yield 'TXO without text', 'txo', R('d', 16, {10: u16(0), 12: u16(0)}), [], dict(
        opt, text='', rich_text_runlist=[])
    yield 'TXO', 'txo', R('d', 16, {10: u16(3), 12: u16(16)}), [
        rec(0x3c, R('s', 4, {0: 0})), rec(0x3c, R('t', 16, {0: u16(0), 8: u16(3)}))], dict(
        opt, text=B.text('s', 1, 3, 'latin-1'), rich_text_runlist=[(0, B.uint('t', 2))])
    yield 'TXO of wide text', 'txo', R('d', 16, {10: u16(3), 12: u16(16)}), [
        rec(0x3c, R('s', 7, {0: 1})), rec(0x3c, R('t', 16, {0: u16(0), 8: u16(2)}))], dict(
        opt, text=B.text('s', 1, 6, 'utf-16-le'), rich_text_runlist=[(0, B.uint('t', 2)), (2, B.uint('t', 10))])
    yield 'TXO with text in two records', 'txo', R('d', 16, {10: u16(5), 12: u16(8)}), [
        rec(0x3c, R('s', 3, {0: 0})), rec(0x3c, R('v', 4, {0: 0})), rec(0x3c, R('t', 8, {0: u16(1)}))], dict(
        opt, text=B.mktext(B.text('s', 1, 2, 'latin-1').args[1] + B.text('v', 1, 3, 'latin-1').args[1], B.text('s', 1, 2, 'latin-1').args[2]),
        rich_text_runlist=[(1, B.uint('t', 2))])


MISSING = object()


def attr(E, s, o, name):
    """the value of a possibly dotted attribute, an exceptional MISSING, or None when not followed"""
    for part in name.split('.'):
        key = None
        if part.endswith(']'):
            part, key = part[:-1].split('[')
        if not isinstance(o, Ref) or getattr(s.get(o), 'kind', None) != 'inst' and not hasattr(s.get(o), 'attrs'):
            return None
        x = s.get(o)
        if part in x.attrs:
            o = x.attrs[part]
        else:
            o = class_attr(E, s, x, part)
            if o is None or o is MISSING:
                return o
        if key is not None:
            d = entries(s, o)
            if d is None:
                return None
            if int(key) not in d:
                return MISSING
            o = d[int(key)]
    return o


def class_attr(E, s, x, name):
    try:
        if name not in x.cls.attrs:
            return None
        return E.class_attr(x.cls, name, s)
    except AttributeError:
        return None


def entries(s, o):
    if not isinstance(o, Ref) or not isinstance(s.get(o), DictObj):
        return None
    d = s.get(o)
    if d.base is not None or any(e[0] != 'one' or not isinstance(e[1], K) for e in d.ents):
        return None
    return {e[1].v: e[2] for e in d.ents}


def values(E, s, got, want, facts):
    """None (equal), (False | None, text)"""
    if isinstance(want, (list, tuple)) and want and want[0] == '+1' and isinstance(want, tuple):
        w = T('lin', ((want[1], 1),), 1)
        if got == w or isinstance(got, T) and got.op in ('lin', 'add') and not B.differ(got, w, facts) and not isinstance(got, K):
            return None
        if isinstance(got, V) and (isinstance(got, K) or B.differ(got, w, facts) or got == want[1]):
            return False, '%s instead of %s + 1' % (B.show(got), B.show(want[1]))
        return None if not isinstance(got, V) else (None, B.show(got))
    if isinstance(want, (list, tuple)):
        items = E.fixed_items(got, s) if isinstance(got, (Ref, Tup, K)) else None
        if items is None:
            return None, 'not followed'
        if len(items) != len(want):
            return False, '%d entries instead of %d' % (len(items), len(want))
        un = None
        for i, (g, w) in enumerate(zip(items, want)):
            x = values(E, s, g, w, facts)
            if x and x[0] is False:
                return False, 'entry %d: %s' % (i, x[1])
            un = un or x
        return un
    want = want if isinstance(want, V) else K(want)
    x = same(got, want, facts)
    if x is True:
        return None
    return x, '%s instead of %s' % (B.show(got), B.show(want))


def judge(r, sc, name, outs, want, where, key=lambda s, v: v, alt={}):
    bad, unsure, ok = [], [], 0
    hit = set()
    for kind, s, v in outs:
        r.count('paths')
        if s.taint:
            unsure.append('a path is not followed exactly: %s' % (sorted(s.taint)[0],))
            continue
        if kind != 'return':
            if v.name in SKIP_EXC or v.implicit:
                unsure.append('raises %s at %s' % (v.name, v.site))
            else:
                bad.append('raises %s at %s' % (v.name, v.site))
            continue
        fine = True
        for a, w in want.items():
            if a.startswith('#'):
                d = entries(s, attr(sc.E, s, v, a[1:]))
                if d is None:
                    unsure.append('%s is not followed' % a[1:])
                    fine = False
                elif sorted(d) != sorted(w):
                    bad.append('%s has the keys %s instead of %s' % (a[1:], sorted(d), w))
                continue
            g = attr(sc.E, s, v, a)
            if g is None:
                unsure.append('%s is not followed' % a)
                fine = False
                continue
            if g is MISSING:
                bad.append('%s is missing' % a)
                continue
            if a in alt and g == alt[a]:
                continue
            x = values(sc.E, s, g, w, s.facts)
            if x is None:
                hit.add(a)
                continue
            fine = False
            (bad if x[0] is False else unsure).append('%s is %s' % (a, x[1]))
        ok += fine
    for a in alt:
        if a not in hit and not unsure and not bad:
            bad.append('%s is never taken from the record' % a)
    if bad:
        r.viol(name, '%s: %s' % (name, bad[0]), where=where)
    elif unsure:
        r.undecided(name, unsure[0])
    elif not ok:
        r.undecided(name, 'no path')
    else:
        r.ok(name)
        r.count('attributes', len(want))


def check(P, r):
    sc = BiffScene(P, opaque={SHEET + '.tidy_dimensions': lambda E, st, b: [(st, NONE)]})
    sc.E.unroll = 40
    for name, bv, data, want in xf_cases():
        name = '%s, BIFF %d' % (name, bv)
        with r.obligation(name):
            sc.E.steps = 0
            judge(r, sc, name, sc.run('xf', [K(bv), Sym('fmtmap', 'dict'), data]), want, XL + '.formatting.handle_xf',
                  alt={'format_key': K(0)})
    for name, bv, recs, want in sheet_cases():
        name = '%s, BIFF %d' % (name, bv)
        with r.obligation(name):
            sc.E.steps = 0
            args = [K(bv), K(1), stream(list(recs) + [EOF]), Sym('sst', 'any'), Sym('xfmap', 'any'), NONE]
            judge(r, sc, name, sc.run('sheet', args), want, SHEET + '.read')
    for name, what, data, recs, want in obj_cases():
        with r.obligation(name):
            sc.E.steps = 0
            judge(r, sc, name, sc.run(what, [data, stream(list(recs) + [EOF])]), want, SHEET + '.handle_' + what)
    r.engine(sc.E)
