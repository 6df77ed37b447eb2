RULE = """open_workbook_2007_xml is interpreted on whole packages given as parts and element trees: worksheets and other kinds of
sheet in several orders with relationship numbers, sheet numbers and part names out of step, targets relative and absolute and
in another case than the part, hidden sheets, escaped names, dimensions, merged ranges, comments, defined names and document
properties.  On every path the sheets, their order, names, numbers, visibility and first cells, the merged ranges, notes, name
maps and properties must be those of the parts they are declared in."""
TECHNIQUE = 'abstract interpretation of the xlsx package reader on element trees, against a table of packages'
from .common import *       # noqa
from .readscene import *    # noqa
from .biffscene import *    # noqa
from .c27 import MODEL, NS, OD, PK, XlsxScene, X, el, v, t, row, cell, STYLES, SST
from .c34 import run
from .scen import spec

SRC37 = '''
from channelpack.xlrd.xlsx import open_workbook_2007_xml


def sheets(zf, names):
    bk = open_workbook_2007_xml(zf, names)
    return ([(s.name, s.number, s.visibility, s.cell_value(0, 0), s.nrows, s.ncols) for s in bk.sheets()], bk.nsheets,
            bk.sheet_names())


def by_name(zf, names, wanted):
    bk = open_workbook_2007_xml(zf, names)
    return [bk.sheet_by_name(n).cell_value(0, 0) for n in wanted]


def merged(zf, names):
    return [s.merged_cells for s in open_workbook_2007_xml(zf, names).sheets()]


def notes(zf, names):
    return [[(k, n.author, n.text, n.rowx, n.colx) for k, n in sorted(s.cell_note_map.items())]
            for s in open_workbook_2007_xml(zf, names).sheets()]


def defined(zf, names, wanted):
    bk = open_workbook_2007_xml(zf, names)
    return [[(n.name, n.scope, n.formula_text, n.hidden, n.builtin, n.name_index) for n in bk.name_map[w]] for w in wanted]


def scoped(zf, names, wanted):
    bk = open_workbook_2007_xml(zf, names)
    return [bk.name_and_scope_map[w].formula_text for w in wanted]


def properties(zf, names):
    bk = open_workbook_2007_xml(zf, names)
    return (bk.user_name, bk.props)
'''
RT = 'http://schemas.openxmlformats.org/officeDocument/2006/relationships/'
WS, CS, DS = 'worksheet', 'chartsheet', 'dialogsheet'
CP = '{http://schemas.openxmlformats.org/package/2006/metadata/core-properties}'
DC = '{http://purl.org/dc/elements/1.1/}'
DT = '{http://purl.org/dc/terms/}'


class Package(XlsxScene):
    def __init__(self, P):
        XlsxScene.__init__(self, P, [])
        self.E.steps = 0

    def args_of(self, parts):
        """the archive and its component names, for parts given under their own names"""
        st = self.st = self.E.new_state()
        pairs = []
        for n, e in parts.items():
            tr = st.alloc(Inst(self.tree, n))
            root = self.build(e)
            st.mut(tr).attrs['root'] = root
            pairs.append((K(n), tr))
        z = st.alloc(Inst(self.arch, 'archive'))
        st.mut(z).attrs['parts'] = dct(st, pairs)
        names = dct(st, [(K(n.replace('\\', '/').lower()), K(n)) for n in parts])
        st.ghost['$roots'] = Tup([z, names])
        return [z, names]


def rels(*xs):
    return el(PK + 'Relationships', {}, None, *[el(PK + 'Relationship', {'Id': i, 'Type': RT + ty, 'Target': ta})
                                                for i, ty, ta in xs])


def sheetpart(value, *more, **kw):
    rows = kw.get('rows') or [row(1, cell('A1', {}, [v(value)]))]
    return el('worksheet', {}, None, *(list(kw.get('first', ())) + [el('sheetData', {}, None, *rows)] + list(more)))


class S(object):
    def __init__(self, name, rid, target, part=None, typ=WS, state=None, sid=None, value='1', want=None, more=(), **kw):
        self.name, self.rid, self.target, self.typ, self.state, self.sid, self.value = name, rid, target, typ, state, sid, value
        self.part = part or ('xl/' + target if not target.startswith('/') else target[1:])
        self.want, self.more, self.kw = want or name, more, kw


def package(ss, relorder=None, extra=(), wb=(), parts=()):
    order = relorder or range(len(ss))
    out = {'xl/_rels/workbook.xml.rels': rels(*([('rIdT', 'theme', 'theme/theme1.xml')] + [
        (ss[i].rid, ss[i].typ, ss[i].target) for i in order] + list(extra))),
        'xl/workbook.xml': el('workbook', {}, None, *([el('workbookPr', {})] + [el('sheets', {}, None, *[
            el('sheet', dict({'name': s.name, 'sheetId': str(s.sid or i + 1), OD + 'id': s.rid},
                             **({'state': s.state} if s.state else {}))) for i, s in enumerate(ss)])] + list(wb)))}
    for s in ss:
        out[s.part] = sheetpart(s.value, *s.more, **s.kw) if s.typ == WS else el('chartsheet', {}, None)
    out.update(parts)
    ws = [s for s in ss if s.typ == WS]
    vis = {None: 0, 'visible': 0, 'hidden': 1, 'veryHidden': 2}
    want = ([(K(s.want), K(i), K(vis[s.state]), K(float(s.value)), K(1), K(1)) for i, s in enumerate(ws)], K(len(ws)),
            [K(s.want) for s in ws])
    return out, want


def three(order=(0, 1, 2), **kw):
    ss = [S('One', 'rId7', 'worksheets/sheet3.xml', value='10', sid=9), S('Two', 'rId1', 'worksheets/sheet1.xml', value='20', sid=2),
          S('A', 'rId10', 'worksheets/sheet2.xml', value='30', sid=5)]
    return package([ss[i] for i in order], **kw)


def scenarios():
    for order in ((0, 1, 2), (2, 0, 1), (1, 2, 0)):
        for relorder in ((0, 1, 2), (2, 1, 0)):
            p, w = three(order, relorder=relorder)
            yield 'order of sheets', 'sheets', p, [], w
            yield 'sheets by name', 'by_name', p, [Tup([K('A'), K('One'), K('Two')])], [K(30.0), K(10.0), K(20.0)]
            for n in ('one', 'B', 'sheet1'):
                yield 'names of no sheet', 'by_name', p, [Tup([K(n)])], 'XLRDError'
    for typ in (CS, DS, 'xlMacrosheet'):
        for at in (0, 1, 2):
            ss = [S('One', 'rId1', 'worksheets/sheet1.xml', value='10'), S('Two', 'rId2', 'worksheets/sheet2.xml', value='20')]
            ss.insert(at, S('Chart', 'rId5', 'chartsheets/sheet1.xml', typ=typ))
            p, w = package(ss)
            yield 'sheets that are no worksheets', 'sheets', p, [], w
            yield 'sheets that are no worksheets', 'by_name', p, [Tup([K('Two'), K('One')])], [K(20.0), K(10.0)]
            yield 'sheets that are no worksheets', 'by_name', p, [Tup([K('Chart')])], 'XLRDError'
    for tgt, part in (('worksheets/sheet1.xml', 'xl/worksheets/sheet1.xml'), ('/xl/worksheets/sheet1.xml', 'xl/worksheets/sheet1.xml'),
                      ('Worksheets/Sheet1.xml', 'xl/worksheets/sheet1.xml'), ('worksheets/sheet1.xml', 'xl/worksheets/Sheet1.XML'),
                      ('/XL/worksheets/sheet1.xml', 'xl/worksheets/sheet1.xml'), ('worksheets\\sheet1.xml', 'xl\\worksheets\\sheet1.xml'),
                      ('sheets/a.xml', 'xl/sheets/a.xml'), ('/data/a.xml', 'data/a.xml')):
        p, w = package([S('One', 'rId1', tgt, part, value='10'), S('Two', 'rId2', 'worksheets/other.xml', value='20')])
        yield 'targets of sheets', 'sheets', p, [], w
    for state in (None, 'visible', 'hidden', 'veryHidden'):
        p, w = package([S('One', 'rId1', 'worksheets/sheet1.xml', state=state), S('Two', 'rId2', 'worksheets/sheet2.xml', state='hidden')])
        yield 'visibility', 'sheets', p, [], w
    for n, want in (('a_x0041_b', 'aAb'), ('_x00e5_', '\xe5'), ('a_b', 'a_b'), ('a_x41_', 'a_x41_'), (' a ', ' a '),
                    ('a_x0041__x0042_', 'aAB'), ('x0041_', 'x0041_')):
        p, w = package([S(n, 'rId1', 'worksheets/sheet1.xml', want=want)])
        yield 'escaped names', 'sheets', p, [], w
    for s in structure():
        yield s


def structure():
    M = lambda *rs: el('mergeCells', {}, None, *[el('mergeCell', {'ref': x}) for x in rs])
    for refs, want in ((('B1:D5',), [(0, 5, 1, 4)]), (('B3',), [(2, 3, 1, 2)]), (('A1:B1', 'C2:AA10'), [(0, 1, 0, 2), (1, 10, 2, 27)])):
        p, w = package([S('One', 'rId1', 'worksheets/sheet1.xml', more=[M(*refs)]),
                        S('Two', 'rId2', 'worksheets/sheet2.xml', more=[M('E5:F6')])])
        yield 'merged ranges', 'merged', p, [], [[tuple(K(x) for x in m) for m in want], [(K(4), K(6), K(4), K(6))]]

    def note(ref, who, *ch):
        return el('comment', {'ref': ref, 'authorId': str(who)}, None, el('text', {}, None, *ch))
    book = el('comments', {}, None, el('authors', {}, None, el('author', {}, 'Ann'), el('author', {}, 'Bob')), el(
        'commentList', {}, None, note('C2', 1, t('plain')), note('A1', 0, el('r', {}, None, t('x ', True)), el('r', {}, None, t('y')))))
    want = [[((K(0), K(0)), K('Ann'), K('x y'), K(0), K(0)), ((K(1), K(2)), K('Bob'), K('plain'), K(1), K(2))]]
    for tgt, part in (('../comments1.xml', 'xl/comments1.xml'), ('comments1.xml', 'xl/worksheets/comments1.xml'),
                      ('/xl/comments/comment1.xml', 'xl/comments/comment1.xml'), ('../Comments1.xml', 'xl/comments1.xml'),
                      ('../comments1.xml', 'xl/Comments1.xml')):
        for at in (0, 1):
            p, w = package([S('One', 'rId1', 'worksheets/sheet1.xml'), S('Two', 'rId2', 'worksheets/sheet2.xml')],
                           parts={'xl/worksheets/_rels/sheet%d.xml.rels' % (at + 1): rels(
                               ('rId1', 'vmlDrawing', '../drawings/vml.vml'), ('rId2', 'comments', tgt)), part: book})
            yield 'comments', 'notes', p, [], want + [[]] if at == 0 else [[]] + want

    def dn(name, text, **a):
        return el('definedName', dict(name=name, **a), text)
    names = el('definedNames', {}, None, dn('Zeta', 'One!$A$1'), dn('_xlnm.Print_Area', 'One!$A$1:$B$2', localSheetId='0', hidden='1'),
               dn('zeta', 'Two!$B$2', localSheetId='1'), dn('ZETA', 'One!$C$3', localSheetId='0', hidden='true'))
    p, w = package([S('One', 'rId1', 'worksheets/sheet1.xml'), S('Two', 'rId2', 'worksheets/sheet2.xml')], wb=[names])
    yield 'defined names', 'defined', p, [Tup([K('zeta'), K('_xlnm.print_area')])], [
        [(K('Zeta'), K(-1), K('One!$A$1'), K(0), K(0), K(0)), (K('ZETA'), K(0), K('One!$C$3'), K(1), K(0), K(3)),
         (K('zeta'), K(1), K('Two!$B$2'), K(0), K(0), K(2))], [(K('_xlnm.Print_Area'), K(0), K('One!$A$1:$B$2'), K(1), K(1), K(1))]]
    yield 'defined names', 'scoped', p, [Tup([Tup([K('zeta'), K(1)]), Tup([K('zeta'), K(-1)]), Tup([K('zeta'), K(0)])])], [
        K('Two!$B$2'), K('One!$A$1'), K('One!$C$3')]
    for who, last, want in (('Ann', 'Bob', 'Bob'), ('Ann', None, 'Ann'), ('Ann', '', 'Ann')):
        ch = [el(DC + 'creator', {}, who), el(DT + 'created', {}, '2020')]
        if last is not None:
            ch.insert(0, el(CP + 'lastModifiedBy', {}, last))
        p, w = package([S('One', 'rId1', 'worksheets/sheet1.xml')], parts={'docProps/core.xml': el(CP + 'coreProperties', {}, None, *ch)})
        yield 'document properties', 'user', p, [], K(want)
    for dim in ('A1', 'A1:Z9', 'B2:C3'):
        rows = [row(2, cell('B2', {}, [v('7')])), row(4, cell('D4', {}, [v('8')]))]
        p, w = package([S('One', 'rId1', 'worksheets/sheet1.xml', first=[el('dimension', {'ref': dim})], rows=rows)])
        yield 'dimensions', 'grid', p, [], [(K(1), K(1), K(7.0)), (K(3), K(3), K(8.0))]


SRC37 += '''

def user(zf, names):
    return open_workbook_2007_xml(zf, names).user_name


def grid(zf, names):
    s = open_workbook_2007_xml(zf, names).sheet_by_index(0)
    out = []
    for i in range(4):
        for j in range(4):
            if s.cell_type(i, j):
                out.append((i, j, s.cell_value(i, j)))
    return out
'''


def check(P, r):
    if 'verif_xml' not in P.modules:
        spec(P, MODEL, 'verif_xml')
    if 'verif_c37' not in P.modules:
        spec(P, SRC37, 'verif_c37')
    P.func(X + '.open_workbook_2007_xml')
    sc = Package(P)
    groups = {}
    for g, fn, parts, more, want in scenarios():
        groups.setdefault(g, []).append((fn, parts, more, want))
    for g, todo in groups.items():
        with r.obligation(g):
            # one report for the group
            bad = len(r.violations)
            for fn, parts, more, want in todo:
                a = sc.args_of(parts)
                run(r, sc, g, [(fn, a + more, want)], 'verif_c37.', X)
                if len(r.violations) > bad:
                    break
    r.engine(sc.E)
