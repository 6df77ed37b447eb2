RULE = """open_workbook_2007_xml is interpreted on workbooks given as element trees (the zip archive and the XML parser are
modelled: parts, end events in document order, elements with attributes, text and children).  For every cell type attribute,
with every arrangement of its child elements (value, formula, inline text, none, unknown) and every text the type
distinguishes, the cell found in the sheet's stores must have the type and the value of the rule's table at its own row and
column, cells without a value must be left out, and unknown types, children, booleans, error texts and contradicting
references must raise.  Numbers are dates exactly when their cell format's number format is a date format; the 1904 flag
gives the workbook's date system for every spelling of an XML boolean."""
TECHNIQUE = 'abstract interpretation of the xlsx reader on symbolic documents against a cell type table'
from .common import *       # noqa
from .readscene import *    # noqa

X = XL + '.xlsx'
NS = '{http://schemas.openxmlformats.org/spreadsheetml/2006/main}'
OD = '{http://schemas.openxmlformats.org/officeDocument/2006/relationships}'
PK = '{http://schemas.openxmlformats.org/package/2006/relationships}'
SPACE = '{http://www.w3.org/XML/1998/namespace}space'
MODEL = '''
class Elem(object):
    def get(self, key, default=None):
        return self.attrib.get(key, default)

    def items(self):
        return self.attrib.items()

    def keys(self):
        return self.attrib.keys()

    def __iter__(self):
        return iter(self.children)

    def __len__(self):
        return len(self.children)

    def __getitem__(self, i):
        return self.children[i]

    def iter(self, tag=None):
        out = [self] if tag is None or self.tag == tag else []
        for c in self.children:
            out.extend(c.iter(tag))
        return out

    def findall(self, path):
        found = [self]
        for part in path.replace('./', '').split('/{'):
            part = part if part.startswith('{') else '{' + part
            below = []
            for e in found:
                for c in e.children:
                    if c.tag == part:
                        below.append(c)
            found = below
        return found

    def find(self, path):
        for e in self.findall(path):
            return e
        return None

    def findtext(self, path, default=None):
        for e in self.findall(path):
            return e.text or ''
        return default

    def iterfind(self, path):
        return self.findall(path)

    def clear(self):
        self.children = []
        self.attrib = {}
        self.text = None


class Tree(object):
    def getroot(self):
        return self.root

    def iter(self, tag=None):
        return self.root.iter(tag)

    def findall(self, path):
        return self.root.findall(path)

    def find(self, path):
        return self.root.find(path)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None


class Archive(object):
    def open(self, name, mode='r'):
        return self.parts[name]

    def namelist(self):
        return list(self.parts)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None
'''


def el(tag, attrib=None, text=None, *children):
    return (tag if tag.startswith('{') else NS + tag, dict(attrib or {}), text, list(children))


def v(text=None, **a):
    return el('v', a, text)


def f():
    return el('f', {}, 'A1+1')


def t(text, preserve=False):
    return el('t', {SPACE: 'preserve'} if preserve else {}, text)


def is_(*ch):
    return el('is', {}, None, *ch)


def run_(text):
    return el('r', {}, None, el('rPr'), t(text))


NUM, TXT, DATE, BOOL, ERR = 2, 1, 3, 4, 5
NONEXT = 'no cell'
RAISE = 'raise'
ERRS = {'#NULL!': 0, '#DIV/0!': 7, '#VALUE!': 0xf, '#REF!': 0x17, '#NAME?': 0x1d, '#NUM!': 0x24, '#N/A': 0x2a}
SST = [('a', [t('a')]), ('', [t(None)]), ('second', [t('second')]), ('rich text', [run_('rich '[:4]), el('r', {}, None, t(' text', True))]),
       ('', []), ('base', [t('base'), el('rPh', {}, None, t('reading'))]), ('last', [t(' last ')]), (' kept ', [t(' kept ', True)])]


def cases():
    """(name, attributes, children, expected)"""
    bad = el('zz', {}, 'x')
    out = []
    for ty in (None, 'n'):
        a = {} if ty is None else {'t': ty}
        out += [('number', a, [v('1.5')], (NUM, 1.5)), ('number after formula', a, [f(), v('-2')], (NUM, -2.0)),
                ('number before formula', a, [v('3e5'), f()], (NUM, 3e5)), ('zero', a, [v('0')], (NUM, 0.0)),
                ('no value', a, [], NONEXT), ('empty value', a, [v(None)], NONEXT), ('only formula', a, [f()], NONEXT),
                ('unknown child', a, [bad], RAISE), ('unknown child after value', a, [v('1'), bad], RAISE),
                ('date style', dict(a, s='1'), [v('40000')], (DATE, 40000.0)),
                ('date style 22', dict(a, s='2'), [v('40000')], (DATE, 40000.0)),
                ('time style 45', dict(a, s='3'), [v('0.5')], (DATE, 0.5)),
                ('custom date style', dict(a, s='4'), [v('0')], (DATE, 0.0)),
                ('custom number style', dict(a, s='5'), [v('7')], (NUM, 7.0)),
                ('number style 2', dict(a, s='6'), [v('7')], (NUM, 7.0)),
                ('style 23', dict(a, s='7'), [v('7')], (NUM, 7.0)), ('style 13', dict(a, s='8'), [v('7')], (NUM, 7.0)),
                ('style 47', dict(a, s='9'), [v('7')], (DATE, 7.0)), ('style 0', dict(a, s='0'), [v('7')], (NUM, 7.0)),
                ('style 14 without date', dict(a, s='1'), [], NONEXT)]
    for i, (text, _) in enumerate(SST):
        out.append(('shared text %d' % i, {'t': 's'}, [v(str(i))], (TXT, text)))
    out += [('shared text with formula', {'t': 's'}, [f(), v('2')], (TXT, 'second')),
            ('shared text, date style', {'t': 's', 's': '1'}, [v('2')], (TXT, 'second')),
            ('shared text without value', {'t': 's'}, [], NONEXT), ('shared text, unknown child', {'t': 's'}, [v('1'), bad], RAISE),
            ('shared text, out of table', {'t': 's'}, [v('99')], RAISE)]
    out += [('formula text', {'t': 'str'}, [f(), v('abc')], (TXT, 'abc')), ('formula text alone', {'t': 'str'}, [v('abc')], (TXT, 'abc')),
            ('formula text with blanks', {'t': 'str'}, [v(' a b ')], (TXT, 'a b')),
            ('formula text preserved', {'t': 'str'}, [el('v', {SPACE: 'preserve'}, ' a ')], (TXT, ' a ')),
            ('formula text, default space', {'t': 'str'}, [el('v', {SPACE: 'default'}, ' a ')], (TXT, 'a')),
            ('formula text, other attribute', {'t': 'str'}, [el('v', {'space': 'preserve'}, ' a ')], (TXT, 'a')),
            ('formula text like a number', {'t': 'str'}, [f(), v('12')], (TXT, '12')),
            ('formula text empty', {'t': 'str'}, [f(), v(None)], (TXT, '')),
            ('formula text, unknown child', {'t': 'str'}, [v('a'), bad], RAISE)]
    for text, b in (('1', 1), ('0', 0), ('true', 1), ('false', 0)):
        out += [('boolean %s' % text, {'t': 'b'}, [v(text)], (BOOL, b)),
                ('boolean %s with formula' % text, {'t': 'b'}, [f(), v(text)], (BOOL, b))]
    out += [('boolean other', {'t': 'b'}, [v('2')], RAISE), ('boolean, unknown child', {'t': 'b'}, [v('1'), bad], RAISE),
            ('boolean, date style', {'t': 'b', 's': '1'}, [v('1')], (BOOL, 1))]
    for text, c in ERRS.items():
        out += [('error %s' % text, {'t': 'e'}, [v(text)], (ERR, c)), ('error %s with formula' % text, {'t': 'e'}, [v(text), f()], (ERR, c))]
    out += [('error without value', {'t': 'e'}, [], (ERR, 0x2a)), ('error of unknown text', {'t': 'e'}, [v('#WHAT!')], RAISE),
            ('error, unknown child', {'t': 'e'}, [v('#REF!'), bad], RAISE)]
    out += [('inline text', {'t': 'inlineStr'}, [is_(t('abc'))], (TXT, 'abc')),
            ('inline rich text', {'t': 'inlineStr'}, [is_(run_('ab'), run_('cd'))], (TXT, 'abcd')),
            ('inline text with phonetics', {'t': 'inlineStr'}, [is_(t('ab'), el('rPh', {}, None, t('zz')))], (TXT, 'ab')),
            ('inline text as value', {'t': 'inlineStr'}, [v('xyz')], (TXT, 'xyz')),
            ('inline text, formula', {'t': 'inlineStr'}, [f(), is_(t('abc'))], (TXT, 'abc')),
            ('inline text empty', {'t': 'inlineStr'}, [is_(t(None))], NONEXT), ('inline text missing', {'t': 'inlineStr'}, [], NONEXT),
            ('inline text, unknown child', {'t': 'inlineStr'}, [is_(t('a')), bad], RAISE)]
    for ty in ('d', 'x', '', 'N', 'S', 'bool', 'inlinestr'):
        out.append(('unknown type %r' % ty, {'t': ty}, [v('1')], RAISE))
    out.append(('unknown type without value', {'t': 'z'}, [], RAISE))
    return out


STYLES = el('styleSheet', {}, None,
            el('numFmts', {}, None, el('numFmt', {'numFmtId': '164', 'formatCode': 'DATE'}),
               el('numFmt', {'numFmtId': '165', 'formatCode': 'NUMBER'})),
            el('cellStyleXfs', {}, None, el('xf', {'numFmtId': '14'}), el('xf', {'numFmtId': '14'})),
            el('cellXfs', {}, None, *[el('xf', {'numFmtId': n} if n != '0' else {})
                                      for n in ('0', '14', '22', '45', '164', '165', '2', '23', '13', '47')]))


class XlsxScene(object):
    def __init__(self, P, rows, pr=None, styles=STYLES, sst=SST, sheets=None):
        self.P = P
        self.E = E = Engine(P, opaque={XL + '.formatting.is_date_format_string': self.isdate})
        E.eager_gens = True
        E.max_steps = 200000
        E.unroll = 80
        E.models.update({'xml.etree.ElementTree.iterparse': self.iterparse, 'xml.etree.ElementTree.parse': self.parse,
                         'defusedxml.ElementTree.iterparse': self.iterparse, 'defusedxml.ElementTree.parse': self.parse})
        self.st = st = E.new_state()
        self.elem, self.tree, self.arch = (P.cls('verif_xml.' + n) for n in ('Elem', 'Tree', 'Archive'))
        rel = 'http://schemas.openxmlformats.org/officeDocument/2006/relationships/'
        sheets = sheets or [('Data', rows)]
        parts = {
            'xl/_rels/workbook.xml.rels': el(PK + 'Relationships', {}, None, *[
                el(PK + 'Relationship', {'Id': 'rId%d' % (i + 1), 'Type': rel + 'worksheet',
                                         'Target': 'worksheets/sheet%d.xml' % (i + 1)}) for i in range(len(sheets))]),
            'xl/workbook.xml': el('workbook', {}, None, *((([el('workbookPr', pr)] if pr is not None else [])) + [
                el('sheets', {}, None, *[el('sheet', {'name': n, 'sheetId': str(i + 1), OD + 'id': 'rId%d' % (i + 1)})
                                         for i, (n, _) in enumerate(sheets)])]))}
        if styles is not None:
            parts['xl/styles.xml'] = styles
        if sst is not None:
            parts['xl/sharedstrings.xml'] = el('sst', {}, None, *[el('si', {}, None, *ch) for _, ch in sst])
        for i, (n, rows) in enumerate(sheets):
            parts['xl/worksheets/sheet%d.xml' % (i + 1)] = el('worksheet', {}, None, el('sheetData', {}, None, *rows))
        self.roots = {}
        pairs = []
        for n, e in parts.items():
            tr = st.alloc(Inst(self.tree, n))
            root = self.build(e)
            st.mut(tr).attrs['root'] = root
            pairs.append((K(n), tr))
        z = st.alloc(Inst(self.arch, 'archive'))
        st.mut(z).attrs['parts'] = dct(st, pairs)
        names = dct(st, [(K(n), K(n)) for n in parts])
        st.ghost['$roots'] = Tup([z, names])
        self.args = [z, names]

    def build(self, e):
        tag, attrib, text, ch = e
        st = self.st
        r = st.alloc(Inst(self.elem, tag.split('}')[-1]))
        st.mut(r).attrs.update({'tag': K(tag), 'attrib': dct(st, [(K(k), K(x)) for k, x in attrib.items()]),
                                'text': text if isinstance(text, V) else K(text), 'tail': NONE,
                                'children': lst(st, [self.build(c) for c in ch])})
        return r

    def order(self, st, r):
        out = []
        for c in items(self.E, st, st.get(r).attrs['children']) or []:
            out += self.order(st, c)
        return out + [r]

    def iterparse(self, E, st, args, kw):
        o = args[0]
        if kw or len(args) != 1 or not isinstance(o, Ref) or 'root' not in getattr(st.get(o), 'attrs', {}):
            return [(st, Unk('iterparse'))]
        return [(st, Tup([Tup([K('end'), x]) for x in self.order(st, st.get(o).attrs['root'])]))]

    def parse(self, E, st, args, kw):
        return [(st, args[0])]

    def isdate(self, E, st, b):
        x = list(b.values())[-1]
        if isinstance(x, K) and x.v in ('DATE', 'NUMBER'):
            return [(st, K(x.v == 'DATE'))]
        return [(st, Unk('format'))]

    def run(self, **kw):
        self.E.steps = 0
        return self.E.run(self.P.func(X + '.open_workbook_2007_xml'), self.args,
                          {k: x if isinstance(x, V) else K(x) for k, x in kw.items()}, st=self.st.copy())


def row(n, *cells):
    return el('row', {} if n is None else {'r': str(n)}, None, *cells)


def cell(ref, attrib, ch):
    a = dict(attrib)
    if ref:
        a['r'] = ref
    return el('c', a, None, *ch)


def result(E, s, book, i=0):
    """{(row, col): (type, value)} of a sheet, without empty cells, or None"""
    if not isinstance(book, Ref):
        return None
    sl = items(E, s, s.get(book).attrs.get('_sheet_list'))
    if not sl or len(sl) <= i:
        return None
    a = s.get(sl[i]).attrs
    out = {}
    ty, va = items(E, s, a['_cell_types']), items(E, s, a['_cell_values'])
    if ty is None or va is None or len(ty) != len(va):
        return None
    for x, (tr, vr) in enumerate(zip(ty, va)):
        tr, vr = items(E, s, tr), items(E, s, vr)
        if tr is None or vr is None or len(tr) != len(vr):
            return None
        for y, (t, v) in enumerate(zip(tr, vr)):
            if not isinstance(t, K):
                return None
            if t.v != 0:
                out[x, y] = (t.v, v)
    return out


def same(exp, got):
    if got is None or exp[0] != got[0] or not isinstance(got[1], K):
        return False
    return type(got[1].v) is type(exp[1]) and got[1].v == exp[1] or \
        isinstance(exp[1], int) and isinstance(got[1].v, (bool, int)) and got[1].v == exp[1]


def check(P, r):
    spec(P, MODEL, 'verif_xml')
    where = P.func(X + '.X12Sheet.do_row').where
    for name, attrib, ch, exp in cases():
        for layout in ('alone', 'between others', 'no references'):
            nm = 'cell: %s, %s' % (name + (' (type not given)' if 't' not in attrib else ''), layout)
            with r.obligation(nm):
                if layout == 'alone':
                    rows, at, others = [row(3, cell('C3', attrib, ch))], (2, 2), {}
                elif layout == 'between others':
                    rows = [row(1, cell('A1', {}, [v('10')]), cell('B1', attrib, ch), cell('D1', {'t': 's'}, [v('2')])),
                            row(3, cell('B3', {'t': 'b'}, [v('1')]))]
                    at, others = (0, 1), {(0, 0): (NUM, 10.0), (0, 3): (TXT, 'second'), (2, 1): (BOOL, 1)}
                else:
                    rows = [row(None, cell(None, {}, [v('10')])),
                            row(None, cell(None, {}, [v('11')]), cell(None, attrib, ch), cell(None, {}, [v('12')]))]
                    at, others = (1, 1), {(0, 0): (NUM, 10.0), (1, 0): (NUM, 11.0), (1, 2): (NUM, 12.0)}
                one(P, r, nm, XlsxScene(P, rows), at, exp, others, where)
    # references
    for ref, rn, at in (('A1', 1, (0, 0)), ('Z2', 2, (1, 25)), ('AA2', 2, (1, 26)), ('AZ1', 1, (0, 51)), ('BA1', 1, (0, 52)),
                        ('$C$2', 2, (1, 2)), ('b3', 3, (2, 1)), ('C10', 10, (9, 2)), ('C2', 1, RAISE), ('C1', 10, RAISE),
                        ('C', None, None), ('C4', None, (0, 2))):
        if at is None:
            continue
        nm = 'cell reference %s in row %s' % (ref, rn)
        with r.obligation(nm):
            sc = XlsxScene(P, [row(rn, cell(ref, {}, [v('5')]))])
            one(P, r, nm, sc, at, RAISE if at == RAISE else (NUM, 5.0), {}, where)
    with r.obligation('rows out of order, cells after a gap'):
        rows = [row(5, cell('B5', {}, [v('5')])), row(None, cell('A6', {}, [v('6')]), cell(None, {}, [v('7')])),
                row(2, cell('D2', {'t': 'inlineStr'}, [is_(t('x'))]), cell(None, {}, [v('8')]))]
        one(P, r, 'rows out of order, cells after a gap', XlsxScene(P, rows), (4, 1), (NUM, 5.0),
            {(5, 0): (NUM, 6.0), (5, 1): (NUM, 7.0), (1, 3): (TXT, 'x'), (1, 4): (NUM, 8.0)}, where)
    with r.obligation('ragged rows'):
        rows = [row(1, cell('A1', {}, [v('5')])), row(2, cell('A2', {}, [v('6')]), cell('C2', {'t': 'e'}, [v('#REF!')]))]
        one(P, r, 'ragged rows', XlsxScene(P, rows), (0, 0), (NUM, 5.0), {(1, 0): (NUM, 6.0), (1, 2): (ERR, 0x17)}, where,
            ragged_rows=True)
    with r.obligation('no styles, no shared texts'):
        one(P, r, 'no styles', XlsxScene(P, [row(1, cell('A1', {}, [v('5')]))], styles=None, sst=None), (0, 0), (NUM, 5.0), {}, where)
    with r.obligation('two sheets'):
        sc = XlsxScene(P, None, sheets=[('One', [row(1, cell('A1', {'t': 's'}, [v('0')]))]),
                                        ('Two', [row(2, cell('B2', {'s': '1'}, [v('9')]))])])
        one(P, r, 'two sheets', sc, (0, 0), (TXT, 'a'), {}, where, second={(1, 1): (DATE, 9.0)})
    # the 1904 flag
    for text, exp in ((None, 0), ('0', 0), ('1', 1), ('true', 1), ('false', 0), ('on', 1), ('off', 0), ('maybe', RAISE), ('nopr', 0)):
        nm = 'date1904 %s' % text
        with r.obligation(nm):
            pr = None if text == 'nopr' else {} if text is None else {'date1904': text}
            sc = XlsxScene(P, [row(1, cell('A1', {}, [v('5')]))], pr=pr)
            for kind, s, b in sc.run():
                r.count('paths')
                if s.taint:
                    r.undecided(nm, 'path depends on unknown: %s' % (s.taint[:1],))
                    continue
                if kind == 'raise':
                    if exp != RAISE and not b.implicit:
                        r.viol('date system', '%s: raises %s' % (nm, b.name), b.site)
                    continue
                got = sc.E.getattr(b, 'datemode', s)[0][1] if isinstance(b, Ref) else None
                if not isinstance(got, K):
                    r.undecided(nm, 'datemode %s' % show(got))
                elif exp == RAISE or got.v != exp:
                    r.viol('date system', '%s: datemode %s, expected %s' % (nm, got.v, exp), P.func(X + '.X12Book.do_workbookpr').where)
            r.engine(sc.E)


def one(P, r, name, sc, at, exp, others, where, second=None, **kw):
    E = sc.E
    outs = sc.run(**kw)
    r.engine(E)
    if not outs:
        r.undecided(name, 'no outcome')
    for kind, s, b in outs:
        r.count('paths')
        if s.taint:
            r.undecided(name, 'path depends on unknown: %s' % (s.taint[:1],))
            continue
        if kind == 'raise':
            if exp != RAISE and not b.implicit:
                r.viol('raise', '%s: raises %s' % (name, b.name), b.site)
            continue
        got = result(E, s, b)
        if got is None:
            r.undecided(name, 'sheet of unknown content')
            continue
        if exp == RAISE:
            r.viol('accepted', '%s: read without an error, cells %s' % (name, show(got)), where)
            continue
        want = dict(others)
        if exp != NONEXT:
            want[at] = exp
        elif at in got and got[at][0] == 6:
            got.pop(at)             # a blank cell is no value either
        judge(r, name, want, got, where)
        if second is not None:
            g2 = result(E, s, b, 1)
            if g2 is None:
                r.undecided(name, 'second sheet of unknown content')
            else:
                judge(r, name + ', second', second, g2, where)


def judge(r, name, want, got, where):
    for p in sorted(set(want) | set(got)):
        if p not in want:
            r.viol('cell', '%s: a cell %s at row %d, column %d, expected none' % (name, show(got[p]), p[0] + 1, p[1] + 1), where)
        elif p not in got:
            r.viol('cell', '%s: no cell at row %d, column %d, expected %s' % (name, p[0] + 1, p[1] + 1, want[p]), where)
        elif not same(want[p], got[p]):
            if has_unk(got[p][1]) or want[p][0] == got[p][0] and not isinstance(got[p][1], K):
                r.undecided(name, 'cell %s' % show(got[p]))
            else:
                r.viol('cell', '%s: cell %s at row %d, column %d, expected %s' % (name, show(got[p]), p[0] + 1, p[1] + 1, want[p]),
                       where)
