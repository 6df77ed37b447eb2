import zipfile, io, os, sys
NS = 'xmlns="http://schemas.openxmlformats.org/spreadsheetml/2006/main"'
RN = 'xmlns:r="http://schemas.openxmlformats.org/officeDocument/2006/relationships"'


def xlsx(rows, shared=None, after='', pr='', sheets=1, styles=None):
    "an xlsx workbook whose sheets hold the given row elements"
    from channelpack import xlrd
    b = io.BytesIO()
    z = zipfile.ZipFile(b, 'w')
    z.writestr('xl/workbook.xml', '<workbook %s %s>%s<sheets>%s</sheets></workbook>' % (NS, RN, pr, ''.join(
        '<sheet name="s%d" sheetId="%d" r:id="rId%d"/>' % (i, i, i) for i in range(1, sheets + 1))))
    T = 'http://schemas.openxmlformats.org/officeDocument/2006/relationships/'
    rel = ''.join('<Relationship Id="rId%d" Type="%sworksheet" Target="worksheets/sheet%d.xml"/>' % (i, T, i)
                  for i in range(1, sheets + 1))
    if shared is not None:
        rel += '<Relationship Id="rId90" Type="%ssharedStrings" Target="sharedStrings.xml"/>' % T
        z.writestr('xl/sharedStrings.xml', '<sst %s>%s</sst>' % (NS, shared))
    if styles is not None:
        rel += '<Relationship Id="rId91" Type="%sstyles" Target="styles.xml"/>' % T
        z.writestr('xl/styles.xml', '<styleSheet %s>%s</styleSheet>' % (NS, styles))
    z.writestr('xl/_rels/workbook.xml.rels',
               '<Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships">%s</Relationships>' % rel)
    for i in range(1, sheets + 1):
        r, a = (rows[i - 1], after[i - 1]) if isinstance(rows, (list, tuple)) else (rows, after)
        z.writestr('xl/worksheets/sheet%d.xml' % i, '<worksheet %s><sheetData>%s</sheetData>%s</worksheet>' % (NS, r, a))
    z.close()
    return xlrd.open_workbook(file_contents=b.getvalue(), logfile=open(os.devnull, 'w'))
