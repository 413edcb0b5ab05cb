"""A tiny deterministic XLSX writer (fixed timestamps), knowing where each member's data lies."""
import io
import zipfile
from xml.sax.saxutils import escape

NS = 'xmlns="http://schemas.openxmlformats.org/spreadsheetml/2006/main"'
REL = "http://schemas.openxmlformats.org/officeDocument/2006/relationships"


class Date:
    """A cell with a date-formatted serial number."""

    def __init__(self, serial):
        self.serial = serial

    def __repr__(self):
        return "Date(%r)" % self.serial


class Err:
    def __init__(self, text="#DIV/0!"):
        self.text = text

    def __repr__(self):
        return "Err"


ERR = Err()
ERRORS = [ERR] + [Err(t) for t in ("#N/A", "#NULL!", "#VALUE!", "#REF!", "#NAME?", "#NUM!")]


class Formula:
    """A cell with the cached text-result of a formula (maybe empty)."""

    def __init__(self, text):
        self.text = text

    def __repr__(self):
        return "Formula(%r)" % self.text


def colname(c):
    s = ""
    c += 1
    while c:
        c, m = divmod(c - 1, 26)
        s = chr(65 + m) + s
    return s


def write(sheets, date1904=False, shared=False):
    """`sheets`: [(name, grid)] -> (bytes, [(start, end) of each sheet's compressed data])."""
    strings = []

    def cell(i, j, v):
        ref = "%s%i" % (colname(j), i + 1)
        if isinstance(v, bool):
            return '<c r="%s" t="b"><v>%i</v></c>' % (ref, v)
        if isinstance(v, (int, float)):
            return '<c r="%s"><v>%r</v></c>' % (ref, v)
        if isinstance(v, Date):
            return '<c r="%s" s="1"><v>%r</v></c>' % (ref, v.serial)
        if isinstance(v, Err):
            return '<c r="%s" t="e"><v>%s</v></c>' % (ref, v.text)
        if isinstance(v, Formula):
            return '<c r="%s" t="str"><f>T(Z99)</f><v>%s</v></c>' % (ref, escape(v.text))
        if shared:
            if v not in strings:
                strings.append(v)
            return '<c r="%s" t="s"><v>%i</v></c>' % (ref, strings.index(v))
        return '<c r="%s" t="inlineStr"><is><t xml:space="preserve">%s</t></is></c>' % (ref, escape(v))

    parts = []
    for n, (name, grid) in enumerate(sheets):
        rows = "".join(
            '<row r="%i">%s</row>'
            % (i + 1, "".join(cell(i, j, v) for j, v in enumerate(row) if v is not None))
            for i, row in enumerate(grid)
        )
        parts.append(
            ("xl/worksheets/sheet%i.xml" % (n + 1),
             "<worksheet %s><sheetData>%s</sheetData></worksheet>" % (NS, rows))
        )
    wb = '<workbook %s xmlns:r="%s"><workbookPr%s/><sheets>%s</sheets></workbook>' % (
        NS, REL, ' date1904="1"' if date1904 else "",
        "".join(
            '<sheet name="%s" sheetId="%i" r:id="rId%i"/>' % (escape(nm), n + 1, n + 1)
            for n, (nm, _) in enumerate(sheets)
        ),
    )
    rels = "".join(
        '<Relationship Id="rId%i" Type="%s/worksheet" Target="worksheets/sheet%i.xml"/>' % (n + 1, REL, n + 1)
        for n in range(len(sheets))
    )
    rels += '<Relationship Id="rId90" Type="%s/styles" Target="styles.xml"/>' % REL
    if strings:
        rels += '<Relationship Id="rId91" Type="%s/sharedStrings" Target="sharedStrings.xml"/>' % REL
    ct = "application/vnd.openxmlformats-officedocument.spreadsheetml."
    head = [
        ("[Content_Types].xml",
         '<Types xmlns="http://schemas.openxmlformats.org/package/2006/content-types">'
         '<Default Extension="rels" ContentType="application/vnd.openxmlformats-package.relationships+xml"/>'
         '<Default Extension="xml" ContentType="application/xml"/>'
         '<Override PartName="/xl/workbook.xml" ContentType="%ssheet.main+xml"/>' % ct
         + "".join(
             '<Override PartName="/xl/worksheets/sheet%i.xml" ContentType="%sworksheet+xml"/>' % (n + 1, ct)
             for n in range(len(sheets)))
         + "</Types>"),
        ("_rels/.rels",
         '<Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships">'
         '<Relationship Id="rId1" Type="%s/officeDocument" Target="xl/workbook.xml"/></Relationships>' % REL),
        ("xl/workbook.xml", wb),
        ("xl/_rels/workbook.xml.rels",
         '<Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships">%s</Relationships>' % rels),
        ("xl/styles.xml",
         '<styleSheet %s><cellXfs count="2"><xf numFmtId="0"/><xf numFmtId="22" applyNumberFormat="1"/></cellXfs></styleSheet>' % NS),
    ]
    if strings:
        head.append(
            ("xl/sharedStrings.xml",
             '<sst %s>%s</sst>' % (NS, "".join('<si><t xml:space="preserve">%s</t></si>' % escape(s) for s in strings)))
        )
    buf = io.BytesIO()
    with zipfile.ZipFile(buf, "w", zipfile.ZIP_DEFLATED) as z:
        for name, txt in head + parts:
            zi = zipfile.ZipInfo(name, (2000, 1, 1, 0, 0, 0))
            zi.compress_type = zipfile.ZIP_DEFLATED
            z.writestr(zi, '<?xml version="1.0" encoding="UTF-8" standalone="yes"?>' + txt)
        spans = []
        for zi in z.infolist():
            start = zi.header_offset + 30 + len(zi.filename.encode())
            spans.append((start, start + zi.compress_size))
    return buf.getvalue(), spans[-len(parts):]
