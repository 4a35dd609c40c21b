"""Writes and reads spreadsheets, without the code under test."""
from xml.etree import ElementTree as ET
from .ooxml_model import HEAD, R, LINK, esc, external, rels, tree

X = "http://schemas.openxmlformats.org/spreadsheetml/2006/main"
NS = {"x": X}
RPR = ["", '<rPr><b/><sz val="11"/></rPr>', '<rPr><i/></rPr>']


def rid(i, links):
    return "R" + "abcd"[i] if "mailto" in links[i][0] else "rId%d" % (i + 2)


def ref(i, j):
    return "%s%s%d" % ("A" if j > 25 else "", chr(65 + j % 26), i + 1)


def item(texts):
    """The content of si and is"""
    if len(texts) == 1:
        return '<t xml:space="preserve">%s</t>' % esc(texts[0])
    return "".join('<r>%s<t xml:space="preserve">%s</t></r>' % (
        RPR[i % 3], esc(t)) for i, t in enumerate(texts))


def formula(c, url, text):
    q = '"%s","%s"' % (url.replace('"', '""'), text.replace('"', '""'))
    return ["HYPERLINK(%s)", "IF(A1>0,HYPERLINK(%s),\"\")", "UPPER(HYPERLINK(%s))&B2"][
        c["form"]] % q


def sheet_xml(s, case):
    links = s["links"]
    out = HEAD + '<worksheet xmlns="%s" xmlns:r="%s">' % (X, R)
    if s["view"]:
        out += ('<sheetViews><sheetView%s workbookViewId="0"/></sheetViews>' %
                ("", ' rightToLeft="1"', ' rightToLeft="0"')[s["view"] - 1])
    out += '<sheetFormatPr zoom="a&#10;b"/><sheetData>'
    hyper = ""
    for i, row in enumerate(s["rows"]):
        out += '<row r="%d">' % (i + 1)
        for j, c in enumerate(row):
            at = ' r="%s" s="%d"' % (ref(i, j), j)
            if c["noref"] and c["link"] is None:
                at = ' s="%d"' % j
            k = c["kind"]
            if k == "s":
                out += '<c%s t="s"><v>%d</v></c>' % (at, c["at"] % len(case["shared"]))
            elif k == "inline":
                out += '<c%s t="inlineStr"><is>%s</is></c>' % (at, item(c["texts"]))
            elif k == "link":
                out += '<c%s t="str"><f>%s</f><v>%s</v></c>' % (
                    at, esc(formula(c, c["url"], c["texts"][0])), esc(c["texts"][0]))
            elif k == "str":
                out += '<c%s t="str"><f>A1&amp;"x"</f><v>%s</v></c>' % (
                    at, esc(c["texts"][0]))
            elif k == "empty":
                out += '<c%s t="s"/>' % at
            else:
                out += '<c%s><v>1.5</v></c>' % at
            if c["link"] is not None:
                hyper += '<hyperlink ref="%s" r:id="%s"%s/>' % (
                    ref(i, j), rid(c["link"], links),
                    ("", ' location="part"', "", ' display="x" tooltip="y"')[(i + j) % 4])
        out += "</row>"
    out += "</sheetData>"
    if hyper:
        out += "<hyperlinks>%s</hyperlinks>" % hyper
    return out + '<pageMargins left="0.7"/></worksheet>'


def files_of(case):
    types = [("xl/workbook.xml", "sheet.main")]
    files, entries, sheets = [], [], ""
    for i, s in enumerate(case["sheets"]):
        name = "xl/worksheets/sheet%d.xml" % s["number"]
        types.append((name, "worksheet"))
        target = name[3:] if not case["absolute"] else "/" + name
        entries.append(("rId%d" % (i + 5), R + "/worksheet", target, False))
        sheets += '<sheet name="%s" sheetId="%d" r:id="rId%d"/>' % (
            esc(s["name"]), i + 1, i + 5)
        files.append((name, sheet_xml(s, case)))
        if s["links"]:
            files.append(("xl/worksheets/_rels/sheet%d.xml.rels" % s["number"], rels(
                [("rId1", R + "/comments", "../comments1.xml", False)] * s["other"] + [
                    (rid(k, s["links"]), LINK, url, kind == "ext")
                    for k, (url, kind) in enumerate(s["links"])])))
    if case["shared"]:
        types.append(("xl/sharedStrings.xml", "sharedStrings"))
        entries.append(("rId2", R + "/sharedStrings", "sharedStrings.xml", False))
        files.append(("xl/sharedStrings.xml", HEAD + '<sst xmlns="%s" count="9">%s'
                      "</sst>" % (X, "".join("<si>%s</si>" % item(t)
                                             for t in case["shared"]))))
    files.append(("xl/workbook.xml", HEAD + '<workbook xmlns="%s" xmlns:r="%s">'
                  '<sheets>%s</sheets><calcPr calcId="1"/></workbook>' % (
                      X, R, sheets)))
    files.append(("xl/_rels/workbook.xml.rels", rels(entries)))
    files.append(("xl/media/image1.png", b"\x89PNG\r\n\x1a\n\x00\xff"))
    types = [types[i] for i in sorted(range(len(types)),
                                      key=lambda i: (i * case["mix"]) % 7)]
    files.insert(0, ("[Content_Types].xml", HEAD + '<Types xmlns="http://schemas.'
                     'openxmlformats.org/package/2006/content-types">%s</Types>'
                     % "".join('<Override PartName="/%s" ContentType="application/'
                               'vnd.openxmlformats-officedocument.spreadsheetml.%s'
                               '+xml"/>' % t for t in types)))
    return files


def read(files):
    """For each sheet file: its skeleton, the value of rightToLeft and its cells
    as [texts, tree of the formatting, formula, value, url]"""
    shared = []
    if "xl/sharedStrings.xml" in files:
        shared = list(ET.fromstring(files["xl/sharedStrings.xml"]))
    out = {}
    for name in files:
        if not name.startswith("xl/worksheets/sheet"):
            continue
        root = ET.fromstring(files[name])
        rname = name.replace("sheets/", "sheets/_rels/") + ".rels"
        links = {}
        if rname in files:
            links = external(files[rname])
        urls = {h.get("ref"): links.get(h.get("{%s}id" % R))
                for h in root.iter("{%s}hyperlink" % X)}
        view = root.find(".//x:sheetView", NS)
        rtl = view.attrib.pop("rightToLeft", None) if view is not None else None
        cells = []
        for c in root.iter("{%s}c" % X):
            kind, data = c.attrib.pop("t", None), None
            v, f, body = c.find("x:v", NS), c.find("x:f", NS), c.find("x:is", NS)
            if kind == "s" and v is not None:
                body = shared[int(v.text)]
            elif kind in ("s", "inlineStr"):
                kind = "s"
            if kind == "inlineStr":
                kind = "s"
            texts = []
            if body is not None:
                for t in body.iter("{%s}t" % X):
                    texts.append(t.text or "")
                    t.text = ""
                data = tree(body)[3]
                for t, x in zip(body.iter("{%s}t" % X), texts):
                    t.text = x
                v = None
            cells.append([texts, kind, data, f.text if f is not None else None,
                          v.text or "" if v is not None else None,
                          urls.get(c.get("r"))])
            for k in list(c):
                c.remove(k)
        out[name] = tree(root), rtl, cells
    return out
