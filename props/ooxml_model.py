"""Writes and reads Office Open XML files, without the code under test."""
import io
import itertools
import zipfile
from xml.etree import ElementTree as ET

W = "http://schemas.openxmlformats.org/wordprocessingml/2006/main"
A = "http://schemas.openxmlformats.org/drawingml/2006/main"
P = "http://schemas.openxmlformats.org/presentationml/2006/main"
R = "http://schemas.openxmlformats.org/officeDocument/2006/relationships"
RELS = "http://schemas.openxmlformats.org/package/2006/relationships"
LINK = R + "/hyperlink"
HEAD = '<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\n'


def esc(text):
    return (text.replace("&", "&amp;").replace("<", "&lt;")
            .replace(">", "&gt;").replace('"', "&quot;"))


def raw(data, bom=False):
    """As some tools do, all XML can begin with a byte order mark"""
    if isinstance(data, bytes):
        return data
    return data.encode("utf-8-sig" if bom else "utf-8")


def archive(files, bom=False):
    out = io.BytesIO()
    with zipfile.ZipFile(out, "w", zipfile.ZIP_DEFLATED) as z:
        for name, data in files:
            z.writestr(name, raw(data, bom))
    return out.getvalue()


def contents(data):
    with zipfile.ZipFile(io.BytesIO(data)) as z:
        return [(n, z.read(n)) for n in z.namelist()]


def rels(entries):
    return HEAD + '<Relationships xmlns="%s">%s</Relationships>' % (
        RELS, "".join('<Relationship Id="%s" Type="%s" Target="%s"%s/>' % (
            i, t, esc(target), ' TargetMode="External"' if ext else "")
            for i, t, target, ext in entries))


def rid(i, links):
    return "R" + "abc"[i] if "mailto" in links[i][0] else "rId%d" % (i + 7)


def link_rels(links):
    return [("rId1", R + "/styles", "styles.xml", False)][:len(links) % 2] + [
        (rid(i, links), LINK, url, kind == "ext")
        for i, (url, kind) in enumerate(links) if kind != "gone"]


def external(relations):
    """The URLs of the external hyperlinks by their ids, which are unique."""
    found = list(ET.fromstring(relations))
    ids = [r.get("Id") for r in found]
    return {i: "not unique" if ids.count(i) > 1 else r.get("Target")
            for i, r in zip(ids, found) if r.tag == "{%s}Relationship" % RELS
            and r.get("TargetMode") == "External" and r.get("Type") == LINK}


def tree(xml):
    """The content of an XML document, without the marks of the handlers.

    Of a paragraph, without the content of the paragraphs in it."""
    def go(e):
        if e.tag == "{%s}p" % W and e is not root:
            return (e.tag, {}, "", [])
        attrs = {k: v for k, v in e.attrib.items() if k != "txid"}
        return (e.tag, attrs, e.text or "", [(go(k), k.tail or "") for k in e])
    root = ET.fromstring(xml) if isinstance(xml, (str, bytes)) else xml
    return go(root)


def url_of(r, links):
    if r["link"] is None:
        return None
    url, kind = links[r["link"]]
    return url if kind == "ext" else None


def elements(p, links):
    """[text, url] of each text element of a paragraph."""
    return [[t, url_of(r, links)] for r in p["runs"] for t in r["texts"]]


# -- DOCX

RPR = ["", "<w:rPr><w:b/></w:rPr>", '<w:rPr><w:i/><w:sz w:val="28"/></w:rPr>',
       '<w:rPr><w:color w:val="FF0000"/><w:u w:val="single"/></w:rPr>', "<w:rPr/>",
       '<w:rPr><w:rtl w:val="0"/><w:b/></w:rPr>']
PPR = ["", '<w:pPr><w:pStyle w:val="Title"/><w:rPr><w:b/></w:rPr></w:pPr>',
       '<w:pPr><w:bidi w:val="0"/><w:jc w:val="left"/></w:pPr>']
EXTRA = ["", "<w:tab/>", "<w:br/>"]
JUNK = ["", '<w:bookmarkStart w:id="0" w:name="_Go&#10;B&#9;a"/><w:bookmarkEnd w:id="0"/>',
        '<w:proofErr w:type="spellStart"/>']


def docx_paragraph(p, links, texts=None):
    out = '<w:p w:rsidR="00A1">' + PPR[p["ppr"]] + JUNK[p["junk"]]
    texts = iter(texts if texts is not None else
                 [t for r in p["runs"] for t in r["texts"]])
    for i, r in enumerate(p["runs"]):
        prev = p["runs"][i - 1]["link"] if i else None
        joined = i and r["link"] is not None and r["link"] == prev and r["same"]
        if prev is not None and not joined:
            out += "</w:hyperlink>"
        if r["link"] is not None and not joined:
            out += '<w:hyperlink r:id="%s" w:history="1">' % rid(r["link"], links)
        out += "<w:r>" + RPR[r["rpr"]] + EXTRA[r["extra"]]
        for _ in r["texts"]:
            out += '<w:t xml:space="preserve">%s</w:t>' % esc(next(texts))
        if r.get("box"):
            out += "<w:pict><w:txbxContent>%s</w:txbxContent></w:pict>" % "".join(
                docx_paragraph(q, links) for q in r["box"])
        out += "</w:r>"
    if p["runs"] and p["runs"][-1]["link"] is not None:
        out += "</w:hyperlink>"
    return out + JUNK[p["junk"]] + "</w:p>"


def paragraphs(blocks):
    for b in blocks:
        if isinstance(b, dict):
            yield b
            for r in b["runs"]:
                for p in r.get("box", ()):
                    yield p
        else:
            for row in b:
                for p in paragraphs(row):
                    yield p


def docx_document(case, texts=None):
    """texts: for each paragraph, a list of texts or None"""
    it = iter(texts or [])
    links = case["links"]

    def one(p):
        return docx_paragraph(p, links, next(it, None))
    out = HEAD + '<w:document xmlns:w="%s" xmlns:r="%s"><w:body>' % (W, R)

    tbls = itertools.cycle(case.get("tbls") or ["<w:tblPr/>"])

    def block(b):
        if isinstance(b, dict):
            return one(b)
        return "<w:tbl>" + next(tbls) + "".join(
            "<w:tr>" + "".join("<w:tc>%s</w:tc>" % block(p) for p in row) +
            "</w:tr>" for row in b) + "</w:tbl>"
    for b in case["blocks"]:
        out += block(b)
    return out + ('<w:sectPr><w:pgSz w:w="12240"/></w:sectPr>'
                  "</w:body></w:document>")


def docx_files(case):
    doc = case["doc"].lstrip("/")
    name = doc.split("/")[-1]
    files = [("[Content_Types].xml", HEAD + "<Types/>"),
             ("_rels/.rels", rels([
                 ("rId2", R + "/extended-properties", "docProps/app.xml", False),
                 ("rId1", R + "/officeDocument", case["doc"], False)])),
             (doc, docx_document(case)),
             ("word/_rels/%s.rels" % name, rels(link_rels(case["links"])))]
    if case["others"]:
        files.insert(1, ("word/media/image1.png", b"\x89PNG\r\n\x1a\n\x00\xff"))
        files.append(("word/styles.xml", HEAD + '<w:styles xmlns:w="%s"/>\r\n' % W))
    return files


def docx_read(xml, relations):
    """The skeleton of a document, and its paragraphs as trees and as lists of
    [text, url]."""
    root = ET.fromstring(xml)
    links = external(relations)
    trees, texts = [], []

    def parts(e, url, out):
        if e.tag == "{%s}hyperlink" % W:
            url = links.get(e.get("{%s}id" % R))
        if e.tag == "{%s}t" % W:
            out.append([e.text or "", url])
        for k in e:
            if k.tag != "{%s}p" % W:
                parts(k, url, out)
        return out

    def go(e):
        if e.tag == "{%s}p" % W:
            trees.append(tree(e))
            texts.append(parts(e, None, []))
            for k in e.iter("{%s}p" % W):
                if k is not e:
                    go(k)
            return "p"
        return (e.tag, e.attrib, e.text, [(go(k), k.tail) for k in e])
    return go(root), trees, texts


# -- PPTX

APR = [None, "", ' b="1"', ' i="1" sz="2800"', ' lang="en" u="sng"',
       ' strike="sngStrike"']


def pptx_paragraph(p, links, texts=None):
    out = "<a:p>" + ("<a:pPr%s/>" % [' algn="l" lvl="0"', ' algn="ctr"', (
        ' algn="just" lvl="2"'), ' lvl="1"', ' rtl="0" algn="r"', ""][
            p["junk"] * 2 % 3 + 3 * (len(p["runs"]) % 2)]
                     if p["ppr"] else "")
    texts = iter(texts if texts is not None else
                 [r["texts"][0] for r in p["runs"]])
    for r in p["runs"]:
        kind = "r"
        if r["extra"] == 1:
            out += "<a:br/>"
        if r["extra"] == 2:
            kind = 'fld id="{B6F1}" type="slidenum"'
        out += "<a:%s>" % kind
        link = ('<a:hlinkClick r:id="%s"/>' % rid(r["link"], links)
                if r["link"] is not None else "")
        if link or APR[r["rpr"]] is not None:
            out += "<a:rPr%s>%s</a:rPr>" % (APR[r["rpr"]] or "", link)
        out += "<a:t>%s</a:t></a:%s>" % (esc(next(texts)), kind.split()[0])
    return out + ("<a:endParaRPr/>" if p["junk"] else "") + "</a:p>"


def pptx_slide(slide, root):
    out = HEAD + ('<p:%s xmlns:a="%s" xmlns:p="%s" xmlns:r="%s"><p:cSld>'
                  '<p:spTree><p:nvGrpSpPr/>' % (root, A, P, R))
    links = slide["links"]
    for shape in slide["shapes"]:
        ps = "".join(pptx_paragraph(p, links) for p in shape["ps"])
        if shape["kind"] == "table":
            out += ("<p:graphicFrame><a:graphic><a:graphicData><a:tbl><a:tr><a:tc>"
                    "<a:txBody><a:bodyPr/>%s</a:txBody></a:tc></a:tr></a:tbl>"
                    "</a:graphicData></a:graphic></p:graphicFrame>" % ps)
        elif shape["kind"] == "other":
            out += "<p:cxnSp><p:txBody>%s</p:txBody></p:cxnSp>" % ps
        else:
            sp = ("<p:sp><p:nvSpPr><p:cNvPr id='2' descr='A&#10;&#13;&#9;\"&lt;'/>"
                  "</p:nvSpPr><p:txBody><a:bodyPr/>%s</p:txBody></p:sp>" % ps)
            out += "<p:grpSp>%s</p:grpSp>" % sp if shape["kind"] == "group" else sp
    return out + "</p:spTree></p:cSld></p:%s>" % root


def pptx_slides(case):
    """(number, slide, notes number or None, notes) in the order of slides"""
    for n, s in sorted(zip(case["numbers"], case["slides"]), key=lambda x: x[0]):
        yield n, s


def pptx_files(case):
    types = [("ppt/presentation.xml", "presentation.main")]
    files = []
    for i, (n, s) in enumerate(zip(case["numbers"], case["slides"])):
        name = "ppt/slides/slide%d.xml" % n
        types.append((name, "slide"))
        entries = link_rels(s["links"])
        if case["others"]:
            entries.insert(0, ("rId50", R + "/slideLayout",
                               "../slideLayouts/slideLayout7.xml", False))
        if s["notes"]:
            k = case["notes"][i]
            entries.insert(case["at"] % (len(entries) + 1), (
                "rId3", R + "/notesSlide", "../notesSlides/notesSlide%d.xml" % k,
                False))
            note = "ppt/notesSlides/notesSlide%d.xml" % k
            types.append((note, "notesSlide"))
            files.append((note, pptx_slide(s["notes"], "notes")))
            files.append(("ppt/notesSlides/_rels/notesSlide%d.xml.rels" % k,
                          rels(link_rels(s["notes"]["links"]) + [
                              ("rId2", R + "/slide", "../slides/slide%d.xml" % n,
                               False)])))
        files.append((name, pptx_slide(s, "sld")))
        files.append(("ppt/slides/_rels/slide%d.xml.rels" % n, rels(entries)))
    types = "".join(
        '<Override PartName="/%s" ContentType="application/vnd.openxmlformats-'
        'officedocument.presentationml.%s+xml"/>' % t for t in types)
    files.insert(0, ("[Content_Types].xml", HEAD + '<Types xmlns="http://schemas.'
                     'openxmlformats.org/package/2006/content-types">%s</Types>'
                     % types))
    if case["others"]:
        files.append(("ppt/media/image1.png", b"\x89PNG\r\n\x1a\n\x00\xff"))
        files.append(("ppt/presentation.xml", HEAD + "<p/>\r\n"))
    return files


def pptx_read(xml, relations):
    """The skeleton of a slide and its paragraphs: trees, lists of [text, url]
    (False for a field), and the texts of fields."""
    root = ET.fromstring(xml)
    links = external(relations)
    trees, texts, fields = [], [], []

    def go(e):
        if e.tag == "{%s}p" % A:
            trees.append(tree(e))
            row, fld = [], []
            for k in e:
                t = k.find("{%s}t" % A)
                if t is not None and k.tag == "{%s}r" % A:
                    h = k.find("{%s}rPr/{%s}hlinkClick" % (A, A))
                    row.append([t.text or "", links.get(h.get("{%s}id" % R))
                                if h is not None else None])
                elif k.tag == "{%s}fld" % A:
                    fld.append(t.text)
                    row.append(False)
            texts.append(row)
            fields.append(fld)
            return "p"
        return (e.tag, e.attrib, e.text, [(go(k), k.tail) for k in e])
    return go(root), trees, texts, fields
