import re
from xml.etree import ElementTree as ET
from openformats.formats.docx import DocxHandler
from . import ooxml_model as m
from .common_chk import clone


def strip(string):
    """The text of a string and the parts of it, with the link of each."""
    esc = re.sub("(<tx(?: href=\"[^\"<>]*\")?>|</tx>)|[<>]",
                 lambda m: m.group(1) or m.group().replace("<", "&lt;").replace(
                     ">", "&gt;"), string.replace("&", "&amp;"))
    parts = []

    def go(e, url):
        url = e.get("href", url)
        if e.text:
            parts.append([e.text, url])
        for k in e:
            go(k, url)
            if k.tail:
                parts.append([k.tail, url])
    go(ET.fromstring("<x>%s</x>" % esc), None)
    return parts


def join(parts):
    """Neighbours with the same link joined."""
    out = []
    for t, u in parts:
        if out and out[-1][1] == u:
            out[-1] = [out[-1][0] + t, u]
        elif t:
            out.append([t, u])
    return out


def visible(els):
    """Blank text elements go to the next text; those at the end are dropped.

    A field (False) keeps the texts around it apart."""
    out, lead = [], 0
    for e in els:
        if not e:
            lead = 0
            continue
        t, u = e
        if t.strip():
            out.append([" " * lead + t, u])
            lead = 0
        else:
            lead += len(t)
    return out


def check(case, rec):
    files = m.docx_files(case)
    doc = dict(files)[case["doc"].lstrip("/")]
    rec.show(doc)
    ps = list(m.paragraphs(case["blocks"]))
    els = [m.elements(p, case["links"]) for p in ps]
    want = [visible(e) for e in els if visible(e)]
    rec.nt(len(want) > 1)
    h = DocxHandler()
    template, strings = h.parse(m.archive(files, case["bom"]))
    rec.eq([join(strip(s.string)) for s in strings], [join(w) for w in want],
           "the texts and links of each paragraph")
    rec.eq([s.order for s in strings], list(range(len(want))), "order")
    out = m.contents(DocxHandler().compile(template, [clone(s) for s in strings]))
    rec.eq([f[0] for f in out], [f[0] for f in files], "the files")
    name = case["doc"].lstrip("/")
    rname = "word/_rels/%s.rels" % name.split("/")[-1]
    for (n, data), (_, got) in zip(files, out):
        if n not in (name, rname):
            rec.eq(got, m.raw(data, case["bom"]), "the file " + n)
    files, out = dict(files), dict(out)
    rec.eq(m.tree(out[rname]), m.tree(files[rname]), "the relationships")
    body, trees, texts = m.docx_read(out[name], out[rname])
    body0, trees0, texts0 = m.docx_read(files[name], files[rname])
    rec.eq(body, body0, "the document around the paragraphs")
    it = iter(strings)
    for p, t, x, t0, x0 in zip(ps, trees, texts, trees0, texts0):
        parts = strip(next(it).string) if visible(x0) else []
        if any(r.get("box") for r in p["runs"]):
            rec.label("text box")
        if len(parts) == len(visible(x0)):
            rec.eq(t, t0, "a paragraph", parts=parts)
        else:
            rec.label("less parts than texts")
            rec.eq(join(visible(x)), join(visible(x0)), "the text of a paragraph", parts=parts)
