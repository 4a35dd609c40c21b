from xml.etree import ElementTree as ET
from openformats.formats.docx import DocxHandler
from . import ooxml_model as m
from .docx_chk import strip, join, visible
from .common_chk import clone

W = "{%s}" % m.W


def write(parts):
    return "".join('<tx href="%s">%s</tx>' % (u, t) if u else "<tx>%s</tx>" % t
                   for t, u in parts)


def lead(text):
    return text[:len(text) - len(text.lstrip(" "))]


def translate(t, parts, more):
    """The parts of a translation of some parts"""
    texts, n = t["texts"], len(t["texts"])
    if t["kind"] == "each":
        return [[lead(p) + texts[i % n].lstrip(), u + more if u else u]
                for i, (p, u) in enumerate(parts)]
    if t["kind"] == "unlink":
        return [[texts[i % n], None] for i in range(len(parts))]
    if t["kind"] == "plain":
        return [[" ".join(texts), None]]
    out = [[x, u] for x, u in zip(texts, t["urls"])]
    if t.get("gap"):
        # a blank between the parts there is no place for
        out[5:5] = [["  ", None]]
    return out


def find(t, tag):
    out = [t] if t[0] == tag else []
    for k, _ in t[3] if isinstance(t, tuple) else ():
        out += find(k, tag)
    return out


def sided(t):
    """A tree without the directions, and the properties empty otherwise."""
    if not isinstance(t, tuple):
        return t
    kids = [(sided(k), tail) for k, tail in t[3]
            if k[0] not in (W + "bidi", W + "rtl", W + "bidiVisual")]
    return t[:3] + ([(k, tail) for k, tail in kids if k[0] not in (
        W + "pPr", W + "tblPr") or k[3]],)


def check(case, rec):
    files = m.docx_files(case)
    name = case["doc"].lstrip("/")
    rname = "word/_rels/%s.rels" % name.split("/")[-1]
    doc, rels = dict(files)[name], dict(files)[rname]
    rec.show(doc)
    ps = list(m.paragraphs(case["blocks"]))
    rec.nt(len(ps) > 1)
    template, strings = DocxHandler().parse(m.archive(files, case["bom"]))
    n = len(case["trans"])
    news, given = {}, []
    more = "/el" if case["url"] else ""
    for s in strings:
        t = case["trans"][sum(map(ord, s.string)) % n]
        if t["kind"] == "none":
            continue
        parts = translate(t, strip(s.string), more)
        news[s.string] = (t["kind"], parts)
        given.append(clone(s, parts[0][0] if t["kind"] == "plain"
                           else write(parts)))
    out = dict(m.contents(DocxHandler().compile(template, given,
                                                is_rtl=case["rtl"])))
    body, trees, texts = m.docx_read(out[name], out[rname])
    body0, trees0, texts0 = m.docx_read(doc, rels)
    if case["rtl"]:
        for t in find(body, W + "tbl"):
            rec.eq([len(find(k, W + "bidiVisual")) for k, _ in t[3]
                    if k[0] == W + "tblPr"], [1],
                   "a table is marked as right to left")
        body, body0 = sided(body), sided(body0)
    rec.eq(body, body0, "the document around the paragraphs")
    rec.eq(len(trees), len(trees0), "number of paragraphs")
    inner = {id(q) for p in ps for r in p["runs"] for q in r.get("box", ())}
    if inner:
        rec.label("text box")
    it = iter(strings)
    for p, t, x, t0, x0 in zip(ps, trees, texts, trees0, texts0):
        vis = visible(x0)
        old = next(it).string if vis else None
        if old not in news:
            if case["rtl"] and id(p) in inner:
                # the direction may be that of what is around it
                t, t0 = sided(t), sided(t0)
            rec.eq(t, t0, "a paragraph without translation")
            continue
        kind, parts = news[old]
        same = len(strip(old)) == len(vis)
        rec.label(kind, "rtl" if case["rtl"] else "ltr",
                  "parts %s" % ("<" if len(parts) < len(vis) else
                                ">" if len(parts) > len(vis) else "="))
        several = any(len(r["texts"]) > 1 for r in p["runs"])
        if kind == "each" and same:
            it2 = iter(parts)
            blank, ts = [], []
            for e, _ in x0:
                if e.strip():
                    w = next(it2)[0]
                    w = w[sum(map(len, blank)):]
                    ts += blank + [w]
                    blank = []
                else:
                    blank.append(e)
            goal = '<x xmlns:w="%s" xmlns:r="%s">%s</x>' % (
                m.W, m.R, m.docx_paragraph(p, case["links"], ts + blank))
            goal = m.tree(ET.fromstring(goal)[0])
            if case["rtl"]:
                rec.eq(sided(t), sided(goal), "a translated paragraph, besides its "
                       "direction")
            else:
                rec.eq(t, goal, "a translated paragraph")
        if several and kind != "each":
            # a run with several texts is linked as a whole
            rec.eq("".join(a for a, _ in visible(x)),
                   "".join(a for a, _ in parts), "the text of a paragraph",
                   kind=kind, parts=parts)
        elif len(parts) <= len(vis):
            rec.eq(join(visible(x)), join(parts), "the text and links of a "
                   "translated paragraph", kind=kind)
        else:
            k = len(vis) - 1
            rec.eq(join(visible(x)), join(parts[:k] + [[
                "".join(a for a, _ in parts[k:]), parts[k][1]]]),
                "the text of a paragraph, the last parts joined", kind=kind)
        if case["rtl"]:
            ppr = [k for k, _ in t[3] if k[0] == W + "pPr"]
            rec.eq(len(ppr), 1, "the properties of a paragraph")
            rec.eq([k[1] for k, _ in ppr[0][3] if k[0] == W + "bidi"],
                   [{W + "val": "1"}], "a paragraph is marked as right to left")
            for r in find(t, W + "rPr"):
                rec.eq([k[1] for k, _ in r[3] if k[0] == W + "rtl"],
                       [{W + "val": "1"}], "a run is marked as right to left")
            rec.eq(t[3][0][0], ppr[0], "the properties come first")
