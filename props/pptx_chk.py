from openformats.formats.pptx import PptxHandler, PptxHandlerV2
from . import ooxml_model as m
from .docx_chk import strip, join, visible
from .common_chk import clone

KINDS = {"v1": PptxHandler, "v2": PptxHandlerV2}


def seen(els, kind):
    """The texts that belong to a string."""
    if kind == "v1":
        return visible(els)
    els = [e for e in els if e]
    return els if any(t.strip() for t, _ in els) else []


def parts_of(case):
    """The slides in order: (path, path of the relations, slide, is notes)"""
    rows = sorted(zip(case["numbers"], case["slides"], case["notes"]),
                  key=lambda r: r[0])
    for n, s, k in rows:
        yield ("ppt/slides/slide%d.xml" % n,
               "ppt/slides/_rels/slide%d.xml.rels" % n, s, False)
        if s["notes"]:
            yield ("ppt/notesSlides/notesSlide%d.xml" % k,
                   "ppt/notesSlides/_rels/notesSlide%d.xml.rels" % k,
                   s["notes"], True)


def paragraphs(s):
    for shape in s["shapes"]:
        for p in shape["ps"]:
            yield p, shape["kind"] != "other"


def els_of(p, s):
    return [r["extra"] != 2 and [r["texts"][0], m.url_of(r, s["links"])]
            for r in p["runs"]]


def check(case, rec):
    kind = case["kind"]
    files = m.pptx_files(case)
    rec.show("\n".join(f[1] for f in files if isinstance(f[1], str)))
    rec.label(kind)
    want = []
    for _, _, s, notes in parts_of(case):
        for p, used in paragraphs(s):
            v = seen(els_of(p, s), kind)
            if used and v:
                want.append((join(v), ["notes"] if notes else []))
    rec.nt(len(want) > 1)
    template, strings = KINDS[kind]().parse(m.archive(files, case["bom"]))
    rec.eq([(join(strip(s.string)), s.tags or []) for s in strings], want,
           "the texts and links of each paragraph")
    rec.eq([s.order for s in strings], list(range(len(want))), "order")
    out = m.contents(KINDS[kind]().compile(template, [clone(s) for s in strings]))
    rec.eq([f[0] for f in out], [f[0] for f in files], "the files")
    slides = {n for p in parts_of(case) for n in p[:2]}
    for (n, data), (_, got) in zip(files, out):
        if n not in slides:
            rec.eq(got, m.raw(data, case["bom"]), "the file " + n)
    files, out = dict(files), dict(out)
    it = iter(strings)
    for name, rname, s, _ in parts_of(case):
        rec.eq(m.tree(out[rname]), m.tree(files[rname]), "the relationships")
        body, trees, texts, fields = m.pptx_read(out[name], out[rname])
        body0, trees0, texts0, fields0 = m.pptx_read(files[name], files[rname])
        rec.eq(body, body0, "the slide around the paragraphs")
        rec.eq(fields, fields0, "the fields")
        for (p, used), t, x, t0, x0 in zip(paragraphs(s), trees, texts, trees0,
                                           texts0):
            v = seen(els_of(p, s), kind)
            parts = strip(next(it).string) if used and v else v
            if len(parts) == len(v):
                rec.eq(t, t0, "a paragraph", parts=parts)
            else:
                rec.label("less parts than texts")
                rec.eq(join(seen(x, kind)), join(v), "the text of a paragraph",
                       parts=parts)
