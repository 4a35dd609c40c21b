"""Damaged and hostile archives: nothing is left behind in the folder for
temporary files, and no file outside of the archive is read or written.

All of it happens in the scratch folder of the worker: what is pointed to is a
folder of victims next to the temporary folders of the handlers."""
import os
import re
import shutil
import tempfile
from openformats.formats.docx import DocxHandler
from openformats.formats.xlsx_unstructured import XlsxUnstructuredHandler
from . import ooxml_model as m
from . import xlsx_model as x
from .pptx_chk import KINDS
from .common_chk import clone

SECRET = "SECRETxyz"
VICTIMS = {
    "document.xml": '<w:document xmlns:w="%s"><w:body><w:p><w:r><w:t>%s</w:t></w:r>'
                    "</w:p></w:body></w:document>" % (m.W, SECRET),
    "slide1.xml": '<p:sld xmlns:a="%s" xmlns:p="%s"><p:sp><a:p><a:r><a:t>%s</a:t>'
                  "</a:r></a:p></p:sp></p:sld>" % (m.A, m.P, SECRET),
    "notesSlide1.xml": '<p:notes xmlns:a="%s" xmlns:p="%s"><p:sp><a:p><a:r><a:t>%s'
                       "</a:t></a:r></a:p></p:sp></p:notes>" % (m.A, m.P, SECRET),
    "sheet1.xml": '<worksheet xmlns="%s"><c r="A1" t="inlineStr"><is><t>%s</t></is>'
                  "</c></worksheet>" % (x.X, SECRET),
    "workbook.xml": '<workbook xmlns="%s" xmlns:r="%s"><sheet name="%s" r:id="rId5"/>'
                    "</workbook>" % (x.X, m.R, SECRET),
    "sharedStrings.xml": '<sst xmlns="%s">%s</sst>' % (
        x.X, ("<si><t>%s</t></si>" % SECRET) * 9),
}
RELS = m.rels([("rId7", m.LINK, "http://" + SECRET, True)])


def victims(folder):
    shutil.rmtree(folder, ignore_errors=True)
    os.makedirs(os.path.join(folder, "_rels"))
    for name, text in VICTIMS.items():
        for n, t in ((name, text), ("_rels/%s.rels" % name, RELS)):
            with open(os.path.join(folder, n), "w", encoding="utf-8") as f:
                f.write(t)


def state(folder):
    out = {}
    for d, _, names in os.walk(folder):
        out[d] = None
        for n in names:
            with open(os.path.join(d, n), "rb") as f:
                out[os.path.join(d, n)] = f.read()
    return out


def damage(case, files, victim):
    """The archive, damaged"""
    op, at, kind = case["op"], case["at"], case["format"]
    bom = case["doc"]["bom"]
    i = at % len(files)
    if op == "drop":
        files = files[:i] + files[i + 1:]
    if op in ("break", "empty", "text"):
        name, data = files[i]
        if isinstance(data, str):
            data = {"break": data[:len(data) * (at + 1) // 13], "empty": "",
                    "text": "<a>" + name + "</a>"}[op]
        files = files[:i] + [(name, data)] + files[i + 1:]
    up = "../" * case["deep"] + (
        os.path.basename(tempfile.gettempdir()) + "/" if case["deep"] > 1 else "")
    where = victim if case["absolute"] else up + "victims"
    name = sorted(VICTIMS)[at % len(VICTIMS)]
    if op == "name":
        files = files + [(where + "/" + name, "<a/>")]
    if op == "path":
        rules = {
            "docx": [("_rels/.rels", r'Target="[^"]*document[^"]*\.xml"',
                      'Target="%s/document.xml"' % where)],
            "pptx": [("[Content_Types].xml", r'PartName="/ppt/slides/slide\d+\.xml"',
                      'PartName="/%s/slide1.xml"' % where),
                     ("[Content_Types].xml",
                      r'PartName="/ppt/notesSlides/notesSlide\d+\.xml"',
                      'PartName="/%s/notesSlide1.xml"' % where)],
            "xlsx": [("[Content_Types].xml", 'PartName="/xl/%s"' % a,
                      'PartName="/%s/%s"' % (where, b)) for a, b in (
                          (r"worksheets/sheet\d+.xml", "sheet1.xml"),
                          ("workbook.xml", "workbook.xml"),
                          ("sharedStrings.xml", "sharedStrings.xml"))]}[kind]
        path, a, b = rules[at % len(rules)]
        files = [(n, re.sub(a, lambda _: b, d, count=1) if n == path else d)
                 for n, d in files]
    data = m.archive(files, bom)
    if op == "cut":
        data = data[:len(data) * at // 12]
    if op == "garbage":
        data = b"PK\x03\x04"[:at] + b"garbage" * at
    return data


def check(case, rec):
    kind, doc = case["format"], case["doc"]
    build = {"docx": m.docx_files, "pptx": m.pptx_files, "xlsx": x.files_of}[kind]
    make = {"docx": DocxHandler, "pptx": KINDS.get(doc.get("kind")),
            "xlsx": XlsxUnstructuredHandler}[kind]
    files = build(doc)
    root = tempfile.gettempdir()
    victim = os.path.join(root, "victims")
    victims(victim)
    before = state(root)
    bad = damage(case, files, victim)
    rec.show(repr((kind, case["op"], [f[0] for f in files])))
    rec.nt(case["op"] != "none")
    rec.label(kind, case["op"])
    out, strings = b"", []
    try:
        if case["later"]:
            # the template is damaged
            _, strings = make().parse(m.archive(files, doc["bom"]))
            out = make().compile(bad, [clone(s) for s in strings])
        else:
            out, strings = make().parse(bad)
            rec.label("accepted")
            if case["op"] != "none":
                rec.label("accepted " + case["op"])
            out = make().compile(out, [clone(s) for s in strings])
    except Exception as e:
        rec.label(type(e).__name__)
        if case["op"] == "none":
            raise
    after = state(root)
    rec.eq(sorted(after), sorted(before), "the temporary files", op=case["op"])
    rec.true(after == before, "no other file is written", op=case["op"])
    rec.true(not any(SECRET in s.string for s in strings), "no other file is read",
             op=case["op"])
    if out:
        rec.true(not any(SECRET.encode() in d for n, d in m.contents(out)),
                 "no other file is read", op=case["op"])
    shutil.rmtree(victim)
