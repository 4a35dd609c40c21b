from . import ooxml_model as m
from .docx_chk import strip, join
from .docxtrans_chk import write, translate
from .pptx_chk import KINDS, seen, parts_of, paragraphs
from .common_chk import clone

A = "{%s}" % m.A


def check(case, rec):
    kind = case["kind"]
    files = m.pptx_files(case)
    rec.show("\n".join(f[1] for f in files if isinstance(f[1], str)))
    rec.label(kind)
    template, strings = KINDS[kind]().parse(m.archive(files, case["bom"]))
    rec.nt(len(strings) > 1)
    n = len(case["trans"])
    news, given = {}, []
    more = "/el" if case["url"] else ""
    for s in strings:
        t = case["trans"][sum(map(ord, s.string)) % n]
        if t["kind"] == "none":
            continue
        parts = translate(t, strip(s.string), more)
        news[s.string] = (t["kind"], parts)
        given.append(clone(s, parts[0][0] if t["kind"] == "plain"
                           else write(parts)))
    out = dict(m.contents(KINDS[kind]().compile(template, given,
                                                is_rtl=case["rtl"])))
    files = dict(files)
    it = iter(strings)
    for name, rname, s, _ in parts_of(case):
        body, trees, texts, fields = m.pptx_read(out[name], out[rname])
        body0, trees0, texts0, fields0 = m.pptx_read(files[name], files[rname])
        rec.eq(body, body0, "the slide around the paragraphs")
        rec.eq(fields, fields0, "the fields")
        for (p, used), t, x, t0, x0 in zip(paragraphs(s), trees, texts, trees0,
                                           texts0):
            vis = seen(x0, kind) if used else []
            if kind == "v2":
                vis = [e for e in vis if e[0]]
            old = next(it).string if vis else None
            if old not in news:
                rec.eq(t, t0, "a paragraph without translation")
                continue
            one(case, rec, kind, p, s, news[old], old, vis, t, x, x0, t0)


def one(case, rec, kind, p, s, new, old, vis, t, x, x0, t0):
    how, parts = new
    rec.label(how, "rtl" if case["rtl"] else "ltr",
              "parts %s" % ("<" if len(parts) < len(vis) else
                            ">" if len(parts) > len(vis) else "="))
    rec.true(all(any(c[0] == A + "t" for c, _ in k[3]) for k, _ in t[3]
                 if k[0] == A + "r"), "every run of a paragraph has a text")
    if case["rtl"]:
        ppr = [k for k, _ in t[3] if k[0] == A + "pPr"]
        rec.eq(len(ppr), 1, "the properties of a paragraph")
        rec.eq(ppr[0][1].get("rtl"), "1", "a paragraph is marked as right to left")
        ppr0 = next((k[1] for k, _ in t0[3] if k[0] == A + "pPr"), {})
        want = dict(ppr0, rtl="1")
        if want.get("algn") == "l":
            want["algn"] = "r"
        rec.eq(dict(ppr[0][1]), want, "its alignment and what it had")
        rec.eq(t[3][0][0], ppr[0], "the properties come first")
    if how == "each" and len(strip(old)) == len(vis) and not case["rtl"]:
        it = iter(parts)
        blank, ts = [], []
        for e in x0:
            if not e:
                ts += blank + ["7"]
                blank = []
            elif not e[0] or kind == "v1" and not e[0].strip():
                blank.append(e[0])
            else:
                w = next(it)[0]
                if kind == "v1":
                    w = w[sum(map(len, blank)):]
                ts += blank + [w]
                blank = []
        goal = '<x xmlns:a="%s" xmlns:r="%s">%s</x>' % (
            m.A, m.R, m.pptx_paragraph(p, s["links"], ts + blank))
        rec.eq(t, m.tree(goal)[3][0][0], "a translated paragraph")
    got = seen(x, kind)
    if len(parts) <= len(vis):
        rec.eq(join(got), join(parts), "the text and links of a translated "
               "paragraph", how=how)
    else:
        k = len(vis) - 1
        rec.eq(join(got), join(parts[:k] + [[
            "".join(a for a, _ in parts[k:]), parts[k][1]]]),
            "the text of a paragraph, the last parts joined", how=how)
