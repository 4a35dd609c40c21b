import re
from openformats.formats.xlsx_unstructured import XlsxUnstructuredHandler
from . import ooxml_model as m
from . import xlsx_model as x
from .docx_chk import strip
from .common_chk import clone

RTL = {"": {}, "no": {"is_rtl": False}, "yes": {"is_rtl": True},
       "none": {"is_rtl": None}}


def parts_in(string):
    """The parts of a string; in single quotes are the URLs that have double
    ones."""
    return [[t, u and u.replace("\uf8ff", '"')] for t, u in strip(re.sub(
        "<tx href='([^'<>]*)'>", lambda m: '<tx href="%s">' % m.group(
            1).replace('"', "\uf8ff"), string))]


def href(url):
    return "href='%s'" % url if '"' in url else 'href="%s"' % url


def parts_of(c, s, case):
    """[text, url] for each text of a cell"""
    if c["kind"] in ("s", "inline"):
        texts = (c["texts"] if c["kind"] == "inline"
                 else case["shared"][c["at"] % len(case["shared"])])
        url = m.url_of(c, s["links"])
        return [[t, url] for t in texts]
    if c["kind"] == "link":
        return [[c["texts"][0], c["url"]]]
    return []


def translate(t, parts, more):
    texts, n = t["texts"], len(t["texts"])
    if t["kind"] in ("each", "unlink"):
        return [[texts[i % n], u + more if u and t["kind"] == "each" else None]
                for i, (p, u) in enumerate(parts)]
    if t["kind"] == "plain":
        return [[" ".join(texts), None]]
    return [[p, None] for p in texts]


def write(parts, space):
    sep = " " if space else ""
    end = " " if space == "end" else ""
    if len(parts) == 1:
        t, u = parts[0]
        return '<tx %s>%s</tx>' % (href(u), t) if u else t
    if len({u for t, u in parts}) == 1 and parts[0][1]:
        return '<tx %s>%s</tx>' % (href(parts[0][1]), sep.join(
            "<tx>%s</tx>" % t for t, u in parts) + end)
    return sep.join("<tx>%s</tx>" % t for t, u in parts) + end


def put(parts, texts):
    """The texts of a cell for the parts of a translation"""
    n = len([t for t in texts if t])
    new = [t for t, u in parts]
    new = new[:n - 1] + ["".join(new[n - 1:])] + [""] * n
    it = iter(new)
    return [next(it) if t else "" for t in texts]


def check(case, rec):
    files = x.files_of(case)
    rec.show("\n".join(f[1] for f in files if isinstance(f[1], str)))
    want, cells = {}, 0

    def note(key, name):
        if name not in want.setdefault(key, []):
            want[key].append(name)
    for s in case["sheets"]:
        note(((s["name"], None),), s["name"])
    for s in sorted(case["sheets"], key=lambda s: s["number"]):
        for row in s["rows"]:
            for c in row:
                ps = parts_of(c, s, case)
                if any(t for t, u in ps):
                    cells += 1
                    note(tuple(map(tuple, ps)), s["name"])
    h = XlsxUnstructuredHandler()
    template, strings = h.parse(m.archive(files, case["bom"]))
    got = [(parts_in(s.string), s.developer_comment) for s in strings]
    rec.eq(got, [([[t, u] for t, u in k if t], ", ".join(v))
                 for k, v in want.items()],
           "the texts and links of the cells, with the names of their sheets")
    rec.eq([s.order for s in strings], list(range(len(want))), "order")
    rec.nt(cells > 1)
    names = {s["name"] for s in case["sheets"]}
    news, given = {}, []
    more = "/el" if case.get("url") else ""
    for key, s in zip(want, strings):
        if "trans" not in case:
            given.append(clone(s))
            continue
        t = case["trans"][sum(map(ord, s.string)) % len(case["trans"])]
        if t["kind"] == "none":
            continue
        if s.string in names:
            t = dict(t, kind="plain")
        rec.label(t["kind"])
        parts = translate(t, [p for p in key if p[0]], more)
        given.append(clone(s, write(parts, case["space"])))
        if case["space"]:
            parts = [[" " * (i > 0) + p[0] + " " * (
                case["space"] == "end" and 0 < i == len(parts) - 1), p[1]]
                     for i, p in enumerate(parts)]
        news[key] = parts
    out = m.contents(h.compile(template, given, **RTL[case["rtl"]]))
    rec.eq([f[0] for f in out], [f[0] for f in files], "the files")
    out, files = dict(out), dict(files)
    for n in out:
        if not re.search("workbook.xml$|worksheets/|sharedStrings", n):
            rec.eq(out[n], m.raw(files[n], case["bom"]), n)
        elif not n.endswith(".png"):
            rec.true(b"txid" not in out[n], "no marks are left in " + n)
    book = files["xl/workbook.xml"]
    for s in case["sheets"]:
        new = news.get(((s["name"], None),))
        if new:
            book = book.replace('name="%s" ' % m.esc(s["name"]),
                                'name="%s\0" ' % m.esc(new[0][0]))
    rec.eq(m.tree(out["xl/workbook.xml"]), m.tree(book.replace("\0", "")),
           "the workbook with the names of the sheets")
    a, b = x.read(out), x.read(files)
    for s in case["sheets"]:
        n = "xl/worksheets/sheet%d.xml" % s["number"]
        body, rtl, got = a[n]
        body0, rtl0, had = b[n]
        rec.eq(body, body0, "the sheet around the texts")
        if not s["view"]:
            rec.eq(rtl, None, "direction")
        elif case["rtl"] == "none":
            rec.eq(rtl, rtl0, "direction")
        else:
            rec.true(rtl in (("1", "true") if case["rtl"] == "yes" else
                             ("0", "false")), "direction", rtl=rtl)
        it = iter(c for row in s["rows"] for c in row)
        for c, g, w in zip(it, got, had):
            ps = parts_of(c, s, case)
            new = news.get(tuple(map(tuple, ps))) if ps else None
            if new:
                if c["kind"] == "link":
                    t = "".join(p[0] for p in new)
                    w[3] = x.formula(c, new[0][1] or c["url"], t)
                    w[4] = g[4]
                else:
                    w[0] = put(new, w[0])
                    if case["url"] and w[5]:
                        w[5] += more
            elif case.get("url") and w[5]:
                w[5] = g[5]
            rec.eq(g, w, "a cell", kind=c["kind"], parts=new)
