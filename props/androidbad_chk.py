import re
from openformats.exceptions import ParseError
from openformats.formats.android import AndroidHandler
from .android_model import Model, attr, blank, attrs_text
from .common_chk import uniform


def extracted(model, e):
    if e["k"] not in ("string", "plurals") or model.ignored(e):
        return False
    if e["k"] == "string":
        return not blank(e["text"])
    return not all(blank(it["text"]) for it in e["items"])


def check(case, rec):
    kind, bad = case["bad"]
    model = Model(case)
    items = case["items"]
    names = ["zz"]
    if any(attr(e, "name") == "zz" for e in items):
        return
    if kind == "duplicate":
        again = [e for e in items if extracted(model, e)]
        if not again:
            rec.label("nothing to repeat")
            return
        e = again[case["at"] % len(again)]
        attrs = attrs_text([a for a in e["attrs"]
                            if a[1] in ("name", "product")])
        body = "again" if e["k"] == "string" else \
            "\n<item quantity=\"other\">again</item>"
        bad = "\1<%s%s>%s</%s>" % (e["k"], attrs, body, e["k"])
        rec.label("repeats a " + e["k"])
        case["at"] = len(items)
    if bad:
        items.insert(case["at"], {"k": "raw", "raw": bad,
                                  "pre": [], "tail": "\n"})
    text = model.render()
    want = None
    if kind == "cut":
        start = text.index("<resources") + len("<resources")
        end = text.rindex("</resources>")
        text = text[:start + case["cut"] % (end - start)]
    elif kind == "no root":
        text = text.replace("resources", "other")
    elif "\1" in text:
        want = text.count("\n", 0, text.index("\1")) + 1
        text = text.replace("\1", "")
    text = uniform(text, case["nl"])
    rec.show(text)
    rec.label(kind)
    rec.nt(len(items) > 1)
    e = rec.raises(ParseError, lambda: AndroidHandler().parse(text),
                   "a document with a defect (%s) is refused" % kind)
    m = re.search(r"line (\d+)", str(e))
    if m and want and "not closed" != kind:
        rec.label("names a line")
        rec.eq(int(m.group(1)), want, "the error names the line of the defect",
               message=str(e))
