from openformats.exceptions import ParseError
from .customxml_chk import render, handler


def check(case, rec):
    kind, bad = case["bad"]
    n = case["names"]
    bad = bad.format(r=n["root_name"], s=n["section_name"],
                     i=n["section_id_name"], t=n["string_name"],
                     k=n["string_key_name"], b=n["base_string_name"],
                     v=n["variant_string_name"], c=n["variant_string_id_name"],
                     m=case["more"])
    text = render(case, None, [case["at"], bad] if bad else None)
    if kind == "cut":
        root = "<" + n["root_name"]
        start = text.index(root) + len(root)
        end = text.rindex("</" + n["root_name"] + ">") + len(root) + 1
        text = text[:start + case["cut"] % (end - start)]
    elif kind == "no root":
        root = n["root_name"]
        case["names"] = dict(n, root_name=("absent", root.swapcase(), "x" + root,
                                           root + "x", root[1:])[case["cut"] % 5])
        case["opts"] = "given"
    rec.show(text)
    rec.label(kind)
    rec.nt(any(s["kids"] for s in case["sections"]))
    rec.raises(ParseError, lambda: handler(case).parse(text),
               "a document with a defect (%s) is refused" % kind)
