import re
from openformats.exceptions import ParseError
from openformats.formats.stringsdict import StringsDictHandler as H
from .common_chk import uniform
from .stringsdict_chk import render


def check(case, rec):
    kind, bad, where = case["bad"]
    if any(e["key"] == "zz" for e in case["entries"]):
        return
    marks = []
    case["nl"], nl = "\n", case["nl"]
    tops = []
    one = dict(case, head="")
    for e in case["entries"]:
        t = render(dict(one, entries=[e]))
        tops.append(t[len("<dict>"):-len("\n</dict>")])
    at = {"mid": case["at"] % (len(tops) + 1), "end": len(tops), "start": 0,
          "after": len(tops)}[where]
    if kind == "duplicate":
        if not tops:
            rec.label("nothing to repeat")
            return
        e = case["entries"][case["at"] % len(tops)]
        bad = "\n\1<key>%s</key><dict></dict>" % e["key"]
        at = len(tops)
    after = ""
    if where == "after":
        after, bad = bad, ""
    tops.insert(at, bad)
    text = case["head"] + "<dict>" + "".join(tops) + "\n</dict>" + after
    if case["head"]:
        text += "</plist>"
    want = None
    if kind == "cut":
        start = text.index("<dict>") + len("<dict>")
        end = text.rindex("</dict>") + len("</dict")
        text = text[:start + case["cut"] % (end - start)]
    elif kind == "no root":
        text = text.replace("dict", "array")
    elif "\1" in text:
        want = text.count("\n", 0, text.index("\1")) + 1
        text = text.replace("\1", "")
    text = uniform(text, nl)
    rec.show(text)
    rec.label(kind)
    rec.nt(len(case["entries"]) > 0)
    e = rec.raises(ParseError, lambda: H().parse(text),
                   "a file with a defect (%s) is refused" % kind)
    m = re.search(r"line (\d+)", str(e))
    if m and want and kind != "not closed":
        rec.label("names a line")
        rec.eq(int(m.group(1)), want, "the error names the line of the defect",
               message=str(e))
