import re
import xml.etree.ElementTree as ET
from openformats.formats.stringsdict import StringsDictHandler as H
from .common_chk import clone, placeholder, value, uniform

RULES = {"zero": 0, "one": 1, "two": 2, "few": 3, "many": 4, "other": 5}
NAMES = {v: k for k, v in RULES.items()}
FORMAT = "NSStringLocalizedFormatKey"


def el(tag, text, sp=""):
    if text is None:
        return "<%s/>" % tag
    return "<%s%s>%s</%s>" % (tag, sp, text, tag)


def pairs(ws, items, end):
    if not items:
        return "<dict></dict>"
    return "<dict>" + ws + ws.join(k + ws + v for k, v in items) + end + "</dict>"


def render(case, forms=None, strip=False):
    """forms(entry index, variable index) -> {rule: text}, None to drop it;
    without it, the document as written."""
    w1, w2, w3 = case["ws"]
    top = []
    for i, e in enumerate(case["entries"]):
        items = []
        text = e["fmt"] and e["fmt"]["text"]
        if strip and e["inline"]:
            text = "%#@" + e["inline"][0] + "@"
        fmt = [(el("key", FORMAT), el("string", text, e["open"]))]
        for j, v in enumerate(e["vars"]):
            if e["fmt"] and e["fmt"]["at"] == j:
                items += fmt
            body = []
            new = forms(i, j) if forms else "keep"
            if new is None:
                continue
            if new == "keep":
                new = [b[1:] for b in v["body"] if b[0] == "f"]
                body = [(el("key", b[1]), el("string", b[2]))
                        for b in v["body"]]
            else:
                body = [(el("key", b[1]), el("string", b[2]))
                        for b in v["body"] if b[0] == "s"]
                body += [(el("key", r), el("string", t)) for r, t in new]
            items.append((el("key", v["name"]), pairs(w3, body, w2)))
        if e["fmt"] and e["fmt"]["at"] == len(e["vars"]):
            items += fmt
        top.append((el("key", e["key"]), pairs(w2, items, w1)))
    text = case["head"] + pairs(w1, top, "\n")
    if case["head"]:
        text += "\n</plist>\n"
    return uniform(text, case["nl"])


def full(e, v):
    """The forms of a variable with the text around it put back."""
    forms = {}
    for b in v["body"]:
        if b[0] == "f":
            t = b[2]
            if e["inline"] and e["inline"][0] == v["name"]:
                t = e["inline"][1] + (t or "") + e["inline"][2]
            forms[b[1]] = t
    return forms


def wanted(case):
    out = []
    for i, e in enumerate(case["entries"]):
        for j, v in enumerate(e["vars"]):
            forms = full(e, v)
            if any(t and t.strip() for t in forms.values()):
                out.append(((i, j), e["key"], v["name"], forms))
    return out


def node(e):
    if e.tag == "dict":
        kids = [node(k) for k in e]
        return [kids[i:i + 2] for i in range(0, len(kids), 2)]
    return (e.tag, "".join(e.itertext()), [k.tag for k in e])


def rows(d):
    """A dict's pairs; the rules of a variable in any order."""
    out = []
    for k, v in d:
        if isinstance(v, list):
            v = rows(v)
            if not any(isinstance(x[1], list) for x in v):
                v = sorted(v, key=repr)
        out.append([k, v])
    return out


def shape(text):
    text = re.sub("<!DOCTYPE[^>]*>", "", text)
    root = ET.fromstring(text.encode("utf-8"))
    return rows(node(root if root.tag == "dict" else root[0]))


def check(case, rec):
    text = render(case)
    rec.show(text)
    template, strings = H().parse(text)
    strings = list(strings)
    want = wanted(case)
    rec.eq([(s.key, s.context, bool(s.pluralized), s.order,
             {NAMES[r]: t for r, t in s.string.items()}) for s in strings],
           [(w[1], w[2], True, i, w[3]) for i, w in enumerate(want)],
           "the strings, in document order")
    rec.eq([template.count(s.template_replacement) for s in strings],
           [1] * len(strings), "one place per string in the template")
    rec.nt(len(want) > 1)
    rec.label("strings:%d" % min(len(want), 4), "nl:%r" % case["nl"])
    for e in case["entries"]:
        if e["inline"] and (e["inline"][1] or e["inline"][2]):
            rec.label("text around the variable")
            if e["inline"][0] != e["vars"][0]["name"]:
                rec.label("not the first variable")
    by = {w[0]: s for w, s in zip(want, strings)}

    def originals(i, j):
        if (i, j) not in by:
            return "keep"
        return list(full(case["entries"][i], case["entries"][i]["vars"][j]).items())
    out = H().compile(template, [clone(s) for s in strings])
    goal = render(case, originals, True)
    rec.eq(shape(out), shape(goal), "compiling with the extracted strings "
           "restores the content, with the text around a variable in its forms")
    plain = all(v["plain"] for e in case["entries"] for v in e["vars"]) \
        and not any(e["open"] for e in case["entries"]) \
        and "keep" not in [originals(i, j) for i, e in enumerate(
            case["entries"]) for j in range(len(e["vars"]))]
    if plain:
        rec.label("exact layout")
        rec.eq(out, goal, "and the layout")
    # the compiled document stands for the same strings
    t2, again = H().parse(out)
    rec.eq([(s.key, s.context, value(s), s.template_replacement)
            for s in again],
           [(s.key, s.context, value(s), s.template_replacement)
            for s in strings], "the compiled document has the same strings")
    # translations, some removed
    new, done = [], {w[0]: None for w in want}
    for n, (w, s) in enumerate(zip(want, strings)):
        if case["drop"] >> (n % 8) & 1 and (case["drop"] & 64):
            rec.label("a string removed")
            continue
        rules = case["rules"][n % 2]
        forms = [(r, case["trans"][(n + m) % 5]) for m, r in enumerate(rules)]
        new.append(clone(s, {RULES[r]: t for r, t in forms}))
        done[w[0]] = forms
    out = H().compile(template, iter(new))
    goal = render(case, lambda i, j: done[(i, j)] if (i, j) in done else "keep",
                  True)
    rec.eq(shape(out), shape(goal), "compiling writes each translation in its "
           "place and leaves out what is not translated")
    if plain and None not in done.values():
        rec.eq(out, goal, "and keeps the layout")
    # escaping
    p = case["plain"]
    rec.eq(H.unescape(H.escape(p)), p, "unescape undoes escape")
    if all(ord(c) >= 32 for c in p):
        rec.eq(ET.fromstring(("<s>%s</s>" % H.escape(p)).encode("utf-8")).text
               or "", p, "an escaped text reads as the text")
