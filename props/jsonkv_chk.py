import json
import re
from openformats.exceptions import ParseError
from openformats.formats.json import JsonHandler
from .json_model import (Renderer, leaves, raw, plural_strings, plural_with,
                         plural_normal, serialize, pairs)
from .common_chk import clone, uniform, value


def extract(rec, strings, want):
    """strings is what the handler extracted, want the model's leaves."""
    rec.eq([s.key for s in strings], [k for _, k, _ in want],
           "keys, in document order")
    rec.eq([value(s) for s in strings],
           [plural_strings(n[1]) if n[0] == "p" else n[1] for _, _, n in want],
           "texts, in document order")
    rec.eq([bool(s.pluralized) for s in strings],
           [n[0] == "p" for _, _, n in want], "which are pluralized")
    rec.eq([s.order for s in strings], list(range(len(want))), "order")
    rec.eq(len(set(s.template_replacement for s in strings)), len(strings),
           "every string has its own placeholder")


def templated(case, want, strings):
    hashes = {p: s.template_replacement for (p, _, _), s in zip(want, strings)}

    def leaf(path, n):
        if path not in hashes:
            return raw(n)
        if n[0] == "p":
            return plural_with(n[1], hashes[path])
        return hashes[path]
    return Renderer(case, leaf).text


def translated(case, want, trans):
    by = {p: t for (p, _, _), t in zip(want, trans)}

    def leaf(path, n):
        if path not in by:
            return raw(n)
        if n[0] == "p":
            return plural_with(n[1], serialize(by[path]["p"]))
        return by[path]["t"]
    return Renderer(case, leaf).text


def normal(case):
    return Renderer(case, lambda p, n: plural_normal(n[1]) if n[0] == "p"
                    else n[1]).text


def new_value(s, t):
    return {r: x for r, x in t["p"]} if s.pluralized else t["t"]


def duplicate(case, rec):
    """Repeat a key in one of the objects; the scanner must refuse it."""
    objs = []

    def walk(n):
        if n[0] == "o":
            if n[1]:
                objs.append(n)
            for _, v in n[1]:
                walk(v)
        elif n[0] == "a":
            for v in n[1]:
                walk(v)
    walk(case["tree"])
    if not objs:
        return None
    o = objs[case["dup"] % len(objs)]
    src = o[1][case["dup"] % len(o[1])]
    o[1].append([src[0], ["s", "again"]])
    r = Renderer(case)
    for e in r.events:
        if e[1] == "o" and len(e[4]) == len(o[1]) and e[4][-1][2] is o[1][-1][1]:
            return r.text, r.text.count("\n", 0, e[4][-1][1]) + 1
    raise AssertionError("model")


def check(case, rec):
    nl = case["nl"]
    if case["dup"] is not None:
        made = duplicate(case, rec)
        if made:
            text, line = made
            text = uniform(text, nl)
            rec.show(text)
            rec.label("duplicate key")
            e = rec.raises(ParseError, lambda: JsonHandler().parse(text),
                           "a repeated key is refused")
            nums = re.findall(r"line (\d+)$", str(e))
            rec.eq(nums, [str(line)], "the error names its line",
                   message=str(e))
            return
    want = list(leaves(case["tree"]))
    doc = uniform(Renderer(case).text, nl)
    rec.show(doc)
    rec.label("strings:%d" % min(3, len(want)), "root:" + case["tree"][0],
              *["kind:" + n[0] for _, _, n in want])
    rec.nt(len(want) >= 2)
    h = JsonHandler()
    template, strings = h.parse(doc)
    strings = list(strings)
    extract(rec, strings, want)
    rec.eq(template, uniform(templated(case, want, strings), nl),
           "the template is the document with each text replaced")
    out = h.compile(template, [clone(s) for s in strings])
    rec.eq(out, uniform(normal(case), nl),
           "compiling with the extracted strings restores the document")
    out = JsonHandler().compile(
        template, [clone(s, new_value(s, t))
                   for s, t in zip(strings, case["trans"])])
    rec.eq(out, uniform(translated(case, want, case["trans"]), nl),
           "compiling replaces exactly the texts")
