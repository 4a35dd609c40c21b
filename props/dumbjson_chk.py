import json
from openformats.utils.json import DumbJson, escape, unescape
from openformats.formats.json import (
    JsonHandler, StructuredJsonHandler, ArbHandler, ChromeI18nHandler,
    ChromeI18nHandlerV3)
from openformats.exceptions import ParseError
from .json_model import Renderer, raw
from .common_chk import uniform


def check(case, rec):
    r = Renderer(case["doc"])
    text, off = r.text, len(case["prefix"])
    json.loads(text)
    rec.show(text)
    source = case["prefix"] + text
    by_path = {e[0]: e for e in r.events}
    rec.nt(len(r.events) >= 2)
    rec.label("containers:%d" % min(len(r.events), 4))

    def walk(d, path):
        _, kind, start, end, items = by_path[path]
        rec.eq(d.type, dict if kind == "o" else list, "container kind")
        rec.eq(d.start, start + off, "where the container starts")
        got = list(d)
        rec.eq(len(got), len(items), "number of items", path=path)
        for i, (g, w) in enumerate(zip(got, items)):
            if kind == "o":
                gk, gkp, gv, gvp = g
                wk, wkp, wv, wvp = w
                rec.eq(gk, wk, "raw key")
                rec.eq(gkp, wkp + off, "key position")
            else:
                (gv, gvp), (wv, wvp) = g, w
            rec.eq(gvp, wvp + off, "value position", path=path, index=i)
            if wv[0] in "oa":
                rec.true(isinstance(gv, DumbJson), "embedded container")
                walk(gv, path + (i,))
            elif wv[0] == "x":
                want = json.loads(wv[1])
                rec.true(type(gv) is type(want) and gv == want,
                         "value", got=gv, want=want)
            else:
                rec.eq(gv, raw(wv), "raw string")
        rec.eq(d.end, end + off, "where the container ends")
        if kind == "o":
            keys = [w[0] for w in items]
            n = case["pick"]
            ask = [k for i, k in enumerate(keys) if (i + n) % 2]
            ask.insert(n % (len(ask) + 1), "\\nope")
            if n % 3 == 0:
                ask.insert(0, "\\neither")
            found = d.find_children(*ask)
            rec.eq(len(found), len(ask), "find_children: number of results")
            for k, (v, p) in zip(ask, found):
                if k in keys:
                    rec.eq(p, items[keys.index(k)][3] + off,
                           "find_children position")
                else:
                    rec.eq((v, p), (None, None), "find_children, absent key")

    walk(DumbJson(source, off), ())
    # end is available without iterating first
    rec.eq(DumbJson(source, off).end, by_path[()][3] + off, "end, asked first")

    # strings
    s = case["plain"]
    rec.eq(unescape(escape(s)), s, "unescape undoes escape")
    rec.eq(json.loads('"' + escape(s) + '"'), s,
           "an escaped text is the JSON form of the text")
    rec.eq(unescape(case["raw"]), json.loads('"' + case["raw"] + '"'),
           "unescape decodes like JSON")
    rec.eq(unescape("".join(a for a, _ in case["loose"])),
           "".join(b for _, b in case["loose"]),
           "unescape leaves what is not an escape sequence")
    for H in (JsonHandler, StructuredJsonHandler, ArbHandler,
              ChromeI18nHandler, ChromeI18nHandlerV3):
        rec.eq(H.unescape(H.escape(s)), s, "handler unescape undoes escape")

    # what is not JSON is refused as such
    core = text.strip()
    cut = case["cut"] % len(core)
    bad = core[:cut] if cut else core + core
    for H in (JsonHandler, ArbHandler, StructuredJsonHandler,
              ChromeI18nHandler, ChromeI18nHandlerV3):
        rec.raises(ParseError, lambda: H().parse(bad),
                   "%s: a truncated document is refused" % H.name, bad=bad)
        for scalar in ('"a"', "1", "null", "true"):
            rec.raises(ParseError, lambda: H().parse(scalar),
                       "%s: a scalar document is refused" % H.name)
