import json
from openformats.exceptions import ParseError
from openformats.formats.json import StructuredJsonHandler
from .json_model import (Renderer, raw, plural_strings, plural_with, escape_key,
                         plural_normal, serialize, pairs)
from .common_chk import clone, uniform, value, placeholder

META = ("context", "developer_comment", "character_limit")


def get(o, key):
    found = None
    for k, v in o[1]:
        if k == key:
            found = v
    return found


def falsy(v):
    return v is None or v[0] == "s" and v[1] == "" or v[0] == "x" and (
        not json.loads(v[1]))


def leaves(n, path=(), key=None):
    """(path of the object, key, object) of every translatable string;
    ("bad", path) for an object whose "string" is not a text."""
    if n[0] == "o":
        for i, (k, v) in enumerate(n[1]):
            full = escape_key(k) if key is None else key + "." + escape_key(k)
            if v[0] != "o":
                continue
            s = get(v, "string")
            if falsy(s):
                for x in leaves(v, path + (i,), full):
                    yield x
            elif s[0] == "p" or s[0] == "s" and s[1].strip():
                yield path + (i,), full, v
            elif s[0] != "s":
                yield "bad", path + (i,), v
    elif n[0] == "a":
        for i, v in enumerate(n[1]):
            if v[0] in "oa":
                for x in leaves(v, path + (i,), (key or "") + "..%d.." % i):
                    yield x


def decode(v):
    return None if v is None else json.loads(
        v[1] if v[0] == "x" else '"%s"' % v[1])


def metadata(o):
    return {"context": decode(get(o, "context")) or "",
            "developer_comment": decode(get(o, "developer_comment")) or "",
            "character_limit": decode(get(o, "character_limit"))}


def full(n):
    """What decoding the document (see pairs()) must give."""
    if n[0] == "o":
        return ["o", [[json.loads('"%s"' % k), full(v)] for k, v in n[1]]]
    if n[0] == "a":
        return [full(v) for v in n[1]]
    return pairs(n[1]) if n[0] == "x" else json.loads('"%s"' % raw(n))


def q(text):
    return json.dumps(text, ensure_ascii=False)[1:-1]


def usable(tree):
    """Metadata of the types the format documents."""
    def ok(n):
        if n[0] == "o":
            for k, v in n[1]:
                if k in ("context", "developer_comment") and not (
                        v[0] == "s" or v == ["x", "null"]):
                    return False
                if k == "character_limit" and not (
                        v[0] == "x" and v[1].lstrip("-").isdigit()
                        and len(v[1]) < 8 and v[1] != "-0" or v == ["x", "null"]):
                    return False
        return True
    return all(x[0] == "bad" or ok(x[2]) for x in leaves(tree))


def fix(n):
    """Replace metadata of undocumented types (same shape otherwise)."""
    if n[0] == "o":
        out = []
        for k, v in n[1]:
            if n is not None and k in ("context", "developer_comment") and (
                    v[0] != "s") and v != ["x", "null"]:
                v = ["s", "meta"]
            elif k == "character_limit" and not (
                    v == ["x", "null"] or v[0] == "x" and
                    v[1].lstrip("-").isdigit() and len(v[1]) < 8
                    and v[1] != "-0"):
                v = ["x", "7"]
            out.append([k, fix(v)])
        return ["o", out]
    return ["a", [fix(v) for v in n[1]]] if n[0] == "a" else n


def walk(rec, case):
    """Parse the case's document; check what is extracted."""
    tree = case["tree"] = fix(case["tree"])
    nl = case["nl"]
    r = Renderer(case)
    doc = uniform(r.text, nl)
    rec.show(doc)
    want = list(leaves(tree))
    bad = [x for x in want if x[0] == "bad"]
    h = StructuredJsonHandler()
    if bad:
        pos = {}
        for path, kind, _, _, items in r.events:
            for i, item in enumerate(items):
                pos[path + (i,)] = item[1]
        line = r.text.count("\n", 0, pos[bad[0][1]]) + 1
        rec.label("refused: string of another type")
        e = rec.raises(ParseError, lambda: h.parse(doc), "a string that is no text")
        rec.eq(str(e), "Invalid string value in line %d" % line,
               "the error names the line of the key")
        return None
    if not want:
        rec.label("refused: no strings")
        rec.raises(ParseError, lambda: h.parse(doc), "no strings to extract")
        return None
    template, strings = h.parse(doc)
    strings = list(strings)
    rec.eq([s.key for s in strings], [k for _, k, _ in want],
           "keys, in document order")
    texts = [get(o, "string") for _, _, o in want]
    rec.eq([value(s) for s in strings],
           [plural_strings(t[1]) if t[0] == "p" else t[1] for t in texts],
           "texts, in document order")
    rec.eq([{m: getattr(s, m) for m in META} for s in strings],
           [metadata(o) for _, _, o in want], "metadata of the strings")
    rec.eq([s.order for s in strings], list(range(len(want))), "order")
    rec.eq([s.template_replacement for s in strings],
           [placeholder(k, metadata(o)["context"], t[0] == "p")
            for (_, k, o), t in zip(want, texts)], "placeholders")
    return doc, template, strings, want


def render(case, want, leaf, canonical=False):
    """The document with leaf(i) in the place of the text of string i."""
    index = {p: i for i, (p, _, _) in enumerate(want)}
    objs = {p: o for p, _, o in want}

    def put(path, n):
        i = index.get(path[:-1])
        if i is not None:
            key = objs[path[:-1]][1][path[-1]][0]
            if key == "string":
                return leaf(i, n)
            if canonical and key in META and n[0] == "s":
                return q(json.loads('"%s"' % n[1]))
        return raw(n)
    return uniform(Renderer(case, put).text, case["nl"])


def updated(n, want, news, path=()):
    """full(n) with the new text and metadata of each string."""
    index = {p: i for i, (p, _, _) in enumerate(want)}

    def go(n, path):
        if n[0] == "o":
            i = index.get(path)
            if i is None:
                return ["o", [[json.loads('"%s"' % k), go(v, path + (j,))]
                              for j, (k, v) in enumerate(n[1])]]
            text, meta = news[i]
            out, seen = [], set()
            for k, v in n[1]:
                seen.add(k)
                if k == "string":
                    v = json.loads('"%s"' % text)
                elif k == "character_limit":
                    v = None if meta[k] is None else ["i", str(meta[k])]
                elif k in META:
                    v = None if meta[k] == "" and v == ["x", "null"] else meta[k]
                else:
                    v = full(v)
                out.append([json.loads('"%s"' % k), v])
            for k in ("context", "character_limit", "developer_comment"):
                if k not in seen and meta[k]:
                    out.append([k, ["i", str(meta[k])] if
                                k == "character_limit" else meta[k]])
            return ["o", out]
        if n[0] == "a":
            return [go(v, path + (j,)) for j, v in enumerate(n[1])]
        return full(n)
    return go(n, path)


def text_of(n, s, t):
    if n[0] == "p":
        return plural_with(n[1], serialize(t["p"]))
    return t["t"]


def check(case, rec):
    made = walk(rec, case)
    if made is None:
        return
    doc, template, strings, want = made
    rec.label("strings:%d" % min(len(want), 3), "root:" + case["tree"][0])

    def hashed(i, n):
        h = strings[i].template_replacement
        return plural_with(n[1], h) if n[0] == "p" else h
    rec.eq(template, render(case, want, hashed),
           "the template is the document with each text replaced")
    out = StructuredJsonHandler().compile(template, [clone(s) for s in strings])
    rec.eq(out, render(case, want, lambda i, n: plural_normal(n[1])
                       if n[0] == "p" else n[1], True),
           "compiling with the extracted strings restores the document")
    # a translation that leaves the metadata alone
    n = len(case["trans"])
    trans = [case["trans"][i % n] for i in range(len(want))]

    def put(i, n):
        return text_of(n, strings[i], trans[i])
    new = [clone(s, {r: x for r, x in t["p"]} if s.pluralized else t["t"])
           for s, t in zip(strings, trans)]
    out = StructuredJsonHandler().compile(template, new)
    rec.eq(out, render(case, want, put, True), "compiling replaces the texts")
    # and one that updates it
    news, changed = [], False
    for i, ((_, _, o), s, t) in enumerate(zip(want, new, trans)):
        meta = metadata(o)
        if t["meta"]:
            changed = changed or any(meta[k] != v for k, v in t["meta"].items())
            meta.update(t["meta"])
            for k, v in t["meta"].items():
                setattr(s, k, v)
        news.append((put(i, get(o, "string")), meta))
    rec.nt(changed)
    rec.label("metadata changed" if changed else "metadata same")
    out = StructuredJsonHandler().compile(template, iter(new))
    try:
        got = pairs(out)
    except ValueError as e:
        rec.fail("the compiled file is not JSON: %s" % e, text=out)
    rec.eq(got, updated(case["tree"], want, news),
           "the compiled file has the new texts and metadata", text=out)
