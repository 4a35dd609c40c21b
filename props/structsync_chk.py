import json
from openformats.formats.json import StructuredJsonHandler
from openformats.strings import OpenString
from .json_model import pairs, escape_key, plural_with, serialize
from .structjson_chk import walk, get, falsy, full, text_of, updated, metadata
from .common_chk import clone


def narrow(n, root=True):
    """Inside the documented shape: a string object holds no other strings,
    a list holds them only at the root."""
    if n[0] == "o":
        items = []
        for k, v in n[1]:
            if v[0] == "o":
                if get(v, "string") is not None:
                    s = get(v, "string")
                    if falsy(s):
                        v = ["o", [x for x in v[1] if x[1][0] != "o"]]
                    elif s[0] not in "sp":
                        v = ["o", [x for x in v[1] if x[0] != "string"] +
                             [["string", ["s", "text"]]]]
                else:
                    v = narrow(v, False)
            items.append([k, v])
        return ["o", items]
    return ["a", [narrow(v) if v[0] == "o" else v for v in n[1] if v[0] != "a"]]


def prune(n, keep, path=()):
    """Strings that go take their object with them, and objects left without
    strings go too; other values stay."""
    if n[0] == "a":
        kids = [(v, prune(v, keep, path + (i,)) if v[0] == "o" else (v, True))
                for i, v in enumerate(n[1])]
        return ["a", [new for _, (new, has) in kids if has]]
    kids, has = [], False
    for i, (k, v) in enumerate(n[1]):
        p = path + (i,)
        if v[0] != "o":
            kids.append([k, v])
        elif get(v, "string") is not None:
            if p in keep:
                has = True
                kids.append([k, ["leaf", p, v]])
        else:
            new, inner = prune(v, keep, p)
            if inner:
                has = True
                kids.append([k, new])
    return ["o", kids], has


def content(n, leaf):
    if n[0] == "leaf":
        return leaf(n[1], n[2])
    if n[0] == "o":
        return ["o", [[json.loads('"%s"' % k), content(v, leaf)]
                      for k, v in n[1]]]
    if n[0] == "a":
        return [content(v, leaf) for v in n[1]]
    return full(n)


def check(case, rec):
    case["tree"] = narrow(case["tree"])
    made = walk(rec, case)
    if made is None:
        return
    doc, template, strings, want = made
    tree = case["tree"]
    kept = [p for i, (p, _, _) in enumerate(want)
            if case["keep"][i % len(case["keep"])]]
    by = {p: (i, s, o) for i, ((p, _, o), s) in enumerate(zip(want, strings))}
    existing = set(k for k, _ in tree[1]) if tree[0] == "o" else ()
    new = [d for d in case["new"] if d["k"] not in existing]
    added = [OpenString(escape_key(d["k"]), d["t"], order=len(strings) + i,
                        **d["meta"]) for i, d in enumerate(new)]
    h = StructuredJsonHandler()
    stringset = [clone(by[p][1]) for p in kept] + added
    synced = h.sync_template(template, list(stringset))
    rec.label("removed:%s" % ("none" if len(kept) == len(want) else
                              "all" if not kept else "some"),
              "new:%d" % len(new), "root:" + tree[0])
    rec.nt(kept and len(kept) < len(want) or new and want)
    base = prune(tree, set(kept))
    if tree[0] == "o":
        base = base[0]
        if not kept:
            base = ["o", [kv for kv in base[1] if kv[1][0] != "o"]]
    trans = {p: case["trans"][i % 4] for i, p in enumerate(kept)}

    def target(texts, add):
        def leaf(p, o):
            return updated(o, [((), None, o)], [(texts(p, o), metadata(o))])
        got = content(base, leaf)
        extra = []
        for d, s in zip(new, added):
            obj = [["string", add(d, s)]]
            for k in ("context", "developer_comment"):
                if d["meta"][k]:
                    obj.append([k, d["meta"][k]])
            if d["meta"]["character_limit"] is not None:
                obj.append(["character_limit",
                            ["i", str(d["meta"]["character_limit"])]])
            extra.append([json.loads('"%s"' % d["k"]), ["o", obj]])
        if tree[0] == "o":
            return ["o", got[1] + extra]
        return got + [["o", [e]] for e in extra]

    def hashed(p, o):
        h = by[p][1].template_replacement
        t = get(o, "string")
        return plural_with(t[1], h) if t[0] == "p" else h

    def texted(p, o):
        return text_of(get(o, "string"), by[p][1], trans[p])
    final = [clone(by[p][1], {r: x for r, x in trans[p]["p"]}
                   if by[p][1].pluralized else trans[p]["t"])
             for p in kept] + added
    out = StructuredJsonHandler().compile(synced, final)
    for name, text, goal in (
            ("template", synced,
             target(hashed, lambda d, s: s.template_replacement)),
            ("compiled file", out,
             target(texted, lambda d, s: json.loads('"%s"' % d["t"])))):
        try:
            got = pairs(text)
        except ValueError as e:
            rec.fail("the synced %s is not JSON: %s" % (name, e), text=text,
                     template=template)
        rec.eq(got, goal, "content of the synced %s" % name, text=text,
               template=template)
