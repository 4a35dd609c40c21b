import json
from openformats.formats.json import JsonHandler
from openformats.strings import OpenString
from .json_model import Renderer, leaves, escape_key, pairs, translatable, \
    plural_with, serialize, raw
from .common_chk import clone, uniform, placeholder
from .jsonkv_chk import new_value


def prune(n, keep, path=()):
    """The tree without the removed strings and what that leaves empty."""
    if n[0] in "oa":
        if not n[1]:
            return n
        kids = []
        for i, c in enumerate(n[1]):
            v = c[1] if n[0] == "o" else c
            p = prune(v, keep, path + (i,))
            if p is not None:
                kids.append([c[0], p] if n[0] == "o" else p)
        return [n[0], kids] if kids or not path else None
    if translatable(n):
        return ["k", path] if path in keep else None
    return n


def expected(n, texts):
    """What json decoding of the pruned tree must give (see pairs())."""
    if n[0] == "o":
        return ["o", [[json.loads('"%s"' % k), expected(v, texts)]
                      for k, v in n[1]]]
    if n[0] == "a":
        return [expected(v, texts) for v in n[1]]
    if n[0] == "k":
        return json.loads('"%s"' % texts[n[1]])
    if n[0] == "x":
        return pairs(n[1])
    return json.loads('"%s"' % n[1])


def check(case, rec):
    nl = case["nl"]
    tree = case["tree"]
    doc = uniform(Renderer(case).text, nl)
    rec.show(doc)
    h = JsonHandler()
    template, strings = h.parse(doc)
    strings = list(strings)
    want = list(leaves(tree))
    by_path = {p: s for (p, _, _), s in zip(want, strings)}
    node = {p: n for p, _, n in want}
    kept = [p for (p, _, _), k in zip(want, case["keep"]) if k]
    trans = {p: t for (p, _, _), t in zip(want, case["trans"])}
    existing = set(k for k, v in tree[1]) if tree[0] == "o" else set()
    new = [d for d in case["new"] if d["k"] not in existing]
    mixed = case["mixed"] and new
    rec.label("root:" + tree[0], "mixed" if mixed else "appended",
              "new:%d" % min(2, len(new)),
              "removed:%s" % ("none" if len(kept) == len(want) else
                              "all" if not kept else "some"))
    rec.nt(len(kept) < len(want) and kept or new and want)

    # the stringset the template has to be brought in line with
    seq = [("old", p) for p in kept]
    for d in new:
        seq.insert(d["at"] if mixed else len(seq), ("new", d))
    stringset, translated, texts, final = [], [], {}, []
    for i, (kind, x) in enumerate(seq):
        if kind == "old":
            s = by_path[x]
            stringset.append(clone(s))
            v = new_value(s, trans[x])
            translated.append(clone(s, v))
        else:
            s = OpenString(escape_key(x["k"]), x["t"], order=i)
            stringset.append(s)
            translated.append(s)
    synced = h.sync_template(template, list(stringset))

    if not new and len(kept) == len(want):
        rec.eq(synced, template, "nothing to add or remove: same template")
    # expected content, with placeholders and with translations
    hashes, values = {}, {}
    for p in kept:
        s, n = by_path[p], node[p]
        if n[0] == "p":
            hashes[p] = plural_with(n[1], s.template_replacement)
            values[p] = plural_with(n[1], serialize(trans[p]["p"]))
        else:
            hashes[p] = s.template_replacement
            values[p] = trans[p]["t"]
    added = [(json.loads('"%s"' % d["k"]),
              placeholder(escape_key(d["k"])), json.loads('"%s"' % d["t"]))
             for d in (x for k, x in seq if k == "new")]

    def target(texts, which):
        base = expected(prune(tree, set(kept)), texts)
        if tree[0] == "o":
            return ["o", base[1] + [[a[0], a[which]] for a in added]]
        return base + [["o", [[a[0], a[which]]]] for a in added]
    out = JsonHandler().compile(synced, translated)
    for label, text, texts, which in (
            ("template", synced, hashes, 1), ("compiled file", out, values, 2)):
        try:
            got = pairs(text)
        except ValueError as e:
            rec.fail("the synced %s is not JSON: %s" % (label, e), text=text,
                     template=template)
        goal = target(texts, which)
        if mixed:
            # strings end up in the order of the stringset; other entries stay
            strs = {json.loads('"%s"' % tree[1][p[0]][0]): expected(
                ["k", p], texts) for p in kept}
            strs.update({a[0]: a[which] for a in added})
            order = [json.loads('"%s"' % (tree[1][x[0]][0] if k == "old"
                                          else x["k"])) for k, x in seq]
            if len(set(order)) == len(order):
                rec.eq([kv for kv in got[1] if kv[0] in strs],
                       [[k, strs[k]] for k in order],
                       "strings of the %s" % label, text=text)
                rec.eq([kv for kv in got[1] if kv[0] not in strs],
                       [kv for kv in goal[1] if kv[0] not in strs],
                       "other entries of the %s" % label, text=text)
        else:
            rec.eq(got, goal, "content of the synced %s" % label, text=text,
                   template=template)
        bare = text.replace("\r\n", "")
        rec.true("\n" not in bare or "\r\n" not in text,
                 "newlines of the %s are not mixed" % label, text=text)
