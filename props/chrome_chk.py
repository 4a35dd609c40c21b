import json
import re
from openformats.exceptions import ParseError
from openformats.formats.json import ChromeI18nHandler, ChromeI18nHandlerV3
from .json_model import Renderer, plural_strings, plural_with, raw, \
    plural_normal, escape_key, pairs, serialize, leaves as all_leaves
from .jsonkv_chk import templated, translated, new_value
from .structjson_chk import full
from .arb_chk import member, normal
from .common_chk import clone, uniform, value, placeholder


def leaves(tree):
    """(path, key, node, comment) of the messages of a version 3 file."""
    for i, (k, v) in enumerate(tree[1]):
        if v[0] != "o":
            continue
        m, d = member(v, "message"), member(v, "description")
        if m is None or m[0] not in "sp":
            continue
        j = [x[0] for x in v[1]].index("message")
        yield (i, j), k, m, (raw(d) if d and d[0] in "sp" else "")


def leaves2(tree):
    root = {}
    if tree[0] == "o":
        root = {escape_key(k): v for k, v in tree[1]}
    for p, k, n in all_leaves(tree):
        if not k.endswith("message"):
            continue
        top = tree[1][p[0]][0] if tree[0] == "o" else None
        comment = None  # not claimed
        if top is not None and not set(top) & set(".\\"):
            d = member(root[top], "description") if root[top][0] == "o" else None
            if d is None:
                comment = ""
            elif d[0] in "sp":
                comment = json.loads('"%s"' % raw(d))
        yield p, k, n, comment


def check(case, rec):
    nl, tree, v3 = case["nl"], case["tree"], case["v3"]
    H = ChromeI18nHandlerV3 if v3 else ChromeI18nHandler
    rec.label("v3" if v3 else "v2")
    if case["dup"] is not None and tree[0] == "o":
        tree[1].append([tree[1][case["dup"] % len(tree[1])][0],
                        ["o", [["message", ["s", "again"]]]]])
        r = Renderer(case)
        pos = [e for e in r.events if e[0] == ()][0][4][-1][1]
        text = uniform(r.text, nl)
        rec.show(text)
        rec.label("duplicate key")
        e = rec.raises(ParseError, lambda: H().parse(text),
                       "a repeated key is refused")
        rec.eq(re.findall(r"line (\d+)", str(e))[-1:],
               [str(r.text.count("\n", 0, pos) + 1)],
               "the error names its line", message=str(e))
        return
    doc = uniform(Renderer(case).text, nl)
    rec.show(doc)
    h = H()
    if v3 and tree[0] == "a":
        rec.label("refused: root")
        rec.raises(ParseError, lambda: h.parse(doc), "a root that is a list")
        return
    want = list(leaves(tree) if v3 else leaves2(tree))
    template, strings = h.parse(doc)
    strings = list(strings)
    rec.eq([(s.key, value(s), s.order, bool(s.pluralized))
            for s in strings],
           [(k, plural_strings(n[1]) if n[0] == "p" else n[1], i, n[0] == "p")
            for i, (_, k, n, _) in enumerate(want)], "strings in order")
    for s, w in zip(strings, want):
        if w[3] is not None:
            rec.eq(s.developer_comment or "", w[3],
                   "the description is the comment", key=s.key)
    rec.eq([s.template_replacement for s in strings],
           [placeholder(k, "", n[0] == "p") for _, k, n, _ in want],
           "placeholders")
    want3 = [w[:3] for w in want]
    rec.eq(template, uniform(templated(case, want3, strings), nl),
           "the template is the document with each message replaced")
    rec.label("strings:%d" % min(3, len(want)))
    rec.nt(len(want) > 1)
    by = {p: n for p, _, n in want3}
    out = h.compile(template, [clone(s) for s in strings])
    rec.eq(out, uniform(Renderer(
        case, lambda p, n: normal(n) if p in by else raw(n)).text, nl),
        "compiling with the extracted strings restores the document")
    trans = [case["trans"][i % 5] for i in range(len(want))]
    new = [clone(s, new_value(s, t)) for s, t in zip(strings, trans)]
    out = H().compile(template, iter(new))
    rec.eq(out, uniform(translated(case, want3, trans), nl),
           "compiling replaces the messages")
    kept = [i for i in range(len(want)) if case["keep"][i % 5]]
    if len(kept) == len(want):
        return
    out = H().compile(template, [new[i] for i in kept])
    rec.label("removed some" if kept else "removed all")
    if v3:
        texts = {want[i][0]: translated(
            {"tree": want[i][2], "ws": [""], "lead": "", "tail": ""},
            [((), "", want[i][2])], [trans[i]]) for i in kept}
        gone = {want[i][0][0] for i in range(len(want)) if i not in kept}
        items = []
        for i, (k, v) in enumerate(tree[1]):
            if i in gone:
                continue
            c = full(v)
            for p, t in texts.items():
                if p[0] == i:
                    c[1][p[1]][1] = json.loads(t)
            items.append([json.loads('"%s"' % k), c])
        try:
            rec.eq(pairs(out), ["o", items], "content without the missing "
                   "messages", text=out)
        except ValueError as e:
            rec.fail("not JSON after removal: %s" % e, text=out)
    else:
        keep = [(want3[i], strings[i], trans[i]) for i in range(len(want))]

        def leaf(p, n):
            for i, (w, s, t) in enumerate(keep):
                if w[0] == p:
                    x = (s.template_replacement if i not in kept else
                         serialize(t["p"]) if n[0] == "p" else t["t"])
                    return plural_with(n[1], x) if n[0] == "p" else x
            return raw(n)
        rec.eq(out, uniform(Renderer(case, leaf).text, nl),
               "messages without a translation are left alone")
    rec.eq(ChromeI18nHandler().sync_template(template, new), template,
           "syncing keeps the template")
