import json
import re
from openformats.exceptions import ParseError
from openformats.formats.json import ArbHandler
from .json_model import Renderer, plural_strings, plural_with, \
    plural_normal, escape_key, pairs, translatable, serialize
from .jsonkv_chk import templated, translated, new_value
from .structjson_chk import full
from .common_chk import clone, uniform, value, placeholder


def member(o, key):
    for k, v in (o or ["o", []])[1]:
        if k == key:
            return v
    return None


def leaves(tree):
    """(path, key, node, context, comment) of the extracted strings."""
    root = dict((k, v) for k, v in tree[1])
    for i, (k, v) in enumerate(tree[1]):
        if k.startswith("@") or not translatable(v):
            continue
        if v[0] == "p" and any(not c.strip() for _, _, c in v[1]["forms"]):
            continue
        m = root.get("@" + k)
        if m is not None and m[0] == "o":
            t = member(m, "type")
            if t is not None and t != ["s", "text"]:
                continue
            got = [member(m, f) for f in ("context", "description")]
            ctx, com = [x[1] if x is not None and x[0] == "s" else ""
                        for x in got]
        else:
            ctx = com = ""
        yield (i,), escape_key(k), v, ctx, com


def normal(n):
    return plural_normal(n[1]) if n[0] == "p" else n[1]


def check(case, rec):
    nl, tree = case["nl"], case["tree"]
    if case["dup"] is not None:
        src = tree[1][case["dup"] % len(tree[1])]
        tree[1].append([src[0], ["s", "again"]])
        r = Renderer(case)
        pos = [e for e in r.events if e[0] == ()][0][4][-1][1]
        text = uniform(r.text, nl)
        rec.show(text)
        rec.label("duplicate key")
        e = rec.raises(ParseError, lambda: ArbHandler().parse(text),
                       "a repeated key is refused")
        rec.eq(re.findall(r"line (\d+)$", str(e)),
               [str(r.text.count("\n", 0, pos) + 1)],
               "the error names its line", message=str(e))
        return
    doc = uniform(Renderer(case).text, nl)
    rec.show(doc)
    want = list(leaves(tree))
    h = ArbHandler()
    if not want:
        rec.label("refused: no strings")
        rec.raises(ParseError, lambda: h.parse(doc), "no strings to extract")
        return
    template, strings = h.parse(doc)
    strings = list(strings)
    rec.eq([(s.key, value(s), s.context, s.developer_comment, s.order,
             bool(s.pluralized)) for s in strings],
           [(k, plural_strings(n[1]) if n[0] == "p" else n[1], ctx, com, i,
             n[0] == "p") for i, (_, k, n, ctx, com) in enumerate(want)],
           "the strings, in document order")
    rec.eq([s.template_replacement for s in strings],
           [placeholder(k, ctx, n[0] == "p") for _, k, n, ctx, _ in want],
           "placeholders")
    want3 = [w[:3] for w in want]
    rec.eq(template, uniform(templated(case, want3, strings), nl),
           "the template is the document with each text replaced")
    rec.label("strings:%d" % min(3, len(want)),
              *["kind:" + w[2][0] for w in want])
    if any(w[3] or w[4] for w in want):
        rec.label("metadata")
    rec.nt(len(want) > 1)

    out = h.compile(template, [clone(s) for s in strings])
    by = {p: n for p, _, n in want3}

    def restored(case):
        return uniform(Renderer(case, lambda p, n: normal(n) if p in by else
                                (n[1] if n[0] == "s" else _raw(n))).text, nl)
    rec.eq(out, restored(case), "compiling with the extracted strings "
           "restores the document")
    trans = [case["trans"][i % 5] for i in range(len(want))]
    new = [clone(s, new_value(s, t)) for s, t in zip(strings, trans)]
    lang = None
    if case["code"]:
        lang = {"code": case["code"]}
        rec.label("locale" if member(tree, "@@locale") else "no locale")
        for kv in tree[1]:
            if kv[0] == "@@locale":
                kv[1] = ["s", case["code"]]
    out = ArbHandler().compile(template, iter(new), language_info=lang)
    rec.eq(out, uniform(translated(case, want3, trans), nl),
           "compiling replaces the texts, and the locale")
    rec.eq(h.sync_template(template, [clone(s) for s in strings]), template,
           "syncing with the extracted strings keeps the template")
    # removal, where only the strings of the file are at stake
    if all(v[0] == "x" or v[0] == "s" and not v[1].strip() or (i,) in by
           for i, (k, v) in enumerate(tree[1])):
        kept = [(w, s, t) for i, (w, s, t) in enumerate(
            zip(want, strings, trans)) if case["keep"][i % 5]]
        left = [clone(s) for _, s, _ in kept]
        synced = ArbHandler().sync_template(template, left, keep_sections=False)
        out = ArbHandler().compile(
            synced, [clone(s, new_value(s, t)) for _, s, t in kept])
        rec.label("removed some" if len(kept) < len(want) else "removed none")
        texts = {w[0]: plural_with(w[2][1], serialize(t["p"]))
                 if w[2][0] == "p" else t["t"] for w, s, t in kept}
        goal = ["o", [[json.loads('"%s"' % k), json.loads('"%s"' % texts[(i,)])
                       if (i,) in texts else full(v)]
                      for i, (k, v) in enumerate(tree[1])
                      if (i,) in texts or (i,) not in by]]
        try:
            rec.eq(pairs(out), goal, "content without the removed strings",
                   text=out, synced=synced)
        except ValueError as e:
            rec.fail("not JSON after removal: %s" % e, text=out)


def _raw(n):
    from .json_model import raw
    return raw(n)
