from openformats.formats.beta_android import BetaAndroidHandler as H
from .common_chk import clone, placeholder, value, uniform

GONE = object()
RULES = ("zero", "one", "two", "few", "many", "other")


def opening(n):
    out = "<%s%s name=\"%s\"%s%s%s>" % (
        n["kind"], n["pre"].rstrip(), n["name"],
        "" if n["product"] is None else ' product="%s"' % n["product"],
        "\1" if n["ignore"] or n["near"] is not None else "", n["post"])
    # no attribute twice
    return out.replace(' translatable="true"', "").replace(
        "\1", ' translatable="%s"' % ("false" if n["ignore"] else n["near"])
    ) if "\1" in out else out


def key(n, i=None):
    return n["name"] if i is None else "%s[%d]" % (n["name"], i)


def blank(t):
    return not (t or "").strip()


def strings_of(case):
    """[(slot, key, context, comment, plural, value)] in document order."""
    out, comment = [], ""
    for at, n in enumerate(case["nodes"]):
        if n["kind"] == "comment":
            comment = uniform(n["text"], "\n")
            continue
        if n["kind"] == "other":
            continue
        if not n["ignore"]:
            context = n["product"] or ""
            if n["kind"] == "string" and not blank(n["text"]):
                out.append(((at,), key(n), context, comment, False, n["text"]))
            elif n["kind"] == "string-array":
                out += [((at, i), key(n, i), context, comment, False, item[2])
                        for i, item in enumerate(n["items"])
                        if not blank(item[2])]
            elif n["kind"] == "plurals" and not any(
                    blank(item[2]) for item in n["items"]):
                out.append(((at,), key(n), context, comment, True,
                            {RULES.index(item[0]): item[2]
                             for item in n["items"]}))
        comment = ""
    return out


def item_text(item, text):
    return "<item%s%s>%s</item>" % (
        item[1].rstrip(),
        "" if item[0] is None else ' quantity="%s"' % item[0], text)


def render(case, fn, bare=False):
    """fn(slot, text) is what is written for a string, or GONE; for a plural
    it gets what is between the tags, and may return {rule: text}."""
    has = {s[0] for s in strings_of(case)}
    doc = "<resources" + case["attrs"] + ">"

    def new(n, slot, text):
        if n["ignore"]:
            return text
        return fn(slot if slot in has else None, text)
    for at, n in enumerate(case["nodes"]):
        doc += n["ws"]
        if n["kind"] == "comment":
            doc += "<!--%s-->" % n["text"]
        elif n["kind"] == "other":
            doc += n["text"]
        elif n["kind"] == "string":
            text = new(n, (at,), n["text"])
            if text is None:
                doc += opening(n)[:-1] + "/>"
            elif text is not GONE:
                doc += opening(n) + text + "</string>"
        elif n["kind"] == "string-array":
            inner, left = n["head"], 0
            for i, item in enumerate(n["items"]):
                text = new(n, (at, i), item[2])
                if text is not GONE:
                    inner += item_text(item, text)
                    left += 1
                inner += gap(item)
            if left:
                doc += opening(n) + inner + "</string-array>"
        else:
            items, last = n["items"], n["items"][-1]
            text = new(n, (at,), "".join(
                item_text(i, i[2]) + gap(i) for i in items[:-1]
            ) + item_text(last, last[2]))
            if isinstance(text, dict):
                between = ""
                indent = (opening(n) + n["head"]).rpartition("\n")[2]
                if not indent.strip() and "\n" in last[3]:
                    # the items are on lines of their own
                    between = last[3].partition("\n")[0] + "\n" + indent
                text = between.join(
                    '<item quantity="%s">%s</item>' % (RULES[r], t)
                    for r, t in text.items())
            if text is not GONE:
                doc += opening(n) + n["head"] + text + gap(last) + "</plurals>"
    return uniform(case["head"], case["nl"]) + uniform(
        doc + case["tail"] + "</resources>" + case["end"],
        "\n" if bare else case["nl"])


def gap(item):
    return item[3] + ("" if item[4] is None else
                      "<!--%s-->%s" % (item[4], item[5]))


def check(case, rec):
    text = render(case, lambda slot, t: t)
    rec.show(text)
    want = strings_of(case)
    rec.nt(len(want) > 1)
    for n in case["nodes"]:
        rec.label(n["kind"])
    rec.label("strings:%d" % min(4, len(want)), "nl:%r" % case["nl"])
    template, strings = H().parse(text)
    strings = list(strings)
    rec.eq([(s.key, s.context, s.developer_comment, bool(s.pluralized),
             value(s), s.order) for s in strings],
           [w[1:] + (i,) for i, w in enumerate(want)],
           "the strings, in document order")
    by = {w[0]: s for w, s in zip(want, strings)}
    rec.eq(template, render(case, lambda slot, t: t if slot is None else
                            placeholder(by[slot].key, by[slot].context,
                                        bool(by[slot].pluralized))),
           "the template is the file with each text replaced")

    def compiled(given, new, what):
        rec.eq(H().compile(template, given),
               render(case, lambda slot, t: new.get(slot, GONE),
                      "\n" not in text[text.index("<resources"):]), what)
    compiled([clone(s) for s in strings], {w[0]: w[5] for w in want},
             "compiling writes each text in its place")
    new = {}
    for i, w in enumerate(want):
        t = case["trans"][i % 4]
        if case["keep"][i % len(case["keep"])]:
            new[w[0]] = {r: "%s%d" % (t, r) for r in case["rules"]} \
                if w[4] else t
    compiled([clone(by[w[0]], new[w[0]]) for w in want if w[0] in new], new,
             "compiling writes the translations and removes the rest")
