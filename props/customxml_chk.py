from openformats.formats.customizable_xml import CustomizableXMLHandler as H
from .android_model import attrs_text, attr
from .common_chk import clone, placeholder, value, uniform


def tag(name, attrs, inner):
    head = "<" + name + attrs_text(attrs)
    return head + "/>" if inner is None else head + ">" + inner + "</%s>" % name


def render(case, fn=None, extra=None):
    """fn(slot, text) -> what is written there, for the extracted texts."""
    n = case["names"]
    w1, w2, w3 = case["ws"]
    secs = []
    for i, s in enumerate(case["sections"]):
        items = []
        if s["note"] is not None:
            items.append("<!--%s-->" % s["note"])
        for j, e in enumerate(s["kids"]):
            kids = []
            for k, kid in enumerate(e["kids"]):
                if kid[0] == "note":
                    kids.append("<!--%s-->" % kid[1])
                elif kid[0] == "other":
                    kids.append(kid[1])
                else:
                    t = kid[2]
                    if t and fn and not e["out"]:
                        t = fn((i, j, k), t)
                    kids.append(tag(n[kid[0] + "_string_name"], kid[1], t))
            inner = "".join(w3 + x for x in kids) + w2 if kids else (
                None if e["empty"] else "")
            t = tag(n["string_name"], e["attrs"], inner)
            items.append("<wrap>%s</wrap>" % t if e["out"] else t)
        if s["nested"]:
            items.append(tag(n["section_name"], s["attrs"], tag(
                n["string_name"], [[" ", n["string_key_name"], "=", '"', "k"]],
                "<%s>inner</%s>" % ((n["base_string_name"],) * 2))))
        inner = "".join(w2 + x for x in items) + w1 if items else (
            None if s["empty"] else "")
        secs.append(tag(n["section_name"], s["attrs"], inner))
    if extra:
        secs.insert(extra[0] % (len(secs) + 1), extra[1])
    text = case["head"] + tag(n["root_name"], case["attrs"],
                              "".join(w1 + x for x in secs) + "\n")
    return uniform(text + case["tail"], case["nl"])


def wanted(case):
    n, out = case["names"], []
    for i, s in enumerate(case["sections"]):
        sid = attr(s, n["section_id_name"])
        for j, e in enumerate(s["kids"]):
            key = attr(e, n["string_key_name"])
            for k, kid in enumerate(e["kids"]):
                if e["out"] or kid[0] in ("note", "other") or not kid[2]:
                    continue
                name = key
                if kid[0] == "variant":
                    name += "::" + attr({"attrs": kid[1]},
                                        n["variant_string_id_name"])
                out.append(((i, j, k), name, sid, kid[2]))
    return out


def handler(case):
    return H(**case["names"]) if case["opts"] == "given" else H()


def check(case, rec):
    text = render(case)
    rec.show(text)
    template, strings = handler(case).parse(text)
    strings = list(strings)
    want = wanted(case)
    rec.eq([(s.key, s.context, value(s), s.order, bool(s.pluralized))
            for s in strings],
           [w[1:] + (i, False) for i, w in enumerate(want)],
           "the strings, in document order")
    by = {w[0]: s for w, s in zip(want, strings)}
    rec.nt(len(want) > 1)
    rec.label("strings:%d" % min(4, len(want)), "names " + case["opts"],
              "nl:%r" % case["nl"])
    rec.eq(template, render(case, lambda slot, t: placeholder(
        by[slot].key, by[slot].context)),
        "the template is the document with each text replaced")
    rec.eq(handler(case).compile(template, [clone(s) for s in strings]), text,
           "compiling with the extracted strings restores the document")
    new = {w[0]: case["trans"][i % 5] for i, w in enumerate(want)}
    given = [clone(by[w[0]], new[w[0]]) for w in want]
    if "only" in case:
        given = [given[i] for i in case["only"]]
        new = {w[0]: new[w[0]] if i in case["only"] else ""
               for i, w in enumerate(want)}
    rec.eq(handler(case).compile(template, iter(given)),
           render(case, lambda slot, t: new[slot]),
           "compiling writes each translation in its place")
