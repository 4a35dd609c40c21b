"""The Android document model: rendering, the strings it should yield, and an
independent reading of documents by ElementTree."""
import xml.etree.ElementTree as ET
from .common_chk import uniform, placeholder

RULES = {"zero": 0, "one": 1, "two": 2, "few": 3, "many": 4, "other": 5}
NAMES = {v: k for k, v in RULES.items()}


def attr(e, key):
    for _, k, _, _, v in e["attrs"]:
        if k == key:
            return v
    return None


def blank(text):
    return text is None or not text.strip()


def attrs_text(attrs):
    return "".join(sep + k + eq + q + v + q for sep, k, eq, q, v in attrs)


def tag_text(name, attrs, sp, inner, close=""):
    head = "<" + name + attrs_text(attrs) + sp
    if inner is None:
        return head + "/>"
    return head + ">" + inner + "</" + name + close + ">"


class Model(object):
    """fn(slot id, text or {rule: text}) gives what is written at a slot; it
    returns None to remove the element the slot is in."""

    def __init__(self, case, drop_ignored=False):
        self.case = case
        self.drop = drop_ignored

    def render(self, fn=None, code=None):
        c = self.case
        root = [a[:4] + [code] if code and a[1] == "tools:locale" else a
                for a in c["root"]]
        out = [c["decl"], "<resources", attrs_text(root)]
        if "selfclosed" in c:
            return "".join(out + [c["selfclosed"], "/>", c["tail"]])
        out += [">", c["lead"]]
        for i, e in enumerate(c["items"]):
            body = self.element(i, e, fn)
            if body is None:
                continue
            for n in e["pre"]:
                out.append("<!--" + n + "-->" + (e["tail"] or "\n"))
            out += [body, e["tail"]]
        if c["lastnote"]:
            out.append("<!--%s-->" % c["lastnote"])
        out += [c["end"], "</resources>", c["tail"]]
        return "".join(out)

    def ignored(self, e):
        return e["k"] not in ("other", "raw") and attr(e, "translatable") == "false"

    def element(self, i, e, fn):
        k = e["k"]
        if k == "raw":
            return e["raw"]
        if self.ignored(e):
            if self.drop:
                return None
            fn = None
        if k == "other":
            return tag_text(e["tag"], e["attrs"], e["sp"], e["text"])
        if k == "string":
            text = e["text"]
            if fn and not blank(text):
                text = fn((i,), text)
                if text is None:
                    return None
            return tag_text(k, e["attrs"], e["sp"], text, e["close"])
        if k == "string-array":
            inner, left, had = e["lead"], False, False
            for j, it in enumerate(e["items"]):
                text = it["text"]
                if it["note"] is not None:
                    inner += "<!--%s-->" % it["note"]
                if not blank(text):
                    had = True
                    if fn:
                        text = fn((i, j), text)
                    if text is None:
                        continue
                    left = True
                inner += tag_text("item", it["attrs"], "", text) + it["tail"]
            if had and not left:
                return None
            return tag_text(k, e["attrs"], e["sp"], inner, e["close"])
        texts = {it["q"]: it["text"] for it in e["items"]}
        if fn and not all(blank(t) for t in texts.values()):
            texts = fn((i,), texts)
            if texts is None:
                return None
            if not isinstance(texts, dict):  # the placeholder
                pre = e["lead"]
                return tag_text(k, e["attrs"], e["sp"],
                                pre + texts + e["end"], e["close"])
        pre, end = e["lead"], e["end"]
        sep = pre if pre.startswith(end) else end + pre
        parts = []
        # a translation may have forms the source does not have
        known = {it["q"]: it for it in e["items"]}
        for q, text in texts.items():
            it = known.get(q)
            a = it["attr"] if it else [" ", "quantity", "=", '"', q]
            s = tag_text("item", [a], "", text)
            if it and it["note"] is not None:
                s = "<!--%s-->" % it["note"] + s
            parts.append(s)
        if e.get("after") is not None and (fn is None or all(
                blank(t) for t in texts.values())):
            # goes with the items when they are replaced
            parts[-1] += e["gap"] + "<!--%s-->" % e["after"]
        return tag_text(k, e["attrs"], e["sp"], pre + sep.join(parts) + end,
                        e["close"])

    def text(self, fn=None, code=None):
        return uniform(self.render(fn, code), self.case["nl"])

    def strings(self):
        """(slot, key, context, comment, pluralized, value) in order."""
        seen, out, comment = {}, [], ""
        for i, e in enumerate(self.case["items"]):
            if e["pre"]:
                comment = e["pre"][-1]
            if e["k"] in ("other", "raw"):
                continue
            if not self.ignored(e):
                name = attr(e, "name").replace("\\", "\\\\").replace("[", "\\[")
                product = attr(e, "product") or ""
                if e["k"] == "string":
                    slots = [((i,), name, e["text"])]
                elif e["k"] == "string-array":
                    slots = [((i, j), "%s[%d]" % (name, j), it["text"])
                             for j, it in enumerate(e["items"])]
                else:
                    slots = [((i,), name, {RULES[it["q"]]: it["text"]
                                           for it in e["items"]})]
                ctx = product
                for slot, key, value in slots:
                    if isinstance(value, dict):
                        if all(blank(v) for v in value.values()):
                            continue
                    elif blank(value):
                        continue
                    if (key, ctx) in seen:  # the same name in another tag
                        ctx += e["k"]
                    seen[(key, ctx)] = e["k"]
                    out.append((slot, key, ctx, comment,
                                isinstance(value, dict), value))
            comment = ""
        return out


def tree(e):
    return (e.text or "", [(k.tag, sorted(k.attrib.items()), tree(k),
                            k.tail or "") for k in e])


def shape(text):
    """The document's content as an XML parser reads it, without the blanks
    between resources."""
    root = ET.fromstring(text.strip().encode("utf-8"))
    out = [sorted(root.attrib.items())]
    for e in root:
        head = (e.tag, sorted(e.attrib.items()))
        if e.tag in ("string-array", "plurals"):
            out.append(head + ([(k.tag, sorted(k.attrib.items()), tree(k))
                                for k in e],))
        else:
            out.append(head + (tree(e),))
    return out
