"""A writer of YAML files with every value's span, and a reader of events."""
import json

import yaml

RULE = ["zero", "one", "two", "few", "many", "other"]

DQ = {'"': '\\"', "\\": "\\\\", "\n": "\\n", "\t": "\\t"}


def dq(s, esc):
    out = ""
    for c in s:
        if c in DQ:
            out += DQ[c]
        elif esc and ord(c) > 0x7e:
            out += ("\\x%02X" if ord(c) < 256 else "\\u%04x"
                    if ord(c) < 65536 else "\\U%08x") % ord(c)
        else:
            out += c
    return out


class Writer(object):
    """parts: text, or (path, node) for the token of a string"""

    def __init__(self, case):
        self.case = case
        self.parts = []
        self.strings = []       # (path, styles, node, token)
        self.anchors = []
        self.steps = [case["indent"], case["deeper"] or case["indent"]]
        root = case["root"]
        if case["dashes"]:
            self.put("---\n")
        if root["flow"]:
            self.tree = self.flow(root, [], [])
            self.put("\n")
        else:
            self.tree = self.block(root, [], [], 0)

    def step(self, path):
        """How far what is inside the entry at a path is indented."""
        return self.steps[min(len(path) - 1, 1)]

    def put(self, text):
        if text:
            self.parts.append(text)

    def text(self):
        return "".join(p if isinstance(p, str) else self.strings[p][3]
                       for p in self.parts)

    def anchor(self):
        self.anchors.append("a%d" % len(self.anchors))
        return self.anchors[-1]

    # -- scalars
    def fixed(self, n):
        """The value a scalar has in YAML and how its lines are written."""
        style, lines = n["style"], n["lines"]
        if style == "":
            return " ".join(lines)
        if style == "'":
            return "\n".join(self.folds(lines))
        if style == '"':
            return "\n".join(lines)
        if style == "|":
            body = (" " if n["lead"] else "") + "\n".join(lines)
            if n["blank"]:
                body = body.replace("\n", "\n\n", 1)
        else:
            body = (("\n" if n["blank"] else " ").join(lines[:2]) +
                    "".join(" " + l for l in lines[2:]))
        return body + "\n" * n["tail"]

    def folds(self, lines):
        # blanks around a line break would be lost
        return [l.strip(" ") or "x" for l in lines] if lines[1:] else lines

    def token(self, n, ind, step):
        """The text of a string at a parent's indentation; ind is what its
        lines get; ends with a newline when it is a block."""
        style, lines = n["style"], n["lines"]
        pad = " " * ind
        if style == "":
            return ("\n" + pad).join(lines)
        if style == "'":
            return "'" + ("\n\n" + pad).join(
                l.replace("'", "''") for l in self.folds(lines)) + "'"
        if style == '"':
            return '"' + "\\n".join(dq(l, n["esc"]) for l in lines) + '"'
        value = self.fixed(n)
        head = style
        first = value.lstrip("\n")
        if n["lead"] and style == "|" or first.startswith(" "):
            head += str(step)
        head += {0: "-", 1: "", 2: "+"}[n["tail"]]
        if style == "|":
            body = [l for l in value[:len(value) - n["tail"]].split("\n")]
        else:
            body = [lines[0]]
            if len(lines) > 1:
                body += ([""] if n["blank"] else []) + [lines[1]]
            body += lines[2:]
        out = head + "\n" + "".join(pad + l + "\n" if l else "\n"
                                    for l in body)
        return out + "\n" * max(n["extra"] if n["tail"] < 2 else 0,
                                n["tail"] - 1)

    def scalar(self, n, path, styles, ind, flow):
        """After 'key:' or '-', with the space still to write."""
        if n["t"] == "alias":
            if not self.anchors:
                n = dict(t="x", raw="12")
            else:
                self.put(" *" + self.anchors[-1])
                return ("alias", self.anchors[-1])
        if n["t"] == "x":
            raw = n["raw"] if not flow or n["raw"] else "null"
            if raw.startswith("!!binary") and flow:
                raw = "12"
            self.put(" " + raw if raw else "")
            return ("x", raw)
        if flow and n["style"] in ("|", ">"):
            n = dict(n, style='"')
        block = n["style"] in ("|", ">")
        nl = n["nl"] and not flow and not block and not n["anchor"]
        self.put("\n" + " " * ind if nl else " " * (1 + n["extra"]))
        tags = ("!" + n["tag"] + " " if n["tag"] else
                "!!str " if n["str"] else "")
        anchor = None
        tok = tags + self.token(n, ind, self.step(path))
        value = self.fixed(n)
        if n["anchor"] and value:
            anchor = self.anchor()
            self.put("&" + anchor + " ")
        if value:
            self.strings.append((path, styles + [n["style"]], n, tok))
            self.parts.append(len(self.strings) - 1)
            return ("s", len(self.strings) - 1, anchor)
        self.put(tok)
        return ("keep", value, n["tag"], anchor)

    # -- containers
    def comment(self, com, ind):
        lines = [c for c in com if c not in ("blank", "trailing")]
        if "blank" in com and not (self.parts and isinstance(
                self.parts[-1], int) and self.strings[
                    self.parts[-1]][3].endswith("\n")):
            self.put("\n")
        for c in lines:
            self.put(" " * ind + "# " + c + "\n")

    def flow(self, n, path, styles):
        out = []
        self.put("[" if n["t"] == "l" else "{")
        for i, kid in enumerate(n["kids"]):
            if i:
                self.put(", " if n["t"] == "m" or i % 2 else ",")
            if n["t"] == "m":
                (key, raw), v = kid
                self.put(raw + ":")
                p = path + [key]
            else:
                key, v = None, kid
                p = path + [None]
            out.append([key, self.value(v, p, styles, 1, True)])
        self.put("]" if n["t"] == "l" else "}")
        return self.index(n, out, path)

    def index(self, n, out, path):
        return (n["t"], out, n.get("name"))

    def value(self, v, path, styles, ind, flow):
        """ind: the column of what is inside"""
        if v["t"] == "p":
            return self.plural(v, path, styles, ind, flow)
        if v["t"] not in "ml":
            return self.scalar(v, path, styles, ind, flow)
        name = None
        if v["anchor"]:
            name = self.anchor()
            self.put(" &" + name)
        if flow or v["flow"]:
            self.put(" ")
            return self.flow(v, path, styles + ["flow"])[:2] + (name,)
        if path[-1] is None and v["indented"] and not name:
            return self.block(v, path, styles + ["block"], ind, True)
        self.put("\n")
        if v["t"] == "l" and not v["indented"] and path[-1] is not None:
            ind -= self.step(path)
        return self.block(v, path, styles + ["block"], ind)[:2] + (name,)

    def plural(self, v, path, styles, ind, flow):
        """A mapping of plural forms."""
        names = [f for f, _ in v["forms"]]
        nested = any(s["t"] in "ml" for _, s in v["forms"])
        whole = (not nested and set(RULE[r] for r in self.case["rules"]) <= set(names) and
                 set(names) <= set(RULE) and path[-1] is not None and
                 all(self.fixed(s) for _, s in v["forms"]))
        blank = not nested and not all(
            self.fixed(s) for f, s in v["forms"]
                        if f in [RULE[r] for r in self.case["rules"]])
        if not whole or blank:
            kids = [[[f, f], s] for f, s in v["forms"]]
            if not nested and set(
                    RULE[r] for r in self.case["rules"]) <= set(names) and set(
                    names) <= set(RULE):
                # would be a plural without one of its texts
                kids.append([["more", "more"], {"t": "x", "raw": "12"}])
                kids.append([["nested", "nested"], {
                    "t": "l", "flow": True, "kids": [], "anchor": False}])
            return self.value(dict(
                v, t="m", kids=kids, com=[[]] * len(kids)), path, styles, ind,
                flow)
        name = None
        if v["anchor"]:
            name = self.anchor()
            self.put(" &" + name)
        forms = [(f, dict(s, style='"') if v["flow"] and s["style"] in "|>"
                  and s["style"] else s) for f, s in v["forms"]]
        q = '"' if v["quoted"] else ""
        if v["flow"] or flow:
            self.put(" {" + " " * v["pad"])
            tok = ", ".join(q + f + q + ":" + " " * (1 + s["extra"]) +
                            self.token(s, 0, 0) for f, s in forms)
            style = "flow"
        else:
            step = self.step(path)
            # the string stands at the column of its key, one step less
            self.put("\n" + " " * (ind - step))
            tok = ""
            for i, (f, s) in enumerate(forms):
                tok += " " * (ind - step if i else 0) + " " * step + q + f + q
                tok += ": " + self.token(s, ind + step, step)
                if not tok.endswith("\n") and i < len(forms) - 1:
                    tok += "\n"
            style = "block"
        rules = dict((f, s) for f, s in forms
                     if f in [RULE[r] for r in self.case["rules"]])
        n = {"style": "p", "tag": None, "anchor": None,
             "texts": {RULE.index(f): self.fixed(s) for f, s in rules.items()},
             "styles": {RULE.index(f): s["style"] for f, s in rules.items()},
             "flow": style == "flow", "all": [(f, self.fixed(s))
                                              for f, s in forms]}
        self.strings.append((path, styles + [style, json.dumps(
            n["styles"]).replace(":", "<COLON>")], n, tok))
        self.parts.append(len(self.strings) - 1)
        if style == "flow":
            self.put("}")
        return ("p", len(self.strings) - 1, name)

    def block(self, n, path, styles, ind, compact=False):
        out = []
        for kid, com in zip(n["kids"], n["com"]):
            pad = " " * ind
            if compact:
                compact, pad = False, " " * (self.step(path) - 1)
            else:
                self.comment(com, ind)
            if n["t"] == "m":
                (key, raw), v = kid
                self.put(pad + raw + ":")
                p = path + [key]
            else:
                key, v = None, kid
                self.put(pad + "-")
                p = path + [None]
            inner = ind + self.step(p)
            start = len(self.parts)
            res = self.value(v, p, styles, inner, False)
            out.append([key, res])
            last = self.parts[-1]
            if isinstance(last, int):
                last = self.strings[last][3]
            if not last.endswith("\n"):
                if "trailing" in com and last.strip() != "":
                    self.put(" # beside")
                self.put("\n")
        return self.index(n, out, path)


def paths(tree, order, prefix=""):
    """Each string's path in the order of the file, numbering the items of a
    list among those that count."""
    kind, kids = tree[0], tree[1]
    i = 0
    for key, v in kids:
        if kind == "m":
            name = key.replace(".", "<TX_DOT>")
        else:
            if v[0] == "x":
                continue
            name = "[%d]" % i
            i += 1
        p = prefix + "." + name if prefix else name
        if v[0] in ("s", "p"):
            order.append((v[1], p))
        elif v[0] in "ml" and len(v[0]) == 1:
            paths(v, order, p)
    return order


def comment_above(before, beside):
    """The comment lines right above the line a string is on, given the text
    from the previous string (or the start) to it; beside: that text starts in
    the line of the previous string."""
    lines = before.split("\n")
    if beside:
        lines[0] = "x"
    nl = not lines[-1].strip() and len(lines) > 1
    lines = lines[:-2 if nl else -1]
    out = []
    for line in reversed(lines):
        if line.strip().startswith("#"):
            out.insert(0, line.strip()[1:].strip())
        elif line.strip():
            break
    return " ".join(out)


STR = "tag:yaml.org,2002:str"


def events(text):
    """The content of a YAML file: ("s", tag, value, anchor), ("m" or "l",
    kids, anchor), ("alias", name)."""
    stream = iter(list(yaml.parse(text, Loader=yaml.SafeLoader)))
    resolver = yaml.resolver.Resolver()

    def build(e):
        if isinstance(e, yaml.AliasEvent):
            return ("alias", e.anchor)
        if isinstance(e, yaml.ScalarEvent):
            tag = e.tag
            if tag is None or tag == "!":
                tag = resolver.resolve(yaml.ScalarNode, e.value, e.implicit)
            return ("s", tag, e.value, e.anchor)
        kids = []
        end = (yaml.MappingEndEvent if isinstance(e, yaml.MappingStartEvent)
               else yaml.SequenceEndEvent)
        while True:
            n = next(stream)
            if isinstance(n, end):
                break
            kids.append(build(n))
        return ("m" if end is yaml.MappingEndEvent else "l", kids, e.anchor)
    for e in stream:
        if isinstance(e, (yaml.ScalarEvent, yaml.MappingStartEvent,
                          yaml.SequenceStartEvent, yaml.AliasEvent)):
            return build(e)


class Misread(Exception):
    """The writer did not write what it meant to."""


class Loose(object):
    """A text of a block, whose last line end is not told apart."""

    def __init__(self, text):
        self.text = text

    def __eq__(self, other):
        return (isinstance(other, tuple) and other[0] == "s" and other[1] == STR
                and other[3] is None and
                other[2].rstrip("\n") == self.text.rstrip("\n"))

    def __repr__(self):
        return "Loose(%r)" % self.text


def expected(w, source, texts):
    """The content of the source with its strings replaced."""
    def go(t, e):
        if t[0] == "s":
            n = w.strings[t[1]][2]
            want = ("s", "!" + n["tag"] if n["tag"] else STR, w.fixed(n), t[2])
            if want != e:
                raise Misread("%r for %r" % (e, want))
            return want[:2] + (texts[t[1]],) + want[3:]
        if t[0] == "p":
            n = w.strings[t[1]][2]
            want = [("s", STR, x, None) for f in n["all"] for x in f]
            if e != ("m", want, t[2]):
                raise Misread("%r for %r" % (e, want))
            return ("m", [x if isinstance(x, Loose) else ("s", STR, x, None)
                          for f in texts[t[1]] for x in f], t[2])
        if t[0] not in ("m", "l"):
            return e
        kids = list(e[1])
        step, off = (2, 1) if t[0] == "m" else (1, 0)
        if e[0] != t[0] or len(kids) != step * len(t[1]):
            raise Misread(repr(e))
        for i, (_, v) in enumerate(t[1]):
            kids[step * i + off] = go(v, kids[step * i + off])
        return (e[0], kids, e[2])
    return go(w.tree, source)
