"""Rendering and expectations for the JSON document models (PyPy side)."""
import json

RULES = {"zero": 0, "one": 1, "two": 2, "few": 3, "many": 4, "other": 5,
         "=0": 0, "=1": 1, "=2": 2}
NAMES = ["zero", "one", "two", "few", "many", "other"]


def plural_head(p):
    s = p["s"]
    return "%s{%s%s%s,%splural%s,%s" % (p["pre"], s[0], p["var"], s[1], s[2],
                                        s[3], s[4])


def plural_tail(p):
    return p["end"] + "}" + p["post"]


def plural_forms(p):
    out = []
    for i, (rule, sp, content) in enumerate(p["forms"]):
        if i:
            out.append(p["seps"][i - 1])
        out.append("%s%s{%s}" % (rule, sp, content))
    return "".join(out)


def plural_raw(p):
    return plural_head(p) + plural_forms(p) + plural_tail(p)


def plural_strings(p):
    return {RULES[r]: c for r, _, c in p["forms"]}


def plural_with(p, inner):
    return plural_head(p) + inner + plural_tail(p)


def serialize(strings):
    return " ".join("%s {%s}" % (NAMES[r], s) for r, s in strings)


def plural_normal(p):
    return plural_with(p, serialize([(RULES[r], c) for r, _, c in p["forms"]]))


class Renderer(object):
    """Renders a tree; `leaf(path, node)` gives the raw text of string leaves.

    Records (path, key position, value position) of everything as it goes.
    """

    def __init__(self, case, leaf=None):
        self.case, self.leaf = case, leaf or (lambda path, n: raw(n))
        self.buf, self.pos, self.wsi = [], 0, 0
        self.events = []
        self.put(case["lead"])
        self.node(case["tree"], ())
        self.put(case["tail"])
        self.text = "".join(self.buf)

    def put(self, s):
        self.buf.append(s)
        self.pos += len(s)

    def ws(self):
        w = self.case["ws"]
        self.put(w[self.wsi % len(w)])
        self.wsi += 1

    def node(self, n, path):
        start = self.pos
        if n[0] == "o":
            self.put("{")
            items = []
            for i, (k, v) in enumerate(n[1]):
                if i:
                    self.put(",")
                self.ws()
                self.put('"')
                kp = self.pos
                self.put(k + '"')
                self.ws()
                self.put(":")
                self.ws()
                vp = self.node(v, path + (i,))
                items.append((k, kp, v, vp))
            self.ws()
            self.events.append((path, "o", start, self.pos, items))
            self.put("}")
        elif n[0] == "a":
            self.put("[")
            items = []
            for i, v in enumerate(n[1]):
                if i:
                    self.put(",")
                self.ws()
                items.append((v, self.node(v, path + (i,))))
            self.ws()
            self.events.append((path, "a", start, self.pos, items))
            self.put("]")
        elif n[0] == "x":
            self.put(n[1])
        else:
            self.put('"')
            start += 1
            self.put(self.leaf(path, n) + '"')
        return start


def raw(n):
    return plural_raw(n[1]) if n[0] == "p" else n[1]


def translatable(n):
    return n[0] == "p" or n[0] == "s" and bool(n[1].strip())


def escape_key(k):
    return k.replace("\\", "\\\\").replace(".", "\\.")


def leaves(n, path=(), key=None):
    """(path, key, node) of every translatable string, in document order."""
    if n[0] == "o":
        for i, (k, v) in enumerate(n[1]):
            k = escape_key(k)
            for x in leaves(v, path + (i,), k if key is None
                            else key + "." + k):
                yield x
    elif n[0] == "a":
        for i, v in enumerate(n[1]):
            for x in leaves(v, path + (i,), (key or "") + "..%d.." % i):
                yield x
    elif translatable(n):
        yield path, key, n


def pairs(text):
    """Decoded document that keeps the order and duplicates of object keys."""
    return json.loads(text, object_pairs_hook=lambda kv: ["o", [list(x) for x in kv]],
                      parse_float=lambda s: ["f", s], parse_int=lambda s: ["i", s])
