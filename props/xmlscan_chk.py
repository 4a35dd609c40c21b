"""The XML scanner every raw XML format is built on."""
import random
from openformats.utils.xml import NewDumbXml, DumbXmlSyntaxError

FIELDS = ("position", "tag", "attributes", "attrib", "text_position", "text",
          "content_end", "content", "tail_position", "tail", "end")


class Layout(object):
    """Renders the model and records what the scanner should report."""

    def __init__(self, case):
        self.text = case["lead"]
        self.nodes = []
        self.element(case["root"])
        for n in self.nodes:
            n["content"] = None if n["content_end"] is None else \
                self.text[n["text_position"]:n["content_end"]]

    def put(self, s):
        at = len(self.text)
        self.text += s
        return at

    def element(self, e):
        n = {"kids": [], "tag": e["t"], "attributes": []}
        self.nodes.append(n)
        n["position"] = self.put("<" + e["t"])
        if e["t"] == "!--":
            n["text_position"] = self.put(e["text"])
            n["text"] = e["text"]
            n["content_end"] = self.put("-->")
        else:
            for sep, k, eq, q, v in e["attrs"]:
                self.put(sep)
                kp = self.put(k)
                self.put(eq + q)
                n["attributes"].append((kp, k, self.put(v), v))
                self.put(q)
            self.put(e["ws"])
            if e["single"]:
                self.put("/" + e["slash"] + ">")
                n["text"] = n["text_position"] = n["content_end"] = None
            else:
                self.put(">")
                n["text_position"] = self.put(e["text"])
                n["text"] = e["text"]
                for k in e["kids"]:
                    n["kids"].append(self.element(k))
                n["content_end"] = self.put("</" + e["t"] + e["close"] + ">")
        n["tail_position"] = self.put(e["tail"])
        n["tail"] = e["tail"]
        n["end"] = len(self.text)
        n["attrib"] = {a[1]: a[3] for a in n["attributes"]}
        return n


def compare(rec, node, want, rnd, depth=0):
    order = list(FIELDS) + ["kids", "kids"]
    rnd.shuffle(order)
    for f in order:
        if f == "kids":
            kids = list(node)
            rec.eq([k.position for k in kids],
                   [k["position"] for k in want["kids"]],
                   "the children of the element at %d" % want["position"])
            for k, w in zip(kids, want["kids"]):
                compare(rec, k, w, rnd, depth + 1)
        else:
            rec.eq(getattr(node, f), want[f],
                   "%s of the element at %d" % (f, want["position"]))


def flat(n):
    for k in n["kids"]:
        yield k
        for x in flat(k):
            yield x


def check(case, rec):
    lay = Layout(case)
    rec.show(lay.text)
    root, rnd = lay.nodes[0], random.Random(case["order"])
    compare(rec, NewDumbXml(lay.text), root, rnd)
    for n in lay.nodes:  # started at any element of the document
        compare(rec, NewDumbXml(lay.text, n["position"]), n, rnd)
    node = NewDumbXml(lay.text)
    for tags in ((), tuple(case["want"])):
        rec.eq([k.position for k in node.find_children(*tags)],
               [k["position"] for k in root["kids"]
                if not tags or k["tag"] in tags], "children named %r" % (tags,))
        rec.eq([k.position for k in node.find_descendants(*tags)],
               [k["position"] for k in flat(root)
                if not tags or k["tag"] in tags],
               "descendants named %r" % (tags,))
    rec.nt(len(lay.nodes) > 2)
    rec.label("elements:%d" % min(5, len(lay.nodes)))
    rec.label(*["comment" if n["tag"] == "!--" else "single"
                if n["text"] is None else "element" for n in lay.nodes])
    if case["cut"] is not None and root["tag"] != "!--" and not \
            case["root"]["single"]:
        # damage: the document must be refused, and as a syntax error
        text = lay.text
        if case["edit"] == "cut":
            at = root["position"] + 1 + case["cut"] % (
                root["tail_position"] - root["position"] - 1)
            bad = text[:at]
        elif case["edit"] == "swap":
            at = root["content_end"] + 2
            bad = text[:at] + "zz" + text[at:]
        elif case["edit"] == "drop":
            at = root["content_end"]
            bad = text[:at] + text[root["tail_position"]:]
        else:
            at = root["position"]
            bad = text[:at] + "<" + root["tag"] + " k=\"" + text[at:].replace(
                '"', "'")
        rec.label("damage:" + case["edit"])

        def scan(node):
            for k in node:
                scan(k)
            node.attrib, node.content, node.end

        def go():
            scan(NewDumbXml(bad))
        rec.raises(DumbXmlSyntaxError, go, "damaged markup is refused",
                   text=bad)
