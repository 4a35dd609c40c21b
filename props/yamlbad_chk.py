import copy
from openformats.exceptions import ParseError
from openformats.formats.yaml import YamlHandler
from .yaml_model import Writer
from .yamlplural_chk import handler

SAME = {"<1>": "0x1", "12": "'12'", "title": '"title"'}


def mappings(n, out):
    if n["t"] == "m":
        out.append(n)
        for _, v in n["kids"]:
            mappings(v, out)
    elif n["t"] == "l":
        for v in n["kids"]:
            mappings(v, out)
    return out


def check(case, rec):
    case = copy.deepcopy(case)
    kind, i18n = case["kind"], case["i18n"]
    bad = True
    if kind == "duplicate":
        spots = mappings(case["root"], [])
        if i18n:
            spots = spots[1:]       # the root holds the language
        spots = [m for m in spots if m["kids"]]
        if not spots:
            return
        m = spots[case["at"] % len(spots)]
        key, raw = m["kids"][case["to"] % len(m["kids"])][0]
        if key == "<2001-01-01>" or key == "<<":
            return
        # something that is text, as other values are not looked at
        m["kids"].insert(case["to"] % 3, [[key, SAME.get(key, raw)], {
            "t": "s", "style": "'", "lines": ["again"], "tag": None, "nl": False,
            "anchor": None, "esc": False, "str": False, "extra": 0}])
        m["com"].append([])
        olds = [v for k, v in m["kids"] if k[0] == key]
        # the other one counts when it is text or a container as well
        if any(v["t"] in ("x", "alias") for v in olds):
            return
        rec.label("duplicate in a %s mapping" % (
            "flow" if m["flow"] else "block"))
    text = Writer(case).text()
    if kind == "roots":
        # of two roots only one could be the language
        bad = i18n
        if case["root"]["t"] != "m" or case["root"]["flow"]:
            return
        text = text.rstrip("\n") + "\nfr2:\n  a: b\n"
        if "+\n" in text or "|" in text or ">" in text:
            return
    elif kind == "no root":
        text, bad = ["", "# nothing\n", "---\n", "{}\n"][case["at"] % 4], i18n
    elif kind == "null root":
        text, bad = ["en:\n", "en: 12\n", "en: ~\n"][case["at"] % 3], i18n
    elif kind == "list root":
        text, bad = ["- a\n- b: c\n", "[]\n", "[a]\n"][case["at"] % 3], i18n
    elif kind == "scalar root":
        text, bad = ["text\n", "12\n", "'en'\n"][case["at"] % 3], i18n
    elif kind == "two documents":
        text += "\n---\na: b\n"
    elif kind == "unclosed":
        text = text.rstrip("\n") + "\n" + ["zz: 'open", 'zz: "open', "zz: [a, b",
                                           "zz: {a: b"][case["at"] % 4] + "\n"
        if case["root"]["t"] != "m":
            return
    elif kind == "tab":
        text += "zz:\n\ta: b\n"
        if case["root"]["t"] != "m" or text.startswith("{"):
            return
    elif kind == "none":
        bad = False
    rec.show(text)
    rec.label(kind + (": refused" if bad else ": read"))
    rec.nt(kind != "none")
    h = handler(case) if i18n else YamlHandler()
    if bad:
        rec.raises(ParseError, lambda: h.parse(text),
                   "a file with %s has to be refused" % kind)
    else:
        try:
            h.parse(text)
        except ParseError as e:
            rec.fail("a valid file was refused", error=e)
