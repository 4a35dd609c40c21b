from hypothesis import strategies as st
from .common_gen import many, pick, prob, uniq, coded, frag, text, WIDE

# characters YAML itself takes as line ends or refuses are left to the
# translations in double quotes
ENDS = "\u2028\u2029\x85\x0b\x0c\ufeff"
POOL = tuple(p for p in frag() if not any(c in p for c in ENDS))
LINE = coded(POOL + tuple(WIDE) + (": ", " #", "'", '"', "- x"), 1, 6)
WORDS = coded(("word", "two words", "é", "a:b", "x#y", "中文", "don't", "50%",
               "say \"hi\"", "{a}", "(b)", "a, b", "e-mail"), 1, 1)
PLAIN = coded(("word", "two words", "é", "a:b", "x#y", "中文", "don't", "50%",
               "say \"hi\"", "(b)", "e-mail", "a\\nb", "-x"), 1, 1)
KEYS = [["title", "title"], ["a.b", "a.b"], ["b", "b"], ["key two", "key two"],
        ["x: y", '"x: y"'], ["it's", "'it''s'"], ["<1>", "1"], ["<3.5>", "3.5"],
        ["é", "é"], ["true", "true"], ["Yes", "Yes"], ["12", '"12"'],
        ["c", "c"], ["long_key", "long_key"], ["<None>", "~"], ["[0]", '"[0]"'],
        ["<w>", "<w>"], ["a\\b", "a\\b"], ["<2001-01-01>", "2001-01-01"],
        [".", '"."'], ["<<", "<<"], ["<-5>", "-5"],
        ["<0>", "0"], ["<-1.5>", "-1.5"], ["a.b.c.d", "a.b.c.d"]]
OTHERS = pick("12", "1.5", "true", "null", "~", "", "no", "2001-01-01",
              "!!int 12", "!!binary aGVsbG8=", "0x1F", ".inf")
STYLES = pick("", "", "'", '"', "|", ">")
TAGS = pick(None, None, None, None, None, None, "t", "cs:f-9_d.", "a1")


def scalar(draw, flow):
    style = draw(STYLES)
    if flow and style in ("|", ">"):
        style = '"'
    node = {"t": "s", "style": style, "tag": draw(TAGS), "anchor": None,
            "nl": draw(prob(1, 10)), "esc": draw(prob(1, 3)),
            "str": draw(prob(1, 20)), "extra": draw(pick(0, 0, 0, 1))}
    if draw(prob(1, 12)):
        node["anchor"] = draw(pick("first", "last"))
    if style == "":
        node["lines"] = [draw(PLAIN) for _ in range(draw(
            pick(1, 1, 1, 2)))]
    elif style in ("'", '"'):
        node["lines"] = [draw(LINE) for _ in range(draw(pick(1, 1, 1, 2)))]
        if draw(prob(1, 15)):
            node["lines"] = [""]
    else:
        node["lines"] = [draw(LINE if style == "|" else WORDS)
                         for _ in range(draw(pick(1, 2, 3)))]
        node["tail"] = draw(pick(1, 1, 1, 0, 2))
        node["blank"] = draw(prob(1, 4))
        node["lead"] = draw(prob(1, 8))
    return node


def other(draw):
    return {"t": "x", "raw": draw(OTHERS)}


FORMS = ["one", "other", "zero", "two", "few", "many"]
PLURALS = []    # not empty while drawing a file with plurals


def plural(draw, flow, rules):
    n = {"t": "p", "flow": flow or draw(prob(1, 4)), "anchor": draw(prob(1, 12)),
         "indented": True, "quoted": draw(prob(1, 5)), "forms": [],
         "pad": draw(pick(0, 0, 0, 1, 2))}
    names = [FORMS_BY_NUMBER[r] for r in rules]
    extra = draw(pick(0, 0, 0, 1, 2))
    names += [f for f in FORMS if f not in names][:extra]
    if draw(prob(1, 3)):
        names.reverse()
    if draw(prob(1, 10)) and names[1:]:
        # not all of the rules' forms: just a mapping
        names.remove(FORMS_BY_NUMBER[rules[0]])
    if draw(prob(1, 12)):
        names.insert(draw(st.integers(0, len(names))), "extra")
    for name in names:
        s = scalar(draw, n["flow"])
        s["tag"], s["anchor"], s["nl"], s["str"] = None, None, False, False
        n["forms"].append([name, s])
    if draw(prob(1, 10)):
        # one form holds more than a text: just a mapping
        kids = [scalar(draw, True) for _ in range(draw(pick(2, 1, 0)))]
        for s in kids:
            s["tag"], s["anchor"], s["str"] = None, None, False
        as_list = draw(prob(1, 2))
        n["forms"][draw(st.integers(0, 5)) % len(n["forms"])][1] = {
            "t": "l" if as_list else "m", "flow": True, "anchor": False,
            "indented": True, "com": [[] for _ in kids],
            "kids": kids if as_list else [
                [[k, k], s] for k, s in zip("ab", kids)]}
    return n


FORMS_BY_NUMBER = ["zero", "one", "two", "few", "many", "other"]


def node(draw, depth, flow):
    d = draw(st.integers(0, 19))
    if PLURALS and draw(prob(1, 3)):
        return plural(draw, flow, PLURALS[-1])
    if d < 12 or depth <= 0:
        if d % 7 == 6:
            return other(draw)
        if d % 9 == 8:
            return {"t": "alias"}
        return scalar(draw, flow)
    return container(draw, depth, flow, d % 2)


def container(draw, depth, flow, seq):
    inner = flow or draw(prob(1, 5))
    n = draw(many(2, 1, 3, 2, 3, 4) if depth > 2 else many(1, 2, 3))
    out = {"flow": inner, "anchor": draw(prob(1, 14)),
           "indented": draw(prob(2, 3))}
    if seq:
        out["t"] = "l"
        out["kids"] = [node(draw, depth - 1, inner) for _ in range(n)]
        out["com"] = [draw(COMMENTS) for _ in out["kids"]]
    else:
        out["t"] = "m"
        keys = uniq([draw(pick(*KEYS)) for _ in range(n)],
                    key=lambda k: k[0])
        out["kids"] = [[k, node(draw, depth - 1, inner)] for k in keys]
        for k, v in out["kids"]:
            if k[0] == "<<":
                v.clear()
                v.update({"t": "alias"})
        out["com"] = [draw(COMMENTS) for _ in out["kids"]]
    return out


COMMENTS = pick([], [], [], [], ["note"], ["# two", "lines"], ["é: x"],
                ["blank"], ["trailing"])
TRANS = st.one_of(
    LINE, WORDS,
    pick("", "true", "12", "null", "~", "1.5", "no", "2001-01-01", "0x1F", "=",
         "<<", "- a", "? b", "a: b", "a #b", "#c", "!t", "&a", "*a", "%d", "@",
         "`", "[a", "{b", "a\nb", "a\n\nb\n", " lead", "trail ", "\n", " \n",
         "a\tb", "'", '"', "''", "|", ">", "|-", "a|-b", ">-x", ": ", "-", "---",
         "...", "a\\nb", "x\n  y\n", "  x\ny", "\nz", "x\n\n\n", "é\u2028b",
         "\x07", "\ufeff", "tab\t\n", "# no", "\ta"),
    st.builds(lambda a, b, c: a + b + c, LINE, pick("\n", "\n\n", " "), LINE))


def blockable(n):
    return n["t"] in "ml" and n["kids"]


@st.composite
def strategy(draw):
    root = container(draw, draw(pick(2, 3, 1, 4)), False, draw(prob(1, 12)))
    root["flow"], root["anchor"] = draw(prob(1, 15)), False
    return {"root": root, "indent": draw(pick(2, 2, 4, 3)),
            "deeper": draw(pick(0, 0, 0, 2, 4, 7)), "trans": [draw(TRANS) for _ in range(draw(pick(3, 2, 4)))],
            "crlf": draw(prob(1, 8)), "dashes": draw(prob(1, 8)),
            "final": draw(prob(7, 8))}
