from hypothesis import strategies as st
from .common_gen import many, newline, pick, prob, text, visible

# The handler finds comments and its own tags wherever they are
TEXT = visible(exclude="-", extra=("\n", "<b>x</b>", "\n    ", "don\\'t"))
LONE = TEXT.map(str.strip)
BLANK = pick("", " ", "\n  ")
NOTE = pick(" note ", "x", "", " a\n b ", ' <string name="a">b</string> ',
            " <plurals name='x'><item>y</item></plurals> ", "-")
OTHER = pick('<color name="c">#fff</color>', '<dimen name="d"/>',
             '<stringy name="e">f</stringy>', "<items>g</items>",
             '<skip a="string" />', "&x;")
WS = pick("\n    ", "\n", "", " ", "\n\n\t", "\n  ")
NAME = pick("a", "b_c", "d.e", "f", "été", "n 1")
MORE = pick("", ' formatted="false"', ' x:y="string"', ' translatable="true"',
            ' empty=""', " \n ")
NEAR = pick(*[None] * 9, "FALSE", "false ", "", "no")
HEAD = pick("", '<?xml version="1.0" encoding="utf-8"?>\n',
            '<?xml version="1.0"?>\n<!-- <string name="a">b</string> -->\n',
            "\n", "<!-- top -->")
ATTRS = pick("", ' xmlns:tools="http://schemas.android.com/tools"', "\n  a='b'")
RULES = ("zero", "one", "two", "few", "many", "other")


def body(draw):
    return draw(BLANK) if draw(prob(1, 9)) else draw(TEXT)


def note(draw):
    return draw(NOTE) if draw(prob(1, 8)) else None


@st.composite
def strategy(draw):
    nodes = []
    for i in range(draw(many(1, 2, 3, 4, 0))):
        kind = draw(pick("string", "string", "plurals", "string-array",
                         "comment", "other"))
        n = {"kind": kind, "ws": draw(WS)}
        if kind == "comment":
            n["text"] = draw(NOTE)
        elif kind == "other":
            n["text"] = draw(OTHER)
        else:
            n.update(name="%s%d" % (draw(NAME), i), pre=draw(MORE),
                     post=draw(MORE), ignore=draw(prob(1, 8)), near=draw(NEAR),
                     product=draw(pick(None, None, None, "tablet", "a b")))
            if kind == "string":
                n["text"] = None if draw(prob(1, 15)) else body(draw)
            else:
                n["head"] = draw(WS)
                if kind == "string-array" and not n["head"]:
                    n["head"] = " "
                if draw(prob(1, 8)):
                    n["head"] += "<!--%s-->%s" % (draw(NOTE), draw(WS))
                if kind == "plurals":
                    rules = draw(st.lists(st.sampled_from(RULES), min_size=1,
                                          max_size=6, unique=True))
                else:
                    rules = [None] * draw(many(1, 2, 3))
                n["items"] = [[r, draw(MORE), body(draw), draw(WS),
                               note(draw), draw(WS)] for r in rules]
        nodes.append(n)
    return {"head": draw(HEAD), "attrs": draw(ATTRS), "nodes": nodes,
            "tail": draw(pick("\n", "")), "end": draw(pick("\n", "",
                                                           "\n<!-- e -->")),
            "nl": draw(newline),
            "trans": [draw(TEXT) for _ in range(4)],
            "keep": draw(st.lists(prob(4, 5), min_size=3, max_size=5)),
            "rules": draw(st.lists(st.integers(0, 5), min_size=1, max_size=6,
                                   unique=True))}
