"""Chrome i18n files: both the flat kind and the nested kind of version 2."""
from hypothesis import strategies as st
from .common_gen import many, text, prob, pick, uniq, coded
from . import json_gen as J

NAME = st.one_of(coded(tuple("abcdefgh") + ("Key", "title", "a.b", "."), 1, 2),
                 text("\"\\", tuple(J.ESCAPES), 0, 3),
                 pick("message", "appDesc", "x.y.z", "a\\\\b", "mymessage"))
DESC = text("\"\\", tuple(J.ESCAPES[:10]), 1, 4)
NESTED = J.PLURAL
ODD = pick("x", "x", "Message", "MESSAGE", "message ", "messages", "submessage",
           "messag", "Description")


def entry(draw):
    items = []
    odd = draw(ODD)
    for k in draw(st.permutations(["message", "description", "placeholders",
                                   odd]))[:draw(pick(2, 1, 3, 4))]:
        if k == "message":
            kind = draw(pick("s", "s", "s", "p", "p", "b", "x"))
            v = {"s": lambda: ["s", draw(J.STRING)],
                 "p": lambda: ["p", draw(J.PLURAL)],
                 "b": lambda: ["s", draw(J.BLANK)],
                 "x": lambda: ["x", draw(J.LITERAL)]}[kind]()
        elif k == "description":
            v = ["s", draw(DESC)] if not draw(prob(1, 8)) else draw(
                pick(["x", "null"], ["s", ""], ["x", "5"]))
            if draw(prob(1, 12)):
                v = ["p", draw(J.PLURAL)]
        else:
            v = J.node(draw, 2)
        items.append([k, v])
    return ["o", items]


@st.composite
def strategy(draw):
    items = []
    for k in uniq([draw(NAME) for _ in range(draw(many(3, 2, 4, 1, 5)))]):
        kind = draw(pick("e", "e", "e", "e", "e", "n"))
        items.append([k, entry(draw) if kind == "e" else J.node(draw, 2)])
    tree = ["o", items]
    if draw(prob(1, 12)):
        tree = ["a", [v for _, v in items]]
    return {"tree": tree, "ws": draw(J.WS), "lead": draw(pick("", "\n")),
            "tail": draw(pick("", "\n", " ")), "nl": draw(J.newline),
            "trans": J.trans_for(draw, 5), "v3": draw(prob(2, 3)),
            "dup": draw(st.integers(0, 30)) if draw(prob(1, 12)) else None,
            "keep": [draw(prob(2, 3)) for _ in range(5)]}
