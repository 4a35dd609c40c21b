"""Structured JSON documents: json_gen trees whose objects often hold a
"string" with metadata beside it."""
from hypothesis import strategies as st
from .common_gen import many, text, prob, pick, uniq
from . import json_gen as J

META = text("\"\\", tuple(J.ESCAPES[:10]), 1, 4)
METAKEY = pick("context", "developer_comment", "character_limit", "x", "note",
               "x.y", "list", "contexts", "string2", "\u00e9")
EMPTY = pick(["s", ""], ["x", "null"], ["x", "false"], ["x", "0"])
LIMIT = pick("null", "0", "5", "100", "12345", "-1")
NEW = pick("", "", "ctx", "a\"b", "back\\slash", "new\nline", "\u00e9\u4e2d",
           "tab\t.", "</x>", ", ,", "{,}", "a/b", "  ", "\u2028", "\U0001f600")
NEWLIMIT = pick(None, None, 5, 0, 140, 100000)


def leaf(draw, blank):
    kind = draw(pick("s", "s", "s", "p")) if not blank else draw(pick("b", "e"))
    value = {"s": lambda: ["s", draw(J.STRING)], "p": lambda: ["p", draw(J.PLURAL)],
             "b": lambda: ["s", draw(J.BLANK)], "e": lambda: draw(EMPTY)}[kind]()
    items = []
    for k in uniq([draw(METAKEY) for _ in range(draw(pick(1, 0, 2, 3, 4)))]):
        if k in ("context", "developer_comment"):
            v = ["x", "null"] if draw(prob(1, 5)) else ["s", draw(
                st.one_of(META, META, pick("", " ")))]
        elif k == "character_limit":
            v = ["x", draw(LIMIT)]
        else:
            v = J.node(draw, 1)
        items.append([k, v])
    items.insert(draw(st.integers(0, len(items))), ["string", value])
    return ["o", items]


def obj(draw, depth, min_size=0):
    n = draw(many(2, 1, 3, 0, 4)) if not min_size else draw(many(2, 1, 3, 4))
    items = []
    for k in uniq([draw(J.KEY) for _ in range(n)]):
        kind = draw(pick("l", "l", "l", "l", "o", "o", "b", "n", "a", "x"))
        if kind == "l" or kind == "o" and depth <= 0:
            v = leaf(draw, False)
        elif kind == "b":
            v = leaf(draw, True)
        elif kind == "o":
            v = obj(draw, depth - 1)
        elif kind == "x":
            v = draw(SCALAR)
        else:
            v = J.node(draw, 1) if kind == "n" else ["a", [
                x for x in [leaf(draw, False), draw(SCALAR)]]]
        items.append([k, v])
    return ["o", items]


SCALAR = st.one_of(J.LITERAL.map(lambda x: ["x", x]),
                   J.RAW.map(lambda x: ["s", x]))


@st.composite
def doc(draw):
    if draw(prob(1, 4)):
        items = []
        for _ in range(draw(pick(2, 1, 3))):
            kind = draw(pick("o", "o", "o", "x", "a", "l"))
            items.append(obj(draw, 1) if kind == "o" else leaf(draw, False)
                         if kind == "l" else draw(SCALAR) if kind == "x"
                         else ["a", [obj(draw, 0)]])
        tree = ["a", items]
    else:
        tree = obj(draw, 2, 1)
    return {"tree": tree, "ws": draw(J.WS), "lead": draw(pick("", "", "\n")),
            "tail": draw(pick("", "\n", "\n\n")), "nl": draw(J.newline)}


DOC = doc()


def count(n):
    """At least as many as there are strings to extract."""
    if n[0] in "oa":
        return sum(count(c[1] if n[0] == "o" else c) for c in n[1]) + 1
    return 0


@st.composite
def trans(draw, n):
    out = J.trans_for(draw, n)
    for t in out:
        t["meta"] = None
        if draw(prob(2, 3)):
            t["meta"] = {k: draw(NEWLIMIT if k == "character_limit" else NEW)
                         for k in ("context", "developer_comment",
                                   "character_limit") if draw(prob(1, 2))}
    return out


@st.composite
def strategy(draw):
    case = draw(DOC)
    case["trans"] = draw(trans(min(count(case["tree"]), 8)))
    return case
