from hypothesis import strategies as st
from .common_gen import many, prob, pick, text, uniq
from . import json_gen

DOC = json_gen.doc()
NEWKEY = st.one_of(pick("new", "n1", "n2", "new.key", "z\\\"q", "b \\b .",
                        "\\\\", ", ,", "{,", "\u4e2d", "a..1..", "\\u00e9.x"),
                   text("\"\\", tuple(json_gen.ESCAPES), 1, 4))


@st.composite
def flat(draw):
    n = draw(many(3, 2, 4, 1, 0))
    keys = uniq([draw(json_gen.KEY) for _ in range(n)])
    items = []
    for k in keys:
        v = (["x", draw(json_gen.LITERAL)] if draw(prob(1, 6)) else
             ["s", draw(json_gen.STRING)])
        items.append([k, v])
    return {"tree": ["o", items], "ws": draw(json_gen.WS), "lead": "",
            "tail": draw(pick("", "\n")), "nl": draw(json_gen.newline)}


FLAT = flat()
MASK = st.integers(0, 2 ** 16 - 1)


@st.composite
def strategy(draw):
    mixed = draw(prob(1, 4))
    case = draw(FLAT if mixed else DOC)
    n = json_gen.count(case["tree"])
    case["mixed"] = mixed
    bits = draw(MASK)
    case["keep"] = [not bits >> i & 1 for i in range(n)]
    if draw(prob(1, 6)):
        case["keep"] = [True] * n
    case["trans"] = json_gen.trans_for(draw, n)
    m = draw(pick(1, 0, 0, 2, 3))
    keys = uniq([draw(NEWKEY)
                 for _ in range(m)])
    case["new"] = [{"k": k, "t": draw(json_gen.RAW), "at": draw(
        st.integers(0, 6)) if mixed else 99} for k in keys]
    return case
