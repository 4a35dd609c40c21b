from hypothesis import strategies as st
from .common_gen import many, pick, prob, coded, frag
from . import xml_gen as X

TEXT = coded(X.PLAIN + X.ENT + ("<![CDATA[<b>]]>", "<![CDATA[]]>", ">", "]]",
                                "<![CDATA[</a>]]>", "<![CDATA[ - ]]>", "\n",
                                "<![CDATA[b[<c>]]]>", "<![CDATA[]]]]>",
                                " ", "/>", "--"), 0, 4)
TAG = pick("a", "b", "ab", "x:y", "string", "c-d", "é", "A1")
KEY = pick("k", "name", "x:y", "data-z", "é")


def element(draw, depth):
    if draw(prob(1, 7)):
        return {"t": "!--", "text": draw(X.COMMENT), "tail": draw(TEXT)}
    n = draw(many(1, 0, 2, 3)) if depth else 0
    attrs = [X.attr(draw, k, draw(X.ATTR) if draw(prob(5, 6)) else "")
             for k in draw(st.lists(KEY, max_size=3, unique=True))]
    single = not n and draw(prob(1, 3))
    for a in attrs:
        if draw(prob(1, 6)):    # quotes of the other kind
            at = draw(st.integers(0, len(a[4])))
            a[4] = a[4][:at] + "\"'".replace(a[3], "") + a[4][at:]
    return {"t": draw(TAG), "attrs": attrs, "ws": draw(pick("", "", " ", "\n")),
            "single": single, "slash": draw(pick("", "", " ")),
            "text": "" if single else draw(TEXT),
            "kids": [element(draw, depth - 1) for _ in range(n)],
            "close": draw(pick("", "", " ", "\n ")), "tail": draw(TEXT)}


@st.composite
def strategy(draw):
    root = element(draw, draw(pick(2, 1, 3, 0)))
    return {"lead": draw(pick("", "", " \n", "text ")), "root": root,
            "order": draw(st.integers(0, 10 ** 6)),
            "want": draw(st.lists(TAG, max_size=2)),
            "cut": draw(st.integers(0, 400)) if draw(prob(1, 3)) else None,
            "edit": draw(pick("cut", "swap", "drop", "unquote"))}
