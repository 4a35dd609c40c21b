from hypothesis import strategies as st
from .common_gen import prob, pick
from . import json_gen as J

PLURAL = J.plural(numeric=True)
# what no rule is called; none of them is a rule followed by more
WRONG = pick("single", "One", "=3", "others", "onee", "aother", "xone", "1", "plural",
             "==1", "=", "=12", "zeroo", "0", "fewmany", "=1=1", "OTHER")
STRAY = pick("x", "{", "}", "one", "{y}", "}}", "{{", "é", ",", "-", "other", "#")
OTHERS = st.one_of(J.STRING, pick(
    "{n, select, one {a} other {b}}", "{n, plural}", "{n plural, one {a}}",
    "{n, Plural, one {a} other {b}}", "{, plural, one {a} other {b}}",
    "n, plural, one {a} other {b}", "{n, plurals, one {a} other {b}}",
    "{n.m, plural, one {a} other {b}}", "{n, plural, one {a} other {b}",
    "x {n, plural, one {a} other {b}}", "{a} {n, plural, other {b}}",
    "{n, selectordinal, one {#st} other {#th}}", "{}", "{n}", ""))


@st.composite
def strategy(draw):
    p = draw(PLURAL)
    return {"p": p, "key": draw(pick("k", "a.b", "", "..0..", "{", "é")),
            "other": draw(OTHERS), "bad": draw(pick(
                None, None, "rule", "twice", "stray", "empty")),
            "wrong": draw(WRONG), "stray": draw(STRAY),
            "at": draw(st.integers(0, 20)),
            "forms": [[r, draw(J.CONTENT)] for r in range(5) if draw(prob(1, 3))] +
                     [[5, draw(J.CONTENT)]],
            "syntax": [draw(prob(1, 3)) for _ in range(3)],
            "target": [r for r in range(5) if draw(prob(1, 3))] + [5],
            "delim": draw(pick(" ", "\n", "", "  "))}
