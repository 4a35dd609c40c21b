from hypothesis import strategies as st
from .common_gen import many, visible, newline, prob, pick

WS = ["", "", "", "", " ", "\t", "  "]
POS = ["", "", "", " X1:40 X2:600", " align:start", " a b c", " ", "\t"]
ARROW = [" --> "] * 5 + ["\t-->\t", "  -->  ", " -->\t", " --> \t "]
GAPS = ["", "", "", "\n", "\n\n", "\n\n\n", " \n", "\t\n\n"]


LINE = st.one_of(*[visible("\n\r")] * 9, pick(
    "1", "2", "10", "00:00:01,000", "00:00:01,000 --> 00:00:02,000", "-->",
    "X1:40 X2:600", "{\\an8}a", "WEBVTT", "NOTE x", "0"))


@st.composite
def lines(draw):
    n = draw(many(1, 2, 3))
    out = []
    for i in range(n):
        if 0 < i < n - 1 and draw(prob(1, 8)):
            out.append(" ")
        else:
            out.append(draw(LINE))
    return out


MS3 = st.integers(0, 999).map("%03d".__mod__)
MS = st.one_of(st.none(), MS3, MS3, pick("5", "05", "0", "50", "005"))
SIXTY = st.integers(0, 59)


def srt_time(draw):
    t = [draw(pick(0, 1, 9, 10, 25, 99)), draw(SIXTY),
         draw(SIXTY)]
    return [t, draw(MS), draw(prob(1, 6))]


LINES = lines()
TRANS = st.one_of(lines().map("\n".join), lines().map("\n".join), st.none())


@st.composite
def strategy(draw):
    n = draw(many(1, 2, 3, 4, 5, 6, big=13))
    cues = []
    order = 0
    for _ in range(n):
        order += draw(pick(1, 1, 1, 2, 9))
        cues.append({
            "order": order, "ows": draw(pick(*WS)),
            "zero": draw(prob(1, 10)),
            "start": srt_time(draw), "end": srt_time(draw),
            "arrow": draw(pick(*ARROW)),
            "pos": draw(pick(*POS)), "lines": draw(LINES),
            "tail": draw(pick(*WS)),
            "gap": draw(pick(*GAPS))})
    trans = [draw(TRANS) for _ in range(n)]
    return {"cues": cues, "trans": trans, "nl": draw(newline),
            "lead": draw(pick("", "", "", "\n", "\n\n", " \n")),
            "end": draw(pick("", "\n", "\n\n", "\n\n\n", " \n"))}
