from hypothesis import strategies as st
from .common_gen import many, text, nonblank, newline, prob

WS = ["", "", "", " ", "\t", "   ", "\u00a0", "\u3000", "\x0b", "\x0c "]


@st.composite
def strategy(draw):
    ws = st.sampled_from(WS)
    n = draw(many(3, 0, 1, 2, 4, 5, 6, 7, 8, 9, big=30))
    lines = []
    for _ in range(n):
        if draw(prob(1, 4)):
            lines.append([draw(ws), "", ""])
        else:
            t = draw(nonblank(text("\n\r", ["\x0b", "\x85", "\x1c"]))).strip()
            lines.append([draw(ws), t, draw(ws)])
    nl = draw(newline)
    if nl == "\n" and lines and draw(prob(1, 6)):
        lines[-1][2 if lines[-1][1] else 0] += "\r"
        if draw(prob(2, 3)):
            lines.insert(0, ["", "", ""])
    k = sum(1 for l in lines if l[1])
    trans = draw(st.lists(text("\r", ["\n"], min_size=0, max_size=5),
                          min_size=k, max_size=k))
    return {"lines": lines, "nl": nl, "trans": trans}
