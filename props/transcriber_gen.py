from hypothesis import strategies as st
from .common_gen import coded, pick, prob

SRC = coded(["a", "b", "\n", "\r\n", "\r\n", "<", ">", " ", "\u4e2d",
             "\U0001f600", "\n\n", "\r\n\r\n", "word", "\t"], 0, 16)
ADD = coded(["x", "y", "\n", "Z\u00e9", "word", " "], 0, 4)
KINDS = ["copy", "copy", "copy_until", "copy_until", "copy_to_end", "skip",
         "skip", "skip_until", "add", "add", "burst", "start", "start", "end", "end",
         "remove", "remove"]
BURST = pick(2, 12, 70, 300)
LEAD = pick(*[0] * 60 + [1030, 5000, 33000, 70000])
FRAC = st.integers(0, 12)


@st.composite
def strategy(draw):
    src = draw(SRC)
    if draw(prob(1, 2)):  # consistent newlines, as every source file has
        src = src.replace("\r\n", "\n")
    else:
        src = src.replace("\r\n", "\n").replace("\n", "\r\n")
    ops = []
    for _ in range(draw(st.integers(1, 24))):
        k = draw(pick(*KINDS))
        if k == "burst":
            ops.append([k, draw(BURST)])
        elif k == "add":
            ops.append([k, draw(ADD)])
        elif k in ("copy", "skip", "copy_until", "skip_until"):
            ops.append([k, draw(FRAC)])
        elif k == "remove":
            ops.append([k, draw(pick(0, 0, 0, 1, 2))])
        else:
            ops.append([k])
    return {"src": src, "ops": ops, "lead": draw(LEAD)}
