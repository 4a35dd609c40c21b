from hypothesis import strategies as st
from .common_gen import pick, prob
from .anyinput_gen import document, FORMATS, KINDS, SEEDS


@st.composite
def strategy(draw):
    f = draw(pick(*FORMATS))
    docs = [draw(pick(*SEEDS[f])) if draw(prob(1, 2)) else document(draw, f)
            for _ in range(draw(pick(2, 3, 2)))]
    return {"format": draw(pick(*KINDS.get(f, (f,)))), "docs": docs,
            "nls": [draw(pick("\n", "\n", "\r\n")) for _ in docs],
            "suffix": draw(pick("x", "x", "\x08", "\u00e9 ", "\"", "'", "\n", "{", ": #")),
            "ops": [[draw(pick("parse", "compile", "compile", "sync", "fewer", "more")),
                     draw(st.integers(0, len(docs) - 1))]
                    for _ in range(draw(st.integers(2, 7)))]}
