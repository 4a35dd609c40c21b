from hypothesis import strategies as st
from .common_gen import pick, prob
from . import docx_gen, pptx_gen, xlsx_gen

OPS = pick("none", "cut", "garbage", "drop", "drop", "break", "break", "empty",
           "text", "name", "name", "path", "path", "path")


@st.composite
def strategy(draw):
    kind = draw(pick("docx", "pptx", "xlsx"))
    gen = {"docx": docx_gen, "pptx": pptx_gen, "xlsx": xlsx_gen}[kind]
    return {"format": kind, "doc": draw(gen.strategy()), "op": draw(OPS),
            "at": draw(st.integers(0, 11)), "deep": draw(pick(1, 1, 2)),
            "absolute": draw(prob(1, 3)), "later": draw(prob(1, 3))}
