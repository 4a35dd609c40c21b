from hypothesis import strategies as st
from .common_gen import prob, pick
from . import json_gen

DOC = json_gen.doc()


@st.composite
def strategy(draw):
    case = draw(DOC)
    case["trans"] = json_gen.trans_for(draw, json_gen.count(case["tree"]))
    case["dup"] = draw(st.one_of(st.none(), st.none(), st.none(),
                                 st.integers(0, 20)))
    return case
