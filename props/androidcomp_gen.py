from hypothesis import strategies as st
from .common_gen import prob, pick
from .android_gen import strategy as base


@st.composite
def strategy(draw):
    case = draw(base())
    case["is_source"] = draw(prob(1, 2))
    return case
