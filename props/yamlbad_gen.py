from hypothesis import strategies as st
from .common_gen import pick, prob
from . import yaml_gen, yamlplural_gen

KINDS = ("duplicate", "roots", "no root", "null root", "two documents",
         "unclosed", "tab", "none", "list root", "scalar root")


@st.composite
def strategy(draw):
    i18n = draw(prob(1, 2))
    case = draw((yamlplural_gen if i18n else yaml_gen).strategy())
    return dict(case, i18n=i18n, kind=draw(pick(*KINDS)),
                at=draw(st.integers(0, 7)), to=draw(st.integers(0, 7)))
