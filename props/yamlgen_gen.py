from hypothesis import strategies as st
from .common_gen import pick
from . import yaml_gen, yamlplural_gen


@st.composite
def strategy(draw):
    kind = draw(pick("yaml", "i18n"))
    case = draw((yaml_gen if kind == "yaml" else yamlplural_gen).strategy())
    case["kind"] = kind
    case["crlf"] = False
    case["keep"] = draw(pick([1], [1, 0], [0, 1], [1, 1, 0], [0, 1, 1],
                             [1, 0, 0, 1, 1], [0]))
    return case
