from hypothesis import strategies as st
from .common_gen import pick, prob
from . import yaml_gen as Y

RULES = pick([1, 5], [1, 5], [5], [1, 3, 5], [1, 2, 3, 4, 5], [0, 1, 5])


@st.composite
def strategy(draw):
    rules = draw(RULES)
    Y.PLURALS.append(rules)
    try:
        inner = Y.container(draw, draw(pick(2, 3, 1)), False, False)
    finally:
        Y.PLURALS.pop()
    if draw(prob(9, 10)):
        inner["flow"] = False
    return {"root": {"t": "m", "flow": False, "anchor": False,
                     "indented": True, "com": [draw(Y.COMMENTS)], "kids": [
                         [["en", draw(pick("en", "en", '"en"'))], inner]]},
            "rules": rules, "into": draw(RULES), "indent": draw(pick(2, 2, 4, 3)),
            "deeper": draw(pick(0, 0, 0, 2, 4)),
            "trans": [draw(Y.TRANS.map(lambda s: s or "x"))
                      for _ in range(draw(pick(3, 2, 4, 5)))],
            "dashes": draw(prob(1, 8)), "final": draw(prob(7, 8))}
