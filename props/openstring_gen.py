from hypothesis import strategies as st
from .common_gen import text, coded, pick, prob

KEY = text("", ["\n", "\r\n", "\t", ":", "\\:"], min_size=0)
STR = text("", ["\n"], min_size=0)
CTX = st.one_of(st.just(""), st.none(), KEY)


@st.composite
def one(draw):
    d = {"key": draw(KEY), "context": draw(CTX), "has_ctx": draw(prob(3, 4))}
    if draw(prob(2, 5)):
        rules = draw(st.lists(pick(0, 1, 2, 3, 4), unique=True, max_size=5))
        d["strings"] = [[r, draw(STR)] for r in sorted(rules) + [5]]
    else:
        d["strings"] = draw(STR)
    d["pluralized"] = draw(pick(None, None, True, False)) if isinstance(
        d["strings"], list) else None
    extra = {}
    for name, strat in (
            ("order", st.integers(0, 99)), ("character_limit", st.integers(0, 500)),
            ("occurrences", STR), ("developer_comment", STR), ("flags", STR),
            ("fuzzy", st.booleans()), ("obsolete", st.booleans()),
            ("tags", st.lists(pick("a", "b"), max_size=2))):
        if draw(prob(1, 3)):
            extra[name] = draw(strat)
    d["extra"] = extra
    return d


@st.composite
def strategy(draw):
    items = [draw(one()) for _ in range(draw(st.integers(1, 4)))]
    if draw(prob(1, 2)):
        twin = dict(draw(one()), key=items[0]["key"],
                    context=items[0]["context"], has_ctx=items[0]["has_ctx"])
        items.append(twin)
    return {"items": items}
