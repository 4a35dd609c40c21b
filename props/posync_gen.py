from hypothesis import strategies as st
from .common_gen import many, pick, prob, uniq
from .po_gen import entry, ident, TEXT, FORMS, HEADERS, COMMENT


def blankless(e):
    # a blank plural id is not one an added string can have
    if e["plural"] is not None and not e["plural"].strip():
        e["plural"] += "w"
    return e


@st.composite
def strategy(draw):
    mode = draw(pick("po", "pot"))
    texts = {"po": "full", "pot": "empty"}[mode]
    both = uniq([entry(draw, texts) for _ in range(draw(many(
        3, 2, 1, 4, 6)))] + [blankless(dict(
            entry(draw, "full", False), new=True, obsolete=False))
            for _ in range(draw(pick(1, 0, 2)))],
        key=lambda e: repr(ident(e)))
    return {"mode": mode, "head": draw(HEADERS), "comment": draw(COMMENT),
            "headfuzzy": False,
            "entries": [e for e in both if not e.get("new")],
            "new": [e for e in both if e.get("new")],
            "at": [draw(pick(9, 9, 9, 0, 1, 2)) for _ in range(2)],
            "keep": draw(pick([1], [1, 0], [0, 1, 1], [1, 1, 0], [0])),
            "trans": [draw(TEXT) for _ in range(5)],
            "forms": draw(FORMS), "text": draw(prob(1, 2))}
