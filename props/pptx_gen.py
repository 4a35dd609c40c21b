from hypothesis import strategies as st
from .common_gen import many, pick, prob
from .ooxml_gen import paragraph, links


def slide(draw, notes):
    ls = links(draw)
    shapes = []
    for _ in range(draw(many(1, 2, 0, 3))):
        ps = []
        for _ in range(draw(pick(1, 1, 2, 3))):
            p = paragraph(draw, len(ls))
            for r in p["runs"]:
                r["texts"] = r["texts"] or [""]
                if r["extra"] == 2:
                    r["texts"] = ["7"]
            ps.append(p)
        shapes.append({"kind": draw(pick("sp", "sp", "sp", "table", "group",
                                         "other")), "ps": ps})
    return {"links": ls, "shapes": shapes,
            "notes": slide(draw, False) if notes and draw(prob(1, 3)) else None}


NUMBERS = pick([1, 2, 3], [1, 2, 3], [2, 1, 3], [10, 2, 1], [9, 10, 11], [3, 100, 20])


@st.composite
def strategy(draw):
    return {"slides": [slide(draw, True) for _ in range(draw(pick(1, 2, 1, 3)))],
            "numbers": draw(NUMBERS), "notes": draw(NUMBERS),
            "at": draw(st.integers(0, 3)),
            "kind": draw(pick("v1", "v2")), "others": draw(prob(1, 4)),
            "bom": draw(prob(1, 6))}
