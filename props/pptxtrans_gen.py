from hypothesis import strategies as st
from .common_gen import pick, prob
from .pptx_gen import strategy as slides
from .ooxml_gen import translation, present, room


def parts(case):
    for s in case["slides"]:
        yield s
        if s["notes"]:
            yield s["notes"]


@st.composite
def strategy(draw):
    case = draw(slides())
    case["trans"] = [draw(translation()) for _ in range(3)]
    case["url"] = draw(prob(1, 4))
    if case["url"]:
        for t in case["trans"]:
            t["kind"] = "each"
    if any(t["kind"] == "free" for t in case["trans"]):
        # links can be changed one by one where they are not shared
        for s in parts(case):
            s["links"] = present(s["links"])
            used = set()
            for shape in s["shapes"]:
                for p in shape["ps"]:
                    for r in p["runs"]:
                        if r["link"] in used:
                            r["link"] = None
                        used.add(r["link"])
    case["rtl"] = draw(prob(1, 5))
    room(case)
    return case
