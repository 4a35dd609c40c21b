from hypothesis import strategies as st
from .common_gen import pick, prob
from .docx_gen import strategy as document
from .ooxml_model import paragraphs
from .ooxml_gen import translation, present, room

TBL = pick("<w:tblPr/>", "", '<w:tblPr><w:tblW w:w="0"/></w:tblPr>',
           '<w:tblPr><w:bidiVisual/><w:tblW w:w="0"/></w:tblPr>')


@st.composite
def strategy(draw):
    case = draw(document())
    case["trans"] = [draw(translation()) for _ in range(3)]
    case["url"] = draw(prob(1, 4))
    if case["url"]:
        for t in case["trans"]:
            t["kind"] = "each"
    if any(t["kind"] == "free" for t in case["trans"]):
        # links can be changed one by one where they are not shared
        case["links"] = present(case["links"])
        used = set()
        case["blocks"] = [b for i, b in enumerate(case["blocks"])
                          if not i or b is not case["blocks"][0]]
        for p in paragraphs(case["blocks"]):
            for r in p["runs"]:
                if r["link"] in used:
                    r["link"] = None
                used.add(r["link"])
    case["rtl"] = draw(prob(1, 4))
    case["tbls"] = [draw(TBL) for _ in range(3)]
    room(case)
    return case
