from hypothesis import strategies as st
from .common_gen import many, pick, prob
from .ooxml_gen import paragraph, links


def table(draw, ls, deep=1):
    return [[table(draw, ls, 0) if deep and draw(prob(1, 4)) else
             paragraph(draw, ls, True) for _ in range(draw(pick(1, 2)))]
            for _ in range(draw(pick(1, 2)))]


@st.composite
def strategy(draw):
    ls = links(draw)
    blocks = []
    for _ in range(draw(many(1, 2, 3, 4))):
        if draw(prob(1, 6)):
            blocks.append(table(draw, len(ls)))
        else:
            blocks.append(paragraph(draw, len(ls), True))
            for r in blocks[-1]["runs"]:
                if r["link"] is None and draw(prob(1, 30)):
                    # the texts of a text box are those of its paragraph too
                    r["box"] = [paragraph(draw, len(ls)) for _ in range(
                        draw(pick(1, 1, 2)))]
        if draw(prob(1, 8)):
            blocks.append(blocks[0])
    return {"links": ls, "blocks": blocks, "bom": draw(prob(1, 12)),
            "doc": draw(pick("word/document.xml", "word/document.xml",
                             "word/document2.xml", "/word/document.xml")),
            "others": draw(prob(1, 4))}
