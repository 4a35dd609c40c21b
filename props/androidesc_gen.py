from hypothesis import strategies as st
from .common_gen import pick, prob, coded, frag, WIDE
from . import xml_gen as X

TEXT = coded(tuple(p for p in frag("<\\")) + tuple(WIDE) + (
    "'", '"', "@", "?", "\n", "\t", "@string/x", "&", ">", "\\", "\\n", "it's",
    "\\'", "\\\""), 0, 5)
SAFE = coded(tuple(p for p in frag("<\\")) + tuple(WIDE) + (
    "'", '"', "@", "?", "\n", "\t", "@string/x", "&", ">", "it's", "  ",
    "&lt;", "&amp;lt;", "]]>"), 0, 5)
INNER = coded(tuple(p for p in X.PLAIN if not any(
    c in p for c in "'\"\\@?&")), 0, 3)
INLINE = pick("b", "xliff:g", "i", "a", "font", "sup")
OTHER = pick("q", "x", "bb", "string", "xliff", "A")
ATTRS = pick("", "", ' id="n"', " id='n'", ' a="1" b=\'2\'', ' t="it\'s"')


def seg(draw, depth, safe):
    k = draw(pick("t", "t", "i", "o", "lt", "c")) if depth else "t"
    if k == "t":
        return ["t", draw(SAFE if safe else TEXT)]
    if k == "c":
        return ["c", draw(pick("x", "it's", "<p class=\"a\">", "", "a ] b"))]
    if k == "lt":  # never the start of a tag
        return ["lt", draw(pick("< ", "a < b", "<= ", "<3 ", "</x>",
                                "</b>", "< b >"))]
    tag = draw(INLINE if k == "i" else OTHER)
    if draw(prob(1, 4)):
        return [k, "<" + tag + draw(ATTRS) + draw(pick("", " ")) + "/>", [], ""]
    kids = [["t", draw(INNER)]] if safe and k == "i" else [
        seg(draw, depth - 1, safe) for _ in range(draw(pick(1, 0, 2)))]
    if not safe:
        kids = [x for x in kids if x[0] not in ("lt", "c")]
    if safe:
        kids = [x for x in kids if x[0] not in (
            ("c", "i") if k == "o" else ("c",))]
    return [k, "<" + tag + draw(ATTRS) + ">", kids, "</" + tag + ">"]


@st.composite
def strategy(draw):
    safe = draw(prob(1, 2))
    segs = [seg(draw, 2, safe) for _ in range(draw(pick(2, 1, 3, 4)))]
    if draw(prob(1, 4)):  # an element again, inside another
        x = draw(st.sampled_from(segs))
        segs += [x, ["i", "<em>", [x], "</em>"]] if x[0] == "i" else [x]
    return {"safe": safe, "segs": segs,
            "nl": draw(pick("\n", "\n", "\n", "\r\n")),
            "lead": draw(pick("", "", "", "@", "@string/", "\"", "?"))}
