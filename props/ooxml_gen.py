"""Paragraphs of Office Open XML documents, in runs with texts and links."""
from hypothesis import strategies as st
from .common_gen import many as amount, pick, prob, coded, frag, memo, WIDE

POOL = tuple(p for p in frag() if "tx" not in p) + tuple(WIDE) + (
    "word", " word", "word ", "two words", " ", "  ", "\ufeff", "&", "<", ">", "<b>", "\u00e9")
TEXT = st.one_of(coded(POOL, 1, 4), pick("one", "two", "word ", " word", "a", "."))
BLANK = pick(" ", "", "  ", "   ", "\u00a0", " ", "\t")
URLS = pick("http://a.b/c", "https://www.transifex.com/", "http://a.b/c?d=1&e=2",
            "http://a.b/\u00e9", "mailto:a@b.c", "http://a.b/c#d", "http://x.y/'q'",
            "http://a.b/%20x", "http://a.b/", "http://a.b/c/d", "http://a.b/c",
            "http://a.b/notesSlide9.xml", "http://a.b/relationships/notesSlide/8")
KINDS = pick("ext", "ext", "ext", "int", "gone")


@memo
def run(blanks=True):
    text = st.one_of(TEXT, TEXT, TEXT, BLANK) if blanks else TEXT

    @st.composite
    def one(draw):
        return {"texts": [draw(text)], "rpr": draw(pick(0, 0, 1, 2, 3, 4, 5)),
                "link": None, "same": draw(prob(1, 2)),
                "extra": draw(pick(0, 0, 0, 0, 1, 2))}
    return one()


def paragraph(draw, links, many=False, blanks=True):
    runs = [draw(run(blanks)) for _ in range(draw(amount(1, 2, 1, 3, 4, 5, 0)))]
    for r in runs:
        if many and draw(prob(1, 8)):
            r["texts"].append(draw(TEXT))
        if many and draw(prob(1, 30)):
            r["texts"] = []
    if links and draw(prob(1, 2)):
        last, dense = None, draw(prob(1, 3))
        for r in runs:
            if last is not None and draw(prob(1, 3)):
                r["link"] = last
            elif dense or draw(prob(1, 3)):
                r["link"] = last = draw(st.integers(0, links - 1))
    return {"runs": runs, "ppr": draw(pick(0, 0, 0, 1, 1, 2)), "junk": draw(pick(0, 0, 0, 1, 2))}


def links(draw):
    out = [[draw(URLS), draw(KINDS)] for _ in range(draw(pick(1, 2, 0, 3, 3)))]
    for a, b in zip(out, out[1:]):
        if draw(prob(1, 3)):
            b[0] = a[0] + draw(pick("/x", "&y=1", ""))
    return out

NEW = st.one_of(
    coded(tuple(p for p in POOL if p.strip()) + (" x", "y "), 1, 3),
    pick("uno", "dos ", "\u03ad\u03bd\u03b1", "\u4e2d\u6587", "a < b", "a & b", "x > y", "&amp;",
         "<b>x</b>", "]]>", "'q' \"r\"", "\u05d0\u05d1", "a  b")).map(
             lambda t: t if t.strip() else t + "w")


@st.composite
def translation(draw):
    """each: a text for every part; free: other parts; plain: no tags at all"""
    kind = draw(pick("each", "each", "plain", "free", "free", "unlink", "none"))
    out = {"kind": kind, "texts": [draw(NEW) for _ in range(draw(
        pick(2, 1, 3, 4, 5, 6, 6)))]}
    if kind == "free":
        out["urls"] = [draw(st.one_of(st.none(), st.none(), URLS))
                       for _ in out["texts"]]
        out["gap"] = len(out["texts"]) > 5
    return out


def room(case):
    """Blank parts of translations are for paragraphs of at most five texts."""
    def go(x):
        if isinstance(x, dict) and "runs" in x:
            if sum(len(r["texts"]) for r in x["runs"]) > 5:
                return False
        if isinstance(x, dict):
            x = list(x.values())
        return not isinstance(x, list) or all([go(y) for y in x])
    if not go(case):
        for t in case["trans"]:
            t["gap"] = False


def present(links):
    """No references to missing relations, whose ids new links may get."""
    return [[u, "int" if k == "gone" else k] for u, k in links]
