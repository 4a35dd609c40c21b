from hypothesis import strategies as st
from .common_gen import many, pick, prob
from .ooxml_gen import TEXT, BLANK, URLS, translation

KINDS = pick("s", "s", "s", "inline", "link", "str", "n", "empty")


@st.composite
def texts(draw):
    if draw(prob(2, 3)):
        return [draw(st.one_of(TEXT, TEXT, TEXT, TEXT, BLANK))]
    return [draw(st.one_of(TEXT, TEXT, BLANK)) for _ in range(draw(pick(2, 3, 4)))]


TEXTS = texts()
QUOTES = pick('http://a.b/"c"', 'http://a.b/?q="')
QUOTED = pick('say "x"', '"q"', 'a "', '"" b', 'x"y, "z"')


def sheet(draw, name, number, shared, trans):
    links = [[draw(URLS), draw(pick("ext", "ext", "ext", "int"))]
             for _ in range(draw(pick(0, 1, 2, 3)))]
    rows = []
    for _ in range(draw(many(1, 2, 3, 0))):
        row = []
        for _ in range(draw(many(1, 2, 3, 4, big=28))):
            k = draw(KINDS)
            if k == "s" and not shared:
                k = "inline"
            c = {"kind": k, "link": None, "noref": draw(prob(1, 20))}
            if k == "s":
                c["at"] = draw(st.integers(0, shared - 1))
            if k == "inline":
                c["texts"] = draw(TEXTS)
            if k in ("link", "str"):
                c["texts"] = [draw(st.one_of(TEXT, QUOTED) if k == "link"
                                   else TEXT)]
            if k == "link":
                c["url"] = draw(st.one_of(URLS, URLS, URLS, QUOTES))
                c["form"] = draw(pick(0, 0, 0, 1, 2))
            if links and k != "link" and draw(prob(1, 3)):
                c["link"] = draw(st.integers(0, len(links) - 1))
            row.append(c)
        rows.append(row)
    return {"name": name, "number": number, "links": links, "rows": rows,
            "view": draw(pick(1, 0, 2, 3)), "other": draw(prob(1, 2))}


NAMES = st.one_of(pick("Sheet1", "Sheet2", "S & T", "<a>", "one", "two", "\u03ad\u03bd\u03b1", "'q' \"r\""),
                  TEXT)
NUMBERS = pick([1, 2, 3], [1, 2, 3], [2, 1, 3], [10, 2, 1], [9, 10, 11])


@st.composite
def strategy(draw):
    shared = [draw(TEXTS) for _ in range(draw(many(3, 4, 2, 1, 0)))]
    names = []
    for i in range(draw(pick(1, 2, 3))):
        name = draw(NAMES)
        names.append(name + str(i) if name in names or not name.strip() else name)
    numbers = draw(NUMBERS)
    sheets = [sheet(draw, n, k, len(shared), None) for n, k in zip(names, numbers)]
    case = {"shared": shared, "sheets": sheets, "absolute": draw(prob(1, 4)),
            "bom": draw(prob(1, 6)), "mix": draw(pick(1, 1, 3, 5)),
            "rtl": draw(pick("", "", "no", "yes", "none"))}
    if draw(prob(2, 3)):
        case["trans"] = [draw(translation()) for _ in range(3)]
        case["url"] = draw(prob(1, 4))
        case["space"] = draw(pick("", "", "", "between", "end"))
        if case["url"]:
            for t in case["trans"]:
                t["kind"] = "each"
    return case
