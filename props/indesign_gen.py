from hypothesis import strategies as st
from .common_gen import many, coded, frag, pick, prob, text, WIDE

ACE = ["<?ACE 18?>", "<?ACE 19?>", "<?ACE 3?>", "<?ACE 8?>", "<?ACE 7?>"]
SPECIAL = ACE + ["<?ACE 4?>", "<Br/>"]
ENTITIES = ["&amp;", "&lt;", "&gt;", "&#233;", "&#x1F600;", "&quot;", "&apos;"]
# what a story holds: XML of one line
WORDS = coded(frag("<>&\r\n") + WIDE + ENTITIES * 2 + SPECIAL * 2, 1, 8)
EMPTY = coded([" ", "1", "23", ".", "-", "e", "\ufeff", "\u00a0", "\u200b",
               "<?ACE 8?>", "<?ACE 18?>", "<Br/>;", "\u0661", "\u00bd", "+",
               "\u0301"], 0, 4)
TEXT = text("\r", ENTITIES * 2 + SPECIAL * 2 + [
    "&", "<", "<?ACE 8", "&#;", "&#x;", "&unknown;", "<Br>", "&lt", "\n",
    "<?ACE ?>", "<?ace 8?>", "<Br/>;", "]]>", "&&amp;&", "<<"], min_size=0)
BLANK = pick("", "", "", " ", "\n  ", "\t", "\u00a0", "\n")
OTHER = pick("<Metadata></Metadata>", "<Content/>", "<Br/>", "<!-- x -->",
             "<Story Self=\"u1\"/>", "<Contents>word</Contents>",
             "<Note Content=\"word\"/>", "word", "<Content>\u00a0</Content>",
             "<Properties><A type=\"x\">word</A></Properties>", "&amp; tail")


@st.composite
def story(draw):
    items = []
    for _ in range(draw(many(0, 1, 2, 3, 4, 5))):
        if draw(prob(1, 4)):
            items.append(["", draw(OTHER), "", draw(pick("\n", "", "  "))])
        else:
            kind = draw(pick("text", "text", "text", "empty"))
            inner = draw(WORDS if kind == "text" else EMPTY)
            items.append([draw(BLANK), inner, draw(BLANK),
                          draw(pick("\n", "", "\n    ")), "content"])
    return items


@st.composite
def strategy(draw):
    ids = draw(st.lists(pick("u1", "ub3", "u2", "u10", "x"), unique=True,
                        max_size=4))
    names = ["Stories/Story_%s.xml" % i for i in ids]
    if draw(prob(1, 3)):
        names.append("XML/BackingStory.xml")
    if draw(prob(1, 6)):
        names.append("Stories/other.xml")
    listed = draw(st.lists(pick(*(["u1", "ub3", "u2", "u10", "x", "gone"])),
                           unique=True, max_size=6))
    if draw(prob(1, 2)):
        listed = draw(st.permutations(ids))
    files = [[n, draw(story()), draw(pick("\n", "\n", "\r\n")),
              draw(prob(1, 6))] for n in names]
    order = draw(st.permutations(list(range(len(files) + 2))))
    total = sum(len(f[1]) for f in files)
    trans = draw(st.lists(st.one_of(st.none(), TEXT, TEXT, TEXT),
                          min_size=total, max_size=total))
    return {"files": files, "listed": listed, "order": order, "trans": trans,
            "storylist": draw(pick(True, True, True, False)),
            "gap": draw(pick(" ", " ", "  ")), "meta": draw(prob(1, 2)),
            "twice": draw(prob(1, 3))}
