from hypothesis import strategies as st
from .common_gen import many, text, prob, pick, uniq, coded
from . import json_gen as J

NUM = J.plural(numeric=True)
META = text("\"\\", tuple(J.ESCAPES[:10]), 0, 4)
NAME = st.one_of(coded(tuple("abcdefgh") + ("Key", "title", "a.b", "."), 1, 2),
                 text("\"\\@", tuple(J.ESCAPES), 0, 3),
                 pick("context", "type", "x@y", "a\\\\b"))
STRING = st.one_of(J.RAW, J.RAW, J.RAW, pick(
    "{g, select, male {he} other {they}}", "{n, number}", "{cnt, plural}",
    "{ plural, x }", "{a} {b}", "plural, one {a} other {b}",
    "{cnt, selectordinal, one {#st} other {#th}}"))
LOCALE = pick("en", "en_US", "es-419", "es_419", "zh_Hant_TW", "zh-Hant", "",
              "pt_BR", "sr@latin", "x")


def meta(draw):
    items = []
    for k in draw(st.permutations(["description", "context", "type",
                                   "placeholders", "x", "source_text"]))[
                                       :draw(pick(2, 1, 3, 0, 6))]:
        if k == "type":
            v = ["s", draw(pick("text", "text", "image", "css", "", "Text",
                                 "texture", "richtext", "text/html"))]
        elif k in ("placeholders", "x"):
            v = J.node(draw, 2)
        elif draw(prob(1, 8)):
            v = draw(pick(["x", "null"], ["x", "5"], ["o", []],
                          ["a", [["s", "z"]]]))
        else:
            v = ["s", draw(META)]
        items.append([k, v])
    return ["o", items]


@st.composite
def strategy(draw):
    items, plain = [], draw(prob(1, 4))
    for k in uniq([draw(NAME) for _ in range(draw(many(3, 2, 4, 1, 5)))]):
        kind = draw(pick("s", "s", "s", "p", "p", "b", "x",
                         "x" if plain else "n"))
        v = {"s": lambda: ["s", draw(STRING)], "p": lambda: ["p", draw(NUM)],
             "b": lambda: ["s", draw(J.BLANK)],
             "x": lambda: ["x", draw(J.LITERAL)],
             "n": lambda: J.container(draw, draw(pick("o", "a")), 1)}[kind]()
        items.append([k, v])
        if not plain and draw(prob(3, 4)):
            at = len(items) if draw(prob(2, 3)) else draw(
                st.integers(0, len(items)))
            items.insert(at, ["@" + k, meta(draw)])
    if not plain and draw(prob(1, 2)):
        items.insert(draw(st.integers(0, len(items))),
                     ["@@locale", ["s", draw(LOCALE)]])
    if not plain and draw(prob(1, 5)):
        items.insert(draw(st.integers(0, len(items))), draw(pick(
            ["@@last_modified", ["s", "2020-01-01"]], ["@@x-y", ["a", [["s", "q"]]]],
            ["@nobody", ["o", [["description", ["s", "dangling"]]]]],
            ["@str", ["s", "a string"]], ["@a.type", ["s", "image"]])))
    items = uniq(items, key=lambda i: i[0])
    case = {"tree": ["o", items], "ws": draw(J.WS), "lead": draw(pick("", "\n")),
            "tail": draw(pick("", "\n")), "nl": draw(J.newline),
            "trans": J.trans_for(draw, 5), "code": draw(pick(
                None, "el", "pt_BR", "zh-Hant")),
            "dup": draw(st.integers(0, 30)) if draw(prob(1, 12)) else None,
            "keep": [draw(prob(2, 3)) for _ in range(5)]}
    return case
