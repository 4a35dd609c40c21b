"""Models of JSON documents: ["o", [[rawkey, node]..]], ["a", [node..]],
["s", raw text], ["p", plural], ["x", other literal]."""
from hypothesis import strategies as st
from .common_gen import many, text, coded, prob, pick, uniq, newline

ESCAPES = ["\\\"", "\\\\", "\\n", "\\t", "\\/", "\\b", "\\f", "\\r", "\\u00e9",
           "\\ud83d\\ude00", "\\u0022", "\\u005c", "\\\\n", "\\\\\\\"", "'",
           "/", "\x7f", "\\\\\\\\", ": ", "\\u0000", "\\uFFFF"]
BAD = "\"\\"
RAW = text(BAD, tuple(ESCAPES), 1, 6)
BLANK = pick("", " ", "   ", "\u00a0", "\u3000")
SELECT = pick("{g, select, male {he} other {they}}", "{n, number}",
              "{n, plural, =1 {a} other {b}}", "{cnt, plural}", "{ plural, x }",
              "{n, plural , =0 {none} one {x} other {y}}", "{a} {b}",
              "plural, one {a} other {b}", "{cnt, selectordinal, one {#st} other {#th}}")
STRING = st.one_of(RAW, RAW, RAW, RAW, SELECT)
KEY = st.one_of(
    coded(tuple("abcdefgh") + ("k1", "key", "a.b", "."), 1, 2),
    text(BAD, tuple(ESCAPES), 0, 3),
    pick("string", "message", "description", "context", "..0..", "a..0..b", "",
         "@a", "@@locale", "@a.type", "developer_comment", "character_limit"))
LITERAL = pick("0", "1", "-1", "12.5", "-0.25", "1e5", "1E5", "1.5e3",
               "-2.5E-3", "1e+5", "1e-7", "123456789012345678901", "true",
               "false", "null", "0.1", "-0", "0e0")
CONTENT = coded(tuple("abc xy#") + (
    "{cnt}", "{}", "{a {b} c}", "'", "\\\"", "\\n", "\\\\", "\\u00e9", "\u00e9",
    "\u4e2d", "\U0001f600", "one ", "other", "apples", "  ", ",", "\u05d0",
    "<b>", "%d", "-->", "it''s"), 0, 5)
RULES = ["zero", "one", "two", "few", "many", "other"]
VAR = pick("cnt", "n", "count", "plural", "one", "other", "item_count", "0",
           "my-var", "zero")
SP = pick("", " ", " ", "  ")
SEP = pick(" ", " ", " ", "", "  ", " \\n ", "\\n\\t", "\\t")


@st.composite
def plural(draw, numeric=False, nonempty=False):
    rules = draw(st.lists(pick(*RULES[:5]), unique=True, max_size=3))
    rules = sorted(rules, key=RULES.index) + ["other"]
    if draw(prob(1, 8)):
        rules = draw(st.permutations(rules))
    canon = draw(prob(3, 5))
    forms = []
    for r in rules:
        c = draw(CONTENT)
        if nonempty and not c.strip():
            c += "w"
        if numeric and r in RULES[:3] and draw(prob(1, 2)):
            r = "=%d" % RULES.index(r)
        forms.append([r, "" if canon and False else
                      " " if canon else draw(SP), c])
    return {"pre": draw(pick("", "", " ")), "var": draw(VAR),
            "s": [draw(SP) for _ in range(4)] +
                 [draw(pick(" ", "", "  ", "\\n ", " \\n "))],
            "forms": forms,
            "seps": [" " if canon else draw(SEP)
                     for _ in range(len(forms) - 1)],
            "end": draw(pick("", "", " ", " \\n", "\\t")),
            "post": draw(pick("", "", "", " ", " items"))}


PLURAL = plural()


def node(draw, depth, strings=None, plurals=PLURAL):
    kind = draw(pick("s", "s", "s", "o", "o", "a", "x", "b", "p"))
    if kind in "oa" and depth <= 0:
        kind = "s"
    if kind == "s":
        return ["s", draw(STRING)]
    if kind == "b":
        return ["s", draw(BLANK)]
    if kind == "x":
        return ["x", draw(LITERAL)]
    if kind == "p":
        return ["p", draw(plurals)]
    return container(draw, kind, depth - 1)


def container(draw, kind, depth, min_size=0):
    n = draw(many(1, 2, 3, 0, 4) if not min_size else many(2, 1, 3, 4, 5))
    if kind == "a":
        return ["a", [node(draw, depth) for _ in range(n)]]
    keys = uniq([draw(KEY) for _ in range(n)])
    return ["o", [[k, node(draw, depth)] for k in keys]]


WS = pick([""], [" "], ["", " "], ["\n", "  "], ["\n  ", " ", ""],
          ["\n", "", " ", "\t"], ["", "", "\n\n"], [" \n "], ["\n\t"],
          ["\n    ", "", " "])
TRANS = RAW


def count(n):
    if n[0] in "oa":
        return sum(count(c[1] if n[0] == "o" else c) for c in n[1])
    return 1 if n[0] == "p" or n[0] == "s" and n[1].strip() else 0


@st.composite
def doc(draw, root=None):
    kind = root or draw(pick("o", "o", "o", "a"))
    tree = container(draw, kind, draw(pick(2, 1, 3, 0)), 1)
    return {"tree": tree, "ws": draw(WS),
            "lead": draw(pick("", "", "\n", " ")),
            "tail": draw(pick("", "\n", "\n\n", " ")), "nl": draw(newline)}


@st.composite
def plural_trans(draw):
    rules = draw(st.lists(pick(0, 1, 2, 3, 4), unique=True, max_size=4))
    return [[r, draw(CONTENT)] for r in sorted(rules) + [5]]


PT = plural_trans()


def trans_for(draw, n):
    """A translation (text and plural alternatives) for each of n strings."""
    return [{"t": draw(TRANS), "p": draw(PT)} for _ in range(n)]
