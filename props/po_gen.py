from hypothesis import strategies as st
from .common_gen import many, pick, prob, uniq, coded, frag, WIDE, memo
from . import xml_gen as X

# polib ends lines at these, whatever they are in
ENDS = "\u2028\u2029\x85\x0b\x0c\x1c\x1d\x1e"
POOL = tuple(p for p in frag() if not any(c in p for c in ENDS)) + tuple(
    c for c in WIDE if c not in ENDS)
TEXT = coded(POOL + ("\n", "\t", "\\", "\"", ":", "a:b", "\\:", "%(x)s", "\r",
                     "\\\\", "a long run of words to fill a line up with ",
                     "\\n", "msgid \"", "#~ "), 1, 6)
VIS = TEXT.map(lambda s: s if s.strip() else s + "w")
ID = st.one_of(coded(("a", "b", "c", ":", "\\", "x y", "\"", "é"), 1, 3), VIS)
CTX = st.one_of(pick(None, None, None, "", "menu", "a:b", "c\\d", "é \"q\""),
                pick(None, "menu", "Menu", "menu:", "menu ", " menu", "menus",
                     "me", "menu\n", "menu.", "menu\\", "0", "None"))
PLURAL = st.one_of(VIS, VIS, VIS, pick(" ", "x"))
FORMS = pick(2, 2, 1, 3, 6)
FLAGS = pick([], [], [], ["python-format"], ["no-wrap", "c-format"])
OCC = pick([], [], [["a.py", "3"]], [["dir/b.c", "10"], ["a.py", "7"]],
           [["x.html", ""]], [["c", ""]], [["d.py", "0"], ["a.py", "07"]],
           [["C:/e.c:5", ""], ["http://f/g:7", ""]])
NOTE = pick("", "", "note", "two\nlines", " indented", "é: \"q\"", "a, b")
HEADERS = pick(
    [], [["Language", "en"]],
    [["Content-Type", "text/plain; charset=UTF-8"], ["Language", "el"],
     ["Plural-Forms", "nplurals=2; plural=(n != 1);"]],
    [["Project-Id-Version", "a \"b\" \\ c"], ["X-Thing", ""],
     ["Content-Transfer-Encoding", "8bit"]])
COMMENT = pick("", "", "Copyright (C) X", "Two\nlines", "é\n\nend",
               " , fuzzy\n  : a.c", " one\n  two",
               ".net one\n~ two", "| three\n# four\n-- five")


def entry(draw, texts, fuzzy=True):
    e = {"ctx": draw(CTX), "id": draw(ID), "plural": None,
         "flags": list(draw(FLAGS)), "occ": draw(OCC), "note": draw(NOTE),
         "tnote": draw(NOTE), "split": draw(pick(0, 0, 3, 7)),
         "obsolete": draw(prob(1, 10)), "prev": draw(prob(1, 10))}
    n = 1
    if draw(prob(1, 3)):
        e["plural"] = draw(PLURAL)
        n = draw(FORMS)
    if draw(prob(1, 10)) and texts != "empty":
        e["str"] = [" "] * n
    elif texts == "empty" or texts == "any" and draw(prob(1, 4)):
        e["str"] = [draw(pick("", "", " ")) for _ in range(n)] if draw(
            prob(1, 8)) else [""] * n
    else:
        e["str"] = [draw(VIS) for _ in range(n)]
    if fuzzy and draw(prob(1, 8)):
        e["flags"].insert(draw(st.integers(0, len(e["flags"]))), "fuzzy")
    if e["obsolete"]:
        # polib writes an obsolete entry without its comments
        e["occ"], e["note"], e["tnote"] = [], "", ""
        e["flags"] = [f for f in e["flags"] if f == "fuzzy"]
    return e


def ident(e):
    return [e["id"], e["plural"], e["ctx"] or ""]


@st.composite
def strategy(draw):
    mode = draw(pick("po", "pot", "translation"))
    texts = {"po": "full", "pot": "empty", "translation": "any"}[mode]
    entries = uniq([entry(draw, texts) for _ in range(draw(many(
        3, 2, 1, 4, 6)))], key=lambda e: repr(ident(e)))
    return {"mode": mode, "entries": entries, "head": draw(HEADERS),
            "comment": draw(COMMENT), "headfuzzy": draw(prob(1, 6)),
            "trans": [draw(TEXT) for _ in range(5)],
            "forms": draw(FORMS), "text": draw(prob(1, 2))}
