from hypothesis import strategies as st
from .common_gen import pick, prob, uniq
from .po_gen import entry, ident, HEADERS, COMMENT, ID, VIS

KINDS = ("duplicate", "empty msgid", "incomplete plural", "mixed: empty",
         "mixed: full", "msgstr on a plural", "msgstr[0] on a singular",
         "blank among full", "blank plural form", "alike", "alike", "none")


@st.composite
def strategy(draw):
    kind = draw(pick(*KINDS))
    base = {"mixed: full": "empty"}.get(kind, "full")
    if kind in ("none", "duplicate", "empty msgid"):
        base = draw(pick("full", "empty"))
    entries = uniq([entry(draw, base) for _ in range(draw(pick(
        2, 1, 3, 5)))], key=lambda e: repr(ident(e)))
    head = draw(HEADERS)
    if kind == "empty msgid":
        # the first entry without an id would be taken for the header
        head = head or [["Language", "en"]]
    return {"kind": kind, "entries": entries, "head": head,
            "comment": draw(COMMENT), "headfuzzy": False,
            "source": draw(pick(True, True, False)),
            "at": draw(st.integers(0, 9)), "to": draw(st.integers(0, 5)),
            "id": draw(ID), "text": draw(VIS)}
