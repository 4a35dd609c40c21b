import json

from hypothesis import strategies as st
from .common_gen import pick, prob, coded, text
from .anyinput_gen import document, FORMATS, KINDS, SEEDS

JSON = ("json", "arb", "structured", "chrome")
EDITS = pick("", "", "x", "\u00e9\u20ac", "\U0001f600", "<b>", "\"", "\\", "'", "&amp;", " ", "\n")


ONE_FORM = {     # plurals with a single form
    "json": '{"a": "{ n, plural, other {x} }", "b": "c"}',
    "arb": '{"a": "{n, plural, other {x}}"}',
    "structured": '{"a": {"string": "{ n, plural, other {x} }"}}',
    "android": '<resources>\n<plurals name="p">\n<item quantity="other">x</item>\n'
               '</plurals>\n<string name="a">b</string></resources>',
    "i18n": "en:\n  a:\n    other: x\n"}


@st.composite
def strategy(draw):
    f = draw(pick(*FORMATS))
    doc = draw(pick(*SEEDS[f])) if draw(prob(2, 5)) else document(draw, f)
    if f in ONE_FORM and draw(prob(1, 8)):
        doc = ONE_FORM[f]
    if f in JSON and not doc.isascii():     # see shows() in testbed_chk.py
        try:
            json.loads(doc)
        except ValueError:
            doc = doc.encode("ascii", "ignore").decode()
    return {"format": draw(pick(*KINDS.get(f, (f,)))), "doc": doc,
            "nl": draw(pick("\n", "\n", "\r\n")),
            "suffix": draw(EDITS), "empty": draw(prob(1, 8)), "drop": draw(st.integers(0, 5)),
            "damage": draw(pick("", "", "", "", "", "", "hash", "template")),
            "save": draw(prob(1, 3)), "again": draw(prob(1, 2)),
            "at": draw(st.integers(0, 99)), "spaces": draw(pick(None, None, 2))}
