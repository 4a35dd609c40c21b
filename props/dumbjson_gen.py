from hypothesis import strategies as st
from .common_gen import text, coded, prob, pick
from . import json_gen

DOC = json_gen.doc()
PLAIN = text("", ["\n", "\t", "\r", "\b", "\f", "\"", "\\", "\\\\", "/",
                  "\\u00e9", "\\ud83d", "\\u12", "\\x", "\U0001f600"], 0, 8)
RAWSTR = text("\"\\", json_gen.ESCAPES + [
    "\\ud800", "\\udc00", "\\ud83d", "\\ude00", "\\uD834\\uDD1E", "\\uabcd",
    "u0041", "d83d", "\\/"], 0, 8)

# parts of texts of an editor: what does not start an escape is left as it is
LOOSE = pick(["a", "a"], ["\\q", "\\q"], ["\\u12x", "\\u12x"], ["\\ux", "\\ux"],
             ["\\x41", "\\x41"], ["\\ ", "\\ "], ["\\n", "\n"], ["\\\\", "\\"],
             ["\\/", "/"], ["\\\"", "\""], ["\\u00e9", "\u00e9"], ["\n", "\n"],
             ["\\ud83d\\ude00", "\U0001f600"], ["\u00e9", "\u00e9"], ["\"", "\""],
             ["\\uD834\\uDD1E", "\U0001d11e"], ["\\'", "\\'"], ["\\u00zz", "\\u00zz"],
             ["\\t", "\t"], ["\\b", "\b"], ["\\f", "\f"], ["\\r", "\r"])


@st.composite
def strategy(draw):
    loose = draw(st.lists(LOOSE, max_size=5))
    if draw(prob(1, 6)):
        loose.append(["\\", "\\"])
    return {"loose": loose, "doc": draw(DOC), "prefix": draw(pick("", "", '"x": ', "12 ")),
            "plain": draw(PLAIN), "raw": draw(RAWSTR),
            "pick": draw(st.integers(0, 7)), "cut": draw(st.integers(1, 400))}
