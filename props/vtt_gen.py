from hypothesis import strategies as st
from .common_gen import many, visible, newline, prob, pick
from .srt_gen import SIXTY, MS3, WS, ARROW

ARROWFREE = visible("\n\r", only=["a", "b", "1", " ", "cue", "<v Bob>", "<i>",
                                  "\u4e2d", ":", "#", "::", "{", "}", "."])
LINE = st.one_of(*[visible("\n\r")] * 9, pick(
    "NOTE", "NOTE x", "STYLE", "REGION", "WEBVTT", "WEBVTT - x", "1",
    "00:01.000", "00:01.000 --> 00:02.000", "::cue { a: b }", "Kind: x"))
POS = ["", "", "", " line:0", " align:start size:50%", " "]
HEAD = ["", "", " - title", " \u4e2d", "\nKind: captions",
        "\nKind: captions\nLanguage: en", "\tx"]
BLOCKS = ["NOTE a comment", "NOTE\nmulti\nline", "STYLE\n::cue { color: red }",
          "REGION\nid:fred\nwidth:40%", "NOTE \u4e2d", "just text", "NOTE"]
GAPS = ["", "", "", "\n", "\n\n", "\n\n\n", " \n", "\t\n\n"]
MS = st.one_of(MS3, MS3, MS3, st.none(), pick("5", "50"))


@st.composite
def lines(draw):
    n = draw(many(1, 2, 3))
    out = []
    for i in range(n):
        out.append(" " if 0 < i < n - 1 and draw(prob(1, 8)) else draw(LINE))
    return out


LINES = lines()
TRANS = st.one_of(LINES.map("\n".join), LINES.map("\n".join), st.none())


def time(draw, sec):
    h = draw(st.one_of(st.none(), pick(0, 1, 12, 99, 100)))
    return [h, draw(SIXTY), sec, draw(MS)]


@st.composite
def strategy(draw):
    n = draw(many(1, 2, 3, 4, 5, 6, big=13))
    blocks, k = [], 0
    dup = draw(prob(1, 8))
    for i in range(n):
        while draw(prob(1, 5)):
            blocks.append({"k": "raw", "text": draw(pick(*BLOCKS)),
                           "gap": draw(pick(*GAPS))})
        kind = "empty" if i and draw(prob(1, 8)) else "cue"
        sec = draw(SIXTY)
        if not dup:
            sec = (sec // 6) * 6 + i  # timings tell the cues apart
        end = time(draw, draw(SIXTY))
        b = {"k": kind, "id": draw(st.one_of(
                st.none(), pick("1", "2", "-1"), ARROWFREE.map(str.strip),
                st.tuples(ARROWFREE, ARROWFREE).map("\n".join).map(str.strip))),
             "iws": draw(pick(*WS)), "arrow": draw(pick(*ARROW)),
             "start": time(draw, sec), "end": end,
             "pos": draw(pick(*POS)), "lines": draw(LINES) if kind == "cue"
             else [], "tail": draw(pick(*WS)), "gap": draw(pick(*GAPS))}
        if dup and blocks and blocks[-1]["k"] == "cue" and draw(prob(1, 2)):
            for f in ("start", "end", "pos", "arrow"):
                b[f] = blocks[-1][f]
        blocks.append(b)
    trans = [draw(TRANS) for _ in range(n)]
    return {"head": draw(pick(*HEAD)), "blocks": blocks, "trans": trans,
            "nl": draw(newline), "gap": draw(pick(*GAPS)),
            "end": draw(pick("", "\n", "\n\n", "\n\n\n", " \n"))}
