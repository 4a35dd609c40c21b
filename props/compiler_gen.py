from hypothesis import strategies as st
from .common_gen import pick, prob, many, text, coded, uniq

FILL = coded(["a", "k = ", "<x>", "</x>", " ", "\t", "{", "}", "%s", "\u00e9", "\u4e2d", "_tr",
              "_pl", "0123456789abcdef0123456789abcdef", "\"", ";"], 0, 3)
SPACE = pick("", "", " ", "  ", "\t", "    ", " \t ")
VALUE = coded(["x", "one two", " ", "\n", "{0}", "{rule}", "{", "}", "%", "\\", "\u00e9", "\U0001f600",
               "<b>", "_tr", "\n  y"], 0, 4)
RULES = pick((1, 5), (5,), (1, 3, 4, 5), (0, 1, 2, 3, 4, 5), (5, 1), (4, 0), (1, 5), (2,))
PLURAL = pick("<i q=\"{rule}\">{string}</i>", "{rule}: {string}", "{string}", "{rule}",
              "[{rule}={string};{rule}]", "{{{rule} {string}}}")
PIECES = many(1, 1, 1, 2, 3)
LINES = many(1, 2, 3, 4, 6)


@st.composite
def strategy(draw):
    lines, n = [], 0
    for _ in range(draw(LINES)):
        kind = draw(pick("own", "own", "text", "mixed", "mixed"))
        line = []
        if kind == "own":
            line = [draw(SPACE), {"rules": list(draw(RULES)) if draw(prob(4, 5)) else None},
                    draw(SPACE)]
        elif kind == "text":
            line = [draw(FILL)]
        else:
            for _ in range(draw(PIECES)):
                line += [draw(FILL), {"rules": list(draw(RULES)) if draw(prob(1, 2)) else None}]
            line.append(draw(FILL))
        for p in line:
            if isinstance(p, dict):
                p["values"] = [draw(VALUE) for _ in p["rules"] or (0,)]
                p["left"] = draw(prob(1, 12))
        lines.append(line)
    return {"lines": lines, "plural": draw(PLURAL), "nl": draw(pick("\n", "\n", "\r\n")),
            "end": draw(prob(2, 3)), "rule": draw(st.integers(-2, 8))}
