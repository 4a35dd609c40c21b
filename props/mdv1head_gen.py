"""YAML headers of version 1 markdown files: lines of keys and texts, block
texts, lists, comments and parents."""
from hypothesis import strategies as st
from .common_gen import many, pick, coded, prob
from .mdmodel_gen import skipped

KEY = pick("title", "a", "key", "intro", "t", "two words", "x_1", "été", "to-do",
           "w", "description")
PIECES = ("a", "w", "title", "key", "text", "intro", " ", "  ", ": ", ":", "#",
          "# ", "'", "\"", "{{ v }}", "{% t %}", "[x]", "|", ">", "é", "中",
          "😀", "http://a.b", "1", ".", "%s", "- ", "---", "\\", "*", "&amp;",
          "$&", "\\1", "d41d8cd98f00b204e9800998ecf8427e_tr", "t")
TEXT = coded(PIECES, 1, 5)
FINE = pick("12.5", "", "-1", "{% tag %}", "1e3", "", "0")


@st.composite
def strategy(draw):
    rows, indent = [], 0
    for _ in range(draw(many(1, 2, 3, 4, 5, 6, 7))):
        kind = draw(pick("text", "text", "text", "block", "parent", "comment",
                         "item", "fine", "blank"))
        pad = " " * indent
        key = draw(KEY)
        gap = draw(pick(" ", " ", "  ", ""))
        end = draw(pick("", "", " "))
        if kind == "text":
            value = draw(TEXT).strip()
            if value in "|>[" or skipped(value) or value[0] in "[\"#":
                value = "w" + value
            if value.lower() in ("nan", "inf", "infinity"):
                value += "w"
            rows += [["t", pad + key + ":" + gap], ["v", value],
                     ["t", end + "\n"]]
        elif kind == "fine":
            rows += [["t", pad + key + ":" + gap + draw(FINE) + end + "\n"]]
        elif kind == "block":
            mark = draw(pick("|", ">", "["))
            inner = " " * (indent + draw(pick(2, 2, 4)))
            lines = [inner + (draw(TEXT).strip() or "w") + "w"
                     for _ in range(draw(st.integers(1, 3)))]
            rows += [["t", pad + key + ": " + mark + "\n"],
                     ["v", "\n".join(lines)], ["t", "\n"]]
            if mark == "[":
                rows.append(["t", pad + "]\n"])
            elif draw(prob(1, 6)):
                # too little indentation to be a line of the block
                rows += [["t", pad + " " + draw(KEY) + ": "], ["v", "wx"],
                         ["t", "\n"]]
        elif kind == "parent":
            rows += [["t", pad + key + ":\n"]]
            indent += draw(pick(2, 2, 2, 1, 3, 4))
            continue
        elif kind == "comment":
            rows += [["t", "#" + draw(pick(" ", "")) + draw(KEY) + ": " +
                      draw(TEXT).strip() + "w\n"]]
            continue
        elif kind == "item":
            rows += [["t", pad + "- " + draw(pick("a", "w", "title", "text")) +
                      "\n"]]
        elif not (rows and rows[-1][1].startswith("#")):
            rows += [["t", "\n"]]
        if draw(prob(1, 4)):
            indent = max(0, indent - 2)
    rows.append(["t", draw(KEY) + ": 1\n"])
    n = sum(1 for r in rows if r[0] == "v")
    return {"rows": rows, "open": draw(pick("---\n", "---\n", "--- \n")),
            "body": draw(pick("text w\n", "\n# title\n\nmore a\n", "title\n")),
            "nl": draw(pick("\n", "\n", "\r\n")),
            "trans": draw(st.lists(TEXT, min_size=n + 2, max_size=n + 2))}
