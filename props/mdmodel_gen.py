"""Markdown documents as lists of parts: ["t", syntax] or ["s", text to be
extracted]."""
from hypothesis import strategies as st
from .common_gen import many, pick, prob, coded, memo

PIECES = ("a", "b", "one", "two", "home", "C# ", "# ", "## ", " ", "  ", ".",
          "**b**", "*i*", "`c`", "[l](http://x.y/a_b)", "![i](a.png)", "[r][1]",
          "[^1]", "<br/>", "<b>x</b>", "{{ v }}", "{% t %}", "é", "Ж", "中",
          "😀", "\\*", "&nbsp;", "-", ":", "1", "2.", "%s", "\\", "$&", "'", "\"",
          "_", "~", "=", "(", ")", "http://a.b/c", "é", "title", "[", "]", "!",
          "\\1", "\\g<0>", "^", "+", "?", "0", "d41d8cd98f00b204e98", "_tr")
FIRST = pick("a", "w", "Home", "one", "x", "Ж", "中", "é", "Docs", "two")


@memo
def line(extra=()):
    return st.builds(lambda f, r: word((f + r).rstrip()), FIRST,
                     coded(PIECES + extra, 0, 3))


def word(t):
    return t + "w" if t.lower() in ("nan", "inf", "infinity") else t


LINE = line(("|",))
# what paragraphs may begin with
START = pick("", "", "", "", "{% raw %} ", "{{ v }} ", "{%", "*i* ", "`c` ",
             "[l](http://x.y/a) ", "![i](a.png) ", "[^1] ", "\\", "(",
             "&nbsp;", "\u00bf", "1.", "2) ", "%}", "[x] ", "\"[", ":")
ITEM = line(("|",))
CELL = line()
CELLS = st.one_of(CELL, CELL, CELL, pick("-", "", "5", "1.5", "—", ":", "--",
                                         "{% x %}", "-1", "x-y", "a", "10 %"))
CODE = coded(PIECES + ("    ", "* ", "> ", "|", "---", "{%", "code", "#", "  "),
             1, 3).map(lambda s: s.rstrip() + "c")
URL = pick("http://x.com/home", "https://one.two/a#b", "/docs/a-b", "<#one>",
           "http://a.b/c?d=w&x=1")
FINE = ("5", "-1.5", "1e3", "{% tag %}", "{% if a %}", "+7", "100000")


def skipped(t):
    return not t or (t.startswith("{%") and t.endswith("%}")) or number(t)


def number(t):
    try:
        float(t)
        return True
    except ValueError:
        return False


def cell(t):
    return [["t", t]] if skipped(t) else [["s", t]]


def row(cells, pipes, pad):
    out = [["t", "|" + pad if pipes else ""]]
    for i, c in enumerate(cells):
        if i:
            out.append(["t", pad + "|" + pad])
        out += cell(c)
    return out + [["t", pad + "|" if pipes else ""]]


def table(draw):
    n = draw(many(2, 3, 1, 2))
    pipes = n == 1 or draw(prob(1, 2))
    pad = draw(pick(" ", " ", "", "  "))
    head = [draw(CELLS) for _ in range(n)]
    if not pipes or not any(head):
        head[0] = draw(CELL)
    out = row(head, pipes, pad)
    dash = [draw(pick("---", "-", ":-:", "--:", ":---", "-----"))
            for _ in range(n)]
    sep = draw(pick("|", " | "))
    out.append(["t", "\n" + ("|" if pipes else "") + sep.join(dash) +
                ("|" if pipes else "") + "\n"])
    rows = draw(pick(1, 2, 3))
    for r in range(rows):
        cells = [draw(CELLS) for _ in range(n)]
        if not pipes:
            cells[0] = draw(CELL)
        out += row(cells, pipes, pad)
        if r < rows - 1:
            out.append(["t", "\n"])
    return out


def items(draw, depth, indent):
    ordered = draw(prob(1, 3))
    bullet = draw(pick("*", "-", "+"))
    loose = draw(prob(1, 4))
    out = []
    for i in range(draw(pick(2, 1, 3))):
        mark = "%d. " % (i + 1) if ordered else bullet + " "
        if i:
            out.append(["t", "\n\n" if loose else "\n"])
        t = draw(ITEM)
        out += [["t", " " * indent + mark + draw(pick("", "", " "))], ["s", t]]
        if draw(prob(1, 5)):
            out += [["t", "\n" + " " * (indent + len(mark))],
                    ["s", draw(ITEM)]]
        if depth and draw(prob(1, 3)):
            out += [["t", "\n"]] + items(draw, depth - 1, indent + len(mark))
    return out


def block(draw, kind):
    if kind == "para":
        return cell(draw(START) + "\n".join(
            draw(LINE) for _ in range(draw(pick(1, 1, 2, 3)))))
    if kind == "head":
        n = draw(many(1, 2, 3, 4, 5, 6))
        t = draw(line()) + draw(pick("", "", " #", " ###"))
        if draw(prob(1, 6)):
            return [["s", "#" * n + t]]
        return [["t", "#" * n + " "], ["s", t]]
    if kind == "setext":
        return [["s", draw(line()) + "\n" + draw(pick("===", "---", "=", "-----"))]]
    if kind == "list":
        return items(draw, draw(pick(1, 0, 2)), 0)
    if kind == "quote":
        lines = [draw(pick("> ", ">", "> > ")) + draw(LINE)
                 for _ in range(draw(pick(1, 2, 3)))]
        if draw(prob(1, 3)):
            lines.insert(0, "> [!%s]" % draw(pick("NOTE", "TIP", "WARNING",
                                                  "OTHER")))
        return [["s", "\n".join(lines)]]
    if kind == "fence":
        f = draw(pick("```", "~~~", "````"))
        body = [draw(CODE) for _ in range(draw(pick(1, 2, 3)))]
        return [["s", f + draw(pick("", "py", "js")) + "\n" +
                 "\n".join(body) + "\n" + f]]
    if kind == "code":
        body = [draw(CODE) for _ in range(draw(pick(1, 2, 3)))]
        return [["s", "\n".join("    " + b for b in body)]]
    if kind == "table":
        return table(draw)
    if kind == "ref":
        t = draw(pick("Home", "one", "1", "23", "w x", "a-b", "C# x", "Ж",
                      "Cafe", "ab", "1e5", "0x1f", "1.5", "v2", "IX"))
        end = "]: " + draw(URL) + draw(pick("", "", " \"Title one\"", " 'x'"))
        return [["t", "["], ["t" if t.isdigit() else "s", t], ["t", end]]
    if kind == "skip":
        return [["t", draw(pick(*FINE))]]
    if kind == "html":
        return [["s", draw(pick("<div>%s</div>", "<!-- %s -->", "<p id=\"a\">\n%s\n</p>",
                                "<Comp a={1}>%s</Comp>")) % draw(pick(
                                    "one", "Home", "x\ny", "**b**"))]]
    raise ValueError(kind)


KIND = pick("para", "para", "para", "head", "head", "setext", "list", "list",
            "quote", "fence", "code", "table", "table", "ref", "ref", "skip",
            "html")


@st.composite
def strategy(draw):
    parts, last = [["t", draw(pick("", "", "\n", "\n\n"))]], ""
    notes = 0
    for i in range(draw(many(1, 2, 3, 4, 5, 6, 7, 8, big=15))):
        kind = draw(KIND)
        # blocks that would join with the one before
        if last in ("list", "code", "quote") and kind in (
                "list", "code", "quote") or last == "list" and kind == "ref":
            kind = "para"
        if i:
            parts.append(["t", draw(pick("\n\n", "\n\n", "\n\n\n"))])
        if kind == "para" and draw(prob(1, 8)):
            notes += 1
            parts += [["t", "[^n%d]: " % notes], ["s", draw(line())]]
            kind = "code"
        else:
            parts += block(draw, kind)
        last = kind
    parts.append(["t", draw(pick("\n", "", "\n\n"))])
    return {"parts": parts, "nl": draw(pick("\n", "\n", "\r\n")),
            "kind": draw(pick("v1", "v2", "jsx")),
            "trans": [draw(pick("uno", "\u039e # x", "a\nb", "\\1 \\n", "%s", "-",
                                "one", "0", "\u4e2d", "x_tr")) for _ in range(5)]}
