from hypothesis import strategies as st
from .common_gen import many, pick, prob, coded, frag, WIDE

WORDS = tuple(frag()) + tuple(WIDE) + (
    "**bold**", "*it*", "`code`", "[link](http://x.y)", "![img](a.png)",
    "[ref][1]", "[^1]", "\t", " ", "  ", "<br/>", "{% t %}", "{{ v }}", "C# ",
    "ﬁ", "½", "①", "\\*", "&nbsp;", "word", "word ", "1", "-", "|", ":")
INLINE = coded(WORDS, 0, 5)
START = pick("", "", "", "# ", "## ", "###### ", "####### ", "* ", "- ", "+ ",
             "1. ", "23. ", "> ", ">", "> > ", "    ", "        ", "\t", "  ",
             "   - ", "    * ", "- [ ] ", "> [!NOTE] ", "> [!TIP]\n> ", "| ",
             "[a]: ", "[1]: ", "[^1]: ", "<div>", "</div>", "<!-- ", "<p>\n",
             "{% ", "```", "~~~", "title: ", "- # ", "1.5", "#", "- > ", "  > ")
END = pick("", "", "", "", " #", " |", "  ", ":", " %}", " -->", "\\", " ```")
WHOLE = pick("---", "***", "===", "```", "```python", "~~~", "|---|---|",
             "| a | b |", "a | b", "--- | ---", "{% tag %}", "42", "-1.5e3",
             "<div>", "</div>", "<script>", "</script>", "<pre>", "</pre>", "-",
             "*", "#", "1.", ">", "    ", "[foo]: http://a", "<!--", "-->",
             "import X from 'y'", "<Comp a={1} />", "title: x", "|", "> [!NOTE]",
             "d41d8cd98f00b204e9800998ecf8427e_t", "nan", "inf", "1_0")
SEP = pick("\n", "\n", "\n\n", "\n\n", "\n\n\n", "\n \n", "\n    \n", "\n\t\n")

HEADLINE = coded((
    "title: a", "title: a", "description: two words", "title: |", "text: >", "tags: [",
    "  title: b", "  x: |", "    one: two", "    three", "  one", "  ", "# comment", "  # no",
    "tags: [a, b]", "k: 'x'", "k: \"x: y\"", "nested:", "  - item", "- item", "]", "",
    "title: a: b", "12: x", "k: 12", "u: http://x.y", "key:", "k: |-", "k: a  ", "k:b",
    "title: \u00e9", "a", "k: # c", "k: >-", "  \tt: x", "k: {a: b}"), 0, 1)


@st.composite
def strategy(draw):
    out = []
    for _ in range(draw(many(1, 2, 3, 4, 5, 6, 7, 8, 9, big=20))):
        if draw(prob(1, 4)):
            line = draw(WHOLE)
        else:
            line = draw(START) + draw(INLINE) + draw(END)
        out += [line, draw(SEP)]
        if draw(prob(1, 10)):  # the same line again
            out += [out[2 * draw(st.integers(0, len(out) // 2 - 1))], "\n"]
    text = draw(pick("", "", "", "\n", "---\ntitle: a\n---\n", "---\n")) + \
        "".join(out)
    if draw(prob(1, 6)):
        text = "---\n%s\n---\n%s" % ("\n".join(
            draw(HEADLINE) for _ in range(draw(st.integers(1, 7)))), "".join(out))
    if draw(prob(1, 3)):
        text = text.rstrip("\n")
    return {"text": text, "nl": draw(pick("\n", "\n", "\r\n")),
            "kind": draw(pick("v1", "v2", "jsx"))}
