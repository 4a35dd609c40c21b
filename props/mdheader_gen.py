"""YAML headers of markdown files, without block scalars."""
from unicodedata import combining, normalize

from hypothesis import strategies as st
from .common_gen import pick
from .yaml_gen import strategy as whole

TRANS = pick("word", "two words", "true", "12", "null", "~", "1.5", "no",
             "2001-01-01", "- a", "? b", "a: b", "a #b", "#c", "!t", "&a", "*a",
             "%d", "@x", "`c`", "[a", "{b", "{{ v }}", "{a}", "a|b", ">", ">x",
             "it's", "say \"hi\"", "\"open", "'open", "C:\\dir", "a\\nb", "\\",
             "a\nb", "a\n\nb", "x, y", "x]", "\u00e9", "\u4e2d\u6587", "\U0001f600", ": ",
             "a:", ":a", "-", "--", "a\tb", "=", "<b>x</b>", "\u201cq\u201d", "\x08b", "50%",
             "\\x08", "\\u00e9", "end\\", "\"a\" and \"b\"", "'a' or 'b'", "[a] b")


def plain(n):
    if n["t"] == "s":
        if n["style"] in "|>" and n["style"]:
            n["style"] = "\""
        # tabs and compatibility forms are replaced in any markdown file
        # (and a leading one would be joined with what is before it)
        n["lines"] = [("x" if combining(l[:1] or "x") else "") + l
                      for l in n["lines"]]
        n["lines"] = [normalize("NFKC", l).replace("---", "--").replace(
            "\t", " ") or "x" for l in n["lines"]]
    elif n["t"] == "p":
        for _, k in n["forms"]:
            plain(k)
    elif n["t"] in "ml":
        for k in n["kids"]:
            plain(k[1] if n["t"] == "m" else k)


def scalars(n):
    if n["t"] == "s":
        yield n
    elif n["t"] in "ml":
        for k in n["kids"]:
            yield from scalars(k[1] if n["t"] == "m" else k)


@st.composite
def strategy(draw):
    case = draw(whole())
    case.update(dashes=False, crlf=False, final=True)
    if draw(pick(0, 0, 0, 0, 0, 1)):
        case["root"]["flow"] = True
    plain(case["root"])
    found = list(scalars(case["root"]))
    if found and draw(pick(0, 0, 1)):
        draw(st.sampled_from(found))["lines"][0] += draw(pick(
            "\\x41", "\\u0042", "\\x08", "\\u0007", "\\x00", "\\x7e", "\\u00a0",
            "\\x1", "\\u20"))
    for k in case["root"]["kids"] if case["root"]["t"] == "m" else ():
        if k[0][0] == "12":
            # taken for a string of the body: see the known findings
            k[0] = ["n12", "n12"]
    n = len(case["trans"])
    case["trans"] = [draw(TRANS) for _ in range(n + 1)]
    case["body"] = draw(pick("text w\n", "\n# Title\n\nmore x\n", "12\n"))
    case["space"] = draw(pick("\n", "\n", " \n", "\n\n",
                              "\n# one\n", "\n# a: b\n\n# c\n"))
    case["nl"] = draw(pick("\n", "\n", "\n", "\r\n"))
    case["kind"] = draw(pick("v2", "v2", "jsx"))
    return case
