"""Raw XML pieces shared by the XML formats' generators."""
from hypothesis import strategies as st
from .common_gen import text, coded, pick, prob, frag, UNI, WIDE, memo, nonblank

ENT = ("&amp;", "&lt;", "&gt;", "&quot;", "&#160;", "&#x2019;", "&amp;amp;")
TAGS = ("<b>x</b>", "<br/>", "<br />", "<i>a <u>b</u></i>", "<u></u>",
        "<a href=\"x?y&amp;z\">l</a>", "<font color='#f00'>f</font >",
        "<xliff:g id=\"n\" example='a>b'>%1$s</xliff:g>", "<b\n>y</b>")
ODD = ("<!-- c -->", "<![CDATA[<p>&</p>]]>", "<![CDATA[ x ]]>", "<![CDATA[a[<b]]]>", "<!--<b>-->",
       "<q a = \"1\">z</q>", "<![CDATA[</string>]]>", "<!---->")
SPACE = ("\n", "\n    ", "\t", "  ")
PLAIN = tuple(p for p in frag("<&>") if "]]" not in p)
CONTENT = coded(PLAIN * 2 + ENT + ENT + TAGS + SPACE + tuple(WIDE), 1, 7)
MIXED = coded(PLAIN + ENT + TAGS + ODD + SPACE + tuple(WIDE), 1, 7)
RAW = st.one_of(CONTENT, CONTENT, MIXED).map(
    lambda s: s if s.strip() else s + "w")
ATTR = coded(tuple(p for p in frag("<&>\"'") if p != "]]") + (
    "&amp;", "&lt;", ">", "/", "=", "\\", "[", "]", ".", "_"), 1, 4)
NAME = st.one_of(coded(tuple("abcdef") + ("name", "app_", ".", "-"), 1, 2),
                 ATTR)
WS = pick("\n    ", "\n  ", "\n\n\t", "", " ", "\n", "\n    \n    ")
COMMENT = coded(("word", " ", "\n", "<b>", "&", "é", "- ", "<string>", "]]>",
                 "'", "\"", "</resources>", ">", "中"), 0, 5).map(
                     lambda s: s + " " if s.endswith("-") else s)
EQ = pick("=", "=", "=", "=", "=", " = ", "= ", " =")
SEP = pick(" ", " ", " ", "  ", "\n      ")
QUOTE = pick('"', '"', '"', "'")


def attr(draw, key, value):
    return [draw(SEP), key, draw(EQ), draw(QUOTE), value]
