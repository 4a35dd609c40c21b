from hypothesis import strategies as st
from .common_gen import pick, prob
from . import xml_gen as X
from .android_gen import document, distinct

# each is a resource that has to be refused; \1 marks the line reported
BAD = pick(
    ["no name", "\1<string>x</string>"],
    ["no name", "\1<string nam=\"x\">x</string>"],
    ["no name", "\1<string-array><item>x</item></string-array>"],
    ["no name", "\1<plurals>\n<item quantity=\"other\">x</item></plurals>"],
    ["stray text", "<string name=\"zz\">x\n</string>\1\n stray"],
    ["stray text", "<!-- c\n -->\1 stray "],
    ["stray text", "<plurals name=\"zz\">\1\n y<item quantity=\"other\">x</item></plurals>"],
    ["stray text", "<plurals name=\"zz\"><item quantity=\"other\">x\n</item>\1 y\n</plurals>"],
    ["stray text", "<string-array name=\"zz\">\1y<item>x</item></string-array>"],
    ["stray text", "<string-array name=\"zz\"><item>x</item>\1y\n<item>z</item></string-array>"],
    ["stray text", "<string name=\"zz\" translatable=\"false\">x</string>\1y"],
    ["no quantity", "<plurals name=\"zz\">\n\1<item>x</item></plurals>"],
    ["no quantity", "<plurals name=\"zz\"><item quantity=\"other\">x</item>\n\n"
     "\1<item quantit=\"one\">x</item></plurals>"],
    ["bad quantity", "<plurals name=\"zz\">\n<!-- c\n -->\1<item quantity=\"others\">x</item></plurals>"],
    ["bad quantity", "<plurals name=\"zz\">\1<item quantity=\"\">x</item></plurals>"],
    ["bad quantity", "<plurals name=\"zz\">\1<item quantity=\"Other\">x</item></plurals>"],
    ["bad quantity", "<plurals name=\"zz\">\1<item quantity=\"5\">x</item></plurals>"],
    ["wrong tag", "<plurals name=\"zz\"><item quantity=\"other\">x</item>\n"
     "\1<string quantity=\"one\">x</string></plurals>"],
    ["no other", "\1<plurals name=\"zz\">\n<item quantity=\"one\">x</item></plurals>"],
    ["no other", "\1<plurals name=\"zz\"><item quantity=\"one\">x</item>"
     "<item quantity=\"many\">y</item></plurals>"],
    ["missing form", "\1<plurals name=\"zz\">\n<item quantity=\"one\"> </item>"
     "<item quantity=\"other\">y</item></plurals>"],
    ["missing form", "\1<plurals name=\"zz\"><item quantity=\"one\">y</item>"
     "<item quantity=\"other\"/></plurals>"],
    ["missing form", "\1<plurals name=\"zz\"><item quantity=\"one\">\u00a0</item>"
     "<item quantity=\"other\">y</item></plurals>"],
    ["missing form", "\1<plurals name=\"zz\"><item quantity=\"few\">y</item>"
     "<item quantity=\"other\">\n\u3000\u2003</item></plurals>"],
    ["no forms", "\1<plurals name=\"zz\">\n</plurals>"],
    ["no forms", "\1<plurals name=\"zz\">\n<!-- c --></plurals>"],
    ["not closed", "<string name=\"zz\">x"],
    ["not closed", "<string name=\"zz\">x</strin>"],
    ["not closed", "<string name=\"zz\">x</string"],
    ["not closed", "<string name=\"zz\">x<b></string>"],
    ["not closed", "<string name=\"zz\">x</b></string>"],
    ["not closed", "<string name=\"zz\"><!-- </string>"],
    ["duplicate", ""], ["duplicate", ""], ["duplicate", ""], ["cut", ""],
    ["no root", ""])


@st.composite
def strategy(draw):
    case = document(draw, 4)
    case["items"] = distinct(case["items"])
    case["lastnote"] = None
    case["bad"] = draw(BAD)
    case["at"] = draw(st.integers(0, len(case["items"])))
    case["cut"] = draw(st.integers(0, 300))
    return case
