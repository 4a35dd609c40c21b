from hypothesis import strategies as st
from .common_gen import pick
from .stringsdict_gen import entry, HEAD, WS, KEY

S = ("<key>NSStringFormatSpecTypeKey</key>\n<string>NSStringPluralRuleType"
     "</string>\n<key>NSStringFormatValueTypeKey</key><string>d</string>\n")
F = "<key>NSStringLocalizedFormatKey</key><string>%s</string>\n"
OK = "<key>one</key><string>1</string><key>other</key>\n<string>x</string>"


def var(body, name="v", mark=""):
    return "<key>%s</key>\n%s<dict>\n%s</dict>\n" % (name, mark, body)


def main(body, name="zz"):
    return "<key>%s</key>\n<dict>\n%s</dict>\n" % (name, body)


# \1 marks the line reported
BAD = [
    ["bad rule", main(var(S + "\1<key>others</key><string>x</string>" + OK))],
    ["bad rule", main(F % "%#@v@" + var(S + OK + "\n\1<key>Other</key><string>x</string>"))],
    ["bad rule", main(F % "a %#@v@ b" + var(S + OK + "\n\1<key>5</key><string>x</string>"))],
    ["bad rule", main(var(OK + "\n\1<key></key><string>x</string>"))],
    ["bad rule", main(var(OK + "\n\1<key/><string>x</string>"))],
    ["bad rule", main(F % "\n%#@w@" + var(OK) + var("\1<key>ones</key><string>x</string>" + OK, "w"))],
    ["no other", main(F % "%#@v@" + var(S + "<key>one</key><string>x</string>", mark="\1"))],
    ["no other", main(F % "a\n%#@v@\n" + var(S + "<key>one</key><string></string>"
                      "<key>many</key><string>y</string>", mark="\1"))],
    ["no other", main(var(OK) + var("<key>one</key><string>x</string>", "w", "\1"))],
    ["missing form", main(F % "%#@v@" + var(S + "<key>one</key>\n<string> </string>"
                          "<key>other</key><string>x</string>", mark="\1"))],
    ["missing form", main(F % "a %#@v@" + var(OK) + var(
        S + "<key>one</key><string>y</string><key>other</key><string></string>", "w", "\1"))],
    ["missing form", main(var("<key>one</key><string>x</string><key>other</key><string/>", mark="\1"))],
    ["no forms", main(F % "%#@v@" + var(S, mark="\1"))],
    ["no forms", main(F % "x %#@v@ y" + var("", mark="\1"))],
    ["no forms", main("<key>v</key>\n\1<dict/>")],
    ["no value", "\1<key>zz</key>", "end"],
    ["no value", main("\1<key>v</key>\n")],
    ["no value", main(F % "%#@v@" + "\1<key>v</key>\n")],
    ["no value", main(var(OK + "\n\1<key>many</key>\n"))],
    ["no value", main(var("\n\1<key>many</key>\n"))],
    ["no key", "\1<string>zz</string>\n<dict></dict>"],
    ["no key", "\1<dict>zz</dict><key>a</key>"],
    ["no key", "\1<!-- c -->"],
    ["no key", main("\1<string>v</string><dict>" + OK + "</dict>")],
    ["no key", main(F % "a %#@v@" + "\1<ke>v</ke><dict>" + OK + "</dict>")],
    ["no key", main(var(S + "\1<string>one</string><key>x</key>" + OK))],
    ["no key", main(var(OK + "\n\1<string>one</string><key>x</key>"))],
    ["no dict", "<key>zz</key>\n\1<string>a</string>"],
    ["no dict", "<key>zz</key>\n\1<key>a</key>"],
    ["no dict", "<key>zz</key>\n\1<array><dict>x</dict></array>"],
    ["no dict", main("<key>v</key>\n\1<string>x</string>")],
    ["no dict", main(F % "%#@v@" + "<key>v</key>\n\1<key>x</key>")],
    ["stray text", "\1\nx<key>zz</key><dict></dict>", "start"],
    ["stray text", "\1x\n", "after"],
    ["not closed", "<key>zz"],
    ["not closed", "<key>zz</kez><dict></dict>"],
    ["not closed", "<key>zz</key><dict>"],
    ["not closed", "<key>zz</key><dict>" + var(OK) + "</dic>"],
    ["not closed", main(var(S + "<key>other</key><string>x<b></string>"))],
    ["not closed", main(var(S + "<key>other</key><string>x</string"))],
    ["not closed", main(var(S + "<key>other</key><string>x<!-- </string>")), "end"],
    ["duplicate", ""], ["duplicate", ""], ["duplicate", ""], ["cut", ""],
    ["cut", ""], ["no root", ""]]
BAD = [b + ["mid"] if len(b) == 2 else b for b in BAD]


@st.composite
def strategy(draw):
    keys = draw(st.lists(KEY, max_size=3, unique=True))
    entries = [entry(draw, k) for k in keys]
    return {"head": draw(HEAD), "nl": draw(pick("\n", "\n", "\r\n")),
            "ws": [draw(WS) for _ in range(3)], "entries": entries,
            "bad": draw(pick(*BAD)), "at": draw(st.integers(0, 3)),
            "cut": draw(st.integers(0, 500))}
