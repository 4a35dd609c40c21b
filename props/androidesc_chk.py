"""Escaping a text for Android files and unescaping it again."""
import xml.etree.ElementTree as ET
from openformats.formats.android import AndroidHandler
from openformats.formats.android_unescaped import AndroidUnescapedHandler
from .common_chk import uniform


def raw(segs):
    out = ""
    for s in segs:
        if s[0] in ("t", "lt"):
            out += s[1]
        elif s[0] == "c":
            out += "<![CDATA[" + s[1] + "]]>"
        else:
            out += s[1] + raw(s[2]) + s[3]
    return out


def quotes(t):
    return t.replace('"', '\\"').replace("'", "\\'")


def escaped(segs):
    """Quotes everywhere except in the tags of inline markup."""
    out = ""
    for s in segs:
        if s[0] in ("t", "lt"):
            out += quotes(s[1])
        elif s[0] == "c":
            out += quotes("<![CDATA[" + s[1] + "]]>")
        elif s[0] == "i":
            out += s[1] + escaped(s[2]) + s[3]
        else:
            out += quotes(s[1]) + escaped(s[2]) + quotes(s[3])
    return out


def special(t):
    return (quotes(t).replace("&", "&amp;").replace(">", "&gt;")
            .replace("<", "&lt;").replace("\n", "\\n").replace("\t", "\\t")
            .replace("@", "\\@").replace("?", "\\?"))


def special_segs(segs):
    out = ""
    for s in segs:
        if s[0] in ("t", "lt"):
            out += special(s[1])
        elif s[0] == "c":
            out += quotes("<![CDATA[" + s[1] + "]]>")
        elif s[0] == "i":  # kept whole
            out += raw([s])
        else:
            out += special(s[1]) + special_segs(s[2]) + special(s[3])
    return out


def kinds(segs):
    for s in segs:
        yield s[0]
        if len(s) > 2:
            for k in kinds(s[2]):
                yield k


def check(case, rec):
    segs = ([["t", case["lead"]]] if case["lead"] else []) + case["segs"]
    ks = set(kinds(segs))
    rec.label(*["has:" + k for k in ks])
    if not case["safe"]:
        text = uniform(raw(segs), case["nl"])
        rec.show(text)
        rec.nt(("i" in ks or "o" in ks) and ('"' in text or "'" in text))
        got = AndroidHandler.escape(text)
        if "lt" not in ks:
            goal = escaped(segs)
            if text.startswith("@") and not text.startswith("@string/"):
                goal = "\\" + goal
                rec.label("leading @")
            rec.eq(got, uniform(goal, case["nl"]), "quotes outside inline tags "
                   "and a leading @ are escaped, and nothing else")
        else:
            rec.label("malformed")
        if not text.startswith("\\@"):
            rec.eq(AndroidHandler.unescape(got), text,
                   "unescaping restores the text", escaped=got)
        return
    # the unescaped variant; a text on its own lines uses \n
    text = raw(segs)
    rec.show(text)
    rec.eq(AndroidHandler.unescape('"%s"' % text.replace('"', '\\"')), text,
           "a text in quotes, where only quotes are escaped")
    rec.label("unescaped variant")
    rec.nt(len(ks) > 1)
    got = AndroidUnescapedHandler.escape(text)
    if "lt" not in ks and not ("c" in ks and "o" in ks):
        rec.eq(got, special_segs(segs), "special characters outside inline "
               "elements and CDATA are escaped")
    if "lt" not in ks or "c" not in ks:
        rec.eq(AndroidUnescapedHandler.unescape(got), text,
               "unescaping restores the text", escaped=got)
    try:
        ET.fromstring('<r xmlns:xliff="x">%s</r>' % got)
    except ET.ParseError as e:
        rec.fail("the escaped text is not well-formed markup: %s" % e, got=got)
