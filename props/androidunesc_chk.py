"""ANDROID_UNESCAPED reads what ANDROID reads, unless a quote is not escaped."""
from openformats.exceptions import ParseError
from openformats.formats.android import AndroidHandler
from openformats.formats.android_unescaped import AndroidUnescapedHandler
from .android_model import Model, blank
from .common_chk import clone, describe

# the inline elements the generator uses
INLINE = ("<b>x</b>", "<br/>", "<br />", "<i>a <u>b</u></i>", "<u></u>",
          "<a href=\"x?y&amp;z\">l</a>", "<font color='#f00'>f</font >",
          "<xliff:g id=\"n\" example='a>b'>%1$s</xliff:g>", "<b\n>y</b>")


def bare(text):
    for p in INLINE:
        text = text.replace(p, "H")
    return any(c in "'\"" and (i == 0 or text[i - 1] != "\\")
               for i, c in enumerate(text))


def check(case, rec):
    model = Model(case)
    text = model.text()
    rec.show(text)
    texts = []
    for e in case["items"]:
        if e["k"] == "string" and not model.ignored(e):
            texts.append(e["text"])
        elif e["k"] in ("plurals", "string-array") and not model.ignored(e):
            texts += [it["text"] for it in e["items"]]
    if any(bare(t) for t in texts if t):
        rec.label("unescaped quote")
        rec.nt(len(texts) > 1)
        rec.raises(ParseError, lambda: AndroidUnescapedHandler().parse(text),
                   "an unescaped quote outside inline tags is refused")
        return
    rec.label("escaped quotes only")
    rec.nt(len(texts) > 1 and any("'" in t or '"' in t for t in texts if t))
    template, strings = AndroidUnescapedHandler().parse(text)
    want_template, want = AndroidHandler().parse(text)
    rec.eq([describe(s) for s in strings], [describe(s) for s in want],
           "the strings ANDROID extracts")
    rec.eq(template, want_template, "the template ANDROID makes")
    rec.eq(AndroidUnescapedHandler().compile(template, strings),
           AndroidHandler().compile(template, want), "compiled file")
