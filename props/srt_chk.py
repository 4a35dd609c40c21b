from openformats.formats.srt import SrtHandler
from .common_chk import clone, uniform, placeholder
import re


def clock(t):
    (h, m, s), ms, short = t
    if short and ms is not None:
        base = "%d:%d:%d" % (h, m, s)
    else:
        base = "%02d:%02d:%02d" % (h, m, s)
    return base + ("," + ms if ms is not None else "")


def canonical(t):
    (h, m, s), ms, _ = t
    return "%02d:%02d:%02d.%s" % (h, m, s, (ms or "").ljust(3, "0"))


def head(c):
    num = ("0%d" if c["zero"] else "%d") % c["order"]
    return "%s%s\n%s%s%s%s\n" % (
        num, c["ows"], clock(c["start"]), c["arrow"], clock(c["end"]), c["pos"])


def body(c):
    return "\n".join(c["lines"])


def render(case, texts):
    out = [case["lead"]]
    cues = case["cues"]
    for i, (c, t) in enumerate(zip(cues, texts)):
        if t is not None:
            out.append(head(c) + t)
        # blanks after the last visible character are not part of the text
        b = body(c)
        out.append(b[len(b.rstrip()):] + c["tail"])
        if i < len(cues) - 1:
            out.append("\n\n" + c["gap"])
    out.append(case["end"])
    return "".join(out)


def sections(text):
    """Visible sections of a subtitle file, blank lines dropped."""
    return [s.strip() for s in text.replace("\r\n", "\n").split("\n\n")
            if s.strip()]


def check(case, rec):
    cues, nl = case["cues"], case["nl"]
    texts = [body(c).rstrip() for c in cues]
    doc = uniform(render(case, texts), nl)
    rec.show(doc)
    h = SrtHandler()
    template, strings = h.parse(doc)
    strings = list(strings)
    rec.label("newline:" + repr(nl), "cues:%d" % min(3, len(cues)))
    rec.eq([s.string for s in strings], texts, "one string per cue, in order")
    rec.eq([s.order for s in strings], [c["order"] for c in cues],
           "order is the cue number")
    rec.eq([s.key for s in strings],
           [head(c).split("\n")[0].strip() for c in cues],
           "key is the cue number as written")
    rec.eq([s.occurrences for s in strings],
           ["%s,%s" % (canonical(c["start"]), canonical(c["end"]))
            for c in cues], "timings are recorded")
    rec.eq(template, uniform(render(case, [s.template_replacement
                                           for s in strings]), nl),
           "the template is the document with each text replaced")
    rec.eq(h.compile(template, [clone(s) for s in strings]), doc,
           "compiling with the extracted strings restores the document")
    full = [t if t is not None else b for t, b in zip(case["trans"], texts)]
    out = SrtHandler().compile(
        template, [clone(s, t) for s, t in zip(strings, full)])
    rec.eq(out, uniform(render(case, full), nl),
           "only the cue texts change when translated")
    # untranslated cues are dropped, the others stay as they are
    have = [(s, c, t) for s, c, t in zip(strings, cues, case["trans"])
            if t is not None]
    rec.label("missing:%s" % ("none" if len(have) == len(cues) else
                              "all" if not have else "some"))
    rec.nt(len(cues) >= 2 and 0 < len(have) < len(cues))
    out = SrtHandler().compile(template, [clone(s, t) for s, _, t in have])
    rec.eq(out, uniform(render(case, case["trans"]), nl),
           "exactly the cues with a translation and the blank lines remain")
    if nl == "\r\n":
        rec.eq(out.replace("\r\n", "").count("\n"), 0, "newlines stay CRLF")
    else:
        rec.eq(out.count("\r"), 0, "newlines stay LF")
