from openformats.formats.vtt import VttHandler
from .common_chk import clone, uniform


def clock(t):
    h, m, s, ms = t
    base = "" if h is None else "%02d:" % h
    base += "%02d:%02d" % (m, s)
    return base + ("" if ms is None else "." + ms)


def canonical(t):
    h, m, s, ms = t
    return clock([h, m, s, None]) + "." + (ms or "").ljust(3, "0")


def timing(b):
    return "%s%s%s%s" % (clock(b["start"]), b["arrow"], clock(b["end"]), b["pos"])


def head(b):
    ident = "" if b["id"] is None else b["id"] + b["iws"] + "\n"
    return ident + timing(b)


def body(b):
    return "\n".join(b["lines"])


def render(case, texts):
    it = iter(texts)
    out = ["WEBVTT" + case["head"], "\n\n" + case["gap"]]
    for i, b in enumerate(case["blocks"]):
        if b["k"] == "raw":
            out.append(b["text"])
        elif b["k"] == "empty":
            out.append(head(b) + b["tail"])
        else:
            raw = body(b)
            t = next(it)
            out.append(("" if t is None else head(b) + "\n" + t) + raw[len(raw.rstrip()):]
                       + b["tail"])
        if i < len(case["blocks"]) - 1:
            out.append("\n\n" + b["gap"])
    out.append(case["end"])
    return "".join(out)


def check(case, rec):
    nl = case["nl"]
    cues = [b for b in case["blocks"] if b["k"] == "cue"]
    texts = [body(b).rstrip() for b in cues]
    doc = uniform(render(case, texts), nl)
    rec.show(doc)
    h = VttHandler()
    template, strings = h.parse(doc)
    strings = list(strings)
    rec.label("newline:" + repr(nl), "cues:%d" % min(3, len(cues)),
              *["block:" + b["k"] for b in case["blocks"]])
    rec.eq([s.string for s in strings], texts, "one string per cue, in order")
    rec.eq([s.order for s in strings], list(range(len(cues))),
           "order follows the document")
    rec.eq([s.key for s in strings], [timing(b) for b in cues],
           "key is the timing line")
    rec.eq([s.occurrences for s in strings],
           ["%s,%s" % (canonical(b["start"]), canonical(b["end"]))
            for b in cues], "timings are recorded")
    rec.eq(template, uniform(render(case, [s.template_replacement
                                           for s in strings]), nl),
           "the template is the document with each text replaced")
    rec.eq(h.compile(template, [clone(s) for s in strings]), doc,
           "compiling with the extracted strings restores the document")
    trans = case["trans"][:len(cues)]
    full = [t if t is not None else b for t, b in zip(trans, texts)]
    rec.eq(VttHandler().compile(
        template, [clone(s, t) for s, t in zip(strings, full)]),
        uniform(render(case, full), nl), "only the cue texts change")
    if len(set(s.key for s in strings)) < len(strings):
        rec.label("duplicate timings")
        return
    have = [(s, t) for s, t in zip(strings, trans) if t is not None]
    rec.label("missing:%s" % ("none" if len(have) == len(cues) else
                              "all" if not have else "some"))
    rec.nt(len(cues) >= 2 and 0 < len(have) < len(cues))
    out = VttHandler().compile(template, [clone(s, t) for s, t in have])
    rec.eq(out, uniform(render(case, trans), nl), "exactly the cues with a "
           "translation, all other blocks and the blank lines remain")
    if nl == "\r\n":
        rec.eq(out.replace("\r\n", "").count("\n"), 0, "newlines stay CRLF")
    else:
        rec.eq(out.count("\r"), 0, "newlines stay LF")
