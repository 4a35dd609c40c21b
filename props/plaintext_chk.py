from openformats.formats.plaintext import PlaintextHandler
from .common_chk import placeholder, clone, describe, crlf, uniform


def render(lines, nl, texts):
    it = iter(texts)
    return nl.join(a + (next(it) if t else "") + b for a, t, b in lines)


def check(case, rec):
    lines, nl = case["lines"], case["nl"]
    texts = [t for _, t, _ in lines if t]
    doc = render(lines, nl, texts)
    rec.show(doc)
    rec.label("newline:" + repr(nl), "strings:%d" % min(len(texts), 3))
    rec.nt(len(texts) >= 2 and len(lines) > len(texts))
    h = PlaintextHandler()
    template, strings = h.parse(doc)
    strings = list(strings)
    rec.eq([s.string for s in strings], texts,
           "one string per non-blank line, in order, without surrounding blanks")
    rec.eq([s.order for s in strings], list(range(len(texts))),
           "order follows the document")
    rec.eq(len(set(s.template_replacement for s in strings)), len(strings),
           "every line has its own placeholder")
    rec.eq(template, render(lines, nl, [s.template_replacement
                                        for s in strings]),
           "the template is the document with each text replaced")
    rec.eq(h.compile(template, [clone(s) for s in strings]), doc,
           "compiling with the extracted strings restores the document")
    trans = case["trans"]
    want = render(lines, "\n", trans)
    if len(lines) > 1:
        want = uniform(want, nl)
    else:
        rec.true(True, "")
    rec.eq(PlaintextHandler().compile(
        template, [clone(s, t) for s, t in zip(strings, trans)]), want,
        "compiling replaces exactly the texts")
