from openformats.formats.github_markdown import GithubMarkdownHandler
from .common_chk import clone, placeholder, uniform

BODY = {"text w\n": [["v", "text w"], ["t", "\n"]], "title\n": [
    ["v", "title"], ["t", "\n"]], "\n# title\n\nmore a\n": [
        ["t", "\n# "], ["v", "title"], ["t", "\n\n"], ["v", "more a"],
        ["t", "\n"]]}


def check(case, rec):
    rows = [["t", case["open"]]] + case["rows"] + [["t", "---\n"]] \
        + BODY[case["body"]]

    def render(texts):
        it = iter(texts)
        return "".join(v if k == "t" else next(it) for k, v in rows)
    texts = [v for k, v in rows if k == "v"]
    doc = uniform(render(texts), case["nl"])
    rec.show(doc)
    rec.nt(len(texts) > 2)
    rec.label("nl:%r" % case["nl"], "strings:%d" % min(5, len(texts)))
    template, strings = GithubMarkdownHandler().parse(doc)
    rec.eq([(s.key, s.string, s.order) for s in strings],
           [(str(i), t, i) for i, t in enumerate(texts)],
           "the texts of the header and the body")
    marks = [placeholder(str(i)) for i in range(len(texts))]
    rec.eq(template, uniform(render(marks), case["nl"]),
           "the template is the document with each text replaced")
    out = GithubMarkdownHandler().compile(
        template, [clone(s) for s in strings])
    rec.eq(out, doc, "compiling with the extracted strings restores it")
    trans = case["trans"]
    out = GithubMarkdownHandler().compile(
        template, [clone(s, t) for s, t in zip(strings, trans)])
    rec.eq(out, uniform(render(trans), case["nl"]),
           "compiling replaces exactly the texts")
