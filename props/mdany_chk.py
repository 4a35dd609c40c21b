import re
import unicodedata
import yaml
from openformats.exceptions import ParseError
from openformats.formats.github_markdown import GithubMarkdownHandler
from openformats.formats.github_markdown_v2 import GithubMarkdownHandlerV2
from openformats.formats.markdown_jsx import MarkdownJsxHandler
from .common_chk import clone, placeholder, uniform

KINDS = {"v1": GithubMarkdownHandler, "v2": GithubMarkdownHandlerV2,
         "jsx": MarkdownJsxHandler}


def normal(text, kind):
    """What the handlers document: tabs become spaces, lines of spaces are
    emptied, and the second version takes compatibility forms."""
    text = re.sub("(?m)^ +$", "", text.expandtabs(4))
    if kind != "v1":
        text = unicodedata.normalize("NFKC", text)
    return text


def split(text):
    m = re.match(r"^---\s+[\s\S]*?[^`]\s*\n---\s+(?!-)", text)
    return (text[:m.end()], text[m.end():]) if m else ("", text)


def check(case, rec):
    kind, text = case["kind"], case["text"]
    doc = uniform(text, case["nl"])
    rec.show(doc)
    rec.label(kind, "nl:%r" % case["nl"])
    h = KINDS[kind]()
    head, body = split(normal(text, kind))
    try:
        template, strings = h.parse(doc)
    except ParseError:
        # only the header is of a format with errors
        if kind != "v1" and head:
            rec.label("header refused")
            return
        raise
    strings = list(strings)
    rec.label("strings:%d" % min(5, len(strings)))
    rec.nt(len(strings) > 1)
    rec.eq([s.order for s in strings], list(range(len(strings))), "order")
    rec.eq([template.count(s.template_replacement) for s in strings],
           [1] * len(strings), "one place per string in the template")
    at = [template.index(s.template_replacement) for s in strings]
    rec.eq(at, sorted(at), "the strings are in document order")
    if kind != "v1" and not case.get("strict") and any(
            s.string not in normal(text, kind) and re.match(
                r"\s*> *\[!", s.string) for s in strings):
        # alerts inside of lists: see the known finding
        rec.label("alert in another indentation")
        return
    out = KINDS[kind]().compile(template, [clone(s) for s in strings])
    nl = case["nl"]
    if "\n" not in template and not case.get("strict"):
        # the template does not tell the newlines: see the known finding
        nl = "\n"
    if kind == "v1" or not head:
        rec.eq(out, uniform(normal(text, kind), nl),
               "compiling with the extracted strings restores the document")
    else:
        rec.label("header")
        rec.true(out.endswith(uniform(body, case["nl"])), "the body is restored",
                 out=out, body=body)
    # a translation goes where its string was, and nothing else changes
    new = [clone(s, "\u300c%s\u300d" % s.key) for s in strings]
    if not head:
        done = template
        for s, t in zip(strings, new):
            done = done.replace(s.template_replacement, t.string)
        rec.eq(KINDS[kind]().compile(template, new), done,
               "compiling puts each translation in place of its placeholder")
