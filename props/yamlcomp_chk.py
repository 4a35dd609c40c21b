from openformats.formats.yaml import YamlHandler
from .yaml_model import events, expected
from .yaml_chk import source_of
from .common_chk import clone


def kind(t):
    for name, cond in (("line break", "\n" in t), ("edge blank", t != t.strip()),
                       ("looks like another type", t in (
                           "true", "12", "null", "~", "1.5", "no", "0x1F",
                           "2001-01-01"))):
        if cond:
            yield name


def check(case, rec):
    w, text = source_of(case, rec)
    n = len(w.strings)
    tr = case["trans"]
    texts = [tr[i % len(tr)] for i in range(n)]
    got, strings = YamlHandler().parse(text)
    rec.eq(len(strings), n, "number of strings")
    rec.nt(n > 0)
    for (_, _, node, _), t in zip(w.strings, texts):
        for k in kind(t):
            rec.label("%s in %s" % (k, node["style"] or "plain"))
    want = expected(w, events(text), texts)
    out = YamlHandler().compile(got, iter([clone(s, t) for s, t in zip(
        strings, texts)]))
    try:
        ev = events(out)
    except Exception as e:
        rec.fail("the compiled file is not YAML", out=out, error=e)
    rec.eq(ev, want, "the content of the compiled file", out=out)
    # what stands between the strings is left as it was
    rest = out
    for p in w.parts:
        if isinstance(p, str) and p.strip():
            i = rest.find(p.strip())
            rec.true(i >= 0, "text between strings is missing", part=p, out=out)
            rest = rest[i + len(p.strip()):]
