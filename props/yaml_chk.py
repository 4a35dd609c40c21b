from openformats.formats.yaml import YamlHandler
from .yaml_model import Writer, paths, comment_above, events, expected
from .common_chk import placeholder, clone


def source_of(case, rec):
    w = Writer(case)
    text = w.text()
    if not case["final"]:
        # the last line end is left out, with all blank lines before it
        last = w.parts[-1]
        if not isinstance(last, int) and len(last) > 1:
            w.parts[-1] = last.rstrip("\n")
        text = w.text()
    rec.show(text)
    return w, text


def rows_of(w, text):
    names = dict(paths(w.tree, []))
    rows, before, template, beside = [], "", "", False
    for p in w.parts:
        if isinstance(p, str):
            before += p
            template += p
            continue
        path, styles, n, tok = w.strings[p]
        key = names[p]
        rows.append((key, n["tag"] or "", w.fixed(n), ":".join(styles),
                     len(rows), comment_above(before, beside)))
        template += placeholder(key, n["tag"] or "")
        before, beside = "", not tok.endswith("\n")
    return rows, template


def check(case, rec):
    w, text = source_of(case, rec)
    rows, template = rows_of(w, text)
    rec.nt(len(rows) > 1)
    for s in w.strings:
        rec.label("style " + (s[2]["style"] or "plain"))
        if s[2]["tag"]:
            rec.label("tag")
        if s[2]["anchor"]:
            rec.label("anchor")
    h = YamlHandler()
    got, strings = h.parse(text)
    ev = events(text)
    expected(w, ev, [r[2] for r in rows])
    rec.eq([(s.key, s.context, s.string, s.flags, s.order,
             s.developer_comment) for s in strings], rows,
           "the strings and their attributes, in order")
    rec.eq(got, template, "the template")
    out = YamlHandler().compile(got, [clone(s) for s in strings])
    rec.eq(events(out), ev, "the content of what compiles back", out=out)
