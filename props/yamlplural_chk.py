from openformats.formats.yaml import I18nYamlHandler
from .yaml_model import paths, comment_above, events, expected, RULE, Loose
from .yaml_chk import source_of
from .common_chk import placeholder, clone, value


def handler(case):
    h = I18nYamlHandler()
    h.set_lang_code("en")
    h.set_plural_rules(case["rules"])
    return h


def check(case, rec):
    w, text = source_of(case, rec)
    names = {i: p.split(".", 1)[1] for i, p in paths(w.tree, [])}
    rows, template, before, beside = [], "", "", False
    for p in w.parts:
        if isinstance(p, str):
            before += p
            template += p
            continue
        path, styles, n, tok = w.strings[p]
        plural = n["style"] == "p"
        rows.append((names[p], n["tag"] or "", plural,
                     n["texts"] if plural else w.fixed(n),
                     ":".join(styles[1:]), len(rows),
                     # what precedes plurals is not their own line
                     None if plural else comment_above(before, beside)))
        template += placeholder(names[p], n["tag"] or "", plural)
        before, beside = "", not tok.endswith("\n")
    ev = events(text)
    expected(w, ev, [[]] * len(rows))
    got, strings = handler(case).parse(text)
    rec.eq([(s.key, s.context, bool(s.pluralized), value(s), s.flags, s.order,
             None if s.pluralized else s.developer_comment) for s in strings],
           rows, "the strings and their attributes, in order")
    rec.eq(got, template, "the template")
    plurals = [s for s in strings if s.pluralized]
    rec.nt(bool(plurals))
    rec.label("plurals:%d" % min(3, len(plurals)))
    tr = case["trans"]
    new, texts = [], []
    for i, s in enumerate(strings):
        if not s.pluralized:
            texts.append(tr[i % len(tr)])
            new.append(clone(s, texts[-1]))
            continue
        n = w.strings[i][2]
        forms = {r: tr[(i + r) % len(tr)] for r in case["into"]}
        new.append(clone(s, forms))
        goal = []
        for r, t in s_items(new[-1]):
            style = n["styles"].get(r, n["styles"].get(5, ""))
            rec.label("form in %s, %s" % (style or "plain", "flow" if n["flow"]
                                          else "block"))
            goal.append([RULE[r], Loose(t) if style and style in "|>" else t])
        texts.append(goal)
    want = expected(w, ev, texts)
    out = handler(case).compile(got, iter(new))
    try:
        ev = events(out)
    except Exception as e:
        rec.fail("the compiled file is not YAML", out=out, error=e)
    rec.true(want == ev, "the content of the compiled file", out=out, got=ev,
             want=want)
    out = handler(case).compile(got, [clone(s) for s in strings])
    try:
        ev2 = events(out)
    except Exception as e:
        rec.fail("the file compiled back is not YAML", out=out, error=e)
    want = expected(w, events(text), [
        [[RULE[r], Loose(t) if w.strings[i][2]["styles"][r] in list("|>")
          else t] for r, t in s_items(s)] if s.pluralized else s.string
        for i, s in enumerate(strings)])
    rec.true(want == ev2, "the content of the file compiled back", out=out,
             got=ev2, want=want)


def s_items(s):
    return list(s.string.items())
