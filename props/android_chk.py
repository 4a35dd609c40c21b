from openformats.formats.android import AndroidHandler
from .android_model import Model, RULES, NAMES, shape
from .common_chk import clone, placeholder, value, uniform


def extract(case, rec, handler, model, text):
    template, strings = handler.parse(text)
    strings = list(strings)
    want = model.strings()
    rec.eq([(s.key, s.context, s.developer_comment, bool(s.pluralized),
             value(s), s.order) for s in strings],
           [w[1:] + (i,) for i, w in enumerate(want)],
           "the strings, in document order")
    rec.eq([s.template_replacement for s in strings],
           [placeholder(w[1], w[2], w[4]) for w in want], "placeholders")
    return template, strings, want


def labels(case, rec, want):
    rec.label("strings:%d" % min(4, len(want)),
              "nl:%r" % case["nl"],
              *["kind:" + e["k"] for e in case["items"]])
    if any(w[4] for w in want):
        rec.label("plural extracted")
    if any("<" in str(w[5]) for w in want):
        rec.label("markup inside a text")


def check(case, rec):
    model, h = Model(case), AndroidHandler()
    text = model.text()
    rec.show(text)
    # newlines are handled as \n inside
    template, strings, want = extract(case, rec, h, model, text)
    labels(case, rec, want)
    rec.nt(len(want) > 1)
    by = {w[0]: s for w, s in zip(want, strings)}
    plain = all(e.get("plain", True) or not any(w[0] == (i,) for w in want)
                for i, e in enumerate(case["items"]))
    if plain:
        rec.eq(template, model.text(
            lambda slot, t: by[slot].template_replacement),
            "the template is the document with each text replaced")
        rec.eq(h.compile(template, [clone(s) for s in strings]), text,
               "compiling with the extracted strings restores the document")
    else:
        rec.label("plurals in another layout")
        rec.eq(shape(h.compile(template, [clone(s) for s in strings])),
               shape(text), "compiling with the extracted strings keeps the "
               "content")
    # translations
    new, goal = [], {}
    for n, (w, s) in enumerate(zip(want, strings)):
        t = case["trans"][n % 5]
        if w[4]:
            rules = case["rules"][n % 2]
            forms = {r: case["trans"][(n + m) % 5] for m, r in enumerate(rules)}
            new.append(clone(s, {RULES[r]: f for r, f in forms.items()}))
            goal[w[0]] = forms
        else:
            new.append(clone(s, t))
            goal[w[0]] = t
    lang = {"code": case["code"]} if case["code"] else None
    out = AndroidHandler().compile(template, iter(new), language_info=lang)
    done = model.text(lambda slot, t: goal[slot], case["code"])
    if lang:
        rec.label("language given")
    if plain:
        rec.eq(out, done, "compiling writes each translation in its place")
    else:
        rec.eq(shape(out), shape(done), "compiling writes each translation in "
               "its place")
