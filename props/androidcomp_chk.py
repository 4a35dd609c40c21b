from openformats.formats.android import AndroidHandler
from .android_model import Model, RULES, shape
from .android_chk import labels
from .common_chk import clone


def check(case, rec):
    h = AndroidHandler()
    text = Model(case).text()
    rec.show(text)
    template, strings = h.parse(text)
    strings = list(strings)
    want = Model(case).strings()
    labels(case, rec, want)
    left, goal, gone = [], {}, 0
    for n, (w, s) in enumerate(zip(want, strings)):
        if not case["keep"][n % 7]:
            goal[w[0]] = None
            gone += 1
            continue
        t = case["trans"][n % 5]
        if w[4]:
            forms = {r: case["trans"][(n + m) % 5]
                     for m, r in enumerate(case["rules"][n % 2])}
            left.append(clone(s, {RULES[r]: f for r, f in forms.items()}))
            goal[w[0]] = forms
        else:
            left.append(clone(s, t))
            goal[w[0]] = t
    src = case["is_source"]
    out = AndroidHandler().compile(template, left, is_source=src)
    model = Model(case, drop_ignored=not src)
    rec.label("removed %s" % ("none" if not gone else "all"
                              if gone == len(want) else "some"),
              "source" if src else "translation")
    if any(model.ignored(e) for e in case["items"]):
        rec.label("untranslatable")
    rec.nt(0 < gone < len(want))
    rec.eq(shape(out), shape(model.text(lambda slot, t: goal[slot])),
           "the compiled file has the strings given and every other element, "
           "and not the removed strings%s" %
           ("" if src else " nor untranslatable ones"), out=out)
    if gone < len(want) and not [e for e in case["items"]
                                 if model.ignored(e)]:
        # what is left parses to the strings that were kept
        again = AndroidHandler().parse(out)[1]
        kept = [s.string if not s.pluralized else dict(s.string)
                for s in left]
        rec.eq([s.string if not s.pluralized else dict(s.string)
                for s in again], kept, "the compiled file parses to the "
               "strings it was compiled with", out=out)
