from .mdany_chk import KINDS
from .common_chk import clone, uniform


def check(case, rec):
    parts, kind = case["parts"], case["kind"]
    text = "".join(p[1] for p in parts)
    doc = uniform(text, case["nl"])
    rec.show(doc)
    want = [p[1] for p in parts if p[0] == "s"]
    rec.label(kind, "nl:%r" % case["nl"], "strings:%d" % min(6, len(want)))
    rec.nt(len(want) > 1)
    if len(set(want)) < len(want):
        rec.label("a text repeated")
    template, strings = KINDS[kind]().parse(doc)
    strings = list(strings)
    rec.eq([(s.string, s.key, s.order) for s in strings],
           [(t, str(i), i) for i, t in enumerate(want)],
           "the text of each block is extracted, in order")
    new = [case["trans"][i % 5] for i in range(len(strings))]
    it = iter(new)
    goal = "".join(next(it) if p[0] == "s" else p[1] for p in parts)
    nl = case["nl"] if "\n" in template else "\n"
    rec.eq(KINDS[kind]().compile(template, [clone(s, t) for s, t in
                                            zip(strings, new)]),
           uniform(goal, nl), "compiling puts each translation in the place "
           "of its text")
