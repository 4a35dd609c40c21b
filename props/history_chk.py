"""What a handler does depends on what it is given, not on what it did before,
and it changes nothing that it is given."""
from openformats.exceptions import ParseError
from openformats.strings import OpenString
from .anyinput_chk import HANDLERS
from .common_chk import clone, uniform, describe, value

SYNC = ("json", "arb", "structured", "po")


def make(kind):
    handler = HANDLERS[kind]()
    if kind == "i18n":
        handler.set_plural_rules([1, 5])
    return handler


def outcome(fn):
    try:
        return fn()
    except Exception as e:
        return type(e).__name__ + ": " + str(e)


def state(template, strings):
    return str(template), [dict(describe(s), hash=s.template_replacement)
                           for s in strings]


def check(case, rec):
    kind = case["format"]
    docs = [uniform(d, nl) for d, nl in zip(case["docs"], case["nls"])]
    rec.show("%s %s\n%s" % (kind, case["ops"], "\n======\n".join(docs)))

    def parse(handler, i):
        return state(*handler.parse(docs[i]))
    first = [outcome(lambda: parse(make(kind), i)) for i in range(len(docs))]
    good = [not isinstance(o, str) for o in first]

    def given(i, op):
        """What a handler may be given to compile, made anew."""
        template, strings = make(kind).parse(docs[i])
        strings = [clone(s, {r: t + case["suffix"] for r, t in s.string.items()}
                         if s.pluralized else s.string + case["suffix"]) for s in strings]
        if op == "fewer":
            strings = strings[::2]
        if op == "more":
            strings += [OpenString("more", "more", order=len(strings))]
        return template, strings

    def run(handler, op, i):
        if op == "parse":
            return parse(handler, i)
        template, strings = given(i, op)
        before = state(template, strings)
        if op == "sync":
            out = str(handler.sync_template(template, strings))
        else:
            out = handler.compile(template, strings)
        changes.append((before, state(template, strings)))
        return out

    used, count, changes = make(kind), 0, []
    for op, i in case["ops"]:
        if op != "parse" and not good[i] or op == "sync" and kind not in SYNC:
            continue
        count += 1
        rec.label(*[kind] if count == 2 else [op])
        want = outcome(lambda: run(make(kind), op, i))
        rec.eq(outcome(lambda: run(used, op, i)), want,
               "%s of document %d by a handler that was used before" % (op, i))
    for before, after in changes:
        rec.eq(after[1], before[1], "the strings given, afterwards")
        if kind != "po":    # whose templates are objects
            rec.eq(after[0], before[0], "the template given, afterwards")
    rec.nt(count > 1 and any(good))
    for i in reversed(range(len(docs))):
        rec.eq(outcome(lambda: parse(make(kind), i)), first[i],
               "parsing document %d again" % i)
