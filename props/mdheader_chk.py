import re
from .mdany_chk import KINDS
from .yaml_model import events, expected
from .yaml_chk import source_of, rows_of
from .common_chk import clone, uniform

BODY = {"text w\n": ["text w"], "\n# Title\n\nmore x\n": ["Title", "more x"],
        "12\n": []}


ESCAPE = re.compile(r"\\(?:u00|x)([0-9a-fA-F]{2})")


def decode(text):
    """The handler reads escapes of control characters in any text."""
    return ESCAPE.sub(lambda m: chr(int(m.group(1), 16)) if re.match(
        "[\x01-\x08\x0b\x0c\x0e-\x1f\x7f-\x84\x86-\x9f]",
        chr(int(m.group(1), 16))) else m.group(), text)


def decoded(e):
    if isinstance(e, tuple) and e[0] == "s":
        return e[:2] + (decode(e[2]),) + e[3:]
    if isinstance(e, tuple) and e[0] in ("m", "l"):
        return (e[0], [decoded(k) for k in e[1]], e[2])
    return e


def check(case, rec):
    kind = case["kind"]
    w, text = source_of(case, rec)
    head, end = "---" + case["space"], "---\n"
    doc = head + text + end + case["body"]
    rec.show(doc)
    rows, template = rows_of(w, text)
    rec.nt(len(rows) > 1)
    rec.label(kind, "nl:%r" % case["nl"])
    got, strings = KINDS[kind]().parse(uniform(doc, case["nl"]))
    n = len(rows)
    rec.eq([(s.key, s.string, s.order) for s in strings],
           [(r[0], decode(r[2]), r[4]) for r in rows] +
           [(str(n + i), t, n + i) for i, t in enumerate(BODY[case["body"]])],
           "the strings of header and body")
    tr = case["trans"]
    texts = [tr[i % len(tr)] for i in range(n)]
    for t, r in zip(texts, rows):
        rec.label("to %s" % (r[3].split(":")[-1] or "plain"))
    ev = events(text)
    same = expected(w, ev, [r[2] for r in rows])
    want = expected(w, ev, texts)
    for ts, goal in ((None, same), (texts, want)):
        new = [clone(s, (ts + ["B%d" % i for i in range(9)])[i] if ts else None)
               for i, s in enumerate(strings)]
        out = KINDS[kind]().compile(got, new)
        out = out.replace("\r\n", "\n")
        i = out.rfind("\n" + end, 0, len(out) - len(case["body"]) + 4
                      if ts is None else len(out))
        rec.true(i > 0, "the header ends", out=out)
        try:
            e = events(out[len(head):i + 1])
        except Exception as err:
            rec.fail("the header is not YAML", out=out, error=err)
        rec.eq(decoded(e), decoded(goal), "the content of the header", out=out)
