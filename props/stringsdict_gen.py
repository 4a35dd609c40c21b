from hypothesis import strategies as st
from .common_gen import many, pick, prob, coded, frag, ident, uniq, memo, WIDE, nonblank

SAFE = tuple(p for p in frag("<&>@") if "]]" not in p)
ENT = ("&amp;", "&lt;", "&gt;", "&quot;", "&#160;", "&#x2019;", "&amp;lt;")
EXTRA = ("%d", "%lu", "%1$d", "\n", "  ", "%%")
TEXT = coded(SAFE * 2 + ENT + EXTRA * 2 + ("@", "%@", "%2$@", "%#@more@") +
             tuple(WIDE) + ("<![CDATA[<b>&]]>", "<!-- n -->"), 1, 6)
FORM = st.one_of(TEXT, TEXT, TEXT, TEXT).map(
    lambda s: s if s.strip() else s + "w")
AFFIX = coded(SAFE + ENT + EXTRA + ("There ", " is", "%"), 1, 4).map(
    lambda s: s if s.strip() else s + "w")
TAILFIX = coded(SAFE + ENT + EXTRA + (" in %#@more@", "@", " %@", "%2$#@x@"),
                1, 4).map(lambda s: s if s.strip() else s + "w")
NAME = st.one_of(ident(), coded(("a", "b", "é", "中", "_", "1"), 1, 3))
ODDNAME = pick("a-b", "a b", "x.y", "&amp;", "a&lt;")
KEY = coded(SAFE + ENT + ("@", "%@"), 1, 4).map(
    lambda s: s if s.strip() else s + "k")
RULES = ["other", "one", "zero", "two", "few", "many"]
HEAD = pick('<?xml version="1.0" encoding="UTF-8"?>\n<plist version="1.0">\n',
            '<?xml version="1.0" encoding="UTF-8"?>\n<!DOCTYPE plist PUBLIC '
            '"-//Apple//DTD PLIST 1.0//EN" "http://www.apple.com/DTDs/'
            'PropertyList-1.0.dtd">\n<plist version="1.0">\n    ',
            "<plist>", "")
WS = pick("\n    ", "\n\t", "", " ", "\n", "\n\n  ")
SPEC = ["NSStringFormatSpecTypeKey", "NSStringPluralRuleType"]
TYPE = ["NSStringFormatValueTypeKey", "d"]


@memo
def rules():
    return st.lists(st.sampled_from(RULES[1:]), max_size=5, unique=True)


def plural(draw):
    out = draw(rules())
    if draw(prob(1, 4)):
        out.insert(draw(st.integers(0, len(out))), "other")
    else:
        out.append("other")
    return out


def variable(draw, name, first, affix):
    blank = draw(prob(1, 8))
    forms = [[r, draw(pick("", "", " ", "\n", None)) if blank
              else draw(FORM)] for r in plural(draw)]
    if first and affix and draw(prob(1, 4)):
        forms[0][1] = draw(pick("", None, " "))
    specs = [[SPEC, TYPE], [TYPE, SPEC], [SPEC, TYPE], [SPEC], []][
        draw(pick(0, 0, 0, 1, 2, 3, 4))]
    body = [["s"] + s for s in specs] + [["f"] + f for f in forms]
    plain = True
    if specs and draw(prob(1, 5)):
        body = list(draw(st.permutations(body)))
        plain = False
    plain = plain and bool(specs) and not blank
    return {"name": name, "body": body, "plain": plain}


def entry(draw, key):
    names = uniq([draw(NAME) for _ in range(draw(many(1, 2, 3, big=6)))])
    if draw(prob(1, 8)):
        names[draw(st.integers(0, len(names) - 1))] = draw(ODDNAME)
    kind = draw(pick("inline", "inline", "inline", "inline", "none", "at",
                     "pos", "later", "missing", "nothing"))
    pre = draw(AFFIX) if draw(prob(1, 2)) else ""
    suf = draw(TAILFIX) if draw(prob(1, 2)) else ""
    target = names[0]
    inl = kind == "inline"
    if inl and draw(prob(1, 6)):
        target = names[-1]
    if kind == "missing":
        target = "absent"
    if kind == "none":
        fmt = pre + "nothing"
    elif kind == "at":
        fmt = pre + "%@ " + "%#@" + target + "@" + suf
    elif kind == "pos":
        fmt = pre + "%1$#@" + target + "@" + suf
        suf = suf.replace("%#@", "")
        fmt = pre + "%1$#@" + target + "@"
    else:
        fmt = pre + "%#@" + target + "@" + suf
    inl = inl and not (set(target) & set("-. &"))
    vs = [variable(draw, n, inl and n == target, pre + suf) for n in names]
    if kind == "nothing" and draw(prob(1, 2)):
        vs, fmt = [], draw(pick("%d", pre + "x", "", None))
    at = len(vs) if kind == "later" else 0
    if inl:
        # the format string may come between variables, before its own
        at = draw(pick(0, 0, 0, 1))
        at = min(at, names.index(target))
    return {"key": key, "fmt": None if kind == "nothing" and vs else
            {"text": fmt, "at": at},
            "inline": [target, pre, suf] if inl else None, "vars": vs,
            "open": draw(pick("", "", "", " ")) if inl else ""}


@st.composite
def strategy(draw):
    keys = uniq([draw(KEY) for _ in range(draw(many(1, 2, 3, 4)))])
    entries = [entry(draw, k) for k in keys]
    return {"head": draw(HEAD), "nl": draw(pick("\n", "\n", "\r\n")),
            "ws": [draw(WS) for _ in range(3)], "entries": entries,
            "trans": [draw(FORM) for _ in range(5)],
            "rules": [plural(draw) for _ in range(2)],
            "drop": draw(st.integers(0, 255)),
            "plain": draw(coded(tuple(frag()), 0, 6))}
