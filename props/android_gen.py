from hypothesis import strategies as st
from .common_gen import many, pick, prob, uniq, coded
from . import xml_gen as X

RULES = ["zero", "one", "two", "few", "many", "other"]
BLANK = pick("", " ", "\n  ", None)
LOCALE = pick("en", "el", "zh-Hans-CN", "pt_BR", "")
PRODUCT = pick(None, None, None, "tablet", "a&amp;b", "")


def comments(draw):
    return [draw(X.COMMENT) for _ in range(draw(pick(0, 0, 1, 1, 2)))]
ISTRANS = pick("false", "false", "false", "false", "true", "true", "false ",
               "FALSE", "False", "no", "")


def item(draw, kind=None, raw=X.RAW):
    kind = kind or draw(pick("string", "string", "string", "plurals",
                             "string-array", "other"))
    attrs = [X.attr(draw, "name", draw(X.NAME))]
    if kind in ("string", "plurals", "string-array"):
        p = draw(PRODUCT)
        if p is not None:
            attrs.append(X.attr(draw, "product", p))
    for k in draw(pick([], [], [], ["translatable"], ["formatted"],
                       ["tools:ignore", "translatable"])):
        v = draw(ISTRANS) if k == "translatable" else \
            draw(X.ATTR)
        attrs.insert(draw(st.integers(0, len(attrs))), X.attr(draw, k, v))
    e = {"k": kind, "attrs": attrs, "sp": draw(pick("", "", "", " ")),
         "close": draw(pick("", "", " ")), "pre": comments(draw)}
    if kind == "string":
        e["text"] = draw(BLANK) if draw(prob(1, 6)) else draw(raw)
    elif kind == "other":
        e["tag"] = draw(pick("color", "dimen", "item", "eat-comment"))
        e["text"] = draw(pick("#fff", "x", "", None))
    elif kind == "string-array":
        e["lead"] = draw(X.WS)
        e["items"] = [
            {"text": draw(BLANK) if draw(prob(1, 5)) else draw(raw),
             "attrs": [X.attr(draw, "id", "x")] if draw(prob(1, 8)) else [],
             "note": draw(X.COMMENT) if draw(prob(1, 8)) else None,
             "tail": draw(X.WS)} for _ in range(draw(many(2, 1, 3, 0)))]
    else:
        rules = [r for r in RULES[:5] if draw(prob(1, 3))] + ["other"]
        if draw(prob(1, 4)):
            rules = draw(st.permutations(rules))
        plain = draw(prob(4, 5))
        if not plain and draw(prob(1, 2)):
            e["after"], e["gap"] = draw(X.COMMENT), draw(X.WS)
        blank = draw(prob(1, 10))
        e["end"], e["lead"] = draw(X.WS), draw(X.WS)
        if draw(prob(1, 2)):
            e["end"], e["lead"] = "\n  ", "\n    "
        e["plain"] = plain
        e["items"] = [
            {"q": r, "text": draw(BLANK) if blank else draw(raw),
             "attr": ([" ", "quantity", "=", '"', r] if plain else
                      X.attr(draw, "quantity", r)),
             "note": None if plain else draw(pick(None, None, "n", " <x> "))}
            for r in rules]
    return e


MORE = pick(["app:locale", "en"], ["tools:ignore", "Missing"],
            ["locale", "fr"], ["app:tools-locale", "de"], ["tools:localeX", ""])


def document(draw, max_items=6, raw=X.RAW):
    root = [[" ", "xmlns:xliff", "=", '"', "urn:oasis:names:tc:xliff:document:1.2"],
            [" ", "xmlns:tools", "=", '"', "http://schemas.android.com/tools"]]
    for _ in range(draw(pick(0, 0, 0, 1, 2))):
        root.append(X.attr(draw, *draw(MORE)))
    root = uniq(root, key=lambda a: a[1])
    if draw(prob(1, 2)) or len(root) > 2:
        root.insert(0, X.attr(draw, "xmlns:app", "http://x.org/?a=tools:locale"))
    if draw(prob(1, 2)):
        root.insert(draw(pick(0, 1, len(root), len(root))),
                    X.attr(draw, "tools:locale", draw(LOCALE)))
    return {"nl": draw(pick("\n", "\n", "\r\n")),
            "decl": draw(pick("", '<?xml version="1.0" encoding="utf-8"?>\n',
                              "<?xml version='1.0'?>\n<!-- licence\n-->\n",
                              "\n", "<!-- x > y -->")),
            "root": root, "lead": draw(X.WS), "end": draw(X.WS),
            "tail": draw(pick("\n", "", "\n<!-- end -->\n", " ")),
            "items": [dict(item(draw, None, raw), tail=draw(X.WS)) for _ in range(
                draw(many(*range(1, max_items + 1))))],
            "lastnote": draw(pick(None, None, None, " dangling "))}


def distinct(items):
    return uniq(items, key=lambda e: (
        e["attrs"][[a[1] for a in e["attrs"]].index("name")][4],
        "".join(a[4] for a in e["attrs"] if a[1] == "product"), e["k"]))


@st.composite
def strategy(draw):
    case = document(draw)
    case["items"] = distinct(case["items"])
    if draw(prob(1, 40)):
        case["items"], case["selfclosed"] = [], draw(pick("", " "))
    case["trans"] = [draw(X.RAW) for _ in range(5)]
    case["rules"] = [["other"] + [r for r in RULES[:5] if draw(prob(1, 3))]
                     for _ in range(2)]
    case["code"] = draw(pick(None, "el", "pt-rBR", "zh-Hant-TW"))
    case["keep"] = [draw(prob(2, 3)) for _ in range(7)]
    return case
