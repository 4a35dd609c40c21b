from hypothesis import strategies as st
from .common_gen import many, pick, prob, text, uniq
from . import xml_gen as X

OPTS = ["root_name", "section_name", "section_id_name", "string_name",
        "string_key_name", "base_string_name", "variant_string_name",
        "variant_string_id_name"]
DEFAULT = ["strings", "section", "name", "string", "key", "base", "variant",
           "context"]
NAMES = [["root", "group", "name", "str", "id", "s", "alt", "info"],
         ["r", "a:b", "x:id", "t", "t", "b", "bb", "c"],
         ["résumé", "grp", "n", "e", "k", "v-1", "v-2", "ctx"],
         ["strings", "strin", "name", "string", "name", "string.base",
          "string.v", "name"]]
HEAD = pick('<?xml version="1.0" encoding="utf-8"?>\n', "", "\n",
            '<?xml version="1.0"?>\n\n<!-- top -->\n')


def more(draw, key):
    return [X.attr(draw, k, draw(X.ATTR)) for k in draw(
        st.lists(pick("z", "q-1", "lang"), max_size=2, unique=True))]


def body(draw):
    kind = draw(pick("t", "t", "t", "t", "t", "e", "n", "w"))
    if kind == "t":
        return draw(X.RAW)
    return {"e": "", "n": None, "w": draw(pick(" ", "\n  ", "<!-- c -->",
                                               "<b/>", "<b>x</b>"))}[kind]


def attrs(draw, key, value):
    out = more(draw, key)
    if key:
        out.insert(draw(st.integers(0, len(out))), X.attr(draw, key, value))
    return out


def string(draw, n, key):
    kids, seen = [], set()
    for _ in range(draw(many(1, 2, 3, 1, 2, 0))):
        k = draw(pick("base", "variant", "base", "variant", "variant",
                      "other", "note"))
        if k == "note":
            kids.append(["note", draw(X.COMMENT)])
            continue
        if k == "other":
            kids.append(["other", draw(pick("<x>y</x>", "<x/>",
                                            "<x k='v'><y/>z</x>"))])
            continue
        ctx = draw(X.ATTR) if k == "variant" else None
        if (k, ctx) in seen:
            continue
        seen.add((k, ctx))
        kids.append([k, attrs(draw, n["variant_string_id_name"] if
                              k == "variant" else None, ctx), body(draw)])
    return {"attrs": attrs(draw, n["string_key_name"], key), "kids": kids,
            "empty": draw(prob(1, 2)), "out": draw(prob(1, 10))}


def section(draw, n, sid):
    keys = uniq([draw(X.NAME) for _ in range(draw(many(1, 2, 3)))])
    return {"attrs": attrs(draw, n["section_id_name"], sid),
            "kids": [string(draw, n, k) for k in keys],
            "note": draw(X.COMMENT) if draw(prob(1, 4)) else None,
            "nested": draw(prob(1, 8)), "empty": draw(prob(1, 2))}


def document(draw, bad=False):
    n = dict(zip(OPTS, draw(pick(DEFAULT, DEFAULT, *NAMES))))
    ids = uniq([draw(X.NAME) for _ in range(draw(many(1, 2, 3)))])
    return {"names": n, "opts": "default" if n["root_name"] == "strings" and
            n["section_name"] == "section" else "given",
            "head": draw(HEAD), "attrs": more(draw, ""),
            "sections": [section(draw, n, i) for i in ids],
            "ws": [draw(X.WS) for _ in range(3)],
            "tail": draw(pick("\n", "", "\n<!-- end -->\n")),
            "nl": draw(pick("\n", "\n", "\r\n"))}


@st.composite
def strategy(draw):
    case = document(draw)
    case["trans"] = [draw(X.RAW) for _ in range(5)]
    return case
