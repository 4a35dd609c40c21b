import copy
from openformats.exceptions import ParseError
from openformats.formats.po import PoHandler
from .po_model import write


def broken(case):
    """The entries after the defect; None where it cannot be planted."""
    kind, es = case["kind"], copy.deepcopy(case["entries"])
    full = [i for i, e in enumerate(es) if any(s.strip() for s in e["str"])]
    at = case["at"] % len(es)
    fresh = dict(es[at], id=case["id"] + " fresh", plural=None, str=[""],
                 ctx="fresh")
    to = case["to"] % (len(es) + 1)
    if kind == "none":
        return es, False
    if kind == "duplicate":
        dup = copy.deepcopy(es[at])
        if case["to"] % 2:
            # an absent context and an empty one are the same
            dup["ctx"] = {None: "", "": None}.get(dup["ctx"], dup["ctx"])
        es.insert(to, dup)
        return es, True
    if kind == "empty msgid":
        # one that is not the header: it has a context
        es.insert(to, dict(es[at], id="", ctx=es[at]["ctx"] or "c"))
        return es, True
    if kind == "incomplete plural":
        at = [i for i in full if len(es[i]["str"]) > 1]
        if not at:
            return None, None
        e = es[at[case["at"] % len(at)]]
        e["str"] = [s if s.strip() else "x" for s in e["str"]]
        e["str"][case["to"] % len(e["str"])] = ""
        return es, True
    if kind == "mixed: empty":
        es.insert(to, fresh)
        # a translation may leave strings untranslated
        return es, case["source"] and bool(full)
    if kind == "mixed: full":
        es.insert(to, dict(fresh, str=[case["text"]]))
        empty = any(not any(e["str"]) for e in case["entries"])
        return es, case["source"] and empty
    if kind == "blank among full":
        es.insert(to, dict(fresh, str=[" "]))
        return es, False
    if kind == "blank plural form":
        at = [i for i in full if len(es[i]["str"]) > 1]
        if not at:
            return None, None
        e = es[at[case["at"] % len(at)]]
        e["str"] = [s if s.strip() else "x" for s in e["str"]]
        e["str"][case["to"] % len(e["str"])] = " "
        return es, False
    if kind == "alike":
        # two entries that are easily taken for the same one
        x, text = case["id"] + " like", [case["text"]]
        one = dict(fresh, id=x, ctx="qr", str=text)
        a, b = [(dict(one), dict(one, id=x + "q", ctx="r")),
                (dict(one, ctx="q", id="r" + x), dict(one)),
                (dict(one, id=x + "\\", plural="b", str=text * 2),
                 dict(one, id=x + ":b")),
                (dict(one, plural="b", str=text * 2), dict(one, id=x + ":b")),
                (dict(one, plural="b:c", str=text * 2),
                 dict(one, id=x + ":b", plural="c", str=text * 2)),
                (dict(one, plural=x, str=text * 2), dict(one)),
                (dict(one, plural="b", str=text * 2),
                 dict(one, plural="c", str=text * 2)),
                (dict(one, id=x + "A"), dict(one, id=x + "a")),
                (dict(one), dict(one, ctx="qr ")),
                (dict(one), dict(one, ctx=None)),
                (dict(one), dict(one, ctx="qr:")),
                (dict(one), dict(one, ctx="Qr")),
                (dict(one), dict(one, ctx="qr\\")),
                (dict(one), dict(one, ctx="q")),
                (dict(one), dict(one, ctx="qr\n")),
                (dict(one), dict(one, id=x + ":")),
                (dict(one), dict(one, id=x + " ")),
                (dict(one), dict(one, id=x + "\n")),
                (dict(one, plural="b", str=text * 2),
                 dict(one, plural="b ", str=text * 2)),
                (dict(one, plural="b:", str=text * 2),
                 dict(one, plural="b", str=text * 2)),
                ][(case["at"] * 6 + case["to"] + len(case["id"])) % 20]
        es.insert(to, a)
        es.insert(case["at"] % (len(es) + 1), b)
        return es, False
    if kind == "msgstr on a plural":
        at = [i for i, e in enumerate(es) if e["plural"] is not None]
        if not at:
            return None, None
        es[at[case["at"] % len(at)]]["stray"] = case["text"]
        return es, True
    at = [i for i, e in enumerate(es) if e["plural"] is None]
    if not at:
        return None, None
    es[at[case["at"] % len(at)]]["stray"] = case["text"]
    return es, True


def check(case, rec):
    es, bad = broken(case)
    if es is None:
        return
    text = write(dict(case, entries=es))
    rec.show(text)
    rec.label(case["kind"] + (": rejected" if bad else ": accepted"))
    rec.nt(bad or case["kind"] != "none")
    h = PoHandler()
    if bad:
        rec.raises(ParseError, lambda: h.parse(text, is_source=case["source"]),
                   "a file with %s has to be rejected" % case["kind"])
        return
    try:
        _, strings = h.parse(text, is_source=case["source"])
    except ParseError as e:
        rec.fail("a valid file was rejected", error=e)
    n = len(es)
    if not case["source"]:
        n = sum(any(e["str"]) for e in es)
    rec.eq(len(strings), n, "number of strings")
