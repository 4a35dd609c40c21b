from openformats.strings import OpenString
from .common_chk import placeholder

DEFAULTS = {"context": "", "order": None, "character_limit": None,
            "occurrences": None, "developer_comment": "", "flags": "",
            "fuzzy": False, "obsolete": False, "tags": None}


def check(case, rec):
    rec.show(repr(case["items"]))
    seen = {}
    for d in case["items"]:
        kw = dict(d["extra"])
        if d["has_ctx"]:
            kw["context"] = d["context"]
        strings = d["strings"]
        if isinstance(strings, list):
            strings = {r: v for r, v in strings}
        if d["pluralized"] is not None:
            kw["pluralized"] = d["pluralized"]
        before = dict(strings) if isinstance(strings, dict) else strings
        s = OpenString(d["key"], strings, **kw)
        if isinstance(strings, dict):
            plural = (d["pluralized"] if d["pluralized"] is not None
                      else len(strings) > 1)
            rec.label("plural" if plural else "dict, not plural")
        else:
            plural = False
            rec.label("text")
        ctx = kw.get("context") or ""
        rec.eq(bool(s.pluralized), plural, "pluralized")
        rec.eq(s.key, d["key"], "key")
        for f, dflt in DEFAULTS.items():
            rec.eq(getattr(s, f), kw.get(f, dflt), "attribute " + f)
        full = before if isinstance(before, dict) else {5: before}
        rec.eq(dict(s.strings), full, "all forms")
        rec.eq(s.string, full if plural else full[5], "string")
        want = placeholder(d["key"], ctx, plural)
        for _ in range(2):
            rec.eq(s.template_replacement, want,
                   "placeholder is fixed by key, context and kind")
            rec.eq(s.string_hash, want[:-3], "hash")
        # hashing and equality-as-set-member follow the content
        again = OpenString(d["key"], dict(before) if isinstance(before, dict)
                           else before, **kw)
        rec.eq(hash(s), hash(again), "equal strings hash alike")
        rec.eq(again.template_replacement, want, "stable across instances")
        ident = (d["key"] + ":" + ctx, plural)
        for other, w in seen.items():
            rec.eq(other == ident, w == want,
                   "two strings share a placeholder exactly when they share "
                   "key, context and kind", a=other, b=ident)
        seen[ident] = want
    rec.nt(len(seen) >= 2)
