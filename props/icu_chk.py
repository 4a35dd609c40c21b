import re
from openformats.exceptions import ParseError
from openformats.utils.icu import (
    ICUCompiler, ICUParser, PLURAL_FORMAT_NUMERIC, PLURAL_FORMAT_STRING,
    normalize_plural_rule)
from .json_model import (plural_head, plural_forms, plural_raw, plural_with,
                         RULES, NAMES)

# "{variable, plural, ...}" and what may surround it
HEAD = re.compile(r"\s*\{\s*[-A-Za-z0-9_]+\s*,\s*plural\s*,")
HASH = "d41d8cd98f00b204e9800998ecf8427e_pl_"


def plain(rule):
    return normalize_plural_rule(rule)


def check(case, rec):
    p, key = case["p"], case["key"]
    text = plural_raw(p)
    numeric = any(r[0] == "=" for r, _, _ in p["forms"])
    rec.show(text)
    for allow in (True, False):
        s = ICUParser(allow_numeric_plural_values=allow).parse(key, text)
        if numeric and not allow:
            rec.label("numeric rules not wanted")
            rec.eq(s, None, "numeric rules are not wanted")
            continue
        rec.true(s is not None, "a plural is recognised")
        rec.eq((s.key, s.pluralized), (key, True), "key and pluralized")
        rec.eq(s.string_info, [(r, "{%s}" % c) for r, _, c in p["forms"]],
               "the rules and their contents, in order")
        rec.eq(s.strings_by_rule, {RULES[r]: c for r, _, c in p["forms"]},
               "the texts by rule")
        rec.eq(s.syntax_by_rule,
               {RULES[r]: PLURAL_FORMAT_NUMERIC if r[0] == "=" else
                PLURAL_FORMAT_STRING for r, _, c in p["forms"]},
               "how the rules were written")
        rec.eq((text[:s.current_position], s.string_to_replace),
               (plural_head(p), plural_forms(p)),
               "which part of the text the forms are")
    rec.nt(len(p["forms"]) > 1)
    rec.label("forms:%d" % min(3, len(p["forms"])))

    other = case["other"]
    if not HEAD.match(other):
        rec.label("other text")
        for allow in (True, False):
            rec.eq(ICUParser(allow).parse(key, other), None,
                   "what is not a plural is left alone", text=other)

    refuse(case, rec)
    compiler(case, rec)


def refuse(case, rec):
    p, kind, at = dict(case["p"]), case["bad"], case["at"]
    forms = [list(f) for f in p["forms"]]
    seps = [s if s.strip(" ") else s + " " for s in p["seps"]]
    n = at % len(forms)
    message = None
    if kind is None:
        return
    if kind == "rule":
        forms[n][0] = message = case["wrong"]
    elif kind == "twice":
        message = forms[n][0]
        new = list(forms[n])
        if message[0] == "=" and at % 2:
            new[0] = plain(message)
        forms.append(new)
        seps.append(" ")
    elif kind == "stray":       # between the forms, or after them
        i = at % len(forms)
        stray = " " + case["stray"] + " "
        if i < len(seps):
            seps[i] = stray
        else:
            p["end"] = stray
    elif kind == "empty":
        if len(forms) == 1:
            return
        forms[n] = [forms[n][0], forms[n][1], None]
    parts = []
    for i, (rule, sp, content) in enumerate(forms):
        parts.append((seps[i - 1] if i else "") + rule + sp +
                     ("" if content is None else "{%s}" % content))
    text = plural_with(p, "".join(parts))
    # a stray word or brace may join what follows it into a form
    if kind == "stray" and case["stray"] in ("{", "{{", "}", "}}"):
        rec.label("unbalanced")
        if p["post"]:
            return
    rec.label("refused: " + kind)
    e = rec.raises(ParseError, lambda: ICUParser().parse(case["key"], text),
                   "a malformed plural is refused", text=text)
    rec.true(case["key"] in str(e), "the error names the key", message=str(e))
    if kind == "rule":
        rec.true('"%s"' % message in str(e) or "near" in str(e),
                 "the error names the wrong rule", message=str(e), text=text)


def compiler(case, rec):
    forms = {r: t for r, t in case["forms"]}
    syntax = {r: PLURAL_FORMAT_NUMERIC if r < 3 and case["syntax"][r] else
              PLURAL_FORMAT_STRING for r in forms}

    def name(r):
        return "=%d" % r if syntax[r] == PLURAL_FORMAT_NUMERIC else NAMES[r]
    got = ICUCompiler().serialize_strings(
        forms, delimiter=case["delim"], syntax_by_rule=syntax)
    rec.eq(got, case["delim"].join("%s {%s}" % (name(r), t)
                                   for r, t in case["forms"]), "forms, written")
    again = ICUParser().parse("k", "{n, plural, %s}" % got.replace("\n", " "))
    rec.eq((again.strings_by_rule, again.syntax_by_rule), (forms, syntax),
           "the forms, read back")
    s = ICUParser().parse("k", "{n, plural, %s}" % ICUCompiler().serialize_strings(
        {r: HASH + str(i) for i, r in enumerate(forms)}, syntax_by_rule=syntax))
    rec.eq(ICUCompiler().serialize_placeholder_string(s, case["target"]),
           " ".join("%s {%s%d}" % (name(r) if r in syntax else NAMES[r], HASH, i)
                    for i, r in enumerate(case["target"])),
           "placeholders for the rules of another language")
