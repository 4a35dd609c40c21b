from openformats.formats.po import PoHandler
from .po_model import write, read
from .common_chk import clone, placeholder, value


def esc(s):
    return s.replace("\\", "\\\\").replace(":", "\\:")


def key_of(e):
    return esc(e["id"]) + (":" + esc(e["plural"]) if e["plural"] else "")


def occurrences(e):
    return ", ".join(f + ":" + l for f, l in e["occ"]) or None


def extracted(case):
    """The entries to extract and their texts."""
    pot = case["mode"] != "translation" and not any(
        s.strip() for e in case["entries"] for s in e["str"])
    for e in case["entries"]:
        if case["mode"] == "translation" and not any(e["str"]):
            continue
        if pot:
            texts = {5: e["id"]} if e["plural"] is None else {
                0: e["id"], 1: e["plural"]}
        elif e["plural"] is None:
            texts = {5: e["str"][0]}
        else:
            texts = dict(enumerate(e["str"]))
        yield e, texts


def content(e):
    return (e["ctx"], e["id"], e["plural"], e["obsolete"])


def notes(e):
    return (e["flags"], [l for l in e["note"].split("\n") if e["note"]],
            [l for l in e["tnote"].split("\n") if e["tnote"]])


def check_output(rec, case, out, goal, head=True):
    """goal: [(entry, {form: text})]"""
    got = read(out)
    rec.true(got and got[0]["id"] == "", "the file starts with its header",
             out=out)
    if head:
        rec.eq(sorted(l for l in got[0]["str"][-1].split("\n") if l),
               sorted("%s: %s" % (k, v) for k, v in case["head"]),
               "the header's fields", out=out)
        rec.eq([l for l in got[0]["tnote"] if l.strip()],
               [l for l in case["comment"].split("\n") if l.strip()],
               "the comment at the top", out=out)
        rec.eq("fuzzy" in got[0]["flags"],
               bool(case["headfuzzy"] and case["head"]), "the header's flag")
    got = got[1:]
    rec.eq([content(e) for e in got], [content(e) for e, _ in goal],
           "the entries of the compiled file", out=out)
    rec.eq([e["str"] for e in got],
           [t if e["plural"] is not None else {-1: t[5]} for e, t in goal],
           "their texts", out=out)
    rec.eq([(g["flags"], g["note"], g["tnote"]) for g in got],
           [notes(e) for e, _ in goal], "their flags and comments", out=out)
    rec.eq([sorted(g["occ"]) for g in got],
           [sorted((f + ":" + l if l else f) for f, l in e["occ"])
            if not any(" " in f for f, _ in e["occ"]) else sorted(g["occ"])
            for g, (e, _) in zip(got, goal)], "their occurrences", out=out)


def check(case, rec):
    text = write(case)
    rec.show(text)
    source = case["mode"] != "translation"
    h = PoHandler()
    template, strings = h.parse(text, is_source=source)
    want = list(extracted(case))
    order, rows = 0, []
    for e, texts in want:
        fuzzy = "fuzzy" in e["flags"]
        rows.append((key_of(e), e["ctx"] or "", e["plural"] is not None,
                     texts if e["plural"] is not None else texts[5],
                     fuzzy, None if fuzzy else order, ", ".join(e["flags"]),
                     occurrences(e), e["note"] + "\n" + e["tnote"]))
        order += not fuzzy
    rec.eq([(s.key, s.context, bool(s.pluralized), value(s), bool(s.fuzzy),
             s.order, s.flags, s.occurrences, s.developer_comment)
            for s in strings], rows, "the strings and their attributes, in order")
    rec.eq([s.template_replacement for s in strings],
           [placeholder(r[0], r[1], r[2]) for r in rows], "placeholders")
    live = [(s, e, t) for s, (e, t) in zip(strings, want) if not s.fuzzy]
    rec.nt(len(live) > 1)
    rec.label(case["mode"], "live:%d" % min(3, len(live)))
    if len(live) < len(want):
        rec.label("fuzzy entries")
    if len(want) < len(case["entries"]):
        rec.label("empty entries left out")
    if any(e["obsolete"] for e in case["entries"]):
        rec.label("obsolete entries")
    if any(e["plural"] is not None for e in case["entries"]):
        rec.label("plurals")
    stored = PoHandler.pofile_to_str(template)
    tmpl = stored if case["text"] else template
    out = h.compile(tmpl, [clone(s) for s, _, _ in live])
    check_output(rec, case, out, [(e, t) for _, e, t in live])
    new, goal = [], []
    for i, (s, e, t) in enumerate(live):
        tr = case["trans"]
        if s.pluralized:
            forms = {n: tr[(i + n) % 5] for n in range(case["forms"])}
            new.append(clone(s, forms))
            goal.append((e, forms))
        else:
            new.append(clone(s, tr[i % 5]))
            goal.append((e, {5: tr[i % 5]}))
    out = PoHandler().compile(stored, iter(new))
    check_output(rec, case, out, goal)
