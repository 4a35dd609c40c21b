from openformats.formats.po import PoHandler
from openformats.strings import OpenString
from .po_model import write, read
from .po_chk import key_of, extracted, content, notes, occurrences
from .common_chk import clone


def check(case, rec):
    text = write(case)
    rec.show(text)
    template, strings = PoHandler().parse(text, is_source=True)
    want = [(e, t) for e, t in extracted(case)]
    rec.eq([s.key for s in strings], [key_of(e) for e, _ in want], "the keys")
    live = [(s, e) for s, (e, _) in zip(strings, want) if not s.fuzzy]
    keep = case["keep"]
    rows = [(clone(s), e, True) for i, (s, e) in enumerate(live)
            if keep[i % len(keep)]]
    # an added string as the backend holds it: key, context and metadata
    for e, at in zip(case["new"], case["at"]):
        s = OpenString(
            key_of(e), dict(enumerate(e["str"])) if e["plural"] is not None
            else e["str"][0], context=e["ctx"] or "",
            pluralized=e["plural"] is not None, flags=", ".join(e["flags"]),
            occurrences=occurrences(e) or "", developer_comment=e["note"])
        rows.insert(min(at, len(rows)), (s, e, False))
    inplace = 0
    while inplace < len(rows) and rows[inplace][2]:
        inplace += 1
    if inplace < len(rows):
        rec.label("added at the end" if not any(
            r[2] for r in rows[inplace:]) else "added in between")
    rec.label("kept:%d of %d" % (min(3, sum(r[2] for r in rows)),
                                 min(3, len(live))))
    if any(e["plural"] is not None for _, e, old in rows if not old):
        rec.label("added plural")
    if any(c in e["id"] for _, e, old in rows if not old for c in ":\\"):
        rec.label("added id with a separator")
    rec.nt(len(rows) > 0 and (len(rows) != len(live) or
                              any(not r[2] for r in rows)))
    h = PoHandler()
    stored = PoHandler.pofile_to_str(template)
    synced = h.sync_template(stored if case["text"] else template,
                             [r[0] for r in rows])
    if not rows:
        # what polib prints for no entries is only the header
        rec.true("_tr" not in str(synced) and "_pl" not in str(synced),
                 "nothing is kept", synced=synced)
        return
    new, texts = [], []
    for i, (s, e, _) in enumerate(rows):
        tr = case["trans"]
        if s.pluralized:
            forms = {n: tr[(i + n) % 5] for n in range(case["forms"])}
            new.append(clone(s, forms))
            texts.append(forms)
        else:
            new.append(clone(s, tr[i % 5]))
            texts.append({-1: tr[i % 5]})
    out = PoHandler().compile(synced, new)
    got = read(out)
    rec.true(got and got[0]["id"] == "", "the file starts with its header",
             out=out)
    rec.eq(sorted(l for l in got[0]["str"][-1].split("\n") if l),
           sorted("%s: %s" % (k, v) for k, v in case["head"]),
           "the header's fields", out=out)
    got = got[1:]
    # an entry that keeps its place keeps all; one made anew has no msgctxt
    # where its context is empty and is not obsolete
    goal = [content(e) if i < inplace else
            (e["ctx"] or None, e["id"], e["plural"], False)
            for i, (_, e, _) in enumerate(rows)]
    rec.eq([content(e) for e in got], goal,
           "the entries of the synced and compiled file", out=out)
    rec.eq([e["str"] for e in got], texts, "their texts", out=out)
    rec.eq([(g["flags"], g["note"], g["tnote"]) for g in got[:inplace]],
           [notes(e) for _, e, _ in rows[:inplace]],
           "flags and comments of what was kept", out=out)
    rec.eq([g["flags"] for g in got[inplace:]],
           [e["flags"] for _, e, _ in rows[inplace:]],
           "flags of what was added", out=out)
    rec.eq([g["note"] for g, (_, _, old) in zip(got, rows) if not old],
           [notes(e)[1] for _, e, old in rows if not old],
           "comments of what was added", out=out)
    rec.eq([g["occ"] for g in got],
           [[f + (":" + l if l else "") for f, l in e["occ"]] for _, e, _ in rows],
           "occurrences", out=out)
    rec.eq([[l for l in g["note"] if l] for g, (_, e, old) in zip(
        got[inplace:], rows[inplace:]) if not old],
        [[l for l in notes(e)[1] if l] for _, e, old in rows[inplace:]
         if not old], "comments of what was added", out=out)
    rec.eq([sorted(g["occ"]) for g in got],
           [sorted(f + ":" + l if l else f for f, l in e["occ"])
            for _, e, _ in rows], "occurrences", out=out)
    # what was written reads back as the same strings
    _, again = PoHandler().parse(out)
    rec.eq([(s.key, s.context) for s in again if not s.fuzzy],
           [(s.key, s.context) for i, (s, e, _) in enumerate(rows)
            if any(texts[i].values())], "keys read back")
