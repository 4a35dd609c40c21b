"""A writer and a reader of PO files that share nothing with polib."""
import re

OUT = {"\\": "\\\\", '"': '\\"', "\n": "\\n", "\t": "\\t", "\r": "\\r",
       "\v": "\\v", "\b": "\\b", "\f": "\\f"}
IN = {v[1]: k for k, v in OUT.items()}


def quoted(text):
    return '"' + "".join(OUT.get(c, c) for c in text) + '"'


def field(name, text, split):
    if not split or len(text) < split:
        return ["%s %s" % (name, quoted(text))]
    return [name + ' ""'] + [quoted(text[i:i + split])
                             for i in range(0, len(text), split)]


def write(case):
    out = []
    if case["comment"]:
        out += ["# " + l if l else "#" for l in case["comment"].split("\n")]
    if case["headfuzzy"] and case["head"]:
        out.append("#, fuzzy")
    if case["head"] or case["comment"] or case["entries"][0]["tnote"]:
        out += ['msgid ""', 'msgstr ""']
        out += [quoted("%s: %s\n" % (k, v)) for k, v in case["head"]]
        out.append("")
    for e in case["entries"]:
        if e["tnote"]:
            out += ["# " + l for l in e["tnote"].split("\n")]
        if e["note"]:
            out += ["#. " + l for l in e["note"].split("\n")]
        for f, l in e["occ"]:
            out.append("#: " + (f + ":" + l if l else f)
                       if " " not in f else "#: " + f + ":" + l)
        if e["flags"]:
            out.append("#, " + ", ".join(e["flags"]))
        body = []
        if e["prev"] and not e["obsolete"]:
            body.append("#| msgid \"previous\"")
        if e["ctx"] is not None:
            body += field("msgctxt", e["ctx"], 0)
        body += field("msgid", e["id"], e["split"])
        if e["plural"] is not None:
            body += field("msgid_plural", e["plural"], e["split"])
            for i, s in enumerate(e["str"] if not e.get("stray") else []):
                body += field("msgstr[%d]" % i, s, e["split"])
            if e.get("stray"):
                body += field("msgstr", e["stray"], 0)
        elif e.get("stray"):
            body += field("msgstr[0]", e["stray"], 0)
        else:
            body += field("msgstr", e["str"][0], e["split"])
        out += ["#~ " + l for l in body] if e["obsolete"] else body
        out.append("")
    return "\n".join(out)


class Unreadable(Exception):
    pass


def string(token):
    if len(token) < 2 or token[0] != '"' or token[-1] != '"':
        raise Unreadable("not a string: %r" % token)
    body = token[1:-1]
    out, i = "", 0
    while i < len(body):
        if body[i] == "\\":
            if i + 1 >= len(body) or body[i + 1] not in IN:
                raise Unreadable("escape in %r" % token)
            out += IN[body[i + 1]]
            i += 2
        elif body[i] == '"':
            raise Unreadable("quote in %r" % token)
        else:
            out += body[i]
            i += 1
    return out


def read(text):
    """The entries of a PO file, the header's being first."""
    entries, cur, last = [], None, None

    def new():
        e = {"ctx": None, "id": None, "plural": None, "str": {}, "flags": [],
             "occ": [], "note": [], "tnote": [], "obsolete": False}
        entries.append(e)
        return e
    for line in text.split("\n"):
        obsolete = line.startswith("#~ ")
        if obsolete:
            line = line[3:]
        if not line.strip():
            continue
        if line.startswith("#"):
            if cur is None or cur["str"]:
                cur = new()
            if line.startswith("#,"):
                cur["flags"] += [f.strip() for f in line[2:].split(",")
                                 if f.strip()]
            elif line.startswith("#:"):
                cur["occ"] += line[2:].split()
            elif line.startswith("#."):
                cur["note"].append(line[3:])
            elif line.startswith("#|"):
                pass
            else:
                cur["tnote"].append(line[2:])
            continue
        if line.startswith('"'):
            k, i = last
            if k == "str":
                cur["str"][i] += string(line)
            else:
                cur[k] += string(line)
            continue
        m = re.match(r'(msgctxt|msgid_plural|msgid|msgstr)(?:\[(\d+)\])? (.*)$',
                     line)
        if not m:
            raise Unreadable("line %r" % line)
        k, i, tok = m.groups()
        if k in ("msgctxt", "msgid") and (cur is None or cur["str"]):
            cur = new()
        cur["obsolete"] = obsolete
        k = {"msgctxt": "ctx", "msgid": "id", "msgid_plural": "plural",
             "msgstr": "str"}[k]
        if k == "str":
            i = -1 if i is None else int(i)
            if i in cur["str"]:
                raise Unreadable("again: %r" % line)
            cur["str"][i] = string(tok)
            last = (k, i)
        else:
            if cur[k] is not None:
                raise Unreadable("again: %r" % line)
            cur[k] = string(tok)
            last = (k, None)
    return entries
