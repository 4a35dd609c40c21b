"""Oracle helpers shared by the checks (PyPy side)."""
import hashlib

FIELDS = ("key", "context", "order", "character_limit", "occurrences",
          "developer_comment", "flags", "fuzzy", "obsolete", "tags")


def placeholder(key, context="", plural=False):
    """The documented identity of a string, computed independently."""
    h = hashlib.md5((key + ":" + (context or "")).encode("utf-8")).hexdigest()
    return h + ("_pl" if plural else "_tr")


def value(s):
    return dict(s.string) if s.pluralized else s.string


def describe(s):
    d = {f: getattr(s, f) for f in FIELDS}
    d["pluralized"] = bool(s.pluralized)
    d["string"] = value(s)
    return d


def clone(s, new=None):
    """The string as a translation backend hands it back for compiling."""
    from openformats.strings import OpenString
    if new is None:
        new = dict(s.string) if s.pluralized else s.string
    if s.pluralized and not isinstance(new, dict):
        raise AssertionError("plural needs a dict")
    kw = {f: getattr(s, f) for f in FIELDS if f != "key"}
    return OpenString(s.key, new, pluralized=s.pluralized, **kw)


def crlf(text):
    return text.replace("\n", "\r\n")


def uniform(text, nl):
    return crlf(text) if nl == "\r\n" else text
