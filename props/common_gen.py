"""Strategies shared by the generators (CPython + Hypothesis side)."""
import functools
import json

from hypothesis import strategies as st


def memo(fn):
    """Build each strategy once: constructing them inside draws is slow."""
    cache = {}

    @functools.wraps(fn)
    def inner(*a, **k):
        key = (repr(a), repr(sorted(k.items())))
        if key not in cache:
            cache[key] = fn(*a, **k)
        return cache[key]
    return inner


@memo
def pick(*items):
    """One of the given JSON-able values; the first is the simplest."""
    return st.sampled_from(items)


@memo
def many(*small, big=12):
    """A number of things: one of a few small ones, or now and then many (so
    that positions and counts of two digits occur)."""
    return st.sampled_from(list(small) * (1 + 40 // len(small)) + [big])


ASCII = list("abcxyzABZ019 .,;:!?-_+*/=()'\"&<>#@%$|~^`\\{}[]")
UNI = ["\u00e9", "\u00df", "\u03b1", "\u0416", "\u05d0", "\u0639", "\u4e2d",
       "\u3042", "\ud55c", "\U0001f600", "\U0001d11e", "\u00a0", "\u200b",
       "\u200f", "e\u0301", "\u2028", "\u2026", "\u00bd", "\u0130", "\ufb01"]
TRICKY = ["hello", "world", "%s", "%(n)d", "%1$s", "{0}", "{{x}}", "\\n", "\\t",
          "\\\\", "\\\"", "\\'", "\\u00e9", "&amp;", "&lt;", "&#10;", "<b>",
          "</b>", "<br/>", "<!--", "-->", "]]>", "<![CDATA[", "_tr", "_pl",
          "d41d8cd98f00b204e9800998ecf8427e_tr", "http://a.b/c?d=e&f=g",
          ", ,", "{,", ",}", "[,", ",]", "null", "true", "1.5", "  ", "::",
          "..0..", "[0]", "@", "?", "#", "- ", "* ", "> ", "| ",
          "NOTE ", "WEBVTT", "other", "msgid", "title: ", "12", "---"]


def frag(exclude="", extra=(), uni=True, only=None):
    """Fragments of text without the characters of `exclude`, and the extra
    ones, which are taken as they are."""
    pool = list(only) if only is not None else (
        ASCII + ASCII[:8] * 3 + (UNI if uni else []) + TRICKY)
    return [p for p in pool if not any(c in p for c in exclude)] + list(extra)


@memo
def coded(pool, min_size=0, max_size=8):
    """Concatenations of pool members, as one Hypothesis string choice (fast).

    Every member is given a code point of its own; earlier members are simpler.
    """
    pool = uniq(pool)
    table = {chr(0xE000 + i): p for i, p in enumerate(pool)}

    def decode(s):
        if 4 <= len(s) == max_size and ord(s[0]) % 32 == 5:
            # now and then a text is a long one
            s *= 40
        return "".join(table.get(c, "") for c in s)
    return st.text(alphabet="".join(table), min_size=min_size,
                   max_size=max_size).map(decode)


# code points from many scripts and planes, for variety beyond UNI
WIDE = [chr(c) for c in (
    0xa1, 0xa7, 0xab, 0xb0, 0xb7, 0xbf, 0xc5, 0xd7, 0xf1, 0xfe, 0x101, 0x131,
    0x17f, 0x1c5, 0x259, 0x2bc, 0x301, 0x37e, 0x3c2, 0x44f, 0x531, 0x5b0,
    0x60c, 0x64b, 0x6f1, 0x905, 0x93f, 0xe01, 0xe33, 0xf0b, 0x10d0, 0x1100,
    0x1780, 0x1e9e, 0x1f80, 0x2003, 0x200c, 0x200d, 0x200e, 0x202b, 0x2060,
    0x20ac, 0x2116, 0x212b, 0x2190, 0x221e, 0x2460, 0x2500, 0x2603, 0x27e8,
    0x2e80, 0x3001, 0x3002, 0x30fc, 0x3131, 0x4e00, 0x9fff, 0xa640, 0xac00,
    0xf900, 0xfb1d, 0xfe0f, 0xfe64, 0xff01, 0xff21, 0xffe5, 0xfffd, 0x10330,
    0x1f1ec, 0x1f3fd, 0x1f468, 0x20000, 0x2a6d6)]


@memo
def text(exclude="", extra=(), min_size=1, max_size=8, uni=True, only=None):
    pool = frag(exclude, extra, uni, only)
    if uni and only is None:
        pool = pool + [c for c in WIDE if c not in exclude]
    return coded(pool, min_size, max_size)


def nonblank(strategy, filler="w"):
    """Texts with at least one visible character, by construction."""
    return strategy.map(lambda s: s if s.strip() else s + filler)


@memo
def visible(*a, **k):
    return nonblank(text(*a, **k))


IDENT = list("abcdefgxyzABC019_")


@memo
def ident(min_size=1, max_size=6):
    return st.builds(lambda a, b: a + b, st.sampled_from("abcdkxyzK_"),
                     st.text(alphabet=IDENT, min_size=min_size - 1,
                             max_size=max_size - 1))


newline = st.sampled_from(["\n", "\n", "\r\n"])


@memo
def weighted(*pairs):
    pool = []
    for w, v in pairs:
        pool += [v] * w
    return st.sampled_from(pool)


@memo
def prob(n, d):
    """Boolean that is True about n times in d; shrinks to False."""
    return st.integers(0, d - 1).map(lambda i: i >= d - n)


def uniq(items, key=lambda x: x):
    seen, out = set(), []
    for i in items:
        k = key(i)
        if k not in seen:
            seen.add(k)
            out.append(i)
    return out
