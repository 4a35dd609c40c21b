import copy
import re
from openformats.formats.yaml import YamlHandler
from .yaml_model import events, STR, RULE
from .yaml_chk import source_of
from .yamlplural_chk import handler, s_items
from .common_chk import clone


def plainer(n):
    """Keys that are read back as what they are: no numbers in brackets."""
    if n["t"] == "m":
        for i, kid in enumerate(n["kids"]):
            key = kid[0]
            if key[0] in ("<3.5>", "<None>", "[0]", "<2001-01-01>",
                          "<-1.5>"):
                kid[0] = ["k%d" % i, "k%d" % i]
            elif key[0] in ("true", "Yes"):
                kid[0] = [key[0], "'%s'" % key[0]]
            plainer(kid[1])
    elif n["t"] == "l":
        for k in n["kids"]:
            plainer(k)


NUMBER = re.compile(r"<-?[0-9]+>$")


def pruned(t, goal):
    """The tree of the strings that are kept."""
    if t[0] in ("s", "p"):
        return goal.get(t[1])
    if t[0] not in ("m", "l"):
        return None
    out = []
    for k, v in t[1]:
        v = pruned(v, goal)
        if k and NUMBER.match(k):
            k = "number " + k[1:-1]
        if v is not None:
            out.append([k, v])
    if not out:
        return None
    return [v for _, v in out] if t[0] == "l" else out


def content(e, top=True):
    """The same shape of what was read; numbers as keys are told apart."""
    if e[0] == "s":
        return ("s", e[2], e[1] if top or e[1] != STR else None)
    if e[0] == "l":
        return [content(x) for x in e[1]]
    kids = e[1]
    return [["number %s" % k[2] if k[1].endswith(":int") else
             k[2] if k[1] == STR else repr(k), content(v)]
            for k, v in zip(kids[::2], kids[1::2])]


def same(got, want):
    if isinstance(want, tuple):
        # the tag of a text inside a mapping or list may go
        return (isinstance(got, tuple) and got[1] == want[1] and
                got[2] in want[2])
    if isinstance(got, tuple) or len(got) != len(want):
        return False
    for g, w in zip(got, want):
        if isinstance(w, list) and len(w) == 2 and isinstance(w[0], str):
            if not (isinstance(g, list) and g[0] == w[0] and same(g[1], w[1])):
                return False
        elif not same(g, w):
            return False
    return True


def check(case, rec):
    case = copy.deepcopy(case)
    plainer(case["root"])
    i18n = case["kind"] == "i18n"
    w, text = source_of(case, rec)
    h = handler(case) if i18n else YamlHandler()
    template, strings = h.parse(text)
    rec.eq(len(strings), len(w.strings), "number of strings")
    tr, keep = case["trans"], case["keep"]
    goal, new = {}, []
    for i, s in enumerate(strings):
        if not keep[i % len(keep)]:
            continue
        if s.pluralized:
            new.append(clone(s, {r: tr[(i + r) % len(tr)]
                                 for r in case["rules"]}))
            goal[i] = [[RULE[r], ("s", t, (STR,))]
                       for r, t in s_items(new[-1])]
        else:
            t = tr[i % len(tr)]
            new.append(clone(s, t))
            tag = w.strings[i][2]["tag"]
            goal[i] = ("s", t, ("!" + tag, STR) if tag and "." in s.key else
                       ("!" + tag,) if tag else (STR,))
    h = handler(case) if i18n else YamlHandler()
    h.should_use_template = False
    rec.nt(len(new) < len(strings))
    if not new:
        goal = {}
    rec.label(case["kind"], "kept:%d" % min(5, len(new)),
              "root " + w.tree[0])
    out = h.compile(template, new)
    try:
        ev = events(out)
    except Exception as e:
        rec.fail("the compiled file is not YAML", out=out, error=e)
    got, want = content(ev), pruned(w.tree, goal)
    if want is None:
        want = [["en", []]] if i18n else []
    rec.true(same(got, want), "the content of the file", got=got, want=want,
             out=out)
