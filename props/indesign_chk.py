import io
import os
import re
import sys
import unicodedata
import zipfile
from xml.etree import ElementTree as ET
try:
    import ucf  # noqa
except ImportError:
    sys.path.append(os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                 "stand_in"))
from openformats.formats.indesign import InDesignHandler
from .common_chk import clone, placeholder

HEAD = '<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\n'
KEEP = re.compile(r"<(\?ACE \d+\?|Br/)>")
ENTITY = re.compile(r"&(lt|gt|amp|apos|quot|#\d+|#x[0-9a-fA-F]+);")


def escape(text):
    out, i = "", 0
    while i < len(text):
        m = KEEP.match(text, i) or ENTITY.match(text, i)
        if m:
            out += m.group()
            i = m.end()
        else:
            out += {"&": "&amp;", "<": "&lt;"}.get(text[i], text[i])
            i += 1
    return out.replace("]]>", "]]&gt;")


def translatable(text):
    bare = re.sub(r"<\?ACE \d+\?>|<Br/>;", "", text).strip()
    if not any(unicodedata.category(c)[0] in "LPS" for c in bare):
        return False
    try:
        float(text.strip())
    except ValueError:
        return True
    return False


def render(items, nl, bom, text):
    """The story; text(i, raw) is what stands for the i-th content."""
    out = ""
    for i, item in enumerate(items):
        if len(item) == 4:
            out += item[1] + item[3]
        else:
            a, raw, b, tail = item[:4]
            # blanks at the ends of the text belong to the blanks around it
            core = raw.strip()
            at = raw.find(core)
            a, b = a + raw[:at], raw[at + len(core):] + b
            out += "<Content>" + a + text(i, core) + b + "</Content>" + tail
    return ("\ufeff" if bom else "") + (
        HEAD + "<Story>\n" + out + "</Story>\n").replace("\n", nl)


def pack(case, stories):
    designmap = '<?xml version="1.0"?>\n<Document%s DOMVersion="8.0"/>' % (
        ' StoryList="%s"' % case["gap"].join(case["listed"])
        if case["storylist"] else "")
    files = list(stories) + [("designmap.xml", designmap), (
        "Spreads/Spread_u1.xml", "<Spread><Content>word</Content></Spread>")]
    files = [files[i] for i in case["order"]]
    buf = io.BytesIO()
    with zipfile.ZipFile(buf, "w") as z:
        z.writestr("mimetype", "application/vnd.adobe.indesign-idml-package")
        for name, text in files:
            z.writestr(name, text.encode("utf-8"))
        if case["meta"]:
            z.writestr("META-INF/container.xml", "<Content>word</Content>")
    return buf.getvalue()


def unpack(data):
    with zipfile.ZipFile(io.BytesIO(data)) as z:
        return {n: z.read(n).decode("utf-8") for n in z.namelist()}


def check(case, rec):
    files = case["files"]
    names = [f[0] for f in files]
    raw = [(n, render(items, nl, bom, lambda i, t: t))
           for n, items, nl, bom in files]
    data = pack(case, raw)
    rec.show("\n".join("%s:\n%s" % r for r in raw))
    listed = ["Stories/Story_%s.xml" % i for i in case["listed"]] \
        if case["storylist"] else []
    rest = [n for n in names if n not in listed]
    first = [n for n in listed if n in names]
    rec.label("stories:%d" % len(files), "unlisted:%d" % len(rest))

    def texts(name):
        items = files[names.index(name)][1]
        return [(name, i, x[1].strip()) for i, x in enumerate(items)
                if len(x) == 5 and translatable(x[1].strip())]

    want = [t for n in first for t in texts(n)]
    tail = {n: texts(n) for n in rest}
    total = len(want) + sum(len(v) for v in tail.values())
    rec.nt(total >= 2)

    h = InDesignHandler()
    if case["twice"]:
        h.parse(data)
    template, strings = h.parse(data)
    strings = list(strings)
    rec.eq(len(strings), total, "one string per text of a story")
    rec.eq([s.string for s in strings[:len(want)]],
           [t for _, _, t in want], "the texts in the order of the stories")
    rec.eq([(s.key, s.order) for s in strings],
           [(str(i), i) for i in range(total)], "keys and order count them")
    # the order of stories that are not listed is the handler's
    tpl = unpack(template)
    at = len(want)
    rest = sorted([n for n in rest if tail[n]], key=lambda n: min(
        [int(s.key) for s in strings if s.template_replacement in tpl[n]]
        or [total]))
    for n in rest:
        want += tail[n]
    rec.eq([s.string for s in strings[at:]], [t for _, _, t in want[at:]],
           "the texts of stories that the design map does not list follow")
    index = {(n, i): k for k, (n, i, _) in enumerate(want)}

    def expect(text):
        out = {n: t for n, t in unpack(data).items()}
        for n, items, nl, bom in files:
            out[n] = render(items, nl, bom, lambda i, t: text(
                index[n, i]) if (n, i) in index else t)
        return out

    rec.eq(tpl, expect(lambda k: placeholder(str(k))),
           "the template is the document with each text replaced")
    out = InDesignHandler().compile(template, [clone(s) for s in strings])
    rec.eq(unpack(out), unpack(data),
           "compiling with the extracted strings restores every file")
    trans = case["trans"]
    given = [clone(s, t) for s, t in zip(strings, trans) if t is not None]
    out = unpack(InDesignHandler().compile(template, given))

    def text(k):
        return "" if trans[k] is None else escape(trans[k])
    wanted = expect(text)
    for n in out:
        # translations keep their own line ends or take those of the file
        rec.eq(out[n].replace("\r\n", "\n"), wanted[n].replace("\r\n", "\n"),
               "compiling replaces exactly the texts")
        if n in names:
            try:
                ET.fromstring(out[n].lstrip("\ufeff").encode("utf-8"))
            except ET.ParseError as e:
                rec.fail("%s: the compiled story is not XML:\n%s" % (
                    e, out[n]))
    rec.eq(sorted(out), sorted(wanted), "the files of the archive")
