from openformats.transcribers import Transcriber
from openformats.utils.newlines import find_newline_type, force_newline_type


class Model(object):
    """Flat list of live chunks, section starts and section ends."""

    def __init__(self, src):
        i = src.find("\n")
        self.dos = i > 0 and src[i - 1] == "\r"
        self.src = src.replace("\r\n", "\n") if self.dos else src
        self.ptr, self.seen, self.items = 0, 0, []

    def take(self, end, keep):
        chunk = self.src[self.ptr:end]
        self.seen += chunk.count("\n")
        self.ptr = end
        if keep:
            self.items.append(("t", chunk))

    def remove(self, place):
        starts = [i for i, it in enumerate(self.items) if it[0] == "s"]
        a = starts[-1 - place]
        b = next((i for i in range(a, len(self.items))
                  if self.items[i][0] == "e"), len(self.items) - 1)
        # what a removal takes away is no longer there for later removals
        del self.items[a:b + 1]

    def out(self, kind=None):
        t = "".join(it[1] for it in self.items if it[0] == "t")
        if kind == "DOS" or kind is None and self.dos:
            t = t.replace("\r\n", "\n").replace("\n", "\r\n")
        return t


def check(case, rec):
    # a long first line, now and then
    src = "x" * case["lead"] + case["src"]
    if case["lead"]:
        rec.label("long line")
    rec.show(repr(src[-200:]) + " %d " % case["lead"] + repr(case["ops"]))
    t, m = Transcriber(src), Model(src)
    rec.eq(t.source, m.src, "the working copy of the source has LF newlines "
           "when the source is CRLF, and is the source otherwise")
    rec.eq(t.newline_type, "DOS" if m.dos else "UNIX", "newline type")
    rec.eq(find_newline_type(src.encode("utf-8")),
           find_newline_type(src), "bytes and text have the same newline type")
    for kind in ("DOS", "UNIX"):
        rec.eq(force_newline_type(src.encode("utf-8"), kind).decode("utf-8"),
               force_newline_type(src, kind), "same conversion for bytes")
    rec.label("dos" if m.dos else "unix")
    removed = moved = 0
    for op in case["ops"]:
        k = op[0]
        left = len(m.src) - m.ptr
        if k in ("copy", "skip"):
            n = min(op[1], left)
            getattr(t, k)(n)
            m.take(m.ptr + n, k == "copy")
            moved += n
        elif k in ("copy_until", "skip_until"):
            end = m.ptr + min(op[1], left)
            getattr(t, k)(end)
            moved += end - m.ptr
            m.take(end, k == "copy_until")
        elif k == "copy_to_end":
            t.copy_to_end()
            m.take(len(m.src), True)
        elif k == "burst":
            for _ in range(op[1]):
                t.add("z")
                m.items.append(("t", "z"))
        elif k == "add":
            t.add(op[1])
            m.items.append(("t", op[1]))
        elif k == "start":
            t.mark_section_start()
            m.items.append(("s",))
        elif k == "end":
            t.mark_section_end()
            m.items.append(("e",))
        else:
            starts = sum(1 for it in m.items if it[0] == "s")
            if starts <= op[1]:
                continue
            t.remove_section(op[1]) if op[1] else t.remove_section()
            m.remove(op[1])
            removed += 1
            rec.label("remove:%d" % op[1])
        rec.eq(t.ptr, m.ptr, "pointer after " + k)
        rec.eq(t.line_number, m.seen + 1, "line number after " + k)
        rec.eq(t.get_destination(), m.out(), "destination after " + k)
        rec.eq(t.get_destination(enforce_newline_type="UNIX"), m.out("UNIX"),
               "destination with LF enforced after " + k)
        rec.eq(t.get_destination(enforce_newline_type="DOS"), m.out("DOS"),
               "destination with CRLF enforced after " + k)
    rec.nt(removed and moved)
