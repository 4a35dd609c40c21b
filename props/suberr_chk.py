import re
from openformats.exceptions import ParseError
from openformats.formats.srt import SrtHandler
from openformats.formats.vtt import VttHandler
from .common_chk import uniform
from . import srt_chk, vtt_chk


def srt(case, rec):
    cues, fault = case["cues"], case["fault"]
    at = case["at"] % len(cues)
    if fault in ("order_repeat", "order_descend") and at == 0:
        if len(cues) < 2:
            fault = "order_zero"
        else:
            at = 1
    out, line = [case["lead"]], None
    for i, c in enumerate(cues):
        num, tim = srt_chk.head(c).split("\n")[:2]
        text = srt_chk.body(c)
        off = 0
        if i == at:
            prev = cues[i - 1]["order"] if i else 0
            st_, en = srt_chk.clock(c["start"]), srt_chk.clock(c["end"])
            if fault == "order_text":
                num = "one"
            elif fault == "order_float":
                num = "1.5"
            elif fault == "order_zero":
                num = "0"
            elif fault == "order_negative":
                num = "-%d" % c["order"]
            elif fault == "order_repeat":
                num = str(prev)
            elif fault == "order_descend":
                num = str(max(prev - 1, 1))
            elif fault == "no_arrow":
                tim, off = st_ + " " + en, 1
            elif fault == "bad_arrow":
                tim, off = "%s ---> %s" % (st_, en), 1
            elif fault == "start_letters":
                tim, off = "00:fas28,797 --> " + en, 1
            elif fault == "start_dot":
                tim, off = "00:00:01.5 --> " + en, 1
            elif fault == "end_dot":
                tim, off = st_ + " --> 100:00:01.500", 1
            elif fault == "end_letters":
                tim, off = st_ + " --> 00:ois30,297", 1
            elif fault == "start_short":
                tim, off = "01:02,500 --> " + en, 1
            elif fault == "end_short":
                tim, off = st_ + " --> 12,345", 1
            elif fault == "start_long":
                tim, off = "1:2:3:4,500 --> " + en, 1
            elif fault == "end_missing":
                tim, off = st_ + " -->", 1
        sofar = "".join(out)
        if i == at:
            line = sofar.count("\n") + 1 + off
        if i == at and fault == "order_missing":
            out.append(tim + "\n" + text.split("\n")[0])
        elif i == at and fault == "timings_missing":
            out.append(num + "\n" + text.split("\n")[0])
        elif i == at and fault == "text_missing":
            out.append(num + "\n" + tim)
        else:
            out.append(num + "\n" + tim + "\n" + text + c["tail"])
        if i < len(cues) - 1:
            out.append("\n\n" + c["gap"])
    out.append(case["end"])
    doc = uniform("".join(out), case["nl"])
    rec.show(doc)
    rec.label("srt:" + fault, "at:%d" % min(at, 2))
    if fault == "none":
        rec.eq(len(list(SrtHandler().parse(doc)[1])), len(cues), "accepted")
        return
    rec.nt()
    e = rec.raises(ParseError, lambda: SrtHandler().parse(doc),
                   "malformed SRT (%s) must be rejected" % fault)
    rec.eq([int(n) for n in re.findall(r"\bline (\d+)", str(e))][:1], [line],
           "the error names the line at fault (%s)" % fault, message=str(e))


def vtt(case, rec):
    fault = case["fault"]
    cues = [b for b in case["blocks"] if b["k"] == "cue"]
    if fault == "no_cues":
        case["blocks"] = [b for b in case["blocks"] if b["k"] != "cue"]
    elif fault not in ("none", "no_magic", "late_magic"):
        b = cues[case["at"] % len(cues)]
        s, e = vtt_chk.clock(b["start"]), vtt_chk.clock(b["end"])
        line = {"bad_arrow": s + " ---> " + e,
                "start_letters": "00:fas28.797 --> " + e,
                "start_comma": "00:28,797 --> " + e,
                "end_comma": s + " --> 00:01:28,797",
                "end_letters": s + " --> 00:ois30.297",
                "start_short": "28.797 --> " + e,
                "end_short": s + " --> 30",
                "start_long": "1:2:3:4.500 --> " + e,
                "end_missing": s + " -->"}[fault]
        b["bad"] = line
    orig = vtt_chk.timing
    doc = None
    try:
        vtt_chk.timing = lambda b: b.get("bad") or orig(b)
        doc = vtt_chk.render(case, [vtt_chk.body(b).rstrip() for b in cues])
    finally:
        vtt_chk.timing = orig
    if fault == "no_magic":
        doc = doc.split("\n\n", 1)[1]
    elif fault == "late_magic":
        doc = ("x", "\n", " ", "\n\n", "web", "\t")[case["at"]] + doc
    doc = uniform(doc, case["nl"])
    rec.show(doc)
    rec.label("vtt:" + fault)
    if fault == "none":
        rec.eq(len(list(VttHandler().parse(doc)[1])), len(cues), "accepted")
        return
    rec.nt()
    rec.raises(ParseError, lambda: VttHandler().parse(doc),
               "malformed VTT (%s) must be rejected" % fault)


def check(case, rec):
    (srt if case["fmt"] == "srt" else vtt)(case, rec)
