from hypothesis import strategies as st
from .common_gen import visible, newline, prob, pick
from . import srt_gen, vtt_gen

SRT = srt_gen.strategy()
VTT = vtt_gen.strategy()
SRT_FAULTS = ["none", "order_text", "order_zero", "order_negative",
              "order_repeat", "order_descend", "order_missing",
              "timings_missing", "text_missing", "no_arrow", "bad_arrow",
              "start_letters", "end_letters", "start_short", "end_short",
              "start_long", "end_missing", "order_float",
              "start_dot", "end_dot"]
VTT_FAULTS = ["none", "no_magic", "no_cues", "bad_arrow", "start_letters",
              "end_letters", "start_short", "end_short", "end_missing",
              "start_long", "late_magic", "start_comma", "end_comma"]


@st.composite
def strategy(draw):
    if draw(prob(1, 3)):
        case = draw(VTT)
        case["fmt"] = "vtt"
        case["fault"] = draw(pick(*VTT_FAULTS))
    else:
        case = draw(SRT)
        case["fmt"] = "srt"
        case["fault"] = draw(pick(*SRT_FAULTS))
    case["at"] = draw(st.integers(0, 5))
    return case
