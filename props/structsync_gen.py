from hypothesis import strategies as st
from .common_gen import prob, pick, uniq
from .structjson_gen import DOC, NEW, NEWLIMIT, trans
from .jsonsync_gen import NEWKEY
from .json_gen import RAW


@st.composite
def strategy(draw):
    case = draw(DOC)
    case["keep"] = [draw(prob(2, 3)) for _ in range(6)]
    if draw(prob(1, 6)):
        case["keep"] = [True]
    case["trans"] = draw(trans(4))
    case["new"] = [{"k": k, "t": draw(RAW), "meta": {
        "context": draw(NEW), "developer_comment": draw(NEW),
        "character_limit": draw(NEWLIMIT)}} for k in uniq(
            [draw(NEWKEY) for _ in range(draw(pick(1, 0, 2, 0)))])]
    return case
