from hypothesis import strategies as st
from .common_gen import pick, prob, coded
from . import xml_gen as X
from .android_gen import document, distinct

FREE = tuple(p for p in X.PLAIN if "'" not in p and '"' not in p)
CLEAN = coded(FREE * 2 + X.ENT + X.TAGS + X.SPACE + (
    "\\'", "\\\"", "it\\'s", "<!-- c -->", "<![CDATA[<p>]]>"), 1, 5).map(
        lambda s: s if s.strip() else s + "w")
BARE = coded(FREE + X.TAGS + ("'", '"', "it's", "<q a='1'/>", "\\", "<!-- ' -->",
                              "<![CDATA[\"]]>"), 1, 5).map(
        lambda s: s if s.strip() else s + "w")
SOME = st.one_of(CLEAN, CLEAN, BARE)


@st.composite
def strategy(draw):
    case = document(draw, 5, CLEAN if draw(prob(1, 2)) else SOME)
    case["items"] = distinct(case["items"])
    return case
