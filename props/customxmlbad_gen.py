from hypothesis import strategies as st
from .common_gen import pick
from .customxml_gen import document

# {r} root, {s} section, {i} section id, {t} string, {k} its key, {b} base,
# {v} variant, {c} its context, {m} more attributes
MORE = pick("", "", " z='1'", " z='1' q-1=\"2\"", " aa='' z='3' lang='x'")
BAD = pick(
    ["no section id", "<{s}{m}><{t} {k}='x'><{b}>y</{b}></{t}></{s}>"],
    ["no section id", "<{s} z{i}='a'{m}><{t} {k}='x'><{v} {c}='1'>y</{v}></{t}></{s}>"],
    ["no string key", "<{s} {i}='a'><{t}{m}><{b}>y</{b}></{t}></{s}>"],
    ["no string key", "<{s} {i}='a'><{t} z{k}='x'{m}><{v} {c}='1'>y</{v}></{t}></{s}>"],
    ["no context", "<{s} {i}='a'><{t} {k}='x'><{b}>y</{b}><{v}{m}>y</{v}></{t}></{s}>"],
    ["no context", "<{s} {i}='a'><{t} {k}='x'><{v} z{c}='1'{m}>é</{v}></{t}></{s}>"],
    ["not closed", "<{s} {i}='a'>"],
    ["not closed", "<{s} {i}='a'><{t} {k}='x'><{b}>y</{t}></{s}>"],
    ["not closed", "<{s} {i}='a'><{t} {k}='x'><{b}>y</{b}>"],
    ["not closed", "<{s} {i}='a'></{t}>"],
    ["not closed", "<{s} {i}='a'><{t} {k}='x'><{b}>y</{b}x></{t}></{s}>"],
    ["no root", ""], ["cut", ""], ["cut", ""])


@st.composite
def strategy(draw):
    case = document(draw)
    case["bad"] = draw(BAD)
    case["more"] = draw(MORE)
    case["at"] = draw(st.integers(0, 3))
    case["cut"] = draw(st.integers(0, 500))
    return case
