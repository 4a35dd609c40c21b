import re

from openformats.exceptions import ParseError
from openformats.formats.android import AndroidHandler
from openformats.formats.android_unescaped import AndroidUnescapedHandler
from openformats.formats.customizable_xml import CustomizableXMLHandler
from openformats.formats.json import (
    ArbHandler, ChromeI18nHandler, ChromeI18nHandlerV3, JsonHandler,
    StructuredJsonHandler)
from openformats.formats.plaintext import PlaintextHandler
from openformats.formats.po import PoHandler
from openformats.formats.srt import SrtHandler
from openformats.formats.stringsdict import StringsDictHandler
from openformats.formats.vtt import VttHandler
from openformats.formats.yaml import I18nYamlHandler, YamlHandler
from .mdany_chk import KINDS
from .common_chk import clone, uniform, describe

HANDLERS = {
    "plaintext": PlaintextHandler, "srt": SrtHandler, "vtt": VttHandler,
    "json": JsonHandler, "arb": ArbHandler, "structured": StructuredJsonHandler,
    "chrome": ChromeI18nHandler, "chrome3": ChromeI18nHandlerV3,
    "android": AndroidHandler, "unescaped": AndroidUnescapedHandler,
    "po": PoHandler, "yaml": YamlHandler, "i18n": I18nYamlHandler,
    "stringsdict": StringsDictHandler, "customxml": CustomizableXMLHandler,
    "md1": KINDS["v1"], "md2": KINDS["v2"], "jsx": KINDS["jsx"]}
EXACT = ("plaintext", "srt", "vtt", "json", "arb", "structured", "chrome", "chrome3",
         "android", "unescaped", "customxml")
LINE_END = re.compile("\r+\n|[\r\n]")
PLURALS = re.compile("<plurals.*?</plurals", re.S)
YAML = ("yaml", "i18n", "md2", "jsx")
# line ends of YAML only, and block scalars that begin on a line of their own
ODD_YAML = re.compile("[\x85\u2028\u2029]|^[ \t]*[|>]", re.M)
SPACED = ("android", "unescaped")


def facts(s, kind):
    got = describe(s)
    if kind in YAML:
        del got["flags"]        # the style of a scalar, which may have to change
    return got


def check(case, rec):
    kind = case["format"]
    doc = uniform(case["doc"], case["nl"])
    rec.show("%s\n%s" % (kind, doc))

    def make():
        handler = HANDLERS[kind]()
        if kind == "i18n":
            handler.set_plural_rules([1, 5])
        return handler

    try:
        template, strings = make().parse(doc)
        strings = list(strings)
    except ParseError as e:
        rec.label(kind + " refused")
        rec.nt()
        rec.true(str(e).strip(), "an error has a message")
        return
    rec.label(kind + " accepted")
    rec.nt(bool(strings))
    hashes = [s.template_replacement for s in strings]
    if kind not in ("vtt", "customxml"):    # their keys are those of the file
        rec.eq(len(set(hashes)), len(hashes), "all strings are distinct",
               keys=[(s.key, s.context) for s in strings])
    out = make().compile(template, [clone(s) for s in strings])
    ends = set(LINE_END.findall(doc))
    if len(ends) > 1 or ends - {"\n", "\r\n"}:
        rec.label("mixed line ends")    # they become those of the first line
        return
    if kind in YAML and ODD_YAML.search(doc):
        rec.label("odd YAML")
        return
    if kind in EXACT:
        if kind in SPACED:      # the items of plurals are written again
            rec.eq(PLURALS.sub("", out), PLURALS.sub("", doc), "compiling what was parsed")
        elif any(s.pluralized for s in strings):    # or their spaces (ICU)
            rec.eq("".join(out.split()), "".join(doc.split()), "compiling what was parsed")
        else:
            rec.eq(out, doc, "compiling what was parsed")
    again = list(make().parse(out)[1])
    rec.eq([facts(s, kind) for s in again], [facts(s, kind) for s in strings],
           "the strings of the compiled file", out=out)
