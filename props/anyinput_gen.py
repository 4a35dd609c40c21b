"""Arbitrary and damaged input for all of the text formats."""
from hypothesis import strategies as st
from .common_gen import pick, prob, coded, frag, WIDE

XML = ("<", ">", "</", "/>", "<!--", "-->", "&", "&amp;", "&x;", "&#10;", "<![CDATA[",
       "]]>", "<?x?>", "<!DOCTYPE a>", " name=\"b\"", " name='b'", "\"", "'", "<b>",
       "</b>", "=", " a=\"1\" a=\"2\"", "<b/>", "\\'", "\\", "@string/x")
ANDROID = XML + ("<resources>", "</resources>", "<string name=\"n\">", "</string>",
                 "<string name=\"n\">x</string>", "<plurals name=\"p\">", "</plurals>",
                 "<item quantity=\"other\">", "<item quantity=\"one\">x</item>",
                 "<item quantity=\"x\">", "</item>", "<item>", "<item/>",
                 "<string-array name=\"a\">", "</string-array>",
                 " translatable=\"false\"", " product=\"t\"", " quantity=\"one\"")
SDICT = XML + ("<key>", "</key>", "<key/>", "<dict>", "</dict>", "<dict/>",
               "<string>", "</string>", "<string/>", "<key>one</key>",
               "<key>other</key>", "<string>x</string>", "<key>k</key><dict>",
               "NSStringLocalizedFormatKey", "NSStringFormatSpecTypeKey",
               "%#@v@", "%#@w@", "%d", "<plist>", "</plist>", "<array/>")
CXML = XML + ("<section name=\"s\">", "</section>", "<string key=\"k\">", "<strings>",
              "</strings>", "</string>", "<base>", "</base>", "<variant context=\"c\">",
              "</variant>", " name=\"s\"", " key=\"k\"", " context=\"c\"")
JSON = ("{", "}", "[", "]", ":", ",", "\"", "\\", "\\\"", "\\u00e9", "\\ud83d", "1", "1.5e3", "-",
        "true", "null", "\"a\"", "\"a\":", "\"a\": \"b\"", "{}", "[]", "\"\"", " ", "\n",
        "\"a.b\"", "\"a\\\\.b\"", "\"..0..\"", "NaN", "//", "\t",
        "\"string\":", "\"context\":", "\"developer_comment\":", "\"character_limit\":",
        "\"message\":", "\"description\":", "\"@a\":", "\"@@locale\"", "\"placeholders\":",
        "{ n, plural, one {x} other {y} }", "{n, plural,", "plural", "other {x}", "{", "}}",
        "\"{ n, plural, other {x} }\"")
YAML = (":", ": ", "- ", "-", "\n", "\n  ", "\n    ", "  ", "#", " # c", "'", "\"", "|", ">",
        "|-\n", ">+2\n", "[", "]", "{", "}", ",", "&a ", "*a", "!t ", "!!str ", "<<", "<<: *a",
        "? ", "%YAML 1.1", "---", "...", "\t", "a: b", "one: x", "other: y", "null", "~",
        "1", "true", "\\", "\\n", "@", "`", "en:", "key: |\n")
SUB = ("\n", "\n\n", "\n\n\n", "-->", " --> ", "1", "2", "00:00:01,000", "00:00:01.000",
       "01:02", "00:00:01,000 --> 00:00:02,000", "00:01.000 --> 00:02.000", "WEBVTT", "NOTE",
       "STYLE", "REGION", "<v Bob>", "</v>", ",", ".", ":", "-", " align:start", "x", "\t")
PO = ("msgid", "msgstr", "msgctxt", "msgid_plural", "msgstr[0]", "msgstr[1]", "msgstr[2]",
      "\"", "\"a\"", "\"\"", "\n", "\n\n", "#", "#.", "#:", "#,", "#~", "#|", " fuzzy", "\\n",
      "\\", "\\\"", "msgid \"a\"\nmsgstr \"b\"\n", "[", "]", "#, fuzzy\n", "#~ msgid \"o\"\n",
      "Plural-Forms: nplurals=2; plural=(n != 1);\\n", "Content-Type: text/plain; charset=x\\n",
      " ", "\t")
MD = ("\n", "\n\n", "# ", "* ", "- ", "1. ", "> ", "```", "~~~", "    ", "\t", "---\n", "---",
      "===", "| ", " | ", "|-|-|\n", "[a](b)", "[a]: b", "![", "](", "<div>", "</div>", "<br>",
      "<!--", "-->", "**", "__", "`", "\\", "import x from 'y'\n", "export ", "{", "}", "<A b={1}/>",
      "[^1]: x", "a: b\n", "  \n", "\r", "<", ">", "http://a.b", "&amp;")
TEXT = ("\n", "\r\n", "\r", "\n\n", " ", "\t", "a", "\x0b", "\x0c")

SEEDS = {
    "plaintext": ["a\nb\n\nc", " x \n"],
    "srt": ["1\n00:00:01,000 --> 00:00:02,000\nHello\n\n2\n00:00:03,000 --> "
            "00:00:04,500\nTwo\nlines\n"],
    "vtt": ["WEBVTT\n\n00:01.000 --> 00:02.000\nHello\n\nNOTE x\n\nid\n01:00:03.000 --> "
            "01:00:04.500 align:start\nTwo\nlines\n"],
    "json": ['{"a": "b",\n"c": {"d": "e",\n "f.g": ["h", {"i": "j"},\n 1, null]}}',
             '{"a": "b",\n"c": "d",\n"e": {\n"c": "d",\n"f": "g"}\n}',
             '{"n": "{ n, plural, one {x} other {y} }", "t": true}', '{}', '[]'],
    "arb": ['{"@@locale": "en",\n"a": "b",\n "@a": {"description": "c", "placeholders": '
            '{"n": {}}}, "p": "{n, plural, one {x} other {y}}"}'],
    "structured": ['{"x": {"string": "b",\n"context": "c",\n"string": "y"},\n"a": '
                   '{"string": "b",\n"context": "c",\n"developer_comment": "d", '
                   '"character_limit": 10}, "e": {"f": {"string": "{ n, plural, one {x} '
                   'other {y} }"}}}'],
    "chrome": ['{"a": {"message": "b",\n"description": "c",\n"placeholders": {"n": '
               '{"content": "$1"}}}, "d": {"message": "e"}}'],
    "android": ['<resources>\n  <!-- c -->\n  <string name="a">b</string>\n  <string-array '
                'name="c"><item>d</item><item>e</item></string-array>\n  <plurals name="f">\n'
                '<item quantity="one">g</item><item quantity="other">h</item></plurals>\n'
                '</resources>\n',
                '<?xml version="1.0" encoding="utf-8"?>\n<resources>\n<string name="a" '
                'product="x">b <b>c</b> \\\'d</string>\n<dimen name="x">1</dimen></resources>'],
    "po": ['msgid ""\nmsgstr ""\n"Content-Type: text/plain; charset=UTF-8\\n"\n'
           '"Plural-Forms: nplurals=2; plural=(n != 1);\\n"\n\n#. c\n#: a.c:1\nmsgctxt "x"\n'
           'msgid "a"\nmsgstr ""\n\nmsgid "b"\nmsgid_plural "c"\nmsgstr[0] ""\nmsgstr[1] ""\n'],
    "yaml": ['a: b\nc:\n  d: "e"\n  f:\n    - g\n    - h: i\n', 'a: |\n  b\n  c\nd: [e, {f: g}]\n'
             'h: &x\n  i: j\nk:\n  <<: *x\n'],
    "i18n": ['en:\n  a: b\n  n:\n    one: x\n    other: y\n'],
    "stringsdict": ['<?xml version="1.0" encoding="UTF-8"?>\n<plist version="1.0">\n<dict>\n'
                    '<key>k</key>\n<dict>\n<key>NSStringLocalizedFormatKey</key>\n'
                    '<string>%#@v@</string>\n<key>v</key>\n<dict>\n'
                    '<key>NSStringFormatSpecTypeKey</key>\n<string>NSStringPluralRuleType'
                    '</string>\n<key>NSStringFormatValueTypeKey</key>\n<string>d</string>\n'
                    '<key>one</key>\n<string>a</string>\n<key>other</key>\n<string>b</string>\n'
                    '</dict>\n</dict>\n</dict>\n</plist>\n'],
    "customxml": ['<strings>\n<section name="s">\n<string key="k">\n<base>a</base>\n<variant '
                  'context="c">b</variant>\n</string>\n<string key="l"><base>d</base>'
                  '</string></section>\n</strings>\n'],
    "md": ["# T\n\nA *b*\nc\n\n* d\n* e\n\n| a | b |\n|---|---|\n| c | d |\n\n```\nx\n```\n",
           "---\na: b\nc:\n  - d\n---\n\n> q\n\n1. x\n\n[l]: http://a.b\n\n<div>\nh\n</div>\n"],
}
TOKENS = {"plaintext": TEXT, "srt": SUB, "vtt": SUB, "json": JSON, "arb": JSON,
          "structured": JSON, "chrome": JSON, "android": ANDROID, "po": PO, "yaml": YAML,
          "i18n": YAML, "stringsdict": SDICT, "customxml": CXML, "md": MD}
KINDS = {"md": ("md1", "md2", "jsx"), "chrome": ("chrome", "chrome3"),
         "android": ("android", "unescaped")}
FORMATS = sorted(SEEDS)
CODED = {f: coded(TOKENS[f] * 3 + tuple(frag()) + tuple(WIDE[:20]), 1, 3) for f in FORMATS}
FREE = {f: coded(TOKENS[f] * 3 + tuple(frag()) + tuple(WIDE[:20]), 0, 12) for f in FORMATS}
GENTLE = coded(tuple("abexyz0159 .,;-_") + tuple(frag()), 1, 3)
AT = st.integers(0, 999)


def document(draw, f):
    """A document of a format, seldom as it should be."""
    if draw(prob(1, 6)):
        doc = draw(FREE[f])
    else:
        doc = draw(pick(*SEEDS[f]))
        gentle = draw(prob(1, 2))
        for _ in range(draw(pick(1, 2, 1, 3, 4))):
            if gentle:
                op = draw(pick("insert", "lines", "lines", "swap", "drop"))
            else:
                op = draw(pick("insert", "insert", "delete", "replace", "copy", "cut"))
            a = draw(AT) * (len(doc) + 1) // 1000
            b = min(len(doc), a + draw(pick(1, 1, 2, 3, 5, 8, 20, 60)))
            if op in ("lines", "swap", "drop"):
                lines = doc.split("\n")
                i, j = [draw(AT) * len(lines) // 1000 for _ in "ab"]
                if op == "drop":
                    del lines[i]
                elif op == "swap":
                    lines[i], lines[j] = lines[j], lines[i]
                else:
                    lines.insert(j, lines[i])
                doc = "\n".join(lines)
            elif op in ("insert", "replace"):
                new = draw(GENTLE if gentle else CODED[f])
                doc = doc[:a] + new + doc[b if op == "replace" else a:]
            elif op == "delete":
                doc = doc[:a] + doc[b:]
            elif op == "copy":
                c = draw(AT) * (len(doc) + 1) // 1000
                doc = doc[:c] + doc[a:b] + doc[c:]
            else:
                doc = doc[:a]
    return doc


@st.composite
def strategy(draw):
    f = draw(pick(*FORMATS))
    doc = document(draw, f)
    return {"format": draw(pick(*KINDS.get(f, (f,)))), "doc": doc,
            "nl": draw(pick("\n", "\n", "\n", "\r\n"))}
