"""The properties: text for properties.jsonl and MANIFEST.json, and the rule
each evidence file quotes.  tools/build_meta.py writes the files."""

CATALOG = {}
TRUST = ("Trusted: Hypothesis, the harness's worker protocol, and the "
         "generator's own rendering of the model it draws. ")


def P(id, title, statement, text, why, files, mechanism, rule, technique,
      note="", over=("inputs",), assumptions=(), observe=()):
    CATALOG[id] = dict(
        id=id, title=title, statement=statement, over=list(over), text=text,
        why=why, files=list(files),
        mechanism=[{"name": n, "where": w} for n, w in mechanism],
        rule=rule, technique=technique,
        note="Generated-input search, not a proof. " + TRUST + note,
        assumptions=list(assumptions), observe=list(observe))


P("P01", "The transcriber's output, pointer, lines and newlines match its operations",
  "For any source text and any sequence of copy, skip, add and section "
  "operations, the transcriber's destination is exactly the copied and added "
  "chunks in order minus removed sections, its pointer is the number of "
  "characters consumed and its line number is one plus the newlines consumed. "
  "A source whose first line ends in CRLF is handled internally with LF and "
  "comes out with CRLF; any other source comes out untouched, and asking for a "
  "newline type explicitly converts every newline, for bytes as for text.",
  "every source text with any mix of newlines, every sequence of operations "
  "with in-range offsets, sections nested and removed at any depth",
  "unit tests run a few fixed operation sequences; the guarantee is over all "
  "histories of operations, which every handler relies on",
  ["openformats/transcribers.py", "openformats/utils/newlines.py"],
  [("Transcriber", "openformats/transcribers.py"),
   ("find_newline_type / force_newline_type", "openformats/utils/newlines.py")],
  "A source with LF/CRLF/CR fragments and 0-12 operations; after every "
  "operation pointer, line number and destination (three newline modes) are "
  "compared with a list model. Non-trivial: at least one section was removed "
  "and at least one character consumed.",
  "model-based testing of operation histories (Hypothesis)",
  over=("histories", "inputs"))

P("P02", "A string's placeholder is fixed by its key, context and kind alone",
  "Two extracted strings get the same placeholder exactly when they have the "
  "same key, the same context and the same pluralization, whatever their texts "
  "and other attributes; the placeholder is the MD5 of key and context with a "
  "suffix telling singular from plural, and is the same every time it is asked "
  "for. Keys, texts, plural forms and attributes come back as they were given.",
  "all keys, contexts, texts, plural forms and attribute combinations",
  "the tests hash a handful of fixed strings; stability and injectivity "
  "quantify over all pairs of strings",
  ["openformats/strings.py"],
  [("OpenString.template_replacement", "openformats/strings.py")],
  "2-6 strings with colliding keys/contexts; non-trivial: at least two "
  "distinct identities.",
  "property-based testing against an independent hash model (Hypothesis)")

P("P03", "The helper for compiling in order puts every string in its place",
  "For every template and list of strings in its order, the compiler that "
  "handlers can inherit (OrderedCompilerMixin) replaces the placeholder of each "
  "string by its text. A plural becomes its forms, each in the handler's plural "
  "template with the name of its rule, in their order: on lines of their own "
  "with the same indent if the placeholder is alone in its line, or else one "
  "after the other. All else stays as it is, placeholders without a string "
  "and line ends included. Names and numbers of plural rules correspond one to "
  "one, and others are refused.",
  "every template, with placeholders anywhere, and all plural forms",
  "no test compiles plurals with it, and every such compilation failed",
  ["openformats/utils/compilers.py", "openformats/handlers.py"],
  [("OrderedCompilerMixin.compile", "openformats/utils/compilers.py"),
   ("Handler.get_rule_number / get_rule_string", "openformats/handlers.py")],
  "Random templates of 1-6 lines, with plain and plural strings alone in a line "
  "or within it; non-trivial: two or more strings, one of them a plural.",
  "model-based property testing with a sample handler (Hypothesis)",
  assumptions=["a plural alone in a last line that does not end may end it"])

P("P04", "A handler's results depend on its input alone, which it leaves as it is",
  "For every handler of a text format, parsing, compiling and syncing give the "
  "same result, or the same error, whether the handler is new or has handled "
  "any other documents before, broken ones included, and parsing a document "
  "again gives the same template and strings. The strings given to compile or "
  "sync are left unchanged, and so are templates (but PO's).",
  "all sequences of operations of one handler on any documents",
  "tests use a new handler for nearly everything they do, and do not look at "
  "their input again; state left over shows only in one file that follows "
  "another",
  ["openformats/handlers.py", "openformats/formats"],
  [("Handler.parse/compile/sync_template", "openformats/handlers.py"),
   ("every text handler", "openformats/formats")],
  "Random sequences of operations of one handler over two or three documents, "
  "whole or mutated, against a new handler for each operation; non-trivial: "
  "two or more operations and a document that parses.",
  "stateful differential testing against a fresh instance (Hypothesis)")

P("P05", "The XML scanner reports the exact positions, texts and structure of a document",
  "For any well-formed element, with attributes in either quote style and any "
  "spacing, nested elements, comments, self-closing tags and CDATA sections, "
  "the scanner the raw XML formats are built on reports its name, its "
  "attributes, text, content and tail with the exact offsets they have in the "
  "document, and its children and descendants in document order, whatever the "
  "order in which these are asked for and whichever element it is started at. "
  "Markup that is cut short or whose tags do not match is refused with its "
  "syntax error and nothing else.",
  "every well-formed element built from tags, attributes, text, comments, "
  "CDATA and self-closing elements; every prefix of one",
  "tests scan a few fixed fragments; positions have to be right for every "
  "nesting and spacing, since templates are cut at them",
  ["openformats/utils/xml.py"],
  [("NewDumbXml", "openformats/utils/xml.py")],
  "A random element tree is rendered by the model, which records every offset; "
  "each node's properties are read in a random order and compared; damaged "
  "copies must raise DumbXmlSyntaxError. Non-trivial: three elements or more.",
  "model-based structured generation (Hypothesis) against recorded offsets, "
  "plus negative (damaged) inputs")

P("P06", "Any text a parser is given is parsed or refused, never mangled",
  "Whatever text a text format is given, valid, damaged or arbitrary, parsing "
  "it either succeeds or is refused with a parse error that has a message; no "
  "other exception escapes and nothing hangs. What was parsed compiles: the "
  "strings have distinct identities (VTT and custom XML take theirs from the "
  "file), compiling them into the template gives a file with the same strings, "
  "and for plain text, SRT, VTT, the JSON formats, Android and custom XML the "
  "same file, up to the plural elements, which are written again.",
  "every text given to each of the plain text, SRT, VTT, JSON, ARB, structured "
  "JSON, Chrome, Android, PO, YAML, stringsdict, custom XML and Markdown parsers",
  "tests feed the parsers a handful of hand-made mistakes; files in the wild "
  "are damaged in every way",
  ["openformats/formats", "openformats/utils"],
  [("the parse and compile methods of all text handlers", "openformats/formats"),
   ("NewDumbXml, DumbJson, ICUParser, Transcriber", "openformats/utils")],
  "A small valid file of one of 15 formats with 1-4 edits (insertion of "
  "format-specific or harmless text, deletion, replacement, copying, cutting, "
  "moving or repeating lines), or free text of the format's tokens. "
  "Non-trivial: it was refused, or accepted with at least one string.",
  "mutation-based grammar fuzzing (Hypothesis) with a round-trip oracle",
  assumptions=["texts with mixed line ends, or with what only YAML takes for line "
               "ends, or YAML block scalars that begin on a line of their own, are "
               "only required to be parsed or "
               "refused and to compile",
               "styles of YAML scalars may change (a scalar over several lines "
               "is written in quotes)"])

P("P07", "ICU plurals: recognised, taken apart, refused and written again",
  "For every ICU message \"{variable, plural, rule {text} ...}\" the parser "
  "gives the text of every rule, in order, how the rule was written (by name "
  "or as =N), and exactly the part of the message that the forms occupy; where "
  "numeric rules are not wanted a message with one is not a plural. Any other "
  "text is not a plural. A plural with an unknown rule, the same rule twice, "
  "a rule without text or anything else between its forms is refused with "
  "an error that names the key. What the compiler writes for a set of forms "
  "reads back as these forms, and placeholders are written for the rules of "
  "any language.",
  "all messages: variables, spacing, rules, nested braces, quotes, and errors "
  "at any place",
  "tests sample a dozen messages; a form that is lost or cut short loses text "
  "silently",
  ["openformats/utils/icu.py"],
  [("ICUParser.parse", "openformats/utils/icu.py"),
   ("ICUCompiler.serialize_strings", "openformats/utils/icu.py"),
   ("ICUCompiler.serialize_placeholder_string", "openformats/utils/icu.py")],
  "Random plural messages, other texts, and one error put into a valid "
  "message; non-trivial: two or more forms.",
  "model-based and round-trip property testing (Hypothesis)")

P("P10", "Plain text: every non-blank line is a string and nothing else changes",
  "Parsing a plain text file extracts each non-blank line without its "
  "surrounding blanks, in order and each with its own placeholder, and "
  "leaves every other character in the template. Compiling the template with "
  "the extracted strings gives back the file exactly, and compiling with "
  "translations changes only the texts; newlines stay as they were.",
  "all files of blank and non-blank lines, LF or CRLF, repeated lines included",
  "tests parse a few fixed lines; the round trip quantifies over all files",
  ["openformats/formats/plaintext.py", "openformats/transcribers.py"],
  [("PlaintextHandler.parse/compile", "openformats/formats/plaintext.py")],
  "0-8 lines with surrounding blanks; non-trivial: two strings and a blank line.",
  "round-trip and model-based property testing (Hypothesis)")

P("P11", "SRT: cues survive parse and compile; untranslated cues are dropped",
  "Parsing an SRT file extracts one string per cue with its number as key and "
  "order and its timings (normalised to milliseconds) recorded; compiling with "
  "the extracted strings restores the file exactly and translations change "
  "nothing but the cue texts. Compiling with some translations missing keeps "
  "exactly the cues that have one, otherwise unchanged, down to an empty set, "
  "with the blank lines around them and the file's newlines.",
  "all SRT files with ascending cue numbers, any spacing, positions, tags and "
  "newlines, and every subset of translations",
  "tests use one or two sample files; the properties are over all files and "
  "all subsets of translated cues",
  ["openformats/formats/srt.py", "openformats/utils/compilers.py"],
  [("SrtHandler.parse/compile", "openformats/formats/srt.py")],
  "1-6 cues, padded/short timings, gaps, CRLF; non-trivial: two or more cues "
  "of which some but not all are translated.",
  "round-trip and model-based property testing (Hypothesis)")

P("P12", "VTT: cues survive parse and compile; other blocks are left alone",
  "Parsing a WebVTT file extracts one string per cue with a text, keyed by "
  "its timing line, in order, with its timings recorded; headers, notes, "
  "styles, identifiers and empty cues stay in the template. Compiling with "
  "the extracted strings restores the file exactly, translations change only "
  "the cue texts, and with translations missing exactly the cues that have "
  "one and all other blocks and blank lines remain, with the file's newlines.",
  "all WebVTT files with cues, notes, styles, identifiers, empty cues, any "
  "spacing and newlines, every subset of translations",
  "tests use a few sample files; the round trip and removal quantify over all",
  ["openformats/formats/vtt.py"],
  [("VttHandler.parse/compile", "openformats/formats/vtt.py")],
  "1-7 blocks of cues/notes/styles/regions; non-trivial: two or more cues of "
  "which some but not all are translated.",
  "round-trip and model-based property testing (Hypothesis)",
  assumptions=["removal is checked on files whose timing lines are distinct, "
               "because the timing line is the key of a cue"])

P("P13", "Malformed subtitles are refused, SRT naming the faulty line",
  "A subtitle file with a malformed cue (number not a positive ascending "
  "integer, missing part, broken arrow, malformed timing) or, for WebVTT, "
  "without the leading WEBVTT or without cues, is refused with a parse error "
  "and never parsed in part. For SRT the error names the line at fault, "
  "wherever the cue stands in the file.",
  "all single faults at any cue of any otherwise valid SRT or VTT file",
  "tests check one fault at one place each",
  ["openformats/formats/srt.py", "openformats/formats/vtt.py"],
  [("SrtHandler._parse_section / _format_timing", "openformats/formats/srt.py"),
   ("VttHandler._parse_section", "openformats/formats/vtt.py")],
  "A valid file with one injected fault (or none, which must be accepted); "
  "non-trivial: a fault was injected.",
  "fault injection into generated valid files (Hypothesis)",
  assumptions=["the line numbers of VTT errors are not checked: the existing "
               "tests pin values that do not name the line at fault"])

P("P20", "JSON scanning finds every item at its position; escaping is JSON's",
  "The position-tracking JSON scanner yields every key, value and container of "
  "any JSON document in order, with the raw text, the decoded literal and the "
  "exact offsets, from any starting offset. Escaping a text gives its JSON "
  "form, unescaping decodes like JSON and undoes escaping; a truncated "
  "document or one whose root is a scalar is refused with a parse error by "
  "every JSON handler.",
  "all JSON documents in any layout, all texts and escape sequences, all "
  "truncation points",
  "tests scan a few short documents; offsets have to be right for every layout",
  ["openformats/utils/json.py", "openformats/formats/json.py"],
  [("DumbJson", "openformats/utils/json.py"),
   ("escape / unescape", "openformats/utils/json.py")],
  "A random document with recorded offsets; non-trivial: two or more containers.",
  "differential testing against a rendering model and json (Hypothesis)")

P("P21", "Key-value JSON: extraction, exact round trip, duplicate keys refused",
  "Parsing a JSON file extracts every non-blank string in document order under "
  "a key that encodes its path unambiguously, ICU plurals as plural strings; "
  "compiling with the extracted strings restores the file exactly (plural forms "
  "in canonical spacing) and with translations changes only the texts, in any "
  "layout and newline style. A key repeated in one object is refused with an "
  "error naming the line of the repetition.",
  "all JSON documents: nested objects and lists, any keys, escapes, literals, "
  "plurals, layouts and newlines",
  "tests cover a few shapes; the round trip has to hold for every document",
  ["openformats/formats/json.py", "openformats/utils/icu.py"],
  [("JsonHandler.parse/compile", "openformats/formats/json.py"),
   ("ICUParser / ICUCompiler", "openformats/utils/icu.py")],
  "Random documents up to three levels deep; non-trivial: two or more strings.",
  "round-trip and model-based property testing (Hypothesis)",
  assumptions=["plural forms are separated by blanks or nothing"])

P("P22", "Key-value JSON: syncing a template removes and adds exactly the strings",
  "Bringing a template in line with a set of strings removes exactly the "
  "strings that are not in the set, with containers this leaves empty, and adds "
  "exactly the missing ones at the root in their order; everything else, such as "
  "numbers, empty strings and untouched containers, stays with equal content. The "
  "result, and its compilation with translations, is valid JSON; with nothing to "
  "add or remove the template is unchanged.",
  "all templates with any subset of strings kept and any new strings",
  "tests remove or add one string in a few layouts; the quantifier is over all "
  "subsets of all documents",
  ["openformats/formats/json.py", "openformats/handlers.py"],
  [("sync_template / remove_strings_from_template / add_strings_to_template",
    "openformats/formats/json.py"), ("_clean_empties", "openformats/formats/json.py")],
  "A random document, a random subset of its strings, 0-3 new strings; "
  "non-trivial: some but not all strings are removed, or some are added to a "
  "document that has strings.",
  "model-based property testing of template synchronisation (Hypothesis)")

P("P23", "ARB: strings carry their metadata, round trip and set the locale",
  "Parsing an ARB file extracts the non-blank string entries of the root, with "
  "the context and description of their metadata wherever it stands, skipping "
  "entries typed as something other than text; compiling restores the file "
  "(plural forms in canonical form), translations change only the texts, and a "
  "given language replaces the locale of the root. Repeated root keys are refused with "
  "their line, files without strings are refused, and syncing keeps the "
  "template unless sections are to be removed, when exactly the missing "
  "strings disappear from a flat file.",
  "all ARB documents with any metadata, locales, plurals (numeric ones "
  "included), nested values and layouts, every subset of strings",
  "tests use a few fixed documents",
  ["openformats/formats/json.py", "openformats/utils/icu.py"],
  [("ArbHandler.parse/compile/sync_template", "openformats/formats/json.py")],
  "Random root objects with metadata objects before or after their strings; "
  "non-trivial: two or more strings.",
  "round-trip and model-based property testing (Hypothesis)")

P("P24", "Structured JSON: extraction, round trip and metadata updates",
  "Parsing a structured JSON file extracts the text of every object that has "
  "a non-blank string, with its context, comment and character limit, and "
  "leaves lists and other values alone; compiling with the extracted strings "
  "restores the file. Compiling with changed texts or metadata gives valid "
  "JSON in which exactly these strings' texts and metadata are updated in "
  "place, or added after the other fields if absent, whatever fields "
  "surround them.",
  "all documents of nested objects with any fields in any order and layout, "
  "any new texts and metadata",
  "tests check a few layouts of one or two fields",
  ["openformats/formats/json.py"],
  [("StructuredJsonHandler.parse / compile / _compile_value",
    "openformats/formats/json.py")],
  "Random documents of string objects with up to six fields; non-trivial: a "
  "string's metadata changed.",
  "round-trip and model-based property testing (Hypothesis)",
  assumptions=["context and comment are texts or null, the limit an integer "
               "or null, as documented",
               "metadata texts are rewritten with minimal escapes"])

P("P25", "Structured JSON: syncing a template removes and adds whole entries",
  "Bringing a structured JSON template in line with a set of strings removes "
  "the objects of strings not in the set and objects left without strings, "
  "adds each missing string at the root with its metadata, and leaves every "
  "other value and kept string with equal content. The result and its "
  "compilation are valid JSON.",
  "all templates, every subset of their strings, any new strings with metadata",
  "tests remove or add single strings in fixed documents",
  ["openformats/formats/json.py"],
  [("StructuredJsonHandler.remove_strings_from_template / "
    "_build_structured_json_entry", "openformats/formats/json.py")],
  "A random document, subset and 0-2 new strings; non-trivial: some but not "
  "all strings removed, or some added.",
  "model-based property testing of template synchronisation (Hypothesis)",
  assumptions=["an object whose own string is empty holds no other strings; "
               "strings are not nested in lists of lists"])

P("P26", "Chrome JSON: messages and descriptions round trip; removal keeps JSON",
  "Parsing a Chrome i18n file (version 2 or 3) extracts exactly its messages, "
  "with their descriptions as comments, in order; compiling with the "
  "extracted strings restores the file and translations change only the "
  "messages. Version 3 removes the entries of messages without a translation "
  "and leaves valid JSON with all else equal, version 2 leaves them alone; a "
  "repeated root key is refused with its line.",
  "all documents in any layout, any subset of translations",
  "tests use fixed documents and one removal",
  ["openformats/formats/json.py"],
  [("ChromeI18nHandler", "openformats/formats/json.py"),
   ("ChromeI18nHandlerV3", "openformats/formats/json.py")],
  "Random documents of message objects; non-trivial: two or more messages.",
  "round-trip and model-based property testing (Hypothesis)",
  assumptions=["version 2 comments are checked for root keys without dots and "
               "backslashes, a limitation it documents"])

P("P30", "Android XML: the strings are extracted as written and compile back in place",
  "Parsing an Android resources file yields exactly its non-blank <string>, "
  "<string-array> item and <plurals> texts, raw as written (markup, CDATA, "
  "entities and comments inside included), in document order, keyed by name "
  "(and index), with the product as context and the comment that precedes "
  "the resource as developer comment; elements marked translatable=\"false\" "
  "and other resources are left alone. Compiling with the extracted strings "
  "gives back the file byte for byte, compiling with translations changes "
  "only the texts (plurals may have other forms than the source), and a "
  "language code is written to tools:locale.",
  "every resources file: any layout, quoting, attribute order, comments, "
  "markup in texts, newline style, declaration; any translations",
  "the tests use fixed small documents; templates are cut at offsets which "
  "any unusual spacing can shift",
  ["openformats/formats/android.py", "openformats/utils/xml.py"],
  [("AndroidHandler.parse / compile", "openformats/formats/android.py")],
  "Random resource documents rendered from a model; non-trivial: two or more "
  "strings.",
  "round-trip and model-based property testing over generated documents "
  "(Hypothesis)",
  assumptions=["plurals not laid out as the compiler writes them are compared "
               "as parsed XML instead of byte for byte"])

P("P31", "Android XML: compiling removes exactly the strings that are missing",
  "Compiling an Android template with a subset of its strings gives a "
  "well-formed file that has those strings' translations, every other "
  "element of the file (other resources, blank strings, blank array items) "
  "and none of the missing strings; arrays left without strings go, and "
  "elements marked translatable=\"false\" stay for the source language and "
  "go for a translation. Parsing the result yields the strings it was "
  "compiled with.",
  "every resources file and every subset of its strings",
  "tests remove one string from a fixed document",
  ["openformats/formats/android.py"],
  [("AndroidHandler.compile", "openformats/formats/android.py")],
  "Random documents and subsets; the output is read by ElementTree and "
  "compared with the model. Non-trivial: some but not all strings removed.",
  "differential testing against an independent XML parser (Hypothesis)")

P("P32", "Android escaping: a text comes back unescaped, and files stay well-formed",
  "For any text, escaping it for an Android file adds a backslash before "
  "every quote that is outside the tags of inline markup and before a "
  "leading @ that is no string reference, changes nothing else, and "
  "unescaping gives the text back. In the unescaped variant, escaping also "
  "encodes & < > @ ? tabs and newlines outside inline elements and CDATA "
  "sections, the result is well-formed markup, and unescaping gives the "
  "text back.",
  "texts of arbitrary characters with inline and other tags, nested or "
  "malformed markup, CDATA sections",
  "tests list some pairs; the inverse relation is over all texts",
  ["openformats/formats/android.py", "openformats/formats/android_unescaped.py",
   "openformats/utils/xml.py"],
  [("AndroidHandler.escape / unescape", "openformats/formats/android.py"),
   ("AndroidUnescapedHandler.escape / unescape",
    "openformats/formats/android_unescaped.py")],
  "Random segment trees; non-trivial: tags and quotes (plain), two kinds of "
  "segments (unescaped).",
  "round-trip property testing with a segment model and a well-formedness "
  "oracle (Hypothesis)",
  assumptions=["a text that starts with a backslash and an at-sign is outside "
               "the domain of plain round trips; the unescaped variant's texts "
               "have no backslashes, which it does not encode",
               "inline elements hold no characters that it would encode"])

P("P33", "Android XML: malformed resources are refused, naming the line",
  "A file with a resource that cannot be told apart or compiled - repeated "
  "names of one kind and product, a missing name, text outside texts, plurals "
  "with a missing, unknown or incomplete quantity, no 'other' form, no items "
  "or other tags, elements that are not closed, no resources at all - is "
  "refused with a parse error, which names the line of the offender where it "
  "names one.",
  "every resources file with one such defect at any place",
  "tests inject defects in one-element documents",
  ["openformats/formats/android.py", "openformats/utils/xmlutils.py"],
  [("AndroidHandler.parse", "openformats/formats/android.py"),
   ("XMLUtils", "openformats/utils/xmlutils.py")],
  "A valid random document with one injected defect; non-trivial: the document "
  "has other resources.",
  "negative property testing with injected faults (Hypothesis)")

P("P34", "ANDROID_UNESCAPED refuses unescaped quotes and else reads what ANDROID reads",
  "The unescaped Android handler refuses a file in which a text to extract "
  "has a quote that is neither escaped nor part of inline markup, and for any "
  "other file yields the same strings, template and compiled file as the "
  "Android handler.",
  "every resources file, with or without unescaped quotes",
  "tests check two fixed texts",
  ["openformats/formats/android_unescaped.py"],
  [("AndroidUnescapedHandler", "openformats/formats/android_unescaped.py")],
  "Random documents; non-trivial: several texts, at least one with a quote.",
  "differential property testing between two handlers (Hypothesis)")

P("P35", "BETA_ANDROID: texts extracted and written back; the rest is removed",
  "The beta Android handler extracts every text of strings, array items and "
  "plurals that is not blank and not marked as not translatable, with its "
  "name, product and the comment before it; its template is the file with "
  "placeholders in their place, and compiling writes each string given in "
  "its place, removes the elements of the others and keeps all else.",
  "every well-formed resources file, every subset of its strings and every "
  "translation",
  "tests parse and compile short snippets",
  ["openformats/formats/beta_android.py", "openformats/utils/xml.py"],
  [("BetaAndroidHandler", "openformats/formats/beta_android.py"),
   ("DumbXml", "openformats/utils/xml.py")],
  "A document model rendered with random layout; non-trivial: several texts.",
  "property-based testing against a document model (Hypothesis)",
  assumptions=["texts hold no comments; attributes are in double quotes",
          "arrays have spaces inside of them"])

P("P40", "PO: every entry is extracted with its metadata and compiles to its texts",
  "Parsing a PO file yields one string per entry, in order, keyed by its "
  "escaped msgid (and msgid_plural), with the msgctxt, flags, occurrences, "
  "comments and fuzzy mark; its text is the msgid of a template (POT), else "
  "the msgstr; a translation's empty entries and every fuzzy entry leave the "
  "template. Compiling any translations into the template, kept as an object "
  "or as text, gives a PO file with the same header, entries, order and "
  "metadata in which exactly those texts stand, plural forms included.",
  "PO and POT files with any combination of contexts, plurals, flags, "
  "comments, fuzzy and obsolete entries and texts",
  "tests use short fixed files; msgids with separators, blanks and escapes "
  "in every combination are out of their reach",
  ["openformats/formats/po.py"],
  [("PoHandler.parse / compile", "openformats/formats/po.py")],
  "Random PO files written by an independent writer; the output is read by an "
  "independent reader. Non-trivial: two or more live entries.",
  "model-based property testing with an independent PO writer and reader "
  "(Hypothesis)",
  assumptions=["texts have no characters that polib takes for line ends "
               "besides the newline",
               "an obsolete entry has no comments, which polib leaves out"])

P("P41", "PO sync: the file ends up with exactly the strings asked for",
  "After syncing a PO template with any subset of its strings and any new "
  "strings, at the end or between, and compiling, the file holds exactly the "
  "entries of these strings, in order, with their contexts, plurals, texts, "
  "flags and occurrences; kept entries keep their comments, added ones get "
  "the string's; the header stays; and the file reads back as these keys.",
  "every PO template, subset of its strings and list of new strings",
  "tests add one string to a fixed template",
  ["openformats/formats/po.py"],
  [("PoHandler.sync_template", "openformats/formats/po.py")],
  "Random templates, subsets and additions; non-trivial: something removed or "
  "added.",
  "model-based property testing with an independent PO reader (Hypothesis)",
  assumptions=["a plural string that is added has a visible msgid_plural"])

P("P42", "PO: files that cannot be told apart or compiled are refused",
  "Repeated entries of one id and context (absent and empty contexts being "
  "the same), an empty msgid, plural entries with some forms empty or with a "
  "plain msgstr, plain entries with plural forms, and source files that mix "
  "translated and untranslated entries are refused with a parse error, "
  "wherever they stand; translations may leave entries empty, blank texts go "
  "with either kind, and no other well-formed file is refused.",
  "every PO file with one such defect at any place",
  "tests inject them in files of one or two entries",
  ["openformats/formats/po.py"],
  [("PoHandler.parse", "openformats/formats/po.py")],
  "A valid random file with one defect; non-trivial: a defect planted or a "
  "near miss.",
  "negative property testing with injected faults (Hypothesis)")

P("P50", "YAML: every text is extracted with its path, style, tag and comment",
  "Parsing a YAML file yields one string per non-empty text value, in file "
  "order, and no other value: its key is the path to it (dots escaped, typed "
  "keys in angle brackets, list positions in square ones), its context the "
  "custom tag, its flags the styles on the path, its comment the comment lines "
  "right above. The template is the file with exactly these values replaced, "
  "and compiling it with the source's texts gives the same YAML content.",
  "YAML files with any nesting of block and flow mappings and lists, scalar "
  "styles, tags, anchors, aliases, comments and indentation",
  "tests compare one long file",
  ["openformats/formats/yaml/yaml.py", "openformats/formats/yaml/utils.py"],
  [("YamlHandler.parse", "openformats/formats/yaml/yaml.py"),
   ("TxYamlLoader", "openformats/formats/yaml/utils.py")],
  "Random YAML files from an independent writer that knows every value's "
  "span; non-trivial: two or more strings.",
  "model-based property testing with an independent YAML writer (Hypothesis)",
  assumptions=["keys that look like the encoding of other keys (<1> beside 1, "
               "<TX_DOT>) do not occur", "a tag stands after the anchor"])

P("P51", "YAML: any translations compile to a YAML file with exactly these texts",
  "Compiling any non-empty or empty texts into a YAML template gives a YAML "
  "file in which each of them is read back as a string in its place, with its "
  "tag, whatever its characters and the style of the source; all other "
  "values, keys, anchors and the text between the strings are unchanged.",
  "every YAML file and every assignment of texts (line breaks, edge blanks, "
  "indicators, texts that look like other types, control characters)",
  "tests compile the source's texts back, and a few for folded style",
  ["openformats/formats/yaml/yaml.py"],
  [("YamlHandler.compile / _write_styled_literal",
    "openformats/formats/yaml/yaml.py")],
  "Random files and texts; the output is read by PyYAML's event parser and "
  "compared value by value. Non-trivial: at least one string.",
  "differential property testing against a YAML parser (Hypothesis)",
  assumptions=["texts have no next-line character (U+0085) or carriage return, "
               "which PyYAML's reader normalises"])

P("P52", "Internationalization YAML: plurals are one string and compile in place",
  "In a file with one language key, a mapping that has all of the language's "
  "plural forms and only plural forms is one plural string with these texts; "
  "other mappings are not; keys leave the language out. Compiling any texts "
  "for any set of forms puts exactly these forms in its place, in block or "
  "flow style, and leaves everything else unchanged; the text of a block may "
  "gain or lose its last line ends.",
  "every YAML file with plurals at any depth, plural rules and translations",
  "tests use two plural strings with plain texts",
  ["openformats/formats/yaml/yaml_i18n.py", "openformats/formats/yaml/yaml.py",
   "openformats/formats/yaml/utils.py"],
  [("I18nYamlHandler", "openformats/formats/yaml/yaml_i18n.py")],
  "Random files, rules and texts; the output is read by PyYAML's event parser. "
  "Non-trivial: at least one plural string.",
  "model-based property testing against a YAML parser (Hypothesis)",
  assumptions=["plural forms have no tags or anchors of their own, which are "
               "not kept"])

P("P53", "YAML without template: the file has exactly the strings included",
  "Compiling any subset of the strings of a YAML file (or an "
  "internationalization YAML file, under its language key) without the "
  "template gives a YAML file with exactly these texts at their keys, in "
  "order, in mappings and lists of the same nesting that hold nothing else.",
  "every file, subset of its strings and assignment of texts",
  "tests compile all strings of one file",
  ["openformats/formats/yaml/utils.py", "openformats/formats/yaml/yaml.py",
   "openformats/formats/yaml/yaml_representers.py"],
  [("YamlGenerator", "openformats/formats/yaml/utils.py")],
  "Random files and subsets; non-trivial: some strings are left out.",
  "model-based property testing against a YAML parser (Hypothesis)",
  assumptions=["keys are texts or integers, and texts do not look like the "
               "encoding of a position or an integer",
               "the custom tag of a text inside a mapping or list may go"])

P("P54", "YAML: repeated keys and files without one language key are refused",
  "A YAML file that is malformed, has more than one document or repeats a key "
  "in any mapping is refused with a parse error, and so is an "
  "internationalization file that has no language key, several, or one "
  "without content; empty and text-less files are read as plain YAML.",
  "every YAML file with one such defect",
  "tests repeat keys in one small mapping",
  ["openformats/formats/yaml/utils.py", "openformats/formats/yaml/yaml.py",
   "openformats/formats/yaml/yaml_i18n.py"],
  [("TxYamlLoader.construct_mapping", "openformats/formats/yaml/utils.py")],
  "A random valid file with one defect; non-trivial: a defect planted or a "
  "near miss.",
  "negative property testing with injected faults (Hypothesis)")

P("P60", "stringsdict: plurals extracted with the text around, written back",
  "Parsing a stringsdict file yields one plural string per variable, in order, "
  "with the main key as key, the variable as context and all its forms; the "
  "text around the first variable of a format string is part of each form of "
  "that variable. Compiling writes every translation back under its variable, "
  "leaves out the variables without one, and keeps everything else; the "
  "format string is left with the variable alone. Parsing the result yields "
  "the same strings, and unescape undoes escape.",
  "every stringsdict file and set of translations",
  "tests compile one file and a few variations",
  ["openformats/formats/stringsdict.py", "openformats/utils/xml.py",
   "openformats/utils/xmlutils.py"],
  [("StringsDictHandler._handle_child_pairs",
    "openformats/formats/stringsdict.py"),
   ("StringsDictHandler._compile_dict", "openformats/formats/stringsdict.py")],
  "Random files with several variables per key and any order and set of "
  "rules; non-trivial: two or more strings extracted.",
  "model-based property testing against ElementTree (Hypothesis)",
  assumptions=["no comments between elements (the handler refuses them), and "
               "texts hold no nested elements"])

P("P61", "stringsdict: malformed files are refused, naming the line",
  "A stringsdict file with a repeated main key, an unknown or missing plural "
  "rule, forms of which some are empty, a key without value, a value without "
  "key, a value of the wrong kind, stray text, an unclosed tag or no <dict> "
  "is refused with a parse error, and the line it names is that of the "
  "defect.",
  "every stringsdict file with one such defect",
  "tests have one small file per error, with the defect in line 2 or so",
  ["openformats/formats/stringsdict.py", "openformats/utils/xmlutils.py"],
  [("XMLUtils.raise_error", "openformats/utils/xmlutils.py")],
  "A random valid file with one defect in a random place; non-trivial: there "
  "is other content.",
  "negative property testing with injected faults (Hypothesis)")

P("P62", "Custom XML: texts extracted under their keys, each written back",
  "Parsing a customizable XML file, under any choice of tag and attribute "
  "names, yields every base and variant text of every section in document "
  "order, with the key of its string (and ::context for a variant) and the "
  "section's id as context. Compiling puts each translation in the place of "
  "its text and changes nothing else; with the extracted texts the file is "
  "restored exactly.",
  "every file, choice of names and set of translations",
  "tests compile one file with two choices of names",
  ["openformats/formats/customizable_xml.py", "openformats/utils/xml.py"],
  [("CustomizableXMLHandler.parse", "openformats/formats/customizable_xml.py"),
   ("CustomizableXMLHandler.compile",
    "openformats/formats/customizable_xml.py")],
  "Random files, names and texts; non-trivial: two or more texts.",
  "model-based round-trip property testing (Hypothesis)",
  assumptions=["all strings are given when compiling (see the known finding "
               "on leaving some out)"])

P("P63", "Custom XML: files without root, keys or contexts are refused",
  "A customizable XML file without its root tag, with an unclosed tag, or "
  "with a text whose section has no id, string no key or variant no context "
  "is refused with a parse error.",
  "every file with one such defect",
  "tests have one small file per error",
  ["openformats/formats/customizable_xml.py"],
  [("CustomizableXMLHandler._get_key",
    "openformats/formats/customizable_xml.py")],
  "A random valid file with one defect; non-trivial: there are other texts.",
  "negative property testing with injected faults (Hypothesis)")

P("P70", "Markdown: compiling with the extracted strings restores any document",
  "Whatever the text of a markdown document, each handler (version 1, "
  "version 2, JSX) parses it, numbers the strings in document order, leaves "
  "one place per string in the template, and compiling with the extracted "
  "strings restores the document but for the documented normalizations "
  "(tabs become spaces, lines of spaces are emptied, version 2 takes "
  "compatibility forms); compiling with translations changes nothing but the "
  "extracted texts.",
  "every text",
  "tests restore a few well-formed documents",
  ["openformats/formats/github_markdown.py",
   "openformats/formats/github_markdown_v2.py",
   "openformats/formats/markdown_jsx.py"],
  [("GithubMarkdownHandler.parse", "openformats/formats/github_markdown.py"),
   ("GithubMarkdownHandlerV2.parse",
    "openformats/formats/github_markdown_v2.py")],
  "Random lines of markdown syntax and text, well-formed or not; "
  "non-trivial: two or more strings.",
  "round-trip property testing on arbitrary text (Hypothesis)",
  assumptions=["alerts are not indented, and some newline is left in the "
               "template (see the known findings)"])

P("P71", "Markdown: exactly the text of each block is extracted and replaced",
  "Parsing a markdown document yields the text of every paragraph, heading, "
  "list item, quote, table cell, code or HTML block, footnote and link "
  "reference, and nothing else (no markers, delimiter rows, numbers or "
  "template tags), in order; compiling puts each translation in the place of "
  "its own text, also where the same text occurs elsewhere.",
  "every document made of these blocks",
  "tests have a few documents, with different texts in each block",
  ["openformats/formats/github_markdown.py",
   "openformats/formats/github_markdown_v2.py",
   "openformats/formats/markdown_jsx.py"],
  [("TxBlockLexer", "openformats/formats/github_markdown.py"),
   ("string_handler", "openformats/formats/github_markdown.py"),
   ("find_token", "openformats/formats/github_markdown.py")],
  "Random documents built from blocks whose texts are known; non-trivial: "
  "two or more strings.",
  "model-based property testing (Hypothesis)",
  assumptions=["paragraphs inside of lists have one line each; no horizontal "
               "rules (they are extracted by design)"])

P("P72", "Markdown headers: their strings are extracted and written as YAML",
  "For a markdown document that begins with a YAML header, version 2 and JSX "
  "extract the strings of the header as the YAML handler does, followed by "
  "those of the body. Compiling with any translations yields a header that is "
  "YAML and holds exactly the translations in place of the strings, with the "
  "keys, tags, anchors and other values unchanged.",
  "every header and set of translations",
  "tests have one header and one set of translations",
  ["openformats/formats/github_markdown_v2.py", "openformats/formats/yaml/"],
  [("GithubMarkdownHandlerV2._transform_yaml_string",
    "openformats/formats/github_markdown_v2.py"),
   ("GithubMarkdownHandlerV2._should_wrap_in_quotes",
    "openformats/formats/github_markdown_v2.py")],
  "Random YAML headers and translations with YAML syntax in them; "
  "non-trivial: two or more strings.",
  "model-based property testing against PyYAML (Hypothesis)",
  assumptions=["no block scalars and no translations in quotes as a whole or "
               "with a leading | (see the known findings)",
               "escapes of control characters are decoded in any text, as "
               "the handler documents"])

DOCX = "openformats/formats/docx.py"
PPTX = "openformats/formats/pptx.py"
XLSX = "openformats/formats/xlsx_unstructured.py"
OOXML = "openformats/formats/office_open_xml/parser.py"

P("P73", "Markdown 1 headers: each value is extracted and replaced in its place",
  "For a markdown document that begins with a YAML header, version 1 extracts "
  "the value of every line with a key, and the lines of every block (after |, > "
  "or [) as one text, in order, followed by the texts of the body; comments, "
  "keys, list items, numbers, template tags and empty values are left out. The "
  "template is the document with each text replaced where it stands, whatever "
  "other places hold the same text, and compiling replaces exactly the texts.",
  "every header made of keys, values, blocks, comments, lists and parents",
  "the tests have one header, whose values occur once",
  ["openformats/formats/github_markdown.py"],
  [("GithubMarkdownHandler.yaml_parser/parse",
    "openformats/formats/github_markdown.py")],
  "Random headers with repeated words; non-trivial: more than two strings.",
  "model-based round-trip property testing (Hypothesis)",
  assumptions=["values do not begin with a quote, bracket or hash, and have no "
               "blank lines within a block"])

P("P80", "DOCX: paragraphs are extracted with their links, untranslated is kept",
  "Parsing a DOCX extracts, in document order, one string for each paragraph "
  "with text (in the body, in tables and in text boxes), that holds the whole text and the "
  "external link of each part of it; spaces of blank runs go to the next text. "
  "Compiling the template with the untranslated strings gives back the same "
  "files: same names in the same order, an equivalent document and relations, "
  "and all other files byte by byte.",
  "every document",
  "tests use a few documents made with Word",
  [DOCX, OOXML],
  [("DocxHandler.parse", DOCX), ("OfficeOpenXmlHandler.parse_paragraph", OOXML),
   ("OfficeOpenXmlHandler.compile_paragraph", OOXML)],
  "Random documents: runs, properties, tabs, links (external, internal, "
  "missing), tables (also nested), text boxes, blank and empty texts, other files; non-trivial: two or "
  "more paragraphs with text.",
  "model-based property testing against an independent reader and writer of "
  "DOCX (Hypothesis)",
  assumptions=["texts do not contain tx, the tag of the handlers",
               "where the last part of a paragraph has no tags of its own the "
               "parts can be joined, and are only compared as text with links"])
P("P81", "DOCX: translations get into their paragraphs and nothing else changes",
  "Compiling a DOCX with translations puts the text of each one into its "
  "paragraph: part by part with their formatting when the translation has as "
  "many parts as the paragraph, otherwise with surplus runs removed or surplus "
  "parts joined to the last; the links of the paragraph are those of the "
  "translation. Paragraphs without translation, and all else, are unchanged. "
  "Right to left documents are marked as such in valid positions.",
  "every document and every set of translations",
  "tests use a few documents and translations",
  [DOCX, OOXML],
  [("OfficeOpenXmlHandler.compile_paragraph", OOXML),
   ("DocxHandler.remove_hyperlink", DOCX),
   ("DocxHandler.set_rtl_orientation", DOCX)],
  "Random documents and translations (per part, without tags, with more or "
  "less parts, with links added, changed and removed); non-trivial: two or "
  "more paragraphs.",
  "model-based property testing against an independent reader and writer of "
  "DOCX (Hypothesis)",
  assumptions=["as for P80", "links are changed one by one only where no other "
               "text shares the relation"])
P("P82", "PPTX: paragraphs are extracted in slide order, untranslated is kept",
  "Parsing a PPTX (versions 1 and 2) extracts one string for each paragraph "
  "with text of the shapes and tables, in the order of the slide numbers, the "
  "notes of a slide (tagged so) right after it, with the external link of each "
  "part; fields are left out. Version 2 keeps blank texts as parts. Compiling "
  "with the untranslated strings gives back equivalent slides and relations, "
  "and all other files byte by byte.",
  "every presentation",
  "tests use a few presentations",
  [PPTX, OOXML],
  [("PptxFile.get_slides", PPTX), ("PptxHandler.parse", PPTX),
   ("PptxHandlerV2.parse_paragraph", PPTX),
   ("OfficeOpenXmlHandler.parse_paragraph", OOXML)],
  "Random presentations: slides and notes in any order, shapes, groups, "
  "tables, fields, links, blank and empty texts; non-trivial: two or more "
  "paragraphs with text.",
  "model-based property testing against an independent reader and writer of "
  "PPTX (Hypothesis)",
  assumptions=["texts do not contain tx, the tag of the handlers"])
P("P83", "PPTX: translations get into their paragraphs and nothing else changes",
  "Compiling a PPTX (versions 1 and 2) with translations puts the text of each "
  "one into its paragraph, part by part with their formatting, surplus runs "
  "removed or surplus parts joined to the last text; links are those of the "
  "translation; fields keep their text and every run has a text. Paragraphs "
  "without translation are unchanged. Right to left paragraphs are marked.",
  "every presentation and every set of translations",
  "tests use a few presentations and translations",
  [PPTX, OOXML],
  [("OfficeOpenXmlHandler.compile_paragraph", OOXML),
   ("PptxHandlerV2.compile_paragraph", PPTX),
   ("PptxHandler.create_hyperlink_url", PPTX),
   ("PptxHandler.set_rtl_orientation", PPTX)],
  "Random presentations and translations as in P81; non-trivial: two or more "
  "strings.",
  "model-based property testing against an independent reader and writer of "
  "PPTX (Hypothesis)",
  assumptions=["as for P82", "references to relations that do not exist are "
               "left out where links are added"])
P("P84", "XLSX: texts of cells and sheet names are extracted and translated",
  "Parsing an XLSX extracts the sheet names and the texts of its cells (shared, "
  "inline, with external links, of HYPERLINK formulas), each once, in order of "
  "sheets and cells, with the names of the sheets it occurs in as comment. "
  "Compiling puts each translation into all of its cells, text by text, and "
  "leaves all else as it was: other cells, formatting, formulas, sheets, "
  "relations and files, without marks left behind.",
  "every workbook and every set of translations",
  "tests have one workbook",
  [XLSX, OOXML],
  [("XlsxUnstructuredHandler.parse", XLSX),
   ("XlsxUnstructuredHandler.compile", XLSX),
   ("XlsxUnstructuredHandler._prepare_string", XLSX)],
  "Random workbooks (with and without shared strings, rich texts, links, "
  "formulas, sheets in any order) and translations, or none; non-trivial: two "
  "or more cells with text.",
  "model-based property testing against an independent reader and writer of "
  "XLSX (Hypothesis)",
  assumptions=["texts do not contain tx, the tag of the handlers",
               "a formula has at most one HYPERLINK; its cached value is not "
               "specified"])
P("P85", "Office files: broken or hostile archives leave and touch no other files",
  "Whatever archive an office handler (DOCX, PPTX, XLSX) is given to parse or to "
  "compile - truncated, with missing or broken parts, with names and targets "
  "that point out of it - and whether it raises an error or not: nothing is left "
  "in the folder for temporary files, no file outside of it is written, and no "
  "content of such a file gets into the strings or the output.",
  "every archive",
  "no test gives the handlers an archive that is broken",
  [DOCX, PPTX, XLSX, OOXML],
  [("DocxFile", DOCX), ("PptxFile", PPTX), ("XlsxFile", XLSX)],
  "The documents of P80, P82 and P84 with a random fault: cut, garbage, a part "
  "dropped or broken, an entry or reference with .. or an absolute path (to "
  "files within the scratch folder); non-trivial: with a fault.",
  "fault injection with generated documents (Hypothesis), comparing the file "
  "system before and after",
  assumptions=["the faults that point out of the archive point to files in the "
               "scratch folder of the check"])

P("P86", "InDesign: the texts of stories are extracted in order and compile back",
  "Parsing an IDML file extracts every text of a story that has something to "
  "translate (a letter, a symbol or punctuation, and not a number or special "
  "characters alone), without the blanks around it, in the order of the design "
  "map and then the stories it does not list, counted from 0 for each file. "
  "Compiling with the extracted strings restores every file of the archive; "
  "with translations it replaces exactly the texts, escapes the ampersands and "
  "angle brackets that are not an entity or a special character, empties the "
  "texts that have no translation, and each story is still well-formed XML.",
  "every IDML file: stories listed or not, of any texts and special characters",
  "the tests parse one file and compile three fixed stories; they cannot even "
  "be run without ucflib",
  ["openformats/formats/indesign.py"],
  [("InDesignHandler.parse/compile", "openformats/formats/indesign.py")],
  "Random archives and translations, or none; non-trivial: two or more strings.",
  "model-based round-trip property testing (Hypothesis)",
  note="ucflib, the container library the handler imports, is not installed; "
  "a stand-in with its interface (props/stand_in/ucf.py) takes its place. ",
  assumptions=["a text does not go over several lines",
               "the stories the design map does not list may come in any order"])

P("P90", "Testbed: its API gives what the handlers give, and saved states come back",
  "For every format the testbed lists, parsing through its API returns the "
  "handler's template and all strings with all their attributes, and compiling "
  "returns what the handler compiles from the template and the strings as "
  "edited; an error of the handler is returned as such, with its message and "
  "without a result. A state that is saved is found, unchanged, under its link, "
  "the same link when it is saved again; other states have other links.",
  "every document of every text format, edits of the strings and template, and "
  "state to save",
  "the testbed has no tests at all",
  ["testbed/main/views.py", "testbed/main/models.py", "testbed/main/urls.py"],
  [("ApiView", "testbed/main/views.py"), ("SaveView", "testbed/main/views.py"),
   ("MainView", "testbed/main/views.py"), ("Payload", "testbed/main/models.py")],
  "The documents of P04, whole, mutated or arbitrary, edits of the strings, and "
  "states saved once or twice; non-trivial: strings, or an error.",
  "differential property testing of the HTTP API against the handlers, and "
  "round-trips of what is saved (Hypothesis)",
  note="The views are called by Django's request factory through their URLs, "
  "with a database in memory. ")
