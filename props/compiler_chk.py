"""The helper that compiles strings in the order of the template."""
from openformats.exceptions import RuleError
from openformats.handlers import Handler
from openformats.strings import OpenString
from openformats.utils.compilers import OrderedCompilerMixin

from .common_chk import crlf, placeholder, uniform

NAMES = ("zero", "one", "two", "few", "many", "other")


def check(case, rec):
    class Sample(OrderedCompilerMixin, Handler):
        plural_template = case["plural"]

    strings, template, want = [], [], []
    for line in case["lines"]:
        given, plain = "", []
        for p in line:
            if isinstance(p, str):
                given += p
                plain.append([p])
                continue
            key = "key%d" % len(strings)
            rules, values = p["rules"], p["values"]
            hash_ = placeholder(key, plural=rules is not None)
            given += hash_
            if p["left"]:       # a placeholder that no string is given for
                strings.append(None)
                plain.append([hash_])
            elif rules is None:
                strings.append(OpenString(key, values[0]))
                plain.append([values[0]])
            else:
                strings.append(OpenString(key, dict(zip(rules, values)), pluralized=True))
                plain.append([case["plural"].format(rule=NAMES[r], string=v)
                              for r, v in zip(rules, values)])
        template.append(given)
        own = len(line) == 3 and isinstance(line[1], dict) and line[1]["rules"] \
            and not line[1]["left"] and not line[0].strip() and not line[2].strip()
        if own:
            rec.label("line of its own")
            want += [line[0] + form + line[2] for form in plain[1]]
        else:
            if any(len(forms) > 1 for forms in plain):
                rec.label("within a line")
            want.append("".join("".join(forms) for forms in plain))
    end = "\n" if case["end"] else ""
    template = uniform("\n".join(template) + end, case["nl"])
    given = [s for s in strings if s is not None]
    rec.show("%r %s" % (template, [s._strings for s in given]))
    rec.nt(sum(s.pluralized for s in given) > 0 and len(given) > 1)
    rec.label(case["nl"].replace("\r", "CR").replace("\n", "LF"))
    got = Sample().compile(template, given)
    if "\r\n" in template:
        rec.eq(got.count("\r\n"), got.count("\n"), "line ends of the file")
        got = got.replace("\r\n", "\n")
    want = "\n".join(want)
    if not end and own and got == want + "\n":
        rec.label("ended the last line")
    else:
        rec.eq(got, want + end, "compiled")

    for i, name in enumerate(NAMES):
        rec.eq(Sample.get_rule_number(name), i, "number of a rule")
        rec.eq(Sample.get_rule_string(i), name, "name of a rule")
    if case["rule"] not in range(6):
        rec.raises(RuleError, lambda: Sample.get_rule_string(case["rule"]), "no such rule")
        rec.raises(RuleError, lambda: Sample.get_rule_number(str(case["rule"])), "no such rule")
